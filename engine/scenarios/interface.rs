//! P21..P23: what the JSON interface of the binary reads, composes and writes
use super::geom::*;
use super::polylines::*;
use super::*;
use nlsn_bin::json_serializar::models::{
    action::Action,
    input::{RefineParams, TriangulationInput},
    output::TriangulationOutput,
    point::Point,
};
use nlsn_bin::triangulator_interface::{self, domain_evaluator, interpreter};
use nlsn_delaunay::elements::{edge::Edge, polyline::*, vertex::Vertex};
use nlsn_delaunay::properties::continence::{BoundaryInclusion, Continence};
use std::rc::Rc;

fn point(v: &V) -> Point {
    Point { x: v.x, y: v.y, z: f(0.0) }
}
fn act(intent: &str, geometry: &str, points: &[V]) -> Action {
    Action { intent: intent.to_string(), geometry: geometry.to_string(), scalars: vec![], points: points.iter().map(|v| point(v)).collect(), assemble: vec![] }
}
fn input(actions: Vec<Action>) -> TriangulationInput {
    TriangulationInput {
        id: uuid::Uuid::from_u128(0x1234_5678_9abc_def0),
        name: "sample".to_string(),
        date: "2020-09-03T00:09:27.591Z".to_string(),
        actions,
        params: RefineParams { max_area: Some(f(2.5)), quality: f(1.25) },
    }
}
type Parsed = (Vec<Rc<Polyline>>, Vec<Rc<Polyline>>, Vec<Rc<Edge>>, Vec<V>);
/// the interpreter's result; it must not panic
fn read(i: &TriangulationInput) -> Option<Parsed> {
    match attempt(|| interpreter::parse(i)) {
        Ok(Ok((a, b, c, d, p))) => {
            check(p.max_area.map(|a| q(a)) == i.params.max_area.map(|a| q(a)) && q(p.quality_ratio) == q(i.params.quality), "the refinement parameters are not the ones given");
            Some((a, b, c.iter().cloned().collect(), d.iter().cloned().collect()))
        }
        Ok(Err(_)) => None,
        Err(m) => fail(format!("reading the input panics: {}", m)),
    }
}
fn is_chain(p: &Polyline, vs: &[V]) -> bool {
    !p.opened && p.vertices.len() == vs.len() && p.vertices.iter().zip(vs).all(|(a, b)| q(a.x) == q(b.x) && q(a.y) == q(b.y))
}
fn vs2(c: &[(i32, i32)]) -> Vec<V> {
    c.iter().map(|p| vi(p.0, p.1)).collect()
}
fn rect_v(x: F, y: F, w: F, h: F) -> Vec<V> {
    vec![vx(x, y), vx(x + w, y), vx(x + w, y + h), vx(x, y + h)]
}
/// an axis-parallel box: left, right, low, high
type B = (Q, Q, Q, Q);
fn bx(x: F, y: F, w: F, h: F) -> B {
    (q(x), q(x + w), q(y), q(y + h))
}
fn qmax(a: Q, b: Q) -> Q {
    if a < b {
        b
    } else {
        a
    }
}
fn qmin(a: Q, b: Q) -> Q {
    if a < b {
        a
    } else {
        b
    }
}
/// the box both share, if it has an area
fn meet(a: B, b: B) -> Option<B> {
    let r = (qmax(a.0, b.0), qmin(a.1, b.1), qmax(a.2, b.2), qmin(a.3, b.3));
    if r.0 < r.1 && r.2 < r.3 {
        Some(r)
    } else {
        None
    }
}
fn is_apart(a: B, b: B) -> bool {
    a.1 < b.0 || b.1 < a.0 || a.3 < b.2 || b.3 < a.2
}
/// do they share a point without sharing a piece of a side or an area?
fn at_corner(a: B, b: B) -> bool {
    (a.1 == b.0 || b.1 == a.0) && (a.3 == b.2 || b.3 == a.2)
}
/// a inside b, without touching it
fn within_open(a: B, b: B) -> bool {
    b.0 < a.0 && a.1 < b.1 && b.2 < a.2 && a.3 < b.3
}
fn within_closed(a: B, b: B) -> bool {
    b.0 <= a.0 && a.1 <= b.1 && b.2 <= a.2 && a.3 <= b.3
}
fn box2(b: B) -> Q {
    (b.1 - b.0) * (b.3 - b.2) * qi(2)
}
/// twice the area boxes cover together
fn cover2(bs: &[B]) -> Q {
    match bs.split_first() {
        None => zero(),
        Some((b, rest)) => {
            let clipped: Vec<B> = rest.iter().filter_map(|r| meet(*b, *r)).collect();
            box2(*b) + cover2(rest) - cover2(&clipped)
        }
    }
}
fn compose(inc: &[Rc<Polyline>], rem: &[Rc<Polyline>]) -> Option<(Rc<Polyline>, Vec<Rc<Polyline>>)> {
    let (inc, rem) = (inc.to_vec(), rem.to_vec());
    match attempt(|| domain_evaluator::boundary(&inc, &rem)) {
        Ok(Ok((b, unused))) => {
            let l = match attempt(|| domain_evaluator::holes(&b, &unused)) {
                Ok(l) => l,
                Err(m) => fail(format!("composing the holes panics: {}", m)),
            };
            Some((b, l.iter().cloned().collect()))
        }
        Ok(Err(_)) => None,
        Err(m) => fail(format!("composing the boundary panics: {}", m)),
    }
}
/// the composed domain covers what it has to; its holes are inside, apart from each other
fn domain_ok(b: &Polyline, holes: &[Rc<Polyline>], want2: Q) {
    let b2 = area2(&pts(b));
    check(sgn(b2) > 0, "the composed boundary is not counterclockwise");
    let mut got = b2;
    for (i, h) in holes.iter().enumerate() {
        let h2 = area2(&pts(h));
        check(sgn(h2) > 0, "a composed hole is not counterclockwise");
        got = got - h2;
        let hp = pts(h);
        check(hp.iter().all(|p| locate(&pts(b), *p) > 0), "a composed hole is not inside the boundary");
        for o in holes[..i].iter() {
            check(hp.iter().all(|p| locate(&pts(o), *p) < 0) && pts(o).iter().all(|p| locate(&hp, *p) < 0), "composed holes overlap");
        }
    }
    check(near(got, want2), "the composed domain is not the includes without the removals");
}

/// the whole way from the actions to the output; may_reject: the domain is no polygon with holes
fn pipeline_ok(acts: Vec<Action>, want2: Q, given: Option<Vec<V>>, may_reject: bool) {
    let i = input(acts);
    let (mut t, params) = match attempt(|| triangulator_interface::parse(&i)) {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => {
            check(may_reject, "a valid input is rejected");
            return reach("rejected");
        }
        Err(m) => fail(format!("reading a valid input panics: {}", m)),
    };
    check(params.max_area.map(|a| q(a)) == Some(q(f(2.5))) && q(params.quality_ratio) == q(f(1.25)), "the refinement parameters are not the ones given");
    if let Err(m) = attempt(|| t.triangulate()) {
        fail(format!("triangulating a valid input panics: {}", m))
    }
    let o = match attempt(|| TriangulationOutput::from_triangulator(&i, &t)) {
        Ok(o) => o,
        Err(m) => fail(format!("writing the output panics: {}", m)),
    };
    check(o.id == i.id && o.name == i.name && o.date == i.date, "the output does not carry the id, name and date of the input");
    check(o.tetrahedrons.is_empty(), "a plane triangulation has tetrahedrons");
    let p: Vec<P> = o.coordinates.iter().map(|c| (q(c.x), q(c.y))).collect();
    check(o.coordinates.iter().all(|c| q(c.z) == zero()), "a coordinate of a plane triangulation leaves the plane");
    for i in 0..p.len() {
        for j in 0..i {
            check(!same_pt(p[i], p[j]), "a vertex is written twice");
        }
    }
    if let Some(g) = given {
        check(g.len() == p.len() && g.iter().all(|v| p.iter().any(|w| same_pt(*w, pt(v)))), "the coordinates are not the vertices given");
    }
    let (mut got, mut used) = (zero(), vec![false; p.len()]);
    let mut sides = std::collections::BTreeSet::new();
    for t in o.triangles.iter() {
        check(t.v1 < p.len() && t.v2 < p.len() && t.v3 < p.len(), "a triangle refers to a coordinate that is not there");
        let a = orient(p[t.v1], p[t.v2], p[t.v3]);
        check(sgn(a) > 0, "a written triangle is not counterclockwise");
        got = got + a;
        for (a, b) in [(t.v1, t.v2), (t.v2, t.v3), (t.v3, t.v1)].iter() {
            check(sides.insert((*a, *b)), "written triangles overlap");
            used[*a] = true;
        }
    }
    check(used.iter().all(|u| *u), "a coordinate is in no triangle");
    check(near(got, want2), "the written triangles do not cover the domain");
}

pub fn register(v: &mut Vec<Scn>) {
    // ------------------------------------------------------------------ P21
    let pipeline = |name: &'static str, text: &'static str, orders: u32, make: fn() -> (Vec<Action>, Q, Option<Vec<V>>)| {
        scn("P21", name, text, move || {
            let (acts, want2, given) = make();
            pipeline_ok(acts, want2, given, false);
        })
        .orders(orders)
        .steps(1_000_000)
    };
    v.push(pipeline("quad", "an inclusion (0,0),(12,0),(x,y),(0,8), convex, with a vertex anywhere inside it, coordinates any integer in [1,16]", 1, || {
        let c = sv("c", 1, 16);
        let d = vec![vi(0, 0), vi(12, 0), c, vi(0, 8)];
        let n = 4;
        for i in 0..n {
            assume_pos(orient(pt(&d[i]), pt(&d[(i + 1) % n]), pt(&d[(i + 2) % n])));
        }
        let w = sv("w", 1, 15);
        assume(locate(&d.iter().map(|v| pt(v)).collect::<Vec<_>>(), pt(&w)) > 0);
        let all = d.iter().cloned().chain(std::iter::once(w.clone())).collect();
        let want = area2(&d.iter().map(|v| pt(v)).collect::<Vec<_>>());
        (vec![act("include", "polyline", &d), act("constraint", "vertices", &[w])], want, Some(all))
    }));
    v.push(pipeline("hole", "an inclusion [0,20]x[0,14] with a removal of 4x3 strictly inside and a constraint segment along its left, integer coordinates", 1, || {
        let (x, y) = (var("x", 3, 15), var("y", 1, 10));
        let d = rect_v(f(0.0), f(0.0), f(20.0), f(14.0));
        let h = rect_v(x, y, f(4.0), f(3.0));
        let s = [vx(f(1.0), y), vx(f(2.0), y + f(2.0))];
        let all = d.iter().chain(h.iter()).chain(s.iter()).cloned().collect();
        let i = match pick("order", 3) {
            0 => vec![act("include", "polyline", &d), act("remove", "polyline", &h), act("constraint", "segments", &s)],
            1 => vec![act("constraint", "segments", &s), act("remove", "polyline", &h), act("include", "polyline", &d)],
            _ => vec![act("remove", "polyline", &h), act("include", "polyline", &d), act("constraint", "segments", &s)],
        };
        (i, qi(2 * (20 * 14 - 12)), Some(all))
    }));
    v.push(pipeline("compose", "an inclusion [0,8]x[0,6], an inclusion of 5x4 that overlaps it and a removal of 2x1 at (1,1), integer coordinates", 0, || {
        let (x, y) = (var("x", -4, 7), var("y", -3, 5));
        let h = bx(f(1.0), f(1.0), f(2.0), f(1.0));
        let (a, b) = (bx(f(0.0), f(0.0), f(8.0), f(6.0)), bx(x, y, f(5.0), f(4.0)));
        // no corner of one on a side of the other
        assume(is_apart(b, h) || within_open(h, b) || meet(b, h).is_some());
        let i = vec![
            act("include", "polyline", &rect_v(f(0.0), f(0.0), f(8.0), f(6.0))),
            act("include", "polyline", &rect_v(x, y, f(5.0), f(4.0))),
            act("remove", "polyline", &rect_v(f(1.0), f(1.0), f(2.0), f(1.0))),
        ];
        (i, cover2(&[a, b]) - box2(h), None)
    }));
    v.push(
        scn("P21", "corners", "an inclusion [0,12]x[0,10] with removals [3,6]x[4,6] and of 2x4 anywhere, in either order, integer coordinates; rejected only where the domain is left with a single vertex between removals", || {
            let (z, t) = (var("z", -3, 13), var("t", -5, 11));
            let bs = [bx(f(0.0), f(0.0), f(12.0), f(10.0)), bx(f(3.0), f(4.0), f(3.0), f(2.0)), bx(z, t, f(2.0), f(4.0))];
            let pinched = at_corner(bs[1], bs[2]);
            let mut i = vec![
                act("include", "polyline", &rect_v(f(0.0), f(0.0), f(12.0), f(10.0))),
                act("remove", "polyline", &rect_v(f(3.0), f(4.0), f(3.0), f(2.0))),
                act("remove", "polyline", &rect_v(z, t, f(2.0), f(4.0))),
            ];
            if pick("swapped", 2) == 1 {
                i.swap(1, 2);
            }
            pipeline_ok(i, cover2(&bs) - cover2(&bs[1..]), None, pinched);
        })
        .steps(1_000_000),
    );
    v.push(
        scn("P21", "touching", "the inclusion [0,10]x[0,8] and a removed triangle (x,y),(x+4,y-2),(x+4,y+2) or its mirror image, its corner on a side or off it, any integer offset in [-6,14]x[-3,11]; rejected only if it touches a side with a corner, or sides meet more than twice", || {
            let (x, y) = (var("x", -6, 14), var("y", -3, 11));
            let m = pick("mirrored", 2) == 1;
            let s = if m { -4.0 } else { 4.0 };
            let mut b = vec![vx(x, y), vx(x + f(s), y + f(-2.0)), vx(x + f(s), y + f(2.0))];
            if m {
                b.reverse();
            }
            let a = rect_v(f(0.0), f(0.0), f(10.0), f(8.0));
            let (pa, pb): (Vec<P>, Vec<P>) = (a.iter().map(|v| pt(v)).collect(), b.iter().map(|v| pt(v)).collect());
            let c = clip(&pb, &pa);
            let i2 = if c.len() > 2 { area2(&c) } else { zero() };
            let on = pb.iter().filter(|p| locate(&pa, **p) == 0).count();
            // sides that meet more than twice split the domain
            let n = (0..4).map(|i| (0..3).filter(|j| segs_meet(pa[i], pa[(i + 1) % 4], pb[*j], pb[(j + 1) % 3])).count()).sum::<usize>();
            pipeline_ok(vec![act("include", "polyline", &a), act("remove", "polyline", &b)], area2(&pa) - i2, None, on > 0 || n > 2);
        })
        .steps(1_000_000),
    );
    v.push(
        scn("P21", "constraints", "an inclusion [0,14]x[0,10] with a removal [9,12]x[2,6], the segments (2,2)-(4,7) and from (5,2) to any integer coordinates in [-2,16], and the vertices (2,8) and (7,9), in one action or several: they are kept, or all rejected where the segment leaves the domain", || {
            let (d, h) = (rect_v(f(0.0), f(0.0), f(14.0), f(10.0)), rect_v(f(9.0), f(2.0), f(3.0), f(4.0)));
            let (pd, ph): (Vec<P>, Vec<P>) = (d.iter().map(|v| pt(v)).collect(), h.iter().map(|v| pt(v)).collect());
            let (s1, s2, a, b) = (vi(2, 2), vi(4, 7), vi(5, 2), sv("b", -2, 16));
            let ws = vs2(&[(2, 8), (7, 9)]);
            let given: Vec<V> = d.iter().chain(h.iter()).chain([&s1, &s2, &a, &b].iter().cloned()).chain(ws.iter()).cloned().collect();
            // b is none of the others, and nothing lies on the segment to it
            for v in given.iter().filter(|v| !Rc::ptr_eq(v, &b)) {
                assume(!same_pt(pt(v), pt(&b)));
            }
            let (pa, pb) = (pt(&a), pt(&b));
            assume(!segs_meet(pa, pb, pt(&s1), pt(&s2)) && ws.iter().all(|w| !on_seg(pa, pb, pt(w))));
            let meets = (0..4).any(|i| segs_meet(pa, pb, ph[i], ph[(i + 1) % 4]) || segs_meet(pa, pb, pd[i], pd[(i + 1) % 4]));
            let inside = locate(&pd, pb) > 0 && !meets;
            // a corner of it may be on the outline
            let outside = locate(&pd, pb) < 0 || locate(&ph, pb) > 0;
            assume(inside || outside);
            let mut i = vec![act("include", "polyline", &d), act("remove", "polyline", &h)];
            match pick("actions", 3) {
                0 => i.push(act("constraint", "segments", &[s1, s2, a, b])),
                1 => i.extend(vec![act("constraint", "segments", &[a, b]), act("constraint", "segments", &[s1, s2])]),
                _ => i.insert(0, act("constraint", "segments", &[s1, s2, a, b])),
            }
            if pick("vertices", 2) == 0 {
                i.push(act("constraint", "vertices", &ws));
            } else {
                i.insert(1, act("constraint", "vertices", &ws[..1]));
                i.push(act("constraint", "vertices", &ws[1..]));
            }
            if outside {
                reach("outside");
                return match attempt(|| triangulator_interface::parse(&input(i)).is_ok()) {
                    Ok(g) => check(!g, "a segment that leaves the domain is accepted with others"),
                    Err(m) => fail(format!("reading the input panics: {}", m)),
                };
            }
            reach("inside");
            pipeline_ok(i, qi(2 * (140 - 12)), Some(given), false);
        })
        .reach(&["inside", "outside"])
        .steps(1_000_000),
    );
    v.push(
        scn("P21", "vertices", "an inclusion [0,14]x[0,10] with a removal [5,8]x[3,6], and three vertices, (2,8), (11,4) and any integer coordinates in [-2,16], in one action or several: they are kept, or all rejected where one is not in the domain", || {
            let (d, h) = (rect_v(f(0.0), f(0.0), f(14.0), f(10.0)), rect_v(f(5.0), f(3.0), f(3.0), f(3.0)));
            let (pd, ph): (Vec<P>, Vec<P>) = (d.iter().map(|v| pt(v)).collect(), h.iter().map(|v| pt(v)).collect());
            let b = sv("b", -2, 16);
            let mut ws = vs2(&[(2, 8), (11, 4)]);
            for w in ws.iter() {
                assume(!same_pt(pt(w), pt(&b)));
            }
            let inside = locate(&pd, pt(&b)) > 0 && locate(&ph, pt(&b)) < 0;
            let outside = locate(&pd, pt(&b)) < 0 || locate(&ph, pt(&b)) > 0;
            assume(inside || outside);
            ws.insert(pick("place", 3) as usize, b);
            let given: Vec<V> = d.iter().chain(h.iter()).chain(ws.iter()).cloned().collect();
            let mut i = vec![act("include", "polyline", &d), act("remove", "polyline", &h)];
            match pick("actions", 3) {
                0 => i.push(act("constraint", "vertices", &ws)),
                1 => i.insert(0, act("constraint", "vertices", &ws)),
                _ => i.extend(vec![act("constraint", "vertices", &ws[..1]), act("constraint", "vertices", &ws[1..])]),
            }
            if outside {
                reach("outside");
                return match attempt(|| triangulator_interface::parse(&input(i)).is_ok()) {
                    Ok(g) => check(!g, "a vertex out of the domain is accepted with others"),
                    Err(m) => fail(format!("reading the input panics: {}", m)),
                };
            }
            reach("inside");
            pipeline_ok(i, qi(2 * (140 - 9)), Some(given), false);
        })
        .reach(&["inside", "outside"])
        .steps(1_000_000),
    );
    // ------------------------------------------------------------------ P22
    for every in [false, true].iter() {
        let every = *every;
        let text = format!(
            "a polyline of 3 or 4 distinct vertices, coordinates any integer in [-8,8]{}, no corner on another side, no corner folded back, to be included or removed",
            if every { "" } else { ", the first side of 4 one of three (level, upright, slanted)" }
        );
        let sc = scn("P22", if every { "polyline-any" } else { "polyline" }, &text, move || {
            let n = 3 + pick("n", 2) as usize;
            let mut vs: Vec<V> = ["a", "b", "c", "d"][..n].iter().map(|s| sv(s, -8, 8)).collect();
            if n == 4 && !every {
                vs[0] = vi(0, 0);
                vs[1] = [vi(5, 0), vi(0, -4), vi(-4, 3)][pick("side", 3) as usize].clone();
            }
            let ps: Vec<P> = vs.iter().map(|v| pt(v)).collect();
            let mut crossed = false;
            for i in 0..n {
                let (a, b, c) = (ps[i], ps[(i + 1) % n], ps[(i + 2) % n]);
                assume(!same_pt(a, b) && !same_pt(a, c));
                assume(sgn(orient(a, b, c)) != 0);
                if n == 4 {
                    let d = ps[(i + 3) % n];
                    assume(!on_seg(c, d, a) && !on_seg(c, d, b));
                    crossed = crossed || segs_meet(a, b, c, d);
                }
            }
            let intent = ["include", "remove", "constraint"][pick("intent", 3) as usize];
            let got = read(&input(vec![act(intent, "polyline", &vs)]));
            reach(if crossed { "crossed" } else { "simple" });
            match got {
                None => check(crossed || intent == "constraint", "a simple polyline is rejected"),
                Some((inc, rem, s, w)) => {
                    check(!crossed, "a polyline that crosses itself is read");
                    check(intent != "constraint", "a polyline is read as a constraint");
                    check(s.is_empty() && w.is_empty(), "a polyline is read as constraints");
                    let (l, o) = if intent == "include" { (inc, rem) } else { (rem, inc) };
                    check(o.is_empty() && l.len() == 1 && is_chain(&l[0], &vs), "a polyline is not read as given");
                }
            }
        })
        .reach(&["crossed", "simple"]);
        v.push(if every { sc.thorough() } else { sc });
    }
    v.push(
        scn("P22", "polyline-studded", "a quadrilateral with a colinear corner on one of its sides, or with less than three corners, moved by any integer offset in [-50,50]", || {
            let (x, y) = (var("x", -50, 50), var("y", -50, 50));
            let shapes: &[&[(i32, i32)]] = &[&[], &[(0, 0)], &[(0, 0), (4, 1)], &[(0, 0), (3, 1), (6, 2), (5, 6), (1, 5)], &[(0, 0), (7, 0), (7, 3), (7, 5), (0, 5)], L_SHAPE];
            let k = pick("shape", shapes.len() as u32) as usize;
            let vs: Vec<V> = shapes[k].iter().map(|p| vx(x + f(p.0 as f64), y + f(p.1 as f64))).collect();
            match read(&input(vec![act("include", "polyline", &vs)])) {
                None => check(vs.len() < 3, "a simple polyline is rejected"),
                Some((inc, _, _, _)) => check(vs.len() >= 3 && inc.len() == 1 && is_chain(&inc[0], &vs), "a polyline is not read as given"),
            }
        }),
    );
    v.push(
        scn("P22", "segments", "up to 5 points, coordinates any integer in [-8,8], taken two by two or by one or two index lists of any indices up to 5, the segments of positive length", || {
            let n = pick("points", 6) as usize;
            let vs: Vec<V> = ["a", "b", "c", "d", "e"][..n].iter().map(|s| sv(s, -8, 8)).collect();
            let mut a = act("constraint", "segments", &vs);
            let mut want: Option<Vec<(V, V)>> = Some(vec![]);
            match pick("by", 3) {
                0 => {
                    if n % 2 == 1 {
                        want = None
                    } else {
                        want = Some(vs.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect())
                    }
                }
                k => {
                    for l in 0..k {
                        let names: [&str; 3] = if l == 0 { ["length", "first", "second"] } else { ["length 2", "first 2", "second 2"] };
                        let len = pick(names[0], 4) as usize;
                        if len < 2 {
                            a.assemble.push((0..len).collect());
                            want = None;
                            continue;
                        }
                        let (i, j) = (pick(names[1], 6) as usize, pick(names[2], 6) as usize);
                        let mut s = vec![i, j];
                        s.resize(len, 0);
                        a.assemble.push(s);
                        if i < n && j < n {
                            assume(i != j);
                            if let Some(w) = want.as_mut() {
                                w.push((vs[i].clone(), vs[j].clone()))
                            }
                        } else {
                            want = None;
                        }
                    }
                }
            }
            match (read(&input(vec![a])), want) {
                (None, None) => reach("rejected"),
                (None, _) => fail("segments are rejected".into()),
                (_, None) => fail("segments without two given points are read".into()),
                (Some((i, r, s, w)), Some(want)) => {
                    reach("read");
                    check(i.is_empty() && r.is_empty() && w.is_empty(), "segments are read as something else");
                    let is = |e: &Edge, p: &(V, V)| same_pt(pt(&e.v1), pt(&p.0)) && same_pt(pt(&e.v2), pt(&p.1));
                    check(want.iter().all(|p| s.iter().any(|e| is(e, p))), "a segment is not read");
                    check(s.iter().all(|e| want.iter().any(|p| is(e, p))), "a segment that was not given is read");
                    check(s.len() <= want.len(), "a segment is read twice");
                }
            }
        })
        .reach(&["rejected", "read"]),
    );
    v.push(
        scn("P22", "vertices", "up to 3 vertices in one action or spread over two, with segments in two actions, coordinates any integer in [-8,8]", || {
            let n = pick("points", 4) as usize;
            let k = pick("split", 4) as usize;
            assume(k <= n);
            let vs: Vec<V> = ["a", "b", "c"][..n].iter().map(|s| sv(s, -8, 8)).collect();
            let e = [sv("p", -8, 8), vi(20, 3)];
            let g = [sv("r", -8, 8), vi(20, 4)];
            let acts = vec![act("constraint", "vertices", &vs[..k]), act("constraint", "segments", &e), act("constraint", "vertices", &vs[k..]), act("constraint", "segments", &g)];
            match read(&input(acts)) {
                None => fail("vertices are rejected".into()),
                Some((i, r, s, w)) => {
                    check(i.is_empty() && r.is_empty(), "constraints are read as polylines");
                    check(vs.iter().all(|v| w.iter().any(|u| same_pt(pt(u), pt(v)))), "a vertex is not read");
                    check(w.iter().all(|u| vs.iter().any(|v| same_pt(pt(u), pt(v)))), "a vertex that was not given is read");
                    check((0..w.len()).all(|i| (0..i).all(|j| !same_pt(pt(&w[i]), pt(&w[j])))), "a vertex is read twice");
                    check(s.len() == 2, "the segments of two actions are not read");
                    for p in [&e, &g].iter() {
                        check(s.iter().any(|s| same_pt(pt(&s.v1), pt(&p[0])) && same_pt(pt(&s.v2), pt(&p[1]))), "the segments of two actions are not read");
                    }
                }
            }
        }),
    );
    v.push(
        scn("P22", "circle", "a circle of 3, 4, 6, 12 (or 3/8 more or less) or by default 100 corners around any integer center in [-50,50]^2, its radius any multiple of 1/64 up to 1000, or with less than three corners, without radius or center", || {
            let (x, y) = (var("x", -50, 50), var("y", -50, 50));
            let n = [None, Some(0), Some(2), Some(3), Some(4), Some(6), Some(12)][pick("corners", 7) as usize];
            // a resolution that is no integer stands for the nearest one
            let part = [0.0, 0.375, -0.375][pick("part", 3) as usize];
            assume(n != Some(0) || part >= 0.0);
            let r = varg("radius", 0.0, 1000.0, 6);
            assume(r > f(0.0));
            let mut a = act("include", "circle", &[vx(x, y)]);
            a.scalars = vec![r];
            if let Some(n) = n {
                a.scalars.push(f(n as f64 + part));
            }
            let miss = pick("missing", 4);
            match miss {
                1 => a.scalars.clear(),
                2 => a.points.clear(),
                3 => a.points.push(point(&vi(1, 1))),
                _ => {}
            }
            let count = n.unwrap_or(100) as usize;
            match read(&input(vec![a])) {
                None => check(miss != 0 || count < 3, "a circle is rejected"),
                Some((inc, _, _, _)) => {
                    check(miss == 0 && count >= 3, "a circle without its radius, its center or its corners is read");
                    check(inc.len() == 1 && inc[0].vertices.len() == count && !inc[0].opened, "a circle has the wrong number of corners");
                    let c = (q(x), q(y));
                    let p = pts(&inc[0]);
                    let r = q(r);
                    let eps = q(f(1e-9)) * r * r;
                    // side² = 2 r² (1 - cos(2 pi / n))
                    let side = q(f(2.0 - 2.0 * (2.0 * std::f64::consts::PI / count as f64).cos())) * r * r;
                    for i in 0..count {
                        let d = dist2(c, p[i]) - r * r;
                        check(d < eps && -d < eps, "a corner of a circle is not at its radius");
                        let s = dist2(p[i], p[(i + 1) % count]) - side;
                        check(s < eps && -s < eps, "the corners of a circle are not evenly spread");
                        check(sgn(orient(p[i], p[(i + 1) % count], p[(i + 2) % count])) > 0, "the corners of a circle do not go counterclockwise");
                    }
                }
            }
        }),
    );
    v.push(
        scn("P22", "kinds", "any intent of include, remove, constraint, others, with any geometry of polyline, circle, segments, vertices, others, before or after a valid action, the center any integer in [-50,50]^2", || {
            let intent = ["include", "remove", "constraint", "", "Include", "exclude"][pick("intent", 6) as usize];
            let geometry = ["polyline", "circle", "segments", "vertices", "", "spline", "Polyline"][pick("geometry", 7) as usize];
            let (x, y) = (var("x", -50, 50), var("y", -50, 50));
            let at = |i: i32, j: i32| vx(x + f(i as f64), y + f(j as f64));
            let mut a = act(intent, geometry, &if geometry == "circle" { vec![at(0, 0)] } else { vec![at(0, 0), at(4, 0), at(4, 4), at(0, 4)] });
            if geometry == "circle" {
                a.scalars = vec![f(1.0), f(5.0)];
            }
            let other = act("remove", "polyline", &rect_v(f(100.0), f(100.0), f(2.0), f(2.0)));
            let acts = match pick("with", 3) {
                0 => vec![a],
                1 => vec![other, a],
                _ => vec![a, other],
            };
            let extra = acts.len() - 1;
            let solid = geometry == "polyline" || geometry == "circle";
            let valid = solid && (intent == "include" || intent == "remove") || (geometry == "segments" || geometry == "vertices") && intent == "constraint";
            match read(&input(acts)) {
                None => check(!valid, "a valid action is rejected"),
                Some((i, r, s, w)) => {
                    check(valid, "an action of unknown kind is read");
                    check(i.len() == (solid && intent == "include") as usize, "an inclusion is not read as such");
                    check(r.len() == extra + (solid && intent == "remove") as usize, "a removal is not read as such");
                    check(s.len() == if geometry == "segments" { 2 } else { 0 }, "segments are not read as such");
                    check(w.len() == if geometry == "vertices" { 4 } else { 0 }, "vertices are not read as such");
                }
            }
        }),
    );
    v.push(
        scn("P22", "conflict", "an inclusion [0,12]x[0,9] with a removal [4,6]x[3,6], and a vertex or a segment of any integer coordinates in [-3,15]: rejected as soon as it is not inside", || {
            let d = rect_v(f(0.0), f(0.0), f(12.0), f(9.0));
            let h = rect_v(f(4.0), f(3.0), f(2.0), f(3.0));
            let (pd, ph): (Vec<P>, Vec<P>) = (d.iter().map(|v| pt(v)).collect(), h.iter().map(|v| pt(v)).collect());
            let a = sv("a", -3, 15);
            let inside = locate(&pd, pt(&a)) > 0 && locate(&ph, pt(&a)) < 0;
            let outside = locate(&pd, pt(&a)) < 0 || locate(&ph, pt(&a)) > 0;
            let mut acts = vec![act("include", "polyline", &d), act("remove", "polyline", &h)];
            let seg = pick("segment", 2) == 1;
            if seg {
                acts.push(act("constraint", "segments", &[vi(2, 8), a.clone()]));
                assume(!same_pt(pt(&a), pt(&vi(2, 8))));
            } else {
                acts.push(act("constraint", "vertices", &[a.clone()]));
            }
            let got = match attempt(|| triangulator_interface::parse(&input(acts)).is_ok()) {
                Ok(g) => g,
                Err(m) => fail(format!("reading the input panics: {}", m)),
            };
            if outside {
                reach("outside");
                check(!got, "a constraint outside of the domain is read");
            } else if inside && !seg {
                reach("inside");
                check(got, "a vertex inside the domain is rejected");
            } else if inside {
                let b = pt(&vi(2, 8));
                if (0..4).any(|i| segs_meet(b, pt(&a), ph[i], ph[(i + 1) % 4])) {
                    if (0..4).all(|i| !on_seg(b, pt(&a), ph[i])) {
                        reach("through");
                        check(!got, "a segment through a removal is read");
                    }
                } else {
                    check(got, "a segment inside the domain is rejected");
                }
            }
        })
        .reach(&["outside", "inside", "through"]),
    );
    // ------------------------------------------------------------------ P23
    v.push(
        scn("P23", "include-two", "the inclusion [0,6]x[0,4] and any other of positive size, coordinates any integer in [-6,12], in either order", || {
            let (x, y) = (var("x", -6, 8), var("y", -6, 8));
            let (w, h) = (var("w", 1, 9), var("h", 1, 9));
            let (a, b) = (bx(f(0.0), f(0.0), f(6.0), f(4.0)), bx(x, y, w, h));
            let mut l = vec![polyv(&rect_v(f(0.0), f(0.0), f(6.0), f(4.0))), polyv(&rect_v(x, y, w, h))];
            if pick("swapped", 2) == 1 {
                l.swap(0, 1);
            }
            let got = compose(&l, &[]);
            if is_apart(a, b) {
                reach("apart");
                check(got.is_none(), "inclusions that are apart are composed");
            } else if !at_corner(a, b) {
                reach("met");
                match got {
                    None => fail("inclusions that meet are not composed".into()),
                    Some((p, l)) => domain_ok(&p, &l, cover2(&[a, b])),
                }
            }
        })
        .orders(1)
        .reach(&["apart", "met"]),
    );
    v.push(
        scn("P23", "include-three", "the inclusions [0,4]x[0,3] and [9,13]x[1,5] and one of 7x2 anywhere, integer coordinates, in any order", || {
            let (x, y) = (var("x", -9, 15), var("y", -4, 7));
            let bs = [bx(f(0.0), f(0.0), f(4.0), f(3.0)), bx(f(9.0), f(1.0), f(4.0), f(4.0)), bx(x, y, f(7.0), f(2.0))];
            let r = [polyv(&rect_v(f(0.0), f(0.0), f(4.0), f(3.0))), polyv(&rect_v(f(9.0), f(1.0), f(4.0), f(4.0))), polyv(&rect_v(x, y, f(7.0), f(2.0)))];
            let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick("order", 6) as usize];
            let got = compose(&[r[o[0]].clone(), r[o[1]].clone(), r[o[2]].clone()], &[]);
            if is_apart(bs[0], bs[2]) || is_apart(bs[1], bs[2]) {
                reach("apart");
                check(got.is_none(), "inclusions that are apart are composed");
            } else if !at_corner(bs[0], bs[2]) && !at_corner(bs[1], bs[2]) {
                reach("met");
                match got {
                    None => fail("inclusions that meet are not composed".into()),
                    Some((p, l)) => domain_ok(&p, &l, cover2(&bs)),
                }
            }
        })
        .orders(1)
        .reach(&["apart", "met"]),
    );
    v.push(
        scn("P23", "remove-one", "the inclusion [0,6]x[0,5] and any removal of positive size, coordinates any integer in [-5,12]", || {
            let (x, y) = (var("x", -5, 8), var("y", -5, 8));
            let (w, h) = (var("w", 1, 12), var("h", 1, 12));
            let (a, b) = (bx(f(0.0), f(0.0), f(6.0), f(5.0)), bx(x, y, w, h));
            let got = compose(&[polyv(&rect_v(f(0.0), f(0.0), f(6.0), f(5.0)))], &[polyv(&rect_v(x, y, w, h))]);
            let splits = b.0 <= a.0 && a.1 <= b.1 && a.2 < b.2 && b.3 < a.3 || b.2 <= a.2 && a.3 <= b.3 && a.0 < b.0 && b.1 < a.1;
            let all = within_closed(a, b);
            match got {
                None => check(splits || all, "a removal that leaves one domain is rejected"),
                Some((p, l)) => {
                    check(!splits, "a removal that splits the domain is composed");
                    check(!all, "a removal of the whole domain is composed");
                    reach(if l.is_empty() { "no hole" } else { "hole" });
                    domain_ok(&p, &l, cover2(&[a, b]) - box2(b));
                }
            }
        })
        .reach(&["no hole", "hole"]),
    );
    v.push(
        scn("P23", "remove-two", "the inclusion [0,12]x[0,10], a removal of 3x2 and one of 2x4 anywhere that share no single corner, integer coordinates, in either order", || {
            let (x, y) = (var("x", 1, 8), var("y", 1, 7));
            let (z, t) = (var("z", -3, 13), var("t", -5, 11));
            let bs = [bx(f(0.0), f(0.0), f(12.0), f(10.0)), bx(x, y, f(3.0), f(2.0)), bx(z, t, f(2.0), f(4.0))];
            assume(!at_corner(bs[1], bs[2]) && !at_corner(bs[0], bs[2]));
            let mut r = vec![polyv(&rect_v(x, y, f(3.0), f(2.0))), polyv(&rect_v(z, t, f(2.0), f(4.0)))];
            if pick("swapped", 2) == 1 {
                r.swap(0, 1);
            }
            match compose(&[polyv(&rect_v(f(0.0), f(0.0), f(12.0), f(10.0)))], &r) {
                None => fail("removals that leave one domain are rejected".into()),
                Some((p, l)) => {
                    reach(["none", "one", "two"][l.len()]);
                    domain_ok(&p, &l, cover2(&bs) - cover2(&bs[1..]));
                }
            }
        })
        .orders(1)
        .reach(&["none", "one", "two"]),
    );
    v.push(
        scn("P23", "remove-concave", "an L of 8x8 with arms of 4, or a U of 12x9 with arms of 4 and 3, and a removal of 2x1 or 3x2 anywhere, integer coordinates", || {
            let (x, y) = (var("x", -3, 12), var("y", -3, 10));
            let (shape, bs): (_, Vec<B>) = if pick("shape", 2) == 0 {
                (L_SHAPE, vec![bx(f(0.0), f(0.0), f(8.0), f(4.0)), bx(f(0.0), f(0.0), f(4.0), f(8.0))])
            } else {
                (U_SHAPE, vec![bx(f(0.0), f(0.0), f(12.0), f(3.0)), bx(f(0.0), f(0.0), f(4.0), f(9.0)), bx(f(8.0), f(0.0), f(4.0), f(9.0))])
            };
            let (w, h) = [(2.0, 1.0), (3.0, 2.0)][pick("size", 2) as usize];
            let r = bx(x, y, f(w), f(h));
            let ps: Vec<P> = shape.iter().map(|p| (qi(p.0 as i64), qi(p.1 as i64))).collect();
            let c = rect_v(x, y, f(w), f(h));
            let n = ps.len();
            let touch = (0..n).any(|i| (0..4).any(|j| segs_meet(ps[i], ps[(i + 1) % n], pt(&c[j]), pt(&c[(j + 1) % 4]))));
            let mut l = bs.clone();
            l.push(r);
            let (d2, want) = (cover2(&bs), cover2(&l) - box2(r));
            match compose(&[poly(shape)], &[polyv(&c)]) {
                None => fail("a removal that leaves one domain is rejected".into()),
                Some((p, l)) => {
                    reach(if !l.is_empty() { "hole" } else if sgn(d2 - want) == 0 { "off" } else { "bite" });
                    check(touch || sgn(d2 - want) == 0 || l.len() == 1, "a removal inside the domain is no hole");
                    domain_ok(&p, &l, want);
                }
            }
        })
        .reach(&["hole", "off", "bite"]),
    );
    v.push(
        scn("P23", "triangles", "an inclusion (0,0),(10,0),(3,8) with a triangle (x,y),(x+5,y-1),(x+3,y+4) included or removed, any integer offset in [-7,12]^2", || {
            let (x, y) = (var("x", -7, 12), var("y", -7, 12));
            let a = vec![vi(0, 0), vi(10, 0), vi(3, 8)];
            let b = vec![vx(x, y), vx(x + f(5.0), y + f(-1.0)), vx(x + f(3.0), y + f(4.0))];
            let (pa, pb): (Vec<P>, Vec<P>) = (a.iter().map(|v| pt(v)).collect(), b.iter().map(|v| pt(v)).collect());
            // neither touches the other in a corner
            assume(pb.iter().all(|p| locate(&pa, *p) != 0) && pa.iter().all(|p| locate(&pb, *p) != 0));
            let c = clip(&pb, &pa);
            let i2 = if c.len() > 2 { area2(&c) } else { zero() };
            let meets = (0..3).any(|i| (0..3).any(|j| segs_meet(pa[i], pa[(i + 1) % 3], pb[j], pb[(j + 1) % 3])));
            if pick("removed", 2) == 1 {
                // how often the sides cross: more than twice splits
                let n = (0..3).map(|i| (0..3).filter(|j| segs_meet(pa[i], pa[(i + 1) % 3], pb[*j], pb[(j + 1) % 3])).count()).sum::<usize>();
                match compose(&[polyv(&a)], &[polyv(&b)]) {
                    None => check(n > 2, "a removal that leaves one domain is rejected"),
                    Some((p, l)) => {
                        reach("removed");
                        check(n <= 2, "a removal that splits the domain is composed");
                        domain_ok(&p, &l, area2(&pa) - i2)
                    }
                }
            } else {
                match compose(&[polyv(&a), polyv(&b)], &[]) {
                    None => check(!meets && sgn(i2) == 0, "inclusions that meet are not composed"),
                    Some((p, l)) => {
                        reach("included");
                        check(meets || sgn(i2) > 0, "inclusions that are apart are composed");
                        domain_ok(&p, &l, area2(&pa) + area2(&pb) - i2)
                    }
                }
            }
        })
        .reach(&["removed", "included"]),
    );
    v.push(
        scn("P23", "remove-touching", "the inclusion (0,0),(10,0),(10,8),(0,8) and a triangle (x,y),(x+4,y-2),(x+4,y+2) or its mirror image removed, its corner on a side or off it, any integer offset in [-6,12]^2", || {
            let (x, y) = (var("x", -6, 12), var("y", -6, 12));
            let m = pick("mirrored", 2) == 1;
            let s = if m { -4.0 } else { 4.0 };
            let mut b = vec![vx(x, y), vx(x + f(s), y + f(-2.0)), vx(x + f(s), y + f(2.0))];
            if m {
                b.reverse();
            }
            let a = rect_v(f(0.0), f(0.0), f(10.0), f(8.0));
            let (pa, pb): (Vec<P>, Vec<P>) = (a.iter().map(|v| pt(v)).collect(), b.iter().map(|v| pt(v)).collect());
            let c = clip(&pb, &pa);
            let i2 = if c.len() > 2 { area2(&c) } else { zero() };
            let inside = pb.iter().all(|p| locate(&pa, *p) > 0);
            if sgn(i2) > 0 {
                reach(if inside { "hole" } else { "met" });
            }
            match compose(&[polyv(&a)], &[polyv(&b)]) {
                // a domain that hangs together in a single vertex is no polyline
                None => check(!inside && sgn(i2) > 0, "a removal that leaves one domain is rejected"),
                Some((p, l)) => domain_ok(&p, &l, area2(&pa) - i2),
            }
        })
        .reach(&["hole", "met"]),
    );
    // the union of two inclusions is one polyline: what they surround is filled
    v.push(
        scn("P23", "void", "a U of 12x9 and [0,12]x[8,11] that closes it, both included, or both removed from [-2,14]x[-2,13]", || {
            let l = [poly(U_SHAPE), polyv(&rect_v(f(0.0), f(8.0), f(12.0), f(3.0)))];
            let bs = [bx(f(0.0), f(0.0), f(12.0), f(3.0)), bx(f(0.0), f(0.0), f(4.0), f(9.0)), bx(f(8.0), f(0.0), f(4.0), f(9.0)), bx(f(0.0), f(8.0), f(12.0), f(3.0))];
            if pick("removed", 2) == 1 {
                match compose(&[polyv(&rect_v(f(-2.0), f(-2.0), f(16.0), f(15.0)))], &l) {
                    None => (),
                    Some(_) => fail("removals that split the domain are composed".into()),
                }
            } else {
                match compose(&l, &[]) {
                    None => (),
                    Some((p, l)) => domain_ok(&p, &l, cover2(&bs)),
                }
            }
        })
        .known(),
    );
    v.push(
        scn("P23", "holes", "removals [2,5]x[2,5], [9,12]x[3,7] and one of 5x2 anywhere, in [0,16]x[0,12], integer coordinates, in any order", || {
            let (x, y) = (var("x", -6, 17), var("y", -3, 13));
            let a = bx(f(0.0), f(0.0), f(16.0), f(12.0));
            let bs = [bx(f(2.0), f(2.0), f(3.0), f(3.0)), bx(f(9.0), f(3.0), f(3.0), f(4.0)), bx(x, y, f(5.0), f(2.0))];
            let r = [polyv(&rect_v(f(2.0), f(2.0), f(3.0), f(3.0))), polyv(&rect_v(f(9.0), f(3.0), f(3.0), f(4.0))), polyv(&rect_v(x, y, f(5.0), f(2.0)))];
            assume((0..2).all(|i| !at_corner(bs[i], bs[2])));
            let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick("order", 6) as usize];
            let b = polyv(&rect_v(f(0.0), f(0.0), f(16.0), f(12.0)));
            let list = vec![r[o[0]].clone(), r[o[1]].clone(), r[o[2]].clone()];
            let l: Vec<Rc<Polyline>> = match attempt(|| domain_evaluator::holes(&b, &list)) {
                Ok(l) => l.iter().cloned().collect(),
                Err(m) => fail(format!("composing the holes panics: {}", m)),
            };
            let inner = within_open(bs[2], a);
            let n = if inner { 3 - (!is_apart(bs[0], bs[2])) as usize - (!is_apart(bs[1], bs[2])) as usize } else { 2 };
            reach(["", "one", "two", "three"][n]);
            check(l.len() == n, "the wrong number of holes is composed");
            domain_ok(&b, &l, box2(a) - cover2(if inner { &bs } else { &bs[..2] }));
        })
        .orders(1)
        .reach(&["one", "two", "three"]),
    );
    let _ = (Continence::Inside, BoundaryInclusion::Open);
}
