//! P10..P13: closed chains: membership, relative position, boolean operations, rearranging
use super::geom::*;
use super::predicates::csign;
use super::*;
use nlsn_delaunay::elements::{edge::Edge, polyline::*, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::properties::continence::{BoundaryInclusion, Continence};
use std::rc::Rc;

pub const L_SHAPE: &[(i32, i32)] = &[(0, 0), (8, 0), (8, 4), (4, 4), (4, 8), (0, 8)];
pub const U_SHAPE: &[(i32, i32)] = &[(0, 0), (12, 0), (12, 9), (8, 9), (8, 3), (4, 3), (4, 9), (0, 9)];
pub const ARROW: &[(i32, i32)] = &[(0, 0), (8, -5), (3, 0), (8, 6)];
pub const COMB: &[(i32, i32)] = &[(0, 0), (14, 1), (12, 7), (10, 2), (8, 8), (6, 3), (4, 9), (2, 3), (-1, 8)];
pub const STAR: &[(i32, i32)] = &[(0, -8), (2, -3), (8, -2), (4, 2), (5, 8), (0, 5), (-5, 8), (-4, 2), (-8, -2), (-2, -3)];
/// its Delaunay triangulation has a triangle whose neighbours have no side of the polygon either
pub const ROUND: &[(i32, i32)] = &[(20, 0), (20, 12), (11, 19), (0, 23), (-10, 17), (-20, 12), (-22, 0), (-20, -12), (-10, -17), (0, -23), (11, -19), (19, -12)];
/// the same as a cave in the right side of a rectangle, open between (20,0) and (20,12)
pub const CAVE: &[(i32, i32)] = &[
    (-30, -30), (20, -30), (20, 0), (19, -12), (11, -19), (0, -23), (-10, -17), (-20, -12), (-22, 0), (-20, 12), (-10, 17), (0, 23), (11, 19), (20, 12), (20, 31), (-30, 31),
];
pub const SPIRAL: &[(i32, i32)] = &[(0, 0), (10, 0), (10, 10), (2, 10), (2, 4), (6, 4), (6, 7), (4, 7), (4, 8), (8, 8), (8, 2), (0, 2)];
/// colinear corners on its sides
pub const STUDDED: &[(i32, i32)] = &[(0, 0), (3, 0), (8, 0), (8, 2), (8, 5), (4, 7), (0, 9), (0, 4)];

pub fn poly(c: &[(i32, i32)]) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(c.iter().map(|p| vi(p.0, p.1)).collect()).unwrap())
}
pub fn polyv(vs: &[V]) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(vs.to_vec()).unwrap())
}
pub fn pts(p: &Polyline) -> Vec<P> {
    p.vertices.iter().map(|v| pt(v)).collect()
}
/// 1 inside, 0 on the boundary, -1 outside of the simple polygon
pub fn locate(ps: &[P], v: P) -> i32 {
    let n = ps.len();
    let mut odd = false;
    for i in 0..n {
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        let (la, lb) = (a.1 <= v.1, b.1 <= v.1);
        if la == lb {
            // both above, or none: only a horizontal side at the height of v can hold it
            if la && a.1 == v.1 && b.1 == v.1 && within(a.0, b.0, v.0) {
                return 0;
            }
            // an upper end at the height of v
            if la && (same_pt(a, v) || same_pt(b, v)) {
                return 0;
            }
            continue;
        }
        let o = sgn(orient(a, b, v));
        if o == 0 {
            return 0;
        }
        if (o > 0) == la {
            odd = !odd;
        }
    }
    if odd {
        1
    } else {
        -1
    }
}
/// are all corners of a simple polygon
pub fn simple(ps: &[P]) -> bool {
    let n = ps.len();
    for i in 0..n {
        for j in i + 1..n {
            let (a, b, c, d) = (ps[i], ps[(i + 1) % n], ps[j], ps[(j + 1) % n]);
            if j == i + 1 {
                if on_seg(a, b, d) || on_seg(c, d, a) {
                    return false;
                }
            } else if i == 0 && j == n - 1 {
                if on_seg(a, b, c) || on_seg(c, d, b) {
                    return false;
                }
            } else if segs_meet(a, b, c, d) {
                return false;
            }
        }
    }
    true
}
fn ctag(c: i32) -> &'static str {
    match c {
        1 => "inside",
        0 => "boundary",
        _ => "outside",
    }
}
fn contains_ok(p: &Polyline, c: &V) {
    let want = locate(&pts(p), pt(c));
    reach(ctag(want));
    match p.contains(c) {
        None => check(false, "a closed polyline does not tell where a vertex is"),
        Some(g) => check(
            csign(g) == want,
            match want {
                1 => "a vertex inside a polyline is not told to be inside",
                0 => "a vertex on a polyline is not told to be on its boundary",
                _ => "a vertex outside a polyline is not told to be outside",
            },
        ),
    }
}
/// does the segment ab have points strictly inside the convex counterclockwise polygon?
fn enters_convex(ps: &[P], a: P, b: P) -> bool {
    let n = ps.len();
    for i in 0..n {
        let (c, d) = (ps[i], ps[(i + 1) % n]);
        if sgn(orient(c, d, a)) <= 0 && sgn(orient(c, d, b)) <= 0 {
            return false;
        }
    }
    let s: Vec<i32> = ps.iter().map(|p| sgn(orient(a, b, *p))).collect();
    s.iter().any(|x| *x > 0) && s.iter().any(|x| *x < 0)
}
fn cstr(c: &Option<(Continence, BoundaryInclusion)>) -> String {
    match c {
        None => "none".into(),
        Some((c, b)) => format!("{} {}", match c { Continence::Inside => "inside", Continence::Boundary => "boundary", Continence::Outside => "outside" }, if *b == BoundaryInclusion::Open { "open" } else { "closed" }),
    }
}
/// the segment against a closed polygon: exact contact oracle
fn segment_continence(p: &Polyline, a: &V, b: &V, convex: bool) {
    let (pa, pb) = (pt(a), pt(b));
    let ps = pts(p);
    let n = ps.len();
    let s = Polyline::new_opened(vec![a.clone(), b.clone()]).unwrap();
    let got = cstr(&Polyline::continence(p, &s));
    let contact = (0..n).any(|i| segs_meet(ps[i], ps[(i + 1) % n], pa, pb));
    if !contact {
        let inside = locate(&ps, pa) > 0;
        reach(if inside { "inside-open" } else { "outside-open" });
        let want = if inside { "inside open" } else { "outside open" };
        check(got == want, &format!("a segment without contact is told to be {} instead of {}", got, want));
        return;
    }
    check(!got.contains("open"), &format!("a segment that touches the boundary is told to be {}", got));
    if convex {
        let (la, lb) = (locate(&ps, pa), locate(&ps, pb));
        let want = if enters_convex(&ps, pa, pb) {
            if la >= 0 && lb >= 0 {
                "inside closed"
            } else {
                "none"
            }
        } else if la == 0 && lb == 0 {
            "boundary closed"
        } else {
            "outside closed"
        };
        reach(want);
        check(got == want, &format!("a segment that touches the boundary is told to be {} instead of {}", got, want));
    }
}
pub fn lists_area2(l: &[Vec<P>]) -> Q {
    l.iter().fold(zero(), |s, p| s + area2(p))
}
/// area of the intersection of a polygon with a convex counterclockwise one
pub fn clip(p: &[P], c: &[P]) -> Vec<P> {
    let mut p = p.to_vec();
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        let o: Vec<Q> = p.iter().map(|v| orient(a, b, *v)).collect();
        let mut r = vec![];
        for k in 0..p.len() {
            let m = (k + 1) % p.len();
            let (s, t) = (sgn(o[k]), sgn(o[m]));
            if s >= 0 {
                r.push(p[k]);
            }
            if s * t < 0 {
                let w = o[k] / (o[k] - o[m]);
                r.push((p[k].0 + w * (p[m].0 - p[k].0), p[k].1 + w * (p[m].1 - p[k].1)));
            }
        }
        p = r;
    }
    p
}
pub fn qmin(a: Q, b: Q) -> Q {
    if a <= b {
        a
    } else {
        b
    }
}
fn qmax(a: Q, b: Q) -> Q {
    if a <= b {
        b
    } else {
        a
    }
}
/// the boolean operations of two convex counterclockwise polygons, i2 twice the area they share
pub fn boolean_ok(a: &Polyline, b: &Polyline, i2: Q, ops: u32) {
    let (ps, qs) = (pts(a), pts(b));
    let (na, nb) = (ps.len(), qs.len());
    let (a2, b2) = (area2(&ps), area2(&qs));
    let touch = (0..na).any(|i| (0..nb).any(|j| segs_meet(ps[i], ps[(i + 1) % na], qs[j], qs[(j + 1) % nb])));
    let overlap = sgn(i2) > 0;
    if ops & 1 != 0 {
        let (l, _) = match attempt(|| Polyline::intersection(a, b)) {
            Ok(x) => x,
            Err(m) => fail(format!("intersection of polylines panics: {}", m)),
        };
        let l: Vec<Vec<P>> = l.iter().map(|p| pts(p)).collect();
        for p in l.iter() {
            check(sgn(area2(p)) > 0, "an intersection polyline is not counterclockwise");
        }
        reach(if !overlap { "apart" } else if touch { "crossing" } else { "nested" });
        check(near(lists_area2(&l), i2), "the intersection of two polylines has the wrong area");
    }
    if ops & 2 != 0 {
        let u = match attempt(|| Polyline::union(a, b)) {
            Ok(x) => x,
            Err(m) => fail(format!("union of polylines panics: {}", m)),
        };
        match u {
            Some((u, _)) => {
                check(overlap || touch, "polylines that are apart have a union");
                let u2 = area2(&pts(&u));
                check(near(u2, a2 + b2 - i2), "the union of two polylines has the wrong area");
            }
            None => check(!overlap, "two overlapping polylines have no union"),
        }
    }
    if ops & 4 != 0 {
        let (l, _) = match attempt(|| Polyline::subtraction(a, b)) {
            Ok(x) => x,
            Err(m) => fail(format!("subtraction of polylines panics: {}", m)),
        };
        // b strictly inside a would leave a hole: nothing is returned then
        if touch && overlap {
            let l: Vec<Vec<P>> = l.iter().map(|p| pts(p)).collect();
            for p in l.iter() {
                check(sgn(area2(p)) > 0, "a subtraction polyline is not counterclockwise");
            }
            check(near(lists_area2(&l), a2 - i2), "the subtraction of two polylines has the wrong area");
        }
    }
}
fn rect(x: F, y: F, w: F, h: F) -> Rc<Polyline> {
    polyv(&[vx(x, y), vx(x + w, y), vx(x + w, y + h), vx(x, y + h)])
}

pub fn register(v: &mut Vec<Scn>) {
    // ------------------------------------------------------------------ P10
    for (name, c) in [("l", L_SHAPE), ("u", U_SHAPE), ("arrow", ARROW), ("comb", COMB), ("star", STAR), ("spiral", SPIRAL), ("studded", STUDDED)].iter() {
        let c: &'static [(i32, i32)] = c;
        for every in [false, true].iter() {
        let every = *every;
        let sc =
            scn("P10", &format!("shape-{}{}", name, if every { "-rotated" } else { "" }), "a concave polygon taken counterclockwise or clockwise (from any corner: thorough), moved by any integer offset in [-100,100]^2, and any query vertex that is a multiple of 1/64 within 40 of it", move || {
                let (dx, dy) = (var("dx", -100, 100), var("dy", -100, 100));
                let mut vs: Vec<V> = c.iter().map(|p| vx(dx + f(p.0 as f64), dy + f(p.1 as f64))).collect();
                if pick("clockwise", 2) == 1 {
                    vs.reverse();
                }
                if every {
                    let k = pick("first", c.len() as u32) as usize;
                    vs.rotate_left(k);
                }
                let (qx, qy) = (varg("qx", -40.0, 40.0, 6), varg("qy", -40.0, 40.0, 6));
                contains_ok(&polyv(&vs), &vx(dx + qx, dy + qy));
            })
            .reach(&["inside", "boundary", "outside"]);
        v.push(if every { sc.thorough() } else { sc });
        }
    }
    v.push(
        scn("P10", "triangle", "any triangle, counterclockwise or clockwise, and any vertex, coordinates any integer in [-64,64]", || {
            let t = [sv("a", -64, 64), sv("b", -64, 64), sv("c", -64, 64)];
            assume_nonzero(orient(pt(&t[0]), pt(&t[1]), pt(&t[2])));
            contains_ok(&polyv(&t), &sv("q", -64, 64));
        })
        .reach(&["inside", "boundary", "outside"]),
    );
    v.push(
        scn("P10", "quad", "any simple quadrilateral with two given corners (0,0), (16,4), convex or not, and any vertex, coordinates any integer in [-20,20]", || {
            let t = [vi(0, 0), vi(16, 4), sv("a", -20, 20), sv("b", -20, 20)];
            let p = polyv(&t);
            assume(simple(&pts(&p)));
            contains_ok(&p, &sv("q", -20, 20));
        })
        .reach(&["inside", "boundary", "outside"]),
    );
    v.push(
        scn("P10", "quad-any", "any simple quadrilateral and any vertex, coordinates any integer in [-16,16]", || {
            let t = [sv("a", -16, 16), sv("b", -16, 16), sv("c", -16, 16), sv("d", -16, 16)];
            let p = polyv(&t);
            assume(simple(&pts(&p)));
            contains_ok(&p, &sv("q", -16, 16));
        })
        .thorough(),
    );
    v.push(scn("P10", "opened", "any opened chain of 2 or 3 vertices and any vertex, coordinates any integer in [-8,8]", || {
        let n = 2 + pick("n", 2) as usize;
        let vs: Vec<V> = ["a", "b", "c"].iter().take(n).map(|s| sv(s, -8, 8)).collect();
        let p = Polyline::new_opened(vs.clone()).unwrap();
        check(p.contains(&sv("q", -8, 8)).is_none(), "an opened polyline contains or excludes a vertex");
        check(p.head().as_ref() == Some(&vs[0]) && p.tail().as_ref() == Some(&vs[n - 1]), "wrong ends of an opened polyline");
        check(Polyline::new_closed(vs.clone()).is_some() == (n >= 3), "a closed polyline of less than three vertices");
        check(Polyline::new_opened(vs[0..1].to_vec()).is_none() && Polyline::new_opened(vec![]).is_none(), "an opened polyline of less than two vertices");
    }));

    // ------------------------------------------------------------------ P11
    v.push(
        scn("P11", "segment-rect", "the rectangle [0,8]x[0,6] and any segment of positive length, coordinates any integer in [-6,14]", || {
            let (a, b) = (sv("a", -6, 14), sv("b", -6, 14));
            assume_distinct((a.x, a.y), (b.x, b.y));
            segment_continence(&poly(&[(0, 0), (8, 0), (8, 6), (0, 6)]), &a, &b, true);
        })
        .reach(&["inside-open", "outside-open", "inside closed", "outside closed", "boundary closed", "none"]),
    );
    for (name, c, lo, hi, convex, from) in [
        ("triangle", &[(0, 0), (9, 2), (3, 8)][..], -4, 12, true, &[(0, 0), (4, 3), (9, 2), (6, 5), (-3, -2), (11, 0), (-1, 6)][..]),
        ("l", L_SHAPE, -3, 11, false, &[(2, 2), (4, 4), (8, 4), (0, 5), (6, 6), (-2, 4), (4, 10)][..]),
        ("arrow", ARROW, -6, 10, false, &[(2, 1), (3, 0), (0, 0), (5, 0), (7, 4), (-3, 0), (8, -6)][..]),
        ("u", U_SHAPE, -2, 14, false, &[(2, 5), (6, 6), (6, 3), (4, 9), (10, 1), (13, 3), (-1, 10)][..]),
    ]
    .iter()
    {
        let (c, lo, hi, convex): (&'static [(i32, i32)], i32, i32, bool) = (c, *lo, *hi, *convex);
        let from: &'static [(i32, i32)] = from;
        let all: &[&str] = &["inside-open", "outside-open", "inside closed", "outside closed", "boundary closed", "none"];
        let tags = if convex { all } else { &all[..2] };
        v.push(
            scn("P11", &format!("segment-{}", name), "a polygon and any segment from one of seven places (corner, side, inside, outside, in line with a side) to any integer coordinates around it", move || {
                let i = from[pick("from", from.len() as u32) as usize];
                let (a, b) = (vi(i.0, i.1), sv("b", lo, hi));
                assume_distinct((a.x, a.y), (b.x, b.y));
                let (a, b) = if pick("reversed", 2) == 1 { (b, a) } else { (a, b) };
                segment_continence(&poly(c), &a, &b, convex);
            })
            .reach(tags),
        );
        v.push(
            scn("P11", &format!("segment-{}-any", name), "a polygon and any segment of positive length with integer coordinates around it", move || {
                let (a, b) = (sv("a", lo, hi), sv("b", lo, hi));
                assume_distinct((a.x, a.y), (b.x, b.y));
                segment_continence(&poly(c), &a, &b, convex);
            })
            .reach(tags)
            .thorough(),
        );
    }
    v.push(
        scn("P11", "triangle-rect", "the rectangle [0,8]x[0,6] and any triangle moved by any offset of (0,0),(3,1),(1,4), integer coordinates in [-6,14], and the reverse", || {
            let (x, y) = (var("x", -6, 14), var("y", -6, 14));
            let p = poly(&[(0, 0), (8, 0), (8, 6), (0, 6)]);
            let t = polyv(&[vx(x, y), vx(x + f(3.0), y + f(1.0)), vx(x + f(1.0), y + f(4.0))]);
            let (ps, ts) = (pts(&p), pts(&t));
            let contact = (0..4).any(|i| (0..3).any(|j| segs_meet(ps[i], ps[(i + 1) % 4], ts[j], ts[(j + 1) % 3])));
            let got = cstr(&Polyline::continence(&p, &t));
            let rev = cstr(&Polyline::continence(&t, &p));
            if contact {
                check(!got.contains("open") && !rev.contains("open"), "polylines that touch are told to be apart");
                let out = ts.iter().filter(|v| locate(&ps, **v) < 0).count();
                let inn = ts.iter().filter(|v| locate(&ps, **v) > 0).count();
                if out > 0 && inn > 0 {
                    check(got == "none", "a polyline that crosses another is not told so");
                }
                if out == 0 {
                    check(got == "inside closed", "a polyline inside another that touches it is not told so");
                }
            } else {
                let inside = locate(&ps, ts[0]) > 0;
                check(got == if inside { "inside open" } else { "outside open" }, "wrong relative position of polylines that do not touch");
                check(rev == "outside open", "wrong relative position of polylines that do not touch");
                reach(if inside { "inside" } else { "outside" });
            }
        })
        .reach(&["inside", "outside"]),
    );

    // ------------------------------------------------------------------ P12
    for (op, name) in [(1, "intersection"), (2, "union"), (4, "subtraction")].iter() {
        let op = *op;
        v.push(
            scn("P12", &format!("rects-{}", name), "the rectangle [0,4]x[0,3] and any other, coordinates any integer in [-6,10], in every relative position", move || {
                let (x, y) = (var("x", -6, 6), var("y", -6, 6));
                let (w, h) = (var("w", 1, 9), var("h", 1, 9));
                let a = poly(&[(0, 0), (4, 0), (4, 3), (0, 3)]);
                let b = rect(x, y, w, h);
                let (l, r) = (qmax(zero(), q(x)), qmin(qi(4), q(x + w)));
                let (d, u) = (qmax(zero(), q(y)), qmin(qi(3), q(y + h)));
                let i2 = if l < r && d < u { (r - l) * (u - d) * qi(2) } else { zero() };
                boolean_ok(&a, &b, i2, op);
            })
            .reach(if op == 1 { &["apart", "crossing", "nested"] } else { &[] }),
        );
        v.push(
            scn("P12", &format!("triangles-{}", name), "the triangle (0,0),(8,0),(2,7) and any triangle moved by an offset with one more free corner, coordinates any integer in [-6,12]", move || {
                let (x, y) = (var("x", -4, 8), var("y", -4, 8));
                let a = poly(&[(0, 0), (8, 0), (2, 7)]);
                let b = polyv(&[vx(x, y), vx(x + f(5.0), y + f(-1.0)), vx(x + f(3.0), y + f(4.0))]);
                let i2 = {
                    let c = clip(&pts(&b), &pts(&a));
                    if c.len() > 2 {
                        area2(&c)
                    } else {
                        zero()
                    }
                };
                boolean_ok(&a, &b, i2, op);
            })
            .reach(if op == 1 { &["apart", "crossing"] } else { &[] }),
        );
    }
    // ------------------------------------------------------------------ P13
    for every in [false, true].iter() {
        let every = *every;
        let (id, text) = if every {
            ("split-any", "two segments of positive length, coordinates any integer in [-8,8]")
        } else {
            ("split", "one of four segments (level, upright, rising, falling) and any segment of positive length, coordinates any integer in [-8,8]")
        };
        let sc = scn("P13", id, text, move || {
            let (a, b) = if every {
                (sv("a", -8, 8), sv("b", -8, 8))
            } else {
                match pick("first", 4) {
                    0 => (vi(-4, 1), vi(5, 1)),
                    1 => (vi(2, 6), vi(2, -3)),
                    2 => (vi(-3, -4), vi(6, 2)),
                    _ => (vi(-4, 5), vi(1, -5)),
                }
            };
            let (c, d) = (sv("c", -8, 8), sv("d", -8, 8));
            assume_distinct((a.x, a.y), (b.x, b.y));
            assume_distinct((c.x, c.y), (d.x, d.y));
            let (pa, pb, pc, pd) = (pt(&a), pt(&b), pt(&c), pt(&d));
            let l = split_intersections(&vec![(a.clone(), b.clone()), (c.clone(), d.clone())]);
            let (o1, o2) = (sgn(orient(pa, pb, pc)), sgn(orient(pa, pb, pd)));
            let (o3, o4) = (sgn(orient(pc, pd, pa)), sgn(orient(pc, pd, pb)));
            let has = |u: &V, w: &V| l.iter().any(|(s, t)| s == u && t == w);
            if o1 * o2 < 0 && o3 * o4 < 0 {
                reach("cross");
                check(l.len() == 4, "two crossing segments are not split into four");
                let m = l.iter().map(|(s, t)| if *s == a || *s == c { t.clone() } else { s.clone() }).next().unwrap();
                check(has(&a, &m) && has(&m, &b) && has(&c, &m) && has(&m, &d), "the pieces of two crossing segments do not go from their ends to the crossing");
                check(near(orient(pa, pb, pt(&m)), zero()) && near(orient(pc, pd, pt(&m)), zero()), "segments are split off their crossing");
            } else if !segs_meet(pa, pb, pc, pd) {
                reach("apart");
                check(l.len() == 2 && has(&a, &b) && has(&c, &d), "segments apart are split");
            } else if o1 != 0 && o2 != 0 && (same_pt(pa, pc) || same_pt(pa, pd) || same_pt(pb, pc) || same_pt(pb, pd)) {
                check(l.len() == 2 && has(&a, &b) && has(&c, &d), "segments that share an end are split");
            } else if o1 * o2 == 0 && o3 * o4 < 0 {
                reach("tee");
                // an end of cd on ab
                let e = if o1 == 0 { &c } else { &d };
                check(l.len() == 3 && has(&c, &d), "a segment touched in its middle is not split in two");
                if SYMBOLIC {
                    check(has(&a, e) && has(e, &b), "a segment touched in its middle is not split there");
                }
            }
            for (s, t) in l.iter() {
                check(s != t, "a piece without length");
            }
        })
        .reach(&["cross", "apart", "tee"]);
        v.push(if every { sc.thorough() } else { sc });
    }
    v.push(
        scn("P13", "arrange", "the edges of any closed chain of 3 to 5 distinct vertices, in any order of their set, with or without a missing edge", || {
            let n = 3 + pick("n", 3) as usize;
            let names = ["a", "b", "c", "d", "e"];
            let vs: Vec<V> = (0..n).map(|i| sv(names[i], -8, 8)).collect();
            for i in 0..n {
                for j in 0..i {
                    assume_distinct((vs[i].x, vs[i].y), (vs[j].x, vs[j].y));
                }
            }
            let miss = pick("missing", 2) == 1;
            let mut es = HashSet::new();
            for i in 0..n {
                if !miss || i != n - 1 {
                    es.insert(Rc::new(Edge::new(&vs[i], &vs[(i + 1) % n])));
                }
            }
            match Polyline::arrange(&es) {
                None => check(miss, "the edges of a closed chain are not arranged into it"),
                Some(p) => {
                    check(!miss, "edges that do not close are arranged into a closed polyline");
                    check(!p.opened && p.vertices.len() == n, "an arranged polyline has the wrong vertices");
                    let k = (0..n).find(|k| p.vertices[0] == vs[*k]);
                    check(k.is_some(), "an arranged polyline has the wrong vertices");
                    let k = k.unwrap();
                    check((0..n).all(|i| p.vertices[i] == vs[(k + i) % n]), "an arranged polyline has its vertices out of order");
                }
            }
        })
        .orders(1),
    );
    v.push(
        scn("P13", "minified", "any closed chain of 4 vertices whose consecutive vertices differ, coordinates any integer in [-8,8]", || {
            let vs: Vec<V> = ["a", "b", "c", "d"].iter().map(|s| sv(s, -8, 8)).collect();
            let ps: Vec<P> = vs.iter().map(|v| pt(v)).collect();
            let keep: Vec<bool> = (0..4).map(|i| sgn(orient(ps[(i + 3) % 4], ps[i], ps[(i + 1) % 4])) != 0).collect();
            assume(keep.iter().filter(|k| **k).count() >= 3);
            let m = polyv(&vs).minified_noncolinear();
            let want: Vec<V> = (0..4).filter(|i| keep[*i]).map(|i| vs[i].clone()).collect();
            reach(if want.len() == 3 { "removed" } else { "kept" });
            check(!m.opened && m.vertices == want, "minifying does not remove exactly the colinear vertices");
        })
        .reach(&["removed", "kept"]),
    );
    v.push(
        scn("P13", "hull", "the triangles of a fan of 3 or 4 around a vertex, or a strip, or two apart, in any order of their set", || {
            let kind = pick("kind", 4);
            let (x, y) = (var("x", -20, 20), var("y", -20, 20));
            let at = |i: i32, j: i32| vx(x + f(i as f64), y + f(j as f64));
            let ring: Vec<V> = match kind {
                0 => vec![at(5, 0), at(-4, 4), at(-3, -5)],
                1 => vec![at(6, 1), at(0, 5), at(-5, 0), at(1, -7)],
                2 => vec![at(0, 0), at(6, 1), at(8, 6), at(2, 5)],
                _ => vec![at(0, 0), at(4, 0), at(0, 3), at(10, 10), at(14, 10), at(10, 13)],
            };
            let mut ts = HashSet::new();
            let n = ring.len();
            match kind {
                0 | 1 => {
                    let c = at(0, 0);
                    for i in 0..n {
                        ts.insert(Rc::new(Triangle::new(&c, &ring[i], &ring[(i + 1) % n])));
                    }
                }
                2 => {
                    ts.insert(Rc::new(Triangle::new(&ring[0], &ring[1], &ring[2])));
                    ts.insert(Rc::new(Triangle::new(&ring[2], &ring[3], &ring[0])));
                }
                _ => {
                    ts.insert(Rc::new(Triangle::new(&ring[0], &ring[1], &ring[2])));
                    ts.insert(Rc::new(Triangle::new(&ring[3], &ring[4], &ring[5])));
                }
            }
            match Polyline::triangles_hull(&ts) {
                None => check(kind == 3, "triangles that form one region have no hull"),
                Some(p) => {
                    check(kind != 3, "triangles apart have a hull");
                    check(p.vertices.len() == n, "a hull has the wrong vertices");
                    let k = (0..n).find(|k| p.vertices[0] == ring[*k]);
                    check(k.map_or(false, |k| (0..n).all(|i| p.vertices[i] == ring[(k + i) % n])), "a hull does not go around the triangles");
                }
            }
        })
        .orders(1),
    );
}
