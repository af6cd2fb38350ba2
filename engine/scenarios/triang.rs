//! P14..P20: the triangulation, its construction and its refinement
use super::geom::*;
use super::polylines::*;
use super::*;
use nlsn_delaunay::elements::{edge::Edge, polyline::*, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::{refine_params::RefineParams, triangulation::Triangulation, triangulator::Triangulator};
use std::rc::Rc;

/// what a triangulation has to cover
pub struct Dom {
    pub boundary: Vec<V>,
    pub holes: Vec<Vec<V>>,
    pub segments: Vec<(V, V)>,
    pub vertices: Vec<V>,
}
pub fn dom(boundary: &[V]) -> Dom {
    Dom { boundary: boundary.to_vec(), holes: vec![], segments: vec![], vertices: vec![] }
}
pub fn vs(c: &[(i32, i32)]) -> Vec<V> {
    c.iter().map(|p| vi(p.0, p.1)).collect()
}
pub struct Ids {
    pub known: Vec<V>,
}
impl Ids {
    pub fn find(&self, v: &V) -> Option<usize> {
        self.known.iter().position(|k| Rc::ptr_eq(k, v)).or_else(|| self.known.iter().position(|k| k == v))
    }
    pub fn of(&mut self, v: &V) -> usize {
        match self.find(v) {
            Some(i) => i,
            None => {
                self.known.push(v.clone());
                self.known.len() - 1
            }
        }
    }
}
/// the measures of a checked triangulation
pub struct Mesh {
    pub ids: Ids,
    pub tris: Vec<[usize; 3]>,
}
/// everything a finished triangulation guarantees; `refined`: vertices may have been added, constraints split
pub fn check_mesh(t: &Triangulation, d: &Dom, refined: bool) -> Mesh {
    let mut ids = Ids { known: vec![] };
    for v in d.boundary.iter().chain(d.holes.iter().flatten()).chain(d.segments.iter().flat_map(|s| vec![&s.0, &s.1])).chain(d.vertices.iter()) {
        ids.of(v);
    }
    let given = ids.known.len();
    let mut tris: Vec<[usize; 3]> = vec![];
    let mut ghosts: Vec<(usize, usize)> = vec![];
    for t in t.triangles.iter() {
        if t.v3.is_ghost {
            check(!t.v1.is_ghost && !t.v2.is_ghost, "a triangle with two ghost corners");
            ghosts.push((ids.of(&t.v1), ids.of(&t.v2)));
        } else {
            check(!t.v1.is_ghost && !t.v2.is_ghost, "a ghost triangle whose ghost is not its last corner");
            tris.push([ids.of(&t.v1), ids.of(&t.v2), ids.of(&t.v3)]);
        }
    }
    check(refined || ids.known.len() == given, "the triangulation has a vertex that was not given");
    let p: Vec<P> = ids.known.iter().map(|v| pt(v)).collect();
    let mut edges: std::collections::BTreeMap<(usize, usize), usize> = Default::default();
    for (k, t) in tris.iter().enumerate() {
        check(sgn(orient(p[t[0]], p[t[1]], p[t[2]])) > 0, "a triangle is not counterclockwise");
        for i in 0..3 {
            check(edges.insert((t[i], t[(i + 1) % 3]), k).is_none(), "two triangles lie on the same side of an edge: they overlap");
        }
    }
    // the outline
    let loops: Vec<Vec<usize>> =
        std::iter::once(d.boundary.clone()).chain(d.holes.iter().map(|h| h.iter().rev().cloned().collect())).map(|l| l.iter().map(|v| ids.find(v).unwrap()).collect()).collect();
    let sides: Vec<(usize, usize)> = loops.iter().flat_map(|l| (0..l.len()).map(|i| (l[i], l[(i + 1) % l.len()])).collect::<Vec<_>>()).collect();
    let open: Vec<(usize, usize)> = edges.keys().cloned().filter(|e| !edges.contains_key(&(e.1, e.0))).collect();
    if !refined {
        for s in sides.iter() {
            check(edges.contains_key(s), "a side of the boundary or of a hole is not an edge of the triangulation");
            check(!edges.contains_key(&(s.1, s.0)), "the triangulation goes beyond the boundary or into a hole");
        }
        for e in open.iter() {
            check(sides.contains(e), "the triangulation has a gap");
        }
    } else {
        for e in open.iter() {
            check(
                sides.iter().any(|s| near_on(p[s.0], p[s.1], p[e.0]) && near_on(p[s.0], p[s.1], p[e.1])),
                "the outline of the refined triangulation leaves the boundary and the holes",
            );
        }
    }
    for e in open.iter() {
        check(ghosts.iter().any(|g| *g == (e.1, e.0)), "an outer edge has no ghost triangle");
    }
    check(ghosts.len() == open.len(), "a ghost triangle is on no outer edge");
    // adjacency
    let n = tris.len() + ghosts.len();
    check(t.triangles.len() == n && t.adjacency.len() == 3 * n, "the adjacency has the wrong number of edges");
    for t1 in t.triangles.iter() {
        let (a, b, c) = t1.inner_edges();
        for e in [a, b, c].iter() {
            check(t.adjacency.get(e).map_or(false, |t2| Rc::ptr_eq(t1, t2) || t1 == t2), "an edge is not adjacent to its triangle");
        }
    }
    // cover
    let want = loops.iter().fold(zero(), |s, l| s + area2(&l.iter().map(|i| p[*i]).collect::<Vec<_>>()));
    let got = tris.iter().fold(zero(), |s, t| s + orient(p[t[0]], p[t[1]], p[t[2]]));
    check(near(got, want), "the triangles do not cover the domain");
    let mut used = vec![false; ids.known.len()];
    tris.iter().flatten().for_each(|i| used[*i] = true);
    for i in 0..given {
        check(used[i], "a given vertex is not in the triangulation");
    }
    // constraints
    let mut fixed: std::collections::BTreeSet<(usize, usize)> = Default::default();
    let constraints: Vec<(usize, usize)> =
        sides.iter().cloned().chain(d.segments.iter().map(|s| (ids.find(&s.0).unwrap(), ids.find(&s.1).unwrap()))).collect();
    for &(a, b) in constraints.iter() {
        if edges.contains_key(&(a, b)) || edges.contains_key(&(b, a)) {
            fixed.insert((a, b));
            fixed.insert((b, a));
            continue;
        }
        // its pieces
        let on: Vec<usize> = (0..p.len()).filter(|i| used[*i] && if refined { near_on(p[a], p[b], p[*i]) } else { on_seg(p[a], p[b], p[*i]) }).collect();
        let mut at = a;
        let mut rest: Vec<usize> = on.into_iter().filter(|i| *i != a).collect();
        while at != b {
            let next = rest.iter().cloned().find(|i| edges.contains_key(&(at, *i)) || edges.contains_key(&(*i, at)));
            check(next.is_some(), "a constraint is not made of edges of the triangulation");
            let nx = next.unwrap();
            fixed.insert((at, nx));
            fixed.insert((nx, at));
            rest.retain(|i| *i != nx);
            at = nx;
        }
    }
    // Delaunay across every edge that is no constraint
    if !refined || !SYMBOLIC {
        for (&(a, b), &k) in edges.iter() {
            if a > b || fixed.contains(&(a, b)) {
                continue;
            }
            if let Some(&m) = edges.get(&(b, a)) {
                let c = *tris[k].iter().find(|i| **i != a && **i != b).unwrap();
                let e = *tris[m].iter().find(|i| **i != a && **i != b).unwrap();
                let x = incircle(p[a], p[b], p[c], p[e]);
                check(if refined { sgn(x) <= 0 || near(x, zero()) } else { sgn(x) <= 0 }, "an edge is not Delaunay: the opposite vertex is inside the circumcircle");
            }
        }
    }
    Mesh { ids, tris }
}
/// on the segment, up to rounding when run natively
fn near_on(a: P, b: P, p: P) -> bool {
    near(orient(a, b, p), zero()) && near_within(a.0, b.0, p.0) && near_within(a.1, b.1, p.1)
}
pub fn build(d: &Dom) -> Triangulator {
    let mut t = Triangulator::new(&polyv(&d.boundary));
    for h in d.holes.iter() {
        check(t.insert_hole(&polyv(h)).is_ok(), "a hole inside the boundary and apart from the others is rejected");
    }
    if !d.segments.is_empty() {
        let s: HashSet<Rc<Edge>> = d.segments.iter().map(|s| Rc::new(Edge::new(&s.0, &s.1))).collect();
        check(t.insert_segments(&s).is_ok(), "a segment inside the domain is rejected");
    }
    if !d.vertices.is_empty() {
        let s: HashSet<Rc<Vertex>> = d.vertices.iter().cloned().collect();
        check(t.insert_vertices(&s).is_ok(), "a vertex inside the domain is rejected");
    }
    t
}
pub fn triangulate_ok(d: &Dom) -> Triangulator {
    let mut t = build(d);
    match attempt(|| {
        t.triangulate();
    }) {
        Ok(()) => {}
        Err(m) => fail(format!("triangulation panics: {}", m)),
    }
    check_mesh(&t.triangulation.borrow(), d, false);
    t
}
/// refining it ends, and the result is what was asked for; `split`: input by input, in floating point
pub fn refine_ok(d: &Dom, ratio: f64, area: Option<f64>, split: bool) {
    let mut t = triangulate_ok(d);
    if split {
        concretize();
    }
    refined_ok(&mut t, d, ratio, area);
}
pub fn refined_ok(t: &mut Triangulator, d: &Dom, ratio: f64, area: Option<f64>) {
    match attempt(|| {
        t.refine(RefineParams { max_area: area.map(f), quality_ratio: f(ratio) });
    }) {
        Ok(()) => {}
        Err(m) => fail(format!("refinement panics: {}", m)),
    }
    let m = check_mesh(&t.triangulation.borrow(), d, true);
    let p: Vec<P> = m.ids.known.iter().map(|v| pt(v)).collect();
    let (r2, a2) = (q(f(ratio)) * q(f(ratio)), area.map(|a| q(f(a)) * qi(2)));
    for t in m.tris.iter() {
        let (a, b, c) = (p[t[0]], p[t[1]], p[t[2]]);
        let o = orient(a, b, c);
        if let Some(x) = a2 {
            check(o < x || near(o, x), "a triangle is larger than the area asked for after refinement");
        }
        let l = [dist2(a, b), dist2(b, c), dist2(c, a)];
        let m = qmin(l[0], qmin(l[1], l[2]));
        // circumradius^2 = l0 l1 l2 / (4 o^2)
        let (x, y) = (l[0] * l[1] * l[2], qi(4) * o * o * r2 * m);
        check(x < y || near(x, y), "a triangle is worse than the quality asked for after refinement");
    }
    reach(if m.ids.known.len() > d.boundary.len() + d.vertices.len() + 2 * d.segments.len() { "refined" } else { "untouched" });
}
/// the corner at o between a and b has at least 60 degrees
fn assume_blunt(o: P, a: P, b: P) {
    let d = (a.0 - o.0) * (b.0 - o.0) + (a.1 - o.1) * (b.1 - o.1);
    assume(d <= zero() || qi(4) * d * d <= dist2(o, a) * dist2(o, b));
}

fn assume_inside(ps: &[V], v: &V) {
    let ps: Vec<P> = ps.iter().map(|v| pt(v)).collect();
    assume(locate(&ps, pt(v)) > 0);
}
fn assume_convex(ps: &[V]) {
    let n = ps.len();
    for i in 0..n {
        assume_pos(orient(pt(&ps[i]), pt(&ps[(i + 1) % n]), pt(&ps[(i + 2) % n])));
    }
}
fn apart(a: &V, b: &V) {
    assume_distinct((a.x, a.y), (b.x, b.y));
}
/// tie break by pointer, not by value
fn contains_edge(t: &Triangulation, a: &V, b: &V) -> bool {
    t.edges().contains(&Rc::new(Edge::new(a, b)))
}

pub fn register(v: &mut Vec<Scn>) {
    // ------------------------------------------------------------------ P14
    v.push(
        scn("P14", "include-remove", "two triangles sharing an edge, or apart, or the same, one possibly a ghost, included and removed in any order", || {
            let (a, b, c, d) = (sv("a", -6, 6), sv("b", -6, 6), sv("c", -6, 6), sv("d", -6, 6));
            let all = [&a, &b, &c, &d];
            for i in 0..4 {
                for j in 0..i {
                    apart(all[i], all[j]);
                }
            }
            let g = Rc::new(Vertex::new_ghost());
            let t1 = Rc::new(Triangle::new(&a, &b, &c));
            let t2 = match pick("second", 7) {
                // the ghost in any place, as include_triangle takes any
                4 => Rc::new(Triangle::new(&g, &b, &a)),
                5 => Rc::new(Triangle::new(&a, &g, &b)),
                6 => Rc::new(Triangle::new(&c, &a, &b)),
                0 => Rc::new(Triangle::new(&b, &a, &d)),
                1 => Rc::new(Triangle::new(&b, &a, &g)),
                2 => Rc::new(Triangle::new(&b, &c, &a)),
                _ => Rc::new(Triangle::new(&c, &b, &d)),
            };
            let same = t1 == t2;
            let mut t = Triangulation::new();
            check(t.include_triangle(&t1), "a new triangle is not included");
            check(t.include_triangle(&t2) == !same, "including tells the wrong thing");
            check(!t.include_triangle(&t1) && !t.include_triangle(&t2), "a triangle is included twice");
            let n = if same { 1 } else { 2 };
            check(t.triangles.len() == n && t.adjacency.len() == 3 * n, "wrong number of triangles or edges");
            let full = |t: &Triangulation, x: &Rc<Triangle>| {
                let (e1, e2, e3) = x.inner_edges();
                [e1, e2, e3].iter().all(|e| t.adjacency.get(e).map_or(false, |y| y == x))
            };
            check(full(&t, &t1) && full(&t, &t2), "an included triangle is not adjacent to its edges");
            let es = t.edges();
            check(es.len() == 3 * n, "wrong set of edges");
            let vs = t.vertices();
            let k = [&a, &b, &c].iter().all(|v| vs.contains(*v));
            check(k && vs.iter().all(|v| !v.is_ghost), "wrong set of vertices");
            let (x, y) = if pick("which", 2) == 0 { (&t1, &t2) } else { (&t2, &t1) };
            check(t.remove_triangle(x), "an included triangle is not removed");
            check(!t.remove_triangle(x), "a triangle is removed twice");
            if same {
                check(t.triangles.len() == 0 && t.adjacency.len() == 0, "something is left after removing everything");
            } else {
                check(t.triangles.len() == 1 && t.adjacency.len() == 3 && full(&t, y), "removing a triangle breaks another");
                check(t.include_triangle(x) && full(&t, x) && full(&t, y), "a removed triangle is not included again");
            }
        })
        .orders(1),
    );
    v.push(
        scn("P14", "ghosts", "two ghost triangles beyond edges ab and bc, the ghost in any place of each, and the triangle between, included and removed in any order", || {
            let (a, b, c) = (sv("a", -6, 6), sv("b", -6, 6), sv("c", -6, 6));
            apart(&a, &b);
            apart(&b, &c);
            apart(&a, &c);
            let g = Rc::new(Vertex::new_ghost());
            let turn = |n: &str, p: &V, r: &V| {
                Rc::new(match pick(n, 3) {
                    0 => Triangle::new(p, r, &g),
                    1 => Triangle::new(r, &g, p),
                    _ => Triangle::new(&g, p, r),
                })
            };
            let all = [turn("first", &b, &a), turn("second", &c, &b), Rc::new(Triangle::new(&a, &b, &c))];
            let full = |t: &Triangulation, x: &Rc<Triangle>| {
                let (e1, e2, e3) = x.inner_edges();
                [e1, e2, e3].iter().all(|e| t.adjacency.get(e).map_or(false, |y| y == x))
            };
            let mut t = Triangulation::new();
            let first = pick("start", 3) as usize;
            for k in 0..3 {
                check(t.include_triangle(&all[(first + k) % 3]), "a new triangle is not included");
                check(t.triangles.len() == k + 1 && t.adjacency.len() == 3 * k + 3, "wrong number of triangles or edges");
            }
            check(all.iter().all(|x| full(&t, x)), "an included triangle is not adjacent to its edges");
            check(t.vertices().len() == 3 && t.edges().len() == 9, "wrong set of vertices or edges");
            let gone = pick("gone", 3) as usize;
            check(t.remove_triangle(&all[gone]) && !t.remove_triangle(&all[gone]), "removing tells the wrong thing");
            check(t.triangles.len() == 2 && t.adjacency.len() == 6, "wrong number of triangles or edges");
            check((0..3).all(|k| k == gone || full(&t, &all[k])), "removing a triangle breaks another");
        })
        .orders(1),
    );
    // ------------------------------------------------------------------ P15
    v.push(
        scn("P15", "triangle", "any counterclockwise triangle, coordinates any integer in [-64,64]", || {
            let t = [sv("a", -64, 64), sv("b", -64, 64), sv("c", -64, 64)];
            assume_convex(&t);
            let t = triangulate_ok(&dom(&t));
            check(t.triangulation.borrow().triangles.len() == 4, "wrong number of triangles");
        }),
    );
    v.push(
        scn("P15", "quad", "any simple counterclockwise quadrilateral with corners (0,0),(8,1), convex or not, the third corner on one of four diagonals, coordinates any integer in [-10,14]", || {
            let x = var("ax", -10, 14);
            let y = match pick("diagonal", 4) {
                0 => x,
                1 => f(9.0) - x,
                2 => f(4.0),
                _ => f(-5.0),
            };
            let t = [vi(0, 0), vi(8, 1), vx(x, y), sv("b", -10, 14)];
            let p: Vec<P> = t.iter().map(|v| pt(v)).collect();
            assume_pos(area2(&p));
            assume(simple(&p));
            let n = (0..4).filter(|i| sgn(orient(p[*i], p[(*i + 1) % 4], p[(*i + 2) % 4])) > 0).count();
            reach(if n == 4 { "convex" } else { "concave" });
            triangulate_ok(&dom(&t));
        })
        .reach(&["convex", "concave"]),
    );
    v.push(
        scn("P15", "pentagon", "any simple counterclockwise pentagon with corners (0,0),(9,-2),(12,7),(3,10) and one free corner, convex or not, coordinates any integer in [-12,20]", || {
            let t = [vi(0, 0), vi(9, -2), vi(12, 7), vi(3, 10), sv("a", -12, 20)];
            let p: Vec<P> = t.iter().map(|v| pt(v)).collect();
            assume_pos(area2(&p));
            assume(simple(&p));
            triangulate_ok(&dom(&t));
        })
        .orders(1),
    );
    for (name, c) in [("l", L_SHAPE), ("u", U_SHAPE), ("arrow", ARROW), ("comb", COMB), ("star", STAR), ("spiral", SPIRAL), ("cave", CAVE)].iter() {
        let c: &'static [(i32, i32)] = c;
        v.push(
            scn("P15", &format!("shape-{}", name), "a concave polygon at any integer offset in [-30,30]^2, from any first corner, any single deviation of hash order", move || {
                let (dx, dy) = (var("dx", -30, 30), var("dy", -30, 30));
                let mut b: Vec<V> = c.iter().map(|p| vx(dx + f(p.0 as f64), dy + f(p.1 as f64))).collect();
                let k = pick("first", c.len() as u32) as usize;
                b.rotate_left(k);
                triangulate_ok(&dom(&b));
            })
            .orders(1),
        );
    }
    // ------------------------------------------------------------------ P16
    v.push(
        scn("P16", "square-1", "the square [0,12]^2 and one vertex anywhere inside it, coordinates any multiple of 1/8", || {
            let b = vs(&[(0, 0), (12, 0), (12, 12), (0, 12)]);
            let a = svg("a", 0, 12, 3);
            assume_inside(&b, &a);
            let mut d = dom(&b);
            d.vertices = vec![a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "square-fine", "the square [0,12/256]^2 and one vertex anywhere inside it, coordinates any multiple of 2^-11", || {
            let k = f(1.0 / 256.0);
            let b: Vec<V> = vs(&[(0, 0), (12, 0), (12, 12), (0, 12)]).iter().map(|v| vx(v.x * k, v.y * k)).collect();
            let a = svg("a", 0, 12, 3);
            let a = vx(a.x * k, a.y * k);
            assume_inside(&b, &a);
            let mut d = dom(&b);
            d.vertices = vec![a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "square-2", "the square [0,12]^2, the vertex (5,4) and another one anywhere inside, coordinates any integer, any single deviation of hash order", || {
            let b = vs(&[(0, 0), (12, 0), (12, 12), (0, 12)]);
            let a = sv("a", 0, 12);
            let c = vi(5, 4);
            assume_inside(&b, &a);
            apart(&a, &c);
            let mut d = dom(&b);
            d.vertices = vec![c, a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "triangle-3", "the triangle (0,0),(16,2),(5,14), the vertices (6,5),(9,4) and another one anywhere inside, coordinates any integer", || {
            let b = vs(&[(0, 0), (16, 2), (5, 14)]);
            let a = sv("a", 0, 16);
            assume_inside(&b, &a);
            let (c, e) = (vi(6, 5), vi(9, 4));
            apart(&a, &c);
            apart(&a, &e);
            let mut d = dom(&b);
            d.vertices = vec![c, e, a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "concave-1", "the concave polygon (0,0),(12,0),(12,9),(8,9),(8,3),(4,3),(4,9),(0,9) and one vertex anywhere inside, coordinates any integer", || {
            let b = vs(U_SHAPE);
            let a = sv("a", 0, 12);
            assume_inside(&b, &a);
            let mut d = dom(&b);
            d.vertices = vec![a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "arrow-2", "the concave polygon (0,0),(8,-5),(3,0),(8,6), the vertex (2,1) and another one anywhere inside, coordinates any multiple of 1/4", || {
            let b = vs(ARROW);
            let a = svg("a", -5, 8, 2);
            let c = vi(2, 1);
            assume_inside(&b, &a);
            apart(&a, &c);
            let mut d = dom(&b);
            d.vertices = vec![c, a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "cluster", "the rectangle [0,16]x[0,12], five vertices close to each other near a corner or along its side, and another one anywhere inside, coordinates any integer, any single deviation of hash order", || {
            let b = vs(&[(0, 0), (16, 0), (16, 12), (0, 12)]);
            let a = sv("a", 0, 16);
            assume_inside(&b, &a);
            let near = match pick("cluster", 3) {
                0 => vs(&[(1, 7), (2, 9), (1, 10), (3, 11), (2, 6)]),
                1 => vs(&[(13, 2), (14, 4), (15, 1), (12, 1), (15, 3)]),
                _ => vs(&[(3, 1), (5, 1), (8, 1), (10, 1), (13, 1)]),
            };
            for c in near.iter() {
                apart(&a, c);
            }
            let mut d = dom(&b);
            d.vertices = near;
            d.vertices.push(a);
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P16", "lattice", "the rectangle [0,12]x[0,9] with the six vertices of a square lattice inside it, all cocircular by fours, and another one anywhere inside, coordinates any multiple of 1/2", || {
            let b = vs(&[(0, 0), (12, 0), (12, 9), (0, 9)]);
            let a = svg("a", 0, 12, 1);
            assume_inside(&b, &a);
            let l = vs(&[(3, 3), (6, 3), (9, 3), (3, 6), (6, 6), (9, 6)]);
            for c in l.iter() {
                apart(&a, c);
            }
            let mut d = dom(&b);
            d.vertices = l;
            d.vertices.push(a);
            triangulate_ok(&d);
        })
        .orders(1),
    );
    // ------------------------------------------------------------------ P17
    v.push(
        scn("P17", "vertices", "the rectangle [0,12]x[0,10] with the hole (3,3),(8,4),(4,7), and sets of one or two vertices with any integer coordinates in [-2,14]", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let h = vs(&[(3, 3), (8, 4), (4, 7)]);
            let mut t = Triangulator::new(&polyv(&b));
            check(t.insert_hole(&polyv(&h)).is_ok(), "a hole inside the boundary is rejected");
            let (bp, hp): (Vec<P>, Vec<P>) = (b.iter().map(|v| pt(v)).collect(), h.iter().map(|v| pt(v)).collect());
            let k = vi(1, 1);
            let mut s0 = HashSet::new();
            s0.insert(k.clone());
            check(t.insert_vertices(&s0).is_ok(), "a vertex inside the domain is rejected");
            let a = sv("a", -2, 14);
            apart(&a, &k);
            let c = match pick("second", 3) {
                0 => vi(10, 8),
                1 => vi(5, 5),
                _ => vi(13, 2),
            };
            apart(&a, &c);
            let ok = |v: &V| locate(&bp, pt(v)) > 0 && locate(&hp, pt(v)) < 0;
            let mut s = HashSet::new();
            s.insert(a.clone());
            s.insert(c.clone());
            let bad: Vec<V> = [&a, &c].iter().filter(|v| !ok(v)).map(|v| (*v).clone()).collect();
            let r = t.insert_vertices(&s).map(|_| ());
            match r {
                Ok(()) => {
                    check(bad.is_empty(), "a vertex outside the domain is accepted");
                    check(t.vertices.len() == 3 && [&a, &c, &k].iter().all(|v| t.vertices.contains(*v)), "accepted vertices are not kept");
                    reach("accepted");
                }
                Err(e) => {
                    check(!bad.is_empty(), "vertices inside the domain are rejected");
                    check(e.len() == bad.len() && bad.iter().all(|v| e.contains(v)), "the conflicting vertices are not the ones outside the domain");
                    check(t.vertices.len() == 1 && t.vertices.contains(&k), "rejected vertices are kept, or kept ones are lost");
                    reach("rejected");
                }
            }
        })
        .orders(1)
        .reach(&["accepted", "rejected"]),
    );
    v.push(
        scn("P17", "two-holes", "the rectangle [0,16]x[0,10] with two triangular holes, and a vertex with any integer coordinates in [-2,18], any order of the holes", || {
            let b = vs(&[(0, 0), (16, 0), (16, 10), (0, 10)]);
            let hs = [vs(&[(2, 2), (6, 3), (3, 7)]), vs(&[(10, 3), (14, 5), (9, 8)])];
            let mut t = Triangulator::new(&polyv(&b));
            for h in hs.iter() {
                check(t.insert_hole(&polyv(h)).is_ok(), "a hole inside the boundary and apart from the others is rejected");
            }
            let a = sv("a", -2, 18);
            let at = |p: &[V]| locate(&p.iter().map(|v| pt(v)).collect::<Vec<P>>(), pt(&a));
            let ok = at(&b) > 0 && hs.iter().all(|h| at(h) < 0);
            let mut s = HashSet::new();
            s.insert(a.clone());
            let r = t.insert_vertices(&s).is_ok();
            check(r == ok, if ok { "a vertex inside the domain is rejected" } else { "a vertex outside the domain is accepted" });
            check(t.vertices.len() == ok as usize, "accepted vertices are not kept, or rejected ones are");
        })
        .orders(1),
    );
    v.push(
        scn("P17", "segments", "the rectangle [0,12]x[0,10] with the hole (3,3),(8,4),(4,7), and a segment from one of five places to anywhere, integer coordinates in [-2,14]", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let h = vs(&[(3, 3), (8, 4), (4, 7)]);
            let mut t = Triangulator::new(&polyv(&b));
            check(t.insert_hole(&polyv(&h)).is_ok(), "a hole inside the boundary is rejected");
            let a = match pick("from", 5) {
                0 => vi(1, 1),
                1 => vi(9, 8),
                2 => vi(5, 5),
                3 => vi(13, 5),
                _ => vi(0, 4),
            };
            let c = sv("c", -2, 14);
            apart(&a, &c);
            let e = Rc::new(Edge::new(&a, &c));
            let other = Rc::new(Edge::new(&vi(10, 1), &vi(11, 9)));
            let inside = {
                let (pa, pc) = (pt(&a), pt(&c));
                let (bp, hp): (Vec<P>, Vec<P>) = (b.iter().map(|v| pt(v)).collect(), h.iter().map(|v| pt(v)).collect());
                locate(&bp, pa) > 0
                    && locate(&bp, pc) > 0
                    && locate(&hp, pa) < 0
                    && (0..3).all(|i| !segs_meet(hp[i], hp[(i + 1) % 3], pa, pc))
            };
            let mut s = HashSet::new();
            s.insert(e.clone());
            s.insert(other.clone());
            match t.insert_segments(&s).map(|_| ()) {
                Ok(()) => {
                    check(inside, "a segment that leaves the domain is accepted");
                    reach("accepted");
                    check(t.segments.iter().any(|x| x.v1 == other.v1 || x.v2 == other.v1), "an accepted segment is not kept");
                }
                Err(x) => {
                    check(!inside, "a segment inside the domain is rejected");
                    check(x.len() == 1 && x.contains(&e), "the conflicting segments are not the ones that leave the domain");
                    check(t.segments.is_empty(), "rejected segments are kept");
                    reach("rejected");
                }
            }
        })
        .reach(&["accepted", "rejected"]),
    );
    v.push(
        scn("P17", "holes", "the rectangle [0,12]x[0,10] with a hole and a segment, and another triangular hole with one corner anywhere, integer coordinates in [-2,14]", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let h = vs(&[(6, 3), (8, 4), (6, 5)]);
            let mut t = Triangulator::new(&polyv(&b));
            check(t.insert_hole(&polyv(&h)).is_ok(), "a hole inside the boundary is rejected");
            let seg = (vi(2, 8), vi(10, 9));
            let mut s = HashSet::new();
            s.insert(Rc::new(Edge::new(&seg.0, &seg.1)));
            check(t.insert_segments(&s).is_ok(), "a segment inside the domain is rejected");
            let c = sv("c", -2, 14);
            let n = vec![vi(2, 2), vi(5, 1), c.clone()];
            let np: Vec<P> = n.iter().map(|v| pt(v)).collect();
            assume_pos(area2(&np));
            let bp: Vec<P> = b.iter().map(|v| pt(v)).collect();
            let hp: Vec<P> = h.iter().map(|v| pt(v)).collect();
            let meets = |q: &[P]| (0..3).any(|i| (0..q.len()).any(|j| segs_meet(np[i], np[(i + 1) % 3], q[j], q[(j + 1) % q.len()])));
            let ok = locate(&bp, np[2]) > 0 && !meets(&hp) && locate(&np, hp[0]) < 0 && !meets(&[pt(&seg.0), pt(&seg.1)]) && locate(&np, pt(&seg.0)) < 0;
            match t.insert_hole(&polyv(&n)).map(|_| ()) {
                Ok(()) => {
                    check(ok, "a hole that meets the boundary, another hole or a segment is accepted");
                    check(t.holes.len() == 2, "an accepted hole is not kept");
                    reach("accepted");
                }
                Err(_) => {
                    check(!ok, "a hole apart from the boundary, the holes and the segments is rejected");
                    check(t.holes.len() == 1, "a rejected hole is kept");
                    reach("rejected");
                }
            }
        })
        .reach(&["accepted", "rejected"]),
    );
    v.push(
        scn("P17", "hole-rect", "the rectangle [0,12]x[0,10] with the hole (6,3),(8,4),(6,5) and a segment (2,8),(4,8), and another rectangular hole of any position and size, integer coordinates in [-2,15]", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let h = vs(&[(6, 3), (8, 4), (6, 5)]);
            let mut t = Triangulator::new(&polyv(&b));
            check(t.insert_hole(&polyv(&h)).is_ok(), "a hole inside the boundary is rejected");
            let seg = (vi(2, 8), vi(4, 8));
            let mut s = HashSet::new();
            s.insert(Rc::new(Edge::new(&seg.0, &seg.1)));
            check(t.insert_segments(&s).is_ok(), "a segment inside the domain is rejected");
            let (x, y, w, l) = (var("x", -2, 10), var("y", -2, 9), var("w", 2, 13), var("h", 1, 12));
            let n = vec![vx(x, y), vx(x + w, y), vx(x + w, y + l), vx(x, y + l)];
            let np: Vec<P> = n.iter().map(|v| pt(v)).collect();
            let (bp, hp): (Vec<P>, Vec<P>) = (b.iter().map(|v| pt(v)).collect(), h.iter().map(|v| pt(v)).collect());
            let meets = |q: &[P]| (0..4).any(|i| (0..q.len()).any(|j| segs_meet(np[i], np[(i + 1) % 4], q[j], q[(j + 1) % q.len()])));
            let around = locate(&np, hp[0]) > 0 || locate(&np, pt(&seg.0)) > 0;
            let ok = np.iter().all(|v| locate(&bp, *v) > 0) && !meets(&hp) && !around && locate(&hp, np[0]) < 0 && !meets(&[pt(&seg.0), pt(&seg.1)]);
            let got = t.insert_hole(&polyv(&n)).is_ok();
            reach(if got { "accepted" } else if around { "around" } else { "rejected" });
            check(got == ok, if ok { "a hole apart from the boundary, the holes and the segments is rejected" } else { "a hole that meets the boundary, another hole or a segment, or that is around them, is accepted" });
            check(t.holes.len() == 1 + ok as usize, "an accepted hole is not kept, or a rejected one is");
        })
        .reach(&["accepted", "rejected", "around"]),
    );
    // ------------------------------------------------------------------ P18
    v.push(
        scn("P18", "kept-out", "the rectangle [0,14]x[0,8] with two triangular holes, triangulated, and then one vertex with any integer coordinates in [-2,16] inserted, any order of the holes", || {
            let mut d = dom(&vs(&[(0, 0), (14, 0), (14, 8), (0, 8)]));
            d.holes = vec![vs(&[(2, 2), (6, 3), (3, 6)]), vs(&[(9, 2), (12, 4), (8, 6)])];
            let t = triangulate_ok(&d);
            let a = sv("a", -2, 16);
            let at = |p: &[V]| locate(&p.iter().map(|v| pt(v)).collect::<Vec<P>>(), pt(&a));
            let (out, inn) = (at(&d.boundary) < 0 || d.holes.iter().any(|h| at(h) > 0), at(&d.boundary) > 0 && d.holes.iter().all(|h| at(h) < 0));
            assume(out || inn);
            let con: HashSet<Rc<Edge>> = t.holes.iter().map(|h| h.into_edges()).flatten().chain(t.boundary.into_edges()).collect();
            let r = attempt(|| {
                nlsn_delaunay::planar::triangulation_procedures::vertices::include(&mut t.triangulation.borrow_mut(), vec![a.clone()], &con, &Some(t.boundary.clone()), &t.holes)
            });
            if let Err(m) = r {
                fail(format!("inserting a vertex panics: {}", m));
            }
            reach(if inn { "inside" } else { "kept out" });
            if inn {
                d.vertices.push(a);
            }
            check_mesh(&t.triangulation.borrow(), &d, false);
        })
        .orders(1)
        .reach(&["inside", "kept out"]),
    );
    v.push(
        scn("P18", "moving", "the rectangle [0,12]x[0,10] with the triangular hole (0,0),(4,1),(1,3) at any integer offset inside it, any single deviation of hash order", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let (x, y) = (var("x", 1, 7), var("y", 1, 6));
            let mut d = dom(&b);
            d.holes = vec![vec![vx(x, y), vx(x + f(4.0), y + f(1.0)), vx(x + f(1.0), y + f(3.0))]];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P18", "corner", "the triangle (0,0),(16,2),(5,14) with a hole of corners (5,4),(8,5) and one free corner anywhere inside, integer coordinates", || {
            let b = vs(&[(0, 0), (16, 2), (5, 14)]);
            let c = sv("c", 0, 16);
            assume_inside(&b, &c);
            let h = vec![vi(5, 4), vi(8, 5), c];
            assume_convex(&h);
            let mut d = dom(&b);
            d.holes = vec![h];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P18", "two", "the rectangle [0,16]x[0,10] with the hole (2,2),(6,3),(3,7) and the hole (0,0),(3,1),(1,4) at any integer offset inside and apart, one vertex, any single deviation of hash order", || {
            let b = vs(&[(0, 0), (16, 0), (16, 10), (0, 10)]);
            let (x, y) = (var("x", 7, 12), var("y", 1, 5));
            let mut d = dom(&b);
            d.holes = vec![vs(&[(2, 2), (6, 3), (3, 7)]), vec![vx(x, y), vx(x + f(3.0), y + f(1.0)), vx(x + f(1.0), y + f(4.0))]];
            d.vertices = vec![vi(6, 8)];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P18", "concave", "the rectangle [0,16]x[0,12] with a concave hole at any integer offset and one vertex in its notch, any single deviation of hash order", || {
            let b = vs(&[(0, 0), (16, 0), (16, 12), (0, 12)]);
            let (x, y) = (var("x", 1, 7), var("y", 1, 5));
            let at = |i: i32, j: i32| vx(x + f(i as f64), y + f(j as f64));
            let mut d = dom(&b);
            d.holes = vec![vec![at(0, 0), at(8, 0), at(8, 6), at(6, 6), at(6, 2), at(2, 2), at(2, 6), at(0, 6)]];
            d.vertices = vec![at(4, 5)];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P18", "round", "a hole of twelve vertices, deep in triangles that share no side with it, at any integer offset along the rectangle [-40,40]x[-35,35], from any first corner", || {
            let b = vs(&[(-40, -35), (40, -35), (40, 35), (-40, 35)]);
            let (x, y) = (var("x", -2, 2), f(1.0));
            let mut h: Vec<V> = ROUND.iter().map(|p| vx(x + f(p.0 as f64), y + f(p.1 as f64))).collect();
            h.rotate_left(pick("first", 12) as usize);
            let mut d = dom(&b);
            d.holes = vec![h];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P18", "vertex", "the rectangle [0,12]x[0,10] with the hole (3,3),(8,4),(4,7) and one vertex anywhere in the domain, integer coordinates", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let h = vs(&[(3, 3), (8, 4), (4, 7)]);
            let a = sv("a", 0, 12);
            assume_inside(&b, &a);
            let hp: Vec<P> = h.iter().map(|v| pt(v)).collect();
            assume(locate(&hp, pt(&a)) < 0);
            let mut d = dom(&b);
            d.holes = vec![h];
            d.vertices = vec![a];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    // ------------------------------------------------------------------ P19
    v.push(
        scn("P19", "one", "the rectangle [0,12]x[0,10] and a segment from (3,4) to anywhere inside, integer coordinates, with the vertices (6,6),(8,3) off it", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let c = sv("c", 0, 12);
            assume_inside(&b, &c);
            let a = vi(3, 4);
            apart(&a, &c);
            let mut d = dom(&b);
            d.segments = vec![(a, c)];
            let more = vs(&[(6, 6), (8, 3)]);
            for m in more.iter() {
                assume(!on_seg(pt(&d.segments[0].0), pt(&d.segments[0].1), pt(m)));
            }
            d.vertices = more;
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P19", "concave", "the u-shaped polygon and a segment with both ends anywhere such that it stays strictly inside, integer coordinates", || {
            let b = vs(U_SHAPE);
            let bp: Vec<P> = b.iter().map(|v| pt(v)).collect();
            let a = vi(6, 1);
            let c = sv("c", 0, 12);
            apart(&a, &c);
            assume(locate(&bp, pt(&c)) > 0);
            assume((0..8).all(|i| !segs_meet(bp[i], bp[(i + 1) % 8], pt(&a), pt(&c))));
            let mut d = dom(&b);
            d.segments = vec![(a, c)];
            triangulate_ok(&d);
        })
        .orders(1),
    );
    v.push(
        scn("P19", "cross", "the rectangle [0,12]x[0,10] with the segment (2,5)-(10,5) and another one from (6,2) to anywhere inside, integer coordinates: crossing segments are split where they meet", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let c = sv("c", 0, 12);
            assume_inside(&b, &c);
            let a = vi(6, 2);
            apart(&a, &c);
            let (s, e) = (vi(2, 5), vi(10, 5));
            let mut t = Triangulator::new(&polyv(&b));
            let segs: HashSet<Rc<Edge>> = vec![Rc::new(Edge::new(&s, &e)), Rc::new(Edge::new(&a, &c))].into_iter().collect();
            check(t.insert_segments(&segs).is_ok(), "a segment inside the domain is rejected");
            let (ps, pe, pa, pc) = (pt(&s), pt(&e), pt(&a), pt(&c));
            let meet = segs_meet(ps, pe, pa, pc);
            reach(if meet { "meet" } else { "apart" });
            // every piece lies on one of the segments, and they cover both
            let mut cover = [zero(), zero()];
            for x in t.segments.iter() {
                let (u, w) = (pt(&x.v1), pt(&x.v2));
                let k = if near_on(ps, pe, u) && near_on(ps, pe, w) {
                    0
                } else {
                    check(near_on(pa, pc, u) && near_on(pa, pc, w), "a piece of a segment is on none");
                    1
                };
                let dx = |p: P, q: P| if k == 0 { p.0 - q.0 } else { p.1 - q.1 };
                let l = dx(u, w);
                cover[k] = cover[k] + if l < zero() { -l } else { l };
            }
            let l = pa.1 - pc.1;
            check(near(cover[0], qi(8)) && near(cover[1], if l < zero() { -l } else { l }), "the pieces do not cover the segments");
            check(t.segments.len() <= 4 && (meet || t.segments.len() == 2), "wrong number of pieces");
            let mut d = dom(&b);
            d.segments = t.segments.iter().map(|e| (e.v1.clone(), e.v2.clone())).collect();
            d.segments.sort_by_key(|e| e.0 == a || e.1 == a);
            match attempt(|| {
                t.triangulate();
            }) {
                Ok(()) => {}
                Err(m) => fail(format!("triangulation panics: {}", m)),
            }
            check_mesh(&t.triangulation.borrow(), &d, false);
        })
        .reach(&["meet", "apart"]),
    );
    v.push(
        scn("P19", "on-vertex", "the rectangle [0,12]x[0,10], a segment (2,3)-(10,7) and a vertex anywhere inside, inserted before or after: a vertex on the segment splits it", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let a = sv("a", 0, 12);
            assume_inside(&b, &a);
            let (s, e) = (vi(2, 3), vi(10, 7));
            let mut t = Triangulator::new(&polyv(&b));
            let segs: HashSet<Rc<Edge>> = vec![Rc::new(Edge::new(&s, &e))].into_iter().collect();
            let set: HashSet<Rc<Vertex>> = vec![a.clone()].into_iter().collect();
            let first = pick("vertex first", 2) == 1;
            if first {
                check(t.insert_vertices(&set).is_ok(), "a vertex inside the domain is rejected");
            }
            check(t.insert_segments(&segs).is_ok(), "a segment inside the domain is rejected");
            if !first {
                check(t.insert_vertices(&set).is_ok(), "a vertex inside the domain is rejected");
            }
            let end = same_pt(pt(&a), pt(&s)) || same_pt(pt(&a), pt(&e));
            let on = on_seg(pt(&s), pt(&e), pt(&a));
            let has = |u: &V, w: &V| t.segments.contains(&Rc::new(Edge::new(u, w)));
            if end {
                check(t.segments.len() == 1 && has(&s, &e), "a vertex at the end of a segment changes it");
                check(t.vertices.len() == 0, "a vertex at the end of a segment is kept twice");
            } else if on {
                reach("on");
                check(t.segments.len() == 2 && has(&s, &a) && has(&a, &e), "a vertex on a segment does not split it");
                check(t.vertices.len() == 0, "a vertex on a segment is kept twice");
            } else {
                check(t.segments.len() == 1 && has(&s, &e) && t.vertices.len() == 1, "a vertex off a segment changes it");
            }
            let mut d = dom(&b);
            d.segments = if on && !end { vec![(s, a.clone()), (a, e)] } else { vec![(s, e)] };
            if !on {
                d.vertices = vec![t.vertices.iter().next().unwrap().clone()];
            }
            match attempt(|| {
                t.triangulate();
            }) {
                Ok(()) => {}
                Err(m) => fail(format!("triangulation panics: {}", m)),
            }
            check_mesh(&t.triangulation.borrow(), &d, false);
        })
        .orders(1)
        .reach(&["on"]),
    );
    v.push(
        scn("P19", "on-two", "the rectangle [0,12]x[0,10], the vertices (4,4) and any other, then the segment (2,3)-(10,7) or the same reversed: split at both where they are on it", || {
            let b = vs(&[(0, 0), (12, 0), (12, 10), (0, 10)]);
            let a = sv("a", 0, 12);
            assume_inside(&b, &a);
            let (s, e, o) = (vi(2, 3), vi(10, 7), vi(4, 4));
            apart(&a, &o);
            let mut t = Triangulator::new(&polyv(&b));
            let segs: HashSet<Rc<Edge>> = vec![Rc::new(if pick("reversed", 2) == 0 { Edge::new(&s, &e) } else { Edge::new(&e, &s) })].into_iter().collect();
            let set: HashSet<Rc<Vertex>> = vec![a.clone(), o.clone()].into_iter().collect();
            let first = pick("vertices first", 2) == 1;
            if first {
                check(t.insert_vertices(&set).is_ok(), "a vertex inside the domain is rejected");
            }
            check(t.insert_segments(&segs).is_ok(), "a segment inside the domain is rejected");
            if !first {
                check(t.insert_vertices(&set).is_ok(), "a vertex inside the domain is rejected");
            }
            let on = on_seg(pt(&s), pt(&e), pt(&a)) && !same_pt(pt(&a), pt(&s)) && !same_pt(pt(&a), pt(&e));
            let off = !on_seg(pt(&s), pt(&e), pt(&a));
            reach(if on { "on" } else { "off" });
            let mut chain = vec![s.clone(), o.clone(), e.clone()];
            if on {
                chain.insert(if pt(&a).0 < pt(&o).0 { 1 } else { 2 }, a.clone());
            }
            let has = |u: &V, w: &V| t.segments.iter().any(|x| same_pt(pt(&x.v1), pt(u)) && same_pt(pt(&x.v2), pt(w)) || same_pt(pt(&x.v1), pt(w)) && same_pt(pt(&x.v2), pt(u)));
            check(t.segments.len() == chain.len() - 1 && (1..chain.len()).all(|k| has(&chain[k - 1], &chain[k])), "a segment is not split at the vertices on it");
            check(t.vertices.len() == if off { 1 } else { 0 }, "vertices on a segment are kept twice, or others lost");
            let mut d = dom(&b);
            d.segments = (1..chain.len()).map(|k| (chain[k - 1].clone(), chain[k].clone())).collect();
            if off {
                d.vertices = vec![a.clone()];
            }
            match attempt(|| {
                t.triangulate();
            }) {
                Ok(()) => {}
                Err(m) => fail(format!("triangulation panics: {}", m)),
            }
            check_mesh(&t.triangulation.borrow(), &d, false);
        })
        .orders(1)
        .reach(&["on", "off"]),
    );
    // ------------------------------------------------------------------ P20
    let refine = move |d: &Dom, ratio: f64, area: Option<f64>| refine_ok(d, ratio, area, true);
    let refine_exact = move |d: &Dom, ratio: f64, area: Option<f64>| refine_ok(d, ratio, area, false);
    v.push(
        scn("P20", "rect-exact", "the rectangle of any integer width 4..24 and height 3..6, ratio 1.5, decided in exact arithmetic throughout", move || {
            let (w, h) = (var("w", 4, 24), var("h", 3, 6));
            let z = f(0.0);
            refine_exact(&dom(&[vx(z, z), vx(w, z), vx(w, h), vx(z, h)]), 1.5, None);
        })
        .reach(&["refined", "untouched"]),
    );
    v.push(
        scn("P20", "quad-exact", "the quadrilateral (0,0),(14,-2),(c),(1,12) with any fourth corner such that it is convex without corners below 60 degrees, integer coordinates in [1,24], ratio 1.5, decided in exact arithmetic throughout", move || {
            let c = sv("c", 1, 24);
            let b = [vi(0, 0), vi(14, -2), c, vi(1, 12)];
            assume_convex(&b);
            for i in 0..4 {
                assume_blunt(pt(&b[i]), pt(&b[(i + 1) % 4]), pt(&b[(i + 3) % 4]));
            }
            refine_exact(&dom(&b), 1.5, None);
        })
        .reach(&["refined", "untouched"]),
    );
    v.push(
        scn("P20", "rect", "the rectangle of any integer width 4..60 and height 3..12, ratio 1.5", move || {
            let (w, h) = (var("w", 4, 60), var("h", 3, 12));
            let z = f(0.0);
            refine(&dom(&[vx(z, z), vx(w, z), vx(w, h), vx(z, h)]), 1.5, None);
        })
        .reach(&["refined", "untouched"]),
    );
    v.push(
        scn("P20", "quad", "the quadrilateral (0,0),(14,-2),(c),(1,12) with any fourth corner such that it is convex without corners below 60 degrees, integer coordinates in [1,24], ratio 1.5", move || {
            let c = sv("c", 1, 24);
            let b = [vi(0, 0), vi(14, -2), c, vi(1, 12)];
            assume_convex(&b);
            for i in 0..4 {
                assume_blunt(pt(&b[i]), pt(&b[(i + 1) % 4]), pt(&b[(i + 3) % 4]));
            }
            refine(&dom(&b), 1.5, None);
        })
        .reach(&["refined", "untouched"]),
    );
    v.push(
        scn("P20", "vertex", "the rectangle [0,9]x[0,6] with one vertex anywhere inside, integer coordinates, ratio 1.5, any single deviation of hash order", move || {
            let b = vs(&[(0, 0), (9, 0), (9, 6), (0, 6)]);
            let a = sv("a", 1, 8);
            assume_inside(&b, &a);
            let mut d = dom(&b);
            d.vertices = vec![a];
            refine(&d, 1.5, None);
        })
        .orders(1)
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "vertices", "the rectangle [0,24]x[0,18] with a vertex at (7,8) and one anywhere inside, integer coordinates, ratio 1.5", move || {
            let b = vs(&[(0, 0), (24, 0), (24, 18), (0, 18)]);
            let a = sv("a", 1, 23);
            assume_inside(&b, &a);
            let m = vi(7, 8);
            apart(&a, &m);
            let mut d = dom(&b);
            d.vertices = vec![m, a];
            refine(&d, 1.5, None);
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "segment", "the rectangle [0,24]x[0,16] with a segment from (4,3) to anywhere inside, integer coordinates, ratio 1.5", move || {
            let b = vs(&[(0, 0), (24, 0), (24, 16), (0, 16)]);
            let c = sv("c", 1, 23);
            assume_inside(&b, &c);
            let a = vi(4, 3);
            apart(&a, &c);
            let mut d = dom(&b);
            d.segments = vec![(a, c)];
            refine(&d, 1.5, None);
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "hole", "the rectangle [0,16]x[0,12] with a square hole of side 4 at any integer offset inside, ratio 1.5", move || {
            let b = vs(&[(0, 0), (16, 0), (16, 12), (0, 12)]);
            let (x, y) = (var("x", 1, 11), var("y", 1, 7));
            let mut d = dom(&b);
            d.holes = vec![vec![vx(x, y), vx(x + f(4.0), y), vx(x + f(4.0), y + f(4.0)), vx(x, y + f(4.0))]];
            refine(&d, 1.5, None);
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "concave", "the l-shaped polygon with one vertex anywhere inside, integer coordinates, ratio 1.5", move || {
            let b = vs(L_SHAPE);
            let bp: Vec<P> = b.iter().map(|v| pt(v)).collect();
            let a = sv("a", 0, 12);
            assume(locate(&bp, pt(&a)) > 0);
            let mut d = dom(&b);
            d.vertices = vec![a];
            refine(&d, 1.5, None);
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "unencroach", "the rectangle [0,16]x[0,12] with a segment (3,4)-(12,5), a hole or neither, and one vertex anywhere in it, integer coordinates: splitting encroached segments, and what it tells of it", move || {
            let mut d = dom(&vs(&[(0, 0), (16, 0), (16, 12), (0, 12)]));
            match pick("with", 3) {
                0 => {}
                1 => d.segments = vec![(vi(3, 4), vi(12, 5))],
                _ => d.holes = vec![vs(&[(6, 4), (10, 5), (7, 8)])],
            }
            let a = sv("a", 1, 15);
            assume_inside(&d.boundary, &a);
            for h in d.holes.iter() {
                assume(locate(&h.iter().map(|v| pt(v)).collect::<Vec<P>>(), pt(&a)) < 0);
            }
            for s in d.segments.iter() {
                assume(!on_seg(pt(&s.0), pt(&s.1), pt(&a)));
            }
            d.vertices = vec![a];
            let t = triangulate_ok(&d);
            let con: HashSet<Rc<Edge>> = t.holes.iter().map(|h| h.into_edges()).flatten().chain(t.boundary.into_edges()).chain(t.segments.iter().cloned()).collect();
            let key = |ids: &mut Ids, t: &Rc<Triangle>| {
                let mut k = [&t.v1, &t.v2, &t.v3].iter().map(|v| if v.is_ghost { usize::MAX } else { ids.of(v) }).collect::<Vec<usize>>();
                k.sort();
                k
            };
            let mut ids = Ids { known: vec![] };
            let mut keys = |l: Vec<Rc<Triangle>>| l.iter().map(|t| key(&mut ids, t)).collect::<std::collections::BTreeSet<Vec<usize>>>();
            let before = keys(t.triangulation.borrow().triangles.iter().cloned().collect());
            let r = attempt(|| nlsn_delaunay::planar::refine_procedures::encroachment::unencroach(&mut t.triangulation.borrow_mut(), &con, &Some(t.boundary.clone()), &t.holes));
            let (splits, included, removed) = match r {
                Ok(x) => x,
                Err(m) => fail(format!("splitting encroached segments panics: {}", m)),
            };
            let after = keys(t.triangulation.borrow().triangles.iter().cloned().collect());
            let (included, removed) = (keys(included.iter().cloned().collect()), keys(removed.iter().cloned().collect()));
            check(included == after.difference(&before).cloned().collect(), "the triangles told to be included are not the new ones");
            check(before.difference(&after).all(|t| removed.contains(t)) && removed.intersection(&after).next().is_none(), "the triangles told to be removed are not the ones removed");
            reach(if splits.is_empty() { "untouched" } else { "split" });
            let m = check_mesh(&t.triangulation.borrow(), &d, true);
            let old: Vec<P> = d.boundary.iter().chain(d.holes.iter().flatten()).chain(d.segments.iter().flat_map(|s| vec![&s.0, &s.1])).chain(d.vertices.iter()).map(|v| pt(v)).collect();
            let gone: Vec<Rc<Edge>> = splits.values().cloned().collect();
            let now: Vec<Rc<Edge>> = con.iter().filter(|e| !gone.contains(e)).chain(splits.keys()).cloned().collect();
            let is_edge = |i: usize, j: usize| m.tris.iter().any(|t| (0..3).any(|k| (t[k], t[(k + 1) % 3]) == (i, j) || (t[k], t[(k + 1) % 3]) == (j, i)));
            for e in now.iter() {
                match (m.ids.find(&e.v1), m.ids.find(&e.v2)) {
                    (Some(i), Some(j)) => check(is_edge(i, j), "a segment kept or split is no edge of the triangulation"),
                    _ => fail("a segment kept or split has no vertex of the triangulation".into()),
                }
                let (p, q) = (pt(&e.v1), pt(&e.v2));
                check(old.iter().all(|v| dotq(*v, p, *v, q) >= zero()), "a vertex still encroaches a segment");
            }
        })
        .orders(1)
        .reach(&["split"]),
    );
    v.push(
        scn("P20", "area", "the rectangle of any integer width 4..9 and height 4..6, ratio 1.5, area at most 4, any single deviation of hash order", move || {
            let (w, h) = (var("w", 4, 9), var("h", 4, 6));
            let z = f(0.0);
            refine(&dom(&[vx(z, z), vx(w, z), vx(w, h), vx(z, h)]), 1.5, Some(4.0));
        })
        .orders(1)
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "area-segment", "the rectangle [0,12]x[0,9] with a segment from (4,3) to anywhere inside, integer coordinates, ratio 1.5, area at most 3", move || {
            let b = vs(&[(0, 0), (12, 0), (12, 9), (0, 9)]);
            let c = sv("c", 1, 11);
            assume_inside(&b, &c);
            let a = vi(4, 3);
            apart(&a, &c);
            let mut d = dom(&b);
            d.segments = vec![(a, c)];
            refine(&d, 1.5, Some(3.0));
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "area-hole", "the rectangle [0,16]x[0,12] with a square hole of side 4 at any integer offset inside, ratio 1.5, area at most 7", move || {
            let b = vs(&[(0, 0), (16, 0), (16, 12), (0, 12)]);
            let (x, y) = (var("x", 1, 11), var("y", 1, 7));
            let mut d = dom(&b);
            d.holes = vec![vec![vx(x, y), vx(x + f(4.0), y), vx(x + f(4.0), y + f(4.0)), vx(x, y + f(4.0))]];
            refine(&d, 1.5, Some(7.0));
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "again", "the rectangle [0,12]x[0,9] with one vertex anywhere inside, a segment (2,2)-(7,3), a hole or neither, integer coordinates, refined with ratio 1.5, then again with area at most 4, or triangulated anew and refined once more", move || {
            let mut d = dom(&vs(&[(0, 0), (12, 0), (12, 9), (0, 9)]));
            match pick("with", 3) {
                0 => {}
                1 => d.segments = vec![(vi(2, 2), vi(7, 3))],
                _ => d.holes = vec![vs(&[(6, 4), (9, 4), (9, 7), (6, 7)])],
            }
            let a = sv("a", 1, 11);
            assume_inside(&d.boundary, &a);
            for h in d.holes.iter() {
                assume(locate(&h.iter().map(|v| pt(v)).collect::<Vec<P>>(), pt(&a)) < 0);
            }
            for s in d.segments.iter() {
                assume(!on_seg(pt(&s.0), pt(&s.1), pt(&a)));
            }
            d.vertices = vec![a];
            let mut t = triangulate_ok(&d);
            concretize();
            refined_ok(&mut t, &d, 1.5, None);
            if pick("anew", 2) == 1 {
                if let Err(m) = attempt(|| {
                    t.triangulate();
                }) {
                    fail(format!("triangulating again panics: {}", m))
                }
                check_mesh(&t.triangulation.borrow(), &d, false);
                refined_ok(&mut t, &d, 1.5, None);
            } else {
                refined_ok(&mut t, &d, 1.5, Some(4.0));
            }
        })
        .reach(&["refined"]),
    );
    v.push(
        scn("P20", "area-vertex", "the rectangle [0,8]x[0,6] with one vertex anywhere inside, integer coordinates, ratio 1.5, area at most one of 2, 5, 9", move || {
            let b = vs(&[(0, 0), (8, 0), (8, 6), (0, 6)]);
            let a = sv("a", 1, 7);
            assume_inside(&b, &a);
            let mut d = dom(&b);
            d.vertices = vec![a];
            let m = [2.0, 5.0, 9.0][pick("area", 3) as usize];
            refine(&d, 1.5, Some(m));
        })
        .reach(&["refined"]),
    );
}
