//! P06..P09: bounding boxes, keys, edges, triangles
use super::geom::*;
use super::predicates::csign;
use super::*;
use nlsn_delaunay::elements::{bounding_box::BoundingBox, edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::properties::continence::Continence;
use std::cmp::Ordering;
use std::rc::Rc;

fn fv(n: &str) -> V {
    let x = free(&format!("{}x", n), -1e6, 1e6);
    let y = free(&format!("{}y", n), -1e6, 1e6);
    vx(x, y)
}
/// a vertex, possibly the ghost, possibly with a signed zero
fn kv(n: &str) -> V {
    match pick(&format!("{}kind", n), 4) {
        0 => sv(n, -3, 3),
        1 => Rc::new(Vertex::new_ghost()),
        2 => vx(f(-0.0), f(0.0)),
        _ => vx(f(0.0), f(-0.0)),
    }
}
/// the same coordinates or another vertex
fn same_v(a: &Vertex, b: &Vertex) -> bool {
    a.is_ghost && b.is_ghost || !a.is_ghost && !b.is_ghost && q(a.x) == q(b.x) && q(a.y) == q(b.y)
}

pub fn register(v: &mut Vec<Scn>) {
    // ------------------------------------------------------------------ P06
    v.push(
        scn("P06", "of-vertices", "up to 3 vertices and a query vertex, coordinates any value of [-1e6,1e6]", || {
            let n = pick("n", 4) as usize;
            let vs: Vec<V> = ["a", "b", "c"].iter().take(n).map(|s| fv(s)).collect();
            let b = match BoundingBox::from_vertices(vs.clone()) {
                None => return check(n == 0, "vertices without a bounding box"),
                Some(b) => b,
            };
            check(n > 0, "a bounding box of nothing");
            for p in vs.iter() {
                check(b.contains(p), "a bounding box does not contain one of its vertices");
            }
            let (lo, hi) = (pt(&b.origin), pt(&b.destin));
            check(vs.iter().any(|p| q(p.x) == lo.0), "the left side touches no vertex");
            check(vs.iter().any(|p| q(p.y) == lo.1), "the lower side touches no vertex");
            check(vs.iter().any(|p| q(p.x) == hi.0), "the right side touches no vertex");
            check(vs.iter().any(|p| q(p.y) == hi.1), "the upper side touches no vertex");
        }),
    );
    v.push(
        scn("P06", "contains", "a box of 2 vertices and a query vertex, coordinates any value of [-1e6,1e6]", || {
            let (a, c, p) = (fv("a"), fv("c"), fv("p"));
            let b = BoundingBox::from_vertices(vec![a.clone(), c.clone()]).unwrap();
            let want = within(q(a.x), q(c.x), q(p.x)) && within(q(a.y), q(c.y), q(p.y));
            check(b.contains(&p) == want, "box membership is wrong");
        }),
    );
    v.push(
        scn("P06", "intersection", "two boxes and a query vertex, coordinates any value of [-1e6,1e6]", || {
            let bx = |n: &str| {
                let (a, c) = (fv(&format!("{}1", n)), fv(&format!("{}2", n)));
                assume(a.x <= c.x && a.y <= c.y);
                BoundingBox::from_vertices(vec![a, c]).unwrap()
            };
            let (a, b, p) = (bx("a"), bx("b"), fv("p"));
            let both = a.contains(&p) && b.contains(&p);
            match BoundingBox::intersection(&a, &b) {
                Some(i) => {
                    reach("some");
                    check(i.contains(&p) == both, "the intersection of two boxes is not their common points");
                    check(i.origin.x <= i.destin.x && i.origin.y <= i.destin.y, "the intersection box is inverted");
                }
                None => {
                    reach("none");
                    check(!both, "two boxes that share a point have no intersection")
                }
            }
        })
        .reach(&["some", "none"]),
    );
    v.push(
        scn("P06", "union", "two boxes and a query vertex, coordinates any value of [-1e6,1e6]", || {
            let bx = |n: &str| {
                let (a, c) = (fv(&format!("{}1", n)), fv(&format!("{}2", n)));
                assume(a.x <= c.x && a.y <= c.y);
                BoundingBox::from_vertices(vec![a, c]).unwrap()
            };
            let cp = |b: &BoundingBox| BoundingBox::from_vertices(vec![b.origin.clone(), b.destin.clone()]).unwrap();
            let (a, b) = (bx("a"), bx("b"));
            let u = match pick("how", 2) {
                0 => BoundingBox::union(&a, cp(&b)),
                _ => BoundingBox::union_list(vec![cp(&a), cp(&b)]).unwrap(),
            };
            for c in [&a, &b].iter() {
                check(u.contains(&c.origin) && u.contains(&c.destin), "the union of two boxes does not contain them");
            }
            check(q(u.origin.x) == q(a.origin.x) || q(u.origin.x) == q(b.origin.x), "the union of two boxes is not tight");
            check(q(u.origin.y) == q(a.origin.y) || q(u.origin.y) == q(b.origin.y), "the union of two boxes is not tight");
            check(q(u.destin.x) == q(a.destin.x) || q(u.destin.x) == q(b.destin.x), "the union of two boxes is not tight");
            check(q(u.destin.y) == q(a.destin.y) || q(u.destin.y) == q(b.destin.y), "the union of two boxes is not tight");
            check(BoundingBox::union_list(vec![]).is_none(), "the union of no boxes is a box");
        }),
    );
    // ------------------------------------------------------------------ P07
    v.push(
        scn("P07", "vertex", "3 vertices, each the ghost, a signed zero or any integer point of [-3,3]^2", || {
            let (a, b, c) = (kv("a"), kv("b"), kv("c"));
            let eq = same_v(&a, &b);
            reach(if eq { "equal" } else { "different" });
            check((a == b) == eq && (b == a) == eq, "vertex equality is not equality of coordinates and kind");
            if eq {
                check(same_hash(&a, &b), "equal vertices hash differently");
            }
            let o = a.cmp(&b);
            check((o == Ordering::Equal) == eq, "vertex order disagrees with equality");
            check(b.cmp(&a) == o.reverse(), "vertex order is not antisymmetric");
            check(a.partial_cmp(&b) == Some(o), "partial order disagrees with the total order");
            if o != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
                check(a.cmp(&c) != Ordering::Greater, "vertex order is not transitive");
            }
        })
        .reach(&["equal", "different"]),
    );
    v.push(
        scn("P07", "vertex-fine", "2 vertices, coordinates any multiple of 2^-44 in [-1,1]", || {
            let (a, b) = (svg("a", -1, 1, 44), svg("b", -1, 1, 44));
            let eq = same_v(&a, &b);
            reach(if eq { "equal" } else { "different" });
            check((a == b) == eq && (b == a) == eq, "vertex equality is not equality of coordinates");
            check((a.cmp(&b) == Ordering::Equal) == eq, "vertex order disagrees with equality");
            check(Edge::new(&a, &b) == Edge::new(&a, &b) && (Edge::new(&a, &b) == Edge::new(&b, &a)) == eq, "edge equality is not equality of both ends in order");
        })
        .reach(&["equal", "different"]),
    );
    v.push(
        scn("P07", "edge-triangle", "two triangles (or two edges) over vertices, each the ghost, a signed zero or any integer point of [-3,3]^2; the second any rotation of the first or independent", || {
            let (a, b, c) = (kv("a"), kv("b"), kv("c"));
            let t = Triangle::new(&a, &b, &c);
            let z = |x: &V| if x.is_ghost { x.clone() } else { vx(x.x, x.y) };
            let (d, e, g) = match pick("other", 5) {
                0 => (z(&a), z(&b), z(&c)),
                1 => (z(&b), z(&c), z(&a)),
                2 => (z(&c), z(&a), z(&b)),
                3 => (z(&a), z(&c), z(&b)),
                _ => (z(&a), kv("e"), z(&c)),
            };
            let u = Triangle::new(&d, &e, &g);
            let eq3 = |x: &V, y: &V, w: &V| same_v(&a, x) && same_v(&b, y) && same_v(&c, w);
            let eq = eq3(&d, &e, &g) || eq3(&e, &g, &d) || eq3(&g, &d, &e);
            reach(if eq { "equal" } else { "different" });
            check((t == u) == eq && (u == t) == eq, "triangle equality is not equality up to rotation");
            if eq {
                check(same_hash(&t, &u), "equal triangles hash differently");
            }
            let (k, l) = (Edge::new(&a, &b), Edge::new(&d, &e));
            let eq = same_v(&a, &d) && same_v(&b, &e);
            check((k == l) == eq, "edge equality is not equality of both ends in order");
            if eq {
                check(same_hash(&k, &l), "equal edges hash differently");
            }
            let (r, s) = (
                Polyline::new_closed(vec![a.clone(), b.clone(), c.clone()]).unwrap(),
                Polyline::new_closed(vec![d.clone(), e.clone(), g.clone()]).unwrap(),
            );
            check((r == s) == eq3(&d, &e, &g), "polyline equality is not equality of the vertex sequences");
            if r == s {
                check(same_hash(&r, &s), "equal polylines hash differently");
            }
            check(r != Polyline::new_opened(vec![a.clone(), b.clone(), c.clone()]).unwrap(), "an opened polyline equals a closed one");
        })
        .reach(&["equal", "different"]),
    );
    v.push(
        scn("P07", "sort", "up to 4 vertices, coordinates any value of [-1e6,1e6]", || {
            let n = pick("n", 5) as usize;
            let vs: Vec<V> = ["a", "b", "c", "d"].iter().take(n).map(|s| fv(s)).collect();
            let mut w = vs.clone();
            Vertex::sort(&mut w);
            check(w.len() == n, "sorting changes the number of vertices");
            for p in vs.iter() {
                check(w.iter().filter(|x| Rc::ptr_eq(x, p)).count() == 1, "sorting loses a vertex");
            }
            for k in 1..n {
                let (a, b) = (pt(&w[k - 1]), pt(&w[k]));
                check(a.0 < b.0 || a.0 == b.0 && a.1 <= b.1, "sorted vertices are not in lexicographic order");
            }
        }),
    );
    // ------------------------------------------------------------------ P08
    for (id, text, r, g) in [
        ("contains", "an edge and a vertex, coordinates any multiple of 1/4 in [-256,256]", 256, 2),
        ("contains-fine", "an edge and a vertex, coordinates any multiple of 2^-20 in [-1,1]", 1, 20),
    ] {
    v.push(
        scn("P08", id, text, move || {
            let (a, b, p) = (svg("a", -r, r, g), svg("b", -r, r, g), svg("p", -r, r, g));
            let e = Edge::new(&a, &b);
            let want = on_seg(pt(&a), pt(&b), pt(&p));
            reach(if want { "on" } else { "off" });
            check(e.contains(&p) == want, "edge membership is not being on the closed segment");
            check(e.opposite().contains(&p) == want, "edge membership depends on the direction");
            let m = e.midpoint();
            check(q(m.x) * qi(2) == q(a.x) + q(b.x) && q(m.y) * qi(2) == q(a.y) + q(b.y), "the midpoint of an edge is wrong");
            check(e.contains(&m), "an edge does not contain its midpoint");
            let l = q(e.length());
            check(l >= zero() && near(l * l, dist2(pt(&a), pt(&b))), "the length of an edge is wrong");
            let o = e.opposite();
            check(Rc::ptr_eq(&o.v1, &b) && Rc::ptr_eq(&o.v2, &a), "the opposite edge is not the reverse");
            check(csign(e.encroach(&p)) == -sgn(dotq(pt(&p), pt(&a), pt(&p), pt(&b))), "edge encroachment is wrong");
        })
        .reach(&["on", "off"]),
    );
    }
    v.push(
        scn("P08", "decompose", "a segment cut at up to 2 points into edges, plus one unrelated edge; direction and cut positions symbolic, integers in [-8,8] or such of 64ths", || {
            // points a + k*d, k = 0 < k1 < k2 < 4, d any non-zero integer vector of [-8,8]^2
            let scale = f([1.0, 1.0 / 64.0][pick("scale", 2) as usize]);
            let (ax, ay) = (var("ax", -8, 8) * scale, var("ay", -8, 8) * scale);
            let (dx, dy) = (var("dx", -8, 8) * scale, var("dy", -8, 8) * scale);
            assume_distinct((dx, dy), (f(0.0), f(0.0)));
            let at = |k: f64| vx(ax + f(k) * dx, ay + f(k) * dy);
            let n = pick("pieces", 3) as usize + 1;
            let ks: Vec<f64> = vec![0.0, 1.0, 2.0, 3.0];
            let ps: Vec<V> = ks[..=n].iter().map(|k| at(*k)).collect();
            let mut base: HashSet<Rc<Edge>> = HashSet::new();
            let missing = pick("missing", 4) as usize;
            for k in 0..n {
                if k + 1 != missing {
                    base.insert(Rc::new(Edge::new(&ps[k], &ps[k + 1])));
                }
            }
            match pick("extra", 6) {
                0 => {}
                // in line with the segment, beyond its ends
                3 => drop(base.insert(Rc::new(Edge::new(&ps[0], &at(-1.0))))),
                4 => drop(base.insert(Rc::new(Edge::new(&ps[n], &at(n as f64 + 1.0))))),
                5 => drop(base.insert(Rc::new(Edge::new(&at(-1.0), &ps[0])))),
                1 => {
                    // the same pieces backwards
                    for k in 0..n {
                        base.insert(Rc::new(Edge::new(&ps[k + 1], &ps[k])));
                    }
                }
                _ => {
                    let w = sv("w", -8, 8);
                    let w = vx(w.x * scale, w.y * scale);
                    assume_nonzero(orient(pt(&ps[0]), pt(&ps[n]), pt(&w)));
                    base.insert(Rc::new(Edge::new(&ps[pick("from", 2) as usize], &w)));
                }
            }
            let whole = Rc::new(Edge::new(&ps[0], &ps[n]));
            match Edge::decompose(&base, &whole) {
                Some(es) => {
                    check(missing == 0 || missing > n, "a segment with a gap is decomposed");
                    check(es.len() == n, "a decomposition has the wrong number of edges");
                    for k in 0..n {
                        check(*es[k].v1 == *ps[k] && *es[k].v2 == *ps[k + 1], "a decomposition is not the chain of the pieces in order");
                    }
                    reach("some");
                }
                None => {
                    check(missing != 0 && missing <= n, "a complete chain is not found");
                    reach("none");
                }
            }
        })
        .orders(1)
        .reach(&["some", "none"]),
    );
    v.push(
        scn("P08", "arrange", "up to 3 consecutive colinear edges plus one edge in another direction; direction symbolic in [-8,8]^2, integers or 64ths", || {
            let scale = f([1.0, 1.0 / 64.0][pick("scale", 2) as usize]);
            let (ax, ay) = (var("ax", -8, 8) * scale, var("ay", -8, 8) * scale);
            let (dx, dy) = (var("dx", -8, 8) * scale, var("dy", -8, 8) * scale);
            assume_distinct((dx, dy), (f(0.0), f(0.0)));
            let at = |k: f64| vx(ax + f(k) * dx, ay + f(k) * dy);
            let n = pick("pieces", 3) as usize + 1;
            let ps: Vec<V> = (0..=n).map(|k| at(k as f64)).collect();
            let mut base: HashSet<Rc<Edge>> = HashSet::new();
            for k in 0..n {
                base.insert(Rc::new(Edge::new(&ps[k], &ps[k + 1])));
            }
            let side = pick("side", 6);
            let w = sv("w", -8, 8);
            let w = vx(w.x * scale, w.y * scale);
            assume_nonzero(orient(pt(&ps[0]), pt(&ps[n]), pt(&w)));
            match side {
                0 => {}
                1 => drop(base.insert(Rc::new(Edge::new(&ps[n], &w)))),
                2 => drop(base.insert(Rc::new(Edge::new(&w, &ps[0])))),
                // folded back over the others
                4 => drop(base.insert(Rc::new(Edge::new(&ps[n], &at(n as f64 - 0.5))))),
                5 => drop(base.insert(Rc::new(Edge::new(&at(0.5), &ps[0])))),
                _ => drop(base.insert(Rc::new(Edge::new(&ps[n / 2], &w)))),
            }
            let out = Edge::arrange(&base);
            check(out.len() == if side == 0 { 1 } else { 2 }, "colinear consecutive edges are not joined into one");
            check(out.contains(&Rc::new(Edge::new(&ps[0], &ps[n]))), "the joined edge does not go from the first to the last vertex");
            match side {
                0 => {}
                1 => check(out.contains(&Rc::new(Edge::new(&ps[n], &w))), "an unrelated edge is lost"),
                2 => check(out.contains(&Rc::new(Edge::new(&w, &ps[0]))), "an unrelated edge is lost"),
                4 => check(out.contains(&Rc::new(Edge::new(&ps[n], &at(n as f64 - 0.5)))), "an edge that folds back is joined or lost"),
                5 => check(out.contains(&Rc::new(Edge::new(&at(0.5), &ps[0]))), "an edge that folds back is joined or lost"),
                _ => check(out.contains(&Rc::new(Edge::new(&ps[n / 2], &w))), "an unrelated edge is lost"),
            }
        })
        .orders(1),
    );
    v.push(scn("P08", "chains", "up to 4 vertices, coordinates any value of [-1e6,1e6]", || {
        let n = pick("n", 4) as usize + 1;
        let vs: Vec<V> = ["a", "b", "c", "d"].iter().take(n).map(|s| fv(s)).collect();
        let chain = |es: Vec<Rc<Edge>>, what: &str| {
            check(es.len() == n, what);
            for k in 0..n {
                check(same_v(&es[k].v1, &vs[k]) && same_v(&es[k].v2, &vs[(k + 1) % n]), what);
            }
        };
        chain(Edge::from_vertices(&vs), "edges of a vertex list are not the closed chain");
        let mut cs = vec![];
        for p in vs.iter() {
            cs.push(p.x);
            cs.push(p.y);
        }
        chain(Edge::from_coordinates(&cs), "edges of a coordinate list are not the closed chain");
        let es = Edge::from_vertices(&vs);
        chain(Edge::from_vertex_pairs(Edge::into_vertex_pairs(es)), "vertex pairs do not give back their edges");
        let w = Vertex::from_coordinates(&cs);
        check(w.len() == n && (0..n).all(|k| same_v(&w[k], &vs[k])), "vertices of a coordinate list are wrong");
        if n >= 3 {
            chain(Polyline::new_closed(vs.clone()).unwrap().into_edges(), "edges of a closed polyline are wrong");
        } else {
            check(Polyline::new_closed(vs.clone()).is_none(), "a closed polyline of fewer than 3 vertices");
        }
        if n >= 2 {
            let p = Polyline::new_opened(vs.clone()).unwrap();
            let es = p.into_edges();
            check(es.len() == n - 1, "edges of an opened polyline are wrong");
            for k in 0..n - 1 {
                check(Rc::ptr_eq(&es[k].v1, &vs[k]) && Rc::ptr_eq(&es[k].v2, &vs[k + 1]), "edges of an opened polyline are wrong");
            }
            check(Rc::ptr_eq(&p.head().unwrap(), &vs[0]) && Rc::ptr_eq(&p.tail().unwrap(), &vs[n - 1]), "head or tail of an opened polyline is wrong");
        } else {
            check(Polyline::new_opened(vs.clone()).is_none(), "an opened polyline of fewer than 2 vertices");
        }
    }));
    // ------------------------------------------------------------------ P09
    v.push(
        scn("P09", "measures", "a counterclockwise triangle, coordinates any multiple of 1/2 in [-64,64]", || {
            let (a, b, c) = (svg("a", -64, 64, 1), svg("b", -64, 64, 1), svg("c", -64, 64, 1));
            let (pa, pb, pc) = (pt(&a), pt(&b), pt(&c));
            let o = orient(pa, pb, pc);
            assume_pos(o);
            let t = Triangle::new(&a, &b, &c);
            check(!t.is_ghost(), "a triangle of real vertices is a ghost");
            check(q(t.area().unwrap()) * qi(2) == o, "the area of a triangle is wrong");
            let m = t.center();
            check(near(q(m.x) * qi(3), pa.0 + pb.0 + pc.0) && near(q(m.y) * qi(3), pa.1 + pb.1 + pc.1), "the center is not the barycenter");
            // circumradius over shortest side, squared: (product of the two longer sides)^2 / (4 area)^2
            let (x, y, z) = (dist2(pa, pb), dist2(pb, pc), dist2(pc, pa));
            let k = q(t.quality().unwrap());
            check(k > zero(), "the quality is not positive");
            let prod = if x <= y && x <= z {
                y * z
            } else if y <= z {
                x * z
            } else {
                x * y
            };
            check(near(k * k * qi(4) * o * o, prod), "the quality is not the ratio of circumradius and shortest side");
            let z = pt(&t.circumcenter().unwrap());
            check(near(dist2(z, pa), dist2(z, pb)) && near(dist2(z, pa), dist2(z, pc)), "the circumcenter is not equidistant");
        }),
    );
    v.push(
        scn("P09", "encircles", "a counterclockwise (or ghost) triangle and a vertex, coordinates any multiple of 1/4 in [-256,256]", || {
            let (a, b, c, d) = (svg("a", -256, 256, 2), svg("b", -256, 256, 2), svg("c", -256, 256, 2), svg("d", -256, 256, 2));
            let (pa, pb, pc, pd) = (pt(&a), pt(&b), pt(&c), pt(&d));
            if pick("ghost", 2) == 0 {
                assume_pos(orient(pa, pb, pc));
                let t = Triangle::new(&a, &b, &c);
                check(csign(t.encircles(&d)) == sgn(incircle(pa, pb, pc, pd)), "encircles is not the in-circle test");
            } else {
                let t = Triangle::new(&a, &b, &Rc::new(Vertex::new_ghost()));
                check(t.is_ghost(), "a triangle with a ghost vertex is no ghost");
                check(csign(t.encircles(&d)) == sgn(orient(pa, pb, pd)), "a ghost triangle does not encircle the half plane left of its edge");
                check(t.area().is_none() && t.quality().is_none() && t.circumcenter().is_none() && t.as_polyline().is_none(), "a ghost triangle has a measure");
                let m = t.center();
                check(q(m.x) * qi(2) == pa.0 + pb.0 && q(m.y) * qi(2) == pa.1 + pb.1, "the center of a ghost triangle is not the middle of its edge");
            }
        }),
    );
    v.push(scn("P09", "incidence", "a triangle of 3 distinct vertices and any vertex, coordinates any integer in [-64,64]; possibly with the ghost", || {
        let (a, b) = (sv("a", -64, 64), sv("b", -64, 64));
        let c = if pick("ghost", 2) == 0 { sv("c", -64, 64) } else { Rc::new(Vertex::new_ghost()) };
        assume_distinct((a.x, a.y), (b.x, b.y));
        if !c.is_ghost {
            assume_distinct((a.x, a.y), (c.x, c.y));
            assume_distinct((b.x, b.y), (c.x, c.y));
        }
        let t = Triangle::new(&a, &b, &c);
        let (i1, i2, i3) = t.inner_edges();
        let (o1, o2, o3) = t.outer_edges();
        let vs = [&a, &b, &c];
        let ins = [i1, i2, i3];
        let outs = [o1, o2, o3];
        for k in 0..3 {
            let (p, r, w) = (vs[k], vs[(k + 1) % 3], vs[(k + 2) % 3]);
            check(Rc::ptr_eq(&ins[k].v1, p) && Rc::ptr_eq(&ins[k].v2, r), "the inner edges do not go around the triangle");
            check(Rc::ptr_eq(&outs[k].v1, r) && Rc::ptr_eq(&outs[k].v2, p), "the outer edges are not the inner ones reversed");
            let e = Rc::new(Edge::new(p, r));
            check(t.opposite_vertex(&e).map_or(false, |x| same_v(&x, w)), "the vertex opposite of an edge is wrong");
            check(t.opposite_vertex(&Rc::new(Edge::new(r, p))).is_none(), "an outer edge has an opposite vertex");
            check(t.opposite_edge(w).map_or(false, |x| same_v(&x.v1, p) && same_v(&x.v2, r)), "the edge opposite of a vertex is wrong");
        }
        let d = sv("d", -64, 64);
        let member = vs.iter().any(|x| same_v(x, &d));
        check(t.opposite_edge(&d).is_some() == member, "a foreign vertex has an opposite edge");
    }));
}
