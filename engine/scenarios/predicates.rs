//! P01..P05: the geometric predicates against exact polynomial oracles
use super::geom::*;
use super::*;
use nlsn_delaunay::properties::{
    angle::angle, area::*, circumcenter::circumcenter, continence::*, distance::distance, dot::dot, encroachment::encroach,
    intersection::intersection, midpoint::midpoint, orientation::*, parallel::parallel,
};

fn osign(o: Orientation) -> i32 {
    match o {
        Orientation::Counterclockwise => 1,
        Orientation::Colinear => 0,
        Orientation::Clockwise => -1,
    }
}
pub fn csign(o: Continence) -> i32 {
    match o {
        Continence::Inside => 1,
        Continence::Boundary => 0,
        Continence::Outside => -1,
    }
}

pub fn register(v: &mut Vec<Scn>) {
    for (id, text, r, g) in [
        ("sign", "3 vertices, coordinates any multiple of 1/16 in [-65536,65536]", 65536, 4),
        ("sign-fine", "3 vertices, coordinates any multiple of 2^-20 in [-1,1]", 1, 20),
    ] {
    v.push(
        scn("P01", id, text, move || {
            let (a, b, c) = (svg("a", -r, r, g), svg("b", -r, r, g), svg("c", -r, r, g));
            let got = osign(orientation(&a, &b, &c));
            let want = sgn(orient(pt(&a), pt(&b), pt(&c)));
            reach(match want {
                1 => "ccw",
                0 => "colinear",
                _ => "cw",
            });
            check(got == want, "orientation is not the sign of the signed area");
            check(osign(orientation(&b, &c, &a)) == want, "orientation changes when the vertices are rotated");
            check(osign(orientation(&c, &a, &b)) == want, "orientation changes when the vertices are rotated");
            check(osign(orientation(&b, &a, &c)) == -want, "orientation does not flip when two vertices are swapped");
            check(osign(orientation(&a, &c, &b)) == -want, "orientation does not flip when two vertices are swapped");
            check(osign(orientation(&a, &a, &b)) == 0, "a repeated vertex is not colinear");
        })
        .reach(&["ccw", "colinear", "cw"]),
    );
    }
    v.push(
        scn("P01", "translate", "3 vertices and an offset, coordinates any integer in [-1024,1024]", || {
            let (a, b, c) = (sv("a", -1024, 1024), sv("b", -1024, 1024), sv("c", -1024, 1024));
            let (dx, dy) = (var("dx", -1024, 1024), var("dy", -1024, 1024));
            let m = |p: &V| vx(p.x + dx, p.y + dy);
            check(
                osign(orientation(&a, &b, &c)) == osign(orientation(&m(&a), &m(&b), &m(&c))),
                "orientation changes under translation",
            );
        }),
    );
    for (id, text, r, g) in [
        ("sign", "ccw triangle and a vertex, coordinates any multiple of 1/4 in [-256,256]", 256, 2),
        ("sign-fine", "ccw triangle and a vertex, coordinates any multiple of 2^-11 in [-1,1]", 1, 11),
    ] {
    v.push(
        scn("P02", id, text, move || {
            let (a, b, c, d) = (svg("a", -r, r, g), svg("b", -r, r, g), svg("c", -r, r, g), svg("d", -r, r, g));
            assume_pos(orient(pt(&a), pt(&b), pt(&c)));
            let want = sgn(incircle(pt(&a), pt(&b), pt(&c), pt(&d)));
            reach(match want {
                1 => "inside",
                0 => "boundary",
                _ => "outside",
            });
            check(csign(continence(&a, &b, &c, &d)) == want, "in-circle test is not the sign of the exact determinant");
            check(csign(continence(&b, &c, &a, &d)) == want, "in-circle test changes when the triangle is rotated");
            check(csign(continence(&c, &a, &b, &d)) == want, "in-circle test changes when the triangle is rotated");
        })
        .reach(&["inside", "boundary", "outside"]),
    );
    }
    v.push(
        scn("P02", "corner", "ccw triangle with coordinates any multiple of 1/4 in [-256,256], queried at its own corners and centre", || {
            let (a, b, c) = (svg("a", -256, 256, 2), svg("b", -256, 256, 2), svg("c", -256, 256, 2));
            assume_pos(orient(pt(&a), pt(&b), pt(&c)));
            for v in [&a, &b, &c].iter() {
                check(csign(continence(&a, &b, &c, v)) == 0, "a corner is not on its circumcircle");
            }
            let m = midpoint(&a, &b);
            check(csign(continence(&a, &b, &c, &m)) == 1, "the middle of a side is not inside the circumcircle");
        }),
    );
    v.push(
        scn("P02", "cocircular", "4 corners of any axis-parallel or 3-4-5 rotated rectangle, offset and size any integer in [-64,64]", || {
            let (x, y) = (var("x", -64, 64), var("y", -64, 64));
            let (w, h) = (var("w", 1, 64), var("h", 1, 64));
            let k = pick("rotated", 2);
            let at = |i: F, j: F| {
                if k == 0 {
                    vx(x + i, y + j)
                } else {
                    vx(x + f(4.0) * i - f(3.0) * j, y + f(3.0) * i + f(4.0) * j)
                }
            };
            let z = f(0.0);
            let (a, b, c, d) = (at(z, z), at(w, z), at(w, h), at(z, h));
            check(csign(continence(&a, &b, &c, &d)) == 0, "the fourth corner of a rectangle is not on the circumcircle of the others");
            check(csign(continence(&b, &c, &d, &a)) == 0, "the fourth corner of a rectangle is not on the circumcircle of the others");
            check(csign(continence(&c, &d, &a, &b)) == 0, "the fourth corner of a rectangle is not on the circumcircle of the others");
            check(csign(continence(&d, &a, &b, &c)) == 0, "the fourth corner of a rectangle is not on the circumcircle of the others");
        }),
    );
    for (id, text, k) in [
        ("iff", "two segments of positive length, coordinates any integer in [-16,16]", 1.0),
        ("iff-fine", "two segments of positive length, one from the origin, coordinates any integer in [-16,16] divided by 1024", 1.0 / 1024.0),
    ] {
    v.push(
        scn("P03", id, text, move || {
            let m = |n: &str| {
                let v = sv(n, -16, 16);
                if k == 1.0 { v } else { vx(v.x * f(k), v.y * f(k)) }
            };
            let a = if k == 1.0 { m("a") } else { vi(0, 0) };
            let (b, c, d) = (m("b"), m("c"), m("d"));
            assume_distinct((a.x, a.y), (b.x, b.y));
            assume_distinct((c.x, c.y), (d.x, d.y));
            let (pa, pb, pc, pd) = (pt(&a), pt(&b), pt(&c), pt(&d));
            let got = intersection(&a, &b, &c, &d);
            let want = segs_meet(pa, pb, pc, pd);
            reach(if want { "meet" } else { "apart" });
            match got {
                None => check(!want, "two segments that share a point have no intersection"),
                Some(p) => {
                    check(want, "two segments without a common point have an intersection");
                    check(!p.is_ghost, "the intersection is a ghost");
                    let p = pt(&p);
                    check(near(orient(pa, pb, p), zero()), "the intersection is not on the first segment's line");
                    check(near(orient(pc, pd, p), zero()), "the intersection is not on the second segment's line");
                    check(near_within(pa.0, pb.0, p.0) && near_within(pa.1, pb.1, p.1), "the intersection is not on the first segment");
                    check(near_within(pc.0, pd.0, p.0) && near_within(pc.1, pd.1, p.1), "the intersection is not on the second segment");
                }
            }
        })
        .reach(&["meet", "apart"]),
    );
    }
    v.push(
        scn("P03", "symmetric", "two segments of positive length, coordinates any integer in [-16,16]; either reversed, or swapped", || {
            let (a, b, c, d) = (sv("a", -16, 16), sv("b", -16, 16), sv("c", -16, 16), sv("d", -16, 16));
            assume_distinct((a.x, a.y), (b.x, b.y));
            assume_distinct((c.x, c.y), (d.x, d.y));
            let p = intersection(&a, &b, &c, &d);
            let r = match pick("how", 3) {
                0 => intersection(&c, &d, &a, &b),
                1 => intersection(&b, &a, &c, &d),
                _ => intersection(&a, &b, &d, &c),
            };
            match (p, r) {
                (None, None) => {}
                (Some(p), Some(r)) => {
                    let (p, r) = (pt(&p), pt(&r));
                    check(near(p.0, r.0) && near(p.1, r.1), "the intersection depends on the order of its arguments");
                }
                _ => fail("whether two segments meet depends on the order of the arguments".into()),
            }
        })
        .thorough(),
    );
    for (id, text, r, g) in [
        ("equidistant", "3 vertices, coordinates any multiple of 1/2 in [-64,64]", 64, 1),
        ("equidistant-fine", "3 vertices, coordinates any multiple of 2^-12 in [-1,1]", 1, 12),
    ] {
    v.push(
        scn("P04", id, text, move || {
            let (a, b, c) = (svg("a", -r, r, g), svg("b", -r, r, g), svg("c", -r, r, g));
            let (pa, pb, pc) = (pt(&a), pt(&b), pt(&c));
            let o = sgn(orient(pa, pb, pc));
            match circumcenter(&a, &b, &c) {
                None => {
                    reach("none");
                    check(o == 0, "a triangle of non-zero area has no circumcenter")
                }
                Some(z) => {
                    reach("some");
                    check(o != 0, "colinear vertices have a circumcenter");
                    check(!z.is_ghost, "the circumcenter is a ghost");
                    let z = pt(&z);
                    let r = dist2(z, pa);
                    check(near(r, dist2(z, pb)), "the circumcenter is not equidistant from the first and second vertex");
                    check(near(r, dist2(z, pc)), "the circumcenter is not equidistant from the first and third vertex");
                }
            }
        })
        .reach(&["none", "some"]),
    );
    }
    for (id, text, r, g) in [
        ("encroach", "a segment and a vertex, coordinates any multiple of 1/16 in [-4096,4096]", 4096, 4),
        ("encroach-fine", "a segment and a vertex, coordinates any multiple of 2^-21 in [-1,1]", 1, 21),
    ] {
    v.push(
        scn("P05", id, text, move || {
            let (a, b, c) = (svg("a", -r, r, g), svg("b", -r, r, g), svg("c", -r, r, g));
            let (pa, pb, pc) = (pt(&a), pt(&b), pt(&c));
            // inside the circle whose diameter is ab: closer to its centre than half its length
            let m = ((pa.0 + pb.0) / qi(2), (pa.1 + pb.1) / qi(2));
            let want = sgn(dist2(pa, pb) - qi(4) * dist2(m, pc));
            reach(match want {
                1 => "inside",
                0 => "boundary",
                _ => "outside",
            });
            check(csign(encroach(&a, &b, &c)) == want, "encroachment is not position relative to the diametral circle");
            check(csign(encroach(&b, &a, &c)) == want, "encroachment depends on the direction of the segment");
        })
        .reach(&["inside", "boundary", "outside"]),
    );
    }
    v.push(scn("P05", "area", "4 vertices, coordinates any multiple of 1/16 in [-4096,4096]", || {
        let (a, b, c, d) = (svg("a", -4096, 4096, 4), svg("b", -4096, 4096, 4), svg("c", -4096, 4096, 4), svg("d", -4096, 4096, 4));
        let (pa, pb, pc, pd) = (pt(&a), pt(&b), pt(&c), pt(&d));
        check(q(area_triangle(&a, &b, &c)) * qi(2) == orient(pa, pb, pc), "the triangle area is not half the cross product");
        let seg = |p: &V, r: &V| (p.clone(), r.clone());
        let s = area_segments(&vec![seg(&a, &b), seg(&b, &c), seg(&c, &d), seg(&d, &a)]);
        check(q(s) * qi(-2) == area2(&[pa, pb, pc, pd]), "the area of a closed chain is not the shoelace sum");
        check(q(area_segments(&vec![])) == zero(), "no segments have an area");
    }));
    v.push(
        scn("P05", "vectors", "4 vertices, coordinates any multiple of 1/16 in [-4096,4096]", || {
            let (a, b, c, d) = (svg("a", -4096, 4096, 4), svg("b", -4096, 4096, 4), svg("c", -4096, 4096, 4), svg("d", -4096, 4096, 4));
            let (pa, pb, pc, pd) = (pt(&a), pt(&b), pt(&c), pt(&d));
            check(q(dot(&a, &b, &c, &d)) == dotq(pa, pb, pc, pd), "the dot product is wrong");
            let cross = (pb.0 - pa.0) * (pd.1 - pc.1) - (pb.1 - pa.1) * (pd.0 - pc.0);
            let par = parallel(&a, &b, &c, &d);
            reach(if par { "parallel" } else { "oblique" });
            check(par == (sgn(cross) == 0), "parallel is not a vanishing cross product");
            let m = midpoint(&a, &b);
            check(q(m.x) * qi(2) == pa.0 + pb.0 && q(m.y) * qi(2) == pa.1 + pb.1 && !m.is_ghost, "the midpoint is wrong");
        })
        .reach(&["parallel", "oblique"]),
    );
    v.push(scn("P05", "distance", "2 vertices, coordinates any multiple of 1/4 in [-256,256]", || {
        let (a, b) = (svg("a", -256, 256, 2), svg("b", -256, 256, 2));
        let s = q(distance(&a, &b));
        check(s >= zero(), "a distance is negative");
        check(near(s * s, dist2(pt(&a), pt(&b))), "the distance is not the Euclidean distance");
        check(near(s, q(distance(&b, &a))), "the distance is not symmetric");
    }));
    v.push(
        scn("P05", "angle", "3 vertices, the second different from the others, coordinates any integer in [-64,64]", || {
            let (a, b, c) = (sv("a", -64, 64), sv("b", -64, 64), sv("c", -64, 64));
            assume_distinct((a.x, a.y), (b.x, b.y));
            assume_distinct((c.x, c.y), (b.x, b.y));
            let (pa, pb, pc) = (pt(&a), pt(&b), pt(&c));
            let g = match angle(&a, &b, &c) {
                Some(g) => g,
                None => return fail("no angle".into()),
            };
            let pi = std::f64::consts::PI;
            check(!g.is_nan(), "the angle is not a number");
            check(g >= f(0.0) && g <= f(6.2831853071795880), "the angle is not in [0, 2 pi]");
            let o = sgn(orient(pa, pb, pc));
            let d = sgn(dotq(pb, pa, pb, pc));
            let below = |x: f64| g < f(x);
            reach(match o {
                1 => "ccw",
                0 => "colinear",
                _ => "cw",
            });
            match (o, d) {
                (0, 1) => check(below(1e-6), "the angle of coincident directions is not zero"),
                (0, _) => check(below(pi + 1e-6) && !below(pi - 1e-6), "the angle of opposite directions is not pi"),
                (1, 1) => check(!below(1e-9) && below(pi / 2.0), "an acute counterclockwise angle is not in (0, pi/2)"),
                (1, -1) => check(!below(pi / 2.0) && below(pi), "an obtuse counterclockwise angle is not in (pi/2, pi)"),
                (1, _) => check(below(pi / 2.0 + 1e-9) && !below(pi / 2.0 - 1e-9), "a right angle is not pi/2"),
                (_, 1) => check(!below(1.5 * pi) && below(2.0 * pi), "a clockwise acute angle is not in (3pi/2, 2pi)"),
                (_, -1) => check(!below(pi) && below(1.5 * pi), "a clockwise obtuse angle is not in (pi, 3pi/2)"),
                (_, _) => check(below(1.5 * pi + 1e-9) && !below(1.5 * pi - 1e-9), "a clockwise right angle is not 3pi/2"),
            }
        })
        .reach(&["ccw", "cw", "colinear"]),
    );
}
