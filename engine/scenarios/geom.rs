//! shared helpers and the exact oracles
use crate::h::*;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use std::rc::Rc;

pub type V = Rc<Vertex>;
/// exact coordinates
pub type P = (Q, Q);

pub fn vx(x: F, y: F) -> V {
    Rc::new(Vertex::new(x, y))
}
pub fn vi(x: i32, y: i32) -> V {
    vx(f(x as f64), f(y as f64))
}
/// a vertex with both coordinates any integer in [lo, hi]
pub fn sv(n: &str, lo: i32, hi: i32) -> V {
    let x = var(&format!("{}x", n), lo, hi);
    let y = var(&format!("{}y", n), lo, hi);
    vx(x, y)
}
/// a vertex with both coordinates any multiple of 2^-g in [lo, hi]
pub fn svg(n: &str, lo: i32, hi: i32, g: u32) -> V {
    let x = varg(&format!("{}x", n), lo as f64, hi as f64, g);
    let y = varg(&format!("{}y", n), lo as f64, hi as f64, g);
    vx(x, y)
}
pub fn pt(v: &Vertex) -> P {
    (q(v.x), q(v.y))
}
pub fn zero() -> Q {
    qi(0)
}
pub fn sgn(x: Q) -> i32 {
    let z = zero();
    if x > z {
        1
    } else if x == z {
        0
    } else {
        -1
    }
}
/// twice the signed area of abc
pub fn orient(a: P, b: P, c: P) -> Q {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn dist2(a: P, b: P) -> Q {
    (a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)
}
/// positive iff d is strictly inside the circle through the counterclockwise a, b, c
pub fn incircle(a: P, b: P, c: P, d: P) -> Q {
    let (ax, ay) = (a.0 - d.0, a.1 - d.1);
    let (bx, by) = (b.0 - d.0, b.1 - d.1);
    let (cx, cy) = (c.0 - d.0, c.1 - d.1);
    let (a2, b2, c2) = (ax * ax + ay * ay, bx * bx + by * by, cx * cx + cy * cy);
    ax * (by * c2 - b2 * cy) - ay * (bx * c2 - b2 * cx) + a2 * (bx * cy - by * cx)
}
pub fn dotq(a: P, b: P, c: P, d: P) -> Q {
    (b.0 - a.0) * (d.0 - c.0) + (b.1 - a.1) * (d.1 - c.1)
}
pub fn same_pt(a: P, b: P) -> bool {
    a.0 == b.0 && a.1 == b.1
}
/// is p on the closed segment ab?
pub fn on_seg(a: P, b: P, p: P) -> bool {
    sgn(orient(a, b, p)) == 0 && within(a.0, b.0, p.0) && within(a.1, b.1, p.1)
}
pub fn within(a: Q, b: Q, x: Q) -> bool {
    if a <= b {
        a <= x && x <= b
    } else {
        b <= x && x <= a
    }
}
/// twice the signed area of a closed chain, positive counterclockwise
pub fn area2(ps: &[P]) -> Q {
    let mut s = zero();
    for i in 0..ps.len() {
        let (a, b) = (ps[i], ps[(i + 1) % ps.len()]);
        s = s + a.0 * b.1 - a.1 * b.0;
    }
    s
}
/// do the closed segments ab and cd share a point?
pub fn segs_meet(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2) = (sgn(orient(a, b, c)), sgn(orient(a, b, d)));
    let (o3, o4) = (sgn(orient(c, d, a)), sgn(orient(c, d, b)));
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    o1 == 0 && on_seg(a, b, c) || o2 == 0 && on_seg(a, b, d) || o3 == 0 && on_seg(c, d, a) || o4 == 0 && on_seg(c, d, b)
}
pub fn show(p: P) -> String {
    format!("({:?},{:?})", p.0, p.1)
}
