//! Inputs that once failed, in every order of the hash containers: the histories are symbolic, the coordinates are not.
//! known_findings.json refers to them as the records of the repairs.
use super::geom::*;
use super::polylines::*;
use super::triang::*;
use super::*;
use nlsn_delaunay::planar::triangulator::Triangulator;

type C = (i32, i32);
struct Case {
    b: &'static [C],
    holes: &'static [&'static [C]],
    segs: &'static [(C, C)],
    vs: &'static [C],
}
const fn case(b: &'static [C], holes: &'static [&'static [C]], segs: &'static [(C, C)], vs: &'static [C]) -> Case {
    Case { b, holes, segs, vs }
}
fn of(c: &Case) -> Dom {
    let mut d = dom(&vs(c.b));
    d.holes = c.holes.iter().map(|h| vs(h)).collect();
    // one vertex for one place
    let mut all: Vec<V> = d.boundary.iter().cloned().chain(d.holes.iter().flatten().cloned()).collect();
    let mut at = |p: &C| {
        let v = vi(p.0, p.1);
        match all.iter().find(|w| **w == v) {
            Some(w) => w.clone(),
            None => {
                all.push(v.clone());
                v
            }
        }
    };
    d.segments = c.segs.iter().map(|(a, b)| (at(a), at(b))).collect();
    d.vertices = c.vs.iter().map(|v| at(v)).collect();
    d
}

const VERTICES: &[Case] = &[
    case(&[(9, 4), (8, 7), (4, 7), (7, 1)], &[], &[], &[(7, 5), (7, 6), (8, 4)]),
    case(&[(4, 0), (1, 3), (0, 3), (1, -4)], &[], &[], &[]),
    case(&[(89, 79), (19, 77), (72, 73), (11, 13), (65, 22)], &[], &[], &[(56, 25), (27, 24)]),
];
const HOLES: &[Case] = &[
    case(&[(19, 12), (0, 11), (9, 2), (13, 0)], &[&[(9, 6), (6, 7), (13, 3)]], &[], &[]),
];
const SEGMENTS: &[Case] = &[
    case(&[(15, 3), (1, 13), (6, 3), (13, 2)], &[], &[((8, 5), (14, 3))], &[(12, 3), (10, 5)]),
];
const REFINED: &[(Case, f64)] = &[
    (case(&[(0, 0), (6, 0), (6, 20), (0, 20)], &[], &[], &[(5, 13)]), 1.5),
    (case(&[(0, 0), (14, 0), (14, 11), (0, 11)], &[], &[], &[(3, 1)]), 1.5),
    (case(&[(0, 0), (24, 0), (24, 16), (0, 16)], &[], &[((4, 3), (17, 2))], &[]), 1.5),
];

pub fn register(v: &mut Vec<Scn>) {
    for (prop, cases) in [("P16", VERTICES), ("P18", HOLES), ("P19", SEGMENTS)].iter() {
        let cases: &'static [Case] = cases;
        v.push(
            scn(prop, "cases", "inputs that failed before their repairs, coordinates fixed, any single deviation of hash order", move || {
                let k = pick("case", cases.len() as u32) as usize;
                triangulate_ok(&of(&cases[k]));
            })
            .orders(1),
        );
    }
    v.push(
        scn("P20", "cases", "inputs that failed before their repairs, coordinates fixed, ratio 1.5", move || {
            let (c, ratio) = &REFINED[pick("case", REFINED.len() as u32) as usize];
            refine_ok(&of(c), *ratio, None, false);
        })
        .runs(8),
    );
    v.push(scn("P12", "cases", "rectangles whose sides cross at vertices that are rounded, or that touch end to end; coordinates fixed", || {
        let (a, b): ([i32; 4], [i32; 4]) = [([42, 38, 58, 90], [69, 86, 98, 33]), ([2, 3, 2, 1], [4, 4, 4, 4])][pick("case", 2) as usize];
        let r = |v: [i32; 4]| poly(&[(v[0], v[1]), (v[0] + v[2], v[1]), (v[0] + v[2], v[1] + v[3]), (v[0], v[1] + v[3])]);
        let len = |i: usize| (a[i] + a[i + 2]).min(b[i] + b[i + 2]) - a[i].max(b[i]);
        let i2 = 2 * len(0).max(0) * len(1).max(0);
        for op in [1, 2, 4].iter() {
            boolean_ok(&r(a), &r(b), qi(i2 as i64), *op);
        }
    }));
    v.push(
        scn("P17", "cases", "a segment that touches a hole in a corner or along its side, rejected; coordinates fixed", || {
            let b = vs(&[(0, 0), (60, 0), (60, 60), (0, 60)]);
            let (h, s): (&[C], (C, C)) = [
                (&[(36, 29), (50, 47), (36, 39)] as &[C], ((23, 10), (36, 38))),
                (&[(6, 17), (5, 21), (5, 15)] as &[C], ((5, 27), (5, 18))),
            ][pick("case", 2) as usize];
            let mut t = Triangulator::new(&polyv(&b));
            check(t.insert_hole(&polyv(&vs(h))).is_ok(), "a hole inside the boundary is rejected");
            let mut l = HashSet::new();
            l.insert(std::rc::Rc::new(nlsn_delaunay::elements::edge::Edge::new(&vi((s.0).0, (s.0).1), &vi((s.1).0, (s.1).1))));
            check(t.insert_segments(&l).is_err(), "a segment that touches a hole is accepted");
            let _ = poly;
        })
        .orders(1),
    );
}
