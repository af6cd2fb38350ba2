//! Path exploration: thread-local arena of canonical expressions, decision oracle, solver pipe.
use crate::poly::*;
use num::bigint::BigInt;
use num::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ALL: u8 = 7;

pub type PolyId = u32;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RatExpr {
    pub num: PolyId,
    pub den: Vec<(PolyId, u8)>,
    pub exact: bool,
}

#[derive(Clone)]
pub enum Node {
    Rat(RatExpr),
    /// off + coef * acos(c)
    Ang { off: f64, coef: f64, c: u32 },
    /// a constant carried by its bits (used only for hash tokens)
    Bits(u64),
}

pub struct Var {
    pub name: String,
    pub lo: Option<Q>,
    pub hi: Option<Q>,
    /// value is a multiple of 2^-gran (input variables only); None: no grid assumption
    pub gran: Option<u32>,
    /// square root of this polynomial (auxiliary variables only)
    pub sqrt_of: Option<PolyId>,
}

#[derive(Default)]
pub struct Arena {
    pub vars: Vec<Var>,
    pub var_by_name: HashMap<String, usize>,
    pub sqrt_vars: Vec<usize>,
    pub sqrt_by_poly: HashMap<PolyId, usize>,
    pub polys: Vec<Rc<Poly>>,
    pub poly_ids: HashMap<Rc<Poly>, PolyId>,
    pub nodes: Vec<Node>,
    pub rat_ids: HashMap<RatExpr, u32>,
    pub ang_ids: HashMap<(u64, u64, u32), u32>,
    pub bits_ids: HashMap<u64, u32>,
    pub memo: HashMap<(u8, u32, u32), crate::S>,
    pub prim: HashMap<PolyId, (PolyId, bool)>,
    pub range: HashMap<PolyId, (Option<Q>, Option<Q>)>,
    pub smt: HashMap<PolyId, Rc<String>>,
    pub smt_int: HashMap<PolyId, Rc<String>>,
    pub int_atoms: HashMap<(PolyId, u8), Rc<String>>,
    pub nonneg: HashMap<PolyId, Vec<PolyId>>, // sum-of-squares polys and their components
    pub norm_memo: HashMap<PolyId, Norm>,
    pub quantum_memo: HashMap<PolyId, Option<Q>>,
    pub sq_memo: HashMap<PolyId, Option<PolyId>>,
}

/// sign(p) expressed through a grid-normalised atom
#[derive(Clone)]
pub enum Norm {
    Const(u8),
    /// sign(p) = sign(q) (or flipped)
    Same { q: PolyId, flip: bool },
    /// p is never zero on the grid; p>0 iff q >= 0 (or, with flip, p<0 iff q >= 0)
    Shift { q: PolyId, flip: bool },
    /// on the grid, sign(p) = sign(l), or sign(s) where l is zero
    Lex { l: PolyId, s: PolyId },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dec {
    Sign(u8),
    Implied(u8),
    Choice(u32),
}

/// pending paths: fewest deviations of iteration order first, in no particular order otherwise
#[derive(Default)]
pub struct Queue {
    b: Vec<Vec<Work>>,
    n: usize,
    rng: u64,
}

impl Queue {
    fn push(&mut self, level: usize, w: Work) {
        while self.b.len() <= level {
            self.b.push(vec![]);
        }
        self.b[level].push(w);
        self.n += 1;
    }
    fn pop(&mut self) -> Option<(usize, Work)> {
        let k = self.first()?;
        let v = &mut self.b[k];
        self.n -= 1;
        if v.len() > 50_000 {
            return v.pop().map(|w| (k, w));
        }
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let i = (self.rng >> 33) as usize % v.len();
        Some((k, v.swap_remove(i)))
    }
    /// the fewest deviations of a pending path
    fn first(&self) -> Option<usize> {
        self.b.iter().position(|v| !v.is_empty())
    }
    fn len(&self) -> usize {
        self.n
    }
    fn is_empty(&self) -> bool {
        self.n == 0
    }
}

#[derive(Clone)]
pub struct Work {
    pub prefix: Vec<Dec>,
    pub witness: Option<Vec<Q>>,
    /// a single input left: run it as it is, taking these choices
    pub conc: Option<(Arc<Vec<(String, f64)>>, Vec<u32>)>,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub msg: String,
    /// variable assignment (name, exact rational as string, nearest f64)
    pub model: Vec<(String, String, f64)>,
    pub on_grid: bool,
    pub choices: Vec<u32>,
    pub picks: Vec<(String, u32)>,
    pub has_model: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64,
    pub pruned: AtomicU64,
    pub pinned: AtomicU64,
    pub conc: AtomicU64,
    pub completed: AtomicU64,
    pub branches: AtomicU64,
    pub forks: AtomicU64,
    pub order_points: AtomicU64,
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub solver_ns: AtomicU64,
    pub cache_hits: AtomicU64,
    pub nogrid: AtomicU64,
    pub offgrid: AtomicU64,
    pub checks: AtomicU64,
    pub inexact_cmp: AtomicU64,
    pub unsupported: AtomicU64,
    pub truncated: AtomicU64,
    /// 1 + the fewest deviations of iteration order of a path not finished, 0 if all were
    pub cut: AtomicU64,
    pub max_pc: AtomicU64,
    pub max_steps: AtomicU64,
}

pub struct Config {
    pub order_budget: u32,
    pub order_reverse: bool,
    pub step_limit: u64,
    pub solver_timeout_ms: u64,
    pub max_findings: usize,
    pub deadline: Option<Instant>,
    pub threads: usize,
    pub max_paths: u64,
}

pub struct Shared {
    pub queue: Mutex<(Queue, usize)>, // (pending, active workers)
    pub cv: Condvar,
    pub stats: Stats,
    pub findings: Mutex<Vec<Finding>>,
    pub traces: Mutex<Vec<Trace>>,
    pub unsupported_msgs: Mutex<BTreeMap<String, u64>>,
    pub reach: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub cfg: Config,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub vals: Vec<(String, f64)>,
    pub choices: Vec<u32>,
    pub picks: Vec<(String, u32)>,
}

pub struct PathCtx {
    pub prefix: Vec<Dec>,
    pub pos: usize,
    pub facts: HashMap<PolyId, u8>,
    pub pc: Vec<(PolyId, u8)>,
    pub witness: Option<Vec<Q>>,
    pub need_witness: bool,
    pub base_len: usize,
    pub order_left: u32,
    pub steps: u64,
    pub checks: u64,
    pub choices: Vec<u32>,
    pub picks: Vec<(String, u32)>,
    pub reach: Vec<&'static str>,
    pub violation: Option<String>,
    /// the constraints admit one value of each of the first n variables only (the witness)
    pub pinned: usize,
    /// the single input left, when the path goes on concretely
    pub conc: Option<Vec<Vec<(String, f64)>>>,
    pub order_fork: bool,
    pub pin_tried: usize,
    pub pin_wait: u32,
    /// other models of the constraints
    pub alts: Vec<Vec<Q>>,
}

const INC_MS: u64 = 400;

pub struct Inc {
    sv: Solver,
    stack: Vec<Rc<String>>,
    n: u32,
}

pub struct Session {
    pub shared: Arc<Shared>,
    pub path: PathCtx,
    pub solver: Option<Solver>,
    pub qcache: HashMap<Vec<(PolyId, u8)>, Res>,
    pub inc: Option<Inc>,
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Unknown,
    Sat(Option<Vec<Q>>),
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
    pub static SESSION: RefCell<Option<Session>> = RefCell::new(None);
    /// forced order choices for concrete re-execution (None: natural order)
    pub static FORCED: RefCell<Option<(Vec<u32>, usize, u32, bool)>> = RefCell::new(None);
    /// values of the inputs in concrete execution
    pub static VALS: RefCell<HashMap<String, f64>> = RefCell::new(HashMap::new());
    /// choice points met in concrete execution: (alternatives, order choice with budget left, taken)
    static CONC_REC: RefCell<Vec<(u32, bool, u32)>> = RefCell::new(vec![]);
    static CONC_OBS: RefCell<(Vec<&'static str>, u64, Vec<(String, u32)>)> = RefCell::new((vec![], 0, vec![]));
    static CONC_ORDER: std::cell::Cell<bool> = std::cell::Cell::new(false);
    pub static CONC_STEPS: std::cell::Cell<(u64,u64)> = std::cell::Cell::new((0,0));
}

pub fn active() -> bool {
    SESSION.with(|s| s.borrow().is_some())
}

pub struct PathAbort(pub &'static str);

pub fn unsupported(msg: &str) -> ! {
    panic!("UNSUPPORTED: {}", msg)
}

// ------------------------------------------------------------------ arena

impl Arena {
    pub fn poly(&mut self, p: Poly) -> PolyId {
        if let Some(&i) = self.poly_ids.get(&p) {
            return i;
        }
        let r = Rc::new(p);
        let i = self.polys.len() as u32;
        self.polys.push(r.clone());
        self.poly_ids.insert(r, i);
        i
    }
    pub fn p(&self, i: PolyId) -> Rc<Poly> {
        self.polys[i as usize].clone()
    }
    pub fn reduce(&self, mut p: Poly) -> Poly {
        while let Some(v) = p.pow_ge2(&self.sqrt_vars) {
            let q = self.p(self.vars[v].sqrt_of.unwrap());
            p = p.reduce_sq(v, &q);
        }
        p
    }
    pub fn mulp(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let r = self.p(a).mul(&self.p(b));
        let r = self.reduce(r);
        self.poly(r)
    }
    pub fn primitive(&mut self, p: PolyId) -> (PolyId, bool) {
        if let Some(r) = self.prim.get(&p) {
            return *r;
        }
        let (q, f) = self.p(p).primitive();
        let id = self.poly(q);
        self.prim.insert(p, (id, f));
        id_pair(id, f)
    }
    pub fn range(&mut self, p: PolyId) -> (Option<Q>, Option<Q>) {
        if let Some(r) = self.range.get(&p) {
            return r.clone();
        }
        let poly = self.p(p);
        let mut lo = Some(Q::zero());
        let mut hi = Some(Q::zero());
        for (m, c) in &poly.t {
            let mut tl = Some(Q::one());
            let mut th = Some(Q::one());
            for v in 0..MAXV {
                let e = m[v];
                if e == 0 {
                    continue;
                }
                let (vl, vh) = self.var_range(v);
                let (pl, ph) = match (vl, vh) {
                    (Some(a), Some(b)) => {
                        let (mut x, mut y) = (Q::one(), Q::one());
                        for _ in 0..e {
                            x *= &a;
                            y *= &b;
                        }
                        if e % 2 == 1 {
                            (Some(x), Some(y))
                        } else if a.is_negative() && b.is_positive() {
                            (Some(Q::zero()), Some(if x > y { x } else { y }))
                        } else if x <= y {
                            (Some(x), Some(y))
                        } else {
                            (Some(y), Some(x))
                        }
                    }
                    (Some(a), None) if !a.is_negative() => {
                        let mut x = Q::one();
                        for _ in 0..e {
                            x *= &a;
                        }
                        (Some(x), None)
                    }
                    _ if e % 2 == 0 => (Some(Q::zero()), None),
                    _ => (None, None),
                };
                // multiply intervals [tl,th]*[pl,ph]
                (tl, th) = match (tl, th, pl, ph) {
                    (Some(a), Some(b), Some(c), Some(d)) => {
                        let c4 = [&a * &c, &a * &d, &b * &c, &b * &d];
                        (c4.iter().min().cloned(), c4.iter().max().cloned())
                    }
                    (Some(a), _, Some(c), _) if !a.is_negative() && !c.is_negative() => (Some(a * c), None),
                    _ => (None, None),
                };
            }
            let (a, b) = (tl.map(|x| x * c), th.map(|x| x * c));
            let (a, b) = if c.is_negative() { (b, a) } else { (a, b) };
            lo = match (lo, a) {
                (Some(x), Some(y)) => Some(x + y),
                _ => None,
            };
            hi = match (hi, b) {
                (Some(x), Some(y)) => Some(x + y),
                _ => None,
            };
        }
        self.range.insert(p, (lo.clone(), hi.clone()));
        (lo, hi)
    }
    fn var_range(&mut self, v: usize) -> (Option<Q>, Option<Q>) {
        let s = self.vars[v].sqrt_of;
        match s {
            None => (self.vars[v].lo.clone(), self.vars[v].hi.clone()),
            Some(_) => (Some(Q::zero()), None),
        }
    }
    /// granule: every value of p on the grid is c0 + integer multiple of g (None: unknown)
    fn granule(&self, p: &Poly) -> Option<Q> {
        use num::Integer;
        let mut gn = BigInt::zero();
        let mut gd = BigInt::one();
        for (m, c) in &p.t {
            if *m == ONE {
                continue;
            }
            let mut sh = 0u32;
            for v in 0..MAXV {
                if m[v] > 0 {
                    sh += self.vars[v].gran? * m[v] as u32;
                }
            }
            let c = c / Q::from_integer(BigInt::one() << (sh as usize));
            // gcd of rationals n1/d1, n2/d2 = gcd(n1*d2, n2*d1)/(d1*d2)
            let n = &gn * c.denom();
            let k = c.numer() * &gd;
            gn = n.gcd(&k);
            gd = &gd * c.denom();
            let r = gn.gcd(&gd);
            if !r.is_zero() {
                gn /= &r;
                gd /= &r;
            }
        }
        if gn.is_zero() {
            None
        } else {
            Some(Q::new(gn, gd))
        }
    }
    /// is every grid value of p representable in an f64?
    pub fn f64_exact(&mut self, p: PolyId) -> bool {
        let poly = self.p(p);
        let c0 = poly.const_term();
        let g = match self.granule(&poly.without_const()) {
            Some(g) => g,
            None => {
                if poly.without_const().is_zero() {
                    return qf(qtof(&c0)) == c0;
                }
                // a bare variable without grid: representable by assumption
                return poly.t.len() == 1 && poly.degree() == 1 && poly.t[0].1.abs().is_one();
            }
        };
        let pow2 = |d: &BigInt| d.bits() > 0 && (d & (d - BigInt::one())).is_zero();
        if !pow2(&g.denom()) || !pow2(&c0.denom()) {
            return false;
        }
        let (lo, hi) = self.range(p);
        let (lo, hi) = match (lo, hi) {
            (Some(a), Some(b)) => (a.abs(), b.abs()),
            _ => return false,
        };
        let b = if lo > hi { lo } else { hi };
        // power-of-two granule dividing both g and c0
        let k = std::cmp::max(g.denom().bits(), c0.denom().bits()) - 1;
        b * Q::from_integer(BigInt::one() << (k as usize)) <= Q::from_integer(BigInt::one() << 53usize)
    }
    /// normalise the sign question about p
    pub fn norm(&mut self, p: PolyId) -> Norm {
        if let Some(n) = self.norm_memo.get(&p) {
            return n.clone();
        }
        let poly = self.p(p);
        let n = if let Some(c) = poly.as_const() {
            Norm::Const(qsign(&c))
        } else {
            let c0 = poly.const_term();
            let rest = poly.without_const();
            let mut out = None;
            let wide = |p: &Poly| {
                let m = p.t.iter().map(|(_, c)| c.abs());
                m.clone().max().unwrap() / m.min().unwrap() >= Q::from_integer(BigInt::from(1_000_000))
            };
            if wide(&rest) {
                out = self.two_scales(&poly);
            }
            if out.is_none() && !c0.is_zero() {
                if let Some(g) = self.granule(&rest) {
                    let k = &c0 / &g;
                    if !k.is_integer() {
                        // rest + c0 > 0  <=>  rest >= ceil_g(-c0)
                        let up = (-&k).ceil() * &g;
                        let q = rest.sub(&Poly::constant(up));
                        let id = self.poly(q);
                        let (q, flip) = self.primitive(id);
                        out = Some(Norm::Shift { q, flip });
                    }
                }
            }
            if out.is_none() {
                out = self.two_scales(&poly);
            }
            out.unwrap_or_else(|| {
                let (q, flip) = self.primitive(p);
                Norm::Same { q, flip }
            })
        };
        self.norm_memo.insert(p, n.clone());
        n
    }
    /// smallest distance from zero of the nonzero grid values of a primitive polynomial
    pub fn quantum(&mut self, p: PolyId) -> Option<Q> {
        if let Some(r) = self.quantum_memo.get(&p) {
            return r.clone();
        }
        let poly = self.p(p);
        let c0 = poly.const_term();
        let r = self.granule(&poly.without_const()).filter(|g| (&c0 / g).is_integer());
        self.quantum_memo.insert(p, r.clone());
        r
    }
    /// p = l + s with s smaller than any nonzero grid value of l (a comparison with a tolerance)
    fn two_scales(&mut self, poly: &Poly) -> Option<Norm> {
        let max = poly.t.iter().map(|(_, c)| c.abs()).max()?;
        let min = poly.t.iter().map(|(_, c)| c.abs()).min()?;
        let million = Q::from_integer(BigInt::from(1_000_000));
        if &max / &min < million {
            // a small part may hide in a large coefficient
            let unit = &min;
            if poly.t.iter().all(|(_, c)| (c / unit * Q::from_integer(BigInt::from(64))).is_integer()) {
                return None;
            }
        }
        let big: Vec<Q> = poly.t.iter().map(|(_, c)| c.abs()).filter(|c| c * &million > max).collect();
        let mut best: Option<(Poly, Poly)> = None;
        for b in &big {
            for d in 1..9 {
                let u = b / Q::from_integer(BigInt::from(d));
                let l = Poly { t: poly.t.iter().map(|(m, c)| (*m, (c / &u).round() * &u)).filter(|(_, c)| !c.is_zero()).collect() };
                let s = poly.sub(&l);
                if s.is_zero() || best.as_ref().map_or(false, |(_, t)| t.t.len() <= s.t.len()) {
                    continue;
                }
                let rest = l.without_const();
                if rest.is_zero() {
                    continue;
                }
                let g = match self.granule(&rest) {
                    Some(g) => g,
                    None => return None,
                };
                if !(l.const_term() / &g).is_integer() {
                    continue;
                }
                let sid = self.poly(s.clone());
                let (lo, hi) = self.range(sid);
                if let (Some(lo), Some(hi)) = (lo, hi) {
                    if -&g < lo && hi < g {
                        best = Some((l, s));
                    }
                }
            }
        }
        best.map(|(l, s)| Norm::Lex { l: self.poly(l), s: self.poly(s) })
    }
    /// lower bound on |r| over grid points where r is not zero (None: no bound known)
    pub fn min_nonzero(&mut self, r: &RatExpr) -> Option<Q> {
        use num::Integer;
        let p = self.p(r.num);
        let rest = p.without_const();
        let c0 = p.const_term();
        let mut g = if rest.is_zero() { c0.abs() } else { self.granule(&rest)? };
        if !c0.is_zero() && !rest.is_zero() {
            // gcd of the two rationals
            let n = (g.numer() * c0.denom()).gcd(&(c0.numer() * g.denom()));
            g = Q::new(n, g.denom() * c0.denom());
        }
        for &(f, e) in &r.den {
            let (lo, hi) = self.range(f);
            let (a, b) = (lo?.abs(), hi?.abs());
            let m = if a > b { a } else { b };
            for _ in 0..e {
                g /= &m;
            }
        }
        Some(g)
    }
    /// the polynomial over integer variables k (x = k / 2^gran), times a positive constant that makes its coefficients integers
    pub fn smt_poly_int(&mut self, p: PolyId) -> Rc<String> {
        if let Some(s) = self.smt_int.get(&p) {
            return s.clone();
        }
        let poly = self.p(p);
        let mut t: Vec<(Mono, Q)> = poly
            .t
            .iter()
            .map(|(m, c)| {
                let sh: usize = (0..MAXV).map(|v| if m[v] > 0 { m[v] as usize * self.vars[v].gran.unwrap_or(0) as usize } else { 0 }).sum();
                (*m, c / Q::from_integer(BigInt::one() << sh))
            })
            .collect();
        let mut l = BigInt::one();
        for (_, c) in &t {
            l = num::integer::lcm(l, c.denom().clone());
        }
        let mut g = BigInt::zero();
        for (_, c) in t.iter_mut() {
            *c = &*c * Q::from_integer(l.clone());
            g = num::integer::gcd(g, c.numer().clone());
        }
        let mut parts = vec![];
        for (m, c) in &t {
            let n = c.numer() / &g;
            let mut f = vec![if n.is_negative() { format!("(- {})", n.abs()) } else { format!("{}", n) }];
            for v in 0..MAXV {
                for _ in 0..m[v] {
                    f.push(format!("x{}", v));
                }
            }
            parts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        let s = match parts.len() {
            0 => "0".to_string(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        };
        let r = Rc::new(s);
        self.smt_int.insert(p, r.clone());
        r
    }
    /// p uses only the first n variables (through square roots as well)
    pub fn inputs_below(&self, p: PolyId, n: usize) -> bool {
        let q = self.p(p);
        (0..self.vars.len()).all(|v| !q.uses(v) || match self.vars[v].sqrt_of {
            Some(s) => self.inputs_below(s, n),
            None => v < n,
        })
    }
    pub fn smt_poly(&mut self, p: PolyId) -> Rc<String> {
        if let Some(s) = self.smt.get(&p) {
            return s.clone();
        }
        let poly = self.p(p);
        let mut parts = vec![];
        for (m, c) in &poly.t {
            let mut f = vec![smt_q(c)];
            for v in 0..MAXV {
                for _ in 0..m[v] {
                    f.push(format!("x{}", v));
                }
            }
            parts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        let s = match parts.len() {
            0 => "0.0".to_string(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        };
        let r = Rc::new(s);
        self.smt.insert(p, r.clone());
        r
    }
}

fn id_pair(a: PolyId, b: bool) -> (PolyId, bool) {
    (a, b)
}

pub fn qsign(c: &Q) -> u8 {
    if c.is_zero() {
        ZERO
    } else if c.is_positive() {
        POS
    } else {
        NEG
    }
}

pub fn flip_mask(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

fn smt_q(c: &Q) -> String {
    let n = c.numer();
    let f = |n: BigInt| if n.is_negative() { format!("(- {}.0)", n.abs()) } else { format!("{}.0", n) };
    if c.denom().is_one() {
        f(n)
    } else {
        format!("(/ {} {}.0)", f(n), c.denom())
    }
}

// ------------------------------------------------------------------ solver

pub struct Solver {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Solver {
    pub fn start() -> Solver {
        let bin = std::env::var("SYM_SOLVER").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(&bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", bin, e));
        let stdin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, stdin, out }
    }
    fn send(&mut self, s: &str) {
        self.stdin.write_all(s.as_bytes()).expect("solver pipe");
        self.stdin.flush().expect("solver pipe");
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        loop {
            s.clear();
            if self.out.read_line(&mut s).expect("solver pipe") == 0 {
                return "(error \"solver died\")".into();
            }
            let t = s.trim();
            if !t.is_empty() {
                return t.to_string();
            }
        }
    }
    fn sexp(&mut self) -> String {
        let mut acc = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line();
            for ch in l.chars() {
                if ch == '(' {
                    depth += 1
                } else if ch == ')' {
                    depth -= 1
                }
            }
            acc.push_str(&l);
            acc.push(' ');
            if depth <= 0 {
                return acc;
            }
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug)]
enum SE {
    A(String),
    L(Vec<SE>),
}
fn parse_se(s: &str) -> SE {
    fn go(t: &[String], i: &mut usize) -> SE {
        if t[*i] == "(" {
            *i += 1;
            let mut v = vec![];
            while *i < t.len() && t[*i] != ")" {
                v.push(go(t, i));
            }
            *i += 1;
            SE::L(v)
        } else {
            *i += 1;
            SE::A(t[*i - 1].clone())
        }
    }
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    let mut i = 0;
    go(&toks, &mut i)
}
fn se_val(e: &SE) -> Option<Q> {
    match e {
        SE::A(a) => {
            if a.ends_with('?') {
                return None;
            }
            let (ip, fp) = match a.split_once('.') {
                Some((x, y)) => (x.to_string(), y.to_string()),
                None => (a.clone(), String::new()),
            };
            let n: BigInt = format!("{}{}", ip, fp).parse().ok()?;
            let d = num::pow(BigInt::from(10), fp.len());
            Some(Q::new(n, d))
        }
        SE::L(v) => match (v.first(), v.len()) {
            (Some(SE::A(op)), 2) if op == "-" => se_val(&v[1]).map(|x| -x),
            (Some(SE::A(op)), 3) if op == "/" => {
                let (a, b) = (se_val(&v[1])?, se_val(&v[2])?);
                Some(a / b)
            }
            _ => None,
        },
    }
}

/// like mask_smt, for a polynomial whose nonzero grid values are at least g away from zero
fn mask_smt_grid(p: &str, m: u8, g: &Q) -> String {
    let g = smt_q(g);
    match m {
        NEG => format!("(<= {} (- {}))", p, g),
        POS => format!("(>= {} {})", p, g),
        5 => format!("(or (<= {} (- {})) (>= {} {}))", p, g, p, g),
        _ => mask_smt(p, m),
    }
}
fn mask_smt(p: &str, m: u8) -> String {
    match m {
        NEG => format!("(< {} 0.0)", p),
        ZERO => format!("(= {} 0.0)", p),
        POS => format!("(> {} 0.0)", p),
        3 => format!("(<= {} 0.0)", p),
        5 => format!("(not (= {} 0.0))", p),
        6 => format!("(>= {} 0.0)", p),
        7 => "true".into(),
        _ => "false".into(),
    }
}

thread_local! {
    static INT_MODE: bool = std::env::var("SYM_REAL").is_err();
}

fn int_s(n: &BigInt) -> String {
    if n.is_negative() {
        format!("(- {})", n.abs())
    } else {
        n.to_string()
    }
}

fn int_decl(a: &Arena, v: usize) -> String {
    let s = Q::from_integer(BigInt::one() << (a.vars[v].gran.unwrap() as usize));
    let lo = (a.vars[v].lo.as_ref().unwrap() * &s).ceil();
    let hi = (a.vars[v].hi.as_ref().unwrap() * &s).floor();
    format!("(declare-const x{} Int)\n(assert (>= x{} {}))\n(assert (<= x{} {}))", v, v, int_s(&lo.numer()), v, int_s(&hi.numer()))
}

fn int_block(a: &Arena, used: &[bool], w: &[Q]) -> String {
    let l: Vec<String> = (0..a.vars.len())
        .filter(|&v| used[v])
        .map(|v| format!("(not (= x{} {}))", v, int_s(&(&w[v] * Q::from_integer(BigInt::one() << (a.vars[v].gran.unwrap() as usize))).numer())))
        .collect();
    format!("(assert (or {}))", l.join(" "))
}

impl Arena {
    fn int_atom(&mut self, p: PolyId, m: u8) -> Rc<String> {
        if let Some(s) = self.int_atoms.get(&(p, m)) {
            return s.clone();
        }
        let s = self.smt_poly_int(p);
        let c = match m {
            NEG => format!("(<= {} (- 1))", s),
            POS => format!("(>= {} 1)", s),
            ZERO => format!("(= {} 0)", s),
            3 => format!("(<= {} 0)", s),
            5 => format!("(not (= {} 0))", s),
            6 => format!("(>= {} 0)", s),
            7 => "true".into(),
            _ => "false".into(),
        };
        let r = Rc::new(format!("(assert {})", c));
        self.int_atoms.insert((p, m), r.clone());
        r
    }
}

/// every variable on its grid: the query is over bounded integers
fn int_query(txt: &mut String, a: &mut Arena, used: &[bool], atoms: &[(PolyId, u8)]) {
    txt.push_str("(set-logic QF_NIA)\n");
    for v in 0..a.vars.len() {
        if used[v] {
            txt.push_str(&int_decl(a, v));
            txt.push('\n');
        }
    }
    for (p, m) in atoms {
        txt.push_str(&a.int_atom(*p, *m));
        txt.push('\n');
    }
}

impl Session {
    fn inc(&self, c: &AtomicU64) {
        c.fetch_add(1, Ordering::Relaxed);
    }
    /// satisfiability of atoms (+ equalities for snapping) over the reals within variable bounds
    pub fn query(&mut self, atoms: &[(PolyId, u8)], eqs: &[(usize, Q)], want_model: bool) -> Res {
        let mut key: Vec<(PolyId, u8)> = atoms.to_vec();
        key.sort();
        key.dedup();
        if eqs.is_empty() {
            if let Some(r) = self.qcache.get(&key) {
                self.inc(&self.shared.stats.cache_hits);
                return r.clone();
            }
        }
        if eqs.is_empty() && want_model && self.shared.cfg.deadline.map_or(false, |d| Instant::now() > d + Duration::from_secs(3)) {
            std::panic::panic_any(PathAbort("deadline"))
        }
        let r = match if eqs.is_empty() { self.query_inc(atoms, &[]) } else { None } {
            Some(r) => r,
            None => self.query_hard(&key, eqs, want_model),
        };
        if eqs.is_empty() {
            self.qcache.insert(key, r.clone());
        }
        r
    }
    /// bounded integers, on a solver that keeps the constraints of the path
    fn query_inc(&mut self, atoms: &[(PolyId, u8)], block: &[Vec<Q>]) -> Option<Res> {
        if !INT_MODE.with(|m| *m) {
            return None;
        }
        let t0 = Instant::now();
        ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            let nvars = a.vars.len();
            let on_grid = |v: &Var| v.sqrt_of.is_none() && v.gran.is_some() && v.lo.is_some() && v.hi.is_some();
            let mut used = vec![false; nvars];
            let mut items: Vec<Rc<String>> = vec![];
            let mut declare = |v: usize, a: &Arena, items: &mut Vec<Rc<String>>| {
                if !used[v] {
                    used[v] = true;
                    items.push(Rc::new(int_decl(a, v)));
                }
            };
            for (p, m) in atoms {
                let poly = a.p(*p);
                for v in 0..nvars {
                    if poly.uses(v) {
                        if !on_grid(&a.vars[v]) {
                            return None;
                        }
                        declare(v, a, &mut items);
                    }
                }
                items.push(a.int_atom(*p, *m));
            }
            if !block.is_empty() {
                for v in 0..nvars {
                    if a.vars[v].sqrt_of.is_none() {
                        declare(v, a, &mut items);
                    }
                }
                for w in block {
                    items.push(Rc::new(int_block(a, &used, w)));
                }
            }
            let timeout = INC_MS;
            let fresh = match &self.inc {
                None => true,
                Some(i) => i.n > 4000,
            };
            if fresh {
                let mut sv = Solver::start();
                sv.send(&format!("(set-option :model.completion true)\n(set-option :timeout {})\n(set-logic QF_NIA)\n", timeout));
                self.inc = Some(Inc { sv, stack: vec![], n: 0 });
            }
            let inc = self.inc.as_mut().unwrap();
            let mut k = 0;
            while k < inc.stack.len() && k < items.len() && inc.stack[k] == items[k] {
                k += 1;
            }
            let mut txt = String::new();
            if inc.stack.len() > k {
                txt.push_str(&format!("(pop {})\n", inc.stack.len() - k));
            }
            for i in &items[k..] {
                txt.push_str("(push)\n");
                txt.push_str(i);
                txt.push('\n');
            }
            txt.push_str("(check-sat)\n");
            inc.stack = items;
            inc.n += 1;
            if std::env::var("SYM_DUMP").is_ok() {
                eprintln!("{}", txt);
            }
            inc.sv.send(&txt);
            let ans = inc.sv.line();
            let st = &self.shared.stats;
            let r = match ans.as_str() {
                "unsat" => {
                    st.unsat.fetch_add(1, Ordering::Relaxed);
                    Some(Res::Unsat)
                }
                "sat" => {
                    st.sat.fetch_add(1, Ordering::Relaxed);
                    let ins: Vec<usize> = (0..nvars).filter(|&v| used[v]).collect();
                    let mut vals: Vec<Option<Q>> = (0..nvars)
                        .map(|v| if a.vars[v].sqrt_of.is_some() { Some(Q::zero()) } else if used[v] { None } else { Some(default_val(&a.vars[v])) })
                        .collect();
                    if !ins.is_empty() {
                        let names: Vec<String> = ins.iter().map(|v| format!("x{}", v)).collect();
                        inc.sv.send(&format!("(get-value ({}))\n", names.join(" ")));
                        let s = inc.sv.sexp();
                        if let SE::L(v) = parse_se(&s) {
                            for (i, pair) in v.iter().enumerate() {
                                if let SE::L(p2) = pair {
                                    if p2.len() == 2 && i < ins.len() {
                                        vals[ins[i]] = se_val(&p2[1]).map(|q| q / Q::from_integer(BigInt::one() << (a.vars[ins[i]].gran.unwrap() as usize)));
                                    }
                                }
                            }
                        }
                    }
                    Some(Res::Sat(vals.into_iter().collect()))
                }
                _ => {
                    // the one-shot solver gets another try
                    self.inc = None;
                    None
                }
            };
            if r.is_some() {
                st.queries.fetch_add(1, Ordering::Relaxed);
                st.solver_ns.fetch_add(t0.elapsed().as_nanos() as u64, Ordering::Relaxed);
            }
            r
        })
    }
    /// what the incremental solver gave up on: over the reals, then over the integers in one shot
    fn query_hard(&mut self, atoms: &[(PolyId, u8)], eqs: &[(usize, Q)], want_model: bool) -> Res {
        let t = self.shared.cfg.solver_timeout_ms;
        if !eqs.is_empty() || !INT_MODE.with(|m| *m) {
            return self.query_raw(atoms, eqs, want_model, false, t);
        }
        let r = self.query_raw(atoms, eqs, true, false, t / 2);
        match r {
            Res::Unsat => return Res::Unsat,
            Res::Sat(Some(ref w)) if self.on_grid(w) => return r,
            _ => {}
        }
        if !self.all_int(atoms) {
            return r;
        }
        match self.query_raw(atoms, eqs, true, true, t) {
            Res::Unknown => r,
            x => x,
        }
    }
    fn all_int(&self, atoms: &[(PolyId, u8)]) -> bool {
        ARENA.with(|a| {
            let a = a.borrow();
            (0..a.vars.len()).all(|v| (a.vars[v].gran.is_some() && a.vars[v].sqrt_of.is_none()) || !atoms.iter().any(|(p, _)| a.p(*p).uses(v)))
        })
    }
    fn on_grid(&self, w: &[Q]) -> bool {
        ARENA.with(|a| {
            let a = a.borrow();
            w.iter().zip(a.vars.iter()).all(|(x, v)| v.sqrt_of.is_some() || v.gran.map_or(true, |g| (x * Q::from_integer(BigInt::one() << (g as usize))).is_integer()))
        })
    }
    fn query_raw(&mut self, atoms: &[(PolyId, u8)], eqs: &[(usize, Q)], want_model: bool, ints: bool, timeout: u64) -> Res {
        let t0 = Instant::now();
        let mut txt = String::from("(reset)\n(set-option :model.completion true)\n");
        ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            let nvars = a.vars.len();
            let mut used = vec![false; nvars];
            let mut stack: Vec<PolyId> = atoms.iter().map(|x| x.0).collect();
            while let Some(p) = stack.pop() {
                let poly = a.p(p);
                for v in 0..nvars {
                    if !used[v] && poly.uses(v) {
                        used[v] = true;
                        if let Some(s) = a.vars[v].sqrt_of {
                            stack.push(s);
                        }
                    }
                }
            }
            txt.push_str(&format!("(set-option :timeout {})\n", timeout));
            if ints {
                int_query(&mut txt, a, &used, atoms);
            } else {
            txt.push_str("(set-logic QF_NRA)\n");
            for v in 0..nvars {
                if !used[v] {
                    continue;
                }
                txt.push_str(&format!("(declare-const x{} Real)\n", v));
            }
            for v in 0..nvars {
                if !used[v] {
                    continue;
                }
                if let Some(s) = a.vars[v].sqrt_of {
                    let ps = a.smt_poly(s);
                    txt.push_str(&format!("(assert (>= x{} 0.0))\n(assert (= (* x{} x{}) {}))\n", v, v, v, ps));
                } else {
                    if let Some(lo) = &a.vars[v].lo {
                        txt.push_str(&format!("(assert (>= x{} {}))\n", v, smt_q(lo)));
                    }
                    if let Some(hi) = &a.vars[v].hi {
                        txt.push_str(&format!("(assert (<= x{} {}))\n", v, smt_q(hi)));
                    }
                }
            }
            for (p, m) in atoms {
                let s = a.smt_poly(*p);
                // tightening nonlinear atoms slows the solver down more than it prunes
                let c = match a.quantum(*p).filter(|_| a.p(*p).degree() <= 1) {
                    Some(g) => mask_smt_grid(&s, *m, &g),
                    None => mask_smt(&s, *m),
                };
                txt.push_str(&format!("(assert {})\n", c));
            }
            for (v, q) in eqs {
                if used[*v] {
                    txt.push_str(&format!("(assert (= x{} {}))\n", v, smt_q(q)));
                }
            }
            }
            txt.push_str("(check-sat)\n");
            let used_in: Vec<usize> = (0..nvars).filter(|&v| used[v]).collect();
            if self.solver.is_none() {
                self.solver = Some(Solver::start());
            }
            let sv = self.solver.as_mut().unwrap();
            if std::env::var("SYM_DUMP").is_ok() {
                eprintln!("{}", txt);
            }
            sv.send(&txt);
            let ans = sv.line();
            let st = &self.shared.stats;
            st.queries.fetch_add(1, Ordering::Relaxed);
            let res = match ans.as_str() {
                "unsat" => {
                    st.unsat.fetch_add(1, Ordering::Relaxed);
                    Res::Unsat
                }
                "sat" => {
                    st.sat.fetch_add(1, Ordering::Relaxed);
                    if !want_model {
                        Res::Sat(None)
                    } else {
                        let ins: Vec<usize> = used_in.iter().cloned().filter(|&v| a.vars[v].sqrt_of.is_none()).collect();
                        let mut vals: Vec<Option<Q>> = (0..nvars)
                            .map(|v| {
                                if a.vars[v].sqrt_of.is_some() {
                                    Some(Q::zero())
                                } else if ins.contains(&v) {
                                    None
                                } else {
                                    Some(default_val(&a.vars[v]))
                                }
                            })
                            .collect();
                        if !ins.is_empty() {
                            let names: Vec<String> = ins.iter().map(|v| format!("x{}", v)).collect();
                            sv.send(&format!("(get-value ({}))\n", names.join(" ")));
                            let s = sv.sexp();
                            if let SE::L(v) = parse_se(&s) {
                                for (i, pair) in v.iter().enumerate() {
                                    if let SE::L(p2) = pair {
                                        if p2.len() == 2 && i < ins.len() {
                                            vals[ins[i]] = se_val(&p2[1]).map(|q| if ints { q / Q::from_integer(BigInt::one() << (a.vars[ins[i]].gran.unwrap() as usize)) } else { q });
                                        }
                                    }
                                }
                            }
                        }
                        Res::Sat(vals.into_iter().collect())
                    }
                }
                a if a.starts_with("unknown") || a.starts_with("timeout") => {
                    st.unknown.fetch_add(1, Ordering::Relaxed);
                    if std::env::var("SYM_DUMP_UNKNOWN").is_ok() {
                        eprintln!("UNKNOWN:\n{}", txt);
                    }
                    Res::Unknown
                }
                other => {
                    self.solver = None; // restart
                    st.unknown.fetch_add(1, Ordering::Relaxed);
                    eprintln!("solver said: {}", other);
                    Res::Unknown
                }
            };
            st.solver_ns.fetch_add(t0.elapsed().as_nanos() as u64, Ordering::Relaxed);
            res
        })
    }

    fn eval_mask(&self, a: &Arena, p: PolyId, w: &[Q]) -> Option<u8> {
        let poly = a.p(p);
        if a.sqrt_vars.iter().any(|&v| poly.uses(v)) {
            return eval_sqrt_sign(a, &poly, w);
        }
        if w.len() < a.vars.len() {
            return Some(qsign(&poly.eval(&padded(a, w))));
        }
        Some(qsign(&poly.eval(w)))
    }

    fn ensure_witness(&mut self) -> bool {
        if self.path.witness.is_some() {
            return true;
        }
        if !self.path.need_witness {
            return false;
        }
        self.path.need_witness = false;
        let pc = self.path.pc.clone();
        match self.query(&pc, &[], true) {
            Res::Sat(Some(w)) => {
                self.path.witness = Some(w);
                true
            }
            Res::Sat(None) => false,
            Res::Unsat => std::panic::panic_any(PathAbort("infeasible")),
            Res::Unknown => false,
        }
    }

    fn push_pc(&mut self, p: PolyId, m: u8) {
        self.path.pc.push((p, m));
        if !self.path.alts.is_empty() {
            let alts = std::mem::take(&mut self.path.alts);
            self.path.alts = ARENA.with(|a| {
                let a = a.borrow();
                alts.into_iter().filter(|w| self.eval_mask(&a, p, w).map_or(false, |x| x & m != 0)).collect()
            });
        }
    }

    /// do the constraints leave a single value for every input (the witness)? then every later sign is known
    fn try_pin(&mut self) {
        let n = self.path.pc.len();
        if self.path.pinned > 0 || self.path.pin_tried == n || !self.path.alts.is_empty() || !INT_MODE.with(|m| *m) {
            return;
        }
        self.path.pin_wait += 1;
        if self.path.pin_wait < 3 {
            return;
        }
        let nv = ARENA.with(|a| a.borrow().vars.len());
        let w = match &self.path.witness {
            Some(w) => ARENA.with(|a| padded(&a.borrow(), w)),
            None => return,
        };
        let (ok, atoms) = ARENA.with(|a| {
            let a = a.borrow();
            let mut any = false;
            for v in 0..nv {
                if a.vars[v].sqrt_of.is_some() {
                    continue;
                }
                any = true;
                match (a.vars[v].gran, &a.vars[v].lo, &a.vars[v].hi) {
                    (Some(g), Some(_), Some(_)) if (&w[v] * Q::from_integer(BigInt::one() << (g as usize))).is_integer() => {}
                    _ => return (false, vec![]),
                }
            }
            let at: Vec<(PolyId, u8)> = self.path.pc.iter().cloned().filter(|(p, _)| {
                let q = a.p(*p);
                !a.sqrt_vars.iter().any(|&v| q.uses(v))
            }).collect();
            (any, at)
        });
        self.path.pin_tried = n;
        self.path.pin_wait = 0;
        if !ok {
            return;
        }
        let r = match self.query_inc(&atoms, std::slice::from_ref(&w)) {
            Some(r) => r,
            None => Res::Unknown,
        };
        match r {
            Res::Unsat => {
                self.path.witness = Some(w);
                self.path.pinned = nv;
            }
            Res::Sat(Some(m)) if atoms.len() == n => self.path.alts.push(m),
            _ => {}
        }
    }

    fn set_fact(&mut self, p: PolyId, m: u8) {
        self.path.facts.insert(p, m);
    }
    fn fact(&self, p: PolyId) -> u8 {
        *self.path.facts.get(&p).unwrap_or(&ALL)
    }

    /// decide whether sign(p) is in `want`; p is a primitive polynomial
    fn decide(&mut self, p: PolyId, want: u8) -> bool {
        self.path.steps += 1;
        self.inc(&self.shared.stats.branches);
        let mut known = self.fact(p);
        if known == ALL {
            // static range
            let (lo, hi) = ARENA.with(|a| a.borrow_mut().range(p));
            if let Some(lo) = lo {
                if lo.is_positive() {
                    known &= POS
                } else if lo.is_zero() {
                    known &= POS | ZERO
                }
            }
            if let Some(hi) = hi {
                if hi.is_negative() {
                    known &= NEG
                } else if hi.is_zero() {
                    known &= NEG | ZERO
                }
            }
            if ARENA.with(|a| a.borrow().nonneg.contains_key(&p)) {
                known &= POS | ZERO;
            }
            self.set_fact(p, known);
        }
        let comps = ARENA.with(|a| a.borrow().nonneg.get(&p).cloned());
        if let Some(cs) = &comps {
            if known == (POS | ZERO) {
                let mut allzero = true;
                for &c in cs {
                    let f = self.fact(c);
                    if f & ZERO == 0 {
                        known = POS;
                    }
                    if f != ZERO {
                        allzero = false;
                    }
                }
                if allzero {
                    known = ZERO;
                }
                self.set_fact(p, known);
            }
        }
        if known & want == 0 {
            return false;
        }
        if known & !want == 0 {
            return true;
        }
        let yes = known & want;
        let no = known & !want;
        let taken;
        if self.path.pos < self.path.prefix.len() {
            let d = self.path.prefix[self.path.pos];
            self.path.pos += 1;
            match d {
                Dec::Sign(m) => {
                    taken = m;
                    self.path.pc.push((p, m));
                }
                Dec::Implied(m) => taken = m,
                Dec::Choice(_) => panic!("ENGINE: decision kind mismatch"),
            }
            if taken != yes && taken != no {
                panic!("ENGINE: replay diverged");
            }
        } else {
            let has_w = self.ensure_witness();
            let side_w = if has_w {
                ARENA.with(|a| {
                    let near = {
                        // off the grid: closer to zero than any grid value that is not zero
                        let a = &mut *a.borrow_mut();
                        a.p(p).degree() <= 1 && a.quantum(p).map_or(false, |g| {
                            let w = padded(a, self.path.witness.as_ref().unwrap());
                            let x = a.p(p).eval(&w).abs();
                            !x.is_zero() && x < g
                        })
                    };
                    if near {
                        None
                    } else {
                        self.eval_mask(&a.borrow(), p, self.path.witness.as_ref().unwrap())
                    }
                })
            } else {
                None
            };
            let side_w = side_w.filter(|m| m & known != 0).map(|m| if m & yes != 0 { yes } else { no });
            let mut atoms = self.path.pc.clone();
            let n = atoms.len();
            match side_w {
                Some(side) => {
                    let other = if side == yes { no } else { yes };
                    atoms.push((p, other));
                    self.try_pin();
                    let np = self.path.pinned;
                    let fixed = np > 0 && ARENA.with(|a| {
                        let a = &mut *a.borrow_mut();
                        a.inputs_below(p, np)
                    });
                    let alt = if fixed { None } else {
                        ARENA.with(|a| {
                            let a = a.borrow();
                            self.path.alts.iter().position(|w| self.eval_mask(&a, p, w).map_or(false, |m| m & other != 0))
                        })
                    };
                    let r = if fixed {
                        self.inc(&self.shared.stats.pinned);
                        Res::Unsat
                    } else if let Some(i) = alt {
                        Res::Sat(Some(self.path.alts[i].clone()))
                    } else {
                        self.query(&atoms, &[], true)
                    };
                    match r {
                        Res::Unsat => {
                            taken = side;
                            self.path.prefix.push(Dec::Implied(side));
                        }
                        Res::Sat(w) => {
                            self.fork(Dec::Sign(other), w);
                            taken = side;
                            self.path.prefix.push(Dec::Sign(side));
                            self.push_pc(p, side);
                        }
                        Res::Unknown => {
                            self.fork(Dec::Sign(other), None);
                            taken = side;
                            self.path.prefix.push(Dec::Sign(side));
                            self.push_pc(p, side);
                        }
                    }
                }
                None => {
                    atoms.push((p, yes));
                    let r1 = self.query(&atoms, &[], true);
                    atoms[n] = (p, no);
                    let r2 = self.query(&atoms, &[], true);
                    match (r1, r2) {
                        (Res::Unsat, Res::Unsat) => std::panic::panic_any(PathAbort("infeasible")),
                        (Res::Unsat, _) => {
                            taken = no;
                            self.path.prefix.push(Dec::Implied(no));
                        }
                        (_, Res::Unsat) => {
                            taken = yes;
                            self.path.prefix.push(Dec::Implied(yes));
                        }
                        (r1, r2) => {
                            self.fork(Dec::Sign(no), if let Res::Sat(w) = r2 { w } else { None });
                            taken = yes;
                            if let Res::Sat(Some(w)) = r1 {
                                self.path.witness = Some(w);
                            }
                            self.path.prefix.push(Dec::Sign(yes));
                            self.push_pc(p, yes);
                        }
                    }
                }
            }
            self.path.pos = self.path.prefix.len();
        }
        self.set_fact(p, taken);
        if taken == ZERO {
            if let Some(cs) = comps {
                for c in cs {
                    self.set_fact(c, ZERO);
                }
            }
        }
        taken == yes
    }

    fn fork(&mut self, d: Dec, w: Option<Vec<Q>>) {
        self.inc(&self.shared.stats.forks);
        let mut prefix = self.path.prefix.clone();
        prefix.push(d);
        let dev = match d {
            Dec::Choice(_) if self.path.order_fork => 1,
            _ => 0,
        };
        let level = (self.shared.cfg.order_budget - self.path.order_left) as usize + dev;
        let mut g = self.shared.queue.lock().unwrap();
        g.0.push(level, Work { prefix, witness: w, conc: None });
        self.shared.cv.notify_one();
    }

    fn choose(&mut self, n: u32) -> u32 {
        if self.path.pos < self.path.prefix.len() {
            let d = self.path.prefix[self.path.pos];
            self.path.pos += 1;
            match d {
                Dec::Choice(c) => c,
                _ => panic!("ENGINE: decision kind mismatch"),
            }
        } else {
            for c in (1..n).rev() {
                let w = self.path.witness.clone();
                self.fork(Dec::Choice(c), w);
            }
            self.path.prefix.push(Dec::Choice(0));
            self.path.pos = self.path.prefix.len();
            0
        }
    }
}

/// a witness extended with defaults for variables created after it was found
fn padded(a: &Arena, w: &[Q]) -> Vec<Q> {
    let mut r = w.to_vec();
    for v in r.len()..a.vars.len() {
        r.push(default_val(&a.vars[v]));
    }
    r
}

fn default_val(v: &Var) -> Q {
    match (&v.lo, &v.hi) {
        (Some(a), Some(b)) if !a.is_positive() && !b.is_negative() => Q::zero(),
        (Some(a), _) => a.clone(),
        (None, Some(b)) => b.clone(),
        _ => Q::zero(),
    }
}

/// sign of a polynomial containing square-root variables at a rational point, by interval refinement
fn eval_sqrt_sign(a: &Arena, p: &Poly, w: &[Q]) -> Option<u8> {
    for bits in [64usize, 160, 400] {
        let mut lo: Vec<Q> = padded(a, w);
        let mut hi = lo.clone();
        for &v in &a.sqrt_vars {
            // the radicand of a sqrt variable uses only earlier variables
            let rad = a.p(a.vars[v].sqrt_of.unwrap());
            let (rl, rh) = ieval(&rad, &lo, &hi);
            lo[v] = isqrt(&rl, bits, false)?;
            hi[v] = isqrt(&rh, bits, true)?;
        }
        let (l, h) = ieval(p, &lo, &hi);
        if l.is_positive() {
            return Some(POS);
        }
        if h.is_negative() {
            return Some(NEG);
        }
        if l.is_zero() && h.is_zero() {
            return Some(ZERO);
        }
    }
    None
}
fn isqrt(q: &Q, bits: usize, up: bool) -> Option<Q> {
    if q.is_negative() {
        return if up { None } else { Some(Q::zero()) };
    }
    let s = (q * Q::from_integer(BigInt::one() << (2 * bits))).floor().to_integer();
    let r = s.sqrt();
    let exact = &r * &r == s && (q * Q::from_integer(BigInt::one() << (2 * bits))).is_integer();
    let r = if up && !exact { r + BigInt::one() } else { r };
    Some(Q::new(r, BigInt::one() << bits))
}
fn ieval(p: &Poly, lo: &[Q], hi: &[Q]) -> (Q, Q) {
    let (mut l, mut h) = (Q::zero(), Q::zero());
    for (m, c) in &p.t {
        let (mut tl, mut th) = (c.clone(), c.clone());
        for v in 0..MAXV {
            for _ in 0..m[v] {
                if lo[v] == hi[v] {
                    tl *= &lo[v];
                    th *= &lo[v];
                    if lo[v].is_negative() {
                        std::mem::swap(&mut tl, &mut th);
                    }
                } else {
                    let c4 = [&tl * &lo[v], &tl * &hi[v], &th * &lo[v], &th * &hi[v]];
                    tl = c4.iter().min().unwrap().clone();
                    th = c4.iter().max().unwrap().clone();
                }
            }
        }
        l += tl;
        h += th;
    }
    (l, h)
}

// ------------------------------------------------------------------ public decision API

pub fn with_session<R>(f: impl FnOnce(&mut Session) -> R) -> R {
    SESSION.with(|s| f(s.borrow_mut().as_mut().expect("no symbolic session")))
}

pub fn tick(n: u64) {
    let mut late = false;
    let over = SESSION.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.path.steps += n;
            if s.path.steps & 255 < n && s.shared.cfg.deadline.map_or(false, |d| Instant::now() > d + Duration::from_secs(5)) {
                late = true;
            }
            s.path.steps > s.shared.cfg.step_limit
        } else {
            let (mut c, l) = CONC_STEPS.with(|c| c.get());
            c += n;
            CONC_STEPS.with(|x| x.set((c, l)));
            l > 0 && c > l
        }
    });
    if late {
        std::panic::panic_any(PathAbort("deadline"))
    }
    if over {
        SESSION.with(|s| {
            if let Some(s) = s.borrow_mut().as_mut() {
                s.path.steps = 0;
            }
        });
        CONC_STEPS.with(|x| {
            let (_, l) = x.get();
            x.set((0, l))
        });
        panic!("STEP-LIMIT: no termination within the step bound");
    }
}

/// is sign(num/den) in want?
pub fn decide_rat(num: PolyId, den: &[(PolyId, u8)], want: u8) -> bool {
    // sign of den
    let mut flip = false;
    for &(f, e) in den {
        if e % 2 == 1 {
            let m = sign3_poly(f, NEG | POS);
            if m == NEG {
                flip = !flip;
            } else if m == ZERO {
                unsupported("division by a value that may be zero");
            }
        }
    }
    let want = if flip { flip_mask(want) } else { want };
    decide_poly(num, want)
}

/// full three-way sign of a polynomial (forks as needed)
pub fn sign3_poly(p: PolyId, _hint: u8) -> u8 {
    if decide_poly(p, POS) {
        POS
    } else if decide_poly(p, NEG) {
        NEG
    } else {
        ZERO
    }
}

pub fn decide_poly(p: PolyId, want: u8) -> bool {
    // square-root elimination
    if let Some(r) = sqrt_split(p) {
        let m = r;
        return m & want != 0;
    }
    let n = ARENA.with(|a| a.borrow_mut().norm(p));
    match n {
        Norm::Const(m) => m & want != 0,
        Norm::Lex { l, s } => match want & ALL {
            0 => false,
            ALL => true,
            ZERO => decide_poly(l, ZERO) && decide_poly(s, ZERO),
            w if w & ZERO != 0 || w == (NEG | POS) => !decide_poly(p, ALL & !w),
            w => {
                if decide_poly(l, w) {
                    true
                } else if decide_poly(l, flip_mask(w)) {
                    false
                } else {
                    decide_poly(s, w)
                }
            }
        },
        Norm::Same { q, flip } => {
            let w = if flip { flip_mask(want) } else { want };
            if w & ALL == ALL {
                return true;
            }
            if w == 0 {
                return false;
            }
            // the sign of a perfect square is decided through its root
            let root = ARENA.with(|a| {
                let a = &mut *a.borrow_mut();
                if let Some(r) = a.sq_memo.get(&q) {
                    return *r;
                }
                let r = if a.nonneg.contains_key(&q) { None } else { a.p(q).square_root().map(|s| a.poly(s)) };
                a.sq_memo.insert(q, r);
                r
            });
            if let Some(r) = root {
                if w & (POS | ZERO) == POS | ZERO {
                    return true;
                }
                if w & (POS | ZERO) == 0 {
                    return false;
                }
                return decide_poly(r, if w & POS != 0 { POS | NEG } else { ZERO });
            }
            with_session(|s| s.decide(q, w))
        }
        Norm::Shift { q, flip } => {
            let w = want & (NEG | POS);
            if w == (NEG | POS) {
                return true;
            }
            if w == 0 {
                return false;
            }
            // unflipped: p>0 <=> q>=0. flipped: q is -(rest-up): p>0 <=> q<=0
            let posmask = if flip { NEG | ZERO } else { POS | ZERO };
            let pos = with_session(|s| s.decide(q, posmask));
            pos == (w == POS)
        }
    }
}

/// sign mask of p already known on this path
pub fn known_mask(p: PolyId) -> u8 {
    let n = ARENA.with(|a| a.borrow_mut().norm(p));
    let get = |q: PolyId| {
        with_session(|s| {
            let mut k = s.fact(q);
            if k == ALL {
                let (lo, hi) = ARENA.with(|a| a.borrow_mut().range(q));
                if lo.map_or(false, |l| l.is_positive()) {
                    k = POS;
                }
                if hi.map_or(false, |h| h.is_negative()) {
                    k = NEG;
                }
            }
            if k & ZERO != 0 && k & POS != 0 {
                if let Some(cs) = ARENA.with(|a| a.borrow().nonneg.get(&q).cloned()) {
                    if cs.iter().any(|&c| s.fact(c) & ZERO == 0) {
                        k = POS;
                    }
                }
            }
            k
        })
    };
    match n {
        Norm::Const(m) => m,
        Norm::Same { q, flip } => {
            let k = get(q);
            if flip {
                flip_mask(k)
            } else {
                k
            }
        }
        Norm::Shift { .. } => NEG | POS,
        Norm::Lex { l, s } => match known_mask(l) {
            m @ (NEG | POS) => m,
            ZERO => known_mask(s),
            m if m & ZERO == 0 => m,
            m => m | known_mask(s),
        },
    }
}

/// if p contains sqrt variables in at most two square-root monomial groups, decide its sign exactly
fn sqrt_split(p: PolyId) -> Option<u8> {
    let groups = ARENA.with(|a| {
        let a = a.borrow();
        if a.sqrt_vars.is_empty() {
            return None;
        }
        let poly = a.p(p);
        if !a.sqrt_vars.iter().any(|&v| poly.uses(v)) {
            return None;
        }
        let mut g: BTreeMap<Vec<usize>, Vec<(Mono, Q)>> = Default::default();
        for (m, c) in &poly.t {
            let key: Vec<usize> = a.sqrt_vars.iter().cloned().filter(|&v| m[v] > 0).collect();
            let mut m2 = *m;
            for &v in &key {
                m2[v] = 0;
            }
            g.entry(key).or_default().push((m2, c.clone()));
        }
        Some(g)
    })?;
    if groups.len() > 2 {
        return None;
    }
    let mut gs: Vec<(PolyId, PolyId, Vec<PolyId>)> = vec![]; // (coefficient poly, radicand product, radicands)
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        for (k, mut ts) in groups {
            ts.sort_by(|x, y| x.0.cmp(&y.0));
            let c = a.poly(Poly { t: ts });
            let mut r = a.poly(Poly::constant(Q::one()));
            let mut rs = vec![];
            for v in k {
                let s = a.vars[v].sqrt_of.unwrap();
                rs.push(s);
                r = a.mulp(r, s);
            }
            gs.push((c, r, rs));
        }
    });
    // sign of c * sqrt(r): zero if r is zero
    let sgn = |c: PolyId, rs: &[PolyId]| -> u8 {
        for &r in rs {
            if !decide_poly(r, POS) {
                return ZERO;
            }
        }
        sign3_poly(c, ALL)
    };
    let s1 = sgn(gs[0].0, &gs[0].2);
    if gs.len() == 1 {
        return Some(s1);
    }
    let s2 = sgn(gs[1].0, &gs[1].2);
    if s1 == ZERO {
        return Some(s2);
    }
    if s2 == ZERO || s1 == s2 {
        return Some(s1);
    }
    // opposite signs: compare c1^2 r1 with c2^2 r2
    let d = ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        let c1 = a.mulp(gs[0].0, gs[0].0);
        let l = a.mulp(c1, gs[0].1);
        let c2 = a.mulp(gs[1].0, gs[1].0);
        let r = a.mulp(c2, gs[1].1);
        let d = a.p(l).sub(&a.p(r));
        a.poly(d)
    });
    let m = sign3_poly(d, ALL);
    Some(match m {
        POS => s1,
        NEG => s2,
        _ => ZERO,
    })
}

/// assert sign(p) in mask without forking
pub fn assume_poly(p: PolyId, want: u8) {
    let n = ARENA.with(|a| a.borrow_mut().norm(p));
    let (q, w) = match n {
        Norm::Lex { .. } => {
            if !decide_poly(p, want) {
                std::panic::panic_any(PathAbort("assumption"));
            }
            return;
        }
        Norm::Const(m) => {
            if m & want == 0 {
                std::panic::panic_any(PathAbort("assumption"));
            }
            return;
        }
        Norm::Same { q, flip } => (q, if flip { flip_mask(want) } else { want }),
        Norm::Shift { q, flip } => {
            let w = want & (NEG | POS);
            if w == (NEG | POS) {
                return;
            }
            let posmask = if flip { NEG | ZERO } else { POS | ZERO };
            (q, if w == POS { posmask } else { ALL & !posmask })
        }
    };
    with_session(|s| {
        let known = s.fact(q) & w;
        if known == 0 {
            std::panic::panic_any(PathAbort("assumption"));
        }
        s.set_fact(q, known);
        s.path.pc.push((q, known));
        if let Some(wt) = s.path.witness.clone() {
            let ok = ARENA.with(|a| s.eval_mask(&a.borrow(), q, &wt)).map(|m| m & known != 0).unwrap_or(false);
            if !ok {
                s.path.witness = None;
                s.path.need_witness = true;
            }
        }
    });
}

/// unconstrained non-deterministic choice 0..n
pub fn choose(n: u32) -> u32 {
    let r = if active() {
        let c = if n <= 1 { 0 } else { with_session(|s| s.choose(n)) };
        with_session(|s| s.path.choices.push(c));
        c
    } else {
        FORCED.with(|f| {
            let mut f = f.borrow_mut();
            match f.as_mut() {
                Some((v, i, _, _)) => {
                    let c = v.get(*i).cloned().unwrap_or(0);
                    *i += 1;
                    let order = CONC_ORDER.with(|o| o.get());
                    CONC_REC.with(|r| r.borrow_mut().push((n, order, c)));
                    c
                }
                None => 0,
            }
        })
    };
    if r >= n.max(1) {
        0
    } else {
        r
    }
}

/// a named scenario choice (recorded for replay)
pub fn pick(name: &str, n: u32) -> u32 {
    let c = choose(n);
    if active() {
        with_session(|s| s.path.picks.push((name.to_string(), c)));
    } else {
        CONC_OBS.with(|o| o.borrow_mut().2.push((name.to_string(), c)));
    }
    c
}

/// which element of a container with n elements is visited first; (front, reversed)
pub fn order_choice(n: usize) -> (usize, bool) {
    if n <= 1 {
        return (0, false);
    }
    if active() {
        let (left, rev) = with_session(|s| {
            s.shared.stats.order_points.fetch_add(1, Ordering::Relaxed);
            (s.path.order_left, s.shared.cfg.order_reverse)
        });
        if left == 0 {
            return (0, rev);
        }
        with_session(|s| s.path.order_fork = true);
        let c = choose(n as u32);
        with_session(|s| {
            s.path.order_fork = false;
            if c != 0 {
                s.path.order_left -= 1;
            }
        });
        (c as usize, rev)
    } else {
        let st = FORCED.with(|f| f.borrow().as_ref().map(|x| (x.2, x.3)));
        match st {
            None => (0, false),
            Some((0, rev)) => (0, rev),
            Some((_, rev)) => {
                CONC_ORDER.with(|o| o.set(true));
                let c = choose(n as u32);
                CONC_ORDER.with(|o| o.set(false));
                if c != 0 {
                    FORCED.with(|f| {
                        if let Some(x) = f.borrow_mut().as_mut() {
                            x.2 -= 1
                        }
                    });
                }
                (c as usize, rev)
            }
        }
    }
}

pub fn reached(tag: &'static str) {
    if active() {
        with_session(|s| s.path.reach.push(tag));
    } else {
        CONC_OBS.with(|o| o.borrow_mut().0.push(tag));
    }
}

pub fn new_var(name: &str, lo: Option<Q>, hi: Option<Q>, gran: Option<u32>) -> usize {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        if let Some(&i) = a.var_by_name.get(name) {
            return i;
        }
        let i = a.vars.len();
        if i >= MAXV {
            unsupported("too many symbolic variables");
        }
        a.vars.push(Var { name: name.to_string(), lo, hi, gran, sqrt_of: None });
        a.var_by_name.insert(name.to_string(), i);
        // pad witness
        i
    })
}

// ------------------------------------------------------------------ exploration driver

impl Session {
    /// turn the path witness into grid values; returns (values, on_grid)
    fn final_witness(&mut self) -> Option<(Vec<Q>, bool)> {
        if self.path.witness.is_none() {
            self.path.need_witness = true;
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.ensure_witness())).unwrap_or(false);
            if !ok {
                // maybe the model is irrational: snap below starting from nothing
                let pc = self.path.pc.clone();
                if let Res::Unsat | Res::Unknown = self.query(&pc, &[], false) {
                    return None;
                }
                return self.snap(None);
            }
        }
        let w = self.path.witness.clone().unwrap();
        // 1. round and evaluate
        if let Some(g) = self.round_ok(&w) {
            return Some((g, true));
        }
        self.snap(Some(w))
    }
    fn round_ok(&self, w: &[Q]) -> Option<Vec<Q>> {
        ARENA.with(|a| {
            let a = a.borrow();
            let mut g = padded(&a, w);
            for v in 0..a.vars.len() {
                if a.vars[v].sqrt_of.is_some() {
                    continue;
                }
                if let Some(k) = a.vars[v].gran {
                    let s = Q::from_integer(BigInt::one() << (k as usize));
                    g[v] = (&g[v] * &s).round() / s;
                } else {
                    g[v] = qf(qtof(&g[v]));
                }
                if a.vars[v].lo.as_ref().map_or(false, |l| &g[v] < l) || a.vars[v].hi.as_ref().map_or(false, |h| &g[v] > h) {
                    return None;
                }
            }
            for (p, m) in &self.path.pc {
                match self.eval_mask(&a, *p, &g) {
                    Some(x) if x & m != 0 => {}
                    _ => return None,
                }
            }
            Some(g)
        })
    }
    fn snap(&mut self, w: Option<Vec<Q>>) -> Option<(Vec<Q>, bool)> {
        let (inputs, grans): (Vec<usize>, Vec<Option<u32>>) = ARENA.with(|a| {
            let a = a.borrow();
            let i: Vec<usize> = (0..a.vars.len()).filter(|&v| a.vars[v].sqrt_of.is_none()).collect();
            let g = i.iter().map(|&v| a.vars[v].gran).collect();
            (i, g)
        });
        let pc = self.path.pc.clone();
        let mut eqs: Vec<(usize, Q)> = vec![];
        let mut cur = w.clone();
        let mut ok = true;
        for (idx, &v) in inputs.iter().enumerate() {
            let k = grans[idx].unwrap_or(40);
            let s = Q::from_integer(BigInt::one() << (k as usize));
            let base = match &cur {
                Some(c) if v < c.len() => c[v].clone(),
                _ => ARENA.with(|a| default_val(&a.borrow().vars[v])),
            };
            let mut cands: Vec<Q> = vec![];
            // coarse values first: they make equalities over other variables easier to meet
            for kk in [0usize, 1, 2, 4, k as usize] {
                let ss = Q::from_integer(BigInt::one() << kk);
                if kk > k as usize {
                    continue;
                }
                cands.push((&base * &ss).floor() / &ss);
                cands.push((&base * &ss).ceil() / &ss);
            }
            let fl = (&base * &s).floor();
            for d in -2i64..=2 {
                cands.push((&fl + qi(d)) / &s);
            }
            let mut seen = vec![];
            let mut done = false;
            for c in cands {
                if seen.contains(&c) {
                    continue;
                }
                seen.push(c.clone());
                eqs.push((v, c));
                match self.query(&pc, &eqs, true) {
                    Res::Sat(m) => {
                        cur = m.or(cur);
                        done = true;
                        break;
                    }
                    _ => {
                        eqs.pop();
                    }
                }
            }
            if !done {
                ok = false;
                break;
            }
        }
        if ok {
            let n = ARENA.with(|a| a.borrow().vars.len());
            let mut g: Vec<Q> = vec![Q::zero(); n];
            for (v, q) in eqs {
                g[v] = q;
            }
            return Some((g, true));
        }
        w.map(|w| (w, false))
    }
}

pub enum Outcome {
    Done,
    Pruned,
    Violation(String),
    Unsupported(String),
}

fn worker(shared: Arc<Shared>, f: Arc<dyn Fn() + Send + Sync>) {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
    loop {
        let (level, work) = {
            let mut g = shared.queue.lock().unwrap();
            loop {
                if shared.stop.load(Ordering::Relaxed) {
                    return;
                }
                if let Some(w) = g.0.pop() {
                    g.1 += 1;
                    break w;
                }
                if g.1 == 0 {
                    shared.cv.notify_all();
                    return;
                }
                g = shared.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
            }
        };
        let cut = run_path(&shared, work, &f);
        if cut {
            let c = &shared.stats.cut;
            let _ = c.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |x| Some(if x == 0 { level as u64 + 1 } else { x.min(level as u64 + 1) }));
        }
        let mut g = shared.queue.lock().unwrap();
        g.1 -= 1;
        let n = shared.stats.paths.fetch_add(1, Ordering::Relaxed) + 1;
        let timeup = shared.cfg.deadline.map_or(false, |d| Instant::now() > d);
        if timeup || (shared.cfg.max_paths > 0 && n >= shared.cfg.max_paths) {
            if !g.0.is_empty() || g.1 > 0 {
                shared.stats.truncated.fetch_max(g.0.len() as u64 + g.1 as u64, Ordering::Relaxed);
                shared.stop.store(true, Ordering::Relaxed);
            }
        }
        shared.cv.notify_all();
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else {
            String::new()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} @ {}", msg, loc));
        if std::env::var("SYM_BT").is_ok() {
            eprintln!("{} @ {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// split the inputs into single values, and leave the rest of the path to an execution on that value, where floating
/// point is what it is on the machine
pub fn concretize() {
    if !active() {
        return;
    }
    let vars: Vec<(usize, String)> = ARENA.with(|a| a.borrow().vars.iter().enumerate().filter(|(_, v)| v.sqrt_of.is_none()).map(|(i, v)| (i, v.name.clone())).collect());
    let nv = ARENA.with(|a| a.borrow().vars.len());
    with_session(|s| {
        let pc = s.path.pc.clone();
        let mut models: Vec<Vec<Q>> = vec![];
        if let Some(w) = s.path.witness.clone() {
            let w = ARENA.with(|a| padded(&a.borrow(), &w));
            if s.on_grid(&w) {
                models.push(w);
            }
        }
        if vars.is_empty() {
            models.push(vec![]);
        }
        while vars.len() > 0 && s.path.pinned < nv {
            match s.query_inc(&pc, &models) {
                Some(Res::Sat(Some(w))) => models.push(w),
                Some(Res::Unsat) => break,
                _ => unsupported("the inputs of a path could not be split into single values"),
            }
        }
        s.path.conc = Some(models.iter().map(|w| vars.iter().map(|(v, n)| (n.clone(), qtof(&w[*v]))).collect()).collect());
    });
    std::panic::panic_any(PathAbort("concrete"));
}

/// one execution on concrete inputs, with the choices given; other choices are queued
fn run_conc(shared: &Arc<Shared>, vals: Arc<Vec<(String, f64)>>, choices: Vec<u32>, f: &Arc<dyn Fn() + Send + Sync>) {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
    crate::collections::reset_lists();
    VALS.with(|v| *v.borrow_mut() = vals.iter().cloned().collect());
    let k = choices.len();
    FORCED.with(|x| *x.borrow_mut() = Some((choices, 0, shared.cfg.order_budget, shared.cfg.order_reverse)));
    CONC_STEPS.with(|c| c.set((0, shared.cfg.step_limit)));
    CONC_REC.with(|r| r.borrow_mut().clear());
    CONC_OBS.with(|o| *o.borrow_mut() = (vec![], 0, vec![]));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    FORCED.with(|x| *x.borrow_mut() = None);
    CONC_ORDER.with(|o| o.set(false));
    let rec = CONC_REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let (reach, checks, picks) = CONC_OBS.with(|o| std::mem::take(&mut *o.borrow_mut()));
    let taken: Vec<u32> = rec.iter().map(|x| x.2).collect();
    {
        let mut g = shared.queue.lock().unwrap();
        let mut dev = 0;
        for (i, (n, order, c)) in rec.iter().enumerate() {
            if i >= k {
                for alt in 1..*n {
                    let mut v = taken[..i].to_vec();
                    v.push(alt);
                    g.0.push(dev + *order as usize, Work { prefix: vec![], witness: None, conc: Some((vals.clone(), v)) });
                    shared.stats.forks.fetch_add(1, Ordering::Relaxed);
                }
            }
            if *order && *c != 0 {
                dev += 1;
            }
        }
    }
    let st = &shared.stats;
    st.checks.fetch_add(checks, Ordering::Relaxed);
    st.conc.fetch_add(1, Ordering::Relaxed);
    let viol = match r {
        Ok(()) => None,
        Err(e) => {
            if e.downcast_ref::<PathAbort>().is_some() {
                st.pruned.fetch_add(1, Ordering::Relaxed);
                return;
            }
            Some(last_panic())
        }
    };
    {
        let mut g = shared.reach.lock().unwrap();
        for t in reach {
            *g.entry(t.to_string()).or_insert(0) += 1;
        }
    }
    match viol {
        None => {
            st.completed.fetch_add(1, Ordering::Relaxed);
            st.max_steps.fetch_max(CONC_STEPS.with(|c| c.get().0), Ordering::Relaxed);
            shared.traces.lock().unwrap().push(Trace { vals: vals.to_vec(), choices: taken, picks });
        }
        Some(m) => {
            let msg = match m.strip_prefix("CHECK: ") {
                Some(x) => x.to_string(),
                None => format!("panic: {}", m),
            };
            let mut g = shared.findings.lock().unwrap();
            g.push(Finding { msg, model: vals.iter().map(|(n, v)| (n.clone(), v.to_string(), *v)).collect(), on_grid: true, choices: taken, picks, has_model: true });
            if g.iter().filter(|f| f.on_grid).count() >= shared.cfg.max_findings {
                shared.stats.truncated.store(1, Ordering::Relaxed);
                shared.stop.store(true, Ordering::Relaxed);
            }
        }
    }
}

/// was it cut by the deadline?
fn run_path(shared: &Arc<Shared>, work: Work, f: &Arc<dyn Fn() + Send + Sync>) -> bool {
    if let Some((vals, choices)) = work.conc {
        run_conc(shared, vals, choices, f);
        return false;
    }
    let mut cut = false;
    let depth0 = work.prefix.len();
    // every path starts from an empty arena, so that variable and polynomial identities (and with them the
    // recorded decisions) depend on the path prefix only
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
    crate::collections::reset_lists();
    // keep solver and cache across paths of this thread
    let (solver, inc) = KEPT.with(|k| k.borrow_mut().take().unwrap_or((None, None)));
    let qcache = HashMap::new();
    let sess = Session {
        shared: shared.clone(),
        path: PathCtx {
            pos: 0,
            need_witness: work.witness.is_none(),
            witness: work.witness,
            prefix: work.prefix,
            facts: HashMap::new(),
            pc: vec![],
            base_len: depth0,
            order_left: shared.cfg.order_budget,
            steps: 0,
            checks: 0,
            choices: vec![],
            picks: vec![],
            reach: vec![],
            violation: None,
            pinned: 0,
            conc: None,
            order_fork: false,
            pin_tried: usize::MAX,
            pin_wait: 0,
            alts: vec![],
        },
        solver,
        qcache,
        inc,
    };
    SESSION.with(|s| *s.borrow_mut() = Some(sess));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    let mut sess = SESSION.with(|s| s.borrow_mut().take().unwrap());
    let st = &shared.stats;
    if let Some(vals) = sess.path.conc.take() {
        KEPT.with(|k| *k.borrow_mut() = Some((sess.solver.take(), sess.inc.take())));
        let choices = sess.path.choices.clone();
        let level = (shared.cfg.order_budget - sess.path.order_left) as usize;
        drop(sess);
        let mut g = shared.queue.lock().unwrap();
        for v in vals {
            g.0.push(level, Work { prefix: vec![], witness: None, conc: Some((Arc::new(v), choices.clone())) });
        }
        return false;
    }
    let outcome = match r {
        Ok(()) => match sess.path.violation.take() {
            Some(v) => Outcome::Violation(v),
            None => Outcome::Done,
        },
        Err(e) => {
            if let Some(PathAbort(why)) = e.downcast_ref::<PathAbort>() {
                if *why == "deadline" {
                    st.truncated.fetch_add(1, Ordering::Relaxed);
                    cut = true;
                }
                match sess.path.violation.take() {
                    Some(v) => Outcome::Violation(v),
                    None => Outcome::Pruned,
                }
            } else {
                let m = last_panic();
                if m.contains("UNSUPPORTED") || m.contains("ENGINE:") {
                    Outcome::Unsupported(m)
                } else {
                    Outcome::Violation(format!("panic: {}", m))
                }
            }
        }
    };
    st.checks.fetch_add(sess.path.checks, Ordering::Relaxed);
    st.max_pc.fetch_max(sess.path.pc.len() as u64, Ordering::Relaxed);
    match outcome {
        Outcome::Pruned => {
            st.pruned.fetch_add(1, Ordering::Relaxed);
        }
        Outcome::Unsupported(m) => {
            st.unsupported.fetch_add(1, Ordering::Relaxed);
            *shared.unsupported_msgs.lock().unwrap().entry(m).or_insert(0) += 1;
        }
        Outcome::Done | Outcome::Violation(_) => {
            let viol = if let Outcome::Violation(m) = &outcome { Some(m.clone()) } else { None };
            {
                let mut g = shared.reach.lock().unwrap();
                for t in &sess.path.reach {
                    *g.entry(t.to_string()).or_insert(0) += 1;
                }
            }
            SESSION.with(|s| *s.borrow_mut() = None);
            let mut fw = sess.final_witness();
            if fw.is_none() && viol.is_some() && sess.all_int(&sess.path.pc) {
                // a violation is worth a long look at whether the path exists
                let pc = sess.path.pc.clone();
                match sess.query_raw(&pc, &[], true, true, 20000) {
                    Res::Unsat => {
                        st.pruned.fetch_add(1, Ordering::Relaxed);
                        KEPT.with(|k| *k.borrow_mut() = Some((sess.solver.take(), sess.inc.take())));
                        return false;
                    }
                    Res::Sat(Some(w)) => fw = Some((w, true)),
                    _ => {}
                }
            }
            let names: Vec<(usize, String)> = ARENA.with(|a| {
                a.borrow().vars.iter().enumerate().filter(|(_, v)| v.sqrt_of.is_none()).map(|(i, v)| (i, v.name.clone())).collect()
            });
            match viol {
                None => {
                    st.completed.fetch_add(1, Ordering::Relaxed);
                    st.max_steps.fetch_max(sess.path.steps, Ordering::Relaxed);
                    match fw {
                        Some((g, true)) => {
                            let vals: Vec<(String, f64)> = names.iter().map(|(i, n)| (n.clone(), g.get(*i).map(qtof).unwrap_or(0.0))).collect();
                            let mut smp = shared.samples.lock().unwrap();
                            if smp.len() < 4 {
                                let pc = ARENA.with(|a| {
                                    let a = &mut *a.borrow_mut();
                                    sess.path.pc.iter().take(40).map(|(p, m)| {
                                        let s = a.smt_poly(*p);
                                        mask_smt(&s, *m)
                                    }).collect::<Vec<_>>().join(" ")
                                });
                                smp.push(format!("path with {} constraints, witness {:?}: {}", sess.path.pc.len(), vals, pc.chars().take(600).collect::<String>()));
                            }
                            drop(smp);
                            shared.traces.lock().unwrap().push(Trace { vals, choices: sess.path.choices.clone(), picks: sess.path.picks.clone() });
                        }
                        _ => {
                            st.nogrid.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                }
                Some(msg) => {
                    let (model, on_grid, has) = match &fw {
                        Some((g, og)) => (
                            names.iter().map(|(i, n)| { let q = g.get(*i).cloned().unwrap_or_else(Q::zero); (n.clone(), q.to_string(), qtof(&q)) }).collect(),
                            *og,
                            true,
                        ),
                        None => (vec![], false, false),
                    };
                    let mut g = shared.findings.lock().unwrap();
                    if on_grid || st.offgrid.fetch_add(1, Ordering::Relaxed) < 6 {
                        g.push(Finding { msg, model, on_grid, choices: sess.path.choices.clone(), picks: sess.path.picks.clone(), has_model: has });
                    }
                    if g.iter().filter(|f| f.on_grid).count() >= shared.cfg.max_findings {
                        shared.stats.truncated.store(1, Ordering::Relaxed);
                        shared.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        }
    }
    KEPT.with(|k| *k.borrow_mut() = Some((sess.solver.take(), sess.inc.take())));
    cut
}

thread_local! {
    static KEPT: RefCell<Option<(Option<Solver>, Option<Inc>)>> = RefCell::new(None);
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn explore(cfg: Config, f: Arc<dyn Fn() + Send + Sync>) -> Arc<Shared> {
    let threads = cfg.threads;
    let shared = Arc::new(Shared {
        queue: Mutex::new((
            {
                let mut q = Queue { rng: seed(), ..Queue::default() };
                q.push(0, Work { prefix: vec![], witness: None, conc: None });
                q
            },
            0,
        )),
        cv: Condvar::new(),
        stats: Stats::default(),
        findings: Mutex::new(vec![]),
        traces: Mutex::new(vec![]),
        unsupported_msgs: Mutex::new(BTreeMap::new()),
        reach: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        cfg,
    });
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let s = shared.clone();
            let f = f.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(s, f)).unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    if let Some(k) = shared.queue.lock().unwrap().0.first() {
        let c = &shared.stats.cut;
        let x = c.load(Ordering::Relaxed);
        c.store(if x == 0 { k as u64 + 1 } else { x.min(k as u64 + 1) }, Ordering::Relaxed);
    }
    shared
}

/// record a violation on the current path and stop it
pub fn fail(msg: String) -> ! {
    with_session(|s| s.path.violation = Some(msg));
    std::panic::panic_any(PathAbort("violation"))
}

pub fn count_check() {
    if active() {
        with_session(|s| s.path.checks += 1);
    } else {
        CONC_OBS.with(|o| o.borrow_mut().1 += 1);
    }
}
