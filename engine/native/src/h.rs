//! harness API, native side: the same scenarios on concrete inputs against the real crate, with exact
//! rational arithmetic in the oracles
use num::rational::BigRational;
use std::cell::RefCell;
pub use std::collections::{HashMap, HashSet};

pub type F = f64;
pub const SYMBOLIC: bool = false;

thread_local! {
    static POOL: RefCell<Vec<BigRational>> = RefCell::new(vec![]);
    pub static VALS: RefCell<HashMap<String, f64>> = Default::default();
    pub static PICKS: RefCell<(Vec<(String, u32)>, usize)> = Default::default();
    pub static CHECKS: std::cell::Cell<u64> = std::cell::Cell::new(0);
    pub static LAST: RefCell<String> = RefCell::new(String::new());
}
pub fn reset() {
    POOL.with(|p| p.borrow_mut().clear());
    PICKS.with(|p| p.borrow_mut().1 = 0);
}

#[derive(Clone, Copy)]
pub struct Q(u32);
fn mk(r: BigRational) -> Q {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.push(r);
        Q((p.len() - 1) as u32)
    })
}
fn get(q: Q) -> BigRational {
    POOL.with(|p| p.borrow()[q.0 as usize].clone())
}
macro_rules! op {
    ($t:ident, $f:ident, $o:tt) => {
        impl std::ops::$t for Q {
            type Output = Q;
            fn $f(self, o: Q) -> Q {
                mk(get(self) $o get(o))
            }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
impl std::ops::Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        mk(-get(self))
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        get(*self) == get(*o)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> {
        get(*self).partial_cmp(&get(*o))
    }
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", get(*self))
    }
}

pub fn f(x: f64) -> F {
    x
}
pub fn q(x: F) -> Q {
    match BigRational::from_float(x) {
        Some(r) => mk(r),
        None => fail("a result is not finite".into()),
    }
}
pub fn qi(x: i64) -> Q {
    mk(BigRational::from_integer(x.into()))
}
fn val(name: &str) -> F {
    VALS.with(|v| v.borrow().get(name).cloned().unwrap_or(0.0))
}
pub fn var(name: &str, lo: i32, hi: i32) -> F {
    let v = val(name);
    assume(v >= lo as f64 && v <= hi as f64 && v.fract() == 0.0);
    v
}
pub fn varg(name: &str, lo: f64, hi: f64, gran: u32) -> F {
    let v = val(name);
    assume(v >= lo && v <= hi && (v * (1u64 << gran) as f64).fract() == 0.0);
    v
}
pub fn free(name: &str, lo: f64, hi: f64) -> F {
    let v = val(name);
    assume(v >= lo && v <= hi);
    v
}
pub fn concretize() {}
pub fn pick(name: &str, n: u32) -> u32 {
    PICKS.with(|p| {
        let p = &mut *p.borrow_mut();
        let r = match p.0.get(p.1) {
            Some((nm, c)) if nm == name => *c,
            _ => 0,
        };
        p.1 += 1;
        if r < n {
            r
        } else {
            0
        }
    })
}
pub struct Outside;
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Outside)
    }
}
fn zero() -> Q {
    qi(0)
}
pub fn assume_pos(x: Q) {
    assume(x > zero())
}
pub fn assume_nonneg(x: Q) {
    assume(x >= zero())
}
pub fn assume_nonzero(x: Q) {
    assume(x != zero())
}
pub fn assume_zero(x: Q) {
    assume(x == zero())
}
pub fn assume_distinct(a: (F, F), b: (F, F)) {
    assume(a.0 != b.0 || a.1 != b.1)
}
pub fn check(b: bool, msg: &str) {
    CHECKS.with(|c| c.set(c.get() + 1));
    if !b {
        fail(msg.to_string())
    }
}
pub fn fail(msg: String) -> ! {
    panic!("CHECK: {}", msg)
}
pub fn reach(_: &'static str) {}
pub fn attempt<R>(g: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.downcast_ref::<Outside>().is_some() {
                std::panic::resume_unwind(e)
            }
            let m = LAST.with(|l| l.borrow().clone());
            if m.starts_with("CHECK:") {
                std::panic::resume_unwind(e)
            }
            Err(m)
        }
    }
}
/// equal up to rounding
pub fn near(a: Q, b: Q) -> bool {
    use num::{FromPrimitive, One, Signed};
    let (x, y) = (get(a), get(b));
    let mut m = x.abs();
    if y.abs() > m {
        m = y.abs();
    }
    if m < BigRational::one() {
        m = BigRational::one();
    }
    (x - y).abs() <= m * BigRational::from_f64(1e-7).unwrap()
}
/// x lies between a and b, up to rounding
pub fn near_within(a: Q, b: Q, x: Q) -> bool {
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    lo <= x && x <= hi || near(x, lo) || near(x, hi)
}
/// everything the value feeds to a hasher
pub fn same_hash<A: std::hash::Hash, B: std::hash::Hash>(a: &A, b: &B) -> bool {
    use std::hash::Hasher;
    let (mut x, mut y) = (std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new());
    a.hash(&mut x);
    b.hash(&mut y);
    x.finish() == y.finish()
}
