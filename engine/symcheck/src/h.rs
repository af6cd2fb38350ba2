//! harness API, symbolic side
pub use symrt::collections::{HashMap, HashSet};
use symrt::engine;
use symrt::S;

pub type F = S;
/// exact numbers of the oracles
pub type Q = S;
pub const SYMBOLIC: bool = true;

pub fn f(x: f64) -> F {
    S::C(x)
}
pub fn q(x: F) -> Q {
    if x.is_nan() || x.is_infinite() {
        fail("a result is not finite".into());
    }
    x
}
pub fn qi(x: i64) -> Q {
    S::C(x as f64)
}
thread_local! {
    pub static PICKS: std::cell::RefCell<Vec<(String, u32)>> = Default::default();
}
fn concrete(name: &str) -> Option<F> {
    if engine::active() {
        return None;
    }
    Some(S::C(engine::VALS.with(|v| v.borrow().get(name).cloned().unwrap_or(0.0))))
}
/// any integer of [lo, hi]
pub fn var(name: &str, lo: i32, hi: i32) -> F {
    concrete(name).unwrap_or_else(|| symrt::grid_var(name, lo as f64, hi as f64, 0))
}
/// any multiple of 2^-gran in [lo, hi]
pub fn varg(name: &str, lo: f64, hi: f64, gran: u32) -> F {
    concrete(name).unwrap_or_else(|| symrt::grid_var(name, lo, hi, gran))
}
/// any value of [lo, hi]
pub fn free(name: &str, lo: f64, hi: f64) -> F {
    concrete(name).unwrap_or_else(|| symrt::free_var(name, lo, hi))
}
pub fn pick(name: &str, n: u32) -> u32 {
    engine::pick(name, n)
}
/// split the inputs into single values here; nothing when run natively
pub fn concretize() {
    engine::concretize()
}
fn outside() -> ! {
    std::panic::panic_any(engine::PathAbort("assumption"))
}
pub fn assume(b: bool) {
    if !b {
        outside()
    }
}
fn assume_mask(x: Q, m: u8) {
    if engine::active() {
        symrt::assume_sign(x, m)
    } else {
        let S::C(v) = x else { outside() };
        let s = if v > 0.0 { engine::POS } else if v < 0.0 { engine::NEG } else { engine::ZERO };
        assume(s & m != 0)
    }
}
pub fn assume_pos(x: Q) {
    assume_mask(x, engine::POS)
}
pub fn assume_nonneg(x: Q) {
    assume_mask(x, engine::POS | engine::ZERO)
}
pub fn assume_nonzero(x: Q) {
    assume_mask(x, engine::POS | engine::NEG)
}
pub fn assume_zero(x: Q) {
    assume_mask(x, engine::ZERO)
}
pub fn assume_distinct(a: (F, F), b: (F, F)) {
    if engine::active() {
        symrt::assume_distinct(a, b)
    } else {
        assume(a.0 != b.0 || a.1 != b.1)
    }
}
pub fn check(b: bool, msg: &str) {
    engine::count_check();
    if !b {
        fail(msg.to_string())
    }
}
pub fn fail(msg: String) -> ! {
    if engine::active() {
        engine::fail(msg)
    } else {
        panic!("CHECK: {}", msg)
    }
}
pub fn reach(tag: &'static str) {
    engine::reached(tag)
}
/// run library code, turning a panic into an Err with its message
pub fn attempt<R>(g: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.downcast_ref::<engine::PathAbort>().is_some() {
                std::panic::resume_unwind(e)
            }
            let m = engine::last_panic();
            if m.contains("UNSUPPORTED") || m.contains("ENGINE:") || m.contains("STEP-LIMIT") || m.starts_with("CHECK:") {
                std::panic::resume_unwind(e)
            }
            Err(m)
        }
    }
}
/// equal; up to rounding when run natively
pub fn near(a: Q, b: Q) -> bool {
    if engine::active() {
        a == b
    } else {
        let (S::C(x), S::C(y)) = (a, b) else { return false };
        (x - y).abs() <= 1e-7 * x.abs().max(y.abs()).max(1.0)
    }
}
/// x lies between a and b; up to rounding when run natively
pub fn near_within(a: Q, b: Q, x: Q) -> bool {
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    lo <= x && x <= hi || near(x, lo) || near(x, hi)
}
/// everything the value feeds to a hasher
pub fn same_hash<A: std::hash::Hash, B: std::hash::Hash>(a: &A, b: &B) -> bool {
    symrt::collections::words_eq(&symrt::collections::words(a), &symrt::collections::words(b))
}
