//! The properties as scenarios: the same code runs symbolically (inputs are solver variables, the library is the
//! source of /repo retargeted to symbolic arithmetic) and natively (inputs are a solver witness, the library is /repo).
use crate::h::*;
use std::sync::Arc;

pub struct Scn {
    pub id: String,
    pub prop: &'static str,
    /// 0: quick and thorough, 1: thorough only
    pub tier: u8,
    /// how many times on one path a hash container may start its iteration elsewhere than at its first element
    pub orders: u32,
    /// also with every container iterated backwards
    pub both_orders: bool,
    pub steps: u64,
    /// tags some path must reach
    pub reach: Vec<&'static str>,
    pub bounds: String,
    pub native_runs: u32,
    pub run: Arc<dyn Fn() + Send + Sync>,
}
pub fn scn(prop: &'static str, id: &str, bounds: &str, run: impl Fn() + Send + Sync + 'static) -> Scn {
    Scn {
        id: format!("{}.{}", prop, id),
        prop,
        tier: 0,
        orders: 0,
        both_orders: false,
        steps: 300_000,
        reach: vec![],
        bounds: bounds.to_string(),
        native_runs: 1,
        run: Arc::new(run),
    }
}
impl Scn {
    /// only replayed, for the entries of known_findings.json
    pub fn known(mut self) -> Scn {
        self.tier = 9;
        self
    }
    pub fn thorough(mut self) -> Scn {
        self.tier = 1;
        self
    }
    pub fn orders(mut self, k: u32) -> Scn {
        self.orders = k;
        self.both_orders = true;
        self.native_runs = 8;
        self
    }
    pub fn reach(mut self, r: &[&'static str]) -> Scn {
        self.reach = r.to_vec();
        self
    }
    pub fn steps(mut self, n: u64) -> Scn {
        self.steps = n;
        self
    }
    pub fn runs(mut self, n: u32) -> Scn {
        self.native_runs = n;
        self
    }
}

pub mod cases;
pub mod elements;
pub mod geom;
pub mod interface;
pub mod polylines;
pub mod predicates;
pub mod triang;

pub fn all() -> Vec<Scn> {
    let mut v = vec![];
    predicates::register(&mut v);
    elements::register(&mut v);
    polylines::register(&mut v);
    triang::register(&mut v);
    interface::register(&mut v);
    cases::register(&mut v);
    v
}
