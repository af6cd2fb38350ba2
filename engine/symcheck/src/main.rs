//! symbolic side: runs the scenarios on the crate regenerated from /repo, with an SMT solver deciding every branch
#![allow(dead_code, unused_imports)]
pub mod h;
#[path = "../../scenarios/mod.rs"]
mod scenarios;

use serde_json::{json, Value};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};
use symrt::engine;

fn run(prop: &str, tier: u8, secs: f64, threads: usize, only: Option<&str>) -> Value {
    let t0 = Instant::now();
    let all: Vec<_> = scenarios::all()
        .into_iter()
        .filter(|s| (prop == "*" || s.prop == prop) && s.tier <= tier && only.map_or(true, |o| s.id == o))
        .collect();
    let n = all.len();
    let mut out = vec![];
    let mut again = vec![];
    for (k, s) in all.iter().enumerate() {
        let left = secs - t0.elapsed().as_secs_f64();
        // no scenario may take more than the fair share of its successors allows
        let budget = 2.0 * left / (n - k + 1) as f64;
        let orders: Vec<bool> = if s.both_orders { vec![false, true] } else { vec![false] };
        let no = orders.len() as f64;
        for (oi, rev) in orders.into_iter().enumerate() {
            let v = one(s, tier, if oi == 0 { budget / no } else { budget }, threads, rev);
            // cut before every path in the first order was explored
            if v["cut"].as_u64() == Some(1) && v["findings"].as_array().unwrap().is_empty() {
                again.push((v["wall_s"].as_f64().unwrap(), k, rev, out.len()));
            }
            out.push(v);
        }
    }
    // what the others left over
    let total = again.len();
    for (i, (wall, k, rev, at)) in again.into_iter().enumerate() {
        let share = (secs - t0.elapsed().as_secs_f64()) / (total - i) as f64;
        if share > 1.5 * wall {
            out[at] = one(&all[k], tier, share, threads, rev);
        }
    }
    json!(out)
}

fn one(s: &scenarios::Scn, tier: u8, budget: f64, threads: usize, rev: bool) -> Value {
    let t1 = Instant::now();
    let cfg = engine::Config {
        order_budget: s.orders,
        order_reverse: rev,
        step_limit: s.steps,
        solver_timeout_ms: if tier > 0 { 10000 } else { 3000 },
        max_findings: 12,
        deadline: Some(Instant::now() + Duration::from_secs_f64(budget.max(1.0))),
        threads,
        max_paths: 0,
    };
    let f = s.run.clone();
    let sh = engine::explore(cfg, f);
    let st = &sh.stats;
    let findings: Vec<Value> = sh
        .findings
        .lock()
        .unwrap()
        .iter()
        .map(|f| {
            json!({"msg": f.msg, "on_grid": f.on_grid, "has_model": f.has_model,
                    "vals": f.model.iter().map(|(n, _, v)| (n.clone(), json!(v))).collect::<serde_json::Map<_,_>>(),
                    "exact": f.model.iter().map(|(n, q, _)| (n.clone(), json!(q))).collect::<serde_json::Map<_,_>>(),
                    "picks": f.picks, "choices": f.choices})
        })
        .collect();
    let traces: Vec<Value> = sh
        .traces
        .lock()
        .unwrap()
        .iter()
        .map(|t| {
            json!({"vals": t.vals.iter().map(|(n, v)| (n.clone(), json!(v))).collect::<serde_json::Map<_,_>>(),
                    "picks": t.picks, "choices": t.choices})
        })
        .collect();
    let un: Value = json!(*sh.unsupported_msgs.lock().unwrap());
    let reach: Value = json!(*sh.reach.lock().unwrap());
    let missing: Vec<&str> = s.reach.iter().cloned().filter(|t| !sh.reach.lock().unwrap().contains_key(*t)).collect();
    let v = json!({
        "scenario": s.id, "prop": s.prop, "bounds": s.bounds, "orders": s.orders, "reverse": rev, "native_runs": s.native_runs,
        "paths": st.paths.load(Relaxed), "completed": st.completed.load(Relaxed), "pruned": st.pruned.load(Relaxed),
        "branches": st.branches.load(Relaxed), "forks": st.forks.load(Relaxed), "order_points": st.order_points.load(Relaxed),
        "queries": st.queries.load(Relaxed), "sat": st.sat.load(Relaxed), "unsat": st.unsat.load(Relaxed), "unknown": st.unknown.load(Relaxed),
        "cache_hits": st.cache_hits.load(Relaxed), "solver_s": st.solver_ns.load(Relaxed) as f64 / 1e9,
        "concrete": st.conc.load(Relaxed), "pinned": st.pinned.load(Relaxed), "nogrid": st.nogrid.load(Relaxed), "checks": st.checks.load(Relaxed), "inexact_cmp": st.inexact_cmp.load(Relaxed),
        "unsupported": st.unsupported.load(Relaxed), "truncated": st.truncated.load(Relaxed), "cut": st.cut.load(Relaxed), "max_pc": st.max_pc.load(Relaxed), "max_steps": st.max_steps.load(Relaxed),
        "wall_s": t1.elapsed().as_secs_f64(),
        "findings": findings, "traces": traces, "unsupported_msgs": un, "reach": reach, "missing_reach": missing,
        "samples": *sh.samples.lock().unwrap(),
    });
    eprintln!(
                "  {}{} paths {} completed {} pruned {} concrete {} nogrid {} unsupported {} truncated {} cut {} queries {} unknown {} findings {} checks {} inexact {} {:.1}s missing {:?}",
                s.id, if rev { "/rev" } else { "" },
                st.paths.load(Relaxed), st.completed.load(Relaxed), st.pruned.load(Relaxed), st.conc.load(Relaxed), st.nogrid.load(Relaxed), st.unsupported.load(Relaxed),
                st.truncated.load(Relaxed), st.cut.load(Relaxed), st.queries.load(Relaxed), st.unknown.load(Relaxed), sh.findings.lock().unwrap().len(), st.checks.load(Relaxed), st.inexact_cmp.load(Relaxed),
                t1.elapsed().as_secs_f64(), missing
            );
    v
}

/// concrete re-execution of the regenerated code with the recorded iteration orders
fn forced(items: &Value) -> Value {
    let all = scenarios::all();
    let mut out = vec![];
    for it in items.as_array().unwrap() {
        let id = it["scenario"].as_str().unwrap();
        let s = match all.iter().find(|s| s.id == id) {
            Some(s) => s,
            None => continue,
        };
        engine::VALS.with(|v| *v.borrow_mut() = it["vals"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_str().unwrap().parse::<f64>().unwrap())).collect());
        let choices: Vec<u32> = it["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect();
        let rev = it["reverse"].as_bool().unwrap_or(false);
        engine::FORCED.with(|f| *f.borrow_mut() = Some((choices, 0, s.orders, rev)));
        engine::CONC_STEPS.with(|c| c.set((0, s.steps)));
        let run = s.run.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run()));
        engine::FORCED.with(|f| *f.borrow_mut() = None);
        out.push(match r {
            Ok(()) => json!({"outcome": "ok"}),
            Err(e) => {
                if e.downcast_ref::<engine::PathAbort>().is_some() {
                    json!({"outcome": "outside"})
                } else {
                    json!({"outcome": "violation", "msg": engine::last_panic()})
                }
            }
        });
    }
    json!(out)
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            let v: Vec<Value> = scenarios::all()
                .iter()
                .map(|s| json!({"id": s.id, "prop": s.prop, "tier": s.tier, "bounds": s.bounds}))
                .collect();
            println!("{}", serde_json::to_string(&v).unwrap());
        }
        "run" => {
            let tier = a[3].parse().unwrap();
            let secs = a[4].parse().unwrap();
            let threads = std::env::var("SYM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            let v = run(&a[2], tier, secs, threads, a.get(6).map(|s| s.as_str()));
            std::fs::write(&a[5], serde_json::to_string(&v).unwrap()).unwrap();
        }
        "forced" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let v: Value = serde_json::from_str(&t).unwrap();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || forced(&v)).unwrap();
            println!("{}", serde_json::to_string(&h.join().unwrap()).unwrap());
        }
        _ => panic!("usage"),
    }
    std::process::exit(0);
}
