//! native side: runs the scenarios on concrete inputs against the real crate
#![allow(dead_code, unused_imports)]
pub mod h;
#[path = "../../scenarios/mod.rs"]
mod scenarios;

use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Slot {
    cur: Mutex<Option<(usize, Instant)>>,
    dead: std::sync::atomic::AtomicBool,
}

fn one(s: &scenarios::Scn, it: &Value) -> Value {
    let runs = it["runs"].as_u64().unwrap_or(1);
    h::VALS.with(|v| {
        *v.borrow_mut() = it["vals"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_str().unwrap().parse::<f64>().unwrap())).collect()
    });
    h::PICKS.with(|p| {
        p.borrow_mut().0 = it["picks"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap() as u32))
            .collect()
    });
    let mut bad = 0;
    let mut msg = String::new();
    let mut out = 0;
    let mut n = 0;
    for _ in 0..runs {
        n += 1;
        h::reset();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)()));
        if let Err(e) = r {
            if e.downcast_ref::<h::Outside>().is_some() {
                out += 1;
            } else {
                bad += 1;
                if msg.is_empty() {
                    msg = h::LAST.with(|l| l.borrow().clone());
                }
                if it["first"].as_bool().unwrap_or(true) {
                    break;
                }
            }
        }
    }
    let o = if bad > 0 {
        "violation"
    } else if out == n {
        "outside"
    } else {
        "ok"
    };
    json!({"outcome": o, "msg": msg, "bad": bad, "runs": n})
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else {
            String::new()
        };
        h::LAST.with(|l| *l.borrow_mut() = format!("{} @ {}", msg, loc));
    }));
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[1]).unwrap();
    let secs: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let start = Instant::now();
    let items: Arc<Vec<Value>> = Arc::new(serde_json::from_str::<Value>(&t).unwrap().as_array().unwrap().clone());
    let n = items.len();
    let results: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![Value::Null; n]));
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let spawn = {
        let (items, results, next, done) = (items.clone(), results.clone(), next.clone(), done.clone());
        move || {
            let slot = Arc::new(Slot { cur: Mutex::new(None), dead: Default::default() });
            let s2 = slot.clone();
            let (items, results, next, done) = (items.clone(), results.clone(), next.clone(), done.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let all = scenarios::all();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= items.len() {
                            return;
                        }
                        *s2.cur.lock().unwrap() = Some((i, Instant::now()));
                        let id = items[i]["scenario"].as_str().unwrap();
                        let r = match all.iter().find(|s| s.id == id) {
                            Some(s) => one(s, &items[i]),
                            None => json!({"outcome": "unknown-scenario"}),
                        };
                        let mut c = s2.cur.lock().unwrap();
                        if s2.dead.load(SeqCst) {
                            return;
                        }
                        *c = None;
                        results.lock().unwrap()[i] = r;
                        done.fetch_add(1, SeqCst);
                    }
                })
                .unwrap();
            slot
        }
    };
    let mut slots: Vec<Arc<Slot>> = (0..8).map(|_| spawn()).collect();
    let mut hangs = 0;
    while done.load(SeqCst) < n {
        std::thread::sleep(Duration::from_millis(5));
        for k in 0..slots.len() {
            let hung = {
                let c = slots[k].cur.lock().unwrap();
                match *c {
                    Some((i, t)) => {
                        let lim = items[i]["timeout"].as_f64().unwrap_or(10.0);
                        if t.elapsed().as_secs_f64() > lim {
                            slots[k].dead.store(true, SeqCst);
                            Some(i)
                        } else {
                            None
                        }
                    }
                    None => None,
                }
            };
            if let Some(i) = hung {
                results.lock().unwrap()[i] = json!({"outcome": "hang", "msg": "no result within the time limit"});
                done.fetch_add(1, SeqCst);
                hangs += 1;
                slots[k] = spawn();
            }
        }
        if hangs >= 6 || start.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    let r = results.lock().unwrap().clone();
    std::fs::write(&a[2], serde_json::to_string(&r).unwrap()).unwrap();
    std::process::exit(0);
}
