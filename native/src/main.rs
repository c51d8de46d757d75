#![allow(unused, clippy::all)]
#[path = "../../contracts/sym.rs"] #[macro_use] pub mod sym;
#[path = "../../contracts/dummy.rs"] pub mod dummy;
#[path = "../../contracts/stubs.rs"] pub mod stubs;
#[path = "../../contracts/mk.rs"] pub mod mk;
#[path = "../../contracts/c_note.rs"] pub mod c_note;
#[path = "../../contracts/c_code.rs"] pub mod c_code;
#[path = "../../contracts/c_num.rs"] pub mod c_num;
#[path = "../../contracts/c_index.rs"] pub mod c_index;
#[path = "../../contracts/c_cmp.rs"] pub mod c_cmp;
#[path = "../../contracts/c_rt.rs"] pub mod c_rt;
#[path = "../../contracts/c_scope.rs"] pub mod c_scope;
#[path = "../../contracts/c_idle.rs"] pub mod c_idle;
#[path = "../../contracts/c_slot.rs"] pub mod c_slot;
#[path = "../../contracts/c_color.rs"] pub mod c_color;
#[path = "../../contracts/c_prop.rs"] pub mod c_prop;
mod contracts;
mod spec;
mod sys;
mod interp;
mod programs;
mod util;
mod drive;
use sym::*;

fn all() -> Vec<(&'static str, fn())> { [c_note::ALL, c_code::ALL, c_num::ALL, c_index::ALL, c_cmp::ALL, c_rt::ALL, c_scope::ALL, c_idle::ALL, c_slot::ALL, c_color::ALL, c_prop::ALL].concat() }
fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::thread::Builder::new().stack_size(2 << 30).spawn(move || run(&a)).unwrap().join().unwrap();
}
fn run(a: &[String]) {
    let seed: u64 = arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(a, "--secs").and_then(|x| x.parse().ok()).unwrap_or(5.0);
    contracts::quiet_panics();
    let out = match a[1].as_str() {
        "contract" => {
            let Some((_, f)) = all().into_iter().find(|x| x.0 == a[2]) else { println!("{}", serde_json::json!({"status": "unknown"})); return };
            if let Some(b) = arg(a, "--bytes") {
                let q: Vec<Vec<u8>> = serde_json::from_str::<serde_json::Value>(&std::fs::read_to_string(b).unwrap()).unwrap().as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()).collect();
                let (o, log) = contracts::run_one(f, Src::Queue(q, 0));
                match o {
                    contracts::Out::Fail(m) => serde_json::json!({"status": "fail", "msg": m, "inputs": log}),
                    contracts::Out::Pass => serde_json::json!({"status": "ok"}),
                    contracts::Out::Discard => serde_json::json!({"status": "discard"}),
                }
            } else {
                let max = arg(a, "--max").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
                let (n, ok, d, s, r) = contracts::search(f, seed, secs, max);
                match r {
                    Some((m, log)) => serde_json::json!({"status": "fail", "msg": m, "inputs": log, "evaluations": n}),
                    None => serde_json::json!({"status": "ok", "evaluations": n, "accepted": ok, "distinct": d.len(), "samples": s}),
                }
            }
        }
        "explore" => explore(&a[2], seed, secs),
        "replay" => {
            let n: u64 = arg(a, "--case").unwrap().parse().unwrap();
            let c = programs::case(&a[2], n);
            let c = if a.iter().any(|x| x == "--shrink") { drive::shrink(c, secs) } else { c };
            let (v, c) = drive::run_owned(c);
            if a.iter().any(|x| x == "--show") { eprintln!("{}", drive::describe(&c)) }
            match v {
                drive::Verdict::Fail { turn, msg } => serde_json::json!({"status": "fail", "turn": turn, "msg": msg}),
                drive::Verdict::Discard => serde_json::json!({"status": "discard"}),
                drive::Verdict::Ok { turns, events, .. } => serde_json::json!({"status": "ok", "turns": turns, "events": events}),
            }
        }
        _ => panic!("unknown command"),
    };
    println!("{out}");
}

fn explore(profile: &str, seed: u64, secs: f64) -> serde_json::Value {
    let t = std::time::Instant::now();
    drive::watchdog(25);
    let (mut n, mut discarded, mut turns, mut events) = (0u64, 0u64, 0usize, 0usize);
    let mut distinct = std::collections::HashSet::new();
    let mut samples: Vec<String> = vec![];
    while t.elapsed().as_secs_f64() < secs {
        let k = sys::mix(seed, n) >> 1;
        n += 1;
        drive::CASE.store(k, std::sync::atomic::Ordering::SeqCst);
        let (v, c) = drive::run_owned(programs::case(profile, k));
        match v {
            drive::Verdict::Fail { turn, msg } => {
                let small = drive::shrink(programs::case(profile, k), 20.0);
                let (v, small) = drive::run_owned(small);
                let m = match v { drive::Verdict::Fail { turn, msg } => format!("turn {turn}: {msg}"), _ => msg.clone() };
                return serde_json::json!({"status": "fail", "case": k, "turn": turn, "msg": m, "program": drive::describe(&small), "evaluations": n});
            }
            drive::Verdict::Discard => discarded += 1,
            drive::Verdict::Ok { turns: a, hash, events: b } => { turns += a; events += b; if b > 1 { distinct.insert(hash); } if samples.len() < 2 && b > 3 { samples.push(format!("case {k}: {a} turns, {b} with activity, {} scripts", c.role.entities.iter().map(|e| e.scripts.len()).sum::<usize>())) } }
        }
    }
    serde_json::json!({"status": "ok", "evaluations": n, "discarded": discarded, "distinct": distinct.len(), "turns": turns, "active_turns": events, "samples": samples, "rule": "a run counts as distinct and non-trivial when at least two of its turns did something and no earlier run had the same outcomes, environment calls and states"})
}
