//! Native execution of the contract obligations: replays verifier counterexamples and searches for failing inputs.
use crate::sym::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub enum Out { Pass, Discard, Fail(String) }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Discard>() || i.payload().is::<Failed>() { return }
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("panic: {m} at {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()));
    }));
}
thread_local! { pub static LAST: std::cell::RefCell<String> = Default::default(); }
pub fn run_one(f: fn(), src: Src) -> (Out, Vec<String>) {
    SRC.with(|s| *s.borrow_mut() = src);
    LOG.with(|l| l.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(f));
    let log = LOG.with(|l| l.borrow().clone());
    (match r {
        Ok(()) => Out::Pass,
        Err(e) if e.is::<Discard>() => Out::Discard,
        Err(e) => match e.downcast::<Failed>() { Ok(m) => Out::Fail(m.0.clone()), Err(_) => Out::Fail(LAST.with(|l| l.borrow().clone())) },
    }, log)
}
pub fn search(f: fn(), seed: u64, secs: f64, max: u64) -> (u64, u64, std::collections::HashSet<u64>, Vec<String>, Option<(String, Vec<String>)>) {
    use std::hash::{Hash, Hasher};
    let (t, mut n, mut ok) = (Instant::now(), 0, 0);
    let (mut distinct, mut samples) = (std::collections::HashSet::new(), vec![]);
    while n < max && t.elapsed() < Duration::from_secs_f64(secs) {
        let (o, log) = run_one(f, Src::Rng(seed.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(n * 7919)));
        n += 1;
        match o {
            Out::Pass => {
                ok += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new(); log.hash(&mut h); distinct.insert(h.finish());
                if samples.len() < 2 { samples.push(log.join(" ")) }
            }
            Out::Discard => (),
            Out::Fail(m) => return (n, ok, distinct, samples, Some((m, log))),
        }
    }
    (n, ok, distinct, samples, None)
}
