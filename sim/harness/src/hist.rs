//! Runs per-thread programs under the scheduler and records the history: what the small families share.
use crate::loc::{absorb, config, Share};
use crate::rng::{hash_str, mix};
use crate::spec::{RunResult, Spec};
use simstd::sim::{self, Kind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
#[allow(dead_code)]
pub struct Rec<G> {
    pub op: usize,
    pub thread: usize,
    pub start: u64,
    pub end: u64,
    /// Simulated time the call took.
    pub took_us: u64,
    /// None: panicked.
    pub got: Result<G, String>,
}

/// `ops`: (thread, operation). Returns the completed operations in order of completion and whether the run
/// had to be stopped.
pub fn run<S: 'static, O: Clone + 'static, G: Clone + 'static>(
    spec: &Spec,
    res: &mut RunResult,
    shared: Arc<Share<S>>,
    ops: &[(usize, O)],
    threads: usize,
    bounds: (u64, u64),
    perform: fn(&S, usize, &O) -> G,
    show: fn(&O) -> String,
    show_got: fn(&G) -> String,
) -> (Vec<Rec<G>>, bool) {
    let history: Arc<Share<Mutex<Vec<Rec<G>>>>> = Arc::new(Share(Mutex::new(vec![])));
    let clock = Arc::new(AtomicU64::new(1));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..threads {
        let mine: Vec<(usize, O)> = ops
            .iter()
            .enumerate()
            .filter(|(n, o)| o.0 == t && !spec.drop_ops.contains(&(*n as u32)))
            .map(|(n, o)| (n, o.1.clone()))
            .collect();
        let (shared, history, clock) = (Arc::clone(&shared), Arc::clone(&history), Arc::clone(&clock));
        let mine = Share(mine);
        let seed = spec.seed;
        bodies.push(Box::new(move || {
            let mine = mine;
            let shared = shared;
            let history = history;
            for (n, op) in &mine.0 {
                sim::point(Kind::OpBegin);
                idle(seed, *n);
                let start = clock.fetch_add(1, Ordering::Relaxed);
                let t0 = sim::now_us();
                let g = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(&shared.0, *n, op))) {
                    Ok(g) => Ok(g),
                    Err(p) => {
                        if p.is::<sim::Stopped>() {
                            std::panic::resume_unwind(p);
                        }
                        Err(sim::take_panic().unwrap_or_else(|| "panic".into()))
                    }
                };
                let took_us = sim::now_us() - t0;
                let end = clock.fetch_add(1, Ordering::Relaxed);
                history.0.lock().unwrap().push(Rec { op: *n, thread: t, start, end, took_us, got: g });
                sim::point(Kind::OpEnd);
            }
        }));
    }
    let o = sim::run(config(spec, threads, bounds.0, bounds.1), bodies);
    absorb(res, &o);
    let records: Vec<Rec<G>> = std::mem::take(&mut *history.0.lock().unwrap());
    let mut hash = 0;
    let scratch = crate::repo::scratch();
    for r in &records {
        let line = format!(
            "[{}..{}] thread {} op {}: {} -> {}",
            r.start,
            r.end,
            r.thread,
            r.op,
            show(&ops[r.op].1),
            match &r.got {
                Ok(g) => show_got(g),
                Err(p) => format!("PANIC: {p}"),
            }
        );
        // The name of the scratch directory differs between processes.
        let line = line.replace(&scratch, "");
        hash = mix(hash, hash_str(&line));
        res.trace.push(line);
    }
    res.obs_hash = mix(res.obs_hash, hash);
    (records, o.stop.is_some())
}

/// Now and then the process is idle before an operation, up to weeks, and the clock of the system is set.
pub fn idle(seed: u64, op: usize) {
    let run = mix(seed, 0x1D1E);
    if run % 8 == 0 {
        let h = mix(run, op as u64);
        if h % 4 == 0 {
            sim::idle(1000u64 << (h >> 8) % 32, (h >> 16) % 172_800);
        }
    }
}

/// Where a panic happened, as part of the class of a violation.
pub fn site(m: &str) -> u64 {
    hash_str(m.split(" at ").last().unwrap_or("")) % 100000
}
