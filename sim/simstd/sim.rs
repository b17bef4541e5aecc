//! Deterministic scheduler: real OS threads of which exactly one runs at a time. Every switch is
//! decided here, from a seeded generator or from an explicit list of preemptions (replay).
use ::std::any::Any;
use ::std::cell::{Cell, RefCell};
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::atomic::{AtomicU64, Ordering};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// What kind of operation a scheduling point precedes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind {
    Start = 0,
    Lock,
    Read,
    Write,
    Unlock,
    OnceGet,
    OnceSet,
    Atomic,
    Yield,
    Provider,
    IoOpen,
    IoRead,
    IoWrite,
    IoLock,
    IoOther,
    Sleep,
    OpBegin,
    OpEnd,
    Block,
    Finish,
}
pub const KINDS: usize = 20;

#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch with probability `num`/1024 at points whose kind is in `mask`.
    Random { num: u32, mask: u32 },
    /// Random priorities with priority-change points at the given steps.
    Pct { change: Vec<u64> },
    /// Run each thread until it blocks, except for `n` random preemptions within `horizon` steps.
    Few { at: Vec<u64> },
    /// At code sites (kind in `mask`, and place of the call) whose hash modulo `of` is `rest`, with probability `num`/1024,
    /// set the thread aside for up to `hold` steps while others can run; elsewhere switch with probability
    /// `other`/1024.
    Park { mask: u32, of: u64, rest: u64, num: u32, hold: u64, other: u32 },
    /// Replay exactly these decisions: (step, thread).
    Explicit(Vec<(u64, u32)>),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    pub max_steps: u64,
    pub max_time_us: u64,
    /// Readers wait behind waiting writers (as allowed by, and usual for, real locks).
    pub writer_preference: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Runnable,
    Blocked(usize),
    Sleeping(u64),
    Finished,
}

struct Inner {
    states: Vec<State>,
    what: Vec<Kind>,
    prio: Vec<u64>,
    parked: Vec<u64>,
    current: usize,
    step: u64,
    time_us: u64,
    /// Time the whole process did nothing (not counted as taken by any operation), and seconds the clock was set on.
    idle_us: u64,
    skew_s: u64,
    rng: u64,
    record: Vec<(u64, u32)>,
    explicit_pos: usize,
    hash: u64,
    switches: u64,
    kinds: [u64; KINDS],
    stop: Option<Stop>,
    waiting_writers: Vec<usize>,
    switch_sites: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Deadlock(String),
    Steps,
    Time,
}

pub struct Sim {
    cfg: Config,
    /// Threads can be switched while they hold a lock, even if they do nothing meanwhile: another finds it taken.
    contention: bool,
    inner: Mutex<Inner>,
    cvs: Vec<Condvar>,
}

/// Payload used to unwind simulated threads once a run was stopped.
pub struct Stopped;

pub enum End {
    Done,
    Panicked(String),
    Stopped,
}

pub struct Outcome {
    pub ends: Vec<End>,
    pub stop: Option<Stop>,
    pub steps: u64,
    pub switches: u64,
    pub time_us: u64,
    pub idle_us: u64,
    pub record: Vec<(u64, u32)>,
    pub hash: u64,
    pub kinds: [u64; KINDS],
    pub switch_sites: Vec<u32>,
}

::std::thread_local! {
    static CURRENT: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NO_UNWIND: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Progress counter read by the harness' watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// True if the calling OS thread is a simulated thread of a running simulation.
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

fn with<R>(f: impl FnOnce(&Arc<Sim>, usize) -> R) -> R {
    CURRENT.with(|c| {
        let b = c.borrow();
        let (sim, id) = b.as_ref().expect("not a simulated thread");
        let sim = Arc::clone(sim);
        let id = *id;
        drop(b);
        f(&sim, id)
    })
}

/// Run `f` (called from C code) so that a stopped run does not unwind out of it.
pub fn no_unwind<R>(f: impl FnOnce() -> R) -> R {
    let old = NO_UNWIND.with(|n| n.replace(true));
    let r = f();
    NO_UNWIND.with(|n| n.set(old));
    r
}

/// True once the run was stopped (deadlock or bound) and its threads are being unwound.
pub fn stopped() -> bool {
    active() && with(|sim, _| sim.lock().stop.is_some())
}

/// Logical thread number, if simulated.
pub fn thread_id() -> Option<usize> {
    if !active() {
        return None;
    }
    Some(with(|_, id| id))
}

/// Scheduling point.
#[track_caller]
pub fn point(kind: Kind) {
    point_at(kind, ::std::panic::Location::caller());
}

/// Scheduling point that belongs to another place, such as where a lock was taken.
pub fn point_at(kind: Kind, at: &'static ::std::panic::Location<'static>) {
    if active() {
        let mut site = 0xCBF2_9CE4_8422_2325u64 ^ kind as u64;
        for b in at.file().rsplit('/').next().unwrap_or("").bytes() {
            site = (site ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        site ^= (at.line() as u64) << 16 | at.column() as u64;
        let site = splitmix(&mut site);
        with(|sim, id| sim.point(id, kind, site));
    }
}

/// A lock was taken.
#[track_caller]
pub(crate) fn held() {
    if active() && with(|sim, _| sim.contention) {
        point_at(Kind::Yield, ::std::panic::Location::caller());
    }
}

pub fn now_us() -> u64 {
    if active() {
        with(|sim, _| sim.lock().time_us)
    } else {
        0
    }
}

/// What clocks show: microseconds passed, and seconds by which the clock of the system was set on.
pub fn clock_us() -> (u64, u64) {
    if active() {
        with(|sim, _| {
            let i = sim.lock();
            (i.time_us + i.idle_us, i.skew_s)
        })
    } else {
        (0, 0)
    }
}

/// The whole process is idle for this long, and the clock of the system set anew.
pub fn idle(us: u64, skew_s: u64) {
    if active() {
        with(|sim, _| {
            let mut i = sim.lock();
            i.idle_us += us;
            i.skew_s = skew_s;
        })
    }
}

pub fn step() -> u64 {
    if active() {
        with(|sim, _| sim.lock().step)
    } else {
        0
    }
}

/// Let simulated time pass for this thread only.
pub fn sleep_us(us: u64) {
    if active() {
        with(|sim, id| {
            let until = {
                let i = sim.lock();
                i.time_us.saturating_add(us)
            };
            sim.suspend(id, State::Sleeping(until), Kind::Sleep)
        });
    }
}

/// Block the calling thread until `wake(addr)`.
pub(crate) fn block(addr: usize, kind: Kind) {
    with(|sim, id| {
        {
            let mut i = sim.lock();
            i.what[id] = kind;
        }
        sim.suspend(id, State::Blocked(addr), Kind::Block)
    });
}

/// Like `block`, but also returns after `us` of simulated time. True if woken.
pub(crate) fn block_timeout(addr: usize, us: u64) -> bool {
    // Polling in simulated time keeps the scheduler simple.
    with(|sim, id| {
        let until = sim.lock().time_us.saturating_add(us);
        let _ = addr;
        sim.suspend(id, State::Sleeping(until), Kind::Sleep);
        false
    })
}

pub(crate) fn wake(addr: usize) {
    if active() {
        with(|sim, _| {
            let mut i = sim.lock();
            for s in i.states.iter_mut() {
                if *s == State::Blocked(addr) {
                    *s = State::Runnable;
                }
            }
        });
    }
}

pub(crate) fn writer_waiting(addr: usize, add: bool) {
    with(|sim, _| {
        let mut i = sim.lock();
        if add {
            i.waiting_writers.push(addr);
        } else if let Some(p) = i.waiting_writers.iter().position(|a| *a == addr) {
            i.waiting_writers.swap_remove(p);
        }
    });
}

pub(crate) fn must_queue(addr: usize) -> bool {
    with(|sim, _| sim.cfg.writer_preference && sim.lock().waiting_writers.contains(&addr))
}

impl Sim {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn note(&self, i: &mut Inner, id: usize, kind: Kind) {
        i.step += 1;
        i.time_us += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        i.kinds[kind as usize] += 1;
        i.hash = (i.hash ^ ((id as u64) << 8 | kind as u64)).wrapping_mul(0x0000_0100_0000_01B3);
        i.hash ^= i.hash >> 29;
        if i.stop.is_none() {
            if i.step > self.cfg.max_steps {
                i.stop = Some(Stop::Steps);
            } else if i.time_us > self.cfg.max_time_us {
                i.stop = Some(Stop::Time);
            }
        }
    }

    fn unwind_if_stopped(&self, stopped: bool) {
        if stopped && !::std::thread::panicking() && !NO_UNWIND.with(|n| n.get()) {
            resume_unwind(Box::new(Stopped));
        }
    }

    fn point(self: &Arc<Self>, id: usize, kind: Kind, site: u64) {
        let mut i = self.lock();
        if i.stop.is_some() {
            drop(i);
            self.unwind_if_stopped(true);
            return;
        }
        self.note(&mut i, id, kind);
        if i.stop.is_some() {
            self.wake_all(&mut i);
            drop(i);
            self.unwind_if_stopped(true);
            return;
        }
        if ::std::thread::panicking() {
            return; // never switch away while unwinding
        }
        let next = self.choose(&mut i, id, kind, site, true);
        if next != id {
            i.switches += 1;
            let site = (kind as u32) | (i.what[next] as u32) << 8 | (id as u32) << 16 | (next as u32) << 20;
            i.switch_sites.push(site);
            i.what[id] = kind;
            i.current = next;
            self.cvs[next].notify_one();
            let stopped = self.wait_turn(i, id);
            self.unwind_if_stopped(stopped);
        }
    }

    fn suspend(self: &Arc<Self>, id: usize, state: State, kind: Kind) {
        let mut i = self.lock();
        if i.stop.is_some() {
            drop(i);
            self.unwind_if_stopped(true);
            // Unwinding already: cannot unwind again, fall through without blocking.
            return;
        }
        self.note(&mut i, id, kind);
        i.states[id] = state;
        if !self.hand_over(&mut i, id, kind) {
            drop(i);
            self.unwind_if_stopped(true);
            return;
        }
        if i.current == id {
            i.states[id] = State::Runnable;
            return;
        }
        let stopped = self.wait_turn(i, id);
        self.unwind_if_stopped(stopped);
    }

    /// The current thread cannot continue: pick another. False if the run had to be stopped.
    fn hand_over(self: &Arc<Self>, i: &mut Inner, id: usize, kind: Kind) -> bool {
        loop {
            if i.stop.is_some() {
                self.wake_all(i);
                return false;
            }
            if i.states.iter().any(|s| *s == State::Runnable) {
                break;
            }
            // Nobody can run: advance simulated time to the earliest sleeper.
            let earliest = i
                .states
                .iter()
                .filter_map(|s| if let State::Sleeping(t) = s { Some(*t) } else { None })
                .min();
            match earliest {
                Some(t) => {
                    if t > i.time_us {
                        i.time_us = t;
                    }
                    if i.time_us > self.cfg.max_time_us {
                        i.stop = Some(Stop::Time);
                        continue;
                    }
                    for s in i.states.iter_mut() {
                        if let State::Sleeping(u) = s {
                            if *u <= t {
                                *s = State::Runnable;
                            }
                        }
                    }
                }
                None => {
                    if i.states.iter().all(|s| *s == State::Finished) {
                        return true;
                    }
                    let mut text = String::new();
                    for (n, s) in i.states.iter().enumerate() {
                        if let State::Blocked(_) = s {
                            text.push_str(&::std::format!("thread {} waits in {:?}; ", n, i.what[n]));
                        }
                    }
                    i.stop = Some(Stop::Deadlock(text));
                }
            }
        }
        let next = self.choose(i, id, kind, 0, false);
        i.switches += 1;
        i.current = next;
        if next != id {
            self.cvs[next].notify_one();
        }
        true
    }

    fn wake_all(&self, _i: &mut Inner) {
        for cv in &self.cvs {
            cv.notify_all();
        }
    }

    fn wait_turn(&self, mut i: MutexGuard<'_, Inner>, id: usize) -> bool {
        while i.current != id && i.stop.is_none() {
            i = self.cvs[id].wait(i).unwrap_or_else(|e| e.into_inner());
        }
        if i.stop.is_some() {
            return true;
        }
        i.states[id] = State::Runnable;
        false
    }

    /// Choose the next thread. `can_stay`: the current thread is still runnable.
    fn choose(&self, i: &mut Inner, id: usize, kind: Kind, site: u64, can_stay: bool) -> usize {
        // Sleepers whose time has come are runnable.
        let now = i.time_us;
        for s in i.states.iter_mut() {
            if let State::Sleeping(t) = s {
                if *t <= now {
                    *s = State::Runnable;
                }
            }
        }
        let runnable: Vec<usize> = (0..i.states.len())
            .filter(|n| i.states[*n] == State::Runnable)
            .collect();
        let default = if can_stay {
            id
        } else {
            runnable.first().copied().unwrap_or(id)
        };
        if runnable.len() < 2 && (can_stay || runnable.len() == 1) {
            return if can_stay { id } else { runnable[0] };
        }
        let step = i.step;
        // Late in a long run scheduling becomes fair, so that no priority starves a thread for ever.
        let fair = Policy::Random { num: 256, mask: u32::MAX };
        let policy = match &self.cfg.policy {
            p @ Policy::Explicit(_) => p,
            p if step < self.cfg.max_steps / 2 => p,
            _ => &fair,
        };
        let chosen = match policy {
            Policy::Random { num, mask } => {
                let in_mask = mask >> (kind as u32) & 1 == 1;
                if !can_stay {
                    let r = splitmix(&mut i.rng) as usize;
                    runnable[r % runnable.len()]
                } else if in_mask && (splitmix(&mut i.rng) >> 20) % 1024 < *num as u64 {
                    let others: Vec<usize> = runnable.iter().copied().filter(|n| *n != id).collect();
                    let r = splitmix(&mut i.rng) as usize;
                    others[r % others.len()]
                } else {
                    id
                }
            }
            Policy::Pct { change } => {
                if change.contains(&step) {
                    let low = i.prio.iter().min().copied().unwrap_or(0);
                    i.prio[id] = low.saturating_sub(1);
                }
                let mut best = runnable[0];
                for n in &runnable {
                    if i.prio[*n] > i.prio[best] {
                        best = *n;
                    }
                }
                best
            }
            Policy::Few { at } => {
                if !can_stay {
                    let r = splitmix(&mut i.rng) as usize;
                    runnable[r % runnable.len()]
                } else if at.contains(&step) {
                    let others: Vec<usize> = runnable.iter().copied().filter(|n| *n != id).collect();
                    let r = splitmix(&mut i.rng) as usize;
                    others[r % others.len()]
                } else {
                    id
                }
            }
            Policy::Park { mask, of, rest, num, hold, other } => {
                let mut go = !can_stay;
                if can_stay {
                    let here = mask >> (kind as u32) & 1 == 1 && site % of == *rest;
                    if here && (splitmix(&mut i.rng) >> 20) % 1024 < *num as u64 {
                        i.parked[id] = step + 1 + (splitmix(&mut i.rng) >> 8) % hold;
                    }
                    go = i.parked[id] > step || (splitmix(&mut i.rng) >> 20) % 1024 < *other as u64;
                }
                if go {
                    let mut from: Vec<usize> = runnable.iter().copied().filter(|n| i.parked[*n] <= step).collect();
                    if from.is_empty() {
                        from = runnable.clone();
                    }
                    let r = splitmix(&mut i.rng) as usize;
                    from[r % from.len()]
                } else {
                    id
                }
            }
            Policy::Explicit(list) => {
                let mut c = default;
                while i.explicit_pos < list.len() && list[i.explicit_pos].0 < step {
                    i.explicit_pos += 1;
                }
                if i.explicit_pos < list.len() && list[i.explicit_pos].0 == step {
                    let want = list[i.explicit_pos].1 as usize;
                    if runnable.contains(&want) {
                        c = want;
                    }
                    i.explicit_pos += 1;
                }
                c
            }
        };
        if chosen != default {
            i.record.push((step, chosen as u32));
        }
        chosen
    }

    fn finish(self: &Arc<Self>, id: usize) {
        let mut i = self.lock();
        self.note(&mut i, id, Kind::Finish);
        i.states[id] = State::Finished;
        if i.states.iter().all(|s| *s == State::Finished) {
            return;
        }
        let _ = self.hand_over(&mut i, id, Kind::Finish);
    }
}

fn message(payload: &(dyn Any + Send)) -> String {
    if let Some(s) = payload.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// To be called by the process' panic hook, so that outcomes carry the location.
pub fn record_panic(text: String) {
    let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(text));
}

pub fn take_panic() -> Option<String> {
    PANIC_MSG.try_with(|p| p.borrow_mut().take()).ok().flatten()
}

/// Run the bodies as simulated threads, to completion, deadlock or bound.
pub fn run(cfg: Config, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = bodies.len();
    let mut rng = cfg.seed ^ 0x5EED_5EED;
    let mut prio: Vec<u64> = (0..n as u64).map(|p| (p + 1) << 32).collect();
    for k in (1..n).rev() {
        let r = splitmix(&mut rng) as usize % (k + 1);
        prio.swap(k, r);
    }
    let sim = Arc::new(Sim {
        inner: Mutex::new(Inner {
            states: ::std::vec![State::Runnable; n],
            what: ::std::vec![Kind::Start; n],
            prio,
            parked: ::std::vec![0; n],
            current: usize::MAX,
            step: 0,
            time_us: 0,
            idle_us: 0,
            skew_s: 0,
            rng,
            record: Vec::new(),
            explicit_pos: 0,
            hash: 0xCBF2_9CE4_8422_2325,
            switches: 0,
            kinds: [0; KINDS],
            stop: None,
            waiting_writers: Vec::new(),
            switch_sites: Vec::new(),
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        contention: n > 1 && cfg.seed % 5 == 0,
        cfg,
    });
    let mut handles = Vec::new();
    for (id, body) in bodies.into_iter().enumerate() {
        let sim2 = Arc::clone(&sim);
        let h = ::std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                CURRENT.with(|c| *c.borrow_mut() = Some((Arc::clone(&sim2), id)));
                let stopped = {
                    let i = sim2.lock();
                    sim2.wait_turn(i, id)
                };
                let end = if stopped {
                    End::Stopped
                } else {
                    ACTIVE.with(|a| a.set(true));
                    let r = catch_unwind(AssertUnwindSafe(body));
                    match r {
                        Ok(()) => End::Done,
                        Err(p) => {
                            if p.is::<Stopped>() {
                                End::Stopped
                            } else {
                                let m = take_panic().unwrap_or_else(|| message(&*p));
                                End::Panicked(m)
                            }
                        }
                    }
                };
                ACTIVE.with(|a| a.set(false));
                sim2.finish(id);
                CURRENT.with(|c| *c.borrow_mut() = None);
                end
            })
            .expect("spawn simulated thread");
        handles.push(h);
    }
    {
        // First choice.
        let mut i = sim.lock();
        let first = if n == 0 { 0 } else { sim.choose(&mut i, 0, Kind::Start, 0, true) };
        i.current = first;
        if n > 0 {
            sim.cvs[first].notify_one();
        }
    }
    let ends: Vec<End> = handles
        .into_iter()
        .map(|h| h.join().unwrap_or(End::Panicked("thread died".to_string())))
        .collect();
    let i = sim.lock();
    Outcome {
        ends,
        stop: i.stop.clone(),
        steps: i.step,
        switches: i.switches,
        time_us: i.time_us,
        idle_us: i.idle_us,
        record: i.record.clone(),
        hash: i.hash,
        kinds: i.kinds,
        switch_sites: i.switch_sites.clone(),
    }
}
