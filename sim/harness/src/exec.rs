//! Running specs, batches of them, and minimising failures.
use crate::interpose::HASH_SEED;
use crate::rng::{hash_str, mix};
use crate::spec::{json_str, RunResult, Spec};
use simstd::sim;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIMX_PANICS").is_some() {
            eprintln!("panic: {msg} at {at}");
        }
        sim::record_panic(format!("{msg} at {at}"));
    }));
}

fn dispatch(spec: &Spec) -> RunResult {
    match spec.family.as_str() {
        "loc" => crate::loc::run(spec),
        "reg" => crate::reg::run(spec),
        "cmd" => crate::reg::run_cmd(spec),
        "sql" => crate::sql::run(spec),
        "edit" => crate::edit::run(spec),
        "open" => crate::opening::run(spec),
        "err" => crate::err::run(spec),
        "full" => crate::full::run(spec),
        "share" => crate::share::run(spec),
        f => panic!("no such family: {f}"),
    }
}

/// One execution, in a fresh thread (fresh thread-local state).
pub fn run_spec(spec: &Spec) -> RunResult {
    HASH_SEED.store(mix(spec.seed, 0xAB), Ordering::Relaxed);
    let s = spec.clone();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || dispatch(&s)).expect("spawn");
    match h.join() {
        Ok(r) => r,
        Err(_) => {
            // The harness itself failed: not a verdict.
            eprintln!("HARNESS-ERROR in {}", spec.print());
            std::process::exit(70);
        }
    }
}

pub fn json_result(spec: &Spec, r: &RunResult, full: bool) -> String {
    let mut s = String::from("{");
    s.push_str(&format!("\"spec\":{},\"violations\":[", json_str(&spec.print())));
    for (n, v) in r.violations.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        let props: Vec<String> = v.props.iter().map(|p| json_str(p)).collect();
        s.push_str(&format!(
            "{{\"props\":[{}],\"class\":{},\"detail\":{}}}",
            props.join(","),
            json_str(&v.class),
            json_str(&v.detail)
        ));
    }
    s.push_str(&format!(
        "],\"ops\":{},\"faults\":{},\"threads\":{},\"steps\":{},\"switches\":{},\"time_us\":{},\"sched_hash\":\"{:016x}\",\"obs_hash\":\"{:016x}\"",
        r.ops, r.faults, r.threads, r.steps, r.switches, r.time_us, r.sched_hash, r.obs_hash
    ));
    if full {
        let t: Vec<String> = r.trace.iter().map(|x| json_str(x)).collect();
        s.push_str(&format!(",\"trace\":[{}]", t.join(",")));
        let t: Vec<String> = r.record.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
        s.push_str(&format!(",\"schedule\":[{}]", t.join(",")));
    }
    s.push('}');
    s
}

fn map_json(m: &BTreeMap<String, u64>) -> String {
    let l: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    format!("{{{}}}", l.join(","))
}

struct Status {
    file: std::fs::File,
}
impl Status {
    fn set(&mut self, text: &str) {
        use std::os::unix::fs::FileExt;
        let mut b = text.as_bytes().to_vec();
        b.resize(512, b' ');
        let _ = self.file.write_all_at(&b, 0);
    }
}

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4
}

/// The runs of one worker, in order.
fn sequence(plan: &str, seed: u64, worker: u64, of: u64) -> Vec<Spec> {
    let items: Vec<(String, String, u64)> = plan
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|p| {
            let f: Vec<&str> = p.split(':').collect();
            (f[0].to_string(), f[1].to_string(), f[2].parse().expect("count"))
        })
        .collect();
    // Interleave: the share of each family progresses evenly.
    let mut list: Vec<(f64, usize, u64)> = vec![];
    for (n, (_, _, count)) in items.iter().enumerate() {
        for k in 0..*count {
            if k % of == worker {
                list.push((k as f64 / *count as f64, n, k));
            }
        }
    }
    list.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    list.iter()
        .map(|(_, n, k)| {
            let (family, mode, _) = &items[*n];
            let s = mix(mix(seed, hash_str(family) ^ hash_str(mode).rotate_left(7)), *k) >> 1;
            Spec::new(family, mode, s)
        })
        .collect()
}

/// Runs `from..=to` of a worker's sequence in one process and prints the last one: for failures that need what
/// earlier runs left behind in the process (statics of the library).
pub fn history(plan: &str, seed: u64, worker: u64, of: u64, from: usize, to: usize) {
    let list = sequence(plan, seed, worker, of);
    for (pos, spec) in list.iter().enumerate().take(to + 1).skip(from) {
        let r = run_spec(spec);
        if pos == to {
            println!("{}", json_result(spec, &r, true));
        }
    }
}

/// Plan: `family:mode:count,...`; this worker runs every index k with k % of == worker, families interleaved.
/// `start`: index (of this worker's own sequence) to begin with, after a crash.
pub fn worker(plan: &str, seed: u64, worker: u64, of: u64, status: &str, cap: f64, start: u64) {
    let begin = Instant::now();
    let mut st = Status { file: std::fs::File::create(status).expect("status file") };
    let list = sequence(plan, seed, worker, of);
    // A run that makes no progress at all.
    let watch = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    {
        let watch = std::sync::Arc::clone(&watch);
        std::thread::spawn(move || {
            let mut last = (0, 0);
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = (watch.load(Ordering::Relaxed), sim::PROGRESS.load(Ordering::Relaxed));
                if now != last {
                    last = now;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(40) {
                    eprintln!("HANG");
                    std::process::exit(77);
                }
            }
        });
    }
    let out = std::io::stdout();
    let mut per: BTreeMap<String, Stats> = BTreeMap::new();
    let mut reported: BTreeMap<String, u32> = BTreeMap::new();
    let mut done = start;
    let mut truncated = false;
    for (pos, spec) in list.iter().enumerate() {
        if (pos as u64) < start {
            continue;
        }
        if begin.elapsed().as_secs_f64() > cap {
            truncated = true;
            break;
        }
        st.set(&format!("{} {}", pos, spec.print()));
        watch.fetch_add(1, Ordering::Relaxed);
        let r = run_spec(spec);
        done = pos as u64 + 1;
        let e = per.entry(format!("{}:{}", spec.family, spec.mode)).or_default();
        e.add(&r);
        for v in &r.violations {
            for p in &v.props {
                let c = reported.entry(format!("{p} {}", v.class)).or_default();
                *c += 1;
                if *c <= 3 {
                    let mut o = out.lock();
                    let _ = writeln!(
                        o,
                        "{{\"violation\":{{\"prop\":{},\"class\":{},\"spec\":{},\"pos\":{pos},\"start\":{start},\"worker\":{worker},\"detail\":{}}}}}",
                        json_str(p),
                        json_str(&v.class),
                        json_str(&spec.print()),
                        json_str(&v.detail)
                    );
                    let _ = o.flush();
                }
            }
        }
    }
    st.set("done");
    let mut l = vec![];
    for (k, e) in &per {
        l.push(format!("{}:{}", json_str(k), e.json()));
    }
    println!(
        "{{\"summary\":{{\"worker\":{worker},\"done\":{done},\"planned\":{},\"truncated\":{truncated},\"seconds\":{:.2},\"rss_kb\":{},\"families\":{{{}}}}}}}",
        list.len(),
        begin.elapsed().as_secs_f64(),
        rss_kb(),
        l.join(",")
    );
}

/// Prints what identifies each run: to compare executions.
pub fn hashes(plan: &str, seed: u64, worker: u64, of: u64) {
    for p in plan.split(',') {
        let f: Vec<&str> = p.split(':').collect();
        let count: u64 = f[2].parse().expect("count");
        for k in 0..count {
            if k % of == worker {
                let s = mix(mix(seed, hash_str(f[0]) ^ hash_str(f[1]).rotate_left(7)), k) >> 1;
                let spec = Spec::new(f[0], f[1], s);
                let r = run_spec(&spec);
                let t = r.trace.iter().fold(0u64, |h, x| mix(h, hash_str(x)));
                println!("{} {:x} {:x} {:x} {} {} {} {:?}", spec.print(), r.sched_hash, r.obs_hash, t, r.steps, r.time_us, r.violations.len(), r.fired);
            }
        }
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    ops: u64,
    steps: u64,
    switches: u64,
    time_us: u64,
    faults_planned: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    checked: BTreeMap<String, u64>,
    sched: HashSet<u64>,
    obs: HashSet<u64>,
    sites: HashSet<u32>,
    nontrivial: HashSet<u64>,
    sample: Vec<String>,
}

impl Stats {
    fn add(&mut self, r: &RunResult) {
        self.runs += 1;
        self.ops += r.ops as u64;
        self.steps += r.steps;
        self.switches += r.switches;
        self.time_us += r.time_us;
        self.faults_planned += r.faults as u64;
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.checked {
            *self.checked.entry(k.to_string()).or_default() += v;
        }
        self.sched.insert(r.sched_hash);
        self.obs.insert(r.obs_hash);
        for s in &r.switch_sites {
            self.sites.insert(*s);
        }
        let fired: u64 = r.fired.values().sum();
        if r.switches > r.threads as u64 || fired > 0 || r.ops >= 2 {
            self.nontrivial.insert(mix(r.sched_hash, r.obs_hash));
        }
        if self.sample.is_empty() && (r.switches > 2 || fired > 0 || r.threads < 2) && r.trace.len() > 3 {
            self.sample = r.trace.iter().take(14).cloned().collect();
        }
    }
    fn json(&self) -> String {
        let s: Vec<String> = self.sample.iter().map(|x| json_str(x)).collect();
        let hex = |h: &HashSet<u64>| {
            // Enough to count distinct ones across workers.
            let mut v: Vec<u64> = h.iter().copied().collect();
            v.sort();
            v.iter().map(|x| format!("\"{:x}\"", x & 0xFFFF_FFFF_FFFF)).collect::<Vec<_>>().join(",")
        };
        let sites: Vec<String> = self.sites.iter().map(|x| x.to_string()).collect();
        format!(
            "{{\"runs\":{},\"ops\":{},\"steps\":{},\"switches\":{},\"time_us\":{},\"faults_planned\":{},\"fired\":{},\"probes\":{},\"checked\":{},\"sched\":[{}],\"obs_distinct\":{},\"nontrivial\":[{}],\"sites\":[{}],\"sample\":[{}]}}",
            self.runs,
            self.ops,
            self.steps,
            self.switches,
            self.time_us,
            self.faults_planned,
            map_json(&self.fired),
            map_json(&self.probes),
            map_json(&self.checked),
            hex(&self.sched),
            self.obs.len(),
            hex(&self.nontrivial),
            sites.join(","),
            s.join(",")
        )
    }
}

// ------------------------------------------------------------------------------------------------ minimising

struct Min<'a> {
    class: &'a str,
    prop: &'a str,
    left: u32,
}

impl Min<'_> {
    fn fails(&mut self, spec: &Spec) -> Option<RunResult> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = run_spec(spec);
        if r.violations.iter().any(|v| v.class == self.class && v.props.contains(&self.prop)) {
            Some(r)
        } else {
            None
        }
    }

    /// With the schedule as is, or with some other one.
    fn fails_somehow(&mut self, spec: &Spec, tries: u32) -> Option<(Spec, RunResult)> {
        if let Some(r) = self.fails(spec) {
            return Some((spec.clone(), r));
        }
        for k in 1..tries {
            let mut s = spec.clone();
            s.sched = mix(spec.sched, k as u64) >> 1;
            if let Some(r) = self.fails(&s) {
                return Some((s, r));
            }
        }
        None
    }

    fn reduce(&mut self, mut spec: Spec, mut best: RunResult, total: u32, tries: u32, faults: bool) -> (Spec, RunResult) {
        let mut chunk = (total as usize).max(1);
        while chunk >= 1 {
            let mut at = 0usize;
            while at < total as usize {
                let dropped = if faults { &spec.drop_faults } else { &spec.drop_ops };
                let add: Vec<u32> =
                    (at as u32..(at + chunk).min(total as usize) as u32).filter(|x| !dropped.contains(x)).collect();
                if !add.is_empty() && add.len() + dropped.len() < total as usize + faults as usize {
                    let mut s = spec.clone();
                    let d = if faults { &mut s.drop_faults } else { &mut s.drop_ops };
                    d.extend(add);
                    d.sort();
                    if let Some((s, r)) = self.fails_somehow(&s, tries) {
                        spec = s;
                        best = r;
                    }
                }
                at += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        (spec, best)
    }
}

pub fn minimise(spec: &Spec, class: &str, prop: &str, budget: u32) -> (Spec, RunResult) {
    let mut m = Min { class, prop, left: budget };
    let Some(mut best) = m.fails(spec) else {
        let r = run_spec(spec);
        return (spec.clone(), r);
    };
    let mut spec = spec.clone();
    let tries = if best.threads > 1 { 5 } else { 1 };
    for _ in 0..2 {
        let before = (spec.drop_ops.len(), spec.drop_faults.len());
        let total = best.faults;
        if total > 0 {
            (spec, best) = m.reduce(spec, best, total, tries, true);
        }
        let total = best.ops;
        (spec, best) = m.reduce(spec, best, total, tries, false);
        if before == (spec.drop_ops.len(), spec.drop_faults.len()) {
            break;
        }
    }
    // The schedule itself: keep only the preemptions that matter.
    if best.threads > 1 {
        m.left = m.left.max(budget / 2);
        let mut s = spec.clone();
        s.explicit = Some(best.record.clone());
        if let Some(r) = m.fails(&s) {
            best = r;
            spec = s;
            let mut list = spec.explicit.clone().unwrap();
            let mut chunk = list.len().max(1);
            loop {
                let mut at = 0;
                while at < list.len() {
                    let mut l = list.clone();
                    let end = (at + chunk).min(l.len());
                    l.drain(at..end);
                    let mut s = spec.clone();
                    s.explicit = Some(l.clone());
                    if let Some(r) = m.fails(&s) {
                        list = l;
                        spec = s;
                        best = r;
                    } else {
                        at += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
    (spec, best)
}
