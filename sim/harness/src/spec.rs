//! What identifies one simulated execution, and what it produced.
use std::collections::BTreeMap;

/// One execution is a pure function of this and the code under test.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub family: String,
    /// Variation of the family (fault-free, faults, ...).
    pub mode: String,
    pub seed: u64,
    /// Seed of the scheduler only.
    pub sched: u64,
    /// Indices of generated operations which are left out.
    pub drop_ops: Vec<u32>,
    /// Indices of generated faults which are left out.
    pub drop_faults: Vec<u32>,
    /// Explicit schedule: at step .0 thread .1 runs (otherwise no preemption, lowest runnable first).
    pub explicit: Option<Vec<(u64, u32)>>,
}

impl Spec {
    pub fn new(family: &str, mode: &str, seed: u64) -> Spec {
        Spec {
            family: family.into(),
            mode: mode.into(),
            seed,
            sched: seed,
            drop_ops: vec![],
            drop_faults: vec![],
            explicit: None,
        }
    }
    pub fn print(&self) -> String {
        let list = |v: &Vec<u32>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let mut s = format!(
            "family={};mode={};seed={};sched={};drop={};fdrop={}",
            self.family,
            self.mode,
            self.seed,
            self.sched,
            list(&self.drop_ops),
            list(&self.drop_faults)
        );
        if let Some(e) = &self.explicit {
            s.push_str(";x=");
            s.push_str(&e.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(","));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Spec> {
        let mut spec = Spec::new("", "", 0);
        for part in s.trim().split(';') {
            let (k, v) = part.split_once('=')?;
            let nums = || -> Option<Vec<u32>> {
                v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
            };
            match k {
                "family" => spec.family = v.into(),
                "mode" => spec.mode = v.into(),
                "seed" => spec.seed = v.parse().ok()?,
                "sched" => spec.sched = v.parse().ok()?,
                "drop" => spec.drop_ops = nums()?,
                "fdrop" => spec.drop_faults = nums()?,
                "x" => {
                    let mut e = vec![];
                    for p in v.split(',').filter(|x| !x.is_empty()) {
                        let (a, b) = p.split_once(':')?;
                        e.push((a.parse().ok()?, b.parse().ok()?));
                    }
                    spec.explicit = Some(e);
                }
                _ => return None,
            }
        }
        Some(spec)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    /// Kind of failure: kept the same while minimising.
    pub class: String,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub trace: Vec<String>,
    pub ops: u32,
    pub faults: u32,
    pub threads: u32,
    pub steps: u64,
    pub switches: u64,
    pub time_us: u64,
    pub record: Vec<(u64, u32)>,
    /// Hash of the interleaving: sequence of (thread, kind of point).
    pub sched_hash: u64,
    /// Hash of everything observable (operations, results, faults).
    pub obs_hash: u64,
    pub switch_sites: Vec<u32>,
    /// Faults that actually fired, and probes reached, by name.
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub checked: BTreeMap<&'static str, u64>,
}

impl RunResult {
    pub fn violate(&mut self, props: &[&'static str], class: &str, detail: String) {
        self.violations.push(Violation { props: props.to_vec(), class: class.to_string(), detail });
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn fire(&mut self, name: &str) {
        *self.fired.entry(name.to_string()).or_default() += 1;
    }
    pub fn check(&mut self, prop: &'static str) {
        *self.checked.entry(prop).or_default() += 1;
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
