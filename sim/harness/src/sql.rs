//! The SQLite provider over simulated storage: lookups and details (C06 to C09, C13).
use crate::hist::{self, Rec};
use crate::interpose::{with_dirs, DirPlan};
use crate::loc::Share;
use crate::repo::{self, CompD, Repo, RepoD};
use crate::rng::Rng;
use crate::spec::{RunResult, Spec};
use crate::vfs::{self, Fault, FaultKind};
use crate::{Rc, Tag, SYNC};
use i18n_provider::{LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error};
use i18n_utility::LanguageTagRegistry;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    One(String, String, String),
    Exact(String, String, String),
    Many(String, String, String),
    Ident(String, String),
    Comp(String),
    Repo,
    /// Every page cache becomes stale.
    Touch(String),
    /// The same of another provider, over another repository.
    Other(Box<Op>),
}

impl Op {
    pub fn inner(&self) -> &Op {
        match self {
            Op::Other(o) => o,
            o => o,
        }
    }
    pub fn details(&self) -> bool {
        matches!(self.inner(), Op::Ident(..) | Op::Comp(_) | Op::Repo)
    }
    pub fn show(&self) -> String {
        match self {
            Op::One(c, i, t) => format!("string({c}, {i}, {t})"),
            Op::Exact(c, i, t) => format!("string_exact_match({c}, {i}, {t})"),
            Op::Many(c, i, t) => format!("strings({c}, {i}, {t})"),
            Op::Ident(c, i) => format!("identifier_details({c}, {i})"),
            Op::Comp(c) => format!("component_details({c})"),
            Op::Repo => "repository_details()".into(),
            Op::Touch(f) => format!("(somebody changes {f}.sqlite3)"),
            Op::Other(o) => format!("other provider: {}", o.show()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    One(Option<(String, String)>),
    Many(Vec<(String, String)>),
    Ident(Vec<String>, String),
    Comp(CompD),
    Repo(RepoD),
    Missing(String),
    /// Default language complaints.
    Default(String),
    /// Storage errors: text, SQLite's extended code.
    Storage(String, i32),
    Other(String),
    Done,
}

impl Got {
    pub fn is_error(&self) -> bool {
        matches!(self, Got::Missing(_) | Got::Default(_) | Got::Storage(..) | Got::Other(_))
    }
    pub fn show(&self) -> String {
        format!("{self:?}")
    }
}

pub fn storage_code(e: &rusqlite::Error) -> i32 {
    match e {
        rusqlite::Error::SqliteFailure(f, _) => f.extended_code,
        _ => -1,
    }
}

fn error(e: ProviderError) -> Got {
    match &e {
        ProviderError::ComponentNotFound(c) => Got::Missing(c.clone()),
        ProviderError::DefaultLanguage(c) => Got::Default(format!("DefaultLanguage({c})")),
        ProviderError::InvalidDefaultLanguage(c) => Got::Default(format!("InvalidDefaultLanguage({c})")),
        ProviderError::Custom(c) => {
            // The trait object cannot be asked for its type: its text tells.
            let text = format!("{:?}", c);
            let text = text.replace(&repo::scratch(), "");
            let code = text
                .split("extended_code: ")
                .nth(1)
                .and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next())
                .and_then(|x| x.parse().ok())
                .unwrap_or(-1);
            if text.contains("Sqlite3(") {
                Got::Storage(text, code)
            } else {
                Got::Other(text)
            }
        }
        _ => Got::Other(format!("{e:?}")),
    }
}

pub struct Ctx {
    pub provider: LocalisationProviderSqlite3,
    pub tags: BTreeMap<String, Tag>,
    pub dir: String,
    pub other: Option<Box<Ctx>>,
}

fn tagged(x: (String, Tag)) -> (String, String) {
    (x.0, x.1.as_str().to_string())
}

pub fn perform(x: &Ctx, op: &Op) -> Got {
    if let Op::Other(o) = op {
        return perform(x.other.as_ref().expect("another provider"), o);
    }
    let _w = vfs::watch();
    let p = &x.provider;
    match op {
        Op::One(c, i, t) => p.string(c, i, &x.tags[t]).map(|o| Got::One(o.map(tagged))),
        Op::Exact(c, i, t) => p.string_exact_match(c, i, &x.tags[t]).map(|o| Got::One(o.map(tagged))),
        Op::Many(c, i, t) => p.strings(c, i, &x.tags[t]).map(|v| {
            let mut v: Vec<_> = v.into_iter().map(tagged).collect();
            if v.iter().skip(1).any(|x| x.1 == *t) {
                return Got::Other(format!("the exact match is not the first: {v:?}"));
            }
            v.sort();
            Got::Many(v)
        }),
        Op::Ident(c, i) => p.identifier_details(c, i).map(|d| {
            let mut v: Vec<String> = d.languages.iter().map(|t| t.as_str().to_string()).collect();
            v.sort();
            Got::Ident(v, d.default.as_str().to_string())
        }),
        Op::Comp(c) => p.component_details(c).map(|d| {
            Got::Comp(CompD {
                langs: d
                    .languages
                    .iter()
                    .map(|(t, l)| {
                        let mut w = l.contributors.clone();
                        w.sort();
                        (t.as_str().to_string(), (l.count, l.ratio, w))
                    })
                    .collect(),
                default: d.default.as_str().to_string(),
                total: d.total_strings,
            })
        }),
        Op::Repo => p.repository_details().map(|d| {
            let mut comps = d.components.clone();
            comps.sort();
            let mut contributors = d.contributors.clone();
            contributors.sort();
            Got::Repo(RepoD {
                langs: d.languages.iter().map(|(t, l)| (t.as_str().to_string(), (l.count, l.ratio))).collect(),
                default: d.default.as_ref().map(|t| t.as_str().to_string()),
                total: d.total_strings,
                comps,
                contributors,
            })
        }),
        Op::Touch(f) => {
            vfs::touch(&format!("{}/{f}.sqlite3", x.dir));
            Ok(Got::Done)
        }
        Op::Other(_) => unreachable!(),
    }
    .unwrap_or_else(error)
}

fn perform_op(x: &Ctx, n: usize, op: &Op) -> Got {
    vfs::set_op(Some(n));
    struct Unset;
    impl Drop for Unset {
        fn drop(&mut self) {
            vfs::set_op(None);
        }
    }
    let _u = Unset;
    perform(x, op)
}

/// What has to come out, on undisturbed storage.
pub fn wanted(r: &Repo, op: &Op) -> Vec<Got> {
    let details = r.details();
    match op {
        Op::One(c, i, t) => match r.one(c, i, t) {
            None => vec![Got::Missing(c.clone())],
            Some(v) if v.is_empty() => vec![Got::One(None)],
            Some(v) => v.into_iter().map(|x| Got::One(Some(x))).collect(),
        },
        Op::Exact(c, i, t) => match r.exact(c, i, t) {
            None => vec![Got::Missing(c.clone())],
            Some(x) => vec![Got::One(x)],
        },
        Op::Many(c, i, t) => match r.many(c, i, t) {
            None => vec![Got::Missing(c.clone())],
            Some(v) => vec![Got::Many(v)],
        },
        Op::Touch(_) => vec![Got::Done],
        Op::Other(o) => wanted(r, o),
        _ => {
            if let Err(bad) = details {
                return bad.into_iter().map(Got::Default).collect();
            }
            match op {
                Op::Ident(c, i) => match r.languages_of(c, i) {
                    None => vec![Got::Missing(c.clone())],
                    Some(l) => {
                        let d = r.component(c).unwrap().unwrap().default;
                        vec![Got::Ident(l, d)]
                    }
                },
                Op::Comp(c) => match r.component(c) {
                    None => vec![Got::Missing(c.clone())],
                    Some(d) => vec![Got::Comp(d.unwrap())],
                },
                _ => vec![Got::Repo(details.unwrap())],
            }
        }
    }
}

pub fn gen_op(r: &mut Rng, repo: &Repo, details: u32) -> Op {
    let comps: Vec<String> = repo.components().keys().cloned().collect();
    let c = if r.chance(95) { r.pick(&comps).clone() } else { r.pick(&["nowhere", "__all_in_one__", "elsewhere", ""]).to_string() };
    let mut keys: Vec<(String, String)> = vec![];
    for f in repo.files.values() {
        keys.extend(f.patterns.keys().filter(|k| k.0 == c).map(|k| (k.1.clone(), k.2.clone())));
    }
    let (mut i, mut t) = if keys.is_empty() || r.chance(15) {
        (r.pick(repo::IDENTS).to_string(), r.pick(repo::TAGS).to_string())
    } else {
        r.pick(&keys).clone()
    };
    match r.below(10) {
        0 => i = r.pick(repo::IDENTS).to_string(),
        1 | 2 => t = r.pick(repo::TAGS).to_string(),
        // A related tag: shorter, longer, or a sibling.
        3 | 4 => {
            if let Some((a, _)) = t.rsplit_once('-') {
                t = a.to_string();
            }
        }
        5 | 6 => {
            let base = t.split('-').next().unwrap().to_string();
            let rel: Vec<&str> = repo::TAGS.iter().filter(|x| x.starts_with(&base)).copied().collect();
            t = r.pick(&rel).to_string();
        }
        _ => {}
    }
    if r.chance(details) {
        return match r.below(4) {
            0 => Op::Repo,
            1 => Op::Ident(c, i),
            _ => Op::Comp(c),
        };
    }
    match r.below(5) {
        0 | 1 => Op::One(c, i, t),
        2 | 3 => Op::Many(c, i, t),
        _ => Op::Exact(c, i, t),
    }
}

pub fn gen_faults(r: &mut Rng, ops: &[(usize, Op)], memory: u32) -> Vec<Fault> {
    let n = r.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        let op = r.below(ops.len());
        if matches!(ops[op].1, Op::Touch(_)) {
            continue;
        }
        let kind = match r.below(19) {
            _ if r.chance(memory) => FaultKind::NoMemory,
            0..=6 => FaultKind::ReadError,
            7..=9 => FaultKind::ShortRead,
            10 => FaultKind::Garbage,
            11 | 12 => FaultKind::CantOpen,
            13 => FaultKind::LockError,
            14 | 15 => FaultKind::Busy(*r.pick(&[1_000, 200_000, 2_000_000, 4_000_000])),
            16 => FaultKind::Busy(*r.pick(&[8_000_000, 30_000_000, 1_000_000_000])),
            17 => FaultKind::SizeError,
            _ => FaultKind::SizeZero,
        };
        let reach = if ops[op].1.details() { *r.pick(&[3, 12, 60, 250, 900]) } else { *r.pick(&[1, 3, 6, 12, 25]) };
        let nth = match kind {
            FaultKind::CantOpen => r.below(reach / 4 + 1),
            FaultKind::LockError | FaultKind::Busy(_) | FaultKind::SizeError | FaultKind::SizeZero => r.below(reach / 3 + 1),
            FaultKind::NoMemory => r.below(reach * 2),
            _ => r.below(reach),
        } as u32;
        let times = *r.pick(&[1, 1, 2, 1_000_000]);
        v.push(Fault { op, kind, nth, times });
    }
    v
}

pub fn open(repo: &Repo, registry: &Rc<LanguageTagRegistry>, shuffle: u64) -> Result<LocalisationProviderSqlite3, ProviderSqlite3Error> {
    with_dirs(DirPlan { shuffle, ..Default::default() }, || {
        let _w = vfs::watch();
        let dir = repo::spelled(&repo.dir, shuffle / 4);
        repo::at_home();
        let p = LocalisationProviderSqlite3::try_new(dir.as_str(), registry, shuffle % 4 == 0);
        if !dir.starts_with('/') && shuffle / 4 % 5 < 3 {
            repo::go_away();
        }
        p
    })
    .0
}

/// The repository was only read, and is not locked.
pub fn only_read(res: &mut RunResult, repo: &Repo, before: &[String]) {
    let (wrote, kept) = vfs::traces();
    res.check("C19");
    if !wrote.is_empty() {
        res.violate(&["C19"], "written", format!("the provider {}", wrote.join(", ")));
    }
    if !kept.is_empty() {
        res.violate(&["C19", "C13"], "kept-locked", format!("with no request in progress the provider keeps {} locked", kept.join(", ")));
    }
    let after = repo::listing(&repo.dir);
    if after != before {
        res.violate(&["C19"], "directory", format!("the directory was {before:?} and is {after:?}"));
    }
}

/// The provider is gone: it left nothing open.
pub fn all_closed(res: &mut RunResult) {
    res.check("C19");
    let held = vfs::held();
    if !held.is_empty() {
        res.violate(&["C19"], "left-open", format!("the provider is gone but left open {}", held.join(", ")));
    }
}

pub fn tags(registry: &Rc<LanguageTagRegistry>, more: &[&str]) -> BTreeMap<String, Tag> {
    let mut m = BTreeMap::new();
    // Tags are as good when they come from another registry.
    let own: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new());
    let registry = if Rng::new(crate::vfs::with(|s| s.random), 97).chance(12) { &own } else { registry };
    for t in repo::TAGS.iter().chain(more) {
        for t in crate::truth::chain(t) {
            let x = registry.tag(&t).expect("tag");
            assert_eq!(x.as_str(), t, "canonical");
            m.insert(t, x);
        }
    }
    m
}

/// Mode: words separated by '-': seq|conc, fault, details (mostly details), bad (default languages).
pub fn run(spec: &Spec) -> RunResult {
    let mut res = RunResult::default();
    let has = |w: &str| spec.mode.split('-').any(|x| x == w);
    let mut r = Rng::new(spec.seed, 31);
    vfs::reset(spec.seed);
    let dir = repo::fresh_dir();
    let bad = if has("fault") { 3 } else { 12 };
    let mut repo = repo::generate(&mut r, &dir, &repo::Opts { bad_default: bad, max_comps: if has("details") { 3 } else { 4 } });
    repo::enrich(&mut r, &mut repo, if has("mem") { 100 } else { 8 });
    let repo = repo;
    repo::build(&repo);
    let registry: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new());
    let mut tags = tags(&registry, &[]);
    for f in repo.files.values() {
        for (_, _, t) in f.patterns.keys() {
            tags.entry(t.clone()).or_insert_with(|| registry.tag(t).expect("tag"));
        }
    }
    let before = repo::listing(&dir);
    let shuffle = r.next();
    let threads = if has("conc") && SYNC { r.range(2, 3) } else { 1 };
    let count = if has("details") { r.range(2, 9) } else { r.range(4, 22) };
    let details = if has("details") { 75 } else { *r.pick(&[0, 10, 30]) };
    let mut ops: Vec<(usize, Op)> = vec![];
    for _ in 0..count {
        let op = if r.chance(15) {
            let stems: Vec<String> = repo.files.keys().cloned().collect();
            Op::Touch(r.pick(&stems).clone())
        } else if !ops.is_empty() && r.chance(20) {
            r.pick(&ops).1.clone()
        } else {
            gen_op(&mut r, &repo, details)
        };
        ops.push((r.below(threads), op));
    }
    let mut repo2 = None;
    if r.chance(10) {
        // Another provider, over another directory with files and components of the same names.
        let mut x = repo.clone();
        x.dir = repo::named_dir("l10n-2");
        let defaults: BTreeSet<String> = x.files.values().flat_map(|f| f.comps.iter().map(|c| c.1.clone())).collect();
        for f in x.files.values_mut() {
            let keys: Vec<_> = f.patterns.keys().cloned().collect();
            for k in keys {
                match r.below(4) {
                    0 if !defaults.contains(&k.2) => {
                        f.patterns.remove(&k);
                    }
                    1 => {}
                    _ => {
                        f.patterns.insert(k, format!("elsewhere {}", r.below(100)));
                    }
                }
            }
        }
        repo::build(&x);
        for (_, o) in ops.iter_mut() {
            if !matches!(o, Op::Touch(_)) && r.chance(40) {
                *o = Op::Other(Box::new(o.clone()));
            }
        }
        repo2 = Some((x, r.chance(50)));
    }
    if has("fault") && has("details") && r.chance(50) {
        // The first request of details, disturbed.
        ops[0].1 = Op::Repo;
    }
    let planned = if has("fault") { gen_faults(&mut r, &ops, if has("mem") { 100 } else if repo.long() { 35 } else { 5 }) } else { vec![] };
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    res.faults = planned.len() as u32;
    let mut faults = planned.clone();
    for (n, f) in faults.iter_mut().enumerate() {
        if spec.drop_faults.contains(&(n as u32)) {
            f.nth = u32::MAX;
        }
    }
    res.trace.extend(repo.show());
    for (n, f) in faults.iter().enumerate() {
        if f.nth != u32::MAX {
            res.trace.push(format!("fault {n}: {}", f.show()));
        }
    }
    let provider = match open(&repo, &registry, shuffle) {
        Ok(p) => p,
        Err(e) => {
            res.violate(&["C10", "C06", "C07", "C08", "C09"], "open", format!("a well-formed repository does not open: {e:?}").replace(&dir, ""));
            return res;
        }
    };
    let before2 = repo2.as_ref().map(|(x, _)| repo::listing(&x.dir));
    let other = match &repo2 {
        None => None,
        Some((x, shared_registry)) => {
            res.trace.extend(x.show().into_iter().map(|l| format!("other repository: {l}")));
            let registry2 = if *shared_registry { Rc::clone(&registry) } else { Rc::new(LanguageTagRegistry::new()) };
            match open(x, &registry2, shuffle.rotate_left(9)) {
                Ok(p) => {
                    let tags = tags.keys().map(|t| (t.clone(), registry2.tag(t).expect("tag"))).collect();
                    Some(Box::new(Ctx { provider: p, tags, dir: x.dir.clone(), other: None }))
                }
                Err(e) => {
                    res.violate(&["C10", "C06", "C07", "C08", "C09"], "open", format!("a well-formed repository does not open: {e:?}").replace(&x.dir, ""));
                    return res;
                }
            }
        }
    };
    let shared = Arc::new(Share(Ctx { provider, tags, dir: dir.clone(), other }));
    vfs::set_faults(faults.clone());
    let (records, stopped) = hist::run(
        spec,
        &mut res,
        Arc::clone(&shared),
        &ops,
        threads,
        (120_000, 100_000_000_000),
        perform_op,
        Op::show,
        Got::show,
    );
    let fired: Vec<(usize, usize)> = vfs::with(|s| std::mem::take(&mut s.fired));
    vfs::set_faults(vec![]);
    relabel(&mut res, &["C06", "C07", "C08", "C09", "C13"]);
    let mut per: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (op, f) in &fired {
        if per.entry(*op).or_default().insert(*f) {
            res.fire(&faults[*f].kind.name());
        }
    }
    judge(&mut res, &repo, repo2.as_ref().map(|x| &x.0), &ops, &records, &per, &faults);
    // Afterwards: everything has to work, on the same provider.
    if !stopped {
        for (n, (_, op)) in ops.iter().enumerate() {
            if spec.drop_ops.contains(&(n as u32)) {
                continue;
            }
            let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(&shared.0, op)));
            let props = props_of(op, !fired.is_empty());
            for p in &props {
                res.check(p);
            }
            match g {
                Err(_) => {
                    let m = simstd::sim::take_panic().unwrap_or_default();
                    let mut p = props.clone();
                    p.push("C02");
                    res.violate(&p, &format!("after-panic-{}", hist::site(&m)), format!("afterwards: {} panics: {m}", op.show()));
                }
                Ok(g) => {
                    let want = match (op, &repo2) {
                        (Op::Other(_), Some((x, _))) => wanted(x, op),
                        _ => wanted(&repo, op),
                    };
                    if !want.contains(&g) {
                        let class = format!("after-{}", kind_of(op, &g));
                        res.violate(&props, &class, format!("afterwards: {} gives {}, expected {}", op.show(), g.show(), show_want(&want)));
                    }
                }
            }
        }
    }
    only_read(&mut res, &repo, &before);
    if let (Some((x, _)), Some(b)) = (&repo2, &before2) {
        let after = repo::listing(&x.dir);
        if after != *b {
            res.violate(&["C19"], "directory", format!("the other directory was {b:?} and is {after:?}"));
        }
    }
    let clean = !stopped && !res.violations.iter().any(|v| v.class.contains("panic"));
    drop(shared);
    if clean {
        all_closed(&mut res);
    }
    res
}

/// Deadlocks and the like concern these properties, too.
pub fn relabel(res: &mut RunResult, more: &[&'static str]) {
    for v in &mut res.violations {
        if v.props == ["C02"] {
            v.props.extend(more);
        }
    }
}

fn props_of(op: &Op, faults: bool) -> Vec<&'static str> {
    let mut v = vec![if op.details() { "C08" } else { "C07" }];
    if op.details() {
        v.push("C09");
    }
    if faults {
        v.push("C06");
    }
    v
}

pub fn show_want(w: &[Got]) -> String {
    w.iter().map(|g| g.show()).collect::<Vec<_>>().join(" or ")
}

fn kind_of(op: &Op, g: &Got) -> String {
    let o = match op.inner() {
        Op::One(..) => "one",
        Op::Exact(..) => "exact",
        Op::Many(..) => "many",
        Op::Ident(..) => "ident",
        Op::Comp(_) => "comp",
        Op::Repo => "repo",
        Op::Touch(_) => "touch",
        Op::Other(_) => "other",
    };
    let k = match g {
        Got::One(None) => "none",
        Got::Missing(_) => "missing",
        Got::Default(_) => "default",
        Got::Storage(..) => "storage",
        Got::Other(_) => "other",
        _ => "wrong",
    };
    format!("{o}-{k}")
}

fn judge(res: &mut RunResult, repo: &Repo, repo2: Option<&Repo>, ops: &[(usize, Op)], records: &[Rec<Got>], fired: &BTreeMap<usize, BTreeSet<usize>>, faults: &[Fault]) {
    let mut first: BTreeMap<String, Got> = BTreeMap::new();
    for rec in records {
        let op = &ops[rec.op].1;
        if matches!(op, Op::Touch(_)) {
            continue;
        }
        // Faults in this or any overlapping operation.
        let around: Vec<usize> = records
            .iter()
            .filter(|o| o.start < rec.end && o.end > rec.start)
            .filter_map(|o| fired.get(&o.op))
            .flatten()
            .copied()
            .collect();
        let faulty = !around.is_empty();
        let mut props = props_of(op, faulty);
        for p in &props {
            res.check(p);
        }
        let g = match &rec.got {
            Ok(g) => g,
            Err(m) => {
                props.push("C02");
                res.violate(&props, &format!("panic-{}", hist::site(m)), format!("{} panics: {m}", op.show()));
                continue;
            }
        };
        let bound = if op.details() { 600_000_000 } else { 60_000_000 };
        res.check("C13");
        if rec.took_us > bound {
            res.violate(&["C13"], "slow", format!("{} took {} s of simulated time", op.show(), rec.took_us / 1_000_000));
        }
        let repo = if let Op::Other(_) = op { repo2.expect("another repository") } else { repo };
        let want = wanted(repo, op);
        if op.details() && !g.is_error() {
            let key = op.show();
            let same = first.entry(key).or_insert_with(|| g.clone());
            if same != g {
                res.violate(&["C09"], "differ", format!("{} gives {} after {}", op.show(), g.show(), same.show()));
            }
        }
        if want.contains(g) {
            res.probe(if faulty { "right in spite of a fault" } else { "right" });
            continue;
        }
        let class = kind_of(op, g);
        let text = format!("{} gives {}, expected {}", op.show(), g.show(), show_want(&want));
        if !faulty {
            // A fault before, which has not gone away?
            if !fired.is_empty() && g.is_error() {
                props.push("C06");
            }
            res.violate(&props, &class, text);
            continue;
        }
        match g {
            Got::Storage(_, code) => {
                res.probe("error because of a fault");
                // Several waits may come together in one.
                let all_busy = around.iter().all(|f| matches!(faults[*f].kind, FaultKind::Busy(_)));
                let total: u64 =
                    around.iter().collect::<BTreeSet<_>>().iter().map(|f| if let FaultKind::Busy(us) = faults[**f].kind { us } else { 0 }).sum();
                let only_short = all_busy && total < 4_500_000;
                if only_short {
                    res.violate(&["C13", "C06"], "gave-up", format!("{text}; the file was locked for less than 5 s"));
                }
                let _ = code;
            }
            _ => res.violate(&props, &format!("fault-{class}"), format!("{text}, with a fault: {}", faults[around[0]].show())),
        }
    }
}
