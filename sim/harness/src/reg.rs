//! Families `reg` (language tag registry) and `cmd` (command registry), used from several threads.
use crate::hist::{self, site, Rec};
use crate::loc::{icu, SimProvider, Share};
use crate::pattern::Pattern;
use crate::rng::Rng;
use crate::spec::{RunResult, Spec};
use crate::truth::{Comp, Plain};
use crate::{Rc, Tag};
use i18n_localiser::{CommandError, CommandRegistry, Localiser, LocaliserError};
use i18n_utility::{LanguageTagRegistry, PlaceholderValue};
use icu_locid::LanguageIdentifier;
use simstd::sim::{self, Kind};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------ language tags

const BASES: &[&str] = &[
    "en-ZA", "en", "fr-CA", "zh-Hant-TW", "sr-Latn-RS", "de-AT", "und", "af", "en-US-posix", "enb", "es-419", "zh-Hans",
    "sl-rozaj-nedis", "sl-nedis-rozaj", "de-1996", "de-Latn-CH-1996", "root", "eng", "en-Latn-001",
];
const MALFORMED: &[&str] = &[
    "", "e", "en--ZA", "en-ZA-", "-en", "hnfg_lku_q", "123", "en ZA", "en/ZA", "größe", "en-US-x", "en\u{0}", "toolonglanguage",
    "en-Latn-Latn", "en-US-US", " en", "en ", "en\n", "\ten", "en-ZA ", "en_", "_en", "en-ZA_", "en-u-ca-buddhist",
    "x-private", "i-klingon", "en\u{a0}", "*", "en-*", "en;ZA", "en.UTF-8", "en-ZA.utf8", "EN@euro", "en-1", "en-ZA-fonipa-fonipa",
];

/// Any tag of the right form.
fn made_up(r: &mut Rng) -> String {
    let mut letters = |n: usize| (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>();
    let (l2, l3, s, c) = (letters(2), letters(3), letters(4), letters(2));
    let mut t = if r.chance(70) { l2 } else { l3 };
    if r.chance(25) {
        t = format!("{t}-{}{}", s[..1].to_uppercase(), &s[1..]);
    }
    if r.chance(60) {
        t = format!("{t}-{}", if r.chance(85) { c.to_uppercase() } else { format!("{:03}", r.below(1000)) });
    }
    if r.chance(10) {
        t.push_str("-fonipa");
    }
    t
}

fn spelling(r: &mut Rng, base: &str) -> String {
    match r.below(6) {
        0 | 1 => base.to_string(),
        2 => base.replace('-', "_"),
        3 => base.to_lowercase(),
        4 => base.to_uppercase(),
        _ => {
            let mut s = String::new();
            for c in base.chars() {
                if c == '-' {
                    s.push(if r.chance(50) { '_' } else { '-' });
                } else if r.chance(50) {
                    s.extend(c.to_uppercase());
                } else {
                    s.extend(c.to_lowercase());
                }
            }
            s
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Tag(String),
    /// Ask for the locale of a tag.
    Icu(String),
    /// The same, for a tag of another registry that is gone afterwards.
    Foreign(String),
    List,
    Deprecated,
    All,
}

#[derive(Clone, Debug)]
enum Got {
    Tag(String),
    Refused,
    Icu(String, String),
    List(Vec<String>),
}

fn perform(s: &LanguageTagRegistry, _n: usize, op: &Op) -> Got {
    let names = |v: Vec<Tag>| {
        let mut v: Vec<String> = v.iter().map(|t| t.as_str().to_string()).collect();
        v.sort();
        v
    };
    match op {
        Op::Tag(t) => match s.tag(t) {
            Ok(t) => Got::Tag(t.as_str().to_string()),
            Err(_) => Got::Refused,
        },
        Op::Icu(t) | Op::Foreign(t) => match if matches!(op, Op::Icu(_)) { s.tag(t) } else { LanguageTagRegistry::new().tag(t) } {
            Ok(t) => {
                let l = s.icu_language(&t);
                let a = l.to_string();
                // Once more, now from its cache.
                let b = s.icu_language(&t).to_string();
                Got::Icu(t.as_str().to_string(), if a == b { a } else { format!("{a} then {b}") })
            }
            Err(_) => Got::Refused,
        },
        Op::List => Got::List(names(s.list())),
        Op::Deprecated => Got::List(names(s.list_deprecated())),
        Op::All => Got::List(names(s.list_all())),
    }
}

/// The canonical form, if well-formed (ICU4X's own rule).
fn canonical(s: &str) -> Option<String> {
    LanguageIdentifier::canonicalize(s).ok()
}

/// Multiset of what a listing must hold, by canonical tag.
fn counts(spellings: &BTreeSet<String>, tags: bool, deviating: bool) -> BTreeMap<String, usize> {
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    let mut canon = BTreeSet::new();
    for s in spellings {
        if let Some(c) = canonical(s) {
            if deviating && c != *s {
                *m.entry(c.clone()).or_default() += 1;
            }
            canon.insert(c);
        }
    }
    if tags {
        for c in canon {
            *m.entry(c).or_default() += 1;
        }
    }
    m
}

fn tally(v: &[String]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for s in v {
        *m.entry(s.clone()).or_default() += 1;
    }
    m
}

pub fn run(spec: &Spec) -> RunResult {
    let mut r = Rng::new(spec.seed, 2);
    let mut res = RunResult::default();
    let threads = if crate::SYNC && !spec.mode.starts_with("seq") { r.range(2, 4) } else { 1 };
    let per = if threads == 1 { r.range(2, 20) } else { r.range(1, 6) };
    let mut bases = BASES.to_vec();
    r.shuffle(&mut bases);
    bases.truncate(r.range(1, 4));
    let mut bases: Vec<String> = bases.into_iter().map(|s| s.to_string()).collect();
    let mut per = per;
    let plenty = r.chance(2);
    if plenty {
        // A registry that grows large.
        bases.extend((0..r.range(30, 150)).map(|_| made_up(&mut r)));
        per = if threads == 1 { r.range(60, 300) } else { r.range(20, 60) };
    } else if r.chance(15) {
        bases.push(made_up(&mut r));
    }
    let lists = *r.pick(&[0u32, 10, 35]);
    let bad = *r.pick(&[0u32, 10, 30]);
    let foreign = r.chance(12);
    let mut ops: Vec<(usize, Op)> = vec![];
    for t in 0..threads {
        for _ in 0..per {
            let op = if r.chance(lists) {
                match r.below(3) {
                    0 => Op::List,
                    1 => Op::Deprecated,
                    _ => Op::All,
                }
            } else {
                let s = if r.chance(bad) {
                    if r.chance(70) {
                        r.pick(MALFORMED).to_string()
                    } else {
                        // One odd character.
                        let mut b: Vec<char> = r.pick(&bases).chars().collect();
                        let at = r.below(b.len() + 1);
                        b.insert(at, *r.pick(&[' ', '-', '_', '.', '1', 'x', '\n', '\u{0}', 'ß', '/', '\'', '%']));
                        b.into_iter().collect()
                    }
                } else {
                    let b = r.pick(&bases).clone();
                    spelling(&mut r, &b)
                };
                if foreign && r.chance(30) {
                    Op::Foreign(s)
                } else if r.chance(25) {
                    Op::Icu(s)
                } else {
                    Op::Tag(s)
                }
            };
            ops.push((t, op));
        }
    }
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    let shared = Arc::new(Share(LanguageTagRegistry::new()));
    let (records, stopped) =
        hist::run(spec, &mut res, Arc::clone(&shared), &ops, threads, (50_000, 3_600_000_000), perform, |o| format!("{o:?}"), |g| {
            format!("{g:?}")
        });
    crate::sql::relabel(&mut res, &["C11"]);
    let spelled = |o: &Op| match o {
        Op::Tag(s) | Op::Icu(s) => Some(s.clone()),
        _ => None,
    };
    for rec in &records {
        let op = &ops[rec.op].1;
        res.check("C11");
        res.check("C02");
        let g = match &rec.got {
            Err(p) => {
                res.violate(&["C02", "C11"], &format!("panic {}", site(p)), format!("op {} {op:?} panicked: {p}", rec.op));
                continue;
            }
            Ok(g) => g,
        };
        match op {
            Op::Tag(s) | Op::Icu(s) | Op::Foreign(s) => {
                let want = canonical(s);
                let ok = match (g, &want) {
                    (Got::Tag(t), Some(w)) => t == w,
                    (Got::Icu(t, l), Some(w)) => t == w && l == w,
                    (Got::Refused, None) => true,
                    _ => false,
                };
                if want.as_ref() != Some(s) && want.is_some() {
                    res.probe("deviating spelling");
                }
                if want.is_none() {
                    res.probe("malformed tag");
                }
                if !ok {
                    res.violate(&["C11"], "wrong-tag", format!("op {} {op:?} -> {g:?}, canonical form: {want:?}", rec.op));
                }
            }
            _ => {
                let Got::List(v) = g else { continue };
                let mut done = BTreeSet::new();
                let mut begun = BTreeSet::new();
                for o in &records {
                    if let Some(s) = spelled(&ops[o.op].1) {
                        if o.end < rec.start {
                            done.insert(s.clone());
                        }
                        if o.start < rec.end {
                            begun.insert(s);
                        }
                    }
                }
                // A tag somebody is just adding may be listed in part.
                let moving: BTreeSet<String> = records
                    .iter()
                    .filter(|o| o.start < rec.end && o.end > rec.start)
                    .filter_map(|o| spelled(&ops[o.op].1).and_then(|s| canonical(&s)))
                    .collect();
                done.retain(|s| !canonical(s).is_some_and(|c| moving.contains(&c)));
                if stopped {
                    done.clear();
                    begun.extend(ops.iter().filter_map(|o| spelled(&o.1)));
                }
                let (a, b) = match op {
                    Op::List => (true, false),
                    Op::Deprecated => (false, true),
                    _ => (true, true),
                };
                judge(&mut res, &format!("op {} {op:?}", rec.op), v, &counts(&done, a, b), &counts(&begun, a, b));
            }
        }
    }
    if stopped {
        return res;
    }
    // Settled: exactly what was requested.
    let all: BTreeSet<String> =
        records.iter().filter_map(|x| spelled(&ops[x.op].1)).filter(|s| canonical(s).is_some()).collect();
    let reg = &shared.0;
    for (n, o) in [Op::List, Op::Deprecated, Op::All].iter().enumerate() {
        let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(reg, 0, o)));
        res.check("C11");
        match g {
            Ok(Got::List(v)) => {
                let c = counts(&all, n != 1, n != 0);
                judge(&mut res, &format!("afterwards {o:?}"), &v, &c, &c);
            }
            _ => res.violate(&["C02", "C11"], "lasting-damage", format!("afterwards {o:?} failed: {}", sim::take_panic().unwrap_or_default())),
        }
    }
    for s in &all {
        let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(reg, 0, &Op::Icu(s.clone()))));
        let w = canonical(s).unwrap();
        match g {
            Ok(Got::Icu(t, l)) if t == w && l == w => {}
            other => res.violate(
                &["C11"],
                "wrong-tag",
                format!("afterwards {s:?} -> {:?}, canonical form {w}", other.ok()),
            ),
        }
    }
    res
}

fn judge(res: &mut RunResult, what: &str, v: &[String], least: &BTreeMap<String, usize>, most: &BTreeMap<String, usize>) {
    let have = tally(v);
    for (t, n) in &have {
        let m = most.get(t).copied().unwrap_or(0);
        if *n > m {
            res.violate(&["C11"], "listed-too-often", format!("{what} lists {t} {n} times, at most {m} expected: {v:?}"));
            return;
        }
    }
    for (t, n) in least {
        let h = have.get(t).copied().unwrap_or(0);
        if h < *n {
            res.violate(&["C11"], "not-listed", format!("{what} lists {t} {h} times, at least {n} expected: {v:?}"));
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------------ commands

type Function = fn(Vec<PlaceholderValue>) -> Result<String, CommandError>;

/// Distinguishable functions.
fn numbered<const K: usize>(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    sim::point(Kind::Yield);
    let list: Vec<String> = p.iter().map(crate::pattern::show_value).collect();
    Ok(format!("f{K}({})", list.join(",")))
}
const FUNCTIONS: [Function; 12] = [
    numbered::<0>,
    numbered::<1>,
    numbered::<2>,
    numbered::<3>,
    numbered::<4>,
    numbered::<5>,
    numbered::<6>,
    numbered::<7>,
    numbered::<8>,
    numbered::<9>,
    numbered::<10>,
    numbered::<11>,
];

const NAMES: &[&str] = &["alpha", "Alpha", "alpha2", "beta", "x_1", "größe", "a_rather_long_name_for_a_command_that_does_very_little"];

/// Parameters in patterns.
const SHAPES: [&[&str]; 4] = [&["p", "a b"], &[], &["p", "q", "p", "r", "s_1", "t", "u", "v", "p"], &["x y", "p", "-"]];

#[derive(Clone, Debug)]
enum COp {
    Insert(String, usize),
    Get(String),
    List,
    /// Format a string which uses the command: delayed or not, value of its placeholder, caching, parameters.
    Use(String, bool, String, bool, usize),
}

#[derive(Clone, Debug, PartialEq)]
enum CGot {
    Done,
    Taken(String),
    Called(String),
    NotFound(String),
    List(Vec<String>),
    Text(String),
    Failed(String),
}

struct CState {
    reg: Rc<CommandRegistry>,
    loc: Localiser,
    tag: Tag,
}

fn error_of(e: CommandError) -> CGot {
    match e {
        CommandError::AlreadyExists(n) => CGot::Taken(n),
        CommandError::NotFound(n) => CGot::NotFound(n),
        e => CGot::Failed(e.to_string()),
    }
}

fn cperform(s: &CState, _n: usize, op: &COp) -> CGot {
    match op {
        COp::Insert(n, k) => match s.reg.insert(n, FUNCTIONS[*k]) {
            Ok(()) => CGot::Done,
            Err(e) => error_of(e),
        },
        COp::Get(n) => match s.reg.command(n) {
            Ok(f) => match f(vec![PlaceholderValue::String("?".into())]) {
                Ok(t) => CGot::Called(t),
                Err(e) => CGot::Failed(e.to_string()),
            },
            Err(e) => error_of(e),
        },
        COp::List => {
            let mut v = s.reg.list();
            v.sort();
            CGot::List(v)
        }
        COp::Use(n, delayed, value, cache, shape) => {
            let mut v = HashMap::new();
            v.insert("p".to_string(), PlaceholderValue::String(value.clone()));
            let id = format!("{}_{shape}_{n}", if *delayed { "delayed" } else { "now" });
            match s.loc.format("app", &id, &v, &s.tag, Some(false), Some(*cache)) {
                Ok((t, _)) => CGot::Text((*t).clone()),
                Err(LocaliserError::Formatter(i18n_localiser::FormatterError::Command(e))) => error_of(e),
                Err(e) => CGot::Failed(e.to_string()),
            }
        }
    }
}

pub fn run_cmd(spec: &Spec) -> RunResult {
    let mut r = Rng::new(spec.seed, 3);
    let mut res = RunResult::default();
    let threads = if crate::SYNC && !spec.mode.starts_with("seq") { r.range(2, 4) } else { 1 };
    let per = if threads == 1 { r.range(2, 14) } else { r.range(1, 5) };
    let mut names = NAMES.to_vec();
    r.shuffle(&mut names);
    names.truncate(r.range(1, 3));
    let mut names: Vec<String> = names.into_iter().map(|s| s.to_string()).collect();
    if r.chance(30) {
        // Nearly the same name.
        let n = names[0].clone();
        let twin = match r.below(6) {
            0 => format!("{n}_"),
            1 => format!("{n}{n}"),
            2 => format!("x{n}"),
            3 => n.to_uppercase(),
            4 => n.chars().take(n.chars().count() - 1).collect(),
            _ => format!("{n}x"),
        };
        if !names.contains(&twin) {
            names.push(twin);
        }
    }
    let mut per = per;
    if r.chance(2) {
        // A registry that grows large.
        names.extend((0..r.range(20, 60)).map(|k| format!("name{k}")));
        per = if threads == 1 { r.range(60, 160) } else { r.range(20, 50) };
    }
    let mut ops: Vec<(usize, COp)> = vec![];
    let mut used = 0usize;
    for t in 0..threads {
        for _ in 0..per {
            let n = r.pick(&names).to_string();
            let op = match r.below(10) {
                0..=3 if used < FUNCTIONS.len() && (used == 0 || !r.chance(25)) => {
                    used += 1;
                    COp::Insert(n, used - 1)
                }
                // The same function again, under the same name or another.
                0..=3 => COp::Insert(n, r.below(used)),
                4 | 5 => COp::Get(n),
                6 => COp::List,
                _ => COp::Use(n, r.chance(60), format!("value{}", ops.len()), r.chance(50), r.below(SHAPES.len())),
            };
            ops.push((t, op));
        }
    }
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    let icu = icu();
    let registry = Rc::new(LanguageTagRegistry::new());
    let mut comp = Comp { default: "en".into(), strings: BTreeMap::new() };
    for n in &names {
        for (k, shape) in SHAPES.iter().enumerate() {
            let list: String = shape
                .iter()
                .map(|p| if p.contains([' ', '-']) { format!(" `{p}`") } else { format!(" {p}") })
                .collect();
            for (id, mark) in [("now", ""), ("delayed", "#")] {
                let source = format!("<{{#{n}{mark}{list}}}>");
                let p = Pattern { main: vec![], named: vec![], vars: vec![], spaces: 0, source, wild: true };
                comp.strings.insert((format!("{id}_{k}_{n}"), "en".into()), p);
            }
        }
    }
    let mut truth = Plain::default();
    truth.comps.insert("app".into(), comp);
    let provider = SimProvider { truth, registry: Rc::clone(&registry), faults: vec![] };
    let reg = Rc::new(CommandRegistry::new());
    let loc = Localiser::try_new(&icu, &registry, Box::new(provider), &reg, false, false, "en").expect("localiser");
    let tag = registry.tag("en").expect("en");
    let shared = Arc::new(Share(CState { reg, loc, tag }));
    let (records, stopped) =
        hist::run(spec, &mut res, Arc::clone(&shared), &ops, threads, (50_000, 3_600_000_000), cperform, |o| format!("{o:?}"), |g| {
            format!("{g:?}")
        });
    crate::sql::relabel(&mut res, &["C12"]);
    let mut winner: BTreeMap<String, (usize, u64, u64)> = BTreeMap::new();
    for rec in &records {
        if let (COp::Insert(n, k), Ok(CGot::Done)) = (&ops[rec.op].1, &rec.got) {
            if let Some(w) = winner.get(n) {
                res.violate(&["C12"], "registered-twice", format!("{n} was registered with f{} and, in op {}, with f{k}", w.0, rec.op));
            }
            winner.insert(n.clone(), (*k, rec.start, rec.end));
        }
    }
    // In flight when a run was stopped: unknown effect.
    let unknown = |n: &str| {
        stopped
            && ops.iter().enumerate().any(|(k, o)| {
                matches!(&o.1, COp::Insert(m, _) if m == n) && !records.iter().any(|r: &Rec<CGot>| r.op == k)
            })
    };
    for rec in &records {
        let op = &ops[rec.op].1;
        res.check("C12");
        res.check("C02");
        let g = match &rec.got {
            Err(p) => {
                res.violate(&["C02", "C12"], &format!("panic {}", site(p)), format!("op {} {op:?} panicked: {p}", rec.op));
                continue;
            }
            Ok(g) => g,
        };
        let bad = |res: &mut RunResult, class: &str| {
            res.violate(&["C12"], class, format!("op {} {op:?} -> {g:?}; registered: {winner:?}", rec.op));
        };
        match op {
            COp::Insert(n, _) => match g {
                CGot::Done => {}
                CGot::Taken(m) => {
                    res.probe("name taken");
                    let ok = m == n && (winner.get(n).is_some_and(|w| w.1 < rec.end) || unknown(n));
                    if !ok {
                        bad(&mut res, "refused-without-reason");
                    }
                }
                _ => bad(&mut res, "registration-failed"),
            },
            COp::Get(n) | COp::Use(n, ..) => {
                if unknown(n) {
                    continue;
                }
                let before = winner.get(n).is_some_and(|w| w.2 < rec.start);
                let possible = winner.get(n).is_some_and(|w| w.1 < rec.end);
                match g {
                    CGot::NotFound(m) => {
                        res.probe("command not found");
                        if m != n || before {
                            bad(&mut res, "registration-lost");
                        }
                    }
                    CGot::Called(t) => {
                        if !possible || *t != format!("f{}(S:?)", winner[n].0) {
                            bad(&mut res, "other-function");
                        }
                    }
                    CGot::Text(t) => {
                        res.probe("command used in a string");
                        let COp::Use(_, delayed, value, _, shape) = op else { continue };
                        let p = if *delayed { value.as_str() } else { "p" };
                        let list: String =
                            SHAPES[*shape].iter().map(|x| format!(",S:{}", if *x == "p" { p } else { x })).collect();
                        if !possible || *t != format!("<f{}(S:{n}{list})>", winner[n].0) {
                            bad(&mut res, "wrong-call");
                        }
                    }
                    _ => bad(&mut res, "lookup-failed"),
                }
            }
            COp::List => {
                let CGot::List(v) = g else {
                    bad(&mut res, "list-failed");
                    continue;
                };
                let ok = v.windows(2).all(|w| w[0] != w[1])
                    && v.iter().all(|n| unknown(n) || winner.get(n).is_some_and(|w| w.1 < rec.end))
                    && winner.iter().all(|(n, w)| w.2 > rec.start || v.contains(n));
                if !ok {
                    bad(&mut res, "wrong-listing");
                }
            }
        }
    }
    if stopped {
        return res;
    }
    // Every name somebody tried to register is registered, with the function that won.
    let tried: BTreeSet<String> =
        records.iter().filter_map(|x| if let COp::Insert(n, _) = &ops[x.op].1 { Some(n.clone()) } else { None }).collect();
    let s = &shared.0;
    let list = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cperform(s, 0, &COp::List)));
    res.check("C12");
    match list {
        Ok(CGot::List(v)) if v == tried.iter().cloned().collect::<Vec<_>>() => {}
        other => res.violate(&["C12"], "wrong-listing", format!("afterwards the listing is {:?}, tried: {tried:?}", other.ok())),
    }
    for n in &tried {
        let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cperform(s, 0, &COp::Get(n.clone())))).ok();
        let want = winner.get(n).map(|w| CGot::Called(format!("f{}(S:?)", w.0)));
        if want.is_none() || g != want {
            res.violate(&["C12"], "registration-lost", format!("afterwards {n} -> {g:?}, expected {want:?}"));
        }
    }
    res
}
