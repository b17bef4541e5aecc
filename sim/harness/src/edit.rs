//! Somebody edits the repository files while the provider reads them (C13; C06 and C09 with crashes and changes).
use crate::hist;
use crate::loc::Share;
use crate::repo::{self, Repo};
use crate::rng::Rng;
use crate::spec::{RunResult, Spec};
use crate::sql::{self, Ctx, Got, Op};
use crate::vfs;
use crate::{Rc, SYNC};
use i18n_utility::LanguageTagRegistry;
use rusqlite::Connection;
use simstd::sim;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Style {
    Update,
    /// Rows are deleted and inserted again.
    Replace,
    /// Rows are added: strings of new identifiers.
    Grow,
    /// The rows of each key are replaced by these, of other languages.
    Move(Vec<Vec<(String, String)>>),
}

#[derive(Clone, Debug)]
struct Txn {
    file: String,
    keys: Vec<(String, String)>,
    version: u64,
    begin: &'static str,
    style: Style,
    /// Simulated waiting: after begin, between changes, before the end.
    waits: [u64; 3],
    /// Uncommitted pages go to the file early.
    spill: bool,
    commit: bool,
}

#[derive(Clone, Debug)]
enum EOp {
    Read(Op),
    Edit(Txn),
}

fn show(o: &EOp) -> String {
    match o {
        EOp::Read(o) => o.show(),
        EOp::Edit(t) => format!(
            "editor: {} on {}.sqlite3, {:?} of {:?} to version {}, waits {:?} us{}, {}",
            t.begin,
            t.file,
            t.style,
            t.keys,
            t.version,
            t.waits,
            if t.spill { ", writes early" } else { "" },
            if t.commit { "commit" } else { "roll back" }
        ),
    }
}

#[derive(Clone, Debug)]
struct Event {
    file: String,
    keys: Vec<(String, String)>,
    version: u64,
    rows: Option<Vec<Vec<(String, String)>>>,
    begin: u64,
    end: u64,
    certain: bool,
}

struct World {
    ctx: Ctx,
    clock: AtomicU64,
    incarnation: AtomicU32,
    /// Commits, in order.
    events: Mutex<Vec<Event>>,
    /// When the editor had a file open.
    busy: Mutex<Vec<(u64, u64)>>,
    spans: Mutex<BTreeMap<usize, (u64, u64)>>,
}

impl World {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::Relaxed)
    }
}

fn perform(w: &World, n: usize, o: &EOp) -> Got {
    match o {
        EOp::Read(o) => {
            let s = w.tick();
            vfs::set_op(Some(n));
            let g = sql::perform(&w.ctx, o);
            vfs::set_op(None);
            let e = w.tick();
            w.spans.lock().unwrap().insert(n, (s, e));
            if vfs::power_is_off() {
                return Got::Other("power off".into());
            }
            g
        }
        EOp::Edit(t) => {
            if vfs::power_is_off() {
                return Got::Other("power off".into());
            }
            let role = w.incarnation.load(Ordering::Relaxed);
            vfs::set_role(role);
            let from = w.tick();
            let r = edit(w, t);
            let gone = vfs::is_dead(role);
            vfs::set_role(0);
            if gone {
                w.incarnation.fetch_add(1, Ordering::Relaxed);
            }
            let to = w.tick();
            w.busy.lock().unwrap().push((from, to));
            Got::Other(match r {
                Ok(()) => "done".into(),
                Err(e) => format!("{}{e}", if gone { "the editor died: " } else { "" }).replace(&w.ctx.dir, ""),
            })
        }
    }
}

fn edit(w: &World, t: &Txn) -> Result<(), rusqlite::Error> {
    let c = Connection::open(format!("{}/{}.sqlite3", w.ctx.dir, t.file))?;
    if t.spill {
        c.execute_batch("PRAGMA cache_size = 1; PRAGMA cache_spill = 1;")?;
    }
    c.execute_batch(t.begin)?;
    sim::sleep_us(t.waits[0]);
    let r = (|| -> Result<(), rusqlite::Error> {
        for (k, (comp, ident)) in t.keys.iter().enumerate() {
            if k > 0 {
                sim::sleep_us(t.waits[1]);
            }
            match &t.style {
                Style::Move(rows) => {
                    c.execute("DELETE FROM pattern WHERE component = ?1 AND identifier = ?2", [comp, ident])?;
                    for (tag, s) in &rows[k] {
                        c.execute(
                            "INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)",
                            [comp, ident, tag, s],
                        )?;
                    }
                }
                Style::Update => {
                    c.execute(
                        "UPDATE pattern SET string = substr(string, 1, instr(string, '#') - 1) || '#' || ?1 WHERE component = ?2 AND identifier = ?3",
                        rusqlite::params![t.version as i64, comp, ident],
                    )?;
                }
                Style::Replace => {
                    let mut rows: Vec<(String, String)> = vec![];
                    {
                        let mut s = c.prepare("SELECT languageTag, string FROM pattern WHERE component = ?1 AND identifier = ?2")?;
                        let mut q = s.query([comp, ident])?;
                        while let Some(row) = q.next()? {
                            rows.push((row.get(0)?, row.get(1)?));
                        }
                    }
                    c.execute("DELETE FROM pattern WHERE component = ?1 AND identifier = ?2", [comp, ident])?;
                    sim::sleep_us(t.waits[1]);
                    for (tag, s) in rows {
                        let s = format!("{}#{}", s.split('#').next().unwrap(), t.version);
                        c.execute(
                            "INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)",
                            [comp, ident, &tag, &s],
                        )?;
                    }
                }
                Style::Grow => {
                    let tag: String = c.query_row("SELECT languageTag FROM contributor WHERE component = ?1", [comp], |r| r.get(0))?;
                    c.execute(
                        "INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, 'new')",
                        [comp, &format!("{ident} new {}", t.version), &tag],
                    )?;
                }
            }
        }
        sim::sleep_us(t.waits[2]);
        Ok(())
    })();
    if let Err(e) = r {
        let _ = c.execute_batch("ROLLBACK");
        return Err(e);
    }
    if !t.commit {
        return c.execute_batch("ROLLBACK");
    }
    let begin = w.tick();
    let mut last = Ok(());
    for _ in 0..4 {
        last = c.execute_batch("COMMIT");
        if !matches!(&last, Err(e) if sql::storage_code(e) & 0xFF == 5) {
            break;
        }
    }
    let end = w.tick();
    // A commit that fails otherwise may or may not have happened.
    let busy = matches!(&last, Err(e) if sql::storage_code(e) & 0xFF == 5);
    if busy {
        let _ = c.execute_batch("ROLLBACK");
    } else {
        w.events.lock().unwrap().push(Event {
            file: t.file.clone(),
            keys: if matches!(t.style, Style::Grow) { vec![] } else { t.keys.clone() },
            version: t.version,
            rows: if let Style::Move(rows) = &t.style { Some(rows.clone()) } else { None },
            begin,
            end,
            certain: last.is_ok(),
        });
    }
    last
}

/// Versions a lookup during [s, e] may see.
fn allowed(events: &[Event], file: &str, key: &(String, String), s: u64, e: u64) -> BTreeSet<u64> {
    let mine: Vec<&Event> = events.iter().filter(|v| v.file == file && v.keys.contains(key)).collect();
    let base = mine.iter().rposition(|v| v.certain && v.end <= s);
    let mut set = BTreeSet::new();
    set.insert(base.map(|b| mine[b].version).unwrap_or(0));
    for v in &mine[base.map(|b| b + 1).unwrap_or(0)..] {
        if v.begin < e {
            set.insert(v.version);
        }
    }
    set
}

/// Takes the versions off the strings: (answer, versions seen).
fn strip(g: &Got) -> (Got, BTreeSet<(String, u64)>) {
    let mut seen = BTreeSet::new();
    let mut f = |x: &(String, String)| {
        let (a, v) = x.0.rsplit_once('#').unwrap_or((&x.0, ""));
        let stem = a.split('|').next().unwrap_or("").to_string();
        seen.insert((stem, v.parse().unwrap_or(u64::MAX)));
        (format!("{a}#0"), x.1.clone())
    };
    let g = match g {
        Got::One(Some(x)) => Got::One(Some(f(x))),
        Got::Many(v) => {
            let mut v: Vec<_> = v.iter().map(&mut f).collect();
            v.sort();
            Got::Many(v)
        }
        g => g.clone(),
    };
    (g, seen)
}

fn key_of(o: &Op) -> Option<(String, String)> {
    match o {
        Op::One(c, i, _) | Op::Exact(c, i, _) | Op::Many(c, i, _) => Some((c.clone(), i.clone())),
        _ => None,
    }
}

/// Mode words: die (the editor dies), power (power fails), grow (details change), move (strings change languages), details.
pub fn run(spec: &Spec) -> RunResult {
    let mut res = RunResult::default();
    let has = |w: &str| spec.mode.split('-').any(|x| x == w);
    let mut r = Rng::new(spec.seed, 47);
    vfs::reset(spec.seed);
    let dir = repo::fresh_dir();
    let mut repo: Repo = repo::generate(&mut r, &dir, &repo::Opts { bad_default: 0, max_comps: 2 });
    for f in repo.files.values_mut() {
        for s in f.patterns.values_mut() {
            s.push_str("#0");
        }
    }
    repo::build(&repo);
    let before = repo::listing(&dir);
    let registry: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new());
    let tags = sql::tags(&registry, &[]);
    let grow = has("grow");
    let readers = if SYNC && (r.chance(50) || grow) { 2 } else { 1 };
    let threads = readers + 1;
    let mut ops: Vec<(usize, EOp)> = vec![];
    let stems: Vec<String> = repo.files.keys().filter(|s| !repo.files[*s].patterns.is_empty()).cloned().collect();
    let mut version = 0;
    let mut keys_edited: Vec<(String, String)> = vec![];
    // Several threads build the details at once, while the editor is quick.
    let moves = has("move");
    let race = grow && SYNC && r.chance(60) || moves && r.chance(70);
    let family: Vec<&str> = {
        let all: Vec<&str> = repo.files.values().flat_map(|f| f.patterns.keys()).filter_map(|k| k.2.split('-').next()).collect();
        let base = if all.is_empty() { "en".to_string() } else { r.pick(&all).to_string() };
        repo::TAGS.iter().filter(|t| t.split('-').next() == Some(base.as_str())).copied().collect()
    };
    let txns = if race { r.range(3, 7) } else { r.range(1, 4) };
    for _ in 0..txns {
        let file = r.pick(&stems).clone();
        let mut keys: Vec<(String, String)> =
            repo.files[&file].patterns.keys().map(|k| (k.0.clone(), k.1.clone())).collect::<BTreeSet<_>>().into_iter().collect();
        r.shuffle(&mut keys);
        keys.truncate(r.range(1, 3));
        if moves && !keys_edited.is_empty() && r.chance(80) {
            // One and the same again, if this file has it.
            let k = keys_edited[0].clone();
            if repo.files[&file].comps.iter().any(|c| c.0 == k.0) {
                keys = vec![k];
            }
        }
        keys_edited.extend(keys.iter().cloned());
        version += 1;
        let pause = |r: &mut Rng| if race { *r.pick(&[0u64, 0, 0, 50]) } else { *r.pick(&[0u64, 0, 0, 500, 20_000, 1_000_000, 3_000_000, 8_000_000, 40_000_000]) };
        ops.push((
            threads - 1,
            EOp::Edit(Txn {
                style: if moves {
                    let mut text = |c: &str, i: &str, t: &str| (t.to_string(), format!("{file}|{c}|{i}|{t}|moved#{version}"));
                    Style::Move(
                        keys.iter()
                            .map(|(c, i)| {
                                let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
                                let mut f = family.clone();
                                r.shuffle(&mut f);
                                f.iter().take(n).map(|t| text(c, i, t)).collect()
                            })
                            .collect(),
                    )
                } else if grow {
                    Style::Grow
                } else if r.chance(50) {
                    Style::Update
                } else {
                    Style::Replace
                },
                file,
                keys,
                version,
                begin: *r.pick(&["BEGIN", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"]),
                waits: [pause(&mut r), pause(&mut r), pause(&mut r)],
                spill: r.chance(40),
                commit: race || r.chance(75),
            }),
        ));
    }
    let reads = if race && grow { readers * r.range(1, 2) } else { r.range(3, 12) };
    for n in 0..reads {
        let o = if race && grow || has("details") && r.chance(60) {
            let c: Vec<String> = repo.components().keys().cloned().collect();
            if r.chance(40) {
                Op::Repo
            } else {
                Op::Comp(r.pick(&c).clone())
            }
        } else {
            let (c, i) = if r.chance(85) { r.pick(&keys_edited).clone() } else { ("application".to_string(), r.pick(repo::IDENTS).to_string()) };
            let all: Vec<String> = repo
                .files
                .values()
                .flat_map(|f| f.patterns.keys().filter(|k| k.0 == c && k.1 == i).map(|k| k.2.clone()))
                .collect();
            let mut t = if all.is_empty() { "en".to_string() } else { r.pick(&all).clone() };
            if moves && r.chance(80) {
                t = r.pick(&family).to_string();
            } else if r.chance(50) {
                t = t.split('-').next().unwrap().to_string();
            }
            match r.below(4) {
                0 => Op::One(c, i, t),
                1 => Op::Exact(c, i, t),
                _ => Op::Many(c, i, t),
            }
        };
        ops.push((if race && grow { n % readers } else { r.below(readers) }, EOp::Read(o)));
    }
    // Readers pause now and then, so that they meet the editor in every phase.
    let crash = if has("die") || has("power") {
        let horizon = *r.pick(&[6, 20, 60]);
        Some((r.below(horizon) as u64, has("power")))
    } else {
        None
    };
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    res.faults = crash.is_some() as u32;
    res.trace.extend(repo.show());
    let provider = match sql::open(&repo, &registry, r.next()) {
        Ok(p) => p,
        Err(e) => {
            res.violate(&["C10", "C13", "C06", "C09"], "open", format!("a well-formed repository does not open: {e:?}").replace(&dir, ""));
            return res;
        }
    };
    if let Some((at, power)) = crash {
        if !spec.drop_faults.contains(&0) {
            vfs::plan_crash(1, at, power);
            res.trace.push(format!("fault 0: {} at the editor's writing call {at}", if power { "the power fails" } else { "the editor dies" }));
        }
    }
    let shared = Arc::new(Share(World {
        ctx: Ctx { provider, tags, dir: dir.clone(), other: None },
        clock: AtomicU64::new(1),
        incarnation: AtomicU32::new(1),
        events: Mutex::new(vec![]),
        busy: Mutex::new(vec![]),
        spans: Mutex::new(BTreeMap::new()),
    }));
    let (records, stopped) =
        hist::run(spec, &mut res, Arc::clone(&shared), &ops, threads, (400_000, 100_000_000_000), perform, show, Got::show);
    sql::relabel(&mut res, &["C06", "C09", "C13"]);
    let world = &shared.0;
    let crashed = vfs::with(|s| s.crashed);
    let power = vfs::power_is_off();
    if crashed {
        res.fire(if power { "power failure" } else { "editor died" });
    }
    let events = world.events.lock().unwrap().clone();
    let busy = world.busy.lock().unwrap().clone();
    let spans = world.spans.lock().unwrap().clone();
    let mut first: BTreeMap<String, Got> = BTreeMap::new();
    for rec in &records {
        let EOp::Read(op) = &ops[rec.op].1 else {
            if let Err(m) = &rec.got {
                panic!("the editor panicked: {m}");
            }
            res.probe(match &rec.got {
                Ok(Got::Other(t)) if t == "done" => "editor: transaction ended",
                _ => "editor: transaction failed",
            });
            continue;
        };
        let g = match &rec.got {
            Ok(g) => g,
            Err(m) => {
                res.violate(&["C13", "C06", "C02"], &format!("panic-{}", hist::site(m)), format!("{} panics: {m}", op.show()));
                continue;
            }
        };
        if *g == Got::Other("power off".into()) {
            continue;
        }
        let (s, e) = spans[&rec.op];
        let bound = if op.details() { 600_000_000 } else { 60_000_000 };
        res.check("C13");
        res.check(if op.details() { "C09" } else { "C06" });
        if rec.took_us > bound {
            res.violate(&["C13"], "slow", format!("{} took {} s of simulated time", op.show(), rec.took_us / 1_000_000));
        }
        if let Got::Storage(t, code) = g {
            let primary = code & 0xFF;
            let edited = busy.iter().any(|b| b.0 < e && b.1 > s) || crashed;
            let fine = match primary {
                5 => rec.took_us >= 4_500_000 && edited,
                // SQLite takes the editor's journal for one left behind, or it is left behind.
                8 | 14 => edited,
                _ => false,
            };
            res.probe(if primary == 5 { "gave up waiting" } else { "journal in the way" });
            if !fine {
                res.violate(
                    &["C13", "C06"],
                    &format!("error-{primary}"),
                    format!("{} fails after {} us: {t}", op.show(), rec.took_us),
                );
            }
            continue;
        }
        judge(&mut res, &repo, op, g, &events, s, e, grow, &mut first, "");
    }
    if stopped {
        return res;
    }
    // Afterwards.
    if power || crashed {
        vfs::set_op(None);
        vfs::restart(&mut r);
        // Whoever edits next recovers the files.
        for stem in repo.files.keys() {
            let c = repo::open_rw(&repo.path(stem));
            let n: Result<i64, _> = c.query_row("SELECT count(*) FROM pattern", [], |r| r.get(0));
            if let Err(e) = n {
                panic!("recovery of {stem} failed: {e}");
            }
        }
    }
    let again;
    let ctx = if power {
        match sql::open(&repo, &registry, 1) {
            Ok(p) => {
                again = Ctx { provider: p, tags: world.ctx.tags.clone(), dir: dir.clone(), other: None };
                first.clear();
                &again
            }
            Err(e) => {
                res.violate(&["C06", "C10", "C13"], "reopen", format!("the recovered repository does not open: {e:?}").replace(&dir, ""));
                return res;
            }
        }
    } else {
        &world.ctx
    };
    for (n, (_, o)) in ops.iter().enumerate() {
        let EOp::Read(op) = o else { continue };
        if spec.drop_ops.contains(&(n as u32)) {
            continue;
        }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sql::perform(ctx, op))) {
            Err(_) => {
                let m = sim::take_panic().unwrap_or_default();
                res.violate(&["C13", "C06", "C02"], &format!("after-panic-{}", hist::site(&m)), format!("afterwards: {} panics: {m}", op.show()));
            }
            Ok(g) => {
                res.check("C06");
                if g.is_error() && !sql::wanted(&repo, op).contains(&g) {
                    res.violate(&["C06", "C13"], "after-error", format!("afterwards: {} gives {}", op.show(), g.show()));
                } else {
                    judge(&mut res, &repo, op, &g, &events, u64::MAX, u64::MAX, grow, &mut first, "afterwards: ");
                }
            }
        }
    }
    if grow {
        agree(&mut res, &repo, ctx);
    }
    sql::only_read(&mut res, &repo, &before);
    res
}

/// The details of the repository and those of its components, built while the data grew, are of one moment.
fn agree(res: &mut RunResult, repo: &Repo, ctx: &Ctx) {
    let ask = |op: Op| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sql::perform(ctx, &op))).ok();
    let Some(Got::Repo(whole)) = ask(Op::Repo) else { return };
    let mut langs: BTreeMap<String, usize> = BTreeMap::new();
    let mut total = 0;
    for c in repo.components().keys() {
        let Some(Got::Comp(d)) = ask(Op::Comp(c.clone())) else { return };
        total += d.total;
        for (l, v) in &d.langs {
            *langs.entry(l.clone()).or_default() += v.0;
        }
    }
    res.check("C09");
    let listed: BTreeMap<String, usize> = whole.langs.iter().map(|(l, v)| (l.clone(), v.0)).collect();
    if total != whole.total || langs != listed {
        res.violate(
            &["C09"],
            "disagree",
            format!("afterwards: the repository details count {} strings {listed:?}, its components' details {total} {langs:?}", whole.total),
        );
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(
    res: &mut RunResult,
    repo: &Repo,
    op: &Op,
    g: &Got,
    events: &[Event],
    s: u64,
    e: u64,
    grow: bool,
    first: &mut BTreeMap<String, Got>,
    pre: &str,
) {
    if op.details() {
        let same = first.entry(op.show()).or_insert_with(|| g.clone());
        if same != g && !g.is_error() {
            res.violate(&["C09"], "differ", format!("{pre}{} gives {} after {}", op.show(), g.show(), same.show()));
        }
        if grow && !g.is_error() {
            let fine = match g {
                Got::Comp(d) => d.total == d.langs.values().map(|l| l.0).sum::<usize>(),
                Got::Repo(d) => d.total == d.langs.values().map(|l| l.0).sum::<usize>(),
                _ => true,
            };
            if !fine {
                res.violate(&["C09", "C08"], "sum", format!("{pre}{} gives {}: the counts do not add up", op.show(), g.show()));
            }
            res.probe("details while the data grow");
            return;
        }
    }
    let mut want = sql::wanted(repo, op);
    if let (Some(key), true) = (key_of(op), events.iter().any(|v| v.rows.is_some())) {
        // The rows of the combined file and of the component's own, each as of a moment of the lookup.
        let mut all: Vec<Repo> = vec![repo.clone()];
        for stem in repo.files.keys() {
            let mut next = vec![];
            for v in allowed(events, stem, &key, s, e) {
                for x in &all {
                    let mut x = x.clone();
                    if let Some(ev) = events.iter().find(|ev| ev.file == *stem && ev.version == v && ev.keys.contains(&key)) {
                        let at = ev.keys.iter().position(|k| *k == key).unwrap();
                        let f = x.files.get_mut(stem).unwrap();
                        f.patterns.retain(|k, _| (&k.0, &k.1) != (&key.0, &key.1));
                        for (tag, text) in &ev.rows.as_ref().unwrap()[at] {
                            f.patterns.insert((key.0.clone(), key.1.clone(), tag.clone()), text.clone());
                        }
                    }
                    next.push(x);
                }
            }
            all = next;
        }
        want = all.iter().flat_map(|x| sql::wanted(x, op)).collect();
        let mut g = g.clone();
        if let Got::Many(v) = &mut g {
            v.sort();
        }
        if all.len() > 1 {
            res.probe("lookup while strings move between languages");
        }
        if !want.contains(&g) {
            res.violate(
                &["C13", "C06"],
                "moment",
                format!("{pre}{} gives {}, expected {} (as of one moment per file)", op.show(), g.show(), sql::show_want(&want)),
            );
        }
        return;
    }
    let (bare, seen) = strip(g);
    if !want.contains(&bare) {
        res.violate(
            if op.details() { &["C13", "C06", "C09", "C08"] } else { &["C13", "C06", "C07"] },
            "wrong",
            format!("{pre}{} gives {}, expected {} (in some version)", op.show(), g.show(), sql::show_want(&want)),
        );
        return;
    }
    if let Some(key) = key_of(op) {
        if seen.len() > 1 {
            res.violate(&["C13", "C06"], "mixture", format!("{pre}{} gives a mixture of versions: {}", op.show(), g.show()));
        } else if let Some((stem, v)) = seen.iter().next() {
            let ok = allowed(events, stem, &key, s, e);
            if !ok.contains(v) {
                res.violate(
                    &["C13", "C06"],
                    "version",
                    format!("{pre}{} gives version {v}: {}; committed then: {ok:?}", op.show(), g.show()),
                );
            }
            if *v > 0 {
                res.probe("saw an edited version");
            }
        }
    }
}
