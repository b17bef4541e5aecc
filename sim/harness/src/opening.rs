//! Opening repositories: well-formed, deviating, disturbed (C10).
use crate::hist;
use crate::interpose::{with_dirs, DirPlan};
use crate::loc::Share;
use crate::repo::{self, Repo};
use crate::rng::Rng;
use crate::spec::{RunResult, Spec};
use crate::sql::{self, Ctx, Op};
use crate::vfs::{self, Fault, FaultKind};
use crate::{Rc, Tag, SYNC};
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::LanguageTagRegistry;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::sync::Arc;

/// How an error has to look.
#[derive(Clone, Debug, PartialEq)]
enum Complaint {
    Table(String),
    Column(String, String),
    Property(String, String),
    Default(String, String),
    Version,
    /// Whatever SQLite or the schema check says.
    Any,
    NoFiles,
    NotDirectory,
    Conversion,
    Io,
}

fn fits(c: &Complaint, e: &ProviderSqlite3Error) -> bool {
    match (c, e) {
        (Complaint::Any, ProviderSqlite3Error::Sqlite3(_) | ProviderSqlite3Error::SchemaInvalid(_)) => true,
        (Complaint::NoFiles, ProviderSqlite3Error::NoSqlite3Files(_)) => true,
        (Complaint::NotDirectory, ProviderSqlite3Error::NotDirectory(_) | ProviderSqlite3Error::NotExists(_)) => true,
        (Complaint::Conversion, ProviderSqlite3Error::PathConversion) => true,
        (Complaint::Io, ProviderSqlite3Error::Io(_)) => true,
        (c, ProviderSqlite3Error::SchemaInvalid(s)) => match (c, s) {
            (Complaint::Table(t), SchemaError::MissingTable(x)) => t == x,
            (Complaint::Column(t, k), SchemaError::MissingColumn(x, y)) => t == x && k == y,
            (Complaint::Property(t, k), SchemaError::ColumnProperty(x, y, _)) => t == x && k == y,
            (Complaint::Property(t, k), SchemaError::ColumnMismatch(x, y)) => t == x && k == y,
            (Complaint::Default(t, k), SchemaError::ColumnDefault(x, y, _)) => t == x && k == y,
            (Complaint::Default(t, k), SchemaError::ColumnMismatch(x, y)) => t == x && k == y,
            (Complaint::Version, SchemaError::Version(..) | SchemaError::MissingVersion(_)) => true,
            _ => false,
        },
        _ => false,
    }
}

/// A `*.sqlite3` entry of the directory.
#[derive(Clone, Debug)]
struct Entry {
    stem: String,
    what: String,
    /// None: it counts as (one of) the repository's files, as `files[stem]` of the model.
    wrong: Option<Complaint>,
    /// It cannot be opened: it does not count.
    absent: bool,
    /// May fail to open because of what an editor left behind.
    shaky: bool,
}

/// Column definitions of a table (top-level commas), without table constraints.
fn columns(table: &str) -> Vec<(String, String)> {
    let def = repo::SCHEMA.iter().find(|s| s.0 == table).unwrap().1;
    let mut parts = vec![];
    let (mut depth, mut cur) = (0, String::new());
    for c in def.chars() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            ',' if depth == 0 => {
                parts.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    parts.push(cur);
    parts
        .into_iter()
        .map(|p| p.trim().to_string())
        .filter(|p| !p.starts_with("UNIQUE") && !p.starts_with("CONSTRAINT"))
        .map(|p| {
            let (a, b) = p.split_once(' ').unwrap();
            (a.to_string(), b.to_string())
        })
        .collect()
}

/// Writes a file which deviates from the schema in one respect.
fn deviate(r: &mut Rng, path: &str, page: u32) -> (String, Complaint) {
    let tables: Vec<&str> = repo::SCHEMA.iter().map(|s| s.0).collect();
    let checked: Vec<&str> = tables.iter().filter(|t| **t != "metadata").copied().collect();
    let mut skip = String::new();
    let mut changed: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut version: Option<&str> = Some("1.0");
    let (what, complaint) = match r.below(12) {
        0 => {
            skip = r.pick(&tables).to_string();
            (format!("table {skip} missing"), Complaint::Table(skip.clone()))
        }
        1 => {
            version = *r.pick(&[None, Some("1.1"), Some("2.0"), Some(""), Some("0.9"), Some("1"), Some("1.0.1"), Some("10")]);
            (format!("version {version:?}"), Complaint::Version)
        }
        k => {
            let t = r.pick(&checked).to_string();
            let mut cols = columns(&t);
            let n = r.below(cols.len());
            let name = cols[n].0.clone();
            let def = cols[n].1.clone();
            let (what, c) = match k {
                2 | 3 => {
                    cols.remove(n);
                    (format!("column {t}.{name} missing"), Complaint::Column(t.clone(), name.clone()))
                }
                4 => {
                    let l = cols.len() - 1;
                    let name = cols.remove(l).0;
                    (format!("last column {t}.{name} missing"), Complaint::Column(t.clone(), name.clone()))
                }
                5 => {
                    cols[n].0 = format!("{name}2");
                    (format!("column {t}.{name} renamed"), Complaint::Column(t.clone(), name.clone()))
                }
                6 | 7 if n > 0 => {
                    let ty = def.split(' ').next().unwrap();
                    let other = *r.pick(&["BLOB", "TEXT", "INTEGER", "REAL", "DATE", "VARCHAR(9)", "NUMERIC"]);
                    let other = if other == ty { "BLOB" } else { other };
                    cols[n].1 = def.replacen(ty, other, 1);
                    (format!("column {t}.{name} of type {other}"), Complaint::Property(t.clone(), name.clone()))
                }
                8 | 9 => {
                    cols[n].1 = if def.contains(" NOT NULL") { def.replace(" NOT NULL", "") } else { format!("{def} NOT NULL") };
                    (format!("column {t}.{name} with NOT NULL the other way round"), Complaint::Property(t.clone(), name.clone()))
                }
                10 => {
                    if r.chance(50) {
                        cols[0].1 = "INTEGER NOT NULL".into();
                        (format!("{t} without primary key"), Complaint::Property(t.clone(), cols[0].0.clone()))
                    } else {
                        cols[0].1 = "INTEGER NOT NULL".into();
                        let n = n.max(1);
                        let name = cols[n].0.clone();
                        cols.push(("PRIMARY".into(), format!("KEY (rowID, {name})")));
                        (format!("{t} with primary key (rowID, {name})"), Complaint::Property(t.clone(), name))
                    }
                }
                _ => {
                    let n = n.max(1);
                    let (name, def) = cols[n].clone();
                    let text = def.starts_with("TEXT") || def.starts_with("DATE");
                    cols[n].1 = format!("{def} DEFAULT {}", if text { *r.pick(&["'x'", "''", "5"]) } else { *r.pick(&["5", "0", "'x'"]) });
                    (
                        format!("column {t}.{name} with a default value"),
                        if text { Complaint::Default(t.clone(), name) } else { Complaint::Any },
                    )
                }
            };
            changed.insert(t, cols.into_iter().map(|(a, b)| format!("{a} {b}")).collect());
            (what, c)
        }
    };
    vfs::remove(path);
    {
        let c = repo::open_rw(path);
        c.execute_batch(&format!("PRAGMA page_size = {page}; PRAGMA journal_mode = MEMORY; PRAGMA synchronous = OFF; BEGIN;")).expect("pragma");
        let mut order: Vec<&(&str, &str)> = repo::SCHEMA.iter().collect();
        r.shuffle(&mut order);
        for (t, def) in order {
            if *t == skip {
                continue;
            }
            let def = changed.get(*t).map(|c| c.join(", ")).unwrap_or(def.to_string());
            c.execute_batch(&format!("CREATE TABLE {t} ({def});")).expect("create");
        }
        if let (Some(v), true) = (version, skip != "metadata") {
            c.execute("INSERT INTO metadata (component, key, value) VALUES ('application', 'schema_version', ?1)", [v]).expect("version");
        }
        c.execute_batch("COMMIT;").expect("commit");
    }
    let d = vfs::get(path).expect("file");
    vfs::put(path, d);
    (what, complaint)
}

#[derive(Clone, Debug)]
struct OOp {
    /// None: the directory itself.
    path: Option<(String, Complaint)>,
    convert: bool,
    dirs: DirPlan,
    probes: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
struct Out {
    /// None: opened.
    error: Option<String>,
    complaints: Vec<Complaint>,
    answers: Vec<sql::Got>,
    listing: u32,
}

struct World {
    dir: String,
    registry: Rc<LanguageTagRegistry>,
    tags: BTreeMap<String, Tag>,
}

struct Unconvertible;
impl TryInto<PathBuf> for Unconvertible {
    type Error = ();
    fn try_into(self) -> Result<PathBuf, ()> {
        Err(())
    }
}

fn perform(w: &World, n: usize, o: &OOp) -> Out {
    struct Unset;
    impl Drop for Unset {
        fn drop(&mut self) {
            vfs::set_op(None);
        }
    }
    let (r, listing) = {
        vfs::set_op(Some(n));
        let _u = Unset;
        with_dirs(o.dirs.clone(), || {
            let _w = vfs::watch();
            if o.convert {
                LocalisationProviderSqlite3::try_new(Unconvertible, &w.registry, false)
            } else {
                let dir = repo::spelled(&w.dir, o.dirs.shuffle / 4);
                let p = o.path.as_ref().map(|p| p.0.as_str()).unwrap_or(&dir);
                LocalisationProviderSqlite3::try_new(p, &w.registry, o.dirs.shuffle % 4 == 0)
            }
        })
    };
    match r {
        Err(e) => {
            let all = [
                Complaint::Any,
                Complaint::NoFiles,
                Complaint::NotDirectory,
                Complaint::Conversion,
                Complaint::Io,
                Complaint::Version,
            ];
            let mut complaints: Vec<Complaint> = all.into_iter().filter(|c| fits(c, &e)).collect();
            if let ProviderSqlite3Error::SchemaInvalid(s) = &e {
                match s {
                    SchemaError::MissingTable(t) => complaints.push(Complaint::Table(t.clone())),
                    SchemaError::MissingColumn(t, c) => complaints.push(Complaint::Column(t.clone(), c.clone())),
                    SchemaError::ColumnProperty(t, c, _) => complaints.push(Complaint::Property(t.clone(), c.clone())),
                    SchemaError::ColumnDefault(t, c, _) => complaints.push(Complaint::Default(t.clone(), c.clone())),
                    SchemaError::ColumnMismatch(t, c) => {
                        complaints.push(Complaint::Property(t.clone(), c.clone()));
                        complaints.push(Complaint::Default(t.clone(), c.clone()));
                    }
                    _ => {}
                }
            }
            Out { error: Some(format!("{e:?}").replace(&repo::scratch(), "")), complaints, answers: vec![], listing }
        }
        Ok(p) => {
            let ctx = Ctx { provider: p, tags: w.tags.clone(), dir: w.dir.clone(), other: None };
            let answers = o.probes.iter().map(|p| sql::perform(&ctx, p)).collect();
            Out { error: None, complaints: vec![], answers, listing }
        }
    }
}

/// Mode words: seq|conc, fault, dir (listing faults).
pub fn run(spec: &Spec) -> RunResult {
    let mut res = RunResult::default();
    let has = |w: &str| spec.mode.split('-').any(|x| x == w);
    let mut r = Rng::new(spec.seed, 53);
    vfs::reset(spec.seed);
    let dir = repo::fresh_dir();
    let mut repo: Repo = repo::generate(&mut r, &dir, &repo::Opts { bad_default: 10, max_comps: 3 });
    if r.chance(8) {
        repo.files.clear();
    }
    if r.chance(6) {
        // A combined file without components.
        repo.files.retain(|s, _| s != repo::AIO);
        repo.files.insert(repo::AIO.into(), repo::File::default());
    }
    let plenty = r.chance(2);
    if plenty {
        // Many files.
        for n in 0..r.range(15, 100) {
            let c = format!("mod{n}");
            let mut f = repo::File { comps: vec![(c.clone(), "en".into())], ..Default::default() };
            f.patterns.insert((c.clone(), "title".into(), "en".into()), format!("{c}|title|en"));
            f.contributors.insert((c.clone(), "en".into(), "Ann".into()));
            repo.files.insert(c, f);
        }
    }
    repo::build(&repo);
    let mut entries: Vec<Entry> = repo
        .files
        .keys()
        .map(|s| Entry { stem: s.clone(), what: "well-formed".into(), wrong: None, absent: false, shaky: false })
        .collect();
    // What else the files may have, without harm.
    for stem in repo.files.keys() {
        if r.chance(20) {
            let c = repo::open_rw(&repo.path(stem));
            let more = *r.pick(&[
                "CREATE TABLE extra (a INTEGER); INSERT INTO extra VALUES (1);",
                "ALTER TABLE pattern ADD COLUMN more TEXT;",
                "ALTER TABLE language ADD COLUMN more TEXT DEFAULT 'x';",
                "CREATE INDEX i1 ON pattern (component, identifier);",
                "CREATE VIEW v1 AS SELECT * FROM pattern;",
                "INSERT INTO metadata (component, key, value) VALUES ('zz', 'schema_version', '1.0'), ('zz', 'other', '9.9');",
            ]);
            c.execute_batch(&format!("PRAGMA journal_mode = MEMORY; PRAGMA synchronous = OFF; {more}")).expect("extra");
            drop(c);
            let d = vfs::get(&repo.path(stem)).unwrap();
            vfs::put(&repo.path(stem), d);
        }
    }
    let place = |name: &str| std::fs::write(format!("{dir}/{name}"), b"").expect("placeholder");
    let fresh: Vec<&str> = ["c1", "zz", "application", "__all_in_one__", "i18n_x", "C1", "a.b.c", "my lib", ".z", "it's"]
        .into_iter()
        .filter(|s| !repo.files.contains_key(*s))
        .collect();
    let mut fresh: Vec<&str> = fresh;
    r.shuffle(&mut fresh);
    let bads = *r.pick(&[0, 0, 0, 1, 1, 1, 1, 2]);
    for _ in 0..bads.min(fresh.len()) {
        let stem = fresh.pop().unwrap().to_string();
        let path = repo.path(&stem);
        place(&format!("{stem}.sqlite3"));
        let (what, wrong) = match r.below(10) {
            0 => {
                vfs::put(&path, vec![]);
                ("empty".to_string(), Complaint::Any)
            }
            1 => {
                let n = *r.pick(&[1, 40, 600, 5000]);
                vfs::put(&path, vec![b'x'; n]);
                ("not a database".to_string(), Complaint::Any)
            }
            _ => deviate(&mut r, &path, repo.page),
        };
        entries.push(Entry { stem, what, wrong: Some(wrong), absent: false, shaky: false });
    }
    if r.chance(15) && !fresh.is_empty() {
        let stem = fresh.pop().unwrap().to_string();
        if r.chance(50) {
            std::fs::create_dir(format!("{dir}/{stem}.sqlite3")).expect("directory");
            entries.push(Entry { stem, what: "a directory".into(), wrong: None, absent: true, shaky: false });
        } else {
            std::os::unix::fs::symlink("/nonexistent", format!("{dir}/{stem}.sqlite3")).expect("link");
            entries.push(Entry { stem, what: "a dangling link".into(), wrong: None, absent: true, shaky: false });
        }
    }
    // Names which are none of the provider's business; what they hold would show.
    let decoys = ["readme.txt", "zz.sqlite3.bak", "zz.sqlite", "sqlite3", ".sqlite3", "ZZ.SQLITE3", "yy.sqlite3-journal", "zz.sqlite3~", "zzsqlite3", "zz.sqlite33"];
    for _ in 0..r.below(3) {
        let name = *r.pick(&decoys);
        place(name);
        let path = format!("{dir}/{name}");
        if r.chance(50) {
            vfs::put(&path, vec![b'y'; 700]);
        } else {
            let f = repo::File { comps: vec![("decoy".into(), "en".into())], ..Default::default() };
            repo::build_file(&path, repo.page, &f);
        }
        res.trace.push(format!("also in the directory: {name}"));
    }
    if plenty || r.chance(2) {
        for n in 0..r.range(10, 150) {
            let name = format!("note{n}.txt");
            place(&name);
            vfs::put(&format!("{dir}/{name}"), vec![b'n'; 20]);
        }
        res.trace.push("also in the directory: many note{n}.txt".into());
    }
    if r.chance(20) {
        let sub = *r.pick(&["sub", "old", "l10n", "sub.d"]);
        std::fs::create_dir(format!("{dir}/{sub}")).expect("directory");
        place(&format!("{sub}/zz.sqlite3"));
        let f = repo::File { comps: vec![("decoy".into(), "en".into())], ..Default::default() };
        repo::build_file(&format!("{dir}/{sub}/zz.sqlite3"), repo.page, &f);
        res.trace.push(format!("also in the directory: {sub}/ with zz.sqlite3"));
    }
    // A name which is not UTF-8: whatever becomes of it, nothing else changes.
    let mut odd = None;
    if r.chance(12) {
        let name = b"gr\xfc\xdfe.sqlite3";
        let full = [dir.as_bytes(), b"/", name].concat();
        std::fs::write(std::ffi::OsStr::from_bytes(&full), b"").expect("placeholder");
        let f = repo::File { comps: vec![("gr".into(), "en".into())], ..Default::default() };
        let stem = String::from_utf8_lossy(b"gr\xfc\xdfe").to_string();
        repo::build_file("/odd", repo.page, &f);
        let d = vfs::get("/odd").unwrap();
        vfs::put(&vfs::key(&full), d);
        odd = Some((stem, f));
        res.trace.push("also in the directory: gr\\xfc\\xdfe.sqlite3".into());
    }
    // An editor died in the middle of a change.
    if r.chance(15) && !repo.files.is_empty() {
        let stems: Vec<String> = repo.files.keys().cloned().collect();
        let stem = r.pick(&stems).clone();
        let horizon = *r.pick(&[6, 20, 60]);
        vfs::plan_crash(1, r.below(horizon) as u64, false);
        vfs::set_role(1);
        if let Ok(c) = rusqlite::Connection::open(repo.path(&stem)) {
            let _ = c.execute_batch("PRAGMA cache_size = 1; PRAGMA cache_spill = 1; BEGIN;");
            let _ = c.execute_batch(
                "UPDATE pattern SET string = 'uncommitted ' || string; UPDATE component SET identifier = identifier || 'x'; \
                 DROP TABLE languageData; CREATE TABLE junk AS SELECT * FROM pattern;",
            );
            let _ = c.execute_batch("ROLLBACK;");
        }
        vfs::set_role(0);
        if vfs::with(|s| s.crashed) {
            res.fire("editor died");
            let e = entries.iter_mut().find(|e| e.stem == stem).unwrap();
            e.shaky = true;
            e.what = "well-formed, but an editor died in a transaction".into();
        }
    }
    for e in &entries {
        res.trace.push(format!("{}.sqlite3: {}", e.stem, e.what));
    }
    res.trace.extend(repo.show());
    let registry: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new());
    let tags = sql::tags(&registry, &[]);
    let threads = if has("conc") && SYNC { r.range(2, 3) } else { 1 };
    let count = r.range(1, 4);
    let mut ops: Vec<(usize, OOp)> = vec![];
    let mut faults: Vec<Fault> = vec![];
    for n in 0..count {
        let mut o = OOp { path: None, convert: false, dirs: DirPlan { shuffle: r.next(), ..Default::default() }, probes: vec![] };
        if r.chance(6) {
            let any = entries.iter().find(|e| e.what == "well-formed").map(|e| format!("{dir}/{}.sqlite3", e.stem));
            let p = match (r.below(2), any) {
                (0, Some(p)) => p,
                _ => format!("{dir}/nowhere"),
            };
            o.path = Some((p, Complaint::NotDirectory));
        } else if r.chance(2) {
            o.convert = true;
        } else if has("dir") && r.chance(60) {
            let e = *r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM, libc::EMFILE]);
            if r.chance(30) {
                o.dirs.open_error = Some(e);
            } else {
                o.dirs.read_error = Some((r.below(8), e));
            }
        } else if has("fault") && r.chance(80) {
            let kind = match r.below(16) {
                0..=4 => FaultKind::ReadError,
                5 | 6 => FaultKind::ShortRead,
                7 => FaultKind::Garbage,
                8..=10 => FaultKind::CantOpen,
                11 => FaultKind::LockError,
                12 => FaultKind::Busy(*r.pick(&[200_000, 2_000_000, 30_000_000])),
                13 => FaultKind::SizeError,
                // Not with a journal about: SQLite deletes the journal of an empty file.
                14 if !entries.iter().any(|e| e.shaky) => FaultKind::SizeZero,
                _ => FaultKind::NoMemory,
            };
            let reach = *r.pick(&[3usize, 12, 40, 120]);
            let nth = match kind {
                FaultKind::CantOpen => r.below(4),
                FaultKind::NoMemory => r.below(reach * 3),
                _ => r.below(reach),
            } as u32;
            faults.push(Fault { op: n, kind, nth, times: *r.pick(&[1, 1, 2, 1_000_000]) });
        }
        o.probes.push(Op::Repo);
        if !repo.components().is_empty() {
            for _ in 0..3 {
                o.probes.push(sql::gen_op(&mut r, &repo, 25));
            }
        }
        o.probes.push(Op::One("decoy".into(), "x".into(), "en".into()));
        o.probes.push(Op::Comp("zz".into()));
        ops.push((r.below(threads), o));
    }
    for (n, f) in faults.iter_mut().enumerate() {
        if spec.drop_faults.contains(&(n as u32)) {
            f.nth = u32::MAX;
        } else {
            res.trace.push(format!("fault {n}: {}", f.show()));
        }
    }
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    res.faults = faults.len() as u32;
    vfs::set_faults(faults.clone());
    let before = repo::listing(&dir);
    let shared = Arc::new(Share(World { dir: dir.clone(), registry, tags }));
    let (records, stopped) = hist::run(
        spec,
        &mut res,
        Arc::clone(&shared),
        &ops,
        threads,
        (200_000, 100_000_000_000),
        perform,
        |o| {
            if o.convert {
                "open something which is not a path".into()
            } else {
                let mut s = format!("open {}", o.path.as_ref().map(|p| p.0.rsplit('/').next().unwrap()).unwrap_or("the directory"));
                if let Some(e) = o.dirs.open_error {
                    s += &format!(", listing fails with errno {e}");
                }
                if let Some((n, e)) = o.dirs.read_error {
                    s += &format!(", listing fails at entry {n} with errno {e}");
                }
                s
            }
        },
        |g| match &g.error {
            Some(e) => e.clone(),
            None => format!("opened; {}", g.answers.iter().map(|a| a.show()).collect::<Vec<_>>().join("; ")),
        },
    );
    sql::relabel(&mut res, &["C10"]);
    let fired: Vec<(usize, usize)> = vfs::with(|s| std::mem::take(&mut s.fired));
    vfs::set_faults(vec![]);
    for rec in &records {
        let o = &ops[rec.op].1;
        res.check("C10");
        let g = match &rec.got {
            Ok(g) => g,
            Err(m) => {
                res.violate(&["C10", "C02"], &format!("panic-{}", hist::site(m)), format!("opening panics: {m}"));
                continue;
            }
        };
        let mine: Vec<usize> = fired.iter().filter(|f| f.0 == rec.op).map(|f| f.1).collect();
        let kinds: BTreeSet<usize> = mine.iter().copied().collect();
        for k in &kinds {
            res.fire(&faults[*k].kind.name());
        }
        if g.listing > 0 {
            res.fire("directory listing fails");
        }
        let cant = kinds.iter().any(|k| matches!(faults[*k].kind, FaultKind::CantOpen | FaultKind::NoMemory));
        let headers = vfs::with(|s| s.headers.get(&rec.op).copied().unwrap_or(0));
        let gone = if cant { mine.len() } else { headers };
        let cant = gone > 0;
        let other = kinds.iter().any(|k| faults[*k].kind != FaultKind::CantOpen);
        if o.convert || o.path.is_some() {
            let want = if o.convert { Complaint::Conversion } else { Complaint::NotDirectory };
            if !g.complaints.contains(&want) {
                res.violate(&["C10"], "path", format!("{} gives {:?}, expected {want:?}", if o.convert { "a non-path" } else { "a path to no directory" }, g.error));
            }
            continue;
        }
        // Which files could not be opened this time?
        let solid: Vec<&Entry> = entries.iter().filter(|e| !e.absent).collect();
        let mut ok = false;
        let mut wants: Vec<String> = vec![];
        if plenty && gone > 1 {
            // Too many possibilities.
            continue;
        }
        let masks: Vec<u128> = match gone {
            0 => vec![0],
            1 => (0..=solid.len()).map(|k| if k == 0 { 0 } else { 1 << (k - 1) }).collect(),
            _ => (0u128..1 << solid.len()).filter(|m| m.count_ones() as usize <= gone).collect(),
        };
        for mask in masks {
            for with_odd in [false, true] {
                if with_odd && odd.is_none() {
                    continue;
                }
                let here: Vec<&&Entry> = solid.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 0).map(|(_, e)| e).collect();
                let mut model = repo.clone();
                model.files.retain(|s, _| here.iter().any(|e| e.stem == *s && e.wrong.is_none()));
                if with_odd {
                    let (s, f) = odd.clone().unwrap();
                    model.files.insert(s, f);
                }
                let mut errs: Vec<Complaint> = here.iter().filter_map(|e| e.wrong.clone()).collect();
                let mut may: Vec<Complaint> = vec![];
                if here.iter().any(|e| e.shaky) || other {
                    may.push(Complaint::Any);
                }
                if other || cant {
                    may.push(Complaint::Any);
                }
                if g.listing > 0 {
                    errs.push(Complaint::Io);
                } else if errs.is_empty() && model.components().is_empty() {
                    errs.push(Complaint::NoFiles);
                }
                match &g.error {
                    Some(_) => {
                        if errs.iter().chain(may.iter()).any(|c| g.complaints.contains(c)) {
                            ok = true;
                        } else {
                            wants.push(format!("{errs:?}"));
                        }
                    }
                    None => {
                        if !errs.is_empty() {
                            wants.push(format!("an error: {errs:?}"));
                        } else {
                            let bad = o.probes.iter().zip(&g.answers).find(|(p, a)| {
                                !sql::wanted(&model, p).iter().any(|w| w.show() == a.show())
                                    // What an editor left behind may show only now.
                                    && !(matches!(a, sql::Got::Storage(..)) && here.iter().any(|e| e.shaky))
                            });
                            match bad {
                                None => ok = true,
                                Some((p, a)) => wants.push(format!("{} to give {}, not {}", p.show(), sql::show_want(&sql::wanted(&model, p)), a.show())),
                            }
                        }
                    }
                }
            }
        }
        res.probe(if g.error.is_some() { "refused" } else { "opened" });
        if !ok {
            wants.dedup();
            let class = match &g.error {
                Some(_) => "refused",
                None if wants.iter().all(|w| w.starts_with("an error")) => "accepted",
                None => "answers",
            };
            res.violate(
                &["C10"],
                class,
                format!(
                    "directory with {}: opening gives {}; expected {}",
                    entries.iter().map(|e| format!("{}.sqlite3 ({})", e.stem, e.what)).collect::<Vec<_>>().join(", "),
                    g.error.clone().unwrap_or("a provider".into()),
                    wants.join(" or ")
                ),
            );
        }
    }
    sql::only_read(&mut res, &repo, &before);
    if !stopped && !res.violations.iter().any(|v| v.class.contains("panic")) {
        sql::all_closed(&mut res);
    }
    res
}
