//! Repositories of SQLite files: generator, builder and reference model.
use crate::rng::Rng;
use crate::truth::{chain, is_variant};
use crate::vfs;
use rusqlite::{Connection, OpenFlags};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub const AIO: &str = "__all_in_one__";

pub const SCHEMA: &[(&str, &str)] = &[
    ("component", "rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, identifier TEXT UNIQUE NOT NULL, languageTag TEXT REFERENCES language (tag) ON DELETE RESTRICT ON UPDATE NO ACTION NOT NULL, comment TEXT, added DATE NOT NULL"),
    ("contributor", "rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, languageTag TEXT NOT NULL, contributor TEXT NOT NULL, substituteFor TEXT, comment TEXT, verified DATE, UNIQUE (component, languageTag, contributor)"),
    ("language", "rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, tag TEXT UNIQUE NOT NULL, englishName TEXT, added DATE NOT NULL"),
    ("languageData", "rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, languageTag TEXT NOT NULL, count INTEGER NOT NULL, ratio REAL NOT NULL, UNIQUE (component, languageTag)"),
    ("metadata", "rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, key TEXT NOT NULL, value TEXT NOT NULL, comment TEXT, verified DATE, UNIQUE (component, key)"),
    ("pattern", "rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, identifier TEXT NOT NULL, languageTag TEXT NOT NULL, string TEXT NOT NULL, comment TEXT, verified DATE, CONSTRAINT u_IdentierLanguage UNIQUE (component, identifier, languageTag)"),
];

/// Tags that are easily taken for one another. All in canonical form.
pub const TAGS: &[&str] = &[
    "en", "en-US", "en-GB", "en-ZA", "enb", "eno", "en-Latn-US", "fr", "fr-CA", "frr", "frp", "de", "de-CH", "de-AT", "de-CH-1996",
    "zh-Hant-TW", "zh-Hant", "zh-TW", "sl-nedis-rozaj", "sl-nedis", "sl", "sl-Latn-IT-nedis-rozaj",
];
pub const COMPS: &[&str] = &[
    "application", "c1", "c", "a.b", "lib-x", "C1", "grüße", "i18n_x", "my lib", "it's", ".hid", "x.sqlite3", "file:x?mode=rwc", "%41",
];
pub const IDENTS: &[&str] = &["greet", "greet2", "Greet", "a_b", "aXb", "per%", "it's", "fährt", "x"];
const PEOPLE: &[&str] = &["Ann", "Bob", "Çelik", "ann", "Bob Jr.", "X"];

#[derive(Clone, Debug, Default)]
pub struct File {
    pub comps: Vec<(String, String)>,
    pub contributors: BTreeSet<(String, String, String)>,
    /// (component, identifier, tag) -> string
    pub patterns: BTreeMap<(String, String, String), String>,
}

#[derive(Clone, Debug, Default)]
pub struct Repo {
    pub dir: String,
    pub files: BTreeMap<String, File>,
    pub page: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CompD {
    /// tag -> (count, ratio, contributors)
    pub langs: BTreeMap<String, (usize, f32, Vec<String>)>,
    pub default: String,
    pub total: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RepoD {
    pub langs: BTreeMap<String, (usize, f32)>,
    pub default: Option<String>,
    pub total: usize,
    pub comps: Vec<String>,
    pub contributors: Vec<String>,
}

pub fn find_in(f: &File, comp: &str, ident: &str, tag: &str) -> (Vec<(String, String)>, Vec<(String, String)>) {
    for t in chain(tag) {
        let exact: Vec<(String, String)> = f
            .patterns
            .get(&(comp.to_string(), ident.to_string(), t.clone()))
            .map(|s| vec![(s.clone(), t.clone())])
            .unwrap_or_default();
        let variants: Vec<(String, String)> = f
            .patterns
            .iter()
            .filter(|((c, i, g), _)| c == comp && i == ident && is_variant(&t, g))
            .map(|((_, _, g), s)| (s.clone(), g.clone()))
            .collect();
        if !exact.is_empty() || !variants.is_empty() {
            return (exact, variants);
        }
    }
    (vec![], vec![])
}

impl Repo {
    pub fn path(&self, stem: &str) -> String {
        format!("{}/{stem}.sqlite3", self.dir)
    }

    /// component -> (in the combined file, has its own file)
    pub fn components(&self) -> BTreeMap<String, (bool, bool)> {
        let mut m: BTreeMap<String, (bool, bool)> = BTreeMap::new();
        for (stem, f) in &self.files {
            if stem == AIO {
                for (c, _) in &f.comps {
                    m.entry(c.clone()).or_default().0 = true;
                }
            } else {
                m.entry(stem.clone()).or_default().1 = true;
            }
        }
        m
    }

    /// The files to look into, in order. None: no such component.
    fn places(&self, comp: &str) -> Option<Vec<&File>> {
        let c = *self.components().get(comp)?;
        let mut v = vec![];
        if c.0 {
            v.push(&self.files[AIO]);
        }
        if c.1 {
            v.push(&self.files[comp]);
        }
        Some(v)
    }

    /// Acceptable answers of `string`; empty: nothing is to be found.
    pub fn one(&self, comp: &str, ident: &str, tag: &str) -> Option<Vec<(String, String)>> {
        for f in self.places(comp)? {
            let (e, v) = find_in(f, comp, ident, tag);
            if !e.is_empty() {
                return Some(e);
            }
            if !v.is_empty() {
                return Some(v);
            }
        }
        Some(vec![])
    }

    pub fn exact(&self, comp: &str, ident: &str, tag: &str) -> Option<Option<(String, String)>> {
        for f in self.places(comp)? {
            if let Some(s) = f.patterns.get(&(comp.to_string(), ident.to_string(), tag.to_string())) {
                return Some(Some((s.clone(), tag.to_string())));
            }
        }
        Some(None)
    }

    /// Answer of `strings`, sorted.
    pub fn many(&self, comp: &str, ident: &str, tag: &str) -> Option<Vec<(String, String)>> {
        for f in self.places(comp)? {
            let (mut e, v) = find_in(f, comp, ident, tag);
            e.extend(v);
            if !e.is_empty() {
                e.sort();
                return Some(e);
            }
        }
        Some(vec![])
    }

    pub fn languages_of(&self, comp: &str, ident: &str) -> Option<Vec<String>> {
        let mut s = BTreeSet::new();
        for f in self.places(comp)? {
            for (c, i, t) in f.patterns.keys() {
                if c == comp && i == ident {
                    s.insert(t.clone());
                }
            }
        }
        Some(s.into_iter().collect())
    }

    /// Err: what is wrong with the default language.
    pub fn component(&self, comp: &str) -> Option<Result<CompD, String>> {
        let places = self.places(comp)?;
        let mut langs: BTreeMap<String, (usize, f32, BTreeSet<String>)> = BTreeMap::new();
        for f in &places {
            for (c, t, who) in &f.contributors {
                if c == comp {
                    langs.entry(t.clone()).or_default().2.insert(who.clone());
                }
            }
        }
        let default =
            places.iter().find_map(|f| f.comps.iter().find(|(c, _)| c == comp).map(|(_, t)| t.clone()));
        let Some(default) = default else { return Some(Err(format!("DefaultLanguage({comp})"))) };
        if !langs.contains_key(&default) {
            return Some(Err(format!("InvalidDefaultLanguage({comp})")));
        }
        let mut total = 0;
        for f in &places {
            for (c, _, t) in f.patterns.keys() {
                if c == comp {
                    if let Some(l) = langs.get_mut(t) {
                        l.0 += 1;
                        total += 1;
                    }
                }
            }
        }
        let base = langs[&default].0;
        let langs = langs
            .into_iter()
            .map(|(t, (n, _, who))| (t, (n, n as f32 / base as f32, who.into_iter().collect())))
            .collect();
        Some(Ok(CompD { langs, default, total }))
    }

    /// Err: all the acceptable complaints.
    pub fn details(&self) -> Result<RepoD, Vec<String>> {
        let mut bad = vec![];
        let mut d = RepoD { langs: BTreeMap::new(), default: None, total: 0, comps: vec![], contributors: vec![] };
        let mut who = BTreeSet::new();
        for c in self.components().keys() {
            match self.component(c).unwrap() {
                Err(e) => bad.push(e),
                Ok(x) => {
                    d.comps.push(c.clone());
                    d.total += x.total;
                    if c == "application" {
                        d.default = Some(x.default.clone());
                    }
                    for (t, (n, _, w)) in x.langs {
                        d.langs.entry(t).or_default().0 += n;
                        who.extend(w);
                    }
                }
            }
        }
        if !bad.is_empty() {
            return Err(bad);
        }
        if let Some(t) = &d.default {
            let base = d.langs[t].0;
            for l in d.langs.values_mut() {
                l.1 = l.0 as f32 / base as f32;
            }
        }
        d.contributors = who.into_iter().collect();
        Ok(d)
    }

    /// Most of the texts take several pages.
    pub fn long(&self) -> bool {
        let n: usize = self.files.values().map(|f| f.patterns.len()).sum();
        let l: usize = self.files.values().flat_map(|f| f.patterns.values()).filter(|s| s.len() > 400).count();
        l * 2 > n
    }

    pub fn show(&self) -> Vec<String> {
        let mut v = vec![];
        for (s, f) in &self.files {
            v.push(format!("file {s}.sqlite3: components {:?}", f.comps));
            for ((c, i, t), x) in &f.patterns {
                v.push(format!("  {c} / {i} / {t}: {x:?}"));
            }
            for (c, t, w) in &f.contributors {
                v.push(format!("  contributor {c} / {t}: {w}"));
            }
        }
        v
    }
}

// ------------------------------------------------------------------------------------------------ generator

pub struct Opts {
    /// Percentage of repositories with a component lacking a usable default language.
    pub bad_default: u32,
    pub max_comps: usize,
}

pub fn generate(r: &mut Rng, dir: &str, o: &Opts) -> Repo {
    let mut repo = Repo { dir: dir.into(), files: BTreeMap::new(), page: *r.pick(&[512, 512, 512, 1024, 4096]) };
    let mut pool: Vec<&str> = COMPS.to_vec();
    r.shuffle(&mut pool);
    let n = r.range(1, o.max_comps);
    let mut comps: Vec<String> = pool[..n].iter().map(|s| s.to_string()).collect();
    if r.chance(70) && !comps.contains(&"application".to_string()) {
        comps[0] = "application".into();
    }
    // Which languages this repository deals in: related ones.
    let mut langs: Vec<&str> = vec![];
    let families = ["en", "fr", "de", "zh", "sl"];
    for _ in 0..r.range(1, 3) {
        let f = *r.pick(&families);
        langs.extend(TAGS.iter().filter(|t| t.starts_with(f)).copied());
    }
    langs.sort();
    langs.dedup();
    r.shuffle(&mut langs);
    let layout = r.below(4); // 0: one file, 1: separate files, 2 and 3: mixture
    if layout != 1 {
        repo.files.insert(AIO.into(), File::default());
    }
    let mut serial = 0;
    for c in &comps {
        let (aio, own) = match layout {
            0 => (true, false),
            1 => (false, true),
            _ => *r.pick(&[(true, true), (true, true), (true, false), (false, true)]),
        };
        let default = r.pick(&langs).to_string();
        let mut mine: Vec<String> = langs.iter().take(r.range(1, langs.len())).map(|s| s.to_string()).collect();
        if !mine.contains(&default) {
            mine.push(default.clone());
        }
        let mut idents: Vec<&str> = IDENTS.to_vec();
        r.shuffle(&mut idents);
        idents.truncate(r.range(1, 5));
        let places: Vec<String> =
            [(aio, AIO.to_string()), (own, c.clone())].into_iter().filter(|(b, _)| *b).map(|(_, s)| s).collect();
        for (k, stem) in places.iter().enumerate() {
            let f = repo.files.entry(stem.clone()).or_default();
            // The combined file decides; the other may say something else.
            let d = if k == 0 || r.chance(70) { default.clone() } else { r.pick(&mine).clone() };
            if k == 0 || stem == AIO || r.chance(85) {
                f.comps.push((c.clone(), d));
            }
            let density = *r.pick(&[15, 40, 70]);
            for i in &idents {
                for t in &mine {
                    if r.chance(density) {
                        serial += 1;
                        let filler = "·".repeat(if r.chance(30) { r.below(40) } else { 0 });
                        f.patterns.insert((c.clone(), i.to_string(), t.clone()), format!("{stem}|{c}|{i}|{t}|{serial}{filler}"));
                    }
                }
            }
            if k == 0 {
                // The default language always has some string.
                let i = *r.pick(&idents);
                f.patterns
                    .entry((c.clone(), i.to_string(), default.clone()))
                    .or_insert_with(|| format!("{stem}|{c}|{i}|{default}|d"));
            }
            let used: BTreeSet<String> =
                f.patterns.keys().filter(|(x, _, _)| x == c).map(|(_, _, t)| t.clone()).collect();
            for t in &mine {
                if used.contains(t) || r.chance(15) {
                    for _ in 0..r.range(1, 2) {
                        f.contributors.insert((c.clone(), t.clone(), r.pick(PEOPLE).to_string()));
                    }
                }
            }
            if k == 0 {
                f.contributors.insert((c.clone(), default.clone(), r.pick(PEOPLE).to_string()));
            }
        }
        // Somebody else's rows in a component's own file are not that component's.
        if own && r.chance(25) {
            let f = repo.files.get_mut(c).unwrap();
            let x = r.pick(&["elsewhere", "c1", "c", "application"]).to_string();
            if x != *c {
                f.comps.push((x.clone(), default.clone()));
                for i in &idents {
                    let t = r.pick(&mine).clone();
                    f.patterns.insert((x.clone(), i.to_string(), t.clone()), format!("stray {x}|{i}|{t}"));
                    f.contributors.insert((x.clone(), t, "Stray".into()));
                }
            }
        }
    }
    if r.chance(o.bad_default) {
        let c = r.pick(&comps).clone();
        let miss = r.chance(50);
        for f in repo.files.values_mut() {
            if miss {
                // Only own files may lack the row: in the combined file it is what makes the component.
                continue;
            }
            for x in f.comps.iter_mut().filter(|x| x.0 == c) {
                x.1 = "xx".into();
            }
        }
        if miss && !repo.components()[&c].0 {
            repo.files.get_mut(&c).unwrap().comps.retain(|x| x.0 != c);
        }
    }
    // A component may be in several places of the list through strays only.
    for f in repo.files.values_mut() {
        let mut seen = BTreeSet::new();
        f.comps.retain(|(c, _)| seen.insert(c.clone()));
    }
    repo
}

/// Now and then something is plenty, long, empty or odd.
pub fn enrich(r: &mut Rng, repo: &mut Repo, long: u32) {
    let stems: Vec<String> = repo.files.keys().cloned().collect();
    if r.chance(4) {
        // Contributors.
        let f = repo.files.get_mut(r.pick(&stems)).unwrap();
        let rows: Vec<_> = f.contributors.iter().cloned().collect();
        if !rows.is_empty() {
            let (c, t, _) = r.pick(&rows).clone();
            let many = if r.chance(10) { 300 } else { 0 };
            for n in 0..r.range(5, 40) + many {
                f.contributors.insert((c.clone(), t.clone(), format!("Person {n}")));
            }
        }
    }
    if r.chance(4) {
        // Identifiers.
        let f = repo.files.get_mut(r.pick(&stems)).unwrap();
        let rows: Vec<_> = f.patterns.keys().cloned().collect();
        if !rows.is_empty() {
            let (c, _, t) = r.pick(&rows).clone();
            let many = if r.chance(10) { 300 } else { 0 };
            for n in 0..r.range(20, 150) + many {
                f.patterns.insert((c.clone(), format!("id{n}"), t.clone()), format!("{c}|id{n}|{t}"));
            }
        }
    }
    if r.chance(3) {
        // Languages.
        let stem = r.pick(&stems).clone();
        let f = repo.files.get_mut(&stem).unwrap();
        let rows: Vec<_> = f.patterns.keys().cloned().collect();
        if !rows.is_empty() {
            let (c, i, _) = r.pick(&rows).clone();
            for n in 0..r.range(6, 60) {
                let t = format!("en-{}{}", (b'A' + (n / 20) as u8) as char, (b'A' + (n % 20) as u8) as char);
                f.patterns.insert((c.clone(), i.clone(), t.clone()), format!("{stem}|{c}|{i}|{t}"));
                f.contributors.insert((c.clone(), t, r.pick(PEOPLE).to_string()));
            }
        }
    }
    if r.chance(3) {
        // Components.
        let own = r.chance(50) || !repo.files.contains_key(AIO);
        let many = if r.chance(15) { 80 } else { 0 };
        for n in 0..r.range(4, 14) + many {
            let c = format!("m{n}");
            let f = repo.files.entry(if own { c.clone() } else { AIO.into() }).or_default();
            let t = r.pick(&["en", "fr-CA", "sl"]).to_string();
            f.comps.push((c.clone(), t.clone()));
            f.patterns.insert((c.clone(), "greet".into(), t.clone()), format!("{c}|greet|{t}"));
            f.contributors.insert((c, t, r.pick(PEOPLE).to_string()));
        }
    }
    if r.chance(long) {
        // Texts of many pages: reading one takes storage calls and memory of its own.
        for f in repo.files.values_mut() {
            for s in f.patterns.values_mut() {
                if r.chance(80) {
                    s.push_str(&"long ".repeat(r.range(60, 1200)));
                }
            }
        }
    }
    if r.chance(25) {
        for f in repo.files.values_mut() {
            for s in f.patterns.values_mut() {
                match r.below(40) {
                    0 => s.clear(),
                    1 => s.push_str(&"long ".repeat(r.range(60, 1500))),
                    2 => s.push_str("\n{`'\"%_\u{1F600}\\ # } --\t"),
                    3 => *s = " ".into(),
                    _ => {}
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ builder

static TEMPLATES: Mutex<BTreeMap<u32, Vec<u8>>> = Mutex::new(BTreeMap::new());

pub fn open_rw(path: &str) -> Connection {
    Connection::open_with_flags(
        path,
        OpenFlags::SQLITE_OPEN_READ_WRITE | OpenFlags::SQLITE_OPEN_CREATE | OpenFlags::SQLITE_OPEN_NO_MUTEX,
    )
    .expect("open")
}

fn template(page: u32) -> Vec<u8> {
    let mut g = TEMPLATES.lock().unwrap();
    g.entry(page)
        .or_insert_with(|| {
            let p = format!("/template-{page}");
            {
                let c = open_rw(&p);
                c.execute_batch(&format!("PRAGMA page_size = {page}; PRAGMA journal_mode = MEMORY;")).expect("pragma");
                for (t, cols) in SCHEMA {
                    c.execute_batch(&format!("CREATE TABLE {t} ({cols});")).expect("create");
                }
            }
            let d = vfs::get(&p).expect("template");
            vfs::remove(&p);
            d
        })
        .clone()
}

pub fn build_file(path: &str, page: u32, f: &File) {
    vfs::put(path, template(page));
    {
        let c = open_rw(path);
        c.execute_batch("PRAGMA journal_mode = MEMORY; PRAGMA synchronous = OFF; BEGIN;").expect("begin");
        let any = f.comps.first().map(|c| c.0.clone()).unwrap_or_else(|| "none".into());
        c.execute("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', '1.0')", [any]).expect("metadata");
        {
            let mut s = c.prepare("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')").expect("sql");
            for (i, t) in &f.comps {
                s.execute([i, t]).expect("component");
            }
            let mut tags: BTreeSet<&String> = f.comps.iter().map(|c| &c.1).collect();
            tags.extend(f.patterns.keys().map(|p| &p.2));
            let mut s = c.prepare("INSERT INTO language (tag, added) VALUES (?1, '2024-01-01')").expect("sql");
            for t in tags {
                s.execute([t]).expect("language");
            }
            let mut s = c
                .prepare("INSERT INTO contributor (component, languageTag, contributor, substituteFor, comment, verified) VALUES (?1, ?2, ?3, ?4, ?5, ?6)")
                .expect("sql");
            for (a, b, w) in &f.contributors {
                let h = crate::rng::hash_str(&format!("{a}{b}{w}"));
                let (x, y, z) = (h % 3 == 0, h % 5 == 0, h % 4 == 0);
                s.execute((a, b, w, x.then_some("Somebody"), y.then_some("a remark"), z.then_some("2024-02-02"))).expect("contributor");
            }
            // What is kept here are but notes.
            let mut s = c.prepare("INSERT OR IGNORE INTO languageData (component, languageTag, count, ratio) VALUES (?1, ?2, 7777, 0.5)").expect("sql");
            for (a, b, w) in &f.contributors {
                if crate::rng::hash_str(&format!("{w}{a}{b}")) % 2 == 0 {
                    s.execute([a, b]).expect("languageData");
                }
            }
            if f.patterns.len() % 2 == 1 {
                c.execute("INSERT INTO metadata (component, key, value) VALUES ('application', 'author', '0.9')", []).expect("metadata");
            }
            let mut s = c
                .prepare("INSERT INTO pattern (component, identifier, languageTag, string, comment, verified) VALUES (?1, ?2, ?3, ?4, ?5, ?6)")
                .expect("sql");
            // Not in the order of the tags: row order must not matter.
            let mut rows: Vec<_> = f.patterns.iter().collect();
            Rng::new(crate::rng::hash_str(&rows.first().map(|r| r.1.clone()).unwrap_or_default()), 3).shuffle(&mut rows);
            for ((a, b, t), x) in rows {
                let h = crate::rng::hash_str(&format!("{a}{b}{t}"));
                s.execute((a, b, t, x, (h % 3 == 0).then_some(x), (h % 4 == 0).then_some("2024-02-02"))).expect("pattern");
            }
        }
        c.execute_batch("COMMIT;").expect("commit");
    }
    // As if it had always been there.
    let d = vfs::get(path).expect("file");
    vfs::put(path, d);
}

/// Scratch directory of this process.
pub fn scratch() -> String {
    static DIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    DIR.get_or_init(|| {
        let base = std::env::var("SIMX_DIR").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
        let d = format!("{base}/simx-{}", std::process::id());
        std::fs::create_dir_all(&d).expect("scratch directory");
        let d = std::fs::canonicalize(d).expect("scratch directory").to_str().expect("UTF-8").to_string();
        // For repositories given by a relative path.
        std::env::set_current_dir(&d).expect("current directory");
        d
    })
    .clone()
}

/// Empties and returns the directory used as repository. Real, because it is listed by the code under test; what
/// is in the files is in `vfs`.
pub fn fresh_dir() -> String {
    at_home();
    named_dir("l10n")
}

pub fn named_dir(name: &str) -> String {
    let d = format!("{}/{name}", scratch());
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("directory");
    d
}

/// Where relative paths to repositories start.
pub fn at_home() {
    std::env::set_current_dir(scratch()).expect("current directory");
}

/// The application changes its current directory.
pub fn go_away() {
    let d = format!("{}/away", scratch());
    let _ = std::fs::create_dir(&d);
    std::env::set_current_dir(&d).expect("current directory");
}

/// One of the ways to name the directory.
pub fn spelled(dir: &str, n: u64) -> String {
    let (parent, name) = dir.rsplit_once('/').expect("absolute");
    match n % 12 {
        0 => format!("{dir}/"),
        1 => format!("{parent}//./{name}"),
        2 => format!("{dir}/../{name}"),
        3 if parent == scratch() => name.into(),
        4 if parent == scratch() => format!("./{name}/"),
        5 => {
            let link = format!("{parent}/link to {name}");
            let _ = std::os::unix::fs::symlink(dir, &link);
            link
        }
        6 if parent == scratch() => {
            // Looks like an URI.
            let link = format!("file:link to {name}");
            let _ = std::os::unix::fs::symlink(dir, format!("{parent}/{link}"));
            link
        }
        _ => dir.into(),
    }
}

/// What is really in the directory: names and sizes.
pub fn listing(dir: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| {
            d.flatten()
                .map(|e| {
                    let m = std::fs::symlink_metadata(e.path());
                    format!("{} {}", e.file_name().to_string_lossy(), m.map(|m| if m.is_file() { m.len().to_string() } else { String::new() }).unwrap_or_default())
                })
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

pub fn build(repo: &Repo) {
    let mut r = Rng::new(vfs::with(|s| s.random), 91);
    let links = r.chance(6);
    for (stem, f) in &repo.files {
        let p = repo.path(stem);
        if links && r.chance(60) {
            // The file is somewhere else and has another name.
            let shared = format!("{} shared", repo.dir);
            let _ = std::fs::create_dir(&shared);
            let target = format!("{shared}/{}{}", repo.files.keys().position(|k| k == stem).unwrap(), r.pick(&[".db", "", ".sqlite3", ".v2.sqlite"]));
            std::fs::write(&target, b"").expect("placeholder");
            std::os::unix::fs::symlink(&target, &p).expect("link");
            vfs::linked(&p, &target);
        } else {
            std::fs::write(&p, b"").expect("placeholder");
        }
        build_file(&p, repo.page, f);
    }
}
