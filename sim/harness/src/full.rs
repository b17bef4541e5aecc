//! Family `full`: the localiser over the SQLite provider over simulated storage.
use crate::loc::{self, Fresh, Op, Probed, World};
use crate::pattern::{self, GenOpts, Pattern};
use crate::repo::{self, File, Repo, AIO};
use crate::rng::Rng;
use crate::spec::{RunResult, Spec};
use crate::sql;
use crate::truth::{find_in, Comp, Find, Truth};
use crate::vfs;
use crate::{Rc, SYNC};
use i18n_localiser::Localiser;
use i18n_utility::LanguageTagRegistry;
use std::collections::BTreeMap;

/// Per component the places to look into, in order.
struct Files(BTreeMap<String, Vec<Comp>>);

impl Truth for Files {
    fn find(&self, comp: &str, ident: &str, tag: &str) -> Find<'_> {
        let Some(places) = self.0.get(comp) else { return Find::NoComponent };
        for p in places {
            let v = find_in(&p.strings, ident, tag);
            if !v.is_empty() {
                return Find::Answers(v);
            }
        }
        Find::Answers(vec![])
    }
    fn default_tag(&self, comp: &str) -> Option<String> {
        Some(self.0.get(comp)?.first()?.default.clone())
    }
}

/// Divides the strings of the world over files.
fn divide(r: &mut Rng, w: &World, dir: &str, opts: GenOpts) -> (Repo, Files) {
    let mut repo = Repo { dir: dir.into(), files: BTreeMap::new(), page: *r.pick(&[512, 1024, 4096]) };
    let mut truth = Files(BTreeMap::new());
    let layout = r.below(4);
    for (c, comp) in &w.truth.comps {
        // A name with a slash cannot be that of a file.
        let (aio, own) = if c.contains(['/', '\0']) {
            (true, false)
        } else {
            match layout {
                0 => (true, false),
                1 => (false, true),
                _ => *r.pick(&[(true, true), (true, true), (true, false), (false, true)]),
            }
        };
        let mut places: Vec<(String, Comp)> = vec![];
        for stem in [(aio, AIO), (own, c.as_str())].iter().filter(|x| x.0).map(|x| x.1) {
            places.push((stem.to_string(), Comp { default: comp.default.clone(), strings: BTreeMap::new() }));
        }
        for ((i, t), p) in &comp.strings {
            let key = (i.clone(), t.clone());
            if places.len() == 2 {
                let at = r.below(3);
                if at < 2 {
                    places[at].1.strings.insert(key, p.clone());
                } else {
                    // In both, with another text in the second.
                    let other: Pattern = pattern::generate(r, t, "second", opts);
                    places[0].1.strings.insert(key.clone(), p.clone());
                    places[1].1.strings.insert(key, other);
                }
            } else {
                places[0].1.strings.insert(key, p.clone());
            }
        }
        for (stem, x) in &places {
            let f: &mut File = repo.files.entry(stem.clone()).or_default();
            f.comps.push((c.clone(), x.default.clone()));
            f.contributors.insert((c.clone(), x.default.clone(), "Ann".into()));
            for ((i, t), p) in &x.strings {
                f.patterns.insert((c.clone(), i.clone(), t.clone()), p.source.clone());
                f.contributors.insert((c.clone(), t.clone(), "Bob".into()));
            }
        }
        truth.0.insert(c.clone(), places.into_iter().map(|x| x.1).collect());
    }
    (repo, truth)
}

/// Mode: words separated by '-': seq|conc, fault, nested, set.
pub fn run(spec: &Spec) -> RunResult {
    let mut res = RunResult::default();
    let has = |w: &str| spec.mode.split('-').any(|x| x == w);
    let mut r = Rng::new(spec.seed, 71);
    vfs::reset(spec.seed);
    let dir = repo::fresh_dir();
    let opts = GenOpts { commands: r.chance(30), literal_blocks: r.chance(30), complex: r.chance(50) };
    let wild = *r.pick(&[0, 0, 0, 20]);
    let w = loc::gen_world(&mut r, wild, opts, loc::COMPS);
    let (repo, truth) = divide(&mut r, &w, &dir, opts);
    repo::build(&repo);
    let before = repo::listing(&dir);
    let threads = if has("conc") && SYNC { r.range(2, 3) } else { 1 };
    let per = if threads == 1 { r.range(3, 16) } else { r.range(1, 5) };
    let init = (r.pick(&w.tags).clone(), r.chance(50), r.chance(30));
    let mut ops = loc::gen_ops(&mut r, &w, &spec.mode, threads, per, &init);
    let stems: Vec<String> = repo.files.keys().cloned().collect();
    for n in 0..ops.len() {
        if r.chance(18) {
            let file = repo.path(r.pick(&stems));
            ops[n].1 = Op::Touch(file);
        }
    }
    // Where fallback takes the details, faults may come late.
    let flat: Vec<(usize, sql::Op)> = ops
        .iter()
        .map(|(t, o)| {
            let like = match o {
                Op::Touch(f) => sql::Op::Touch(f.clone()),
                _ if r.chance(50) => sql::Op::Repo,
                _ => sql::Op::One(String::new(), String::new(), String::new()),
            };
            (*t, like)
        })
        .collect();
    let mut faults = if has("fault") { sql::gen_faults(&mut r, &flat, 5) } else { vec![] };
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    res.faults = faults.len() as u32;
    res.trace.extend(repo.show());
    for (n, f) in faults.iter_mut().enumerate() {
        if spec.drop_faults.contains(&(n as u32)) {
            f.nth = u32::MAX;
        } else {
            res.trace.push(format!("fault {n}: {}", f.show()));
        }
    }
    let registry: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new());
    let provider = match sql::open(&repo, &registry, r.next()) {
        Ok(p) => p,
        Err(e) => {
            res.violate(&["C01", "C04", "C05", "C10"], "open", format!("a well-formed repository does not open: {e:?}").replace(&dir, ""));
            return res;
        }
    };
    let icu = loc::icu();
    let provider = Probed { inner: Box::new(provider) };
    let localiser = match Localiser::try_new(&icu, &registry, Box::new(provider), &loc::commands(), init.1, init.2, &init.0) {
        Ok(l) => l,
        Err(e) => {
            res.violate(&["C01", "C02", "C03"], "construct", format!("localiser could not be made: {e}"));
            return res;
        }
    };
    res.trace.push(format!("localiser: language {} fallback {} caching {}", init.0, init.1, init.2));
    let faulty = !faults.is_empty();
    vfs::set_faults(faults);
    let fresh = Fresh::new(&icu);
    loc::drive(spec, &mut res, &truth, &fresh, localiser, None, &registry, &ops, threads, init, faulty);
    sql::only_read(&mut res, &repo, &before);
    if !res.violations.iter().any(|v| ["panic", "deadlock", "no-progress"].iter().any(|w| v.class.contains(w))) {
        sql::all_closed(&mut res);
    }
    for l in &mut res.trace {
        *l = l.replace(&dir, "");
    }
    res
}
