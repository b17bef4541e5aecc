//! Family `loc`: a localiser over a repository, driven by several threads, with repository faults.
use crate::pattern::{self, GenOpts, NestedData, Pattern, Val};
use crate::rng::{hash_str, mix, Rng};
use crate::spec::{RunResult, Spec};
use crate::truth::{Comp, Find, Plain, Truth};
use crate::{Rc, Tag};
use i18n_lexer::{DataProvider, IcuDataProvider};
use i18n_localiser::{CommandError, CommandRegistry, FormatterError, Localiser, LocaliserError};
use i18n_provider::{
    ComponentDetails, IdentifierDetails, LanguageData, LocalisationProviderTrait, ProviderError, ProviderErrorTrait,
    RepositoryDetails,
};
use i18n_utility::{
    LanguageTagRegistry, LocalisationData, LocalisationErrorTrait, LocalisationTrait, PlaceholderValue,
};
use simstd::sim::{self, Kind};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Moves anything into simulated threads: only one of them runs at any time.
pub struct Share<T>(pub T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

// ------------------------------------------------------------------------------------------------ repository stub

#[derive(Debug)]
pub struct SimError(pub String);
impl std::fmt::Display for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimError {}", self.0)
    }
}
impl std::error::Error for SimError {}
impl LocalisationTrait for SimError {
    fn localisation_data(&self) -> LocalisationData {
        LocalisationData { component: "sim".into(), identifier: "fault".into(), values: None }
    }
}
impl ProviderErrorTrait for SimError {}

#[derive(Clone, Debug)]
pub struct Fault {
    pub op: usize,
    pub call: u32,
    pub kind: u8,
}

pub const FAULT_KINDS: &[&str] = &[
    "repository-error", "repository-component-not-found", "repository-default-language", "repository-invalid-default",
    "repository-no-default-strings", "repository-stall",
];

/// What one operation did to the repository.
#[derive(Default, Clone, Debug)]
pub struct Activity {
    pub calls: u32,
    pub error: Option<String>,
    pub fired: Vec<String>,
    /// Storage faults in this operation or one at the same time.
    pub storage: Vec<String>,
    /// Which kinds of calls, in order: s(tring), d(etails), e(xact), m(any)...
    pub kinds: String,
}

thread_local! {
    static ACT: RefCell<Activity> = RefCell::new(Activity::default());
    static CUR_OP: RefCell<usize> = const { RefCell::new(usize::MAX) };
}
fn act<R>(f: impl FnOnce(&mut Activity) -> R) -> R {
    ACT.with(|a| f(&mut a.borrow_mut()))
}

pub struct SimProvider {
    pub truth: Plain,
    pub registry: Rc<LanguageTagRegistry>,
    pub faults: Vec<Fault>,
}
unsafe impl Send for SimProvider {}
unsafe impl Sync for SimProvider {}

fn fault_error(kind: u8, id: &str) -> ProviderError {
    match kind {
        1 => ProviderError::ComponentNotFound(id.to_string()),
        2 => ProviderError::DefaultLanguage(id.to_string()),
        3 => ProviderError::InvalidDefaultLanguage(id.to_string()),
        4 => ProviderError::DefaultLanguageCount(id.to_string(), "xx".into()),
        _ => ProviderError::Custom(Rc::new(Box::new(SimError(id.to_string())))),
    }
}

impl SimProvider {
    fn enter(&self) -> Result<(), ProviderError> {
        sim::point(Kind::Provider);
        if !sim::active() {
            return Ok(());
        }
        let op = CUR_OP.with(|c| *c.borrow());
        let call = act(|a| a.calls);
        for f in &self.faults {
            if f.op == op && f.call == call {
                if f.kind == 5 {
                    act(|a| a.fired.push(FAULT_KINDS[5].to_string()));
                    sim::sleep_us(1_000_000);
                    sim::point(Kind::Provider);
                    continue;
                }
                let id = format!("fault-{}-{}", f.op, f.call);
                act(|a| a.fired.push(FAULT_KINDS[f.kind as usize].to_string()));
                return Err(fault_error(f.kind, &id));
            }
        }
        Ok(())
    }
    fn comp(&self, c: &str) -> Result<&Comp, ProviderError> {
        self.truth.comps.get(c).ok_or_else(|| ProviderError::ComponentNotFound(c.to_string()))
    }
}

impl LocalisationProviderTrait for SimProvider {
    fn string(&self, c: &str, i: &str, t: &Tag) -> Result<Option<(String, Tag)>, ProviderError> {
        self.enter()?;
        self.comp(c)?;
        let r = match self.truth.find(c, i, t.as_str()) {
            Find::Answers(v) => v.into_iter().next(),
            _ => None,
        };
        let r = match r {
            None => None,
            Some((tag, p)) => Some((p.source.clone(), self.registry.tag(&tag)?)),
        };
        sim::point(Kind::Provider);
        Ok(r)
    }
    fn string_exact_match(&self, c: &str, i: &str, t: &Tag) -> Result<Option<(String, Tag)>, ProviderError> {
        self.enter()?;
        let comp = self.comp(c)?;
        Ok(comp.strings.get(&(i.to_string(), t.as_str().to_string())).map(|p| (p.source.clone(), Rc::clone(t))))
    }
    fn strings(&self, c: &str, i: &str, t: &Tag) -> Result<Vec<(String, Tag)>, ProviderError> {
        self.enter()?;
        let comp = self.comp(c)?;
        let mut v = vec![];
        for (tag, p) in crate::truth::find_in(&comp.strings, i, t.as_str()) {
            v.push((p.source.clone(), self.registry.tag(&tag)?));
        }
        Ok(v)
    }
    fn identifier_details(&self, c: &str, i: &str) -> Result<IdentifierDetails, ProviderError> {
        self.enter()?;
        let comp = self.comp(c)?;
        let mut languages = vec![];
        for ((ident, tag), _) in &comp.strings {
            if ident == i {
                languages.push(self.registry.tag(tag)?);
            }
        }
        Ok(IdentifierDetails { languages, default: self.registry.tag(&comp.default)? })
    }
    fn component_details(&self, c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        self.enter()?;
        let comp = self.comp(c)?;
        let mut languages = HashMap::new();
        for (_, tag) in comp.strings.keys() {
            let t = self.registry.tag(tag)?;
            languages.entry(t).or_insert(LanguageData { count: 0, ratio: 0.0, contributors: vec![] }).count += 1;
        }
        let r = Rc::new(ComponentDetails {
            languages,
            default: self.registry.tag(&comp.default)?,
            total_strings: comp.strings.len(),
        });
        sim::point(Kind::Provider);
        Ok(r)
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        self.enter()?;
        Ok(Rc::new(RepositoryDetails {
            languages: HashMap::new(),
            default: None,
            total_strings: 0,
            components: self.truth.comps.keys().cloned().collect(),
            contributors: vec![],
        }))
    }
}

/// Counts the calls that reach the repository and remembers the errors it answers with.
pub struct Probed {
    pub inner: Box<dyn LocalisationProviderTrait>,
}
unsafe impl Send for Probed {}
unsafe impl Sync for Probed {}

impl Probed {
    fn note<T>(&self, k: char, f: impl FnOnce() -> Result<T, ProviderError>) -> Result<T, ProviderError> {
        let _w = crate::vfs::watch();
        let r = f();
        act(|a| {
            a.calls += 1;
            a.kinds.push(k);
            if let Err(e) = &r {
                if a.error.is_none() {
                    a.error = Some(e.to_string());
                }
            }
        });
        r
    }
}
impl LocalisationProviderTrait for Probed {
    fn string(&self, c: &str, i: &str, t: &Tag) -> Result<Option<(String, Tag)>, ProviderError> {
        self.note('s', || self.inner.string(c, i, t))
    }
    fn string_exact_match(&self, c: &str, i: &str, t: &Tag) -> Result<Option<(String, Tag)>, ProviderError> {
        self.note('e', || self.inner.string_exact_match(c, i, t))
    }
    fn strings(&self, c: &str, i: &str, t: &Tag) -> Result<Vec<(String, Tag)>, ProviderError> {
        self.note('m', || self.inner.strings(c, i, t))
    }
    fn identifier_details(&self, c: &str, i: &str) -> Result<IdentifierDetails, ProviderError> {
        self.note('i', || self.inner.identifier_details(c, i))
    }
    fn component_details(&self, c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        self.note('d', || self.inner.component_details(c))
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        self.note('r', || self.inner.repository_details())
    }
}

// ------------------------------------------------------------------------------------------------ commands

fn show_command(mut p: Vec<PlaceholderValue>, needs: bool) -> Result<String, CommandError> {
    sim::point(Kind::Yield);
    let name = match p.first() {
        Some(PlaceholderValue::String(s)) => s.clone(),
        other => format!("?{other:?}"),
    };
    if !p.is_empty() {
        p.remove(0);
    }
    if needs && p.is_empty() {
        return Err(CommandError::ParameterMissing(name, 1));
    }
    let list: Vec<String> = p.iter().map(pattern::show_value).collect();
    sim::point(Kind::Yield);
    Ok(format!("⟦{name}|{}⟧", list.join("|")))
}
fn cmd_a(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    show_command(p, false)
}
fn cmd_b(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    show_command(p, true)
}
thread_local! {
    /// The localiser that is at work, for the command that makes use of it itself.
    static AT_WORK: std::cell::Cell<*const Localiser> = const { std::cell::Cell::new(std::ptr::null()) };
    /// Where the command records that it changed the defaults: the clock of the run and the list of changes.
    static SETTING: std::cell::RefCell<Option<(Arc<AtomicU64>, Arc<Mutex<Vec<SetEvent>>>)>> = const { std::cell::RefCell::new(None) };
}

/// The command changes the defaults of the localiser which runs it.
fn set_inside(l: &Localiser, n: usize) -> Option<String> {
    let (clock, list) = SETTING.with(|s| s.borrow().clone())?;
    let lang = (n % 3 != 1).then(|| ["en", "ar", "de-AT", "zh"][n / 3 % 4].to_string());
    let tag = match &lang {
        None => None,
        Some(t) => Some(l.language_tag_registry().tag(t).ok()?),
    };
    let fb = (n % 3 == 1 || n % 5 == 0).then_some(n % 2 == 0);
    let ca = (n % 4 == 0).then_some(n % 8 == 0);
    let at = {
        let mut list = list.lock().unwrap();
        list.push(SetEvent { start: clock.fetch_add(1, Ordering::Relaxed), end: u64::MAX, tag: lang, fb, ca });
        list.len() - 1
    };
    let done = l.defaults(tag, fb, ca);
    list.lock().unwrap()[at].end = clock.fetch_add(1, Ordering::Relaxed);
    done.err().map(|e| e.to_string())
}

/// Strings only for `cmd_say`, which localises something itself while it is run.
pub fn add_say(truth: &mut Plain) {
    let mut comp = Comp { default: "en".into(), strings: BTreeMap::new() };
    for n in 0..6 {
        for (id, source) in [(format!("plain{n}"), format!("said {n}")), (format!("with{n}"), format!("{n} said {{what}}"))] {
            comp.strings.insert((id, "en".into()), Pattern { main: vec![], named: vec![], vars: vec![], spaces: 0, source, wild: true });
        }
    }
    for (n, next) in AGAIN {
        let source = format!("{{left plural one#n other#n}}#{{n (# {{#cmd_again# left `{next}`}} #)}}");
        comp.strings.insert((n.to_string(), "en".into()), Pattern { main: vec![], named: vec![], vars: vec![], spaces: 0, source, wild: true });
    }
    truth.comps.insert("say".into(), comp);
}

/// Strings whose command formats the named string: the same one, or one whose command formats this one.
const AGAIN: [(&str, &str); 4] = [("again0", "again0"), ("again1", "again2"), ("again2", "again1"), ("boom", "boom")];

/// What a command of the user panics with.
struct Boom;

fn again(l: &Localiser, id: &str, left: u64) -> Result<String, String> {
    let en = l.language_tag_registry().tag("en").map_err(|e| e.to_string())?;
    let mut v = std::collections::HashMap::new();
    v.insert("left".to_string(), PlaceholderValue::Unsigned(left.into()));
    match l.format("say", id, &v, &en, Some(false), Some(true)) {
        Ok((s, t)) if t.as_str() == "en" => Ok((*s).clone()),
        other => Err(format!("{other:?}")),
    }
}

/// The command formats the string it is part of.
fn cmd_again(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    sim::point(Kind::Yield);
    let l = AT_WORK.with(|w| w.get());
    let (Some(PlaceholderValue::Unsigned(left)), Some(PlaceholderValue::String(id)), false) = (p.get(1), p.get(2), l.is_null()) else {
        return Ok(format!("{p:?}"));
    };
    if *left == 0 && id == "boom" {
        std::panic::resume_unwind(Box::new(Boom));
    }
    if *left == 0 {
        return Ok("end".into());
    }
    // As above.
    let l = unsafe { &*l };
    let text = again(l, id, *left as u64 - 1).unwrap_or_else(|e| e);
    sim::point(Kind::Yield);
    Ok(text)
}

fn cmd_say(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let l = AT_WORK.with(|w| w.get());
    if !l.is_null() {
        // The pointer is set only while the localiser is borrowed by the caller of the localiser.
        let l = unsafe { &*l };
        let kept = act(|a| a.clone());
        let n: usize = p.iter().map(|v| pattern::show_value(v).len()).sum::<usize>();
        let wrong = say(l, n);
        act(|a| *a = kept);
        if let Some(w) = wrong {
            return Ok(format!("inside the command: {w}"));
        }
    }
    show_command(p, false)
}

fn say(l: &Localiser, n: usize) -> Option<String> {
    let en = match l.language_tag_registry().tag("en") {
        Ok(t) => t,
        Err(e) => return Some(e.to_string()),
    };
    if n % 2 == 0 && l.command_registry().command("cmd_say").is_err() {
        return Some("cmd_say is not registered".into());
    }
    if n % 3 == 0 {
        let _ = l.default_language();
        let _ = l.script_data();
    }
    if n % 5 == 0 && l.command_registry().insert("cmd_say", cmd_a).is_ok() {
        return Some("cmd_say was registered again".into());
    }
    if n % 7 < 2 {
        if let Some(wrong) = set_inside(l, n) {
            return Some(wrong);
        }
    }
    let k = n % 6;
    if n % 9 == 7 {
        // A command that panics harms nobody else.
        let left = n as u64 / 9 % 3;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| again(l, "boom", left))) {
            Ok(other) => Some(format!("{other:?}")),
            Err(p) if p.is::<Boom>() => None,
            Err(p) => std::panic::resume_unwind(p),
        }
    } else if n % 9 < 2 {
        let left = n as u64 / 9 % 4;
        let want = (0..=left).fold("end".to_string(), |t, k| format!("({k} {t} {k})"));
        match again(l, AGAIN[n % 3].0, left) {
            Ok(s) if s == want => None,
            other => Some(format!("{other:?}")),
        }
    } else if n % 4 < 2 {
        match l.literal("say", &format!("plain{k}"), &en, Some(false), Some(true)) {
            Ok((s, _)) if *s == format!("said {k}") => None,
            other => Some(format!("{other:?}")),
        }
    } else {
        let mut v = std::collections::HashMap::new();
        v.insert("what".to_string(), PlaceholderValue::String(format!("<{n}>")));
        match l.format("say", &format!("with{k}"), &v, &en, Some(true), Some(n % 5 > 0)) {
            Ok((s, _)) if *s == format!("{k} said <{n}>") => None,
            other => Some(format!("{other:?}")),
        }
    }
}

pub fn commands() -> Rc<CommandRegistry> {
    let c = CommandRegistry::new();
    let _ = c.insert("cmd_a", cmd_a);
    let _ = c.insert("cmd_b", cmd_b);
    let _ = c.insert("cmd_say", cmd_say);
    let _ = c.insert("cmd_again", cmd_again);
    let _ = c.insert("file_path", i18n_localiser::file_path);
    let _ = c.insert("english_a_or_an", i18n_localiser::english_a_or_an);
    Rc::new(c)
}

// ------------------------------------------------------------------------------------------------ operations

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Format,
    Literal,
    Data,
    Error,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub how: How,
    pub data: NestedData,
    /// None: the `_with_defaults` variant.
    pub tag: Option<String>,
    pub fb: Option<bool>,
    pub ca: Option<bool>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Call(Call),
    Set { tag: Option<String>, fb: Option<bool>, ca: Option<bool> },
    Lang,
    Both,
    /// Somebody changes this file: page caches become stale.
    Touch(String),
    /// The same kind of call to another localiser, over another repository; made for this call (true) or lasting.
    Other(Call, bool),
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::Call(c) => format!(
                "{:?} {}/{} values={} tag={} fallback={:?} caching={:?}",
                c.how,
                c.data.component,
                c.data.identifier,
                show_values(&c.data.values),
                c.tag.as_deref().unwrap_or("<default>"),
                c.fb,
                c.ca
            ),
            Op::Set { tag, fb, ca } => format!("defaults({tag:?}, {fb:?}, {ca:?})"),
            Op::Lang => "default_language()".into(),
            Op::Both => "default_language() and script_data()".into(),
            Op::Touch(f) => format!("(somebody changes {})", f.rsplit('/').next().unwrap_or("")),
            Op::Other(c, new) => format!("{} localiser: {}", if *new { "new" } else { "other" }, Op::Call(c.clone()).show()),
        }
    }
}

/// Another localiser, with a repository of its own that has the same names.
pub struct Other {
    pub truth: Plain,
    pub registry: Rc<LanguageTagRegistry>,
    pub commands: Rc<CommandRegistry>,
    pub icu: Rc<IcuDataProvider>,
    pub localiser: Localiser,
}

impl Other {
    fn make(truth: &Plain, registry: &Rc<LanguageTagRegistry>, commands: &Rc<CommandRegistry>, icu: &Rc<IcuDataProvider>) -> Localiser {
        let p = SimProvider { truth: truth.clone(), registry: Rc::clone(registry), faults: vec![] };
        Localiser::try_new(icu, registry, Box::new(p), commands, true, true, "und").expect("localiser")
    }
    fn new(truth: Plain, registry: &Rc<LanguageTagRegistry>, commands: &Rc<CommandRegistry>, icu: &Rc<IcuDataProvider>) -> Other {
        let localiser = Other::make(&truth, registry, commands, icu);
        Other { truth, registry: Rc::clone(registry), commands: Rc::clone(commands), icu: Rc::clone(icu), localiser }
    }
}

fn show_values(v: &Option<BTreeMap<String, Val>>) -> String {
    match v {
        None => "-".into(),
        Some(m) => {
            let l: Vec<String> = m
                .iter()
                .map(|(k, v)| match v {
                    Val::Nested(n) => format!("{k}=<{}/{} {}>", n.component, n.identifier, show_values(&n.values)),
                    _ => format!("{k}={}", v.show()),
                })
                .collect();
            format!("{{{}}}", l.join(", "))
        }
    }
}

#[derive(Debug)]
struct Wrapped(LocalisationData);
impl std::fmt::Display for Wrapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "wrapped")
    }
}
impl std::error::Error for Wrapped {}
impl LocalisationTrait for Wrapped {
    fn localisation_data(&self) -> LocalisationData {
        self.0.clone()
    }
}
impl LocalisationErrorTrait for Wrapped {}

/// Observed answer of a localisation call.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Ok(String, String),
    NotFound(String, String, String, bool),
    Provider(String),
    Formatter(String),
    OtherErr(String),
    Panic(String),
    Lang(String),
    Both(String, String),
    Unit,
}

impl Got {
    pub fn show(&self) -> String {
        match self {
            Got::Ok(s, t) => format!("Ok({s:?}, {t})"),
            Got::NotFound(c, i, t, f) => format!("StringNotFound({c}, {i}, {t}, {f})"),
            Got::Provider(s) => format!("Err provider: {s}"),
            Got::Formatter(s) => format!("Err formatter: {s}"),
            Got::OtherErr(s) => format!("Err: {s}"),
            Got::Panic(s) => format!("PANIC: {s}"),
            Got::Lang(s) => format!("language {s}"),
            Got::Both(s, d) => format!("language {s} script {d}"),
            Got::Unit => "Ok".into(),
        }
    }
}

pub fn got(r: Result<(Rc<String>, Tag), LocaliserError>) -> Got {
    match r {
        Ok((s, t)) => Got::Ok((*s).clone(), t.as_str().to_string()),
        Err(LocaliserError::StringNotFound(c, i, t, f)) => Got::NotFound(c, i, t, f),
        Err(LocaliserError::Provider(e)) => Got::Provider(e.to_string()),
        Err(LocaliserError::Formatter(e)) => Got::Formatter(e.to_string()),
        Err(e) => Got::OtherErr(e.to_string()),
    }
}

fn with_say<T>(l: Option<&Localiser>, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            AT_WORK.with(|w| w.set(std::ptr::null()));
        }
    }
    let _b = Back;
    AT_WORK.with(|w| w.set(l.map(|l| l as *const Localiser).unwrap_or(std::ptr::null())));
    f()
}

/// Tags are as good when they come from another registry.
fn a_tag(reg: &LanguageTagRegistry, t: &str) -> Tag {
    let n = CUR_OP.with(|c| *c.borrow());
    let t = if n % 11 == 4 { LanguageTagRegistry::new().tag(t) } else { reg.tag(t) };
    t.expect("tag of the pool")
}

fn perform(l: &Localiser, reg: &LanguageTagRegistry, op: &Op, val_tag: &Tag, other: Option<&Other>) -> Got {
    match op {
        Op::Other(c, new) => {
            let o = other.expect("another localiser");
            let made;
            let l = if *new {
                made = Other::make(&o.truth, &o.registry, &o.commands, &o.icu);
                &made
            } else {
                &o.localiser
            };
            perform(l, &o.registry, &Op::Call(c.clone()), val_tag, None)
        }
        Op::Call(c) => {
            let tag = c.tag.as_ref().map(|t| a_tag(reg, t));
            let d = c.data.real(val_tag);
            let empty = HashMap::new();
            let values = d.values.as_ref().unwrap_or(&empty);
            let (co, id) = (d.component.as_str(), d.identifier.as_str());
            got(match (c.how, &tag) {
                (How::Format, Some(t)) => l.format(co, id, values, t, c.fb, c.ca),
                (How::Format, None) => l.format_with_defaults(co, id, values),
                (How::Literal, Some(t)) => l.literal(co, id, t, c.fb, c.ca),
                (How::Literal, None) => l.literal_with_defaults(co, id),
                (How::Data, Some(t)) => l.format_localisation_data(&d, t, c.fb, c.ca),
                (How::Data, None) => l.format_localisation_data_with_defaults(&d),
                (How::Error, Some(t)) => l.format_error(&Wrapped(d.clone()), t, c.fb, c.ca),
                (How::Error, None) => l.format_error_with_defaults(&Wrapped(d.clone())),
            })
        }
        Op::Set { tag, fb, ca } => {
            let tag = tag.as_ref().map(|t| a_tag(reg, t));
            match l.defaults(tag, *fb, *ca) {
                Ok(()) => Got::Unit,
                Err(e) => Got::OtherErr(e.to_string()),
            }
        }
        Op::Lang => Got::Lang(l.default_language().as_str().to_string()),
        Op::Both => {
            let a = l.default_language().as_str().to_string();
            let b = script_text(&l.script_data());
            Got::Both(a, b)
        }
        Op::Touch(f) => {
            crate::vfs::touch(f);
            Got::Unit
        }
    }
}

pub fn script_text(s: &Option<i18n_utility::ScriptData>) -> String {
    match s {
        None => "none".into(),
        Some(d) => format!("{:?}", d),
    }
}

/// Is this the script information of the language? By what is known about the languages of the pool, not by the code.
fn script_fits(tag: &str, text: &str) -> bool {
    let (category, direction) = match tag {
        "enb" => return true,
        "ar" | "ar-EG" | "az-Arab" | "he" => ("Abjad", "TopToBottomRightToLeft"),
        "zh" | "zh-Hant" | "zh-Hant-TW" => ("Logographic", "RightToLeftTopToBottom"),
        "ja" => ("Syllabic", "RightToLeftTopToBottom"),
        "hi" => ("Abugida", "TopToBottomLeftToRight"),
        _ => ("Alphabetic", "TopToBottomLeftToRight"),
    };
    !TAGS.contains(&tag) || text.contains(category) && text.contains(direction)
}

#[derive(Clone, Debug)]
struct Record {
    op: usize,
    thread: usize,
    start: u64,
    end: u64,
    got: Got,
    act: Activity,
}

// ------------------------------------------------------------------------------------------------ generation

pub const TAGS: &[&str] = &[
    "en", "en-ZA", "en-GB", "en-US", "enb", "af", "af-ZA", "fr", "fr-CA", "de", "de-AT", "zh", "zh-Hant", "zh-Hant-TW",
    "sr-Latn-RS", "sr", "ar", "ar-EG", "pl", "ja", "he", "hi", "und", "de-CH-1996", "es-419", "az-Arab", "en-US-posix",
    "sl-Latn-IT-nedis-rozaj",
];
pub const COMPS: &[&str] = &["app", "application", "lib_x", "größe"];
const IDENTS: &[&str] = &["hello", "count", "title", "x_1", "größe"];
/// Pairs whose joined names coincide.
const TWINS: &[(&str, &str, &str, &str)] = &[
    ("app", "sub/title", "app/sub", "title"),
    ("app", "sub_title", "app_sub", "title"),
    ("app", "subtitle", "appsub", "title"),
    ("app", "sub.title", "app.sub", "title"),
    ("app", "sub-title", "app-sub", "title"),
    ("app", "sub:title", "app:sub", "title"),
    ("app", "sub::title", "app::sub", "title"),
    ("app", "sub title", "app sub", "title"),
    ("app", "sub\u{0}title", "app\u{0}sub", "title"),
    ("app", "sub\u{1f}title", "app\u{1f}sub", "title"),
    ("app", "sub|title", "app|sub", "title"),
    ("app", "sub#title", "app#sub", "title"),
    ("app", "sub,title", "app,sub", "title"),
    ("app", "sub\ttitle", "app\tsub", "title"),
    ("app", "sub\ntitle", "app\nsub", "title"),
    // Names that differ little.
    ("app", "Title", "app", "title"),
    ("app", "title ", "app", "title"),
    ("app", "title\u{0}", "app", "title"),
    ("app", "gr\u{f6}\u{df}e", "app", "gro\u{308}\u{df}e"),
    ("App", "title", "app", "title"),
    ("app ", "title", "app", "title"),
    ("gr\u{f6}\u{df}e", "title", "gro\u{308}\u{df}e", "title"),
];

pub struct World {
    pub truth: Plain,
    pub tags: Vec<String>,
    pub idents: Vec<String>,
    pub comps: Vec<String>,
}

pub fn gen_world(r: &mut Rng, wild: u32, opts: GenOpts, comp_pool: &[&str]) -> World {
    let mut pool: Vec<&str> = TAGS.to_vec();
    r.shuffle(&mut pool);
    // Related tags together, most of the time.
    let n = r.range(2, 5);
    let mut tags: Vec<String> = vec![];
    let first = pool[0];
    tags.push(first.to_string());
    let related: Vec<&str> = TAGS
        .iter()
        .filter(|t| **t != first && t.split('-').next() == first.split('-').next())
        .copied()
        .collect();
    for t in related {
        if tags.len() < n && r.chance(75) {
            tags.push(t.to_string());
        }
    }
    for t in &pool[1..] {
        if tags.len() >= n {
            break;
        }
        if !tags.iter().any(|x| x == t) {
            tags.push(t.to_string());
        }
    }
    let mut comps: Vec<&str> = comp_pool.to_vec();
    r.shuffle(&mut comps);
    let mut nc = r.range(1, 3);
    // Pairs whose joined names coincide.
    let twin = *r.pick(TWINS);
    let collide = r.chance(15);
    if collide {
        comps.retain(|c| *c != twin.0 && *c != twin.2);
        comps.insert(0, twin.0);
        if twin.2 != twin.0 {
            comps.insert(1, twin.2);
            nc = nc.max(2);
        }
    }
    comps.truncate(nc);
    let mut idents: Vec<&str> = IDENTS.to_vec();
    r.shuffle(&mut idents);
    if collide {
        idents.retain(|c| *c != twin.3 && *c != twin.1);
        idents.insert(0, twin.3);
        if twin.1 != twin.3 {
            idents.insert(0, twin.1);
        }
    }
    idents.truncate(r.range(if collide { 2 } else { 1 }, 4));
    let mut truth = Plain::default();
    let density = *r.pick(&[35u32, 60, 85]);
    for c in &comps {
        let mut comp = Comp { default: r.pick(&tags).clone(), strings: BTreeMap::new() };
        for i in &idents {
            for t in &tags {
                if r.chance(density) {
                    let marker = format!("m{}", comp.strings.len() + 10 * truth.comps.len());
                    let p = if r.chance(wild) {
                        if r.chance(35) {
                            pattern::generate_soup(r)
                        } else {
                            pattern::generate_wild(r, &marker)
                        }
                    } else if r.chance(3) {
                        Pattern { main: vec![], named: vec![], vars: vec![], spaces: 0, source: String::new(), wild: false }
                    } else {
                        pattern::generate(r, t, &marker, opts)
                    };
                    comp.strings.insert((i.to_string(), t.clone()), p);
                }
            }
        }
        truth.comps.insert(c.to_string(), comp);
    }
    World {
        truth,
        tags,
        idents: idents.iter().map(|s| s.to_string()).collect(),
        comps: comps.iter().map(|s| s.to_string()).collect(),
    }
}

/// The string a call would most likely use.
fn likely<'a>(w: &'a World, c: &str, i: &str, tag: &str) -> Option<&'a Pattern> {
    if let Find::Answers(v) = w.truth.find(c, i, tag) {
        if let Some((_, p)) = v.into_iter().next() {
            return Some(p);
        }
    }
    let d = w.truth.default_tag(c)?;
    if let Find::Answers(v) = w.truth.find(c, i, &d) {
        return v.into_iter().next().map(|x| x.1);
    }
    None
}

pub fn gen_values(r: &mut Rng, w: &World, c: &str, i: &str, tag: &str, unique: &str, depth: i32, nested: bool) -> BTreeMap<String, Val> {
    let mut m = BTreeMap::new();
    let wrong = r.chance(8);
    if let Some(p) = likely(w, c, i, tag) {
        for (id, kind, choices) in &p.vars {
            let u = format!("{unique}.{id}");
            // Negative depth: a long chain, one message in another.
            let chance = if depth >= 0 { 55 } else if m.values().any(|v| matches!(v, Val::Nested(_))) { 0 } else { 97 };
            if nested && depth < 3 && matches!(kind, pattern::VarKind::Str | pattern::VarKind::TextParam) && r.chance(chance) {
                m.insert(id.clone(), Val::Nested(Box::new(gen_nested(r, w, tag, &u, depth + 1))));
                continue;
            }
            let bad = wrong && r.chance(30);
            if let Some(v) = pattern::gen_value(r, *kind, choices, &u, bad) {
                m.insert(id.clone(), v);
            }
        }
    }
    if r.chance(20) {
        m.insert("unused".into(), Val::Str(format!("{unique}.unused")));
    }
    if nested && (depth < 0 && r.chance(70) && !m.values().any(|v| matches!(v, Val::Nested(_))) || (0..2).contains(&depth) && r.chance(4)) {
        m.insert("spare".into(), Val::Nested(Box::new(gen_nested(r, w, tag, &format!("{unique}.spare"), depth + 1))));
    }
    m
}

fn gen_nested(r: &mut Rng, w: &World, tag: &str, unique: &str, depth: i32) -> NestedData {
    let c = if r.chance(4) { "no_such".to_string() } else { r.pick(&w.comps).clone() };
    let i = r.pick(&w.idents).clone();
    let values = if r.chance(if depth < 0 { 3 } else { 25 }) { None } else { Some(gen_values(r, w, &c, &i, tag, unique, depth, true)) };
    NestedData { component: c, identifier: i, values }
}

pub fn gen_call(r: &mut Rng, w: &World, unique: &str, nested: u32) -> Call {
    let tag = r.pick(&w.tags).clone();
    let (mut c, mut i) = (r.pick(&w.comps).clone(), r.pick(&w.idents).clone());
    if r.chance(2) {
        c = "no_such".into();
    }
    if r.chance(3) {
        i = "no_such".into();
    }
    let opt = |r: &mut Rng| match r.below(4) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let fb = match r.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let ca = opt(r);
    let how = if r.chance(nested) {
        if r.chance(50) {
            How::Data
        } else {
            How::Error
        }
    } else if r.chance(72) {
        How::Format
    } else {
        How::Literal
    };
    let values = match how {
        How::Literal => None,
        How::Format => Some(gen_values(r, w, &c, &i, &tag, unique, 0, false)),
        _ => {
            if r.chance(12) {
                None
            } else {
                let depth = if r.chance(3) { -(r.range(1, 12) as i32) } else { 0 };
                Some(gen_values(r, w, &c, &i, &tag, unique, depth, true))
            }
        }
    };
    let with_defaults = r.chance(20);
    Call {
        how,
        data: NestedData { component: c, identifier: i, values },
        tag: if with_defaults { None } else { Some(tag) },
        fb: if with_defaults { None } else { fb },
        ca: if with_defaults { None } else { ca },
    }
}

// ------------------------------------------------------------------------------------------------ oracle

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Is(Got),
    /// Any formatter error.
    FormatterErr,
    /// Too many possibilities.
    Any,
}

impl Want {
    fn accepts(&self, g: &Got) -> bool {
        match self {
            Want::Is(w) => w == g,
            Want::FormatterErr => matches!(g, Got::Formatter(_)),
            Want::Any => !matches!(g, Got::Panic(_)),
        }
    }
    fn show(&self) -> String {
        match self {
            Want::Is(g) => g.show(),
            Want::FormatterErr => "a formatter error".into(),
            Want::Any => "anything".into(),
        }
    }
}

/// Answers of a fresh localiser over a repository which holds one string, for strings without a meaning of
/// their own.
pub struct Fresh {
    icu: Rc<IcuDataProvider>,
    memo: RefCell<HashMap<u64, Got>>,
}

impl Fresh {
    pub fn new(icu: &Rc<IcuDataProvider>) -> Fresh {
        Fresh { icu: Rc::clone(icu), memo: RefCell::new(HashMap::new()) }
    }
    fn ask(&self, p: &Pattern, tag: &str, values: &BTreeMap<String, Val>, literal: bool) -> Got {
        let key = hash_str(&format!("{}\u{1}{tag}\u{1}{}\u{1}{literal}", p.source, show_values(&Some(values.clone()))));
        if let Some(g) = self.memo.borrow().get(&key) {
            return g.clone();
        }
        let reg = Rc::new(LanguageTagRegistry::new());
        let mut truth = Plain::default();
        let mut comp = Comp { default: tag.to_string(), strings: BTreeMap::new() };
        comp.strings.insert(("i".into(), tag.to_string()), p.clone());
        truth.comps.insert("c".into(), comp);
        let prov = SimProvider { truth, registry: Rc::clone(&reg), faults: vec![] };
        let cmds = commands();
        let l = Localiser::try_new(&self.icu, &reg, Box::new(prov), &cmds, false, false, "und").expect("localiser");
        let t = reg.tag(tag).expect("tag");
        let real: HashMap<String, PlaceholderValue> = values.iter().map(|(k, v)| (k.clone(), v.real(&t))).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if literal {
                got(l.literal("c", "i", &t, Some(false), Some(false)))
            } else {
                got(l.format("c", "i", &real, &t, Some(false), Some(false)))
            }
        }));
        let g = r.unwrap_or_else(|_| Got::Panic(sim::take_panic().unwrap_or_default()));
        self.memo.borrow_mut().insert(key, g.clone());
        g
    }
}

/// All acceptable outcomes of localising this in `tag` with `fb`.
pub fn expect(
    truth: &dyn Truth,
    fresh: &Fresh,
    d: &NestedData,
    as_format: bool,
    tag: &str,
    fb: bool,
) -> Vec<Want> {
    // Inner messages first.
    let mut values: Vec<BTreeMap<String, Val>> = vec![BTreeMap::new()];
    let literal = d.values.is_none() && !as_format;
    // Errors of inner messages: certain, or possible with one of several acceptable strings.
    let mut inner_errors: Vec<Want> = vec![];
    let mut possible: Vec<Want> = vec![];
    if let Some(vals) = &d.values {
        for (k, v) in vals {
            match v {
                Val::Nested(n) if !as_format => {
                    let w = expect(truth, fresh, n, false, tag, fb);
                    let (oks, errs): (Vec<Want>, Vec<Want>) =
                        w.into_iter().partition(|w| matches!(w, Want::Is(Got::Ok(..))));
                    if oks.is_empty() {
                        inner_errors.extend(errs);
                    } else {
                        possible.extend(errs);
                        let mut next = vec![];
                        for base in &values {
                            for ok in &oks {
                                if let Want::Is(Got::Ok(s, _)) = ok {
                                    let mut b = base.clone();
                                    b.insert(k.clone(), Val::Localised(s.clone()));
                                    next.push(b);
                                }
                            }
                        }
                        if next.len() > 1500 {
                            return vec![Want::Any];
                        }
                        values = next;
                    }
                }
                _ => {
                    for b in values.iter_mut() {
                        b.insert(k.clone(), v.clone());
                    }
                }
            }
        }
    }
    if possible.contains(&Want::Any) || inner_errors.contains(&Want::Any) {
        return vec![Want::Any];
    }
    if !inner_errors.is_empty() {
        inner_errors.extend(possible);
        return inner_errors;
    }
    let mut out = expect_outer(truth, fresh, d, literal, values, tag, fb);
    out.extend(possible);
    out
}

fn expect_outer(
    truth: &dyn Truth,
    fresh: &Fresh,
    d: &NestedData,
    literal: bool,
    values: Vec<BTreeMap<String, Val>>,
    tag: &str,
    fb: bool,
) -> Vec<Want> {
    let (c, i) = (d.component.as_str(), d.identifier.as_str());
    let mut answers = match truth.find(c, i, tag) {
        Find::NoComponent => {
            return vec![Want::Is(Got::Provider(ProviderError::ComponentNotFound(c.to_string()).to_string()))]
        }
        Find::Answers(v) => v,
    };
    if answers.is_empty() {
        let nf = Want::Is(Got::NotFound(c.into(), i.into(), tag.into(), fb));
        if !fb {
            return vec![nf];
        }
        let Some(def) = truth.default_tag(c) else { return vec![nf] };
        answers = match truth.find(c, i, &def) {
            Find::NoComponent => vec![],
            Find::Answers(v) => v,
        };
        if answers.is_empty() {
            return vec![nf];
        }
    }
    let mut out: Vec<Want> = vec![];
    for (found, p) in &answers {
        if literal {
            out.push(Want::Is(Got::Ok(p.source.clone(), found.clone())));
            continue;
        }
        for v in &values {
            let asked = || match fresh.ask(p, found, v, false) {
                Got::Ok(s, _) => Want::Is(Got::Ok(s, found.clone())),
                // Which of several faults of a string is reported is of no concern.
                Got::Formatter(_) => Want::FormatterErr,
                g => Want::Is(g),
            };
            let w = if p.wild || pattern::ambiguous(p) {
                asked()
            } else {
                match pattern::evaluate(p, found, v) {
                    Ok(s) => Want::Is(Got::Ok(s, found.clone())),
                    Err(e) if e.0 == pattern::UNCLEAR => asked(),
                    Err(_) => Want::FormatterErr,
                }
            };
            if !out.contains(&w) {
                out.push(w);
            }
        }
    }
    out
}

/// Props touched by a wrong answer to a localisation call.
fn blame(call: &Call, want: &[Want], g: &Got, faults: bool, truth: &dyn Truth, defaults_change: bool) -> Vec<&'static str> {
    let mut v = vec!["C01"];
    let nf = |g: &Got| matches!(g, Got::NotFound(..));
    let tags: BTreeSet<&String> = want
        .iter()
        .filter_map(|w| if let Want::Is(Got::Ok(_, t)) = w { Some(t) } else { None })
        .collect();
    let tag_off = match g {
        Got::Ok(_, t) => !tags.contains(t),
        _ => false,
    };
    if nf(g) || want.iter().any(|w| matches!(w, Want::Is(g) if nf(g))) || tag_off {
        v.push("C04");
    } else if let Some(t) = &call.tag {
        // The right string is a fallback or a related one.
        if !tags.is_empty() && !tags.contains(t) {
            v.push("C04");
        }
    }
    if matches!(g, Got::Panic(_)) {
        v.push("C02");
    }
    if call.tag.is_none() || call.fb.is_none() || call.ca.is_none() || defaults_change {
        v.push("C03");
    }
    if faults {
        v.push("C05");
    }
    fn uses(truth: &dyn Truth, d: &NestedData) -> bool {
        let mut any = false;
        for t in TAGS {
            if let Find::Answers(a) = truth.find(&d.component, &d.identifier, t) {
                any |= a.iter().any(|x| pattern::has_command(x.1));
            }
        }
        if let Some(vals) = &d.values {
            for v in vals.values() {
                if let Val::Nested(n) = v {
                    any |= uses(truth, n);
                }
            }
        }
        any
    }
    if uses(truth, &call.data) {
        v.push("C12");
    }
    if matches!(call.how, How::Data | How::Error) {
        v.push("C15");
    }
    v
}

struct SetEvent {
    start: u64,
    end: u64,
    tag: Option<String>,
    fb: Option<bool>,
    ca: Option<bool>,
}

fn candidates<T: Clone + PartialEq>(sets: &[SetEvent], get: impl Fn(&SetEvent) -> Option<T>, s: u64, e: u64) -> Vec<T> {
    let w: Vec<(u64, u64, T)> = sets.iter().filter_map(|x| get(x).map(|v| (x.start, x.end, v))).collect();
    let mut out: Vec<T> = vec![];
    for (a, b, v) in &w {
        if *a > e {
            continue;
        }
        let over = w.iter().any(|(a2, b2, _)| a2 > b && *b2 < s);
        if !over && !out.contains(v) {
            out.push(v.clone());
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------ policy

pub fn policy(sched: u64, threads: usize) -> (sim::Policy, bool) {
    let mut r = Rng::new(sched, 77);
    let all = u32::MAX;
    let no_unlock = all & !(1 << Kind::Unlock as u32);
    let p = match r.below(9) {
        0 | 1 => sim::Policy::Random { num: *r.pick(&[30, 100, 300, 512]), mask: all },
        2 => sim::Policy::Random { num: *r.pick(&[60, 200, 500]), mask: no_unlock },
        3 | 4 => {
            let horizon = *r.pick(&[40usize, 120, 400, 1500]);
            let n = r.range(1, 5);
            sim::Policy::Pct { change: (0..n).map(|_| r.below(horizon) as u64).collect() }
        }
        5 | 6 | 7 => {
            // Anywhere, or only where threads meet (storage calls are by far the most frequent points).
            let meet = [Kind::Lock, Kind::Read, Kind::Write, Kind::Unlock, Kind::OnceGet, Kind::OnceSet, Kind::Atomic];
            let mask = if r.chance(50) { all } else { meet.iter().fold(0, |m, k| m | 1 << *k as u32) };
            let of = if mask == all { *r.pick(&[2u64, 5, 11, 23, 47]) } else { *r.pick(&[1u64, 2, 3, 5, 11]) };
            sim::Policy::Park {
                mask,
                of,
                rest: r.below(of as usize) as u64,
                num: *r.pick(&[150, 400, 900]),
                hold: *r.pick(&[6, 40, 200, 1000]),
                other: *r.pick(&[0, 10, 60]),
            }
        }
        _ => {
            let horizon = *r.pick(&[40usize, 120, 400, 1500]);
            let n = r.range(1, 6);
            sim::Policy::Few { at: (0..n).map(|_| r.below(horizon) as u64).collect() }
        }
    };
    let _ = threads;
    (p, r.chance(50))
}

pub fn config(spec: &Spec, threads: usize, max_steps: u64, max_time_us: u64) -> sim::Config {
    let (mut p, wp) = policy(spec.sched, threads);
    if matches!(spec.family.as_str(), "sql" | "edit" | "full") && spec.sched % 3 != 0 {
        // Storage makes runs longer: spread the few preemptions over them.
        match &mut p {
            sim::Policy::Pct { change } => change.iter_mut().for_each(|c| *c *= 6),
            sim::Policy::Few { at } => at.iter_mut().for_each(|c| *c *= 6),
            sim::Policy::Park { hold, .. } => *hold *= 6,
            _ => {}
        }
    }
    if let Some(e) = &spec.explicit {
        p = sim::Policy::Explicit(e.clone());
    }
    sim::Config { seed: spec.sched, policy: p, max_steps, max_time_us, writer_preference: wp }
}

pub fn absorb(r: &mut RunResult, o: &sim::Outcome) {
    r.steps += o.steps;
    r.switches += o.switches;
    r.time_us += o.time_us;
    if o.idle_us > 0 {
        r.fire("idle-time-and-clock-set");
    }
    r.record = o.record.clone();
    r.sched_hash = o.hash;
    r.switch_sites = o.switch_sites.clone();
    for (n, e) in o.ends.iter().enumerate() {
        if let sim::End::Panicked(m) = e {
            r.violate(&["C02"], "panic", format!("thread {n} panicked: {m}"));
        }
    }
    match &o.stop {
        Some(sim::Stop::Deadlock(t)) => r.violate(&["C02"], "deadlock", format!("deadlock: {t}")),
        Some(sim::Stop::Steps) => r.violate(&["C02"], "no-progress", format!("still running after {} steps", o.steps)),
        Some(sim::Stop::Time) => {
            r.violate(&["C02"], "no-progress", format!("still running after {} s of simulated time", o.time_us / 1_000_000))
        }
        None => {}
    }
}

thread_local! {
    static ICU: Rc<IcuDataProvider> = Rc::new(IcuDataProvider::try_new(DataProvider::Internal).expect("icu data"));
}

pub fn icu() -> Rc<IcuDataProvider> {
    Rc::new(IcuDataProvider::try_new(DataProvider::Internal).expect("icu data"))
}

// ------------------------------------------------------------------------------------------------ run

/// Calls and changes of defaults, by thread.
pub fn gen_ops(r: &mut Rng, w: &World, mode: &str, threads: usize, per: usize, init: &(String, bool, bool)) -> Vec<(usize, Op)> {
    let nested = if mode.contains("nested") { 70 } else { 15 };
    // How often defaults change.
    let set_rate = if mode.contains("set") { *r.pick(&[25u32, 45, 70]) } else { *r.pick(&[0u32, 8, 25, 60]) };
    let caching_bias = *r.pick(&[0u32, 50, 90]);
    // Repeat earlier calls (same string, new values) often.
    let mut ops: Vec<(usize, Op)> = vec![];
    let mut calls: Vec<Call> = vec![];
    for t in 0..threads {
        for _ in 0..per {
            let unique = format!("u{}", ops.len());
            let op = if r.chance(set_rate) {
                match r.below(5) {
                    0 => Op::Lang,
                    1 => Op::Both,
                    _ => {
                        let tag = if r.chance(70) { Some(r.pick(&w.tags).clone()) } else { None };
                        let fb = if r.chance(40) { Some(r.chance(50)) } else { None };
                        let ca = if r.chance(40) { Some(r.chance(50)) } else { None };
                        Op::Set { tag, fb, ca }
                    }
                }
            } else {
                let mut c = gen_call(r, w, &unique, nested);
                if !calls.is_empty() && r.chance(45) {
                    let old = r.pick(&calls).clone();
                    let tag = old.tag.clone().unwrap_or_else(|| init.0.clone());
                    c.data.component = old.data.component.clone();
                    c.data.identifier = old.data.identifier.clone();
                    if c.tag.is_some() {
                        c.tag = Some(tag.clone());
                    }
                    c.data.values = match c.how {
                        How::Literal => None,
                        How::Format => Some(gen_values(r, w, &old.data.component, &old.data.identifier, &tag, &unique, 0, false)),
                        _ => Some(gen_values(r, w, &old.data.component, &old.data.identifier, &tag, &unique, 0, true)),
                    };
                }
                if c.ca.is_some() && r.chance(caching_bias) {
                    c.ca = Some(true);
                }
                calls.push(c.clone());
                Op::Call(c)
            };
            ops.push((t, op));
        }
    }
    ops
}

pub fn run(spec: &Spec) -> RunResult {
    let mut r = Rng::new(spec.seed, 1);
    let mut res = RunResult::default();
    let faulty = spec.mode.contains("fault");
    let seq = spec.mode.starts_with("seq") || !crate::SYNC;
    let opts = GenOpts {
        commands: r.chance(50) || spec.mode.contains("cmd"),
        literal_blocks: r.chance(50),
        complex: r.chance(70),
    };
    let wild = *r.pick(&[0, 0, 0, 15, 40]);
    let mut w = gen_world(&mut r, wild, opts, COMPS);
    let threads = if seq { 1 } else if r.chance(4) { r.range(5, 8) } else { r.range(2, 4) };
    let mut per = if seq { r.range(3, 28) } else if threads > 4 { r.range(1, 3) } else { r.range(1, 7) };
    if r.chance(1) {
        // Many strings, and a long history.
        let more = if r.chance(8) { 4 } else { 1 };
        for n in 0..r.range(40, 200) * more {
            let (c, t) = (r.pick(&w.comps).clone(), r.pick(&w.tags).clone());
            let p = pattern::generate(&mut r, &t, &format!("n{n}"), opts);
            w.truth.comps.get_mut(&c).unwrap().strings.insert((format!("id{n}"), t), p);
            w.idents.push(format!("id{n}"));
        }
        per = r.range(60, 400) * more / threads;
    }
    if !faulty {
        add_say(&mut w.truth);
    }
    let w = w;
    let init = (r.pick(&w.tags).clone(), r.chance(50), r.chance(50));
    let mut ops = gen_ops(&mut r, &w, &spec.mode, threads, per, &init);
    let mut other_truth = None;
    if r.chance(10) {
        // Another repository with the same names.
        let mut t = w.truth.clone();
        for comp in t.comps.values_mut() {
            comp.default = r.pick(&w.tags).clone();
            let keys: Vec<(String, String)> = comp.strings.keys().cloned().collect();
            for k in keys {
                match r.below(4) {
                    0 => {
                        comp.strings.remove(&k);
                    }
                    1 => {}
                    _ => {
                        let p = pattern::generate(&mut r, &k.1, "other", opts);
                        comp.strings.insert(k, p);
                    }
                }
            }
        }
        let w2 = World { truth: t, tags: w.tags.clone(), idents: w.idents.clone(), comps: w.comps.clone() };
        let rate = *r.pick(&[15u32, 35, 60]);
        for n in 0..ops.len() {
            if r.chance(rate) {
                let mut c = gen_call(&mut r, &w2, &format!("o{n}"), 15);
                if let (Op::Call(old), true) = (&ops[n].1, r.chance(60)) {
                    // The same call to the other.
                    c = old.clone();
                }
                c.tag = c.tag.or_else(|| Some(r.pick(&w.tags).clone()));
                c.fb = c.fb.or(Some(true));
                c.ca = c.ca.or(Some(true));
                let at = ops[n].0;
                ops[n] = (at, Op::Other(c, r.chance(15)));
            }
        }
        other_truth = Some((w2.truth, r.chance(50), r.chance(50)));
    }
    let ops = ops;
    let mut faults: Vec<Fault> = vec![];
    if faulty {
        let rate = *r.pick(&[10u32, 25, 50]);
        for (n, (_, op)) in ops.iter().enumerate() {
            if let Op::Call(_) = op {
                if r.chance(rate) {
                    let k = r.range(1, 2);
                    for _ in 0..k {
                        faults.push(Fault { op: n, call: *r.pick(&[0, 0, 1, 2, 3]), kind: r.below(FAULT_KINDS.len()) as u8 });
                    }
                }
            }
        }
    }
    res.ops = ops.len() as u32;
    res.faults = faults.len() as u32;
    res.threads = threads as u32;
    let faults: Vec<Fault> = faults
        .into_iter()
        .enumerate()
        .filter(|(n, _)| !spec.drop_faults.contains(&(*n as u32)))
        .map(|x| x.1)
        .collect();

    for (c, comp) in &w.truth.comps {
        for ((i, t), p) in &comp.strings {
            res.trace.push(format!("string {c}/{i} [{t}] {}{:?}", if *t == comp.default { "(default) " } else { "" }, p.source));
        }
    }
    res.trace.push(format!("localiser: language {} fallback {} caching {}", init.0, init.1, init.2));
    for f in &faults {
        res.trace.push(format!("fault: operation {} repository call {}: {}", f.op, f.call, FAULT_KINDS[f.kind as usize]));
    }

    let icu = icu();
    let registry = Rc::new(LanguageTagRegistry::new());
    let cmds = commands();
    let provider = Probed {
        inner: Box::new(SimProvider { truth: w.truth.clone(), registry: Rc::clone(&registry), faults: faults.clone() }),
    };
    let localiser = match Localiser::try_new(&icu, &registry, Box::new(provider), &cmds, init.1, init.2, &init.0) {
        Ok(l) => l,
        Err(e) => {
            res.violate(&["C01", "C02", "C03"], "construct", format!("localiser could not be made: {e}"));
            return res;
        }
    };
    let other = other_truth.map(|(t, shared_registry, shared_commands)| {
        for (c, comp) in &t.comps {
            for ((i, t), p) in &comp.strings {
                res.trace.push(format!("other repository: string {c}/{i} [{t}] {}{:?}", if *t == comp.default { "(default) " } else { "" }, p.source));
            }
        }
        let reg2 = if shared_registry { Rc::clone(&registry) } else { Rc::new(LanguageTagRegistry::new()) };
        let cmds2 = if shared_commands { Rc::clone(&cmds) } else { commands() };
        Other::new(t, &reg2, &cmds2, &icu)
    });
    let fresh = Fresh::new(&icu);
    drive(spec, &mut res, &w.truth, &fresh, localiser, other, &registry, &ops, threads, init, faulty && !faults.is_empty());
    res
}

/// Runs the operations under the scheduler and judges everything observed.
pub fn drive(
    spec: &Spec,
    res: &mut RunResult,
    truth: &dyn Truth,
    fresh: &Fresh,
    localiser: Localiser,
    other: Option<Other>,
    registry: &Rc<LanguageTagRegistry>,
    ops: &[(usize, Op)],
    threads: usize,
    init: (String, bool, bool),
    faults: bool,
) {
    let val_tag = registry.tag("und").expect("und");
    // Commands localise something themselves, too; with faults they would hide them in their own error.
    let says = !faults && truth.default_tag("say").is_some();
    let history: Arc<Mutex<Vec<Record>>> = Arc::new(Mutex::new(vec![]));
    let clock = Arc::new(AtomicU64::new(1));
    let inside: Arc<Mutex<Vec<SetEvent>>> = Arc::new(Mutex::new(vec![]));
    let shared = Arc::new(Share((localiser, Rc::clone(registry), val_tag, other)));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..threads {
        let mine: Vec<(usize, Op)> = ops
            .iter()
            .enumerate()
            .filter(|(n, o)| o.0 == t && !spec.drop_ops.contains(&(*n as u32)))
            .map(|(n, o)| (n, o.1.clone()))
            .collect();
        let (shared, history, clock) = (Arc::clone(&shared), Arc::clone(&history), Arc::clone(&clock));
        let setting = says.then(|| (Arc::clone(&clock), Arc::clone(&inside)));
        let mine = Share(mine);
        let seed = spec.seed;
        bodies.push(Box::new(move || {
            let mine = mine;
            SETTING.with(|s| *s.borrow_mut() = setting);
            for (n, op) in &mine.0 {
                sim::point(Kind::OpBegin);
                crate::hist::idle(seed, *n);
                ACT.with(|a| *a.borrow_mut() = Activity::default());
                CUR_OP.with(|c| *c.borrow_mut() = *n);
                crate::vfs::set_op(Some(*n));
                let start = clock.fetch_add(1, Ordering::Relaxed);
                let (l, reg, vt, other) = &shared.0;
                let g = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_say(says.then_some(l), || perform(l, reg, op, vt, other.as_ref())))) {
                    Ok(g) => g,
                    Err(p) => {
                        if p.is::<sim::Stopped>() {
                            std::panic::resume_unwind(p);
                        }
                        Got::Panic(sim::take_panic().unwrap_or_else(|| "panic".into()))
                    }
                };
                crate::vfs::set_op(None);
                let end = clock.fetch_add(1, Ordering::Relaxed);
                let a = act(|a| a.clone());
                history.lock().unwrap().push(Record { op: *n, thread: t, start, end, got: g, act: a });
                sim::point(Kind::OpEnd);
            }
        }));
    }
    let o = sim::run(config(spec, threads, 200_000 + 4_000 * ops.len() as u64, 3_600_000_000), bodies);
    absorb(res, &o);
    let mut more = vec!["C01", "C04"];
    for (m, p) in [("fault", "C05"), ("set", "C03"), ("nested", "C15"), ("cmd", "C12")] {
        if spec.mode.contains(m) {
            more.push(p);
        }
    }
    crate::sql::relabel(res, &more);
    let mut records: Vec<Record> = std::mem::take(&mut *history.lock().unwrap());
    let stopped = o.stop.is_some();
    storage_faults(res, &mut records);

    // Defaults as written during the run.
    let mut sets = vec![SetEvent { start: 0, end: 0, tag: Some(init.0.clone()), fb: Some(init.1), ca: Some(init.2) }];
    for rec in &records {
        if let Op::Set { tag, fb, ca } = &ops[rec.op].1 {
            sets.push(SetEvent { start: rec.start, end: rec.end, tag: tag.clone(), fb: *fb, ca: *ca });
        }
    }
    sets.append(&mut inside.lock().unwrap());
    if stopped {
        // Writes in flight when the run was stopped may or may not have happened.
        let seen: BTreeSet<usize> = records.iter().map(|r| r.op).collect();
        for (n, (_, op)) in ops.iter().enumerate() {
            if let (false, Op::Set { tag, fb, ca }) = (seen.contains(&n), op) {
                sets.push(SetEvent { start: 0, end: u64::MAX, tag: tag.clone(), fb: *fb, ca: *ca });
            }
        }
    }
    let defaults_change = sets.len() > 1;
    let mut hash = 0u64;
    let scratch = crate::repo::scratch();
    for rec in &records {
        let op = &ops[rec.op].1;
        let line = format!(
            "[{}..{}] thread {} op {}: {} -> {}{}",
            rec.start,
            rec.end,
            rec.thread,
            rec.op,
            op.show(),
            rec.got.show(),
            if rec.act.fired.is_empty() && rec.act.storage.is_empty() {
                String::new()
            } else {
                format!("  (injected: {})", [rec.act.fired.clone(), rec.act.storage.clone()].concat().join(", "))
            }
        );
        let line = line.replace(&scratch, "");
        hash = mix(hash, hash_str(&line));
        res.trace.push(line.clone());
        for f in &rec.act.fired {
            res.fire(f);
        }
        let tag_c = candidates(&sets, |s| s.tag.clone(), rec.start, rec.end);
        let fb_c = candidates(&sets, |s| s.fb, rec.start, rec.end);
        let _ca_c = candidates(&sets, |s| s.ca, rec.start, rec.end);
        match op {
            Op::Call(c) => {
                for p in ["C01", "C02", "C03", "C04"] {
                    res.check(p);
                }
                if matches!(c.how, How::Data | How::Error) {
                    res.check("C15");
                }
                let tags = match &c.tag {
                    Some(t) => vec![t.clone()],
                    None => tag_c.clone(),
                };
                let fbs = match c.fb {
                    Some(f) => vec![f],
                    None => fb_c.clone(),
                };
                let as_format = c.how == How::Format;
                if let Some(e) = &rec.act.error {
                    // The repository failed while this call was served.
                    res.check("C05");
                    if rec.got != Got::Provider(e.clone()) {
                        let mut v = vec!["C05"];
                        if matches!(rec.got, Got::Panic(_)) {
                            v.push("C02");
                        }
                        if matches!(rec.got, Got::NotFound(..)) {
                            v.push("C04");
                        }
                        if rec.act.fired.is_empty() && rec.act.storage.is_empty() {
                            v.push("C01");
                        }
                        res.violate(&v, &class_of("repository-error-lost", &rec.got), format!("the repository answered '{e}', but: {line}"));
                    }
                    if !rec.act.fired.is_empty() {
                        continue;
                    }
                    // Storage faults have to be reported as such.
                    if !rec.act.storage.is_empty() && e.contains("ProviderSqlite3Error::Sqlite3") {
                        res.probe("storage error");
                        continue;
                    }
                }
                let mut want: Vec<Want> = vec![];
                for t in &tags {
                    for f in &fbs {
                        for x in expect(truth, fresh, &c.data, as_format, t, *f) {
                            if !want.contains(&x) {
                                want.push(x);
                            }
                        }
                    }
                }
                if c.how == How::Format || c.how == How::Literal {
                    res.probe("direct call");
                }
                match &rec.got {
                    Got::Ok(_, t) => {
                        res.probe("localised");
                        if Some(t) != c.tag.as_ref() && c.tag.is_some() {
                            res.probe("answered in a related or default language");
                        }
                        if rec.act.calls == 0 {
                            res.probe("answered from cache");
                        }
                    }
                    Got::NotFound(..) => res.probe("string not found"),
                    Got::Formatter(..) => res.probe("formatter error"),
                    Got::Provider(..) => res.probe("provider error"),
                    _ => {}
                }
                if want.iter().any(|w| matches!(w, Want::Is(Got::Ok(s, _)) if s.contains('⟦'))) {
                    res.check("C12");
                    res.probe("command called");
                }
                if faults {
                    res.check("C05");
                }
                // A panic which a fresh localiser has too is still a panic.
                if !want.iter().any(|w| w.accepts(&rec.got)) || matches!(rec.got, Got::Panic(_)) {
                    let v = blame(c, &want, &rec.got, faults, truth, defaults_change);
                    let wants: Vec<String> = want.iter().map(|w| w.show()).collect();
                    res.violate(&v, &class_of("wrong-answer", &rec.got), format!("{line}; acceptable: {}", wants.join(" | ")));
                }
            }
            Op::Set { .. } => {
                res.check("C03");
                if rec.got != Got::Unit {
                    let v: &[&'static str] = if matches!(rec.got, Got::Panic(_)) { &["C03", "C02"] } else { &["C03"] };
                    res.violate(v, &class_of("defaults-failed", &rec.got), line.clone());
                }
            }
            Op::Touch(_) => {}
            Op::Other(c, _) => {
                res.check("C01");
                res.probe("another localiser");
                let o = shared.0 .3.as_ref().expect("another localiser");
                let want = expect(&o.truth, fresh, &c.data, c.how == How::Format, c.tag.as_ref().unwrap(), c.fb.unwrap());
                if !want.iter().any(|w| w.accepts(&rec.got)) || matches!(rec.got, Got::Panic(_)) {
                    let v = blame(c, &want, &rec.got, faults, &o.truth, defaults_change);
                    let wants: Vec<String> = want.iter().map(|w| w.show()).collect();
                    res.violate(&v, &class_of("other-localiser", &rec.got), format!("{line}; acceptable: {}", wants.join(" | ")));
                }
            }
            Op::Lang | Op::Both => {
                res.check("C03");
                let (lang, script) = match &rec.got {
                    Got::Lang(l) => (l.clone(), None),
                    Got::Both(l, s) => (l.clone(), Some(s.clone())),
                    g => {
                        res.violate(&["C02", "C03"], &class_of("defaults-failed", g), line.clone());
                        continue;
                    }
                };
                if !tag_c.contains(&lang) {
                    res.violate(&["C03"], "stale-default-language", format!("{line}; in force: {tag_c:?}"));
                }
                if let Some(s) = &script {
                    let (l, reg, _, _) = &shared.0;
                    let quiet = !sets.iter().any(|x| x.tag.is_some() && x.start < rec.end && x.end > rec.start);
                    let allowed: Vec<String> = if quiet { vec![lang.clone()] } else { tag_c.clone() };
                    let ok = allowed.iter().any(|t| script_text(&l.script_data_for_language_tag(&reg.tag(t).unwrap())) == *s);
                    if !ok || !allowed.iter().any(|t| script_fits(t, s)) {
                        res.violate(&["C03"], "script-of-other-language", format!("{line}; in force: {tag_c:?}"));
                    }
                }
            }
        }
    }
    // Caching choices.
    caching_rules(res, ops, &records, &sets, truth);
    res.obs_hash = mix(res.obs_hash, hash);
    if stopped {
        return;
    }
    // Quiescence: everything still works, one call after the other.
    let (l, reg, vt, other) = &shared.0;
    let end = clock.load(Ordering::Relaxed) + 10;
    let final_tags = candidates(&sets, |s| s.tag.clone(), end, end);
    let final_fb = candidates(&sets, |s| s.fb, end, end);
    res.check("C03");
    let both = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let a = l.default_language();
        let s = script_text(&l.script_data());
        let e = script_text(&l.script_data_for_language_tag(&a));
        (a.as_str().to_string(), s, e)
    }));
    match both {
        Err(_) => res.violate(
            &["C02", "C03"],
            "lasting-damage",
            format!("afterwards the defaults cannot be read: {}", sim::take_panic().unwrap_or_default()),
        ),
        Ok((a, s, e)) => {
            if !final_tags.contains(&a) {
                res.violate(&["C03"], "default-language-lost", format!("afterwards the default language is {a}, expected one of {final_tags:?}"));
            }
            if s != e || !script_fits(&a, &s) {
                res.violate(&["C03"], "script-of-other-language", format!("afterwards the default language is {a}, the script data is {s}, expected {e}"));
            }
            res.trace.push(format!("afterwards: default language {a}"));
        }
    }
    for (n, (_, op)) in ops.iter().enumerate() {
        if spec.drop_ops.contains(&(n as u32)) {
            continue;
        }
        let Op::Call(c) = op else { continue };
        let g = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_say(says.then_some(l), || perform(l, reg, op, vt, other.as_ref())))) {
            Ok(g) => g,
            Err(_) => Got::Panic(sim::take_panic().unwrap_or_default()),
        };
        let mut want: Vec<Want> = vec![];
        let tags = match &c.tag {
            Some(t) => vec![t.clone()],
            None => final_tags.clone(),
        };
        let fbs = match c.fb {
            Some(f) => vec![f],
            None => final_fb.clone(),
        };
        for t in &tags {
            for f in &fbs {
                want.extend(expect(truth, fresh, &c.data, c.how == How::Format, t, *f));
            }
        }
        for p in ["C01", "C02", "C04"] {
            res.check(p);
        }
        if faults {
            res.check("C05");
        }
        hash = mix(hash, hash_str(&g.show().replace(&scratch, "")));
        if !want.iter().any(|w| w.accepts(&g)) || matches!(g, Got::Panic(_)) {
            let v = blame(c, &want, &g, faults, truth, defaults_change);
            let wants: Vec<String> = want.iter().map(|w| w.show()).collect();
            let line = format!("afterwards op {n} again: {} -> {}", op.show(), g.show());
            res.trace.push(line.clone());
            res.violate(&v, &class_of("wrong-answer", &g), format!("{line}; acceptable: {}", wants.join(" | ")));
        }
    }
    res.obs_hash = mix(res.obs_hash, hash);
}

/// Notes the storage faults which were injected with the operations they may have disturbed.
fn storage_faults(res: &mut RunResult, records: &mut [Record]) {
    let (fired, plan) = crate::vfs::with(|s| (std::mem::take(&mut s.fired), std::mem::take(&mut s.faults)));
    crate::vfs::set_faults(vec![]);
    let mut per: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (op, f) in fired {
        if per.entry(op).or_default().insert(f) {
            res.fire(&plan[f].kind.name());
        }
    }
    let spans: Vec<(usize, u64, u64)> = records.iter().map(|r| (r.op, r.start, r.end)).collect();
    for rec in records.iter_mut() {
        for (op, start, end) in &spans {
            if *start < rec.end && *end > rec.start {
                for f in per.get(op).into_iter().flatten() {
                    rec.act.storage.push(plan[*f].kind.name());
                }
            }
        }
    }
}

pub fn class_of(base: &str, g: &Got) -> String {
    let k = match g {
        Got::Panic(m) => {
            // The place of the panic identifies it.
            let site = m.split(" at ").last().unwrap_or("").to_string();
            return format!("{base}/panic {}", hash_str(&site) % 100000);
        }
        Got::Ok(..) => "ok",
        Got::NotFound(..) => "notfound",
        Got::Provider(_) => "provider",
        Got::Formatter(_) => "formatter",
        _ => "other",
    };
    format!("{base}/{k}")
}

/// An explicit caching choice has to have its effect: without caching nothing is remembered, with caching a
/// repeated call does not ask the repository again.
fn caching_rules(res: &mut RunResult, ops: &[(usize, Op)], records: &[Record], sets: &[SetEvent], truth: &dyn Truth) {
    struct Seen<'a> {
        rec: &'a Record,
        c: &'a Call,
        may: bool,
        must: bool,
        fbs: Vec<bool>,
        tags: Vec<String>,
    }
    let mut seen: Vec<Seen> = vec![];
    for rec in records {
        let Op::Call(c) = &ops[rec.op].1 else { continue };
        let ca = match c.ca {
            Some(x) => vec![x],
            None => candidates(sets, |s| s.ca, rec.start, rec.end),
        };
        let fbs = match c.fb {
            Some(x) => vec![x],
            None => candidates(sets, |s| s.fb, rec.start, rec.end),
        };
        let tags = match &c.tag {
            Some(x) => vec![x.clone()],
            None => candidates(sets, |s| s.tag.clone(), rec.start, rec.end),
        };
        seen.push(Seen { rec, c, may: ca.contains(&true), must: !ca.contains(&false), fbs, tags });
    }
    fn keys(d: &NestedData, out: &mut BTreeSet<(String, String)>) {
        out.insert((d.component.clone(), d.identifier.clone()));
        if let Some(v) = &d.values {
            for x in v.values() {
                if let Val::Nested(n) = x {
                    keys(n, out);
                }
            }
        }
    }
    for s in &seen {
        if !matches!(s.c.how, How::Format | How::Literal) || !matches!(s.rec.got, Got::Ok(..)) {
            continue;
        }
        let key = (s.c.data.component.clone(), s.c.data.identifier.clone());
        if s.rec.act.calls == 0 {
            let cached = seen.iter().any(|o| {
                let mut k = BTreeSet::new();
                keys(&o.c.data, &mut k);
                o.may && o.rec.start < s.rec.end && k.contains(&key) && o.rec.op != s.rec.op
            });
            res.check("C03");
            if !cached {
                res.violate(
                    &["C03"],
                    "cached-without-permission",
                    format!("op {} was answered without asking the repository although no call with caching asked for this string before", s.rec.op),
                );
            }
        } else if s.must && s.tags.len() == 1 && s.fbs.len() == 1 {
            let other_kind = seen.iter().any(|o| {
                let mut k = BTreeSet::new();
                keys(&o.c.data, &mut k);
                k.contains(&key) && (o.c.how != s.c.how)
            });
            if other_kind {
                continue;
            }
            let earlier = seen.iter().find(|o| {
                o.must
                    && o.c.how == s.c.how
                    && o.rec.end < s.rec.start
                    && o.tags == s.tags
                    && o.fbs == s.fbs
                    && o.c.data.component == key.0
                    && o.c.data.identifier == key.1
                    && matches!(o.rec.got, Got::Ok(..))
                    && o.rec.act.fired.is_empty()
                    && o.rec.act.storage.is_empty()
            });
            res.check("C03");
            if let Some(e) = earlier {
                res.violate(
                    &["C03"],
                    "caching-without-effect",
                    format!("op {} asked the repository again although op {} with the same choices was cached", s.rec.op, e.rec.op),
                );
            }
        }
    }
    let _ = truth;
}

#[allow(dead_code)]
fn unused(_: FormatterError) {}
