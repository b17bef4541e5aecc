//! Family `err`: errors rendered with the messages shipped with the crates (C14).
use crate::hist;
use crate::loc::{self, Share};
use crate::pattern;
use crate::repo;
use crate::rng::Rng;
use crate::spec::{RunResult, Spec};
use crate::sql;
use crate::vfs;
use crate::{Rc, SYNC};
use i18n_lexer::{IcuDataProvider, IcuError, LexerError, LexerIterator};
use i18n_localiser::{CommandError, CommandRegistry, FormatterError, Localiser, LocaliserError, TreeError};
use i18n_provider::ProviderError;
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{LanguageTagRegistry, LocalisationTrait, PlaceholderValue, RegistryError};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

const SHIPPED: &[(&str, &str)] = &[
    ("i18n_lexer", "/repo/crates/lexer/l10n/i18n_lexer.sqlite3"),
    ("i18n_localiser", "/repo/crates/localiser/l10n/i18n_localiser.sqlite3"),
    ("i18n_provider", "/repo/crates/provider/core/l10n/i18n_provider.sqlite3"),
    ("i18n_provider_sqlite3", "/repo/crates/provider/sqlite3/l10n/i18n_provider_sqlite3.sqlite3"),
];

/// Languages asked for, and the language of the messages they are to get.
const LANGS: &[(&str, &str)] = &[("en-ZA", "en-ZA"), ("it", "it"), ("en", "en-ZA"), ("en-GB", "en-ZA"), ("it-CH", "it"), ("fr", "en-ZA")];

/// (component, identifier, language) -> message
type Catalogue = BTreeMap<(String, String, String), String>;

fn catalogue() -> &'static Catalogue {
    static C: std::sync::OnceLock<Catalogue> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut m = Catalogue::new();
        for (stem, path) in SHIPPED {
            let key = format!("/catalogue/{stem}");
            vfs::put(&key, std::fs::read(path).expect("shipped messages"));
            let c = repo::open_rw(&key);
            let mut s = c.prepare("SELECT identifier, languageTag, string FROM pattern").expect("shipped messages");
            let mut rows = s.query([]).expect("rows");
            while let Some(row) = rows.next().expect("row") {
                m.insert((stem.to_string(), row.get(0).unwrap(), row.get(1).unwrap()), row.get(2).unwrap());
            }
        }
        m
    })
}

// ------------------------------------------------------------------------------------------------ errors

#[derive(Clone, Debug)]
pub enum Any {
    Lexer(LexerError),
    Icu(IcuError),
    Registry(RegistryError),
    Tree(TreeError),
    Command(CommandError),
    Localiser(LocaliserError),
    Formatter(FormatterError),
    Provider(ProviderError),
    Sqlite(ProviderSqlite3Error),
    Schema(SchemaError),
}

#[derive(Clone, Debug)]
enum Body {
    /// Component, identifier of the message, details by name.
    Message(&'static str, &'static str, Vec<(&'static str, Detail)>),
    Nested(Box<What>),
    Text(String),
}

#[derive(Clone, Debug)]
enum Detail {
    Text(String),
    Number(usize),
}

/// What has to be said about an error.
#[derive(Clone, Debug)]
struct What {
    kind: &'static str,
    variant: &'static str,
    body: Body,
}

fn say(kind: &'static str, variant: &'static str, body: Body) -> Option<What> {
    Some(What { kind, variant, body })
}
fn nest(kind: &'static str, variant: &'static str, w: Option<What>) -> Option<What> {
    say(kind, variant, Body::Nested(Box::new(w?)))
}
fn t(s: &dyn std::fmt::Display) -> Detail {
    Detail::Text(s.to_string())
}

fn lexer(e: &LexerError) -> Option<What> {
    let k = "LexerError";
    let m = |i| Body::Message("i18n_lexer", i, vec![]);
    match e {
        LexerError::NoGrammar => say(k, "NoGrammar", m("no_grammar")),
        LexerError::EmptyString => say(k, "EmptyString", m("empty_string")),
        _ => None,
    }
}
fn icu_error(e: &IcuError) -> Option<What> {
    let k = "IcuError";
    let m = |i| Body::Message("i18n_lexer", i, vec![]);
    match e {
        IcuError::Grapheme => say(k, "Grapheme", m("grapheme")),
        IcuError::Syntax => say(k, "Syntax", m("syntax")),
        IcuError::WhiteSpace => say(k, "WhiteSpace", m("white_space")),
        _ => None,
    }
}
fn registry(e: &RegistryError) -> Option<What> {
    match e {
        RegistryError::LanguageIdentifier(x) => say("RegistryError", "LanguageIdentifier", Body::Text(x.to_string())),
        _ => None,
    }
}
fn tree(e: &TreeError) -> Option<What> {
    let k = "TreeError";
    let m = |i, d| Body::Message("i18n_localiser", i, d);
    match e {
        TreeError::Lexer(x) => nest(k, "Lexer", lexer(x)),
        TreeError::EndedAbruptly => say(k, "EndedAbruptly", m("string_ended_abruptly", vec![])),
        TreeError::InvalidToken(state, at, token) => say(
            k,
            "InvalidToken",
            m("invalid_token", vec![("state", t(state)), ("position", Detail::Number(*at)), ("token", t(token))]),
        ),
        TreeError::UniquePattern(i) => say(k, "UniquePattern", m("unique_pattern", vec![("identifier", t(i))])),
        TreeError::MultiNumberSign(at) => say(k, "MultiNumberSign", m("multi_number_sign", vec![("position", Detail::Number(*at))])),
        TreeError::UniqueNamed(i) => say(k, "UniqueNamed", m("unique_named", vec![("identifier", t(i))])),
        _ => None,
    }
}
fn command(e: &CommandError) -> Option<What> {
    let k = "CommandError";
    let m = |i, d| Body::Message("i18n_localiser", i, d);
    match e {
        CommandError::Custom(x) => nest(k, "Custom", unknown(x.to_string())),
        CommandError::AlreadyExists(c) => say(k, "AlreadyExists", m("already_exists", vec![("identifier", t(c))])),
        CommandError::NotFound(c) => say(k, "NotFound", m("command_not_found", vec![("identifier", t(c))])),
        CommandError::ParameterMissing(c, n) => say(
            k,
            "ParameterMissing",
            m("parameter_missing", vec![("identifier", t(c)), ("parameter", Detail::Number(*n))]),
        ),
        CommandError::InvalidType(c, n) => {
            say(k, "InvalidType", m("invalid_type", vec![("identifier", t(c)), ("parameter", Detail::Number(*n))]))
        }
        _ => None,
    }
}

thread_local! {
    /// Errors handed over in boxes, by their displayed text.
    static BOXED: RefCell<HashMap<String, Any>> = RefCell::new(HashMap::new());
}
fn unknown(displayed: String) -> Option<What> {
    let e = BOXED.with(|b| b.borrow().get(&displayed).cloned());
    what(&e?)
}

fn localiser(e: &LocaliserError) -> Option<What> {
    let k = "LocaliserError";
    let m = |i, d| Body::Message("i18n_localiser", i, d);
    match e {
        LocaliserError::Registry(x) => nest(k, "Registry", registry(x)),
        LocaliserError::Formatter(x) => nest(k, "Formatter", formatter(x)),
        LocaliserError::Provider(x) => nest(k, "Provider", provider(x)),
        LocaliserError::StringNotFound(c, i, l, f) => say(
            k,
            "StringNotFound",
            m("string_not_found", vec![("component", t(c)), ("identifier", t(i)), ("language_tag", t(l)), ("fallback", t(f))]),
        ),
        LocaliserError::CacheEntry(c, i) => say(k, "CacheEntry", m("cache_entry", vec![("component", t(c)), ("identifier", t(i))])),
        LocaliserError::NeverReached => say(k, "NeverReached", m("never_reach", vec![])),
        _ => None,
    }
}
fn formatter(e: &FormatterError) -> Option<What> {
    let k = "FormatterError";
    let m = |i, d| Body::Message("i18n_localiser", i, d);
    let n = |x: &usize| Detail::Number(*x);
    match e {
        FormatterError::Localiser(x) => nest(k, "Localiser", localiser(x)),
        FormatterError::Tree(x) => nest(k, "Tree", tree(x)),
        FormatterError::Locale(x) => say(k, "Locale", Body::Text(x.to_string())),
        FormatterError::Calendar(x) => say(k, "Calendar", Body::Text(x.to_string())),
        FormatterError::ParseInt(x) => say(k, "ParseInt", Body::Text(x.to_string())),
        FormatterError::Decimal(x) => say(k, "Decimal", Body::Text(x.to_string())),
        FormatterError::DateTime(x) => say(k, "DateTime", Body::Text(x.to_string())),
        FormatterError::PluralRules(x) => say(k, "PluralRules", Body::Text(x.to_string())),
        FormatterError::FixedDecimal(x) => say(k, "FixedDecimal", Body::Text(x.to_string())),
        FormatterError::Command(x) => nest(k, "Command", command(x)),
        FormatterError::NoGrammar => say(k, "NoGrammar", m("no_grammar", vec![])),
        FormatterError::InvalidRoot => say(k, "InvalidRoot", m("invalid_root", vec![])),
        FormatterError::RetrieveChildren(x) => say(k, "RetrieveChildren", m("retrieve_children", vec![("node_type", t(x))])),
        FormatterError::NodeNotFound(x) => say(k, "NodeNotFound", m("node_not_found", vec![("node_type", t(x))])),
        FormatterError::FirstChild(x) => say(k, "FirstChild", m("first_child", vec![("node_type", t(x))])),
        FormatterError::RetrieveNodeData(x) => say(k, "RetrieveNodeData", m("retrieve_node_data", vec![("node_type", t(x))])),
        FormatterError::RetrieveNodeToken(x) => say(k, "RetrieveNodeToken", m("retrieve_node_token", vec![("node_type", t(x))])),
        FormatterError::LastChild(x) => say(k, "LastChild", m("last_child", vec![("node_type", t(x))])),
        FormatterError::InvalidNode(x) => say(k, "InvalidNode", m("invalid_node", vec![("node_type", t(x))])),
        FormatterError::NoChildren(x) => say(k, "NoChildren", m("no_children", vec![("node_type", t(x))])),
        FormatterError::PatternNamed(i) => say(k, "PatternNamed", m("pattern_named", vec![("identifier", t(i))])),
        FormatterError::PatternPart(i, x) => say(k, "PatternPart", m("pattern_part", vec![("identifier", t(i)), ("index", n(x))])),
        FormatterError::InvalidOptionValue(v, o, w) => {
            say(k, "InvalidOptionValue", m("invalid_option_value", vec![("value", t(v)), ("option", t(o)), ("keyword", t(w))]))
        }
        FormatterError::InvalidKeyword(w, p) => {
            say(k, "InvalidKeyword", m("invalid_keyword", vec![("keyword", t(w)), ("identifier", t(p))]))
        }
        FormatterError::SelectorNamed(a, s, p) => {
            say(k, "SelectorNamed", m("selector_named", vec![("named", t(a)), ("selector", t(s)), ("identifier", t(p))]))
        }
        FormatterError::SelectorOther(w, p) => {
            say(k, "SelectorOther", m("selector_other", vec![("keyword", t(w)), ("identifier", t(p))]))
        }
        FormatterError::InvalidOption(o, w, p) => {
            say(k, "InvalidOption", m("invalid_option", vec![("option", t(o)), ("keyword", t(w)), ("identifier", t(p))]))
        }
        FormatterError::InvalidSelector(s, w, p) => {
            say(k, "InvalidSelector", m("invalid_selector", vec![("selector", t(s)), ("keyword", t(w)), ("identifier", t(p))]))
        }
        FormatterError::NumberSignString(x) => say(k, "NumberSignString", m("number_sign_string", vec![("index", n(x))])),
        FormatterError::SelectorsIndex(x) => say(k, "SelectorsIndex", m("selectors_index", vec![("index", n(x))])),
        FormatterError::SelectorsIndexNamed(i, x) => {
            say(k, "SelectorsIndexNamed", m("selectors_index_named", vec![("identifier", t(i)), ("index", n(x))]))
        }
        FormatterError::PlaceholderValue(a, b) => {
            say(k, "PlaceholderValue", m("placeholder_value", vec![("part", t(a)), ("placeholder", t(b))]))
        }
        FormatterError::InvalidValue(a) => say(k, "InvalidValue", m("invalid_value", vec![("part", t(a))])),
        FormatterError::NamedStringIdentifier(i) => {
            say(k, "NamedStringIdentifier", m("named_string_identifier", vec![("identifier", t(i))]))
        }
        FormatterError::NoIcuProvider => say(k, "NoIcuProvider", m("no_icu_provider", vec![])),
        FormatterError::NeverReached => say(k, "NeverReached", m("never_reach", vec![])),
        _ => None,
    }
}
fn provider(e: &ProviderError) -> Option<What> {
    let k = "ProviderError";
    let m = |i, d| Body::Message("i18n_provider", i, d);
    match e {
        ProviderError::ComponentNotFound(c) => say(k, "ComponentNotFound", m("component_not_found", vec![("component", t(c))])),
        ProviderError::LanguageTagRegistry(x) => nest(k, "LanguageTagRegistry", registry(x)),
        ProviderError::DefaultLanguage(c) => say(k, "DefaultLanguage", m("default_language", vec![("component", t(c))])),
        ProviderError::InvalidDefaultLanguage(c) => {
            say(k, "InvalidDefaultLanguage", m("invalid_default_language", vec![("component", t(c))]))
        }
        ProviderError::DefaultLanguageCount(c, l) => {
            say(k, "DefaultLanguageCount", m("default_language_count", vec![("component", t(c)), ("language", t(l))]))
        }
        ProviderError::Custom(x) => {
            let any: &dyn std::error::Error = &***x;
            match any.downcast_ref::<ProviderSqlite3Error>() {
                Some(s) => nest(k, "Custom", sqlite(s)),
                None => None,
            }
        }
        _ => None,
    }
}
fn sqlite(e: &ProviderSqlite3Error) -> Option<What> {
    let k = "ProviderSqlite3Error";
    let m = |i, d| Body::Message("i18n_provider_sqlite3", i, d);
    match e {
        ProviderSqlite3Error::Io(x) => say(k, "Io", Body::Text(x.to_string())),
        ProviderSqlite3Error::Sqlite3(x) => say(k, "Sqlite3", Body::Text(x.to_string())),
        ProviderSqlite3Error::NotDirectory(p) => say(k, "NotDirectory", m("path_not_directory", vec![("path", t(&p.display()))])),
        ProviderSqlite3Error::NoSqlite3Files(p) => say(k, "NoSqlite3Files", m("no_sqlite3", vec![("path", t(&p.display()))])),
        ProviderSqlite3Error::PathConversion => say(k, "PathConversion", m("path_conversion", vec![])),
        ProviderSqlite3Error::NotExists(p) => say(k, "NotExists", m("path_not_exist", vec![("path", t(&p.display()))])),
        ProviderSqlite3Error::SchemaInvalid(x) => nest(k, "SchemaInvalid", schema(x)),
        _ => None,
    }
}
fn schema(e: &SchemaError) -> Option<What> {
    let k = "SchemaError";
    let m = |i, d| Body::Message("i18n_provider_sqlite3", i, d);
    match e {
        SchemaError::Sqlite3(x) => say(k, "Sqlite3", Body::Text(x.to_string())),
        SchemaError::MissingTable(n) => say(k, "MissingTable", m("missing_table", vec![("name", t(n))])),
        SchemaError::Version(p, v) => say(k, "Version", m("schema_version", vec![("path", t(p)), ("version", t(v))])),
        SchemaError::MissingVersion(p) => say(k, "MissingVersion", m("schema_version_missing", vec![("path", t(p))])),
        SchemaError::MissingColumn(a, b) => say(k, "MissingColumn", m("missing_column", vec![("table", t(a)), ("column", t(b))])),
        SchemaError::ColumnProperty(a, b, c) => {
            say(k, "ColumnProperty", m("column_property", vec![("table", t(a)), ("column", t(b)), ("property", t(c))]))
        }
        SchemaError::ColumnDefault(a, b, c) => {
            say(k, "ColumnDefault", m("column_default", vec![("table", t(a)), ("column", t(b)), ("default", t(c))]))
        }
        SchemaError::ColumnMismatch(a, b) => say(k, "ColumnMismatch", m("column_mismatch", vec![("table", t(a)), ("column", t(b))])),
        _ => None,
    }
}

fn what(e: &Any) -> Option<What> {
    match e {
        Any::Lexer(e) => lexer(e),
        Any::Icu(e) => icu_error(e),
        Any::Registry(e) => registry(e),
        Any::Tree(e) => tree(e),
        Any::Command(e) => command(e),
        Any::Localiser(e) => localiser(e),
        Any::Formatter(e) => formatter(e),
        Any::Provider(e) => provider(e),
        Any::Sqlite(e) => sqlite(e),
        Any::Schema(e) => schema(e),
    }
}

/// The message in this language, filled in.
fn fill(c: &Catalogue, component: &str, ident: &str, details: &[(&'static str, Detail)], lang: &str) -> Option<String> {
    let get = |l: &str| c.get(&(component.to_string(), ident.to_string(), l.to_string()));
    let template = match get(lang) {
        Some(s) => s,
        None => get("en-ZA")?,
    };
    let mut main = template.as_str();
    let mut named: Vec<(String, String)> = vec![];
    if let Some(at) = template.rfind("}.#{") {
        main = &template[..at + 2];
        for part in template[at + 3..].split('}') {
            if let Some((n, s)) = part.trim_start_matches('{').split_once(' ') {
                named.push((n.to_string(), s.to_string()));
            }
        }
    }
    let mut out = String::new();
    let mut rest = main;
    while let Some(at) = rest.find('{') {
        // Quotation marks of the grammar are not part of the text.
        out.push_str(&rest[..at].replace('`', ""));
        let end = at + rest[at..].find('}')?;
        let inner = &rest[at + 1..end];
        if let Some(l) = inner.strip_prefix('`') {
            out.push_str(l.trim_end_matches('`'));
        } else {
            let name = inner.split(' ').next()?;
            let d = details.iter().find(|d| d.0 == name)?;
            match &d.1 {
                Detail::Number(n) => out.push_str(&n.to_string()),
                Detail::Text(s) if inner.contains(" select ") => {
                    let choice = inner.split(' ').find_map(|p| p.strip_prefix(&format!("{s}#")))?;
                    out.push_str(&named.iter().find(|x| x.0 == choice)?.1);
                }
                Detail::Text(s) => out.push_str(s),
            }
        }
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Some(out)
}

/// None: as it should be; else what is wrong.
fn complaint(c: &Catalogue, w: &What, lang: &str, text: &str) -> Option<String> {
    let head = format!("{}::{}: ", w.kind, w.variant);
    let Some(rest) = text.strip_prefix(&head) else {
        return Some(format!("does not start with '{head}': '{text}'"));
    };
    let chars: Vec<char> = rest.chars().collect();
    if chars.len() < 3 {
        return Some(format!("too short: '{text}'"));
    }
    let inner: String = chars[1..chars.len() - 2].iter().collect();
    match &w.body {
        Body::Text(s) => (inner != *s).then(|| format!("'{inner}' instead of the cause '{s}'")),
        Body::Nested(n) => complaint(c, n, lang, &inner),
        Body::Message(comp, ident, details) => match fill(c, comp, ident, details, lang) {
            None => Some(format!("the shipped messages have no fitting {comp}/{ident}")),
            Some(s) => (s != inner).then(|| format!("'{inner}' instead of '{s}'")),
        },
    }
}

fn render(l: &Localiser, e: &Any, tag: Option<&crate::Tag>, caching: Option<bool>) -> Result<String, String> {
    macro_rules! go {
        ($e:expr) => {
            match tag {
                Some(t) => l.format_error($e, t, Some(true), caching),
                None => l.format_error_with_defaults($e),
            }
        };
    }
    macro_rules! data {
        ($e:expr) => {
            match tag {
                Some(t) => l.format_localisation_data(&$e.localisation_data(), t, Some(true), caching),
                None => l.format_localisation_data_with_defaults(&$e.localisation_data()),
            }
        };
    }
    let r = match e {
        Any::Lexer(e) => go!(e),
        Any::Icu(e) => go!(e),
        Any::Registry(e) => go!(e),
        Any::Tree(e) => go!(e),
        Any::Command(e) => go!(e),
        Any::Localiser(e) => go!(e),
        Any::Formatter(e) => go!(e),
        Any::Provider(e) => go!(e),
        Any::Sqlite(e) => data!(e),
        Any::Schema(e) => data!(e),
    };
    r.map(|x| (*x.0).clone()).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------------------------------------ making errors

fn word(r: &mut Rng, n: &mut u32) -> String {
    *n += 1;
    let base = *r.pick(&["alpha", "größe", "a_b", "{x}", "`y`", "#", "‘q’", "two words", "l'o", "%s {0}", "日本", ""]);
    format!("{base}{n}")
}

fn boxed(e: Any) -> Rc<Box<dyn i18n_utility::LocalisationErrorTrait>> {
    let b: Box<dyn i18n_utility::LocalisationErrorTrait> = match &e {
        Any::Lexer(x) => Box::new(x.clone()),
        Any::Icu(x) => Box::new(x.clone()),
        Any::Registry(x) => Box::new(*x),
        Any::Tree(x) => Box::new(x.clone()),
        Any::Command(x) => Box::new(x.clone()),
        Any::Localiser(x) => Box::new(x.clone()),
        Any::Formatter(x) => Box::new(x.clone()),
        Any::Provider(x) => Box::new(x.clone()),
        _ => unreachable!(),
    };
    BOXED.with(|m| m.borrow_mut().insert(b.to_string(), e));
    Rc::new(b)
}

fn make_registry(r: &mut Rng) -> RegistryError {
    let reg = LanguageTagRegistry::new();
    reg.tag(*r.pick(&["not a tag", "", "e", "en-", "en-XYZW-123456789"])).expect_err("not a tag")
}
fn make_lexer(r: &mut Rng) -> LexerError {
    r.pick(&[LexerError::NoGrammar, LexerError::EmptyString]).clone()
}
fn make_tree(r: &mut Rng, n: &mut u32) -> TreeError {
    match r.below(6) {
        0 => TreeError::Lexer(make_lexer(r)),
        1 => TreeError::EndedAbruptly,
        2 => TreeError::UniquePattern(word(r, n)),
        3 => TreeError::UniqueNamed(word(r, n)),
        _ => TreeError::MultiNumberSign(r.below(3000)),
    }
}
fn make_command(r: &mut Rng, n: &mut u32, depth: u32) -> CommandError {
    match r.below(6) {
        0 | 1 if depth < 3 => {
            let mut e = make(r, n, depth + 1);
            while matches!(e, Any::Sqlite(_) | Any::Schema(_)) {
                e = make(r, n, depth + 1);
            }
            CommandError::Custom(boxed(e))
        }
        2 => CommandError::AlreadyExists(word(r, n)),
        3 => CommandError::ParameterMissing(word(r, n), r.below(2000)),
        4 => CommandError::InvalidType(word(r, n), r.below(2000)),
        _ => CommandError::NotFound(word(r, n)),
    }
}
fn make_provider(r: &mut Rng, n: &mut u32) -> ProviderError {
    match r.below(6) {
        0 => ProviderError::ComponentNotFound(word(r, n)),
        1 => ProviderError::LanguageTagRegistry(make_registry(r)),
        2 => ProviderError::DefaultLanguage(word(r, n)),
        3 => ProviderError::InvalidDefaultLanguage(word(r, n)),
        4 => ProviderError::DefaultLanguageCount(word(r, n), word(r, n)),
        _ => ProviderError::from(make_sqlite(r, n)),
    }
}
fn raw_sqlite(r: &mut Rng) -> rusqlite::Error {
    match r.below(4) {
        0 => rusqlite::Error::QueryReturnedNoRows,
        1 => rusqlite::Error::InvalidColumnIndex(3),
        2 => rusqlite::Error::SqliteFailure(rusqlite::ffi::Error::new(10), Some("disk I/O error".into())),
        _ => rusqlite::Error::SqliteFailure(rusqlite::ffi::Error::new(5), None),
    }
}
fn make_sqlite(r: &mut Rng, n: &mut u32) -> ProviderSqlite3Error {
    let path = |r: &mut Rng, n: &mut u32| std::path::PathBuf::from(format!("/d/{}", word(r, n)));
    match r.below(8) {
        0 => ProviderSqlite3Error::from(std::io::Error::from_raw_os_error(*r.pick(&[2, 5, 13, 28]))),
        1 => ProviderSqlite3Error::from(raw_sqlite(r)),
        2 => ProviderSqlite3Error::NotDirectory(path(r, n)),
        3 => ProviderSqlite3Error::NoSqlite3Files(path(r, n)),
        4 => ProviderSqlite3Error::PathConversion,
        5 => ProviderSqlite3Error::NotExists(path(r, n)),
        _ => ProviderSqlite3Error::from(make_schema(r, n)),
    }
}
fn make_schema(r: &mut Rng, n: &mut u32) -> SchemaError {
    match r.below(8) {
        0 => SchemaError::from(raw_sqlite(r)),
        1 => SchemaError::MissingTable(word(r, n)),
        2 => SchemaError::Version(word(r, n), word(r, n)),
        3 => SchemaError::MissingVersion(word(r, n)),
        4 => SchemaError::MissingColumn(word(r, n), word(r, n)),
        5 => SchemaError::ColumnProperty(word(r, n), word(r, n), word(r, n)),
        6 => SchemaError::ColumnDefault(word(r, n), word(r, n), word(r, n)),
        _ => SchemaError::ColumnMismatch(word(r, n), word(r, n)),
    }
}
fn make_localiser(r: &mut Rng, n: &mut u32, depth: u32) -> LocaliserError {
    match r.below(7) {
        0 => LocaliserError::Registry(make_registry(r)),
        1 | 2 if depth < 3 => LocaliserError::Formatter(make_formatter(r, n, depth + 1)),
        3 => LocaliserError::CacheEntry(word(r, n), word(r, n)),
        4 => LocaliserError::StringNotFound(word(r, n), word(r, n), word(r, n), r.chance(50)),
        5 if r.chance(20) => LocaliserError::NeverReached,
        _ => LocaliserError::Provider(make_provider(r, n)),
    }
}
fn data_error(r: &mut Rng) -> icu_provider::DataError {
    icu_provider::DataError::custom(*r.pick(&["no such key", "données", "x {y}"]))
}
fn make_formatter(r: &mut Rng, n: &mut u32, depth: u32) -> FormatterError {
    match r.below(31) {
        28 => FormatterError::Decimal(icu_decimal::DecimalError::from(data_error(r))),
        29 => FormatterError::DateTime(icu_datetime::DateTimeError::from(data_error(r))),
        30 => FormatterError::PluralRules(icu_plurals::PluralsError::from(data_error(r))),
        0 | 1 if depth < 3 => FormatterError::Localiser(Box::new(make_localiser(r, n, depth + 1))),
        2 | 3 => FormatterError::Tree(make_tree(r, n)),
        4 => FormatterError::Locale(icu_locid::Locale::try_from_bytes(b"!").expect_err("locale")),
        5 => FormatterError::ParseInt("x".parse::<i32>().expect_err("number")),
        6 | 7 => FormatterError::Command(make_command(r, n, depth + 1)),
        8 => FormatterError::NoGrammar,
        9 => FormatterError::InvalidRoot,
        10 => FormatterError::PatternNamed(word(r, n)),
        11 => FormatterError::PatternPart(word(r, n), r.below(2000)),
        12 => FormatterError::InvalidOptionValue(word(r, n), word(r, n), word(r, n)),
        13 => FormatterError::InvalidKeyword(word(r, n), word(r, n)),
        14 => FormatterError::SelectorNamed(word(r, n), word(r, n), word(r, n)),
        15 => FormatterError::SelectorOther(word(r, n), word(r, n)),
        16 => FormatterError::InvalidOption(word(r, n), word(r, n), word(r, n)),
        17 => FormatterError::InvalidSelector(word(r, n), word(r, n), word(r, n)),
        18 => FormatterError::NumberSignString(r.below(2000)),
        19 => FormatterError::SelectorsIndex(r.below(2000)),
        20 => FormatterError::SelectorsIndexNamed(word(r, n), r.below(2000)),
        21 => FormatterError::PlaceholderValue(word(r, n), word(r, n)),
        22 => FormatterError::InvalidValue(word(r, n)),
        23 => FormatterError::NamedStringIdentifier(word(r, n)),
        24 => FormatterError::NoIcuProvider,
        25 => FormatterError::NeverReached,
        26 => FormatterError::Calendar(icu_calendar::Date::try_new_iso_date(2024, 13, 1).expect_err("date")),
        _ => FormatterError::FixedDecimal("x".parse::<fixed_decimal::FixedDecimal>().expect_err("number")),
    }
}
fn make(r: &mut Rng, n: &mut u32, depth: u32) -> Any {
    match r.below(16) {
        0 => Any::Lexer(make_lexer(r)),
        1 => Any::Icu(r.pick(&[IcuError::Grapheme, IcuError::Syntax, IcuError::WhiteSpace]).clone()),
        2 => Any::Registry(make_registry(r)),
        3 => Any::Tree(make_tree(r, n)),
        4 | 5 => Any::Command(make_command(r, n, depth)),
        6 | 7 => Any::Provider(make_provider(r, n)),
        8 => Any::Sqlite(make_sqlite(r, n)),
        9 => Any::Schema(make_schema(r, n)),
        10 | 11 | 12 => Any::Localiser(make_localiser(r, n, depth)),
        _ => Any::Formatter(make_formatter(r, n, depth)),
    }
}

/// A string with one fault, values to use it with, and the error this has to give (or what has to be mentioned).
#[derive(Clone, Debug)]
struct Faulty {
    source: String,
    values: Vec<(String, pattern::Val)>,
    full: Option<FormatterError>,
    mentions: Vec<String>,
}

fn make_faulty(r: &mut Rng, n: &mut u32) -> Faulty {
    use pattern::Val;
    let mut id = || {
        *n += 1;
        format!("k{n}")
    };
    let (p, a, b, c) = (id(), id(), id(), id());
    let head = r.pick(&["", "Text ", "ä: ", "{`{#}`} "]).to_string();
    let mut values = vec![(p.clone(), Val::Str("x".into()))];
    let mut f = |body: String, full: Option<FormatterError>, mentions: &[&str]| Faulty {
        source: format!("{head}{body}"),
        values: std::mem::take(&mut values),
        full,
        mentions: mentions.iter().map(|s| s.to_string()).collect(),
    };
    let keyword = *r.pick(&["plural", "ordinal"]);
    match r.below(20) {
        0 => f(format!("{{{p} {a}}}"), Some(FormatterError::InvalidKeyword(a, p)), &[]),
        1 => f(format!("{{{p} decimal {a}#{b}}}"), Some(FormatterError::InvalidOption(a, "decimal".into(), p)), &[]),
        2 => f(format!("{{{p} date_time {a}#{b}}}"), Some(FormatterError::InvalidOption(a, "date_time".into(), p)), &[]),
        3 => {
            let o = *r.pick(&["sign", "group"]);
            f(format!("{{{p} decimal {o}#{b}}}"), Some(FormatterError::InvalidOptionValue(b, o.into(), "decimal".into())), &[])
        }
        4 => {
            let o = *r.pick(&["date", "time", "calendar"]);
            f(format!("{{{p} date_time {o}#{b}}}"), Some(FormatterError::InvalidOptionValue(b, o.into(), "date_time".into())), &[])
        }
        5 => f(
            format!("{{{p} {keyword} other#{a} {b}#{a}}}#{{{a} w}}"),
            Some(FormatterError::InvalidSelector(b, keyword.into(), p)),
            &[],
        ),
        6 => f(
            format!("{{{p} {keyword} other#{a} one#{b}}}#{{{a} w}}"),
            Some(FormatterError::SelectorNamed(b, "one".into(), p)),
            &[],
        ),
        7 => f(format!("{{{p} select {c}#{b} x#{a}}}#{{{a} w}}"), Some(FormatterError::SelectorNamed(b, c, p)), &[]),
        8 => f(format!("{{{p} {keyword} one#{a}}}#{{{a} w}}"), Some(FormatterError::SelectorOther(keyword.into(), p)), &[]),
        9 => f(format!("{{{p}}}#{{{a} w}}{{{a} v}}"), Some(FormatterError::Tree(TreeError::UniqueNamed(a))), &[]),
        10 => f(format!("{{{p}}}#{{_ w}}{{{a} v}}"), Some(FormatterError::NamedStringIdentifier("_".into())), &[]),
        11 => f(format!("{{#{a} x}}"), Some(FormatterError::Command(CommandError::NotFound(a))), &[]),
        12 => f(format!("{{#{a}# {p}}}"), Some(FormatterError::Command(CommandError::NotFound(a))), &[]),
        13 => f(format!("{{{p} "), Some(FormatterError::Tree(TreeError::EndedAbruptly)), &[]),
        14 => {
            let kind = *r.pick(&["", " decimal", " date_time", " select x#q", " plural other#q", " ordinal other#q"]);
            let tail = if kind.contains('#') { "#{q w}" } else { "" };
            f(format!("{{{p}}}{{{a}{kind}}}{tail}"), None, &["FormatterError::PlaceholderValue", &a])
        }
        15 => f(format!("{{{p} decimal}}"), None, &["FormatterError::InvalidValue", "PatternDecimal"]),
        16 => f(format!("{{{p} {keyword} other#{a}}}#{{{a} w}}"), None, &["FormatterError::InvalidValue"]),
        17 => f(format!("{{{p}}} }} {a}"), None, &["TreeError::InvalidToken", "}"]),
        18 => f(format!("{{{p} plural other#{a}}}#{{{a} # # #}}{{{b} ##}}"), None, &["TreeError::MultiNumberSign"]),
        _ => f(format!("{{{p} select {c}#_}}"), Some(FormatterError::SelectorNamed("_".into(), c, p)), &[]),
    }
}

// ------------------------------------------------------------------------------------------------ operations

#[derive(Clone)]
enum Op {
    /// Localise a string with a known fault.
    Faulty(String, Faulty),
    /// An error made for the purpose.
    Made(Any),
    /// Localise this with these values: it may well fail.
    Call(String, Vec<(String, pattern::Val)>, String),
    Missing(String, String),
    Tag(String),
    Lex(String, bool),
    Command(String),
    Again(String),
    Open(String),
    Details(String),
}

#[derive(Clone)]
struct Ask {
    op: Op,
    /// (asked for, expected) or the defaults.
    lang: Option<(&'static str, &'static str)>,
    caching: Option<bool>,
}

impl Ask {
    fn show(&self) -> String {
        let how = format!("in {} caching {:?}", self.lang.map(|l| l.0).unwrap_or("the default language"), self.caching);
        match &self.op {
            Op::Made(e) => format!("explain {e:?} {how}"),
            Op::Faulty(i, f) => format!("format app/{i} {:?}, explain the error {how}", f.source),
            Op::Call(i, v, l) => format!("format app/{i} in {l} with {:?}, explain any error {how}", v.iter().map(|(k, v)| format!("{k}={}", v.show())).collect::<Vec<_>>()),
            Op::Missing(c, i) => format!("format {c}/{i}, explain the error {how}"),
            Op::Tag(x) => format!("tag({x:?}), explain the error {how}"),
            Op::Lex(s, g) => format!("lexer over {s:?} (grammar: {g}), explain the error {how}"),
            Op::Command(c) => format!("command({c}), explain the error {how}"),
            Op::Again(c) => format!("insert({c}) again, explain the error {how}"),
            Op::Open(p) => format!("open {p}, explain the error {how}"),
            Op::Details(c) => format!("component_details({c}), explain any error {how}"),
        }
    }
}

#[derive(Clone)]
struct Got {
    error: Option<Any>,
    text: Result<String, String>,
}

struct Ctx {
    localiser: Localiser,
    registry: Rc<LanguageTagRegistry>,
    commands: Rc<CommandRegistry>,
    icu: Rc<IcuDataProvider>,
    dir: String,
}

fn no_command(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(String::new())
}

fn provoke(x: &Ctx, op: &Op) -> Option<Any> {
    let tag = |t: &str| x.registry.tag(t).expect("tag");
    match op {
        Op::Made(e) => Some(e.clone()),
        Op::Call(i, values, l) => {
            let und = tag("und");
            let values: HashMap<String, PlaceholderValue> = values.iter().map(|(k, v)| (k.clone(), v.real(&und))).collect();
            x.localiser.format("app", i, &values, &tag(l), Some(true), None).err().map(Any::Localiser)
        }
        Op::Faulty(i, f) => {
            let und = tag("und");
            let values: HashMap<String, PlaceholderValue> = f.values.iter().map(|(k, v)| (k.clone(), v.real(&und))).collect();
            x.localiser.format("app", i, &values, &tag("en-ZA"), None, None).err().map(Any::Localiser)
        }
        Op::Missing(c, i) => x.localiser.literal(c, i, &tag("it"), Some(false), None).err().map(Any::Localiser),
        Op::Tag(s) => x.registry.tag(s).err().map(Any::Registry),
        Op::Lex(s, g) => {
            let grammar = if *g { "{}#`" } else { "" };
            match LexerIterator::try_new(s, grammar, &x.icu) {
                Ok(_) => None,
                Err(e) => Some(Any::Lexer(e)),
            }
        }
        Op::Command(c) => x.commands.command(c).err().map(Any::Command),
        Op::Again(c) => x.commands.insert(c, no_command).err().map(Any::Command),
        Op::Open(p) => LocalisationProviderSqlite3::try_new(format!("{}/{p}", x.dir).as_str(), &x.registry, false).err().map(Any::Sqlite),
        Op::Details(c) => x.localiser.localisation_provider().component_details(c).err().map(Any::Provider),
    }
}

fn perform(x: &Ctx, n: usize, ask: &Ask) -> Got {
    vfs::set_op(Some(n));
    let error = provoke(x, &ask.op);
    let tag = ask.lang.map(|l| x.registry.tag(l.0).expect("tag"));
    let text = match &error {
        None => Ok(String::new()),
        Some(e) => render(&x.localiser, e, tag.as_ref(), ask.caching),
    };
    vfs::set_op(None);
    Got { error, text }
}

pub fn run(spec: &Spec) -> RunResult {
    let mut res = RunResult::default();
    let has = |w: &str| spec.mode.split('-').any(|x| x == w);
    let mut r = Rng::new(spec.seed, 61);
    BOXED.with(|b| b.borrow_mut().clear());
    vfs::install();
    let catalogue = catalogue();
    vfs::reset(spec.seed);
    let dir = repo::fresh_dir();
    for (stem, path) in SHIPPED {
        let p = format!("{dir}/{stem}.sqlite3");
        std::fs::write(&p, b"").expect("placeholder");
        vfs::put(&p, std::fs::read(path).expect("shipped messages"));
    }
    // Strings to fail with.
    let mut file = repo::File::default();
    file.comps.push(("app".into(), "en-ZA".into()));
    let mut idents: Vec<(String, Vec<(String, pattern::VarKind, Vec<String>)>)> = vec![];
    for n in 0..r.range(2, 5) {
        let ident = format!("s{n}");
        let p = match r.below(3) {
            0 => pattern::generate_soup(&mut r),
            1 => pattern::generate_wild(&mut r, "w"),
            _ => pattern::generate(&mut r, "en-ZA", "m", pattern::GenOpts { commands: true, literal_blocks: false, complex: true }),
        };
        file.patterns.insert(("app".into(), ident.clone(), "en-ZA".into()), p.source.clone());
        res.trace.push(format!("string app/{ident} {:?}", p.source));
        idents.push((ident, p.vars.clone()));
    }
    let mut word_no = 0;
    let mut faulty: Vec<(String, Faulty)> = vec![];
    for n in 0..r.range(1, 3) {
        let f = make_faulty(&mut r, &mut word_no);
        let ident = format!("f{n}");
        file.patterns.insert(("app".into(), ident.clone(), "en-ZA".into()), f.source.clone());
        faulty.push((ident, f));
    }
    file.contributors.insert(("app".into(), "en-ZA".into(), "Ann".into()));
    let app = format!("{dir}/app.sqlite3");
    std::fs::write(&app, b"").expect("placeholder");
    repo::build_file(&app, 4096, &file);
    std::fs::create_dir_all(format!("{dir}/empty")).expect("directory");
    std::fs::write(format!("{dir}/plain"), b"").expect("file");

    let threads = if has("conc") && SYNC { r.range(2, 3) } else { 1 };
    let count = r.range(4, 14);
    let mut ops: Vec<(usize, Ask)> = vec![];
    for k in 0..count {
        let op = match r.below(24) {
            20..=23 => {
                let (i, f) = r.pick(&faulty).clone();
                Op::Faulty(i, f)
            }
            0..=8 => Op::Made(make(&mut r, &mut word_no, 0)),
            9..=12 => {
                let (i, vars) = r.pick(&idents).clone();
                let mut values = vec![];
                for (id, kind, choices) in &vars {
                    let bad = r.chance(35);
                    if r.chance(80) {
                        if let Some(v) = pattern::gen_value(&mut r, *kind, choices, &format!("u{k}"), bad) {
                            values.push((id.clone(), v));
                        }
                    }
                }
                Op::Call(i, values, r.pick(&["en-ZA", "it", "fr"]).to_string())
            }
            13 => Op::Missing(r.pick(&["app", "no_such", "i18n_lexer"]).to_string(), word(&mut r, &mut word_no)),
            14 => Op::Tag(r.pick(&["bad tag", "x", "en-"]).to_string()),
            15 => Op::Lex(r.pick(&["", "a{b}"]).to_string(), r.chance(50)),
            16 => Op::Command(word(&mut r, &mut word_no)),
            17 => Op::Again(r.pick(&["cmd_a", "file_path"]).to_string()),
            18 => Op::Open(r.pick(&["empty", "plain", "nowhere"]).to_string()),
            _ => Op::Details(r.pick(&["app", "no_such"]).to_string()),
        };
        let lang = if r.chance(15) { None } else { Some(*r.pick(LANGS)) };
        let caching = *r.pick(&[None, Some(true), Some(false)]);
        ops.push((r.below(threads), Ask { op, lang, caching }));
    }
    let default = *r.pick(LANGS);
    let caching = r.chance(50);
    let flat: Vec<(usize, sql::Op)> = ops.iter().map(|(t, _)| (*t, sql::Op::Repo)).collect();
    let planned = if has("fault") { sql::gen_faults(&mut r, &flat, 5) } else { vec![] };
    res.ops = ops.len() as u32;
    res.threads = threads as u32;
    res.faults = planned.len() as u32;
    let mut faults = planned;
    for (n, f) in faults.iter_mut().enumerate() {
        if spec.drop_faults.contains(&(n as u32)) {
            f.nth = u32::MAX;
        } else {
            res.trace.push(format!("fault {n}: {}", f.show()));
        }
    }
    let registry: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new());
    let provider = match crate::interpose::with_dirs(crate::interpose::DirPlan { shuffle: r.next(), ..Default::default() }, || {
        LocalisationProviderSqlite3::try_new(dir.as_str(), &registry, false)
    })
    .0
    {
        Ok(p) => p,
        Err(e) => {
            res.violate(&["C14", "C10"], "open", format!("the shipped messages cannot be opened: {e:?}").replace(&dir, ""));
            return res;
        }
    };
    let icu = loc::icu();
    let commands = loc::commands();
    let localiser = match Localiser::try_new(&icu, &registry, Box::new(provider), &commands, true, caching, default.0) {
        Ok(l) => l,
        Err(e) => {
            res.violate(&["C14"], "construct", format!("no localiser over the shipped messages: {e}"));
            return res;
        }
    };
    res.trace.push(format!("localiser: language {} caching {caching}", default.0));
    let shared = Arc::new(Share(Ctx { localiser, registry, commands, icu, dir: dir.clone() }));
    vfs::set_faults(faults.clone());
    let (records, stopped) = hist::run(
        spec,
        &mut res,
        Arc::clone(&shared),
        &ops,
        threads,
        (120_000, 100_000_000_000),
        perform,
        Ask::show,
        show_got,
    );
    for l in &mut res.trace {
        *l = l.replace(&dir, "");
    }
    let fired: BTreeSet<usize> = vfs::with(|s| std::mem::take(&mut s.fired)).into_iter().map(|x| x.1).collect();
    vfs::set_faults(vec![]);
    for f in &fired {
        res.fire(&faults[*f].kind.name());
    }
    sql::relabel(&mut res, &["C14"]);
    let mut errors: Vec<(usize, Any)> = vec![];
    for rec in &records {
        let ask = &ops[rec.op].1;
        res.check("C14");
        match &rec.got {
            Err(m) => {
                res.violate(&["C02", "C14"], &format!("panic-{}", hist::site(m)), format!("op {}: {} panicked: {m}", rec.op, ask.show()))
            }
            Ok(g) => {
                judge(&mut res, catalogue, rec.op, ask, g, default.1, !fired.is_empty(), &dir);
                if let Some(e) = &g.error {
                    errors.push((rec.op, e.clone()));
                }
            }
        }
    }
    if stopped {
        return res;
    }
    // Afterwards every error which came up can be explained, in both languages.
    for (n, e) in errors {
        for lang in [LANGS[0], LANGS[1]] {
            let x = &shared.0;
            let tag = x.registry.tag(lang.0).expect("tag");
            let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render(&x.localiser, &e, Some(&tag), None)));
            let ask = Ask { op: Op::Made(e.clone()), lang: Some(lang), caching: None };
            match g {
                Err(_) => {
                    let m = simstd::sim::take_panic().unwrap_or_default();
                    res.violate(&["C02", "C14"], &format!("panic-{}", hist::site(&m)), format!("afterwards {} panicked: {m}", ask.show()));
                }
                Ok(text) => judge(&mut res, catalogue, n, &ask, &Got { error: Some(e.clone()), text }, default.1, false, &dir),
            }
        }
    }
    res
}

fn show_got(g: &Got) -> String {
    match (&g.error, &g.text) {
        (None, _) => "no error".into(),
        (Some(_), Ok(s)) => format!("{s:?}"),
        (Some(e), Err(s)) => format!("{e:?} not explained: {s}"),
    }
}

fn judge(res: &mut RunResult, c: &Catalogue, n: usize, ask: &Ask, g: &Got, default: &str, faults: bool, dir: &str) {
    let Some(e) = &g.error else {
        // These have to fail.
        if matches!(ask.op, Op::Command(_) | Op::Again(_) | Op::Tag(_) | Op::Open(_) | Op::Missing(..) | Op::Faulty(..)) && !faults {
            res.violate(&["C14"], "no-error", format!("op {n}: {}: no error", ask.show()));
        }
        return;
    };
    let Some(w) = what(e) else { return };
    let inner = innermost(&w);
    res.probe(&format!("{}::{}", inner.kind, inner.variant));
    let lang = ask.lang.map(|l| l.1).unwrap_or(default);
    let at = format!("{}::{}", inner.kind, inner.variant);
    match &g.text {
        Err(x) => {
            let storage = faults && x.contains("ProviderSqlite3Error::");
            if !storage {
                let text = format!("op {n}: {}: {e:?} is not explained: {x}", ask.show());
                res.violate(&["C14"], &format!("unexplained {at}"), text.replace(dir, ""));
            }
        }
        Ok(text) => {
            if let Some(why) = complaint(c, &w, lang, text) {
                res.violate(&["C14"], &format!("explained wrongly {at}"), format!("op {n}: {}: {why}", ask.show()).replace(dir, ""));
            }
            if let Op::Faulty(_, f) = &ask.op {
                let storage = faults && text.contains("ProviderSqlite3Error::");
                let mut wrong = None;
                if let Some(full) = &f.full {
                    let e = Any::Localiser(LocaliserError::Formatter(full.clone()));
                    wrong = what(&e).and_then(|w| complaint(c, &w, lang, text));
                }
                for m in &f.mentions {
                    if !text.contains(m.as_str()) {
                        wrong = Some(format!("'{text}' does not mention '{m}'"));
                    }
                }
                if let (Some(why), false) = (wrong, storage) {
                    res.violate(&["C14"], &format!("details wrong {at}"), format!("op {n}: {}: {why}", ask.show()).replace(dir, ""));
                }
            }
            let detail = match &ask.op {
                Op::Command(c) | Op::Again(c) => Some(c.clone()),
                Op::Missing(_, i) if !faults && !text.contains("ComponentNotFound") => Some(i.clone()),
                Op::Missing(c, _) | Op::Details(c) if !faults => Some(c.clone()),
                Op::Open(p) if !faults => Some(p.clone()),
                _ => None,
            };
            if let Some(d) = detail {
                if !text.contains(&d) {
                    res.violate(&["C14"], &format!("details missing {at}"), format!("op {n}: {}: '{text}' does not mention '{d}'", ask.show()).replace(dir, ""));
                }
            }
        }
    }
}

fn innermost(w: &What) -> &What {
    match &w.body {
        Body::Nested(n) => innermost(n),
        _ => w,
    }
}
