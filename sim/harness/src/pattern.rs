//! Generator of pattern strings together with what they mean, and an evaluator which computes the
//! expected text from the meaning with the ICU crates directly. Independent of the library's lexer, tree
//! and formatter.
use crate::rng::Rng;
use fixed_decimal::{DoublePrecision, FixedDecimal, SignDisplay};
use i18n_utility::{PlaceholderValue, TaggedString};
use icu_calendar::{types::Time, Date, DateTime, Iso};
use icu_datetime::{
    options::length::{Bag, Date as DateLength, Time as TimeLength},
    DateFormatter, DateTimeFormatter, TimeFormatter,
};
use icu_decimal::{options::FixedDecimalFormatterOptions, options::GroupingStrategy, FixedDecimalFormatter};
use icu_locid::LanguageIdentifier;
use icu_plurals::{PluralCategory, PluralRules};
use icu_provider::DataLocale;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum Param {
    Ident(String),
    Text(String),
}

#[derive(Clone, Debug)]
pub enum Node {
    Text(String),
    /// `{`text`}`
    Lit(String),
    Str(String),
    Dec { id: String, sign: Option<&'static str>, group: Option<&'static str> },
    Dt { id: String, date: Option<&'static str>, time: Option<&'static str> },
    Plural { id: String, ordinal: bool, sel: Vec<(String, usize)> },
    Select { id: String, sel: Vec<(String, usize)> },
    Num,
    Cmd { name: &'static str, delayed: bool, params: Vec<Param> },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum VarKind {
    Str,
    Dec,
    Dt,
    Plural,
    Ordinal,
    Select,
    /// Only used as a parameter of a delayed command.
    Param,
    /// As Param, but the command insists on text.
    TextParam,
}

#[derive(Clone, Debug)]
pub struct Pattern {
    pub main: Vec<Node>,
    pub named: Vec<(String, Vec<Node>)>,
    pub vars: Vec<(String, VarKind, Vec<String>)>,
    /// How white space is written where there may be more than a blank, or some that means nothing (0: single blanks).
    pub spaces: u64,
    /// The rendered string, as stored in the repository.
    pub source: String,
    /// Malformed or unusual on purpose: no expectation other than "the same as a fresh localiser".
    pub wild: bool,
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub commands: bool,
    pub literal_blocks: bool,
    pub complex: bool,
}

pub const SIGNS: &[&str] = &["auto", "never", "always", "except_zero", "negative"];
pub const GROUPS: &[&str] = &["auto", "never", "always", "min2"];
pub const DATES: &[&str] = &["full", "long", "medium", "short"];
pub const TIMES: &[&str] = &["medium", "short"];
const WORDS: &[&str] = &[
    "cat", "Zug", "été", "日本", "слово", "naïve", "x", "data", "über-alles", "…", "—", "50%", "a/b", "(ok)",
    "مرحبا", "e\u{301}t", "👍🏽", "it's", "\"q\"", "_", "1st", "a_b", "<b>", "&", "=", "~",
];
const SELECTS: &[&str] = &["male", "female", "neuter", "other", "many", "x1", "größe"];
pub const COMMANDS: &[&str] = &["cmd_a", "cmd_b", "cmd_say", "file_path", "english_a_or_an"];

fn words(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for k in 0..n {
        if k > 0 {
            s.push(' ');
        }
        s.push_str(r.pick(WORDS));
    }
    s
}

/// Text as it has to be written inside a string: grammar characters escaped.
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if "{}`#".contains(c) {
            o.push('`');
        }
        o.push(c);
    }
    o
}

fn gen_text(r: &mut Rng) -> String {
    let n = if r.chance(2) { r.range(40, 160) } else { r.range(1, 3) };
    let mut s = words(r, n);
    if r.chance(12) {
        s.push(*r.pick(&['{', '}', '`', '#']));
        s.push_str("z");
    }
    if r.chance(40) {
        s.push(' ');
    }
    s
}

pub fn categories(tag: &str, ordinal: bool) -> Vec<&'static str> {
    let l = locale(tag);
    let rules = if ordinal { PluralRules::try_new_ordinal(&l) } else { PluralRules::try_new_cardinal(&l) };
    let mut v = vec!["other"];
    if let Ok(rules) = rules {
        for c in rules.categories() {
            let n = category(c);
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v
}

struct Gen<'a> {
    r: &'a mut Rng,
    tag: &'a str,
    opts: GenOpts,
    vars: Vec<(String, VarKind, Vec<String>)>,
    named: Vec<(String, Vec<Node>)>,
}

impl Gen<'_> {
    fn var(&mut self, kind: VarKind, choices: Vec<String>) -> String {
        // Now and then one that the string has already (allowed for parameters of commands only).
        if kind == VarKind::Param && !self.vars.is_empty() && self.r.chance(30) {
            let k = self.r.below(self.vars.len());
            return self.vars[k].0.clone();
        }
        let base = *self.r.pick(&["v", "count", "größe", "имя", "p_", "名"]);
        let id = format!("{}{}", base, self.vars.len());
        self.vars.push((id.clone(), kind, choices));
        id
    }

    fn node(&mut self, in_named: bool, prev_num: bool) -> Node {
        let k = self.r.below(100);
        if in_named && !prev_num && self.r.chance(20) {
            return Node::Num;
        }
        match k {
            0..=34 => Node::Text(gen_text(self.r)),
            35..=49 => Node::Str(self.var(VarKind::Str, vec![])),
            50..=61 => {
                let sign = if self.r.chance(40) { Some(*self.r.pick(SIGNS)) } else { None };
                let group = if self.r.chance(40) { Some(*self.r.pick(GROUPS)) } else { None };
                Node::Dec { id: self.var(VarKind::Dec, vec![]), sign, group }
            }
            62..=67 => {
                let date = if self.r.chance(50) { Some(*self.r.pick(DATES)) } else { None };
                let time = if self.r.chance(50) { Some(*self.r.pick(TIMES)) } else { None };
                Node::Dt { id: self.var(VarKind::Dt, vec![]), date, time }
            }
            68..=82 if self.opts.complex && !self.named.is_empty() => {
                if self.r.chance(60) {
                    let ordinal = self.r.chance(30);
                    let mut sel = vec![];
                    for c in categories(self.tag, ordinal) {
                        let n = self.r.below(self.named.len());
                        sel.push((c.to_string(), n));
                    }
                    // One that the language has no use for.
                    if self.r.chance(12) {
                        let c = *self.r.pick(&["zero", "one", "two", "few", "many"]);
                        if !sel.iter().any(|x| x.0 == c) {
                            let n = self.r.below(self.named.len());
                            sel.push((c.to_string(), n));
                        }
                    }
                    self.r.shuffle(&mut sel);
                    let kind = if ordinal { VarKind::Ordinal } else { VarKind::Plural };
                    Node::Plural { id: self.var(kind, vec![]), ordinal, sel }
                } else {
                    let n = self.r.range(1, 4);
                    let mut sel: Vec<(String, usize)> = vec![];
                    for _ in 0..n {
                        let s = self.r.pick(SELECTS).to_string();
                        if !sel.iter().any(|x| x.0 == s) {
                            let m = self.r.below(self.named.len());
                            sel.push((s, m));
                        }
                    }
                    let choices = sel.iter().map(|x| x.0.clone()).collect();
                    Node::Select { id: self.var(VarKind::Select, choices), sel }
                }
            }
            83..=87 if in_named && !prev_num => Node::Num,
            88..=94 if self.opts.commands => {
                let name = *self.r.pick(COMMANDS);
                let delayed = self.r.chance(60);
                let mut params = vec![];
                let builtin = !name.starts_with("cmd");
                let n = if builtin {
                    1
                } else if self.r.chance(10) {
                    self.r.range(4, 9)
                } else {
                    self.r.below(4)
                };
                for _ in 0..n {
                    let c = self.r.below(3);
                    params.push(match c {
                        0 if delayed => {
                            let kind = if builtin { VarKind::TextParam } else { VarKind::Param };
                            Param::Ident(self.var(kind, vec![]))
                        }
                        1 if self.opts.literal_blocks => {
                            let t = words(self.r, 2);
                            // Nearly the name of a value.
                            let near = self.vars.last().map(|v| v.0.clone()).filter(|_| self.r.chance(30));
                            Param::Text(match near {
                                Some(v) => match self.r.below(3) {
                                    0 => format!(" {v}"),
                                    1 => format!("{v} "),
                                    _ => format!(" {v} "),
                                },
                                None => t,
                            })
                        }
                        _ => Param::Ident(self.r.pick(&["apple", "word", "слон", "ear", "übung"]).to_string()),
                    });
                }
                Node::Cmd { name, delayed, params }
            }
            95..=99 if self.opts.literal_blocks => {
                let mut t = words(self.r, 2);
                if self.r.chance(40) {
                    t.push_str(*self.r.pick(&["{", "}", "#", "`", "{x}"]));
                    t.push('w');
                }
                Node::Lit(t)
            }
            _ => Node::Text(gen_text(self.r)),
        }
    }

    fn nodes(&mut self, n: usize, in_named: bool) -> Vec<Node> {
        let mut v: Vec<Node> = vec![];
        for _ in 0..n {
            let prev_num = matches!(v.last(), Some(Node::Num));
            let node = self.node(in_named, prev_num);
            v.push(node);
        }
        v
    }
}

/// A pattern for a string stored under `tag`. `marker` makes its text recognisable.
pub fn generate(r: &mut Rng, tag: &str, marker: &str, opts: GenOpts) -> Pattern {
    let mut g = Gen { r, tag, opts, vars: vec![], named: vec![] };
    let shape = g.r.below(100);
    let mut main;
    if shape < 20 {
        // No grammar at all.
        let text = if g.r.chance(25) {
            gen_text(g.r)
        } else {
            let n = g.r.range(1, 3);
            words(g.r, n)
        };
        main = vec![Node::Text(text), Node::Text(format!(" {marker}"))];
    } else {
        if opts.complex && g.r.chance(45) {
            let n = if g.r.chance(8) { g.r.range(4, 8) } else { g.r.range(1, 3) };
            for k in 0..n {
                let len = if g.r.chance(20) { g.r.range(4, 9) } else { g.r.range(1, 3) };
                let mut nodes = g.nodes(len, true);
                // The white space after the name is a separator: the string cannot start with one.
                if let Some(Node::Text(t)) = nodes.first_mut() {
                    let trimmed = t.trim_start().to_string();
                    *t = if trimmed.is_empty() { "w".to_string() } else { trimmed };
                    if g.r.chance(15) {
                        t.insert(0, *g.r.pick(&['{', '}', '`', '#']));
                    }
                }
                let base = *g.r.pick(&["n", "one_dog", "имя_"]);
                g.named.push((format!("{base}{k}"), nodes));
            }
        }
        let len = if g.r.chance(4) { g.r.range(8, 24) } else { g.r.range(1, 5) };
        main = g.nodes(len, false);
        let at = g.r.below(main.len() + 1);
        main.insert(at, Node::Text(format!("{marker} ")));
    }
    let spaces = if g.r.chance(15) { g.r.next() | 1 } else { 0 };
    let mut p = Pattern { main, named: g.named, vars: g.vars, spaces, source: String::new(), wild: false };
    p.source = render(&p);
    p
}

/// An odd string: whatever it means, it has to mean the same every time.
pub fn generate_wild(r: &mut Rng, marker: &str) -> Pattern {
    let fixed = [
        "{s select x#a y#b}{n plural one#a other#a}#{a # things}{b none}",
        "{n plural other#a}{s select x#a y#b}#{a # things}{b none}",
        "{n plural one#a}#{a # thing}",
        "{n plural one#a other#b}#{a only one}{b other}",
        "{n ordinal one#a two#b few#c other#d}#{a #st}{b #nd}{c #rd}{d #th}",
        "{n decimal sign#always group#never}",
        "{n decimal foo#bar}",
        "{missing}",
        "unclosed {n",
        "stray } brace",
        "{#nocmd x}",
        "{#nocmd# x}",
        "{#cmd_b}",
        "{d date_time date#full}",
        "{s}{s}",
        "``",
        "{n plural one#a other#b}#{a x}{a y}",
        "text#",
        "{s select x#q}#{a w}",
        "#{a }",
        "{ n }",
        "{s select x#_ y#a}#{a w}",
        "{s select x#a y#b}#{a {n plural other#_}}{b w}",
        "{_}{s}",
        "{s select x#a}#{_ w}{a v}",
    ];
    let mut s = r.pick(&fixed).to_string();
    if r.chance(60) {
        s = format!("{marker} {s}");
    }
    Pattern {
        main: vec![],
        named: vec![],
        vars: vec![
            ("s".into(), VarKind::Select, vec!["x".into(), "y".into(), "z".into()]),
            ("n".into(), VarKind::Ordinal, vec![]),
            ("d".into(), VarKind::Dt, vec![]),
        ],
        spaces: 0,
        source: s,
        wild: true,
    }
}

/// A random sequence of what patterns are made of.
pub fn generate_soup(r: &mut Rng) -> Pattern {
    let bits = [
        "{", "}", "{", "}", "#", "`", "{s", "{n", " ", " ", "s", "n", "d", "_", "select", "plural", "ordinal", "decimal", "date_time",
        "other", "one", "x", "a", "b", "x#a", "other#b", "one#_", "#{a ", "{a ", "#{", "{#", "cmd_a", "cmd_b", "{`", "`}", "text", "ä", "\u{200b}",
        "{n plural one#a other#b}", "{s select x#a y#b}", "{s}", "{d date_time}", "{#cmd_a s}", "#{a # q}{b w}", "sign#always", "\n", "'", "0",
    ];
    let n = r.range(1, 14);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&bits));
    }
    Pattern {
        main: vec![],
        named: vec![],
        vars: vec![
            ("s".into(), VarKind::Select, vec!["x".into(), "y".into(), "z".into()]),
            ("n".into(), VarKind::Ordinal, vec![]),
            ("d".into(), VarKind::Dt, vec![]),
        ],
        spaces: 0,
        source: s,
        wild: true,
    }
}

/// White space as `Pattern::spaces` wants it.
struct Spaces(Option<Rng>);

impl Spaces {
    /// A separator.
    fn some(&mut self) -> &'static str {
        match &mut self.0 {
            None => " ",
            Some(r) => r.pick(&[" ", " ", "  ", "\n", "\t", " \n    ", "\u{200e} ", "\u{85}"]),
        }
    }
    /// Between named strings: nothing needed.
    fn any(&mut self) -> &'static str {
        match &mut self.0 {
            None => "",
            Some(r) => r.pick(&["", " ", "\n", "\n\t", "\u{2028}"]),
        }
    }
}

fn render_nodes(p: &Pattern, nodes: &[Node], o: &mut String, sp: &mut Spaces) {
    for n in nodes {
        match n {
            Node::Text(t) => o.push_str(&escape(t)),
            Node::Lit(t) => {
                o.push_str("{`");
                o.push_str(&t.replace('`', "``"));
                o.push_str("`}");
            }
            Node::Str(id) => o.push_str(&format!("{{{id}}}")),
            Node::Dec { id, sign, group } => {
                o.push_str(&format!("{{{id}{}decimal", sp.some()));
                if let Some(s) = sign {
                    o.push_str(&format!("{}sign#{s}", sp.some()));
                }
                if let Some(g) = group {
                    o.push_str(&format!("{}group#{g}", sp.some()));
                }
                o.push('}');
            }
            Node::Dt { id, date, time } => {
                o.push_str(&format!("{{{id}{}date_time", sp.some()));
                if let Some(s) = date {
                    o.push_str(&format!("{}date#{s}", sp.some()));
                }
                if let Some(g) = time {
                    o.push_str(&format!("{}time#{g}", sp.some()));
                }
                o.push('}');
            }
            Node::Plural { id, ordinal, sel } => {
                o.push_str(&format!("{{{id}{}{}", sp.some(), if *ordinal { "ordinal" } else { "plural" }));
                for (c, k) in sel {
                    o.push_str(&format!("{}{c}#{}", sp.some(), p.named[*k].0));
                }
                o.push('}');
            }
            Node::Select { id, sel } => {
                o.push_str(&format!("{{{id}{}select", sp.some()));
                for (c, k) in sel {
                    o.push_str(&format!("{}{c}#{}", sp.some(), p.named[*k].0));
                }
                o.push('}');
            }
            Node::Num => o.push('#'),
            Node::Cmd { name, delayed, params } => {
                o.push_str(&format!("{{#{name}"));
                if *delayed {
                    o.push_str(sp.any());
                    o.push('#');
                }
                for q in params {
                    match q {
                        Param::Ident(i) => o.push_str(&format!("{}{i}", sp.some())),
                        Param::Text(t) => o.push_str(&format!("{}`{}`", sp.some(), t.replace('`', "``"))),
                    }
                }
                o.push('}');
            }
        }
    }
}

pub fn render(p: &Pattern) -> String {
    let mut o = String::new();
    let mut sp = Spaces((p.spaces != 0).then(|| Rng::new(p.spaces, 77)));
    render_nodes(p, &p.main, &mut o, &mut sp);
    if !p.named.is_empty() {
        o.push('#');
        for (name, nodes) in &p.named {
            o.push_str(&format!("{}{{{name}{}", sp.any(), sp.some()));
            render_nodes(p, nodes, &mut o, &mut sp);
            o.push('}');
        }
        o.push_str(sp.any());
    }
    o
}

// ------------------------------------------------------------------------------------------------ values

/// A placeholder value in a form that can be generated, printed and turned into the real thing.
#[derive(Clone, Debug)]
pub enum Val {
    Str(String),
    Tagged(String),
    Localised(String),
    Int(i128),
    Uns(u128),
    Float(f64),
    Fixed(String),
    DateTime(i32, u8, u8, u8, u8, u8),
    Date(i32, u8, u8),
    Time(u8, u8, u8),
    /// A nested message: component, identifier and its values.
    Nested(Box<NestedData>),
}

#[derive(Clone, Debug)]
pub struct NestedData {
    pub component: String,
    pub identifier: String,
    pub values: Option<BTreeMap<String, Val>>,
}

fn date_time(y: i32, m: u8, d: u8, h: u8, mi: u8, s: u8) -> DateTime<Iso> {
    DateTime::try_new_iso_datetime(y, m, d, h, mi, s).unwrap()
}

impl Val {
    pub fn real(&self, tag: &crate::Tag) -> PlaceholderValue {
        match self {
            Val::Str(s) => PlaceholderValue::String(s.clone()),
            Val::Tagged(s) => PlaceholderValue::TaggedString(TaggedString::new(s.clone(), tag)),
            Val::Localised(s) => PlaceholderValue::Localised(crate::Rc::new(s.clone()), crate::Rc::clone(tag)),
            Val::Int(i) => PlaceholderValue::Integer(*i),
            Val::Uns(u) => PlaceholderValue::Unsigned(*u),
            Val::Float(f) => PlaceholderValue::Float(*f),
            Val::Fixed(s) => PlaceholderValue::FixedDecimal(s.parse().unwrap()),
            Val::DateTime(y, m, d, h, mi, s) => PlaceholderValue::DateTime(date_time(*y, *m, *d, *h, *mi, *s)),
            Val::Date(y, m, d) => PlaceholderValue::Date(Date::try_new_iso_date(*y, *m, *d).unwrap()),
            Val::Time(h, m, s) => PlaceholderValue::Time(Time::try_new(*h, *m, *s, 0).unwrap()),
            Val::Nested(n) => PlaceholderValue::LocalisationData(n.real(tag)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Val::Str(s) => format!("S:{s}"),
            Val::Tagged(s) => format!("T:{s}"),
            Val::Localised(s) => format!("L:{s}"),
            Val::Int(i) => format!("I:{i}"),
            Val::Uns(u) => format!("U:{u}"),
            Val::Float(f) => format!("F:{f}"),
            Val::Fixed(s) => format!("X:{}", s.parse::<FixedDecimal>().unwrap()),
            Val::DateTime(y, m, d, h, mi, s) => format!("DT:{y}-{m}-{d}T{h}:{mi}:{s}"),
            Val::Date(y, m, d) => format!("D:{y}-{m}-{d}"),
            Val::Time(h, m, s) => format!("C:{h}:{m}:{s}"),
            Val::Nested(n) => format!("N:{}/{}", n.component, n.identifier),
        }
    }
}

impl NestedData {
    pub fn real(&self, tag: &crate::Tag) -> i18n_utility::LocalisationData {
        i18n_utility::LocalisationData {
            component: self.component.clone(),
            identifier: self.identifier.clone(),
            values: self
                .values
                .as_ref()
                .map(|v| v.iter().map(|(k, x)| (k.clone(), x.real(tag))).collect::<HashMap<_, _>>()),
        }
    }
}

/// What a simulated command prints for the values it was given.
pub fn show_value(v: &PlaceholderValue) -> String {
    match v {
        PlaceholderValue::String(s) => format!("S:{s}"),
        PlaceholderValue::TaggedString(s) => format!("T:{}", s.as_str()),
        PlaceholderValue::Localised(s, _) => format!("L:{s}"),
        PlaceholderValue::Integer(i) => format!("I:{i}"),
        PlaceholderValue::Unsigned(u) => format!("U:{u}"),
        PlaceholderValue::Float(f) => format!("F:{f}"),
        PlaceholderValue::FixedDecimal(s) => format!("X:{s}"),
        PlaceholderValue::DateTime(d) => format!(
            "DT:{}-{}-{}T{}:{}:{}",
            d.date.year().number,
            d.date.month().ordinal,
            d.date.day_of_month().0,
            d.time.hour.number(),
            d.time.minute.number(),
            d.time.second.number()
        ),
        PlaceholderValue::Date(d) => {
            format!("D:{}-{}-{}", d.year().number, d.month().ordinal, d.day_of_month().0)
        }
        PlaceholderValue::Time(t) => {
            format!("C:{}:{}:{}", t.hour.number(), t.minute.number(), t.second.number())
        }
        PlaceholderValue::LocalisationData(n) => format!("N:{}/{}", n.component, n.identifier),
    }
}

pub fn gen_number(r: &mut Rng) -> Val {
    match r.below(8) {
        7 => match r.below(12) {
            0 => Val::Uns(u64::MAX as u128),
            1 => Val::Uns(u128::MAX),
            2 => Val::Int(i128::MIN),
            3 => Val::Int(i64::MIN as i128),
            4 => Val::Float(-0.0),
            5 => Val::Float(1e18),
            6 => Val::Float(0.1),
            7 => Val::Float(f64::NAN),
            8 => Val::Fixed("-0.00".into()),
            9 => Val::Fixed("1.0".into()),
            10 => Val::Fixed("0.000001".into()),
            _ => Val::Fixed("-12345678901234567890.5".into()),
        },
        0 => Val::Uns(r.below(6) as u128),
        1 => Val::Uns(r.below(2_000_000) as u128),
        2 => Val::Int(r.below(20) as i128 - 10),
        3 => Val::Int(r.below(4_000_000) as i128 - 2_000_000),
        4 => Val::Float((r.below(20_000) as f64 - 10_000.0) / 8.0),
        5 => Val::Fixed(format!("{}.{:02}", r.below(3000), r.below(100))),
        _ => Val::Uns([0u128, 1, 2, 3, 11, 21, 100, 1_000_000][r.below(8)]),
    }
}

pub fn gen_string(r: &mut Rng, unique: &str) -> Val {
    let s = match r.below(40) {
        8 => String::new(),
        9 => format!("{unique} {}", "long ".repeat(400)),
        10 => format!(" {unique}\n\t{{n plural one#a}}#{{a #}}"),
        0 => unique.to_string(),
        1 => format!("{{{unique}}}"),
        2 => format!("`{unique}#"),
        _ => format!("{} {unique}", r.pick(WORDS)),
    };
    match r.below(5) {
        0 => Val::Tagged(s),
        1 => Val::Localised(s),
        _ => Val::Str(s),
    }
}

pub fn gen_date(r: &mut Rng) -> Val {
    let (y, m, d) = (1900 + r.below(200) as i32, r.range(1, 12) as u8, r.range(1, 28) as u8);
    let (h, mi, s) = (r.below(24) as u8, r.below(60) as u8, r.below(60) as u8);
    let date = |r: &mut Rng| match r.below(12) {
        0 => format!("{y:04}"),
        1 => format!("{y:04}-{m:02}"),
        2 => format!("{y:04}{m:02}{d:02}"),
        3 => format!("-{:04}-{m:02}-{d:02}", y - 1890),
        4 => format!("+{}-{m:02}-{d:02}", y * 7),
        5 => format!("-{:04}", y - 1500),
        6 => format!("+{y:04}-{m:02}-{d:02}"),
        _ => format!("{y:04}-{m:02}-{d:02}"),
    };
    let time = |r: &mut Rng| {
        let t = match r.below(12) {
            0 => format!("{h:02}"),
            1 => format!("{h:02}:{mi:02}"),
            2 => format!("{h:02}{mi:02}"),
            3 => format!("{h:02}{mi:02}{s:02}"),
            4 => format!("{h:02}{mi:02}{s:02}.{:03}", r.below(1000)),
            5 | 6 => format!("{h:02}:{mi:02}:{s:02}"),
            7 => return String::new(),
            _ => format!("{h:02}:{mi:02}:{s:02}.{:03}", if r.chance(50) { 0 } else { r.below(1000) }),
        };
        t + match r.below(12) {
            0 => "Z",
            1 => "+02:00",
            2 => "-0530",
            3 => "+01",
            _ => "",
        }
    };
    match r.below(7) {
        0 => Val::DateTime(y, m, d, h, mi, s),
        1 => Val::Date(y, m, d),
        2 => Val::Time(h, mi, s),
        3 | 4 => Val::Str(date(r)),
        5 => Val::Str(format!("T{}", time(r))),
        _ => Val::Str(format!("{}T{}", date(r), time(r))),
    }
}

/// A value for a variable; `wrong`: of a type that does not fit, or none at all.
pub fn gen_value(r: &mut Rng, kind: VarKind, choices: &[String], unique: &str, wrong: bool) -> Option<Val> {
    if wrong {
        if r.chance(40) {
            return None;
        }
        return Some(match kind {
            VarKind::Str | VarKind::Select => Val::Uns(7),
            VarKind::Dec | VarKind::Plural => Val::Str(unique.to_string()),
            VarKind::Dt => Val::Uns(3),
            VarKind::Ordinal => Val::Float(1.5),
            VarKind::Param | VarKind::TextParam => Val::Str(unique.to_string()),
        });
    }
    Some(match kind {
        VarKind::Str => gen_string(r, unique),
        VarKind::Dec | VarKind::Plural => gen_number(r),
        VarKind::Ordinal => Val::Uns([0u128, 1, 2, 3, 4, 11, 12, 21, 22, 101][r.below(10)]),
        VarKind::Dt => gen_date(r),
        VarKind::Select => {
            let s = r.pick(choices).clone();
            match r.below(4) {
                0 => Val::Tagged(s),
                1 => Val::Localised(s),
                _ => Val::Str(s),
            }
        }
        VarKind::Param => match r.below(3) {
            0 => gen_number(r),
            1 => gen_date(r),
            _ => gen_string(r, unique),
        },
        VarKind::TextParam => Val::Str(format!("{}{unique}", r.pick(&["a", "e", "b", "", "Ü", "日"]))),
    })
}

// ------------------------------------------------------------------------------------------------ evaluation

pub fn locale(tag: &str) -> DataLocale {
    DataLocale::from(&LanguageIdentifier::try_from_bytes(tag.as_bytes()).expect("tag of the pool"))
}

fn category(c: PluralCategory) -> &'static str {
    match c {
        PluralCategory::Zero => "zero",
        PluralCategory::One => "one",
        PluralCategory::Two => "two",
        PluralCategory::Few => "few",
        PluralCategory::Many => "many",
        PluralCategory::Other => "other",
    }
}

/// The pattern cannot be formatted with these values.
#[derive(Debug, Clone, PartialEq)]
pub struct Bad(pub String);

fn bad<T>(s: &str) -> Result<T, Bad> {
    Err(Bad(s.to_string()))
}

/// Texts as dates, when they are not clearly dates: whatever the code makes of them.
pub const UNCLEAR: &str = "unclear";

type IsoDate = (i32, u8, u8);
type IsoTime = (u8, u8, u8);

/// A date, a time or both, in the formats that are supported.
fn iso(s: &str) -> Option<(Option<IsoDate>, Option<IsoTime>)> {
    match s.split_once('T') {
        None => Some((Some(iso_date(s)?), None)),
        Some(("", t)) => Some((None, Some(iso_time(t)?))),
        Some((d, t)) => Some((Some(iso_date(d)?), Some(iso_time(t)?))),
    }
}

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn iso_date(s: &str) -> Option<IsoDate> {
    let (sign, rest) = match s.as_bytes().first()? {
        b'+' => (1, &s[1..]),
        b'-' => (-1, &s[1..]),
        _ => (1, s),
    };
    let signed = rest.len() != s.len();
    let (y, m, d) = match rest.split('-').collect::<Vec<_>>()[..] {
        [x] if digits(x) && x.len() == 4 => (x, "01", "01"),
        [x] if digits(x) && x.len() == 8 && !signed => (&x[..4], &x[4..6], &x[6..]),
        [y, m] => (y, m, "01"),
        [y, m, d] => (y, m, d),
        _ => return None,
    };
    if !digits(y) || y.len() < 4 || y.len() > 4 && !signed || y.len() > 6 {
        return None;
    }
    if !digits(m) || !digits(d) || m.len() != 2 || d.len() != 2 {
        return None;
    }
    let (y, m, d): (i32, u8, u8) = (y.parse().ok()?, m.parse().ok()?, d.parse().ok()?);
    ((1..=12).contains(&m) && (1..=28).contains(&d)).then_some((sign * y, m, d))
}

fn iso_time(s: &str) -> Option<IsoTime> {
    // The time zone is ignored.
    let (t, zone) = match s.find(['Z', '+', '-']) {
        Some(k) => (&s[..k], &s[k..]),
        None => (s, ""),
    };
    let zone_ok = match zone {
        "" | "Z" => true,
        z if z.starts_with('Z') => false,
        z => {
            let z = z[1..].replace(':', "");
            digits(&z) && (z.len() == 2 || z.len() == 4)
        }
    };
    let t = match t.split_once('.') {
        Some((t, f)) if digits(f) && f.len() == 3 && t.replace(':', "").len() == 6 => t,
        Some(_) => return None,
        None => t,
    };
    let parts: Vec<&str> = if t.contains(':') {
        t.split(':').collect()
    } else {
        match t.len() {
            0 => vec![],
            2 => vec![t],
            4 => vec![t.get(..2)?, t.get(2..)?],
            6 => vec![t.get(..2)?, t.get(2..4)?, t.get(4..)?],
            _ => return None,
        }
    };
    if parts.len() > 3 || !zone_ok || t.is_empty() && !zone.is_empty() || parts.iter().any(|x| !digits(x) || x.len() != 2) {
        return None;
    }
    let n: Vec<u8> = parts.iter().filter_map(|x| x.parse().ok()).collect();
    let at = |k: usize| n.get(k).copied().unwrap_or(0);
    (at(0) < 24 && at(1) < 60 && at(2) < 60).then_some((at(0), at(1), at(2)))
}

fn number(v: &Val) -> Result<FixedDecimal, Bad> {
    Ok(match v {
        Val::Int(i) => FixedDecimal::from(*i),
        Val::Uns(u) => FixedDecimal::from(*u),
        Val::Float(f) => FixedDecimal::try_from_f64(*f, DoublePrecision::Floating).map_err(|e| Bad(e.to_string()))?,
        Val::Fixed(s) => s.parse().map_err(|_| Bad("fixed".into()))?,
        _ => return bad("not a number"),
    })
}

fn text(v: &Val) -> Result<&str, Bad> {
    match v {
        Val::Str(s) | Val::Tagged(s) | Val::Localised(s) => Ok(s),
        _ => bad("not a text"),
    }
}

pub fn command_result(name: &str, params: &[Val]) -> Result<String, Bad> {
    match name {
        "cmd_a" | "cmd_b" | "cmd_say" => {
            let list: Vec<String> = params.iter().map(|v| v.show()).collect();
            if name == "cmd_b" && params.is_empty() {
                return bad("cmd_b needs a parameter");
            }
            Ok(format!("⟦{name}|{}⟧", list.join("|")))
        }
        "file_path" => match params.first() {
            Some(Val::Str(s)) => Ok(s.clone()),
            _ => bad("file_path"),
        },
        "english_a_or_an" => match params.first() {
            Some(Val::Str(s)) => Ok(match s.chars().next() {
                Some('a' | 'e' | 'i' | 'o' | 'u') => "an",
                _ => "a",
            }
            .to_string()),
            _ => bad("english"),
        },
        _ => bad("no such command"),
    }
}

fn eval_nodes(
    p: &Pattern,
    nodes: &[Node],
    tag: &str,
    values: &BTreeMap<String, Val>,
    num: Option<&str>,
    o: &mut String,
) -> Result<(), Bad> {
    let loc = locale(tag);
    let get = |id: &str| values.get(id).ok_or(Bad(format!("no value for {id}")));
    let e = |x: String| Bad(x);
    for n in nodes {
        match n {
            Node::Text(t) | Node::Lit(t) => o.push_str(t),
            Node::Str(id) => o.push_str(text(get(id)?)?),
            Node::Dec { id, sign, group } => {
                let v = get(id)?;
                let mut d = number(v)?;
                let mut options = FixedDecimalFormatterOptions::default();
                match group {
                    Some("auto") => options.grouping_strategy = GroupingStrategy::Auto,
                    Some("never") => options.grouping_strategy = GroupingStrategy::Never,
                    Some("always") => options.grouping_strategy = GroupingStrategy::Always,
                    Some("min2") => options.grouping_strategy = GroupingStrategy::Min2,
                    _ => {}
                }
                match sign {
                    Some("auto") => d.apply_sign_display(SignDisplay::Auto),
                    Some("never") => d.apply_sign_display(SignDisplay::Never),
                    Some("always") => d.apply_sign_display(SignDisplay::Always),
                    Some("except_zero") => d.apply_sign_display(SignDisplay::ExceptZero),
                    Some("negative") => d.apply_sign_display(SignDisplay::Negative),
                    _ => {}
                }
                let f = FixedDecimalFormatter::try_new(&loc, options).map_err(|x| e(x.to_string()))?;
                o.push_str(&f.format_to_string(&d));
            }
            Node::Dt { id, date, time } => {
                let dl = match date {
                    Some("full") => DateLength::Full,
                    Some("long") => DateLength::Long,
                    Some("short") => DateLength::Short,
                    _ => DateLength::Medium,
                };
                let tl = match time {
                    Some("short") => TimeLength::Short,
                    _ => TimeLength::Medium,
                };
                let only_date = |d: Date<Iso>| -> Result<String, Bad> {
                    let f = DateFormatter::try_new_with_length(&loc, dl).map_err(|x| e(x.to_string()))?;
                    f.format_to_string(&d.to_any()).map_err(|x| e(x.to_string()))
                };
                let both = |d: DateTime<Iso>| -> Result<String, Bad> {
                    let f = DateTimeFormatter::try_new(&loc, Bag::from_date_time_style(dl, tl).into())
                        .map_err(|x| e(x.to_string()))?;
                    f.format_to_string(&d.to_any()).map_err(|x| e(x.to_string()))
                };
                let only_time = |h: u8, m: u8, s: u8| -> Result<String, Bad> {
                    let f = TimeFormatter::try_new_with_length(&loc, tl).map_err(|x| e(x.to_string()))?;
                    Ok(f.format_to_string(&Time::try_new(h, m, s, 0).unwrap()))
                };
                let s = match get(id)? {
                    Val::DateTime(y, m, d, h, mi, s) => both(date_time(*y, *m, *d, *h, *mi, *s))?,
                    Val::Date(y, m, d) => only_date(Date::try_new_iso_date(*y, *m, *d).unwrap())?,
                    Val::Time(h, m, s) => only_time(*h, *m, *s)?,
                    Val::Str(s) => {
                        let Some(n) = iso(s) else {
                            return bad(UNCLEAR);
                        };
                        match n {
                            (Some((y, m, d)), Some((h, mi, s))) => both(date_time(y, m, d, h, mi, s))?,
                            (Some((y, m, d)), None) => only_date(Date::try_new_iso_date(y, m, d).unwrap())?,
                            (None, Some((h, m, s))) => only_time(h, m, s)?,
                            (None, None) => return bad(UNCLEAR),
                        }
                    }
                    _ => return bad("date"),
                };
                o.push_str(&s);
            }
            Node::Plural { id, ordinal, sel } => {
                let v = get(id)?;
                let d = if *ordinal {
                    match v {
                        Val::Uns(u) => FixedDecimal::from(*u),
                        _ => return bad("ordinal"),
                    }
                } else {
                    number(v)?
                };
                let rules =
                    if *ordinal { PluralRules::try_new_ordinal(&loc) } else { PluralRules::try_new_cardinal(&loc) }
                        .map_err(|x| e(x.to_string()))?;
                let c = category(rules.category_for(&d));
                let f = FixedDecimalFormatter::try_new(&loc, Default::default()).map_err(|x| e(x.to_string()))?;
                let shown = f.format_to_string(&d);
                let Some((_, k)) = sel.iter().find(|x| x.0 == c) else {
                    return bad("no such category");
                };
                eval_nodes(p, &p.named[*k].1, tag, values, Some(&shown), o)?;
            }
            Node::Select { id, sel } => {
                let v = text(get(id)?)?;
                let Some((_, k)) = sel.iter().find(|x| x.0 == v) else {
                    return bad("no such selector");
                };
                eval_nodes(p, &p.named[*k].1, tag, values, None, o)?;
            }
            Node::Num => match num {
                Some(s) => o.push_str(s),
                None => return bad("number sign outside of a plural"),
            },
            Node::Cmd { name, delayed, params } => {
                let mut list = vec![];
                for q in params {
                    list.push(match q {
                        Param::Ident(i) => match values.get(i) {
                            Some(v) if *delayed => v.clone(),
                            _ => Val::Str(i.clone()),
                        },
                        Param::Text(t) => Val::Str(t.clone()),
                    });
                }
                o.push_str(&command_result(name, &list)?);
            }
        }
    }
    Ok(())
}

/// Number signs in strings that some select can reach have no defined text.
pub fn ambiguous(p: &Pattern) -> bool {
    fn has_num(nodes: &[Node]) -> bool {
        nodes.iter().any(|n| matches!(n, Node::Num))
    }
    let all: Vec<&Vec<Node>> = std::iter::once(&p.main).chain(p.named.iter().map(|n| &n.1)).collect();
    all.iter().any(|nodes| {
        nodes.iter().any(|n| match n {
            Node::Select { sel, .. } => sel.iter().any(|s| has_num(&p.named[s.1].1)),
            _ => false,
        })
    })
}

/// Does an immediate command of the pattern fail? (Then the pattern cannot be used at all.)
pub fn immediate_failure(p: &Pattern) -> bool {
    let all: Vec<&Vec<Node>> = std::iter::once(&p.main).chain(p.named.iter().map(|n| &n.1)).collect();
    all.iter().any(|nodes| {
        nodes.iter().any(|n| match n {
            Node::Cmd { name, delayed: false, params } => {
                let list: Vec<Val> = params
                    .iter()
                    .map(|q| match q {
                        Param::Ident(i) | Param::Text(i) => Val::Str(i.clone()),
                    })
                    .collect();
                command_result(name, &list).is_err()
            }
            _ => false,
        })
    })
}

pub fn has_command(p: &Pattern) -> bool {
    p.source.contains("{#")
}

/// Expected text of the pattern, stored under `tag`, with these values.
pub fn evaluate(p: &Pattern, tag: &str, values: &BTreeMap<String, Val>) -> Result<String, Bad> {
    if immediate_failure(p) {
        return bad("immediate command fails");
    }
    let mut o = String::new();
    eval_nodes(p, &p.main, tag, values, None, &mut o)?;
    Ok(o)
}
