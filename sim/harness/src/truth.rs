//! What a repository holds, and what has to come out of it: the reference model.
use crate::pattern::Pattern;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Comp {
    pub default: String,
    /// (identifier, tag) -> pattern
    pub strings: BTreeMap<(String, String), Pattern>,
}

/// One repository as a set of components.
#[derive(Clone, Debug, Default)]
pub struct Plain {
    pub comps: BTreeMap<String, Comp>,
}

/// Tag, then its truncations.
pub fn chain(tag: &str) -> Vec<String> {
    let mut v = vec![tag.to_string()];
    let mut t = tag.to_string();
    while let Some(p) = t.rfind('-') {
        t.truncate(p);
        v.push(t.clone());
    }
    v
}

pub fn is_variant(of: &str, tag: &str) -> bool {
    tag.len() > of.len() && tag.starts_with(of) && tag.as_bytes()[of.len()] == b'-'
}

/// Acceptable answers: none stored, or one of these.
pub enum Find<'a> {
    NoComponent,
    Answers(Vec<(String, &'a Pattern)>),
}

pub trait Truth {
    fn find(&self, comp: &str, ident: &str, tag: &str) -> Find<'_>;
    fn default_tag(&self, comp: &str) -> Option<String>;
}

pub fn find_in<'a>(strings: &'a BTreeMap<(String, String), Pattern>, ident: &str, tag: &str) -> Vec<(String, &'a Pattern)> {
    for t in chain(tag) {
        if let Some(p) = strings.get(&(ident.to_string(), t.clone())) {
            return vec![(t, p)];
        }
        let v: Vec<(String, &Pattern)> = strings
            .iter()
            .filter(|((i, g), _)| i == ident && is_variant(&t, g))
            .map(|((_, g), p)| (g.clone(), p))
            .collect();
        if !v.is_empty() {
            return v;
        }
    }
    vec![]
}

impl Truth for Plain {
    fn find(&self, comp: &str, ident: &str, tag: &str) -> Find<'_> {
        match self.comps.get(comp) {
            None => Find::NoComponent,
            Some(c) => {
                // The simulated provider always answers with the first.
                let mut v = find_in(&c.strings, ident, tag);
                v.truncate(1);
                Find::Answers(v)
            }
        }
    }
    fn default_tag(&self, comp: &str) -> Option<String> {
        self.comps.get(comp).map(|c| c.default.clone())
    }
}
