//! Are the objects of the concurrent build shareable between threads? Answered by the type system of the
//! code under test, at run time (so that the harness builds either way).
use crate::spec::{RunResult, Spec};
use std::marker::PhantomData;

struct Probe<T: ?Sized>(PhantomData<T>);

trait NotBoth {
    fn both(&self) -> bool {
        false
    }
}
impl<T: ?Sized> NotBoth for &Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
    fn both(&self) -> bool {
        true
    }
}
macro_rules! both {
    ($t:ty) => {
        (&Probe::<$t>(PhantomData)).both()
    };
}

pub fn run(_spec: &Spec) -> RunResult {
    let mut r = RunResult::default();
    let list: Vec<(&str, bool)> = vec![
        ("LanguageTag", both!(i18n_utility::LanguageTag)),
        ("LanguageTagRegistry", both!(i18n_utility::LanguageTagRegistry)),
        ("PlaceholderValue", both!(i18n_utility::PlaceholderValue)),
        ("IcuDataProvider", both!(i18n_lexer::IcuDataProvider)),
        ("CommandRegistry", both!(i18n_localiser::CommandRegistry)),
        ("LocalisationProviderSqlite3", both!(i18n_provider_sqlite3::LocalisationProviderSqlite3)),
        ("Localiser", both!(i18n_localiser::Localiser)),
    ];
    for (n, b) in list {
        r.trace.push(format!("{n}: Send + Sync = {b}"));
        if crate::SYNC {
            r.check("C02");
            r.ops += 1;
            if !b {
                r.violate(&["C02"], &format!("not-shareable-{n}"), format!("{n} is not Send + Sync in the concurrent build"));
            }
        }
    }
    r
}
