//! `simx`: deterministic simulation of the i18n crates. See /verif/DESIGN.md.
#![allow(clippy::all)]
extern crate simstd;

mod edit;
mod err;
mod exec;
mod full;
mod hist;
mod interpose;
mod loc;
mod opening;
mod pattern;
mod reg;
mod repo;
mod rng;
mod share;
mod spec;
mod sql;
mod truth;
mod vfs;

use spec::Spec;

#[cfg(not(feature = "sync"))]
pub type Rc<T> = std::rc::Rc<T>;
#[cfg(feature = "sync")]
pub type Rc<T> = std::sync::Arc<T>;
pub type Tag = Rc<i18n_utility::LanguageTag>;

pub const SYNC: bool = cfg!(feature = "sync");

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|p| args.get(p + 1).cloned())
}

fn main() {
    exec::install();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => exec::worker(
            &arg(&args, "--plan").expect("--plan"),
            arg(&args, "--seed").expect("--seed").parse().expect("seed"),
            arg(&args, "--worker").expect("--worker").parse().expect("worker"),
            arg(&args, "--of").expect("--of").parse().expect("of"),
            &arg(&args, "--status").expect("--status"),
            arg(&args, "--cap").expect("--cap").parse().expect("cap"),
            arg(&args, "--start").map(|s| s.parse().expect("start")).unwrap_or(0),
        ),
        Some("hashes") => exec::hashes(
            &arg(&args, "--plan").expect("--plan"),
            arg(&args, "--seed").expect("--seed").parse().expect("seed"),
            arg(&args, "--worker").expect("--worker").parse().expect("worker"),
            arg(&args, "--of").expect("--of").parse().expect("of"),
        ),
        Some("history") => exec::history(
            &arg(&args, "--plan").expect("--plan"),
            arg(&args, "--seed").expect("--seed").parse().expect("seed"),
            arg(&args, "--worker").expect("--worker").parse().expect("worker"),
            arg(&args, "--of").expect("--of").parse().expect("of"),
            arg(&args, "--from").expect("--from").parse().expect("from"),
            arg(&args, "--to").expect("--to").parse().expect("to"),
        ),
        Some("one") => {
            let spec = Spec::parse(&args[2]).expect("spec");
            let r = exec::run_spec(&spec);
            println!("{}", exec::json_result(&spec, &r, true));
        }
        Some("minimise") => {
            let spec = Spec::parse(&args[2]).expect("spec");
            let (spec, r) = exec::minimise(&spec, &args[3], &args[4], arg(&args, "--budget").map(|b| b.parse().unwrap()).unwrap_or(400));
            println!("{}", exec::json_result(&spec, &r, true));
        }
        _ => {
            eprintln!("usage: simx worker|one|minimise ...");
            std::process::exit(2);
        }
    }
}
