//! Property tests for conch-parser. See DESIGN.md.

#![allow(clippy::all)]

mod ast;
mod drive;
mod gen;
mod known;
mod model;
mod props;
mod real;
mod refl;
mod refp;
mod runner;
mod tape;
mod shell;
mod trace;
mod unparse;

/// Whether to explore as much as time allows.
pub fn thorough() -> bool {
    use std::sync::OnceLock;
    static T: OnceLock<bool> = OnceLock::new();
    *T.get_or_init(|| std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"))
}

fn main() {
    tape::install_panic_hook();
    std::process::exit(runner::main());
}
