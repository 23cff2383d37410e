//! Deterministic simulation of treena with fault injection. See DESIGN.md.

#![feature(alloc_error_hook, macro_metavar_expr)]
#![cfg_attr(feature = "metered", feature(thread_local))]
#![allow(dead_code)]

mod alloc;
mod drive;
mod exec;
mod gen;
mod ids;
mod meter;
mod model;
mod ops;
mod other;
mod pay;
mod progress;
mod props;
mod reads;
mod replay;
mod rng;
mod share;
mod step;
mod work;
mod world;

use std::collections::BTreeMap;

/// `--key value` pairs.
pub struct Args {
    pub words: Vec<String>,
    pub opts: BTreeMap<String, String>,
}

impl Args {
    pub fn str(&self, k: &str) -> &str {
        match self.opts.get(k) {
            Some(v) => v,
            None => {
                eprintln!("sim: --{k} is missing");
                std::process::exit(2);
            }
        }
    }

    pub fn num(&self, k: &str) -> u64 {
        match self.str(k).parse() {
            Ok(v) => v,
            Err(_) => {
                eprintln!("sim: --{k} is no number");
                std::process::exit(2);
            }
        }
    }
}

/// Which of the builds this is.
pub fn config() -> u32 {
    if meter::DEEP {
        3
    } else if meter::ON {
        2
    } else {
        u32::from(!cfg!(debug_assertions))
    }
}

pub const CONFIGS: [&str; 4] = [
    "checked (debug assertions and overflow checks on, feature std)",
    "release (optimised, no_std)",
    "metered (optimised, no_std, every executed basic block counted)",
    "deep (lightly optimised, without tail calls, no_std, stack measured in every basic block)",
];

fn main() {
    let mut args = Args {
        words: Vec::new(),
        opts: BTreeMap::new(),
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                args.opts.insert(k.to_string(), it.next().unwrap_or_default());
            }
            None => args.words.push(a),
        }
    }
    let code = match args.words.first().map(String::as_str) {
        // The watching processes.
        Some("check") => drive::check(&args),
        Some("replay") => replay::replay(&args),
        // The simulating processes.
        Some(cmd @ ("work" | "inner" | "small" | "gen")) => {
            alloc::install();
            world::install_panic_hook();
            match cmd {
                "work" => work::work(&args),
                "inner" => replay::inner(&args),
                "gen" => work::gen(&args),
                _ => work::small(&args),
            }
        }
        _ => {
            eprintln!("usage: treena-sim check|replay|... (see DESIGN.md)");
            2
        }
    };
    std::process::exit(code);
}
