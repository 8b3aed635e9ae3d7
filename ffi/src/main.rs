#![allow(dead_code, clippy::all)]
//! Model checker for hyper's C API (property C27): C-shaped client programs over the extern "C" functions,
//! explored by the same engine as the other checks.
#[path = "../../mc/src/core.rs"]
mod core;
mod c27;

use crate::core::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            run_check(c27::check(tier), tier)
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let tier = if s.contains("tier: thorough") { Tier::Thorough } else { Tier::Quick };
            replay(c27::check(tier), &a[2])
        }
        _ => {
            eprintln!("usage: hmc-ffi check C27 [quick|thorough] | hmc-ffi replay <file>");
            2
        }
    };
    std::process::exit(code);
}
