#![allow(dead_code, clippy::all)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c26;
mod core;
mod h1cli;
mod h1ref;
mod h1srv;
mod h2huff;
mod h2ref;
mod h2w;
mod world;

use crate::core::*;

#[global_allocator]
static A: Counting = Counting;

fn build(id: &str, tier: Tier) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(tier),
        "C02" => c02::check(tier),
        "C03" => c03::check(tier),
        "C04" => c04::check(tier),
        "C05" => c05::check(tier),
        "C06" => c06::check(tier),
        "C07" => c07::check(tier),
        "C08" => c08::check(tier),
        "C09" => c09::check(tier),
        "C10" => c10::check(tier),
        "C11" => c11::check(tier),
        "C12" => c12::check(tier),
        "C13" => c13::check(tier),
        "C14" => c14::check(tier),
        "C15" => c15::check(tier),
        "C16" => c16::check(tier),
        "C17" => c17::check(tier),
        "C18" => c18::check(tier),
        "C19" => c19::check(tier),
        "C20" => c20::check(tier),
        "C21" => c21::check(tier),
        "C22" => c22::check(tier),
        "C23" => c23::check(tier),
        "C24" => c24::check(tier),
        "C26" => c26::check(tier),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            match build(&a[2], tier) {
                Some(c) => run_check(c, tier),
                None => {
                    eprintln!("unknown property {}", a[2]);
                    2
                }
            }
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|x| x.to_string())).unwrap_or_default();
            let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
            match build(&get("property"), tier) {
                Some(c) => replay(c, &a[2]),
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: hmc check <id> [quick|thorough] | hmc replay <file>");
            2
        }
    };
    std::process::exit(code);
}
