#![allow(unexpected_cfgs)]
#![allow(dead_code)]
#[macro_use]
mod ctx;
mod bridge;
mod checks;
mod gen;
mod model;
#[cfg(any(feature = "turns", feature = "values"))]
mod orbits;
mod tables;

use ctx::{Ctx, Tier};
use std::path::PathBuf;

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("usage: harness <ID> [--tier quick|thorough] [--replay FILE]");
    if let Some(code) = checks::child(&id, &args_rest()) {
        std::process::exit(code);
    }
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--quick" => tier = Tier::Quick,
            "--thorough" => tier = Tier::Thorough,
            "--replay" => {
                let f = args.next().expect("a replay file");
                let v: serde_json::Value =
                    serde_json::from_str(&std::fs::read_to_string(f).expect("replay file is readable"))
                        .expect("replay file is JSON");
                replay = Some((v["sub"].as_str().expect("sub").to_string(), v["case"].clone()));
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    ctx::install_panic_hook();
    let ctx = Ctx::new(&id, tier, seed, root, replay);
    let Some(check) = checks::find(&id) else {
        eprintln!("no check for {id}");
        std::process::exit(2);
    };
    // a panic outside of a case is an error of the check
    match ctx::no_panic(|| check(&ctx)) {
        Ok(()) => {}
        Err(p) => {
            eprintln!("check broken: {p}");
            // What was found before still counts
            let code = ctx.finish();
            std::process::exit(if code == 1 { 1 } else { 3 });
        }
    }
    std::process::exit(ctx.finish());
}

fn args_rest() -> Vec<String> {
    std::env::args().skip(2).collect()
}
