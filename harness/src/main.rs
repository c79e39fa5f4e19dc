#![allow(dead_code)]
mod ast;
mod checks;
mod cmp;
mod enc;
mod eval;
mod r#gen;
mod geom;
mod json;
mod mutate;
mod pt;
mod refren;
mod run;
mod sink;
mod src;
mod tomodel;

use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(String::as_str).unwrap_or("");
    let find = |id: &str| {
        checks::ALL.iter().find(|c| c.id == id).copied().unwrap_or_else(|| {
            eprintln!("unknown property {id:?}");
            std::process::exit(2)
        })
    };
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let choices = |p: &str| -> Vec<u32> {
        let t = std::fs::read_to_string(p).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&t).expect("json");
        let v = if v.is_array() { v } else { v["choices"].clone() };
        serde_json::from_value(v).expect("choices")
    };
    let code = match arg(1) {
        "check" => {
            let tier = if arg(3).is_empty() { "quick" } else { arg(3) };
            run::check(find(arg(2)), tier, seed())
        }
        "worker" => run::worker(find(arg(2)), arg(3), arg(4).parse().unwrap(), Path::new(arg(5)), Path::new(arg(6))),
        "one" => run::one(find(arg(2)), choices(arg(3)), arg(4).parse().unwrap_or(0), false),
        "replay" => run::one(find(arg(2)), choices(arg(3)), 0, true),
        // prints the inputs of some cases, to see what is generated
        "dump" => {
            run::install_hook();
            for k in 0..arg(3).parse().unwrap_or(10) {
                let mut ctx = run::Ctx::default();
                run::run_case(find(arg(2)), &mut src::Src::random(seed() * 1_000_003 + k, None), &mut ctx);
                println!("{}", ctx.desc.replace('\n', " "));
            }
            0
        }
        "list" => {
            for c in checks::ALL {
                println!("{} quick={} thorough={}", c.id, c.quick, c.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
