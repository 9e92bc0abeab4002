//! halo-verif run <ID>            decide one property (VERIF_SEED, VERIF_TIER)
//! halo-verif replay <ID> <FILE>  re-run one stored case
mod big;
mod chain;
mod dict;
mod factory;
#[cfg(feature = "asset")]
mod libasset;
#[cfg(feature = "num")]
mod libnum;
#[cfg(feature = "wire")]
mod libwire;
mod plan;
mod run;
mod spec;
mod token;
mod world;

use run::{Acc, Ctx};
use serde_json::json;
use std::io::Write;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: halo-verif run <ID> | replay <ID> <FILE>");
        std::process::exit(2)
    };
    if args.len() < 3 {
        usage();
    }
    let prop = args[2].clone();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: u64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let replay = match args[1].as_str() {
        "run" => None,
        "replay" => {
            if args.len() < 4 {
                usage();
            }
            let t = std::fs::read_to_string(&args[3]).unwrap_or_else(|e| {
                eprintln!("{}: {}", args[3], e);
                std::process::exit(2)
            });
            Some(serde_json::from_str(&t).unwrap_or_else(|e| {
                eprintln!("{}: {}", args[3], e);
                std::process::exit(2)
            }))
        }
        _ => usage(),
    };
    if std::env::var("VERIF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let started = std::time::Instant::now();
    let ctx = Ctx { prop: prop.clone(), seed, thorough, replay, scale };
    let mut acc = Acc::default();
    let rule = match plan::run(&ctx, &mut acc) {
        Some(r) => r,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    };
    let mut code = 0;
    if ctx.replay.is_some() && !acc.replayed {
        println!("ERROR: no engine of {} knows this replay file", prop);
        code = 2;
    }
    for e in &acc.harness_errors {
        println!("ERROR: harness: {}", e);
        code = 2;
    }
    let refused = acc.labels.get("setup_refused").copied().unwrap_or(0);
    if code == 0 && ctx.replay.is_none() && acc.violations.is_empty() {
        if refused * 2 > acc.evaluations {
            println!("ERROR: {} of {} set-ups were refused by the contracts, nothing could be explored", refused, acc.evaluations);
            code = 2;
        } else if acc.distinct.is_empty() {
            println!("ERROR: no non-trivial case was generated");
            code = 2;
        }
    }
    if !acc.violations.is_empty() {
        // a violation found is a violation, whatever else went wrong
        code = 1;
        let dir = root.join("replays");
        std::fs::create_dir_all(&dir).ok();
        // the smallest reproduction first
        acc.violations.sort_by_key(|v| v.case.len());
        let v = &acc.violations[0];
        let path = if ctx.replay.is_some() {
            PathBuf::from(&args[3])
        } else {
            let p = dir.join(format!("{}-{}-{}.json", prop, v.engine, seed));
            let t = serde_json::to_string_pretty(&json!({"property": prop, "engine": v.engine, "message": v.message, "case": v.case})).unwrap();
            std::fs::write(&p, t).ok();
            p
        };
        println!("{}", v.message);
        println!("VIOLATION property={} replay={}", prop, path.display());
    }
    let wall = started.elapsed().as_secs_f64();
    if ctx.replay.is_none() {
        let ev = json!({
            "property": prop,
            "tier": if thorough { "thorough" } else { "quick" },
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": acc.evaluations,
                "distinct_nontrivial": acc.distinct.len(),
                "rule": rule,
                "samples": acc.samples,
                "labels": acc.labels,
                "engines": acc.engines,
            },
            "assumptions": [
                "cw-multi-test stands for the chain: bank, contract calls, sub-messages, replies, atomic failure",
                "a panic of contract code is a refused call",
                "other token contracts behave like the token contract of this repository",
            ],
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": acc.violations.len(),
        });
        let dir = root.join("evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).ok();
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, seed {}, {}",
        prop,
        acc.evaluations,
        acc.distinct.len(),
        wall,
        seed,
        match code {
            0 => "held",
            1 => "VIOLATED",
            _ => "no answer",
        }
    );
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
