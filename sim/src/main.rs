mod chain;
mod dexfam;
mod driver;
mod gen;
mod layout;
mod oracle;
mod pool;
mod proxy;
mod rng;
mod spec;
mod world;

use driver::*;

/// The key of a simulated user.
pub fn user_key(seed: u64, name: &str) -> solana_program::pubkey::Pubkey {
    world::skey(seed, name)
}

fn family(prop: &str) -> &'static str {
    match prop {
        "C22" | "C23" => "pool",
        "C24" => "proxy",
        _ => "dex",
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let num = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
            let thorough = tier == "thorough";
            let o = Opts {
                runs: num("SIM_RUNS", if thorough { 1e9 } else if prop == "C22" || prop == "C23" { 120_000.0 } else { 40_000.0 }) as u64,
                secs: num("SIM_SECS", if thorough { 600.0 } else { 40.0 }),
                threads: num("SIM_THREADS", std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8) as f64)
                    as usize,
                level: "exploration".into(),
                prop: prop.clone(),
                tier,
                seed,
                root,
            };
            match family(&prop) {
                "dex" => check::<dexfam::Dex>(&o),
                "pool" => check::<pool::Pool>(&o),
                "proxy" => check::<proxy::Proxy>(&o),
                _ => 2,
            }
        }
        // Which of the given properties' searches notice anything, and how soon (for measuring the machinery itself).
        Some("scan") => {
            let num = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
            let seed = num("VERIF_SEED", 1.0) as u64;
            let mut n = 0;
            for prop in &args[2..] {
                let (runs, secs, th) = (num("SIM_RUNS", 3000.0) as u64, num("SIM_SECS", 20.0), num("SIM_THREADS", 8.0) as usize);
                let r = match family(prop) {
                    "pool" => scan::<pool::Pool>(prop, seed, runs, secs, th),
                    "proxy" => scan::<proxy::Proxy>(prop, seed, runs, secs, th),
                    _ => scan::<dexfam::Dex>(prop, seed, runs, secs, th),
                };
                if let Some((i, v)) = r {
                    n += 1;
                    println!("{} {} {} | {}", prop, i, v.class, v.detail);
                }
            }
            (n > 0) as i32
        }
        Some("stuck") => finish_stuck(&root, &args[2]),
        Some(how @ ("replay" | "replayraw")) => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            match v["family"].as_str() {
                Some("dex") => replay_file::<dexfam::Dex>(&root, &args[2], how == "replayraw", &v),
                Some("pool") => replay_file::<pool::Pool>(&root, &args[2], how == "replayraw", &v),
                Some("proxy") => replay_file::<proxy::Proxy>(&root, &args[2], how == "replayraw", &v),
                _ => 2,
            }
        }
        _ => {
            eprintln!("usage: sim check <property> | sim replay <file>");
            2
        }
    };
    std::process::exit(code);
}
