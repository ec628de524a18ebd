#[path = "../../sim/src/chain.rs"]
mod chain;
mod clientfam;
mod crankfam;
#[path = "../../sim/src/dexfam.rs"]
mod dexfam;
#[path = "../../sim/src/driver.rs"]
mod driver;
#[path = "../../sim/src/gen.rs"]
mod gen;
mod host;
#[path = "../../sim/src/layout.rs"]
mod layout;
mod node;
mod ownerfam;
#[path = "../../sim/src/oracle.rs"]
mod oracle;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/spec.rs"]
mod spec;
#[path = "../../sim/src/world.rs"]
mod world;

use driver::*;
use solana_sdk::signature::{keypair_from_seed, Keypair, Signer};

/// Users of this simulation can sign.
pub fn user_keypair(seed: u64, name: &str) -> Keypair {
    keypair_from_seed(world::skey(seed, name).as_ref()).unwrap()
}

pub fn user_key(seed: u64, name: &str) -> solana_program::pubkey::Pubkey {
    user_keypair(seed, name).pubkey()
}

pub fn plain_order(bid: bool, price: u64, qty: u64, ty: u8, cid: u64) -> spec::Ord_ {
    spec::Ord_ { bid, price, qty, pc: if bid { u64::MAX >> 20 } else { u64::MAX }, stb: 0, ty, cid, limit: 65535, ts: None, tag: 0 }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
    chain::install();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if std::thread::current().name() != Some("simulated") {
            old(i);
        }
    }));
    let num = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let thorough = tier == "thorough";
            let o = Opts {
                runs: num("SIM_RUNS", if thorough { 1e9 } else if prop == "C27" { 400_000.0 } else { 40_000.0 }) as u64,
                secs: num("SIM_SECS", if thorough { 600.0 } else { 40.0 }),
                threads: num("SIM_THREADS", std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8) as f64)
                    as usize,
                level: "exploration".into(),
                prop: prop.clone(),
                tier,
                seed: num("VERIF_SEED", 1.0) as u64,
                root,
            };
            match prop.as_str() {
                "C26" => check::<clientfam::Client>(&o),
                "C27" => check::<ownerfam::Owner>(&o),
                "C25" => check::<crankfam::Crank>(&o),
                _ => 2,
            }
        }
        Some("stuck") => finish_stuck(&root, &args[2]),
        Some(how @ ("replay" | "replayraw")) => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            match v["family"].as_str() {
                Some("client") => replay_file::<clientfam::Client>(&root, &args[2], how == "replayraw", &v),
                Some("owner") => replay_file::<ownerfam::Owner>(&root, &args[2], how == "replayraw", &v),
                Some("crank") => replay_file::<crankfam::Crank>(&root, &args[2], how == "replayraw", &v),
                _ => 2,
            }
        }
        _ => 2,
    };
    crankfam::clean_scratch();
    std::process::exit(code);
}
