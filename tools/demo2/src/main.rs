#![allow(dead_code, unused_imports)]
mod chain;
mod dexfam;
mod dkit;
mod driver;
mod gen;
mod kit;
mod layout;
mod oracle;
mod pool;
mod proxy;
mod rng;
mod scenario;
mod spec;
mod world;

pub fn user_key(seed: u64, name: &str) -> solana_program::pubkey::Pubkey {
    world::skey(seed, name)
}

fn main() {
    if let Err(e) = std::panic::catch_unwind(scenario::run) {
        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        println!("broken: {}", s.unwrap_or_default());
        std::process::exit(1);
    }
    println!("holds");
}
