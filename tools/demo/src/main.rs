mod chain;
#[allow(dead_code)]
mod kit;
#[allow(dead_code)]
mod layout;
#[allow(dead_code)]
mod rng;
#[allow(dead_code)]
mod spec;
#[allow(dead_code)]
mod world;
mod scenario;

fn main() {
    if let Err(e) = std::panic::catch_unwind(scenario::run) {
        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        println!("broken: {}", s.unwrap_or_default());
        std::process::exit(1);
    }
    println!("holds");
}
