//! Deterministic simulation of rusty_network. See /verif/DESIGN.md.
mod alloc;
mod bounded;
mod bridge;
mod check;
mod cov;
mod fills;
mod interpose;
mod json;
mod loading;
mod model;
mod register;
mod rng;
mod runner;
mod session;
mod side;
mod statics;
mod storage;
mod tens;
mod user;
mod world;

#[global_allocator]
static A: alloc::Alloc = alloc::Alloc;

fn main() {
    world::install_panic_hook();
    cov::setup();
    statics::setup();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check::check(&args[2..]),
        Some("worker") => check::worker(&args[2..]),
        Some("minimise") => check::minimise(&args[2..]),
        Some("replay") => check::replay(&args[2..]),
        Some("show") => check::show(&args[2..]),
        Some("digests") => check::digests(&args[2..]),
        _ => {
            eprintln!("usage: rn_sim check PROPERTY | replay FILE | show PROPERTY SEED INDEX | digests PROPERTY N");
            2
        }
    };
    std::process::exit(code);
}
