//! xsim: deterministic simulation of xtra with fault injection.
//!
//! `xsim check <property> ...`   search seeds in worker processes, minimise, write evidence
//! `xsim worker ...`             one worker process
//! `xsim replay <file>`          reproduce a violation
//! `xsim hashes ...`             event-log hashes of a range of runs (determinism proof)

mod act;
mod alloc;
mod check;
mod churn;
mod exec;
mod helpers;
mod ident;
mod lin;
mod lock;
mod prog;
mod rng;
mod runner;
mod span;
mod supervise;
mod world;

use std::panic;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = if m.starts_with(world::USER_PANIC) { m } else { m + &at };
        if !spin::sim::in_fiber() {
            eprintln!("xsim panicked: {}", m);
        }
        spin::sim::note_panic(m);
    }));
    spin::sim::set_timer_hook(world::timer_hook);
    span::setup();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => supervise::check(&args[1..]),
        Some("worker") => runner::worker(&args[1..]),
        Some("one") => runner::one(&args[1..]),
        Some("minimise") => runner::minimise(&args[1..]),
        Some("replay") => runner::replay(&args[1..]),
        Some("hashes") => runner::hashes(&args[1..]),
        Some("show") => runner::show(&args[1..]),
        _ => {
            eprintln!("usage: xsim check|worker|replay|hashes|show ...");
            2
        }
    };
    std::process::exit(code);
}
