#![allow(dead_code)]
//! Deterministic simulation of decode sessions over scale-decode.

mod alloc;
mod conv;
mod engine;
mod evidence;
mod gen;
mod io;
mod known;
mod refm;
mod runner;
mod sched;
mod sim;
mod src_gen;
mod tape;
mod ty;
mod typed;
mod visit;
#[macro_use]
mod zoo;
mod conc;
mod props;
mod tracked;
mod walk;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let code = run(std::env::args().skip(1).collect());
    std::process::exit(code);
}

fn run(a: Vec<String>) -> i32 {
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    runner::hook();
    match (cmd, a.len()) {
        ("check", 2) => runner::check(&a[1]),
        ("worker", 8) => {
            runner::worker(&a[1..]);
            0
        }
        ("one", 3) => {
            runner::one(&a[1..]);
            0
        }
        ("shrink", 4) => {
            runner::shrink(&a[1..]);
            0
        }
        ("replay", 2) => runner::replay(&a[1]),
        ("show", 4) => {
            runner::show(&a[1..]);
            0
        }
        ("demo", 2) => known::demo(&a[1]),
        _ => {
            eprintln!("usage: sim check ID | replay FILE | show ID SEED RUN");
            2
        }
    }
}
