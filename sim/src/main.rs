//! Deterministic simulation of `unsized-vec` and `emplacable` with fault injection.
//! See /verif/DESIGN.md.

#![feature(
    unsized_fn_params,
    ptr_metadata,
    alloc_error_hook,
    unsize,
    forget_unsized,
    allocator_api
)]
#![allow(internal_features, clippy::type_complexity)]

#[macro_use]
mod kinds;
mod check;
mod emp;
mod gen;
mod heap;
mod known;
mod nest;
mod ops;
mod reg;
mod rng;
mod script;
mod sink;
mod work;
mod world;

#[global_allocator]
static ALLOC: heap::SimAlloc = heap::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.get(1).copied() {
        Some("check") => check::main(&a[2..]),
        Some("worker") => work::worker(&a[2..]),
        Some("try") => work::attempt(&a[2..], false),
        Some("replay") => work::attempt(&a[2..], true),
        Some("known") => known::main(&a[2..]),
        Some("plan") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            print!("{}", gen::show(&gen::plan(n(2) as u32, n(3), n(4))));
            0
        }
        _ => {
            eprintln!("usage: sim check|worker|try|replay|known|plan ...");
            2
        }
    };
    std::process::exit(code);
}
