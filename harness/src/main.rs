//! Bounded replay driver: exercises the real crate on every small case of one property and prints the cases that fail.
//! usage: harness PROPERTY [quick|thorough]
#![allow(clippy::all, dead_code)]
#![cfg_attr(feature = "nightly", feature(allocator_api))]
mod core_;
mod alloc_;
mod cur;
mod el;
mod long;
mod misc;
mod ops;
mod over;
mod st;
use core_::Ctx;

#[global_allocator]
static A: alloc_::Chk = alloc_::Chk;

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let deep = std::env::args().nth(2).map_or(false, |t| t == "thorough");
    if std::env::var("NOISY").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut c = Ctx::new(&prop, deep);
    ops::run(&mut c);
    cur::run(&mut c);
    misc::run(&mut c);
    long::run(&mut c);
    over::run(&mut c);
    for f in c.fails.iter().take(12) {
        println!("FAIL {} {}", prop, f);
    }
    println!("CASES {} FAILS {}", c.cases, c.fails.len());
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 })
}
