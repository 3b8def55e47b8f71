#![allow(dead_code, clippy::all)]
#![recursion_limit = "512"]
use fvl::ctx::Ctx;
#[path = "../props/chars.rs"]
mod chars;
#[path = "../props/conts.rs"]
mod conts;
#[path = "../props/types.rs"]
mod types;
fn main() {
    fvl::main_with(run)
}
fn run(p: &str, c: &mut Ctx) {
    match p {
        "P05" => chars::p05(c),
        "P06" => conts::p06(c),
        "P07" => types::p07(c),
        "noop" => {}
        _ => panic!("unknown property {p}"),
    }
}
