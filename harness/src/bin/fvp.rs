#![allow(dead_code, clippy::all)]
#![recursion_limit = "512"]
use fvl::ctx::Ctx;
#[path = "../props/lay.rs"]
mod lay;
#[path = "../props/peeks.rs"]
mod peeks;
#[path = "../props/shapes.rs"]
mod shapes;
fn main() {
    fvl::main_with(run)
}
fn run(p: &str, c: &mut Ctx) {
    match p {
        "P03" => peeks::p03(c),
        "P04" => lay::p04(c),
        "P23" => shapes::p23(c),
        "noop" => {}
        _ => panic!("unknown property {p}"),
    }
}
