#![allow(dead_code, clippy::all)]
#![recursion_limit = "512"]
use fvl::ctx::Ctx;
#[path = "../props/args.rs"]
mod args;
#[path = "../props/pretty.rs"]
mod pretty;
#[path = "../props/toml.rs"]
mod toml;
#[path = "../props/url.rs"]
mod url;
#[path = "../props/yaml.rs"]
mod yaml;
fn main() {
    fvl::main_with(run)
}
fn run(p: &str, c: &mut Ctx) {
    match p {
        "P13" => toml::p13(c),
        "P14" => yaml::p14(c),
        "P15" => url::p15(c),
        "P16" => args::p16(c),
        "P17" => pretty::p17(c),
        "P18" => pretty::p18(c),
        "noop" => {}
        _ => panic!("unknown property {p}"),
    }
}
