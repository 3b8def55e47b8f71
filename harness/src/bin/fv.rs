#![allow(dead_code, clippy::all)]
#![recursion_limit = "512"]
use fvl::ctx::Ctx;
#[path = "../props/fail.rs"]
mod fail;
#[path = "../props/json.rs"]
mod json;
#[path = "../props/msgpack.rs"]
mod msgpack;
#[path = "../props/num.rs"]
mod num;
#[path = "../props/toml.rs"]
mod toml;
#[path = "../props/url.rs"]
mod url;
#[path = "../props/yaml.rs"]
mod yaml;
#[path = "../props/wip.rs"]
mod wip;
fn main() {
    fvl::main_with(run)
}
fn run(p: &str, c: &mut Ctx) {
    match p {
        "P01" => wip::p01(c),
        "P02" => wip::p02(c),
        "P08" => json::p08(c),
        "P09" => json::p09(c),
        "P10" => json::p10(c),
        "P11" => msgpack::p11(c),
        "P12" => msgpack::p12(c),
        "P20" => num::p20(c),
        "P21" => json::p21(c),
        "P22" => fail::p22(c),
        "noop" => {}
        _ => panic!("unknown property {p}"),
    }
}
