#![allow(dead_code, clippy::all)]
#![recursion_limit = "512"]
use fvl::ctx::Ctx;
#[path = "../props/args.rs"]
mod args;
#[path = "../props/json.rs"]
mod json;
#[path = "../props/msgpack.rs"]
mod msgpack;
#[path = "../props/peeks.rs"]
mod peeks;
#[path = "../props/threads.rs"]
mod threads;
#[path = "../props/toml.rs"]
mod toml;
#[path = "../props/url.rs"]
mod url;
#[path = "../props/wip.rs"]
mod wip;
#[path = "../props/yaml.rs"]
mod yaml;
fn main() {
    fvl::main_with(run)
}
fn run(p: &str, c: &mut Ctx) {
    match p {
        "P19" => threads::p19(c),
        "P19-round" => threads::child(c.seed, c.shard as u64),
        "P19-job" => threads::show(c.seed, c.shard as u64),
        "noop" => {}
        _ => panic!("unknown property {p}"),
    }
}
