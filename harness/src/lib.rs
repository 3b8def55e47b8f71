#![feature(panic_can_unwind)]
#![allow(dead_code, clippy::all)]
#![recursion_limit = "512"]
pub mod ctx;
pub mod far;
pub mod jref;
pub mod mon;
pub mod model;
pub mod mref;
pub mod zoo;

use ctx::Ctx;
use serde_json::{Value, json};

pub fn main_with(run: fn(&str, &mut Ctx)) {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let (mut seed, mut shard, mut shards, mut secs) = (1u64, 0usize, 1usize, 5.0f64);
    let mut thorough = false;
    let mut out = None;
    let mut crash = None;
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => { seed = args[i + 1].parse().unwrap(); i += 1 }
            "--shard" => { shard = args[i + 1].parse().unwrap(); i += 1 }
            "--shards" => { shards = args[i + 1].parse().unwrap(); i += 1 }
            "--secs" => { secs = args[i + 1].parse().unwrap(); i += 1 }
            "--thorough" => thorough = true,
            "--out" => { out = Some(args[i + 1].clone()); i += 1 }
            "--only" => { only = Some(args[i + 1].clone()); i += 1 }
            "--crash" => { crash = Some(std::fs::File::create(&args[i + 1]).unwrap()); i += 1 }
            s => prop = s.to_string(),
        }
        i += 1;
    }
    ctx::install_panic_hook();
    ctx::start_watchdog();
    let t = std::thread::Builder::new()
        .name("main-case".into())
        .stack_size(if cfg!(miri) { 2 << 20 } else { 8 << 20 })
        .spawn(move || {
            let mut c = Ctx::new(seed, shard, shards, thorough, secs, crash);
            c.only = only;
            run(&prop, &mut c);
            let j = json!({
                "property": prop, "seed": seed, "shard": shard,
                "evaluations": c.evals, "distinct": c.distinct.len(),
                "samples": c.samples,
                "counters": mon::counters().into_iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<String, Value>>(),
                "allocations": mon::ALLOCS.load(std::sync::atomic::Ordering::Relaxed),
                "inconclusive": c.inconclusive,
                "violations": c.viols.values().map(|v| json!({"sig": v.sig, "detail": v.detail, "input": v.input, "count": v.count})).collect::<Vec<_>>(),
                "wall_s": c.start.elapsed().as_secs_f64(),
            });
            let s = serde_json::to_string_pretty(&j).unwrap();
            match out {
                Some(p) => std::fs::write(p, s).unwrap(),
                None => println!("{s}"),
            }
        })
        .unwrap();
    if t.join().is_err() {
        eprintln!("harness panic: {}", ctx::last_panic());
        std::process::exit(3);
    }
}
