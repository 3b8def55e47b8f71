#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let m: HashMap<String, String> = [(long("k"), long("a"))].into(); let p = Peek::new(&m).into_map().unwrap(); for (k, v) in p.iter() { println!("{k} {v}") } println!("{}", p.get(&long("k")).unwrap()); }
