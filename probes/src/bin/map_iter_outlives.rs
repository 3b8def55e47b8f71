#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let f; { let s: BTreeMap<String, String> = [(long("k"), long("a"))].into(); f = Peek::new(&s).into_map().unwrap().iter(); } for (k, _) in f { println!("{}", k.get::<String>().unwrap()) } }
