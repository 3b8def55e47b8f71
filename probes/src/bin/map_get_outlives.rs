#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let f; { let s: HashMap<String, String> = [("k".to_string(), long("a"))].into(); f = Peek::new(&s).into_map().unwrap().get(&"k".to_string()).unwrap(); } println!("{}", f.get::<String>().unwrap()); }
