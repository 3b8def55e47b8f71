#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let m: HashMap<String, u8> = [(long("k"), 1)].into(); let b = Box::new(7u8); println!("{:?}", Peek::new(&m).into_map().unwrap().get(&*b).is_some()); }
