#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let h = Wip::alloc::<String>().put(long("a")).unwrap().build().unwrap(); let p = h.peek(); let s: String = h.materialize().unwrap(); drop(s); println!("{}", p.get::<String>().unwrap()); }
