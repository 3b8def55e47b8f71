#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let p; { let h = Wip::alloc::<String>().put(long("a")).unwrap().build().unwrap(); p = h.peek(); } println!("{}", p.get::<String>().unwrap()); }
