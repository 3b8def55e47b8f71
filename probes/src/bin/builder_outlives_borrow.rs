#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let w; { let s = long("a"); w = Wip::alloc::<&str>().put(s.as_str()).unwrap(); } println!("{}", w.build().unwrap()); }
