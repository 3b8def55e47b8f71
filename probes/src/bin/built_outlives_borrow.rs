#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let h; { let s = long("a"); h = Wip::alloc::<&str>().put(s.as_str()).unwrap().build().unwrap(); } println!("{h}"); }
