#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let h = Wip::alloc::<u8>().put(7u8).unwrap().build().unwrap(); println!("{}", h.materialize::<[u64; 40]>().is_ok()); }
