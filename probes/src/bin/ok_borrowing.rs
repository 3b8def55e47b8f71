#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct B<'a> { s: &'a str, v: Vec<String> }
fn main() { let s = long("a"); let h = Wip::alloc::<B<'_>>().put(B { s: &s, v: vec![long("v")] }).unwrap().build().unwrap(); { let p = h.peek(); println!("{}", p.into_struct().unwrap().field(0).unwrap()); } let b: B<'_> = h.materialize().unwrap(); println!("{}{}", b.s, b.v[0]); }
