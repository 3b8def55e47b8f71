#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct B<'a> { s: &'a str }
fn main() { let r: B<'static>; { let s = long("a"); let h = Wip::alloc::<B<'_>>().put(B { s: &s }).unwrap().build().unwrap(); r = h.materialize::<B<'static>>().unwrap(); } println!("{}", r.s); }
