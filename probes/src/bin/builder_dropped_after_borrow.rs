#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct D<'a> { s: &'a str }
impl Drop for D<'_> { fn drop(&mut self) { println!("{}", self.s) } }
fn main() { let h; { let s = long("a"); h = Wip::alloc::<D<'_>>().put(D { s: &s }).unwrap(); } drop(h); }
