#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let b = Box::new(7u8); let p = Peek::new(&*b); println!("{:?}", p.get::<[u64; 40]>().is_ok()); }
