#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let x = 7u8; let h = Wip::alloc::<[u64; 40]>().put_shape(Peek::new(&x).data(), <[u64; 40]>::SHAPE).unwrap().build().unwrap(); println!("{:?}", h.materialize::<[u64; 40]>().unwrap()); }
