#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let s = long("a"); let p = Peek::new(&s); let h = Wip::alloc::<String>().put_shape(p.data(), p.shape()).unwrap().build().unwrap(); drop(h); println!("{s}"); }
