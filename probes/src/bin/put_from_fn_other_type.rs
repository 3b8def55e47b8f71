#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let f = String::SHAPE.vtable.default_in_place.unwrap(); let h = Wip::alloc::<u8>().put_from_fn(f).unwrap().build().unwrap(); println!("{h}"); }
