#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let (s, b) = (long("a"), Box::new(7u8)); println!("{:?} {:?}", Peek::new(&s).eq(&Peek::new(&*b)), Peek::new(&s).partial_cmp(&Peek::new(&*b))); }
