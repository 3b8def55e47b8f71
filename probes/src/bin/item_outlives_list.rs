#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let f; { let s = vec![long("a")]; f = Peek::new(&s).into_list().unwrap().get(0).unwrap(); } println!("{}", f.get::<String>().unwrap()); }
