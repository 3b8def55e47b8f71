#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let r: &'static str; { let s = long("a"); let t = s.as_str(); r = *Peek::new(&t).get::<&'static str>().unwrap(); } println!("{r}"); }
