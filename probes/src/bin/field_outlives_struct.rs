#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct S { a: String }
fn main() { let f; { let s = S { a: long("a") }; f = Peek::new(&s).into_struct().unwrap().field(0).unwrap(); } println!("{}", f.get::<String>().unwrap()); }
