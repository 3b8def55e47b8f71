#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct T { #[facet(named)] s: &'static str }
fn main() { let t; { let a = long("a"); match std::panic::catch_unwind(|| facet_args::from_slice::<T>(&["--s", &a])) { Ok(x) => t = x, Err(_) => { println!("refused"); return } } drop(a); } println!("{}", t.s); }
