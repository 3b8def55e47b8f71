#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct T { s: &'static str }
fn main() { let t; { let doc = "s = \"§\"".replace('§', &"x".repeat(300)); t = facet_toml::from_str::<T>(&doc); let t2 = match t { Ok(t) => t, Err(e) => { println!("refused"); return } }; drop(doc); println!("{}", t2.s); } }
