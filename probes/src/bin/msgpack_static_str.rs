#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
#[derive(Facet)] struct T { s: &'static str }
fn main() { let t; { let mut doc = vec![0x81, 0xa1, b's', 0xd9, 200]; doc.extend([b'x'; 200]); t = match facet_msgpack::from_slice::<T>(&doc) { Ok(t) => t, Err(_) => { println!("refused"); return } }; drop(doc); } println!("{}", t.s); }
