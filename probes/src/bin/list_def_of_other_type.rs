#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let Def::List(d) = <Vec<String>>::SHAPE.def else { panic!() }; let x = 7u8; let l = PeekList::new(Peek::new(&x), d); println!("{} {:?}", l.len(), l.get(0).map(|p| p.to_string())); }
