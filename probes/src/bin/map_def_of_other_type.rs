#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn main() { let Def::Map(d) = <BTreeMap<String, String>>::SHAPE.def else { panic!() }; let x = 7u8; let l = PeekMap::new(Peek::new(&x), d); println!("{}", l.len()); }
