#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
fn mk() -> [u64; 40] { [7; 40] }
#[derive(Facet)] struct S { #[facet(default = "mk")] a: u8, b: u8 }
fn main() { let t = facet_json::from_str::<S>(r#"{"b":1}"#).is_ok(); println!("{t}"); }
