// generated by gen/gen_zoo.py from gen/zoo.in -- do not edit
#![allow(non_camel_case_types, dead_code)]
use crate::ctx::Rng; use crate::model::*; use crate::mon::{Tok, ZTok}; use facet::Facet;
use std::collections::{BTreeMap, HashMap}; use std::num::NonZero;
pub fn def_string() -> String { "dflt \"q\" é".to_string() }
pub fn def_tok() -> Tok { Tok::new(5) }
pub fn def_toks() -> Vec<Tok> { vec![Tok::new(6), Tok::new(8)] }
pub fn def_u9() -> u32 { 9 }
pub fn def_flat() -> Flat { Flat { a: 3, b: "field default".to_string() } }
pub fn def_list() -> Vec<u32> { vec![4, 5] }
pub fn inv_mv(m: &MV) -> bool { match m { MV::Struct(v) => v[0] <= v[1], _ => false } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Flat { pub a: u64, pub b: String }
impl Model for Flat { const NAME: &'static str = "Flat"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Flat", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Flat { a: <u64 as Model>::arb(r, d), b: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Nums { pub u8_: u8, pub u16_: u16, pub u32_: u32, pub u64_: u64, pub us: usize }
impl Model for Nums { const NAME: &'static str = "Nums"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "u8_", wire: "u8_", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u16_", wire: "u16_", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u32_", wire: "u32_", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u64_", wire: "u64_", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "us", wire: "us", ty: || <usize as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Nums", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Nums { u8_: <u8 as Model>::arb(r, d), u16_: <u16 as Model>::arb(r, d), u32_: <u32 as Model>::arb(r, d), u64_: <u64 as Model>::arb(r, d), us: <usize as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.u8_.to_mv(), self.u16_.to_mv(), self.u32_.to_mv(), self.u64_.to_mv(), self.us.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct INums { pub i8_: i8, pub i16_: i16, pub i32_: i32, pub i64_: i64, pub is: isize }
impl Model for INums { const NAME: &'static str = "INums"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "i8_", wire: "i8_", ty: || <i8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i16_", wire: "i16_", ty: || <i16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i32_", wire: "i32_", ty: || <i32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i64_", wire: "i64_", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "is", wire: "is", ty: || <isize as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "INums", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); INums { i8_: <i8 as Model>::arb(r, d), i16_: <i16 as Model>::arb(r, d), i32_: <i32 as Model>::arb(r, d), i64_: <i64 as Model>::arb(r, d), is: <isize as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.i8_.to_mv(), self.i16_.to_mv(), self.i32_.to_mv(), self.i64_.to_mv(), self.is.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct NzNums { pub a: NonZero<u8>, pub b: NonZero<u16>, pub c: NonZero<u32>, pub d: NonZero<u64>, pub e: NonZero<usize>, pub f: NonZero<i8>, pub g: NonZero<i16>, pub h: NonZero<i32>, pub i: NonZero<i64>, pub j: NonZero<isize> }
impl Model for NzNums { const NAME: &'static str = "NzNums"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <NonZero<u8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <NonZero<u16> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <NonZero<u32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <NonZero<u64> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <NonZero<usize> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <NonZero<i8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "g", wire: "g", ty: || <NonZero<i16> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "h", wire: "h", ty: || <NonZero<i32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <NonZero<i64> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "j", wire: "j", ty: || <NonZero<isize> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "NzNums", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); NzNums { a: <NonZero<u8> as Model>::arb(r, d), b: <NonZero<u16> as Model>::arb(r, d), c: <NonZero<u32> as Model>::arb(r, d), d: <NonZero<u64> as Model>::arb(r, d), e: <NonZero<usize> as Model>::arb(r, d), f: <NonZero<i8> as Model>::arb(r, d), g: <NonZero<i16> as Model>::arb(r, d), h: <NonZero<i32> as Model>::arb(r, d), i: <NonZero<i64> as Model>::arb(r, d), j: <NonZero<isize> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv(), self.g.to_mv(), self.h.to_mv(), self.i.to_mv(), self.j.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Floats { pub x: f64, pub y: f32, pub z: f64 }
impl Model for Floats { const NAME: &'static str = "Floats"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <f64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <f32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <f64 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Floats", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Floats { x: <f64 as Model>::arb(r, d), y: <f32 as Model>::arb(r, d), z: <f64 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.y.to_mv(), self.z.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Mixed { pub flag: bool, pub name: String, pub n: i64, pub ratio: f64, pub tiny: u8, pub other: bool }
impl Model for Mixed { const NAME: &'static str = "Mixed"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "flag", wire: "flag", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "name", wire: "name", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "ratio", wire: "ratio", ty: || <f64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "tiny", wire: "tiny", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "other", wire: "other", ty: || <bool as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Mixed", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Mixed { flag: <bool as Model>::arb(r, d), name: <String as Model>::arb(r, d), n: <i64 as Model>::arb(r, d), ratio: <f64 as Model>::arb(r, d), tiny: <u8 as Model>::arb(r, d), other: <bool as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.flag.to_mv(), self.name.to_mv(), self.n.to_mv(), self.ratio.to_mv(), self.tiny.to_mv(), self.other.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Nested { pub id: u64, pub inner: Flat, pub label: String }
impl Model for Nested { const NAME: &'static str = "Nested"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "id", wire: "id", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "inner", wire: "inner", ty: || <Flat as Model>::FNS, default: None, sensitive: false }, FieldD { name: "label", wire: "label", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Nested", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Nested { id: <u64 as Model>::arb(r, d), inner: <Flat as Model>::arb(r, d), label: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.id.to_mv(), self.inner.to_mv(), self.label.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Deep { pub l: Nested, pub r: Nested, pub tail: String }
impl Model for Deep { const NAME: &'static str = "Deep"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "l", wire: "l", ty: || <Nested as Model>::FNS, default: None, sensitive: false }, FieldD { name: "r", wire: "r", ty: || <Nested as Model>::FNS, default: None, sensitive: false }, FieldD { name: "tail", wire: "tail", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Deep", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Deep { l: <Nested as Model>::arb(r, d), r: <Nested as Model>::arb(r, d), tail: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.l.to_mv(), self.r.to_mv(), self.tail.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Opts { pub a: Option<u32>, pub b: Option<String>, pub c: Option<Flat>, pub d: Option<bool> }
impl Model for Opts { const NAME: &'static str = "Opts"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Option<u32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Option<String> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <Option<Flat> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Option<bool> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Opts", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Opts { a: <Option<u32> as Model>::arb(r, d), b: <Option<String> as Model>::arb(r, d), c: <Option<Flat> as Model>::arb(r, d), d: <Option<bool> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Lists { pub xs: Vec<i64>, pub ss: Vec<String>, pub fs: Vec<f64>, pub bs: Vec<bool> }
impl Model for Lists { const NAME: &'static str = "Lists"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "xs", wire: "xs", ty: || <Vec<i64> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "ss", wire: "ss", ty: || <Vec<String> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "fs", wire: "fs", ty: || <Vec<f64> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "bs", wire: "bs", ty: || <Vec<bool> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Lists", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Lists { xs: <Vec<i64> as Model>::arb(r, d), ss: <Vec<String> as Model>::arb(r, d), fs: <Vec<f64> as Model>::arb(r, d), bs: <Vec<bool> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.xs.to_mv(), self.ss.to_mv(), self.fs.to_mv(), self.bs.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ListOfStructs { pub items: Vec<Mixed>, pub inner: Vec<Nested>, pub last: u32 }
impl Model for ListOfStructs { const NAME: &'static str = "ListOfStructs"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "items", wire: "items", ty: || <Vec<Mixed> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "inner", wire: "inner", ty: || <Vec<Nested> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "last", wire: "last", ty: || <u32 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ListOfStructs", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); ListOfStructs { items: <Vec<Mixed> as Model>::arb(r, d), inner: <Vec<Nested> as Model>::arb(r, d), last: <u32 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.items.to_mv(), self.inner.to_mv(), self.last.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct OptLists { pub a: Vec<Option<u32>>, pub b: Option<Vec<u32>>, pub c: Vec<Vec<String>>, pub d: Vec<Option<Flat>>, pub e: Vec<Option<Vec<u8>>> }
impl Model for OptLists { const NAME: &'static str = "OptLists"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Vec<Option<u32>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Option<Vec<u32>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <Vec<Vec<String>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Vec<Option<Flat>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<Option<Vec<u8>>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "OptLists", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); OptLists { a: <Vec<Option<u32>> as Model>::arb(r, d), b: <Option<Vec<u32>> as Model>::arb(r, d), c: <Vec<Vec<String>> as Model>::arb(r, d), d: <Vec<Option<Flat>> as Model>::arb(r, d), e: <Vec<Option<Vec<u8>>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Maps { pub m: HashMap<String, u32>, pub s: HashMap<String, String>, pub v: HashMap<String, Vec<u16>>, pub f: HashMap<String, Flat> }
impl Model for Maps { const NAME: &'static str = "Maps"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "m", wire: "m", ty: || <HashMap<String, u32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "s", wire: "s", ty: || <HashMap<String, String> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <HashMap<String, Vec<u16>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <HashMap<String, Flat> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Maps", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Maps { m: <HashMap<String, u32> as Model>::arb(r, d), s: <HashMap<String, String> as Model>::arb(r, d), v: <HashMap<String, Vec<u16>> as Model>::arb(r, d), f: <HashMap<String, Flat> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.m.to_mv(), self.s.to_mv(), self.v.to_mv(), self.f.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct BMaps { pub m: BTreeMap<String, u32>, pub n: BTreeMap<String, Opts> }
impl Model for BMaps { const NAME: &'static str = "BMaps"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "m", wire: "m", ty: || <BTreeMap<String, u32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <BTreeMap<String, Opts> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "BMaps", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); BMaps { m: <BTreeMap<String, u32> as Model>::arb(r, d), n: <BTreeMap<String, Opts> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.m.to_mv(), self.n.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct IntKeys { pub m: BTreeMap<u32, String>, pub h: HashMap<i64, bool> }
impl Model for IntKeys { const NAME: &'static str = "IntKeys"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "m", wire: "m", ty: || <BTreeMap<u32, String> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "h", wire: "h", ty: || <HashMap<i64, bool> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "IntKeys", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); IntKeys { m: <BTreeMap<u32, String> as Model>::arb(r, d), h: <HashMap<i64, bool> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.m.to_mv(), self.h.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Renamed { #[facet(rename = "first name")] pub a: u32, #[facet(rename = "b")] pub c: String, #[facet(rename = "é☃")] pub d: bool, pub plain: u64 }
impl Model for Renamed { const NAME: &'static str = "Renamed"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "first name", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "b", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "é☃", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "plain", wire: "plain", ty: || <u64 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Renamed", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Renamed { a: <u32 as Model>::arb(r, d), c: <String as Model>::arb(r, d), d: <bool as Model>::arb(r, d), plain: <u64 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.c.to_mv(), self.d.to_mv(), self.plain.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Swapped { #[facet(rename = "b")] pub a: u32, #[facet(rename = "a")] pub b: u32, pub c: u32 }
impl Model for Swapped { const NAME: &'static str = "Swapped"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "b", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <u32 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Swapped", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Swapped { a: <u32 as Model>::arb(r, d), b: <u32 as Model>::arb(r, d), c: <u32 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Defs { pub a: u32, #[facet(default)] pub b: u32, #[facet(default = "def_string")] pub c: String, #[facet(default)] pub d: Option<u32>, #[facet(default = "def_list")] pub e: Vec<u32>, #[facet(default)] pub f: HashMap<String, u32> }
impl Model for Defs { const NAME: &'static str = "Defs"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <u32 as Model>::FNS, default: Some(|| <u32 as Model>::to_mv(&<u32 as Default>::default())), sensitive: false }, FieldD { name: "c", wire: "c", ty: || <String as Model>::FNS, default: Some(|| <String as Model>::to_mv(&def_string())), sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Option<u32> as Model>::FNS, default: Some(|| <Option<u32> as Model>::to_mv(&<Option<u32> as Default>::default())), sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<u32> as Model>::FNS, default: Some(|| <Vec<u32> as Model>::to_mv(&def_list())), sensitive: false }, FieldD { name: "f", wire: "f", ty: || <HashMap<String, u32> as Model>::FNS, default: Some(|| <HashMap<String, u32> as Model>::to_mv(&<HashMap<String, u32> as Default>::default())), sensitive: false }];
static D: StructD = StructD { name: "Defs", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Defs { a: <u32 as Model>::arb(r, d), b: <u32 as Model>::arb(r, d), c: <String as Model>::arb(r, d), d: <Option<u32> as Model>::arb(r, d), e: <Vec<u32> as Model>::arb(r, d), f: <HashMap<String, u32> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(deny_unknown_fields)]  pub struct Deny { pub a: u32, pub b: Option<String> }
impl Model for Deny { const NAME: &'static str = "Deny"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Option<String> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Deny", tuple: false, fields: F, deny: true, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Deny { a: <u32 as Model>::arb(r, d), b: <Option<String> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(deny_unknown_fields)]  pub struct DenyNest { pub x: Deny, pub free: Flat, pub list: Vec<Deny> }
impl Model for DenyNest { const NAME: &'static str = "DenyNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <Deny as Model>::FNS, default: None, sensitive: false }, FieldD { name: "free", wire: "free", ty: || <Flat as Model>::FNS, default: None, sensitive: false }, FieldD { name: "list", wire: "list", ty: || <Vec<Deny> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "DenyNest", tuple: false, fields: F, deny: true, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); DenyNest { x: <Deny as Model>::arb(r, d), free: <Flat as Model>::arb(r, d), list: <Vec<Deny> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.free.to_mv(), self.list.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(default)]  pub struct WholeDef { pub a: u32, pub s: String, pub v: Vec<u32>, pub n: Flat }
impl Default for WholeDef { fn default() -> Self { WholeDef { a: 9, s: "whole default, long enough to live on the heap".to_string(), v: vec![1,2,3], n: Flat { a: 1, b: "bee".to_string() } } } }
impl Model for WholeDef { const NAME: &'static str = "WholeDef"; const DEFAULT: Option<fn() -> MV> = Some(|| <WholeDef as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "s", wire: "s", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<u32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <Flat as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "WholeDef", tuple: false, fields: F, deny: false, default: Some(|| <WholeDef as Default>::default().to_mv()), invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); WholeDef { a: <u32 as Model>::arb(r, d), s: <String as Model>::arb(r, d), v: <Vec<u32> as Model>::arb(r, d), n: <Flat as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.s.to_mv(), self.v.to_mv(), self.n.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(invariants = "inv_range")]  pub struct Inv { pub lo: u32, pub hi: u32 }
impl Inv { fn inv_range(&self) -> bool { self.lo <= self.hi } }
impl Model for Inv { const NAME: &'static str = "Inv"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "lo", wire: "lo", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "hi", wire: "hi", ty: || <u32 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Inv", tuple: false, fields: F, deny: false, default: None, invariant: Some(inv_mv) }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let (a, b) = (u32::arb(r, d), u32::arb(r, d)); Inv { lo: a.min(b), hi: a.max(b) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.lo.to_mv(), self.hi.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct HoldsInv { pub n: u32, pub i: Inv }
impl Model for HoldsInv { const NAME: &'static str = "HoldsInv"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "n", wire: "n", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <Inv as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "HoldsInv", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); HoldsInv { n: <u32 as Model>::arb(r, d), i: <Inv as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.n.to_mv(), self.i.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ListInv { pub is: Vec<Inv>, pub o: Option<Inv> }
impl Model for ListInv { const NAME: &'static str = "ListInv"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "is", wire: "is", ty: || <Vec<Inv> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<Inv> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ListInv", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); ListInv { is: <Vec<Inv> as Model>::arb(r, d), o: <Option<Inv> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.is.to_mv(), self.o.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Tup(pub u32, pub String, pub Option<bool>);
impl Model for Tup { const NAME: &'static str = "Tup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <Option<bool> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Tup", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { Tup(<u32 as Model>::arb(r, d), <String as Model>::arb(r, d), <Option<bool> as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv(), self.1.to_mv(), self.2.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct New(pub u64);
impl Model for New { const NAME: &'static str = "New"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "New", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { New(<u64 as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct HasTup { pub t: Tup, pub n: New, pub u: UnitS, pub e: EmptyS }
impl Model for HasTup { const NAME: &'static str = "HasTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "t", wire: "t", ty: || <Tup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <New as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u", wire: "u", ty: || <UnitS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <EmptyS as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "HasTup", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); HasTup { t: <Tup as Model>::arb(r, d), n: <New as Model>::arb(r, d), u: <UnitS as Model>::arb(r, d), e: <EmptyS as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.t.to_mv(), self.n.to_mv(), self.u.to_mv(), self.e.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct UnitS;
impl Model for UnitS { const NAME: &'static str = "UnitS"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[];
static D: StructD = StructD { name: "UnitS", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(_r: &mut Rng, _d: usize) -> Self { UnitS }
fn to_mv(&self) -> MV { MV::Struct(vec![]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct EmptyS {  }
impl Model for EmptyS { const NAME: &'static str = "EmptyS"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[];
static D: StructD = StructD { name: "EmptyS", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); EmptyS {  } }
fn to_mv(&self) -> MV { MV::Struct(vec![]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Tree { pub v: u32, pub kids: Vec<Tree> }
impl Model for Tree { const NAME: &'static str = "Tree"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "v", wire: "v", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "kids", wire: "kids", ty: || <Vec<Tree> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Tree", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { if d == 0 { return Tree { v: <u32 as Model>::arb(r, 0), kids: Default::default() } } Tree { v: <u32 as Model>::arb(r, d.saturating_sub(1)), kids: <Vec<Tree> as Model>::arb(r, d.saturating_sub(1)) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.v.to_mv(), self.kids.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Toks { pub a: Tok, pub b: Tok, pub c: Tok }
impl Model for Toks { const NAME: &'static str = "Toks"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <Tok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Toks", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Toks { a: <Tok as Model>::arb(r, d), b: <Tok as Model>::arb(r, d), c: <Tok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokNest { pub x: Toks, pub o: Option<Tok>, pub oo: Option<Option<Tok>>, pub v: Vec<Tok>, pub m: BTreeMap<Tok, Tok>, pub l: Vec<Toks> }
impl Model for TokNest { const NAME: &'static str = "TokNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <Toks as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "oo", wire: "oo", ty: || <Option<Option<Tok>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "m", wire: "m", ty: || <BTreeMap<Tok, Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "l", wire: "l", ty: || <Vec<Toks> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokNest { x: <Toks as Model>::arb(r, d), o: <Option<Tok> as Model>::arb(r, d), oo: <Option<Option<Tok>> as Model>::arb(r, d), v: <Vec<Tok> as Model>::arb(r, d), m: <BTreeMap<Tok, Tok> as Model>::arb(r, d), l: <Vec<Toks> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.o.to_mv(), self.oo.to_mv(), self.v.to_mv(), self.m.to_mv(), self.l.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokMix { pub h: HashMap<String, Toks>, pub e: TokEnum, pub es: Vec<TokEnum>, pub oe: Option<TokEnum>, pub t: TokTup, pub z: (), pub u: UnitS, pub vv: Vec<Vec<Tok>>, pub ot: Option<Toks> }
impl Model for TokMix { const NAME: &'static str = "TokMix"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "h", wire: "h", ty: || <HashMap<String, Toks> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <TokEnum as Model>::FNS, default: None, sensitive: false }, FieldD { name: "es", wire: "es", ty: || <Vec<TokEnum> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "oe", wire: "oe", ty: || <Option<TokEnum> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "t", wire: "t", ty: || <TokTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <() as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u", wire: "u", ty: || <UnitS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "vv", wire: "vv", ty: || <Vec<Vec<Tok>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "ot", wire: "ot", ty: || <Option<Toks> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokMix", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokMix { h: <HashMap<String, Toks> as Model>::arb(r, d), e: <TokEnum as Model>::arb(r, d), es: <Vec<TokEnum> as Model>::arb(r, d), oe: <Option<TokEnum> as Model>::arb(r, d), t: <TokTup as Model>::arb(r, d), z: <() as Model>::arb(r, d), u: <UnitS as Model>::arb(r, d), vv: <Vec<Vec<Tok>> as Model>::arb(r, d), ot: <Option<Toks> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.h.to_mv(), self.e.to_mv(), self.es.to_mv(), self.oe.to_mv(), self.t.to_mv(), self.z.to_mv(), self.u.to_mv(), self.vv.to_mv(), self.ot.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokTup(pub Tok, pub u8, pub Tok, pub TokEnum);
impl Model for TokTup { const NAME: &'static str = "TokTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "3", wire: "3", ty: || <TokEnum as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokTup", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { TokTup(<Tok as Model>::arb(r, d), <u8 as Model>::arb(r, d), <Tok as Model>::arb(r, d), <TokEnum as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv(), self.1.to_mv(), self.2.to_mv(), self.3.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Zsts { pub a: (), pub b: UnitS, pub c: EmptyS, pub d: Vec<()>, pub e: Vec<UnitS>, pub f: Option<()>, pub g: UnitE, pub t: Tok }
impl Model for Zsts { const NAME: &'static str = "Zsts"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <() as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <UnitS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <EmptyS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Vec<()> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<UnitS> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <Option<()> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "g", wire: "g", ty: || <UnitE as Model>::FNS, default: None, sensitive: false }, FieldD { name: "t", wire: "t", ty: || <Tok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Zsts", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Zsts { a: <() as Model>::arb(r, d), b: <UnitS as Model>::arb(r, d), c: <EmptyS as Model>::arb(r, d), d: <Vec<()> as Model>::arb(r, d), e: <Vec<UnitS> as Model>::arb(r, d), f: <Option<()> as Model>::arb(r, d), g: <UnitE as Model>::arb(r, d), t: <Tok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv(), self.g.to_mv(), self.t.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Map2 { pub a: BTreeMap<Tok, Vec<Toks>>, pub b: HashMap<u32, TokEnum>, pub c: BTreeMap<String, BTreeMap<Tok, Option<Tok>>>, pub d: HashMap<TokKey, Toks> }
impl Model for Map2 { const NAME: &'static str = "Map2"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <BTreeMap<Tok, Vec<Toks>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <HashMap<u32, TokEnum> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <BTreeMap<String, BTreeMap<Tok, Option<Tok>>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <HashMap<TokKey, Toks> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Map2", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Map2 { a: <BTreeMap<Tok, Vec<Toks>> as Model>::arb(r, d), b: <HashMap<u32, TokEnum> as Model>::arb(r, d), c: <BTreeMap<String, BTreeMap<Tok, Option<Tok>>> as Model>::arb(r, d), d: <HashMap<TokKey, Toks> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]  pub struct TokKey { pub a: Tok, pub b: u8 }
impl Model for TokKey { const NAME: &'static str = "TokKey"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <u8 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokKey", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokKey { a: <Tok as Model>::arb(r, d), b: <u8 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]  #[repr(u8)] pub enum KeyE { A , B , C(Tok)  }
impl Model for KeyE { const NAME: &'static str = "KeyE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "KeyE", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 0, fields: &[] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => KeyE::A, 1 => KeyE::B, _ => KeyE::C(<Tok as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { KeyE::A => MV::Enum(0, vec![]), KeyE::B => MV::Enum(1, vec![]), KeyE::C(x0) => MV::Enum(2, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct EnumKeys { pub m: BTreeMap<KeyE, Tok>, pub o: Option<Option<Option<KeyE>>> }
impl Model for EnumKeys { const NAME: &'static str = "EnumKeys"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "m", wire: "m", ty: || <BTreeMap<KeyE, Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<Option<Option<KeyE>>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "EnumKeys", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); EnumKeys { m: <BTreeMap<KeyE, Tok> as Model>::arb(r, d), o: <Option<Option<Option<KeyE>>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.m.to_mv(), self.o.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct OptTree { pub v: Tok, pub kids: Vec<OptTree>, pub last: Vec<Option<OptTree>> }
impl Model for OptTree { const NAME: &'static str = "OptTree"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "v", wire: "v", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "kids", wire: "kids", ty: || <Vec<OptTree> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "last", wire: "last", ty: || <Vec<Option<OptTree>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "OptTree", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { if d == 0 { return OptTree { v: <Tok as Model>::arb(r, 0), kids: Default::default(), last: Default::default() } } OptTree { v: <Tok as Model>::arb(r, d.saturating_sub(1)), kids: <Vec<OptTree> as Model>::arb(r, d.saturating_sub(1)), last: <Vec<Option<OptTree>> as Model>::arb(r, d.saturating_sub(1)) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.v.to_mv(), self.kids.to_mv(), self.last.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Wide { pub f00: u8, pub f01: Tok, pub f02: u16, pub f03: u8, pub f04: u32, pub f05: u8, pub f06: u64, pub f07: u8, pub f08: String, pub f09: bool, pub f10: Tok, pub f11: u8, pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: u8, pub f18: u8, pub f19: u8, pub f20: u8, pub f21: u8, pub f22: u8, pub f23: u8, pub f24: u8, pub f25: u8, pub f26: u8, pub f27: u8, pub f28: u8, pub f29: u8, pub f30: u8, pub f31: Tok, pub f32: Tok, pub f33: u8, pub f34: u8, pub f35: u8, pub f36: u8, pub f37: u8, pub f38: u8, pub f39: u8, pub f40: u8, pub f41: u8, pub f42: u8, pub f43: u8, pub f44: u8, pub f45: u8, pub f46: u8, pub f47: u8, pub f48: u8, pub f49: u8, pub f50: u8, pub f51: u8, pub f52: u8, pub f53: u8, pub f54: u8, pub f55: u8, pub f56: u8, pub f57: u8, pub f58: u8, pub f59: u8, pub f60: u8, pub f61: u8, pub f62: u8, pub f63: Tok }
impl Model for Wide { const NAME: &'static str = "Wide"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "f00", wire: "f00", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f01", wire: "f01", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f02", wire: "f02", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f03", wire: "f03", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f04", wire: "f04", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f05", wire: "f05", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f06", wire: "f06", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f07", wire: "f07", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f08", wire: "f08", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f09", wire: "f09", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f10", wire: "f10", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f11", wire: "f11", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f12", wire: "f12", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f13", wire: "f13", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f14", wire: "f14", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f15", wire: "f15", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f16", wire: "f16", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f17", wire: "f17", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f18", wire: "f18", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f19", wire: "f19", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f20", wire: "f20", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f21", wire: "f21", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f22", wire: "f22", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f23", wire: "f23", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f24", wire: "f24", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f25", wire: "f25", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f26", wire: "f26", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f27", wire: "f27", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f28", wire: "f28", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f29", wire: "f29", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f30", wire: "f30", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f31", wire: "f31", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f32", wire: "f32", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f33", wire: "f33", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f34", wire: "f34", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f35", wire: "f35", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f36", wire: "f36", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f37", wire: "f37", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f38", wire: "f38", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f39", wire: "f39", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f40", wire: "f40", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f41", wire: "f41", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f42", wire: "f42", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f43", wire: "f43", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f44", wire: "f44", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f45", wire: "f45", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f46", wire: "f46", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f47", wire: "f47", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f48", wire: "f48", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f49", wire: "f49", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f50", wire: "f50", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f51", wire: "f51", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f52", wire: "f52", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f53", wire: "f53", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f54", wire: "f54", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f55", wire: "f55", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f56", wire: "f56", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f57", wire: "f57", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f58", wire: "f58", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f59", wire: "f59", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f60", wire: "f60", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f61", wire: "f61", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f62", wire: "f62", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f63", wire: "f63", ty: || <Tok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Wide", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Wide { f00: <u8 as Model>::arb(r, d), f01: <Tok as Model>::arb(r, d), f02: <u16 as Model>::arb(r, d), f03: <u8 as Model>::arb(r, d), f04: <u32 as Model>::arb(r, d), f05: <u8 as Model>::arb(r, d), f06: <u64 as Model>::arb(r, d), f07: <u8 as Model>::arb(r, d), f08: <String as Model>::arb(r, d), f09: <bool as Model>::arb(r, d), f10: <Tok as Model>::arb(r, d), f11: <u8 as Model>::arb(r, d), f12: <u8 as Model>::arb(r, d), f13: <u8 as Model>::arb(r, d), f14: <u8 as Model>::arb(r, d), f15: <u8 as Model>::arb(r, d), f16: <u8 as Model>::arb(r, d), f17: <u8 as Model>::arb(r, d), f18: <u8 as Model>::arb(r, d), f19: <u8 as Model>::arb(r, d), f20: <u8 as Model>::arb(r, d), f21: <u8 as Model>::arb(r, d), f22: <u8 as Model>::arb(r, d), f23: <u8 as Model>::arb(r, d), f24: <u8 as Model>::arb(r, d), f25: <u8 as Model>::arb(r, d), f26: <u8 as Model>::arb(r, d), f27: <u8 as Model>::arb(r, d), f28: <u8 as Model>::arb(r, d), f29: <u8 as Model>::arb(r, d), f30: <u8 as Model>::arb(r, d), f31: <Tok as Model>::arb(r, d), f32: <Tok as Model>::arb(r, d), f33: <u8 as Model>::arb(r, d), f34: <u8 as Model>::arb(r, d), f35: <u8 as Model>::arb(r, d), f36: <u8 as Model>::arb(r, d), f37: <u8 as Model>::arb(r, d), f38: <u8 as Model>::arb(r, d), f39: <u8 as Model>::arb(r, d), f40: <u8 as Model>::arb(r, d), f41: <u8 as Model>::arb(r, d), f42: <u8 as Model>::arb(r, d), f43: <u8 as Model>::arb(r, d), f44: <u8 as Model>::arb(r, d), f45: <u8 as Model>::arb(r, d), f46: <u8 as Model>::arb(r, d), f47: <u8 as Model>::arb(r, d), f48: <u8 as Model>::arb(r, d), f49: <u8 as Model>::arb(r, d), f50: <u8 as Model>::arb(r, d), f51: <u8 as Model>::arb(r, d), f52: <u8 as Model>::arb(r, d), f53: <u8 as Model>::arb(r, d), f54: <u8 as Model>::arb(r, d), f55: <u8 as Model>::arb(r, d), f56: <u8 as Model>::arb(r, d), f57: <u8 as Model>::arb(r, d), f58: <u8 as Model>::arb(r, d), f59: <u8 as Model>::arb(r, d), f60: <u8 as Model>::arb(r, d), f61: <u8 as Model>::arb(r, d), f62: <u8 as Model>::arb(r, d), f63: <Tok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.f00.to_mv(), self.f01.to_mv(), self.f02.to_mv(), self.f03.to_mv(), self.f04.to_mv(), self.f05.to_mv(), self.f06.to_mv(), self.f07.to_mv(), self.f08.to_mv(), self.f09.to_mv(), self.f10.to_mv(), self.f11.to_mv(), self.f12.to_mv(), self.f13.to_mv(), self.f14.to_mv(), self.f15.to_mv(), self.f16.to_mv(), self.f17.to_mv(), self.f18.to_mv(), self.f19.to_mv(), self.f20.to_mv(), self.f21.to_mv(), self.f22.to_mv(), self.f23.to_mv(), self.f24.to_mv(), self.f25.to_mv(), self.f26.to_mv(), self.f27.to_mv(), self.f28.to_mv(), self.f29.to_mv(), self.f30.to_mv(), self.f31.to_mv(), self.f32.to_mv(), self.f33.to_mv(), self.f34.to_mv(), self.f35.to_mv(), self.f36.to_mv(), self.f37.to_mv(), self.f38.to_mv(), self.f39.to_mv(), self.f40.to_mv(), self.f41.to_mv(), self.f42.to_mv(), self.f43.to_mv(), self.f44.to_mv(), self.f45.to_mv(), self.f46.to_mv(), self.f47.to_mv(), self.f48.to_mv(), self.f49.to_mv(), self.f50.to_mv(), self.f51.to_mv(), self.f52.to_mv(), self.f53.to_mv(), self.f54.to_mv(), self.f55.to_mv(), self.f56.to_mv(), self.f57.to_mv(), self.f58.to_mv(), self.f59.to_mv(), self.f60.to_mv(), self.f61.to_mv(), self.f62.to_mv(), self.f63.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Wide63 { pub f00: u8, pub f01: Tok, pub f02: u16, pub f03: u8, pub f04: u32, pub f05: u8, pub f06: u64, pub f07: u8, pub f08: String, pub f09: bool, pub f10: Tok, pub f11: u8, pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: u8, pub f18: u8, pub f19: u8, pub f20: u8, pub f21: u8, pub f22: u8, pub f23: u8, pub f24: u8, pub f25: u8, pub f26: u8, pub f27: u8, pub f28: u8, pub f29: u8, pub f30: u8, pub f31: Tok, pub f32: Tok }
impl Model for Wide63 { const NAME: &'static str = "Wide63"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "f00", wire: "f00", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f01", wire: "f01", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f02", wire: "f02", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f03", wire: "f03", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f04", wire: "f04", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f05", wire: "f05", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f06", wire: "f06", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f07", wire: "f07", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f08", wire: "f08", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f09", wire: "f09", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f10", wire: "f10", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f11", wire: "f11", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f12", wire: "f12", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f13", wire: "f13", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f14", wire: "f14", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f15", wire: "f15", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f16", wire: "f16", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f17", wire: "f17", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f18", wire: "f18", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f19", wire: "f19", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f20", wire: "f20", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f21", wire: "f21", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f22", wire: "f22", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f23", wire: "f23", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f24", wire: "f24", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f25", wire: "f25", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f26", wire: "f26", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f27", wire: "f27", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f28", wire: "f28", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f29", wire: "f29", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f30", wire: "f30", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f31", wire: "f31", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f32", wire: "f32", ty: || <Tok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Wide63", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Wide63 { f00: <u8 as Model>::arb(r, d), f01: <Tok as Model>::arb(r, d), f02: <u16 as Model>::arb(r, d), f03: <u8 as Model>::arb(r, d), f04: <u32 as Model>::arb(r, d), f05: <u8 as Model>::arb(r, d), f06: <u64 as Model>::arb(r, d), f07: <u8 as Model>::arb(r, d), f08: <String as Model>::arb(r, d), f09: <bool as Model>::arb(r, d), f10: <Tok as Model>::arb(r, d), f11: <u8 as Model>::arb(r, d), f12: <u8 as Model>::arb(r, d), f13: <u8 as Model>::arb(r, d), f14: <u8 as Model>::arb(r, d), f15: <u8 as Model>::arb(r, d), f16: <u8 as Model>::arb(r, d), f17: <u8 as Model>::arb(r, d), f18: <u8 as Model>::arb(r, d), f19: <u8 as Model>::arb(r, d), f20: <u8 as Model>::arb(r, d), f21: <u8 as Model>::arb(r, d), f22: <u8 as Model>::arb(r, d), f23: <u8 as Model>::arb(r, d), f24: <u8 as Model>::arb(r, d), f25: <u8 as Model>::arb(r, d), f26: <u8 as Model>::arb(r, d), f27: <u8 as Model>::arb(r, d), f28: <u8 as Model>::arb(r, d), f29: <u8 as Model>::arb(r, d), f30: <u8 as Model>::arb(r, d), f31: <Tok as Model>::arb(r, d), f32: <Tok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.f00.to_mv(), self.f01.to_mv(), self.f02.to_mv(), self.f03.to_mv(), self.f04.to_mv(), self.f05.to_mv(), self.f06.to_mv(), self.f07.to_mv(), self.f08.to_mv(), self.f09.to_mv(), self.f10.to_mv(), self.f11.to_mv(), self.f12.to_mv(), self.f13.to_mv(), self.f14.to_mv(), self.f15.to_mv(), self.f16.to_mv(), self.f17.to_mv(), self.f18.to_mv(), self.f19.to_mv(), self.f20.to_mv(), self.f21.to_mv(), self.f22.to_mv(), self.f23.to_mv(), self.f24.to_mv(), self.f25.to_mv(), self.f26.to_mv(), self.f27.to_mv(), self.f28.to_mv(), self.f29.to_mv(), self.f30.to_mv(), self.f31.to_mv(), self.f32.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Wide70 { pub f00: u8, pub f01: Tok, pub f02: u8, pub f03: u16, pub f04: u8, pub f05: u8, pub f06: u8, pub f07: u8, pub f08: u8, pub f09: u8, pub f10: u16, pub f11: u8, pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: u16, pub f18: u8, pub f19: u8, pub f20: u8, pub f21: u8, pub f22: u8, pub f23: u8, pub f24: u16, pub f25: u8, pub f26: u8, pub f27: u8, pub f28: u8, pub f29: u8, pub f30: u8, pub f31: u16, pub f32: u8, pub f33: u8, pub f34: u8, pub f35: u8, pub f36: u8, pub f37: u8, pub f38: u16, pub f39: u8, pub f40: u8, pub f41: u8, pub f42: u8, pub f43: u8, pub f44: u8, pub f45: u16, pub f46: u8, pub f47: u8, pub f48: u8, pub f49: u8, pub f50: u8, pub f51: u8, pub f52: u16, pub f53: u8, pub f54: u8, pub f55: u8, pub f56: u8, pub f57: u8, pub f58: u8, pub f59: u16, pub f60: u8, pub f61: u8, pub f62: u8, pub f63: Tok, pub f64: Tok, pub f65: String, pub f66: Tok, pub f67: u8, pub f68: u8, pub f69: Tok }
impl Model for Wide70 { const NAME: &'static str = "Wide70"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "f00", wire: "f00", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f01", wire: "f01", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f02", wire: "f02", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f03", wire: "f03", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f04", wire: "f04", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f05", wire: "f05", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f06", wire: "f06", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f07", wire: "f07", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f08", wire: "f08", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f09", wire: "f09", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f10", wire: "f10", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f11", wire: "f11", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f12", wire: "f12", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f13", wire: "f13", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f14", wire: "f14", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f15", wire: "f15", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f16", wire: "f16", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f17", wire: "f17", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f18", wire: "f18", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f19", wire: "f19", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f20", wire: "f20", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f21", wire: "f21", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f22", wire: "f22", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f23", wire: "f23", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f24", wire: "f24", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f25", wire: "f25", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f26", wire: "f26", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f27", wire: "f27", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f28", wire: "f28", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f29", wire: "f29", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f30", wire: "f30", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f31", wire: "f31", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f32", wire: "f32", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f33", wire: "f33", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f34", wire: "f34", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f35", wire: "f35", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f36", wire: "f36", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f37", wire: "f37", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f38", wire: "f38", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f39", wire: "f39", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f40", wire: "f40", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f41", wire: "f41", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f42", wire: "f42", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f43", wire: "f43", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f44", wire: "f44", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f45", wire: "f45", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f46", wire: "f46", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f47", wire: "f47", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f48", wire: "f48", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f49", wire: "f49", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f50", wire: "f50", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f51", wire: "f51", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f52", wire: "f52", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f53", wire: "f53", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f54", wire: "f54", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f55", wire: "f55", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f56", wire: "f56", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f57", wire: "f57", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f58", wire: "f58", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f59", wire: "f59", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f60", wire: "f60", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f61", wire: "f61", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f62", wire: "f62", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f63", wire: "f63", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f64", wire: "f64", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f65", wire: "f65", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f66", wire: "f66", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f67", wire: "f67", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f68", wire: "f68", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f69", wire: "f69", ty: || <Tok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Wide70", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Wide70 { f00: <u8 as Model>::arb(r, d), f01: <Tok as Model>::arb(r, d), f02: <u8 as Model>::arb(r, d), f03: <u16 as Model>::arb(r, d), f04: <u8 as Model>::arb(r, d), f05: <u8 as Model>::arb(r, d), f06: <u8 as Model>::arb(r, d), f07: <u8 as Model>::arb(r, d), f08: <u8 as Model>::arb(r, d), f09: <u8 as Model>::arb(r, d), f10: <u16 as Model>::arb(r, d), f11: <u8 as Model>::arb(r, d), f12: <u8 as Model>::arb(r, d), f13: <u8 as Model>::arb(r, d), f14: <u8 as Model>::arb(r, d), f15: <u8 as Model>::arb(r, d), f16: <u8 as Model>::arb(r, d), f17: <u16 as Model>::arb(r, d), f18: <u8 as Model>::arb(r, d), f19: <u8 as Model>::arb(r, d), f20: <u8 as Model>::arb(r, d), f21: <u8 as Model>::arb(r, d), f22: <u8 as Model>::arb(r, d), f23: <u8 as Model>::arb(r, d), f24: <u16 as Model>::arb(r, d), f25: <u8 as Model>::arb(r, d), f26: <u8 as Model>::arb(r, d), f27: <u8 as Model>::arb(r, d), f28: <u8 as Model>::arb(r, d), f29: <u8 as Model>::arb(r, d), f30: <u8 as Model>::arb(r, d), f31: <u16 as Model>::arb(r, d), f32: <u8 as Model>::arb(r, d), f33: <u8 as Model>::arb(r, d), f34: <u8 as Model>::arb(r, d), f35: <u8 as Model>::arb(r, d), f36: <u8 as Model>::arb(r, d), f37: <u8 as Model>::arb(r, d), f38: <u16 as Model>::arb(r, d), f39: <u8 as Model>::arb(r, d), f40: <u8 as Model>::arb(r, d), f41: <u8 as Model>::arb(r, d), f42: <u8 as Model>::arb(r, d), f43: <u8 as Model>::arb(r, d), f44: <u8 as Model>::arb(r, d), f45: <u16 as Model>::arb(r, d), f46: <u8 as Model>::arb(r, d), f47: <u8 as Model>::arb(r, d), f48: <u8 as Model>::arb(r, d), f49: <u8 as Model>::arb(r, d), f50: <u8 as Model>::arb(r, d), f51: <u8 as Model>::arb(r, d), f52: <u16 as Model>::arb(r, d), f53: <u8 as Model>::arb(r, d), f54: <u8 as Model>::arb(r, d), f55: <u8 as Model>::arb(r, d), f56: <u8 as Model>::arb(r, d), f57: <u8 as Model>::arb(r, d), f58: <u8 as Model>::arb(r, d), f59: <u16 as Model>::arb(r, d), f60: <u8 as Model>::arb(r, d), f61: <u8 as Model>::arb(r, d), f62: <u8 as Model>::arb(r, d), f63: <Tok as Model>::arb(r, d), f64: <Tok as Model>::arb(r, d), f65: <String as Model>::arb(r, d), f66: <Tok as Model>::arb(r, d), f67: <u8 as Model>::arb(r, d), f68: <u8 as Model>::arb(r, d), f69: <Tok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.f00.to_mv(), self.f01.to_mv(), self.f02.to_mv(), self.f03.to_mv(), self.f04.to_mv(), self.f05.to_mv(), self.f06.to_mv(), self.f07.to_mv(), self.f08.to_mv(), self.f09.to_mv(), self.f10.to_mv(), self.f11.to_mv(), self.f12.to_mv(), self.f13.to_mv(), self.f14.to_mv(), self.f15.to_mv(), self.f16.to_mv(), self.f17.to_mv(), self.f18.to_mv(), self.f19.to_mv(), self.f20.to_mv(), self.f21.to_mv(), self.f22.to_mv(), self.f23.to_mv(), self.f24.to_mv(), self.f25.to_mv(), self.f26.to_mv(), self.f27.to_mv(), self.f28.to_mv(), self.f29.to_mv(), self.f30.to_mv(), self.f31.to_mv(), self.f32.to_mv(), self.f33.to_mv(), self.f34.to_mv(), self.f35.to_mv(), self.f36.to_mv(), self.f37.to_mv(), self.f38.to_mv(), self.f39.to_mv(), self.f40.to_mv(), self.f41.to_mv(), self.f42.to_mv(), self.f43.to_mv(), self.f44.to_mv(), self.f45.to_mv(), self.f46.to_mv(), self.f47.to_mv(), self.f48.to_mv(), self.f49.to_mv(), self.f50.to_mv(), self.f51.to_mv(), self.f52.to_mv(), self.f53.to_mv(), self.f54.to_mv(), self.f55.to_mv(), self.f56.to_mv(), self.f57.to_mv(), self.f58.to_mv(), self.f59.to_mv(), self.f60.to_mv(), self.f61.to_mv(), self.f62.to_mv(), self.f63.to_mv(), self.f64.to_mv(), self.f65.to_mv(), self.f66.to_mv(), self.f67.to_mv(), self.f68.to_mv(), self.f69.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum WideE { A , B { f00: Tok, f01: u8, f02: u8, f03: u8, f04: u8, f05: u8, f06: u8, f07: u8, f08: u8, f09: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8, f33: u8, f34: u8, f35: u8, f36: u8, f37: u8, f38: u8, f39: u8, f40: u8, f41: u8, f42: u8, f43: u8, f44: u8, f45: u8, f46: u8, f47: u8, f48: u8, f49: u8, f50: u8, f51: u8, f52: u8, f53: u8, f54: u8, f55: u8, f56: u8, f57: u8, f58: u8, f59: u8, f60: u8, f61: u8, f62: Tok, f63: Tok, f64: Tok, f65: u8 } , C(u8, u8, Tok, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Tok, u8)  }
impl Model for WideE { const NAME: &'static str = "WideE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "WideE", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 2, fields: &[FieldD { name: "f00", wire: "f00", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f01", wire: "f01", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f02", wire: "f02", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f03", wire: "f03", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f04", wire: "f04", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f05", wire: "f05", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f06", wire: "f06", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f07", wire: "f07", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f08", wire: "f08", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f09", wire: "f09", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f10", wire: "f10", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f11", wire: "f11", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f12", wire: "f12", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f13", wire: "f13", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f14", wire: "f14", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f15", wire: "f15", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f16", wire: "f16", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f17", wire: "f17", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f18", wire: "f18", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f19", wire: "f19", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f20", wire: "f20", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f21", wire: "f21", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f22", wire: "f22", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f23", wire: "f23", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f24", wire: "f24", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f25", wire: "f25", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f26", wire: "f26", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f27", wire: "f27", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f28", wire: "f28", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f29", wire: "f29", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f30", wire: "f30", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f31", wire: "f31", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f32", wire: "f32", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f33", wire: "f33", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f34", wire: "f34", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f35", wire: "f35", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f36", wire: "f36", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f37", wire: "f37", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f38", wire: "f38", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f39", wire: "f39", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f40", wire: "f40", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f41", wire: "f41", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f42", wire: "f42", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f43", wire: "f43", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f44", wire: "f44", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f45", wire: "f45", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f46", wire: "f46", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f47", wire: "f47", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f48", wire: "f48", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f49", wire: "f49", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f50", wire: "f50", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f51", wire: "f51", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f52", wire: "f52", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f53", wire: "f53", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f54", wire: "f54", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f55", wire: "f55", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f56", wire: "f56", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f57", wire: "f57", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f58", wire: "f58", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f59", wire: "f59", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f60", wire: "f60", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f61", wire: "f61", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f62", wire: "f62", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f63", wire: "f63", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f64", wire: "f64", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f65", wire: "f65", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "3", wire: "3", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "4", wire: "4", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "5", wire: "5", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "6", wire: "6", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "7", wire: "7", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "8", wire: "8", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "9", wire: "9", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "10", wire: "10", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "11", wire: "11", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "12", wire: "12", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "13", wire: "13", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "14", wire: "14", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "15", wire: "15", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "16", wire: "16", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "17", wire: "17", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "18", wire: "18", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "19", wire: "19", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "20", wire: "20", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "21", wire: "21", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "22", wire: "22", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "23", wire: "23", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "24", wire: "24", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "25", wire: "25", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "26", wire: "26", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "27", wire: "27", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "28", wire: "28", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "29", wire: "29", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "30", wire: "30", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "31", wire: "31", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "32", wire: "32", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "33", wire: "33", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "34", wire: "34", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "35", wire: "35", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "36", wire: "36", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "37", wire: "37", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "38", wire: "38", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "39", wire: "39", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "40", wire: "40", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "41", wire: "41", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "42", wire: "42", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "43", wire: "43", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "44", wire: "44", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "45", wire: "45", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "46", wire: "46", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "47", wire: "47", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "48", wire: "48", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "49", wire: "49", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "50", wire: "50", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "51", wire: "51", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "52", wire: "52", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "53", wire: "53", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "54", wire: "54", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "55", wire: "55", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "56", wire: "56", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "57", wire: "57", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "58", wire: "58", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "59", wire: "59", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "60", wire: "60", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "61", wire: "61", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "62", wire: "62", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "63", wire: "63", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "64", wire: "64", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "65", wire: "65", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => WideE::A, 1 => WideE::B { f00: <Tok as Model>::arb(r, d), f01: <u8 as Model>::arb(r, d), f02: <u8 as Model>::arb(r, d), f03: <u8 as Model>::arb(r, d), f04: <u8 as Model>::arb(r, d), f05: <u8 as Model>::arb(r, d), f06: <u8 as Model>::arb(r, d), f07: <u8 as Model>::arb(r, d), f08: <u8 as Model>::arb(r, d), f09: <u8 as Model>::arb(r, d), f10: <u8 as Model>::arb(r, d), f11: <u8 as Model>::arb(r, d), f12: <u8 as Model>::arb(r, d), f13: <u8 as Model>::arb(r, d), f14: <u8 as Model>::arb(r, d), f15: <u8 as Model>::arb(r, d), f16: <u8 as Model>::arb(r, d), f17: <u8 as Model>::arb(r, d), f18: <u8 as Model>::arb(r, d), f19: <u8 as Model>::arb(r, d), f20: <u8 as Model>::arb(r, d), f21: <u8 as Model>::arb(r, d), f22: <u8 as Model>::arb(r, d), f23: <u8 as Model>::arb(r, d), f24: <u8 as Model>::arb(r, d), f25: <u8 as Model>::arb(r, d), f26: <u8 as Model>::arb(r, d), f27: <u8 as Model>::arb(r, d), f28: <u8 as Model>::arb(r, d), f29: <u8 as Model>::arb(r, d), f30: <u8 as Model>::arb(r, d), f31: <u8 as Model>::arb(r, d), f32: <u8 as Model>::arb(r, d), f33: <u8 as Model>::arb(r, d), f34: <u8 as Model>::arb(r, d), f35: <u8 as Model>::arb(r, d), f36: <u8 as Model>::arb(r, d), f37: <u8 as Model>::arb(r, d), f38: <u8 as Model>::arb(r, d), f39: <u8 as Model>::arb(r, d), f40: <u8 as Model>::arb(r, d), f41: <u8 as Model>::arb(r, d), f42: <u8 as Model>::arb(r, d), f43: <u8 as Model>::arb(r, d), f44: <u8 as Model>::arb(r, d), f45: <u8 as Model>::arb(r, d), f46: <u8 as Model>::arb(r, d), f47: <u8 as Model>::arb(r, d), f48: <u8 as Model>::arb(r, d), f49: <u8 as Model>::arb(r, d), f50: <u8 as Model>::arb(r, d), f51: <u8 as Model>::arb(r, d), f52: <u8 as Model>::arb(r, d), f53: <u8 as Model>::arb(r, d), f54: <u8 as Model>::arb(r, d), f55: <u8 as Model>::arb(r, d), f56: <u8 as Model>::arb(r, d), f57: <u8 as Model>::arb(r, d), f58: <u8 as Model>::arb(r, d), f59: <u8 as Model>::arb(r, d), f60: <u8 as Model>::arb(r, d), f61: <u8 as Model>::arb(r, d), f62: <Tok as Model>::arb(r, d), f63: <Tok as Model>::arb(r, d), f64: <Tok as Model>::arb(r, d), f65: <u8 as Model>::arb(r, d) }, _ => WideE::C(<u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <Tok as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <u8 as Model>::arb(r, d), <Tok as Model>::arb(r, d), <u8 as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { WideE::A => MV::Enum(0, vec![]), WideE::B { f00: x0, f01: x1, f02: x2, f03: x3, f04: x4, f05: x5, f06: x6, f07: x7, f08: x8, f09: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25, f26: x26, f27: x27, f28: x28, f29: x29, f30: x30, f31: x31, f32: x32, f33: x33, f34: x34, f35: x35, f36: x36, f37: x37, f38: x38, f39: x39, f40: x40, f41: x41, f42: x42, f43: x43, f44: x44, f45: x45, f46: x46, f47: x47, f48: x48, f49: x49, f50: x50, f51: x51, f52: x52, f53: x53, f54: x54, f55: x55, f56: x56, f57: x57, f58: x58, f59: x59, f60: x60, f61: x61, f62: x62, f63: x63, f64: x64, f65: x65 } => MV::Enum(1, vec![x0.to_mv(), x1.to_mv(), x2.to_mv(), x3.to_mv(), x4.to_mv(), x5.to_mv(), x6.to_mv(), x7.to_mv(), x8.to_mv(), x9.to_mv(), x10.to_mv(), x11.to_mv(), x12.to_mv(), x13.to_mv(), x14.to_mv(), x15.to_mv(), x16.to_mv(), x17.to_mv(), x18.to_mv(), x19.to_mv(), x20.to_mv(), x21.to_mv(), x22.to_mv(), x23.to_mv(), x24.to_mv(), x25.to_mv(), x26.to_mv(), x27.to_mv(), x28.to_mv(), x29.to_mv(), x30.to_mv(), x31.to_mv(), x32.to_mv(), x33.to_mv(), x34.to_mv(), x35.to_mv(), x36.to_mv(), x37.to_mv(), x38.to_mv(), x39.to_mv(), x40.to_mv(), x41.to_mv(), x42.to_mv(), x43.to_mv(), x44.to_mv(), x45.to_mv(), x46.to_mv(), x47.to_mv(), x48.to_mv(), x49.to_mv(), x50.to_mv(), x51.to_mv(), x52.to_mv(), x53.to_mv(), x54.to_mv(), x55.to_mv(), x56.to_mv(), x57.to_mv(), x58.to_mv(), x59.to_mv(), x60.to_mv(), x61.to_mv(), x62.to_mv(), x63.to_mv(), x64.to_mv(), x65.to_mv()]), WideE::C(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31, x32, x33, x34, x35, x36, x37, x38, x39, x40, x41, x42, x43, x44, x45, x46, x47, x48, x49, x50, x51, x52, x53, x54, x55, x56, x57, x58, x59, x60, x61, x62, x63, x64, x65) => MV::Enum(2, vec![x0.to_mv(), x1.to_mv(), x2.to_mv(), x3.to_mv(), x4.to_mv(), x5.to_mv(), x6.to_mv(), x7.to_mv(), x8.to_mv(), x9.to_mv(), x10.to_mv(), x11.to_mv(), x12.to_mv(), x13.to_mv(), x14.to_mv(), x15.to_mv(), x16.to_mv(), x17.to_mv(), x18.to_mv(), x19.to_mv(), x20.to_mv(), x21.to_mv(), x22.to_mv(), x23.to_mv(), x24.to_mv(), x25.to_mv(), x26.to_mv(), x27.to_mv(), x28.to_mv(), x29.to_mv(), x30.to_mv(), x31.to_mv(), x32.to_mv(), x33.to_mv(), x34.to_mv(), x35.to_mv(), x36.to_mv(), x37.to_mv(), x38.to_mv(), x39.to_mv(), x40.to_mv(), x41.to_mv(), x42.to_mv(), x43.to_mv(), x44.to_mv(), x45.to_mv(), x46.to_mv(), x47.to_mv(), x48.to_mv(), x49.to_mv(), x50.to_mv(), x51.to_mv(), x52.to_mv(), x53.to_mv(), x54.to_mv(), x55.to_mv(), x56.to_mv(), x57.to_mv(), x58.to_mv(), x59.to_mv(), x60.to_mv(), x61.to_mv(), x62.to_mv(), x63.to_mv(), x64.to_mv(), x65.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Chars { pub c: char, pub d: Option<char>, pub u: u128, pub i: i128, pub unit: () }
impl Model for Chars { const NAME: &'static str = "Chars"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "c", wire: "c", ty: || <char as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Option<char> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u", wire: "u", ty: || <u128 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <i128 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "unit", wire: "unit", ty: || <() as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Chars", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Chars { c: <char as Model>::arb(r, d), d: <Option<char> as Model>::arb(r, d), u: <u128 as Model>::arb(r, d), i: <i128 as Model>::arb(r, d), unit: <() as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.c.to_mv(), self.d.to_mv(), self.u.to_mv(), self.i.to_mv(), self.unit.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum UnitE { Alpha , Beta , Gamma  }
impl Model for UnitE { const NAME: &'static str = "UnitE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "UnitE", variants: &[VariantD { name: "Alpha", kind: 0, fields: &[] }, VariantD { name: "Beta", kind: 0, fields: &[] }, VariantD { name: "Gamma", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => UnitE::Alpha, 1 => UnitE::Beta, _ => UnitE::Gamma } }
fn to_mv(&self) -> MV { match self { UnitE::Alpha => MV::Enum(0, vec![]), UnitE::Beta => MV::Enum(1, vec![]), UnitE::Gamma => MV::Enum(2, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum DataE { Unit , One(u32) , Two(u32, String) , Named { x: i64, y: String } , Boxed(Flat) , L(Vec<u32>) , OneNamed { only: u32 }  }
impl Model for DataE { const NAME: &'static str = "DataE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "DataE", variants: &[VariantD { name: "Unit", kind: 0, fields: &[] }, VariantD { name: "One", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u32 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Two", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <String as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Named", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <String as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Boxed", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Flat as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "L", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Vec<u32> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "OneNamed", kind: 2, fields: &[FieldD { name: "only", wire: "only", ty: || <u32 as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(7) { 0 => DataE::Unit, 1 => DataE::One(<u32 as Model>::arb(r, d)), 2 => DataE::Two(<u32 as Model>::arb(r, d), <String as Model>::arb(r, d)), 3 => DataE::Named { x: <i64 as Model>::arb(r, d), y: <String as Model>::arb(r, d) }, 4 => DataE::Boxed(<Flat as Model>::arb(r, d)), 5 => DataE::L(<Vec<u32> as Model>::arb(r, d)), _ => DataE::OneNamed { only: <u32 as Model>::arb(r, d) } } }
fn to_mv(&self) -> MV { match self { DataE::Unit => MV::Enum(0, vec![]), DataE::One(x0) => MV::Enum(1, vec![x0.to_mv()]), DataE::Two(x0, x1) => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]), DataE::Named { x: x0, y: x1 } => MV::Enum(3, vec![x0.to_mv(), x1.to_mv()]), DataE::Boxed(x0) => MV::Enum(4, vec![x0.to_mv()]), DataE::L(x0) => MV::Enum(5, vec![x0.to_mv()]), DataE::OneNamed { only: x0 } => MV::Enum(6, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum TokEnum { Empty , One(Tok) , Two(Tok, Tok) , Named { a: Tok, b: u32, c: String } , Nest(Toks) , Opt(Option<Tok>) , List { l: Vec<Tok> }  }
impl Model for TokEnum { const NAME: &'static str = "TokEnum";
fn kind() -> Kind { static D: EnumD = EnumD { name: "TokEnum", variants: &[VariantD { name: "Empty", kind: 0, fields: &[] }, VariantD { name: "One", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Two", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Named", kind: 2, fields: &[FieldD { name: "a", wire: "a", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <String as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Nest", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Toks as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Opt", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Option<Tok> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "List", kind: 2, fields: &[FieldD { name: "l", wire: "l", ty: || <Vec<Tok> as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(7) { 0 => TokEnum::Empty, 1 => TokEnum::One(<Tok as Model>::arb(r, d)), 2 => TokEnum::Two(<Tok as Model>::arb(r, d), <Tok as Model>::arb(r, d)), 3 => TokEnum::Named { a: <Tok as Model>::arb(r, d), b: <u32 as Model>::arb(r, d), c: <String as Model>::arb(r, d) }, 4 => TokEnum::Nest(<Toks as Model>::arb(r, d)), 5 => TokEnum::Opt(<Option<Tok> as Model>::arb(r, d)), _ => TokEnum::List { l: <Vec<Tok> as Model>::arb(r, d) } } }
fn to_mv(&self) -> MV { match self { TokEnum::Empty => MV::Enum(0, vec![]), TokEnum::One(x0) => MV::Enum(1, vec![x0.to_mv()]), TokEnum::Two(x0, x1) => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]), TokEnum::Named { a: x0, b: x1, c: x2 } => MV::Enum(3, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]), TokEnum::Nest(x0) => MV::Enum(4, vec![x0.to_mv()]), TokEnum::Opt(x0) => MV::Enum(5, vec![x0.to_mv()]), TokEnum::List { l: x0 } => MV::Enum(6, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u16)] pub enum R16 { A = 7, B(u64) = 300, C { x: u8, t: Tok }  }
impl Model for R16 { const NAME: &'static str = "R16";
fn kind() -> Kind { static D: EnumD = EnumD { name: "R16", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "t", wire: "t", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => R16::A, 1 => R16::B(<u64 as Model>::arb(r, d)), _ => R16::C { x: <u8 as Model>::arb(r, d), t: <Tok as Model>::arb(r, d) } } }
fn to_mv(&self) -> MV { match self { R16::A => MV::Enum(0, vec![]), R16::B(x0) => MV::Enum(1, vec![x0.to_mv()]), R16::C { x: x0, t: x1 } => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u32)] pub enum R32 { A(u8) = 1, B(u64) = 70000, C(Tok, u8)  }
impl Model for R32 { const NAME: &'static str = "R32";
fn kind() -> Kind { static D: EnumD = EnumD { name: "R32", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => R32::A(<u8 as Model>::arb(r, d)), 1 => R32::B(<u64 as Model>::arb(r, d)), _ => R32::C(<Tok as Model>::arb(r, d), <u8 as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { R32::A(x0) => MV::Enum(0, vec![x0.to_mv()]), R32::B(x0) => MV::Enum(1, vec![x0.to_mv()]), R32::C(x0, x1) => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u64)] pub enum R64 { A(u8) , B(Tok) = 5000000000, C  }
impl Model for R64 { const NAME: &'static str = "R64";
fn kind() -> Kind { static D: EnumD = EnumD { name: "R64", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => R64::A(<u8 as Model>::arb(r, d)), 1 => R64::B(<Tok as Model>::arb(r, d)), _ => R64::C } }
fn to_mv(&self) -> MV { match self { R64::A(x0) => MV::Enum(0, vec![x0.to_mv()]), R64::B(x0) => MV::Enum(1, vec![x0.to_mv()]), R64::C => MV::Enum(2, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(i8)] pub enum I8E { A , B(Tok) , C = 100, D(u64)  }
impl Model for I8E { const NAME: &'static str = "I8E";
fn kind() -> Kind { static D: EnumD = EnumD { name: "I8E", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 0, fields: &[] }, VariantD { name: "D", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(4) { 0 => I8E::A, 1 => I8E::B(<Tok as Model>::arb(r, d)), 2 => I8E::C, _ => I8E::D(<u64 as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { I8E::A => MV::Enum(0, vec![]), I8E::B(x0) => MV::Enum(1, vec![x0.to_mv()]), I8E::C => MV::Enum(2, vec![]), I8E::D(x0) => MV::Enum(3, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(i32)] pub enum I32E { A(String) , B(Tok, u8) = 123456, C  }
impl Model for I32E { const NAME: &'static str = "I32E";
fn kind() -> Kind { static D: EnumD = EnumD { name: "I32E", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <String as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => I32E::A(<String as Model>::arb(r, d)), 1 => I32E::B(<Tok as Model>::arb(r, d), <u8 as Model>::arb(r, d)), _ => I32E::C } }
fn to_mv(&self) -> MV { match self { I32E::A(x0) => MV::Enum(0, vec![x0.to_mv()]), I32E::B(x0, x1) => MV::Enum(1, vec![x0.to_mv(), x1.to_mv()]), I32E::C => MV::Enum(2, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(usize)] pub enum UsE { A(Tok) , B , C { x: u8, y: Tok }  }
impl Model for UsE { const NAME: &'static str = "UsE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "UsE", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 0, fields: &[] }, VariantD { name: "C", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => UsE::A(<Tok as Model>::arb(r, d)), 1 => UsE::B, _ => UsE::C { x: <u8 as Model>::arb(r, d), y: <Tok as Model>::arb(r, d) } } }
fn to_mv(&self) -> MV { match self { UsE::A(x0) => MV::Enum(0, vec![x0.to_mv()]), UsE::B => MV::Enum(1, vec![]), UsE::C { x: x0, y: x1 } => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(i64)] pub enum I64E { A(Tok) = 1, B(u64) = 4294967297, C = 9007199254740993, D { x: u8, y: Tok } = 65537 }
impl Model for I64E { const NAME: &'static str = "I64E";
fn kind() -> Kind { static D: EnumD = EnumD { name: "I64E", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 0, fields: &[] }, VariantD { name: "D", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(4) { 0 => I64E::A(<Tok as Model>::arb(r, d)), 1 => I64E::B(<u64 as Model>::arb(r, d)), 2 => I64E::C, _ => I64E::D { x: <u8 as Model>::arb(r, d), y: <Tok as Model>::arb(r, d) } } }
fn to_mv(&self) -> MV { match self { I64E::A(x0) => MV::Enum(0, vec![x0.to_mv()]), I64E::B(x0) => MV::Enum(1, vec![x0.to_mv()]), I64E::C => MV::Enum(2, vec![]), I64E::D { x: x0, y: x1 } => MV::Enum(3, vec![x0.to_mv(), x1.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(isize)] pub enum IsE { A = 3, B(Tok) = 8589934595, C(u8) = 4294967299 }
impl Model for IsE { const NAME: &'static str = "IsE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "IsE", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => IsE::A, 1 => IsE::B(<Tok as Model>::arb(r, d)), _ => IsE::C(<u8 as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { IsE::A => MV::Enum(0, vec![]), IsE::B(x0) => MV::Enum(1, vec![x0.to_mv()]), IsE::C(x0) => MV::Enum(2, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum UnsortE { A(Tok) = 9, B = 200, C { x: u8, y: Tok } = 3, D(u64) = 1 }
impl Model for UnsortE { const NAME: &'static str = "UnsortE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "UnsortE", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 0, fields: &[] }, VariantD { name: "C", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "D", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(4) { 0 => UnsortE::A(<Tok as Model>::arb(r, d)), 1 => UnsortE::B, 2 => UnsortE::C { x: <u8 as Model>::arb(r, d), y: <Tok as Model>::arb(r, d) }, _ => UnsortE::D(<u64 as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { UnsortE::A(x0) => MV::Enum(0, vec![x0.to_mv()]), UnsortE::B => MV::Enum(1, vec![]), UnsortE::C { x: x0, y: x1 } => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]), UnsortE::D(x0) => MV::Enum(3, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ZOnly { pub a: ZTok }
impl Model for ZOnly { const NAME: &'static str = "ZOnly"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ZOnly", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); ZOnly { a: <ZTok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Zs { pub a: ZTok, pub b: ZTok, pub t: Tok, pub c: ZTok, pub u: (), pub v: (), pub w: ZOnly, pub x: ZOnly, pub y: u8 }
impl Model for Zs { const NAME: &'static str = "Zs"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "t", wire: "t", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u", wire: "u", ty: || <() as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <() as Model>::FNS, default: None, sensitive: false }, FieldD { name: "w", wire: "w", ty: || <ZOnly as Model>::FNS, default: None, sensitive: false }, FieldD { name: "x", wire: "x", ty: || <ZOnly as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <u8 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Zs", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Zs { a: <ZTok as Model>::arb(r, d), b: <ZTok as Model>::arb(r, d), t: <Tok as Model>::arb(r, d), c: <ZTok as Model>::arb(r, d), u: <() as Model>::arb(r, d), v: <() as Model>::arb(r, d), w: <ZOnly as Model>::arb(r, d), x: <ZOnly as Model>::arb(r, d), y: <u8 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.t.to_mv(), self.c.to_mv(), self.u.to_mv(), self.v.to_mv(), self.w.to_mv(), self.x.to_mv(), self.y.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ZTup(pub ZTok, pub ZTok, pub ZTok);
impl Model for ZTup { const NAME: &'static str = "ZTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ZTup", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { ZTup(<ZTok as Model>::arb(r, d), <ZTok as Model>::arb(r, d), <ZTok as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv(), self.1.to_mv(), self.2.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ZNest { pub x: ZOnly, pub o: Option<ZTok>, pub l: Vec<ZTok>, pub m: HashMap<u8, ZTok>, pub n: Vec<ZTup>, pub p: ZTup, pub q: Option<ZOnly>, pub r: BTreeMap<u8, ZTup> }
impl Model for ZNest { const NAME: &'static str = "ZNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <ZOnly as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<ZTok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "l", wire: "l", ty: || <Vec<ZTok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "m", wire: "m", ty: || <HashMap<u8, ZTok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <Vec<ZTup> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "p", wire: "p", ty: || <ZTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "q", wire: "q", ty: || <Option<ZOnly> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "r", wire: "r", ty: || <BTreeMap<u8, ZTup> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ZNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); ZNest { x: <ZOnly as Model>::arb(r, d), o: <Option<ZTok> as Model>::arb(r, d), l: <Vec<ZTok> as Model>::arb(r, d), m: <HashMap<u8, ZTok> as Model>::arb(r, d), n: <Vec<ZTup> as Model>::arb(r, d), p: <ZTup as Model>::arb(r, d), q: <Option<ZOnly> as Model>::arb(r, d), r: <BTreeMap<u8, ZTup> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.o.to_mv(), self.l.to_mv(), self.m.to_mv(), self.n.to_mv(), self.p.to_mv(), self.q.to_mv(), self.r.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum ZE { A(ZTok) , B { a: ZTok, b: ZTok } , C(ZTok, Tok, ZTok) , D(ZTup, ZTup) , E  }
impl Model for ZE { const NAME: &'static str = "ZE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "ZE", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 2, fields: &[FieldD { name: "a", wire: "a", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <ZTok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "D", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <ZTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <ZTup as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "E", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(5) { 0 => ZE::A(<ZTok as Model>::arb(r, d)), 1 => ZE::B { a: <ZTok as Model>::arb(r, d), b: <ZTok as Model>::arb(r, d) }, 2 => ZE::C(<ZTok as Model>::arb(r, d), <Tok as Model>::arb(r, d), <ZTok as Model>::arb(r, d)), 3 => ZE::D(<ZTup as Model>::arb(r, d), <ZTup as Model>::arb(r, d)), _ => ZE::E } }
fn to_mv(&self) -> MV { match self { ZE::A(x0) => MV::Enum(0, vec![x0.to_mv()]), ZE::B { a: x0, b: x1 } => MV::Enum(1, vec![x0.to_mv(), x1.to_mv()]), ZE::C(x0, x1, x2) => MV::Enum(2, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]), ZE::D(x0, x1) => MV::Enum(3, vec![x0.to_mv(), x1.to_mv()]), ZE::E => MV::Enum(4, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(C, u8)] pub enum CU8 { A , B(u64, Tok) , C { x: u8, y: Tok }  }
impl Model for CU8 { const NAME: &'static str = "CU8";
fn kind() -> Kind { static D: EnumD = EnumD { name: "CU8", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => CU8::A, 1 => CU8::B(<u64 as Model>::arb(r, d), <Tok as Model>::arb(r, d)), _ => CU8::C { x: <u8 as Model>::arb(r, d), y: <Tok as Model>::arb(r, d) } } }
fn to_mv(&self) -> MV { match self { CU8::A => MV::Enum(0, vec![]), CU8::B(x0, x1) => MV::Enum(1, vec![x0.to_mv(), x1.to_mv()]), CU8::C { x: x0, y: x1 } => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(C, i16)] pub enum CI16 { A(Tok) , B(u64) , C  }
impl Model for CI16 { const NAME: &'static str = "CI16";
fn kind() -> Kind { static D: EnumD = EnumD { name: "CI16", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Tok as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(3) { 0 => CI16::A(<Tok as Model>::arb(r, d)), 1 => CI16::B(<u64 as Model>::arb(r, d)), _ => CI16::C } }
fn to_mv(&self) -> MV { match self { CI16::A(x0) => MV::Enum(0, vec![x0.to_mv()]), CI16::B(x0) => MV::Enum(1, vec![x0.to_mv()]), CI16::C => MV::Enum(2, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct AllE { pub a: R16, pub b: R32, pub c: R64, pub d: I8E, pub e: I32E, pub f: UsE, pub g: CU8, pub i: CI16, pub j: Vec<CU8>, pub k: Option<R64> }
impl Model for AllE { const NAME: &'static str = "AllE"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <R16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <R32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <R64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <I8E as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <I32E as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <UsE as Model>::FNS, default: None, sensitive: false }, FieldD { name: "g", wire: "g", ty: || <CU8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <CI16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "j", wire: "j", ty: || <Vec<CU8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k", wire: "k", ty: || <Option<R64> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "AllE", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); AllE { a: <R16 as Model>::arb(r, d), b: <R32 as Model>::arb(r, d), c: <R64 as Model>::arb(r, d), d: <I8E as Model>::arb(r, d), e: <I32E as Model>::arb(r, d), f: <UsE as Model>::arb(r, d), g: <CU8 as Model>::arb(r, d), i: <CI16 as Model>::arb(r, d), j: <Vec<CU8> as Model>::arb(r, d), k: <Option<R64> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv(), self.g.to_mv(), self.i.to_mv(), self.j.to_mv(), self.k.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct HasEnums { pub u: UnitE, pub d: DataE, pub list: Vec<UnitE>, pub o: Option<DataE> }
impl Model for HasEnums { const NAME: &'static str = "HasEnums"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "u", wire: "u", ty: || <UnitE as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <DataE as Model>::FNS, default: None, sensitive: false }, FieldD { name: "list", wire: "list", ty: || <Vec<UnitE> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<DataE> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "HasEnums", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); HasEnums { u: <UnitE as Model>::arb(r, d), d: <DataE as Model>::arb(r, d), list: <Vec<UnitE> as Model>::arb(r, d), o: <Option<DataE> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.u.to_mv(), self.d.to_mv(), self.list.to_mv(), self.o.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct EnumMaps { pub m: HashMap<String, DataE>, pub v: Vec<DataE> }
impl Model for EnumMaps { const NAME: &'static str = "EnumMaps"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "m", wire: "m", ty: || <HashMap<String, DataE> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<DataE> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "EnumMaps", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); EnumMaps { m: <HashMap<String, DataE> as Model>::arb(r, d), v: <Vec<DataE> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.m.to_mv(), self.v.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Secrets { pub user: String, #[facet(sensitive)] pub password: String, #[facet(sensitive)] pub codes: Vec<u32>, pub nested: SecretIn, pub o: Option<SecretIn>, pub list: Vec<SecretIn>, pub e: SecretE, pub m: HashMap<String, SecretIn> }
impl Model for Secrets { const NAME: &'static str = "Secrets"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "user", wire: "user", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "password", wire: "password", ty: || <String as Model>::FNS, default: None, sensitive: true }, FieldD { name: "codes", wire: "codes", ty: || <Vec<u32> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "nested", wire: "nested", ty: || <SecretIn as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<SecretIn> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "list", wire: "list", ty: || <Vec<SecretIn> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <SecretE as Model>::FNS, default: None, sensitive: false }, FieldD { name: "m", wire: "m", ty: || <HashMap<String, SecretIn> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Secrets", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Secrets { user: <String as Model>::arb(r, d), password: <String as Model>::arb(&mut secret(r), d), codes: <Vec<u32> as Model>::arb(&mut secret(r), d), nested: <SecretIn as Model>::arb(r, d), o: <Option<SecretIn> as Model>::arb(r, d), list: <Vec<SecretIn> as Model>::arb(r, d), e: <SecretE as Model>::arb(r, d), m: <HashMap<String, SecretIn> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.user.to_mv(), self.password.to_mv(), self.codes.to_mv(), self.nested.to_mv(), self.o.to_mv(), self.list.to_mv(), self.e.to_mv(), self.m.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct SecretIn { #[facet(sensitive)] pub key: String, pub id: u32, #[facet(sensitive)] pub opt: Option<String>, #[facet(sensitive)] pub deep: Flat }
impl Model for SecretIn { const NAME: &'static str = "SecretIn"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "key", wire: "key", ty: || <String as Model>::FNS, default: None, sensitive: true }, FieldD { name: "id", wire: "id", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "opt", wire: "opt", ty: || <Option<String> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "deep", wire: "deep", ty: || <Flat as Model>::FNS, default: None, sensitive: true }];
static D: StructD = StructD { name: "SecretIn", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); SecretIn { key: <String as Model>::arb(&mut secret(r), d), id: <u32 as Model>::arb(r, d), opt: <Option<String> as Model>::arb(&mut secret(r), d), deep: <Flat as Model>::arb(&mut secret(r), d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.key.to_mv(), self.id.to_mv(), self.opt.to_mv(), self.deep.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum SecretE { None , Tok(#[facet(sensitive)] String) , Pair(u32, #[facet(sensitive)] String) , Named { user: String, #[facet(sensitive)] pass: String, #[facet(sensitive)] more: Flat }  }
impl Model for SecretE { const NAME: &'static str = "SecretE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "SecretE", variants: &[VariantD { name: "None", kind: 0, fields: &[] }, VariantD { name: "Tok", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <String as Model>::FNS, default: None, sensitive: true }] }, VariantD { name: "Pair", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <String as Model>::FNS, default: None, sensitive: true }] }, VariantD { name: "Named", kind: 2, fields: &[FieldD { name: "user", wire: "user", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "pass", wire: "pass", ty: || <String as Model>::FNS, default: None, sensitive: true }, FieldD { name: "more", wire: "more", ty: || <Flat as Model>::FNS, default: None, sensitive: true }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(4) { 0 => SecretE::None, 1 => SecretE::Tok(<String as Model>::arb(&mut secret(r), d)), 2 => SecretE::Pair(<u32 as Model>::arb(r, d), <String as Model>::arb(&mut secret(r), d)), _ => SecretE::Named { user: <String as Model>::arb(r, d), pass: <String as Model>::arb(&mut secret(r), d), more: <Flat as Model>::arb(&mut secret(r), d) } } }
fn to_mv(&self) -> MV { match self { SecretE::None => MV::Enum(0, vec![]), SecretE::Tok(x0) => MV::Enum(1, vec![x0.to_mv()]), SecretE::Pair(x0, x1) => MV::Enum(2, vec![x0.to_mv(), x1.to_mv()]), SecretE::Named { user: x0, pass: x1, more: x2 } => MV::Enum(3, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct SecretTup(pub u32, #[facet(sensitive)] pub String, #[facet(sensitive)] pub Flat);
impl Model for SecretTup { const NAME: &'static str = "SecretTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <String as Model>::FNS, default: None, sensitive: true }, FieldD { name: "2", wire: "2", ty: || <Flat as Model>::FNS, default: None, sensitive: true }];
static D: StructD = StructD { name: "SecretTup", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { SecretTup(<u32 as Model>::arb(r, d), <String as Model>::arb(&mut secret(r), d), <Flat as Model>::arb(&mut secret(r), d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv(), self.1.to_mv(), self.2.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgTop { pub n: Nested, pub id: u32, pub big: u64, pub small: u8, pub s: String, pub us: usize, pub h: u16 }
impl Model for MsgTop { const NAME: &'static str = "MsgTop"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "n", wire: "n", ty: || <Nested as Model>::FNS, default: None, sensitive: false }, FieldD { name: "id", wire: "id", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "big", wire: "big", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "small", wire: "small", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "s", wire: "s", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "us", wire: "us", ty: || <usize as Model>::FNS, default: None, sensitive: false }, FieldD { name: "h", wire: "h", ty: || <u16 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgTop", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); MsgTop { n: <Nested as Model>::arb(r, d), id: <u32 as Model>::arb(r, d), big: <u64 as Model>::arb(r, d), small: <u8 as Model>::arb(r, d), s: <String as Model>::arb(r, d), us: <usize as Model>::arb(r, d), h: <u16 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.n.to_mv(), self.id.to_mv(), self.big.to_mv(), self.small.to_mv(), self.s.to_mv(), self.us.to_mv(), self.h.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Big { pub flat: Flat, pub nums: Nums, pub inums: INums, pub opts: Opts, pub lists: Lists, pub maps: Maps, pub structs: ListOfStructs, pub mixed: Mixed }
impl Model for Big { const NAME: &'static str = "Big"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "flat", wire: "flat", ty: || <Flat as Model>::FNS, default: None, sensitive: false }, FieldD { name: "nums", wire: "nums", ty: || <Nums as Model>::FNS, default: None, sensitive: false }, FieldD { name: "inums", wire: "inums", ty: || <INums as Model>::FNS, default: None, sensitive: false }, FieldD { name: "opts", wire: "opts", ty: || <Opts as Model>::FNS, default: None, sensitive: false }, FieldD { name: "lists", wire: "lists", ty: || <Lists as Model>::FNS, default: None, sensitive: false }, FieldD { name: "maps", wire: "maps", ty: || <Maps as Model>::FNS, default: None, sensitive: false }, FieldD { name: "structs", wire: "structs", ty: || <ListOfStructs as Model>::FNS, default: None, sensitive: false }, FieldD { name: "mixed", wire: "mixed", ty: || <Mixed as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Big", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Big { flat: <Flat as Model>::arb(r, d), nums: <Nums as Model>::arb(r, d), inums: <INums as Model>::arb(r, d), opts: <Opts as Model>::arb(r, d), lists: <Lists as Model>::arb(r, d), maps: <Maps as Model>::arb(r, d), structs: <ListOfStructs as Model>::arb(r, d), mixed: <Mixed as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.flat.to_mv(), self.nums.to_mv(), self.inums.to_mv(), self.opts.to_mv(), self.lists.to_mv(), self.maps.to_mv(), self.structs.to_mv(), self.mixed.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(default)]  pub struct DefsWhole { pub a: u32, #[facet(default = "def_u9")] pub b: u32, #[facet(default)] pub c: String, pub d: Option<Flat>, #[facet(default)] pub e: Vec<String> }
impl Default for DefsWhole { fn default() -> Self { DefsWhole { a: 77, b: 78, c: "from the struct".to_string(), d: Some(Flat { a: 5, b: "whole".to_string() }), e: vec!["w".to_string()] } } }
impl Model for DefsWhole { const NAME: &'static str = "DefsWhole"; const DEFAULT: Option<fn() -> MV> = Some(|| <DefsWhole as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <u32 as Model>::FNS, default: Some(|| <u32 as Model>::to_mv(&def_u9())), sensitive: false }, FieldD { name: "c", wire: "c", ty: || <String as Model>::FNS, default: Some(|| <String as Model>::to_mv(&<String as Default>::default())), sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Option<Flat> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<String> as Model>::FNS, default: Some(|| <Vec<String> as Model>::to_mv(&<Vec<String> as Default>::default())), sensitive: false }];
static D: StructD = StructD { name: "DefsWhole", tuple: false, fields: F, deny: false, default: Some(|| <DefsWhole as Default>::default().to_mv()), invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); DefsWhole { a: <u32 as Model>::arb(r, d), b: <u32 as Model>::arb(r, d), c: <String as Model>::arb(r, d), d: <Option<Flat> as Model>::arb(r, d), e: <Vec<String> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(deny_unknown_fields)] #[facet(default)]  pub struct RenDefDeny { #[facet(rename = "A")] pub a: u32, #[facet(rename = "a")] #[facet(default = "def_string")] pub b: String, #[facet(rename = "b")] #[facet(default)] pub c: Option<u32> }
impl Default for RenDefDeny { fn default() -> Self { RenDefDeny { a: 11, b: "dd".to_string(), c: None } } }
impl Model for RenDefDeny { const NAME: &'static str = "RenDefDeny"; const DEFAULT: Option<fn() -> MV> = Some(|| <RenDefDeny as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "A", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "a", ty: || <String as Model>::FNS, default: Some(|| <String as Model>::to_mv(&def_string())), sensitive: false }, FieldD { name: "c", wire: "b", ty: || <Option<u32> as Model>::FNS, default: Some(|| <Option<u32> as Model>::to_mv(&<Option<u32> as Default>::default())), sensitive: false }];
static D: StructD = StructD { name: "RenDefDeny", tuple: false, fields: F, deny: true, default: Some(|| <RenDefDeny as Default>::default().to_mv()), invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); RenDefDeny { a: <u32 as Model>::arb(r, d), b: <String as Model>::arb(r, d), c: <Option<u32> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct DefNest { #[facet(default)] pub x: Defs2, #[facet(default = "def_flat")] pub f: Flat, pub l: Vec<Defs2>, #[facet(default)] pub o: Option<Defs2>, pub z: Defs2 }
impl Model for DefNest { const NAME: &'static str = "DefNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <Defs2 as Model>::FNS, default: Some(|| <Defs2 as Model>::to_mv(&<Defs2 as Default>::default())), sensitive: false }, FieldD { name: "f", wire: "f", ty: || <Flat as Model>::FNS, default: Some(|| <Flat as Model>::to_mv(&def_flat())), sensitive: false }, FieldD { name: "l", wire: "l", ty: || <Vec<Defs2> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<Defs2> as Model>::FNS, default: Some(|| <Option<Defs2> as Model>::to_mv(&<Option<Defs2> as Default>::default())), sensitive: false }, FieldD { name: "z", wire: "z", ty: || <Defs2 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "DefNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); DefNest { x: <Defs2 as Model>::arb(r, d), f: <Flat as Model>::arb(r, d), l: <Vec<Defs2> as Model>::arb(r, d), o: <Option<Defs2> as Model>::arb(r, d), z: <Defs2 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.f.to_mv(), self.l.to_mv(), self.o.to_mv(), self.z.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Default)]  pub struct DfltPlain { pub a: u32, pub s: String, pub o: Option<u8>, pub v: Vec<u8>, pub i: DfltIn, #[facet(default)] pub d: DfltIn }
impl Model for DfltPlain { const NAME: &'static str = "DfltPlain"; const DEFAULT: Option<fn() -> MV> = Some(|| <DfltPlain as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "s", wire: "s", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<u8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<u8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <DfltIn as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <DfltIn as Model>::FNS, default: Some(|| <DfltIn as Model>::to_mv(&<DfltIn as Default>::default())), sensitive: false }];
static D: StructD = StructD { name: "DfltPlain", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); DfltPlain { a: <u32 as Model>::arb(r, d), s: <String as Model>::arb(r, d), o: <Option<u8> as Model>::arb(r, d), v: <Vec<u8> as Model>::arb(r, d), i: <DfltIn as Model>::arb(r, d), d: <DfltIn as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.s.to_mv(), self.o.to_mv(), self.v.to_mv(), self.i.to_mv(), self.d.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Default)]  pub struct DfltIn { pub x: u16, pub b: bool }
impl Model for DfltIn { const NAME: &'static str = "DfltIn"; const DEFAULT: Option<fn() -> MV> = Some(|| <DfltIn as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <bool as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "DfltIn", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); DfltIn { x: <u16 as Model>::arb(r, d), b: <bool as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.b.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Default)]  pub struct Defs2 { #[facet(default)] pub a: u32, #[facet(default = "def_u9")] pub b: u32 }
impl Model for Defs2 { const NAME: &'static str = "Defs2"; const DEFAULT: Option<fn() -> MV> = Some(|| <Defs2 as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: Some(|| <u32 as Model>::to_mv(&<u32 as Default>::default())), sensitive: false }, FieldD { name: "b", wire: "b", ty: || <u32 as Model>::FNS, default: Some(|| <u32 as Model>::to_mv(&def_u9())), sensitive: false }];
static D: StructD = StructD { name: "Defs2", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Defs2 { a: <u32 as Model>::arb(r, d), b: <u32 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct OptRen { #[facet(rename = "inner")] pub a: Option<Renamed>, #[facet(rename = "list \"q\"")] pub b: Vec<Swapped>, #[facet(rename = "a")] pub c: Option<u32> }
impl Model for OptRen { const NAME: &'static str = "OptRen"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "inner", ty: || <Option<Renamed> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "list \"q\"", ty: || <Vec<Swapped> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "a", ty: || <Option<u32> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "OptRen", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); OptRen { a: <Option<Renamed> as Model>::arb(r, d), b: <Vec<Swapped> as Model>::arb(r, d), c: <Option<u32> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(default)] #[facet(invariants = "inv_range")]  pub struct InvDef { pub lo: u32, pub hi: u32, pub s: String }
impl Default for InvDef { fn default() -> Self { InvDef { lo: 1000, hi: 2000, s: "inv default".to_string() } } }
impl InvDef { fn inv_range(&self) -> bool { self.lo <= self.hi } }
impl Model for InvDef { const NAME: &'static str = "InvDef"; const DEFAULT: Option<fn() -> MV> = Some(|| <InvDef as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "lo", wire: "lo", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "hi", wire: "hi", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "s", wire: "s", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "InvDef", tuple: false, fields: F, deny: false, default: Some(|| <InvDef as Default>::default().to_mv()), invariant: Some(inv_mv) }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let (a, b) = (u32::arb(r, d), u32::arb(r, d)); InvDef { lo: a.min(b), hi: a.max(b), s: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.lo.to_mv(), self.hi.to_mv(), self.s.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokIn { pub x: Tok, #[facet(default)] pub y: Tok, pub s: String }
impl Model for TokIn { const NAME: &'static str = "TokIn"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Tok as Model>::FNS, default: Some(|| <Tok as Model>::to_mv(&<Tok as Default>::default())), sensitive: false }, FieldD { name: "s", wire: "s", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokIn", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokIn { x: <Tok as Model>::arb(r, d), y: <Tok as Model>::arb(r, d), s: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.y.to_mv(), self.s.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokJ { pub a: Tok, pub o: Option<Tok>, pub v: Vec<Tok>, pub n: TokIn, pub l: Vec<TokIn>, #[facet(default)] pub d: Option<Tok>, #[facet(default = "def_tok")] pub e: Tok, #[facet(default = "def_toks")] pub w: Vec<Tok>, pub oo: Option<TokIn>, pub lo: Vec<Option<Tok>> }
impl Model for TokJ { const NAME: &'static str = "TokJ"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <TokIn as Model>::FNS, default: None, sensitive: false }, FieldD { name: "l", wire: "l", ty: || <Vec<TokIn> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Option<Tok> as Model>::FNS, default: Some(|| <Option<Tok> as Model>::to_mv(&<Option<Tok> as Default>::default())), sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Tok as Model>::FNS, default: Some(|| <Tok as Model>::to_mv(&def_tok())), sensitive: false }, FieldD { name: "w", wire: "w", ty: || <Vec<Tok> as Model>::FNS, default: Some(|| <Vec<Tok> as Model>::to_mv(&def_toks())), sensitive: false }, FieldD { name: "oo", wire: "oo", ty: || <Option<TokIn> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "lo", wire: "lo", ty: || <Vec<Option<Tok>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokJ", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokJ { a: <Tok as Model>::arb(r, d), o: <Option<Tok> as Model>::arb(r, d), v: <Vec<Tok> as Model>::arb(r, d), n: <TokIn as Model>::arb(r, d), l: <Vec<TokIn> as Model>::arb(r, d), d: <Option<Tok> as Model>::arb(r, d), e: <Tok as Model>::arb(r, d), w: <Vec<Tok> as Model>::arb(r, d), oo: <Option<TokIn> as Model>::arb(r, d), lo: <Vec<Option<Tok>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.o.to_mv(), self.v.to_mv(), self.n.to_mv(), self.l.to_mv(), self.d.to_mv(), self.e.to_mv(), self.w.to_mv(), self.oo.to_mv(), self.lo.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(deny_unknown_fields)]  pub struct TokDeny { pub a: Tok, pub n: Option<TokIn>, pub v: Vec<TokIn> }
impl Model for TokDeny { const NAME: &'static str = "TokDeny"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <Option<TokIn> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<TokIn> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokDeny", tuple: false, fields: F, deny: true, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokDeny { a: <Tok as Model>::arb(r, d), n: <Option<TokIn> as Model>::arb(r, d), v: <Vec<TokIn> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.n.to_mv(), self.v.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(default)]  pub struct TokWhole { pub a: Tok, pub b: Tok, pub v: Vec<Tok> }
impl Default for TokWhole { fn default() -> Self { TokWhole { a: Tok::new(1), b: Tok::new(2), v: vec![Tok::new(3), Tok::new(4)] } } }
impl Model for TokWhole { const NAME: &'static str = "TokWhole"; const DEFAULT: Option<fn() -> MV> = Some(|| <TokWhole as Default>::default().to_mv());
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<Tok> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokWhole", tuple: false, fields: F, deny: false, default: Some(|| <TokWhole as Default>::default().to_mv()), invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokWhole { a: <Tok as Model>::arb(r, d), b: <Tok as Model>::arb(r, d), v: <Vec<Tok> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.v.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)] #[facet(invariants = "inv_range")]  pub struct TokInv { pub lo: u32, pub hi: u32, pub t: Tok }
impl TokInv { fn inv_range(&self) -> bool { self.lo <= self.hi } }
impl Model for TokInv { const NAME: &'static str = "TokInv"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "lo", wire: "lo", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "hi", wire: "hi", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "t", wire: "t", ty: || <Tok as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokInv", tuple: false, fields: F, deny: false, default: None, invariant: Some(inv_mv) }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let (a, b) = (u32::arb(r, d), u32::arb(r, d)); TokInv { lo: a.min(b), hi: a.max(b), t: <Tok as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.lo.to_mv(), self.hi.to_mv(), self.t.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokHold { pub t: Tok, pub i: TokInv, pub w: TokWhole, pub l: Vec<TokInv>, pub d: Vec<TokDeny> }
impl Model for TokHold { const NAME: &'static str = "TokHold"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "t", wire: "t", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <TokInv as Model>::FNS, default: None, sensitive: false }, FieldD { name: "w", wire: "w", ty: || <TokWhole as Model>::FNS, default: None, sensitive: false }, FieldD { name: "l", wire: "l", ty: || <Vec<TokInv> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Vec<TokDeny> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokHold", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TokHold { t: <Tok as Model>::arb(r, d), i: <TokInv as Model>::arb(r, d), w: <TokWhole as Model>::arb(r, d), l: <Vec<TokInv> as Model>::arb(r, d), d: <Vec<TokDeny> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.t.to_mv(), self.i.to_mv(), self.w.to_mv(), self.l.to_mv(), self.d.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TokTree { pub t: Tok, pub kids: Vec<TokTree> }
impl Model for TokTree { const NAME: &'static str = "TokTree"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "t", wire: "t", ty: || <Tok as Model>::FNS, default: None, sensitive: false }, FieldD { name: "kids", wire: "kids", ty: || <Vec<TokTree> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TokTree", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { if d == 0 { return TokTree { t: <Tok as Model>::arb(r, 0), kids: Default::default() } } TokTree { t: <Tok as Model>::arb(r, d.saturating_sub(1)), kids: <Vec<TokTree> as Model>::arb(r, d.saturating_sub(1)) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.t.to_mv(), self.kids.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]  #[repr(u8)] pub enum UnitKey { A , B  }
impl Model for UnitKey { const NAME: &'static str = "UnitKey";
fn kind() -> Kind { static D: EnumD = EnumD { name: "UnitKey", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "B", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(2) { 0 => UnitKey::A, _ => UnitKey::B } }
fn to_mv(&self) -> MV { match self { UnitKey::A => MV::Enum(0, vec![]), UnitKey::B => MV::Enum(1, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgInts { pub a: i8, pub b: i16, pub c: i32, pub d: i64, pub e: u8, pub f: u16, pub g: u32, pub h: u64, pub i: bool, pub s: String }
impl Model for MsgInts { const NAME: &'static str = "MsgInts"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <i8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <i16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <i32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <u16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "g", wire: "g", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "h", wire: "h", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "s", wire: "s", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgInts", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); MsgInts { a: <i8 as Model>::arb(r, d), b: <i16 as Model>::arb(r, d), c: <i32 as Model>::arb(r, d), d: <i64 as Model>::arb(r, d), e: <u8 as Model>::arb(r, d), f: <u16 as Model>::arb(r, d), g: <u32 as Model>::arb(r, d), h: <u64 as Model>::arb(r, d), i: <bool as Model>::arb(r, d), s: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv(), self.g.to_mv(), self.h.to_mv(), self.i.to_mv(), self.s.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgNest { pub x: MsgInts, pub y: Flat, pub n: Nested, pub z: bool, pub w: MsgInts }
impl Model for MsgNest { const NAME: &'static str = "MsgNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "x", wire: "x", ty: || <MsgInts as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Flat as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <Nested as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "w", wire: "w", ty: || <MsgInts as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); MsgNest { x: <MsgInts as Model>::arb(r, d), y: <Flat as Model>::arb(r, d), n: <Nested as Model>::arb(r, d), z: <bool as Model>::arb(r, d), w: <MsgInts as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.x.to_mv(), self.y.to_mv(), self.n.to_mv(), self.z.to_mv(), self.w.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgMany { pub k0: u8, pub k1: i16, pub k2: String, pub k3: bool, pub k4: u64, pub k5: i64, pub k6: u8, pub k7: i16, pub k8: String, pub k9: bool, pub k10: u64, pub k11: i64, pub k12: u8, pub k13: i16, pub k14: String, pub k15: bool, pub k16: u64, pub k17: i64, pub k18: u8, pub k19: i16 }
impl Model for MsgMany { const NAME: &'static str = "MsgMany"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "k0", wire: "k0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k1", wire: "k1", ty: || <i16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k2", wire: "k2", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k3", wire: "k3", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k4", wire: "k4", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k5", wire: "k5", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k6", wire: "k6", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k7", wire: "k7", ty: || <i16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k8", wire: "k8", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k9", wire: "k9", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k10", wire: "k10", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k11", wire: "k11", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k12", wire: "k12", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k13", wire: "k13", ty: || <i16 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k14", wire: "k14", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k15", wire: "k15", ty: || <bool as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k16", wire: "k16", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k17", wire: "k17", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k18", wire: "k18", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k19", wire: "k19", ty: || <i16 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgMany", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); MsgMany { k0: <u8 as Model>::arb(r, d), k1: <i16 as Model>::arb(r, d), k2: <String as Model>::arb(r, d), k3: <bool as Model>::arb(r, d), k4: <u64 as Model>::arb(r, d), k5: <i64 as Model>::arb(r, d), k6: <u8 as Model>::arb(r, d), k7: <i16 as Model>::arb(r, d), k8: <String as Model>::arb(r, d), k9: <bool as Model>::arb(r, d), k10: <u64 as Model>::arb(r, d), k11: <i64 as Model>::arb(r, d), k12: <u8 as Model>::arb(r, d), k13: <i16 as Model>::arb(r, d), k14: <String as Model>::arb(r, d), k15: <bool as Model>::arb(r, d), k16: <u64 as Model>::arb(r, d), k17: <i64 as Model>::arb(r, d), k18: <u8 as Model>::arb(r, d), k19: <i16 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.k0.to_mv(), self.k1.to_mv(), self.k2.to_mv(), self.k3.to_mv(), self.k4.to_mv(), self.k5.to_mv(), self.k6.to_mv(), self.k7.to_mv(), self.k8.to_mv(), self.k9.to_mv(), self.k10.to_mv(), self.k11.to_mv(), self.k12.to_mv(), self.k13.to_mv(), self.k14.to_mv(), self.k15.to_mv(), self.k16.to_mv(), self.k17.to_mv(), self.k18.to_mv(), self.k19.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgLongNames { pub a_field_name_of_exactly_thirty_two_b: u8, pub b: u8, pub a_field_name_which_is_rather_a_lot_longer_than_thirty_one_bytes: String }
impl Model for MsgLongNames { const NAME: &'static str = "MsgLongNames"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a_field_name_of_exactly_thirty_two_b", wire: "a_field_name_of_exactly_thirty_two_b", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "a_field_name_which_is_rather_a_lot_longer_than_thirty_one_bytes", wire: "a_field_name_which_is_rather_a_lot_longer_than_thirty_one_bytes", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgLongNames", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); MsgLongNames { a_field_name_of_exactly_thirty_two_b: <u8 as Model>::arb(r, d), b: <u8 as Model>::arb(r, d), a_field_name_which_is_rather_a_lot_longer_than_thirty_one_bytes: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a_field_name_of_exactly_thirty_two_b.to_mv(), self.b.to_mv(), self.a_field_name_which_is_rather_a_lot_longer_than_thirty_one_bytes.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgTup(pub u8, pub String, pub i64);
impl Model for MsgTup { const NAME: &'static str = "MsgTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <i64 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgTup", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { MsgTup(<u8 as Model>::arb(r, d), <String as Model>::arb(r, d), <i64 as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv(), self.1.to_mv(), self.2.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct MsgHasTup { pub t: MsgTup, pub e: EmptyS, pub l: MsgLongNames }
impl Model for MsgHasTup { const NAME: &'static str = "MsgHasTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "t", wire: "t", ty: || <MsgTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <EmptyS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "l", wire: "l", ty: || <MsgLongNames as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "MsgHasTup", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); MsgHasTup { t: <MsgTup as Model>::arb(r, d), e: <EmptyS as Model>::arb(r, d), l: <MsgLongNames as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.t.to_mv(), self.e.to_mv(), self.l.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct SecretKinds { #[facet(sensitive)] pub n: u64, #[facet(sensitive)] pub f: f64, #[facet(sensitive)] pub b: bool, #[facet(sensitive)] pub oo: Option<Option<String>>, #[facet(sensitive)] pub vv: Vec<Vec<String>>, #[facet(sensitive)] pub by: Vec<u8>, #[facet(sensitive)] pub m: HashMap<String, u32>, #[facet(sensitive)] pub bm: BTreeMap<u32, String>, #[facet(sensitive)] pub e: SecretE, #[facet(sensitive)] pub u: UnitE, #[facet(sensitive)] pub d: DataE, #[facet(sensitive)] pub t: Tup, #[facet(sensitive)] pub c: char, #[facet(sensitive)] pub last: i128 }
impl Model for SecretKinds { const NAME: &'static str = "SecretKinds"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "n", wire: "n", ty: || <u64 as Model>::FNS, default: None, sensitive: true }, FieldD { name: "f", wire: "f", ty: || <f64 as Model>::FNS, default: None, sensitive: true }, FieldD { name: "b", wire: "b", ty: || <bool as Model>::FNS, default: None, sensitive: true }, FieldD { name: "oo", wire: "oo", ty: || <Option<Option<String>> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "vv", wire: "vv", ty: || <Vec<Vec<String>> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "by", wire: "by", ty: || <Vec<u8> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "m", wire: "m", ty: || <HashMap<String, u32> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "bm", wire: "bm", ty: || <BTreeMap<u32, String> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "e", wire: "e", ty: || <SecretE as Model>::FNS, default: None, sensitive: true }, FieldD { name: "u", wire: "u", ty: || <UnitE as Model>::FNS, default: None, sensitive: true }, FieldD { name: "d", wire: "d", ty: || <DataE as Model>::FNS, default: None, sensitive: true }, FieldD { name: "t", wire: "t", ty: || <Tup as Model>::FNS, default: None, sensitive: true }, FieldD { name: "c", wire: "c", ty: || <char as Model>::FNS, default: None, sensitive: true }, FieldD { name: "last", wire: "last", ty: || <i128 as Model>::FNS, default: None, sensitive: true }];
static D: StructD = StructD { name: "SecretKinds", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); SecretKinds { n: <u64 as Model>::arb(&mut secret(r), d), f: <f64 as Model>::arb(&mut secret(r), d), b: <bool as Model>::arb(&mut secret(r), d), oo: <Option<Option<String>> as Model>::arb(&mut secret(r), d), vv: <Vec<Vec<String>> as Model>::arb(&mut secret(r), d), by: <Vec<u8> as Model>::arb(&mut secret(r), d), m: <HashMap<String, u32> as Model>::arb(&mut secret(r), d), bm: <BTreeMap<u32, String> as Model>::arb(&mut secret(r), d), e: <SecretE as Model>::arb(&mut secret(r), d), u: <UnitE as Model>::arb(&mut secret(r), d), d: <DataE as Model>::arb(&mut secret(r), d), t: <Tup as Model>::arb(&mut secret(r), d), c: <char as Model>::arb(&mut secret(r), d), last: <i128 as Model>::arb(&mut secret(r), d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.n.to_mv(), self.f.to_mv(), self.b.to_mv(), self.oo.to_mv(), self.vv.to_mv(), self.by.to_mv(), self.m.to_mv(), self.bm.to_mv(), self.e.to_mv(), self.u.to_mv(), self.d.to_mv(), self.t.to_mv(), self.c.to_mv(), self.last.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct SecretMid { pub a: u32, #[facet(sensitive)] pub b: String, pub c: u32, #[facet(sensitive)] pub d: Vec<SecretIn>, pub e: Vec<u8>, pub f: SecretIn }
impl Model for SecretMid { const NAME: &'static str = "SecretMid"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <String as Model>::FNS, default: None, sensitive: true }, FieldD { name: "c", wire: "c", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Vec<SecretIn> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "e", wire: "e", ty: || <Vec<u8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <SecretIn as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "SecretMid", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); SecretMid { a: <u32 as Model>::arb(r, d), b: <String as Model>::arb(&mut secret(r), d), c: <u32 as Model>::arb(r, d), d: <Vec<SecretIn> as Model>::arb(&mut secret(r), d), e: <Vec<u8> as Model>::arb(r, d), f: <SecretIn as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum SecretE2 { A { #[facet(sensitive)] x: u64, y: u64, #[facet(sensitive)] z: Vec<u8> } , B(#[facet(sensitive)] Vec<String>, #[facet(sensitive)] SecretIn, Vec<SecretE>) , C(#[facet(sensitive)] Option<SecretE>) , D { n: Vec<Option<SecretTup>>, #[facet(sensitive)] m: HashMap<String, u32> } , E(SecretIn) , F  }
impl Model for SecretE2 { const NAME: &'static str = "SecretE2";
fn kind() -> Kind { static D: EnumD = EnumD { name: "SecretE2", variants: &[VariantD { name: "A", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <u64 as Model>::FNS, default: None, sensitive: true }, FieldD { name: "y", wire: "y", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <Vec<u8> as Model>::FNS, default: None, sensitive: true }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Vec<String> as Model>::FNS, default: None, sensitive: true }, FieldD { name: "1", wire: "1", ty: || <SecretIn as Model>::FNS, default: None, sensitive: true }, FieldD { name: "2", wire: "2", ty: || <Vec<SecretE> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Option<SecretE> as Model>::FNS, default: None, sensitive: true }] }, VariantD { name: "D", kind: 2, fields: &[FieldD { name: "n", wire: "n", ty: || <Vec<Option<SecretTup>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "m", wire: "m", ty: || <HashMap<String, u32> as Model>::FNS, default: None, sensitive: true }] }, VariantD { name: "E", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <SecretIn as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "F", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(6) { 0 => SecretE2::A { x: <u64 as Model>::arb(&mut secret(r), d), y: <u64 as Model>::arb(r, d), z: <Vec<u8> as Model>::arb(&mut secret(r), d) }, 1 => SecretE2::B(<Vec<String> as Model>::arb(&mut secret(r), d), <SecretIn as Model>::arb(&mut secret(r), d), <Vec<SecretE> as Model>::arb(r, d)), 2 => SecretE2::C(<Option<SecretE> as Model>::arb(&mut secret(r), d)), 3 => SecretE2::D { n: <Vec<Option<SecretTup>> as Model>::arb(r, d), m: <HashMap<String, u32> as Model>::arb(&mut secret(r), d) }, 4 => SecretE2::E(<SecretIn as Model>::arb(r, d)), _ => SecretE2::F } }
fn to_mv(&self) -> MV { match self { SecretE2::A { x: x0, y: x1, z: x2 } => MV::Enum(0, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]), SecretE2::B(x0, x1, x2) => MV::Enum(1, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]), SecretE2::C(x0) => MV::Enum(2, vec![x0.to_mv()]), SecretE2::D { n: x0, m: x1 } => MV::Enum(3, vec![x0.to_mv(), x1.to_mv()]), SecretE2::E(x0) => MV::Enum(4, vec![x0.to_mv()]), SecretE2::F => MV::Enum(5, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct SecretNest { pub a: Vec<Vec<SecretMid>>, pub b: Option<Option<SecretE2>>, pub c: Vec<Option<SecretIn>>, pub d: HashMap<String, Vec<SecretE>>, pub e: BTreeMap<u32, SecretTup>, pub f: SecretE2, pub g: SecretTup }
impl Model for SecretNest { const NAME: &'static str = "SecretNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Vec<Vec<SecretMid>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Option<Option<SecretE2>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <Vec<Option<SecretIn>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <HashMap<String, Vec<SecretE>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <BTreeMap<u32, SecretTup> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <SecretE2 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "g", wire: "g", ty: || <SecretTup as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "SecretNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); SecretNest { a: <Vec<Vec<SecretMid>> as Model>::arb(r, d), b: <Option<Option<SecretE2>> as Model>::arb(r, d), c: <Vec<Option<SecretIn>> as Model>::arb(r, d), d: <HashMap<String, Vec<SecretE>> as Model>::arb(r, d), e: <BTreeMap<u32, SecretTup> as Model>::arb(r, d), f: <SecretE2 as Model>::arb(r, d), g: <SecretTup as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv(), self.g.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct Bytes { pub a: Vec<u8>, pub b: Vec<Vec<u8>>, pub c: Option<Vec<u8>>, pub d: Vec<i8> }
impl Model for Bytes { const NAME: &'static str = "Bytes"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Vec<u8> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Vec<Vec<u8>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <Option<Vec<u8>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Vec<i8> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "Bytes", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); Bytes { a: <Vec<u8> as Model>::arb(r, d), b: <Vec<Vec<u8>> as Model>::arb(r, d), c: <Option<Vec<u8>> as Model>::arb(r, d), d: <Vec<i8> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ZstNest { pub u: UnitS, pub v: Vec<UnitS>, pub w: Vec<Vec<UnitS>>, pub x: Option<Vec<Vec<Option<UnitS>>>>, pub e: Vec<EmptyS>, pub i: ZstIn }
impl Model for ZstNest { const NAME: &'static str = "ZstNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "u", wire: "u", ty: || <UnitS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<UnitS> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "w", wire: "w", ty: || <Vec<Vec<UnitS>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "x", wire: "x", ty: || <Option<Vec<Vec<Option<UnitS>>>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<EmptyS> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <ZstIn as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ZstNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); ZstNest { u: <UnitS as Model>::arb(r, d), v: <Vec<UnitS> as Model>::arb(r, d), w: <Vec<Vec<UnitS>> as Model>::arb(r, d), x: <Option<Vec<Vec<Option<UnitS>>>> as Model>::arb(r, d), e: <Vec<EmptyS> as Model>::arb(r, d), i: <ZstIn as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.u.to_mv(), self.v.to_mv(), self.w.to_mv(), self.x.to_mv(), self.e.to_mv(), self.i.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct ZstIn { pub u: UnitS, pub v: Vec<UnitS>, pub w: Vec<Vec<Vec<EmptyS>>>, pub z: Vec<()> }
impl Model for ZstIn { const NAME: &'static str = "ZstIn"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "u", wire: "u", ty: || <UnitS as Model>::FNS, default: None, sensitive: false }, FieldD { name: "v", wire: "v", ty: || <Vec<UnitS> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "w", wire: "w", ty: || <Vec<Vec<Vec<EmptyS>>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <Vec<()> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "ZstIn", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); ZstIn { u: <UnitS as Model>::arb(r, d), v: <Vec<UnitS> as Model>::arb(r, d), w: <Vec<Vec<Vec<EmptyS>>> as Model>::arb(r, d), z: <Vec<()> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.u.to_mv(), self.v.to_mv(), self.w.to_mv(), self.z.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TEnumNest { pub a: Option<DataE>, pub b: Vec<DataE>, pub c: HashMap<String, UnitE>, pub d: TE2, pub e: Vec<Option<TE2>>, pub f: Option<Option<TE2>> }
impl Model for TEnumNest { const NAME: &'static str = "TEnumNest"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <Option<DataE> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <Vec<DataE> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <HashMap<String, UnitE> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <TE2 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<Option<TE2>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "f", wire: "f", ty: || <Option<Option<TE2>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TEnumNest", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TEnumNest { a: <Option<DataE> as Model>::arb(r, d), b: <Vec<DataE> as Model>::arb(r, d), c: <HashMap<String, UnitE> as Model>::arb(r, d), d: <TE2 as Model>::arb(r, d), e: <Vec<Option<TE2>> as Model>::arb(r, d), f: <Option<Option<TE2>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv(), self.f.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum TE2 { A , N(New) , M { m: HashMap<String, u32> } , O(Option<u32>) , V(Vec<Flat>) , T(u8, Option<String>, Flat) , S(String) , F { only: Flat } , B(bool) , P { x: Option<u32>, y: Option<Vec<u8>>, z: i8 } , U(UnitE) , Q(Vec<TE2>)  }
impl Model for TE2 { const NAME: &'static str = "TE2";
fn kind() -> Kind { static D: EnumD = EnumD { name: "TE2", variants: &[VariantD { name: "A", kind: 0, fields: &[] }, VariantD { name: "N", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <New as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "M", kind: 2, fields: &[FieldD { name: "m", wire: "m", ty: || <HashMap<String, u32> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "O", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Option<u32> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "V", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Vec<Flat> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "T", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <Option<String> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <Flat as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "S", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <String as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "F", kind: 2, fields: &[FieldD { name: "only", wire: "only", ty: || <Flat as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <bool as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "P", kind: 2, fields: &[FieldD { name: "x", wire: "x", ty: || <Option<u32> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Option<Vec<u8>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <i8 as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "U", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <UnitE as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "Q", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Vec<TE2> as Model>::FNS, default: None, sensitive: false }] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(12) { 0 => TE2::A, 1 => TE2::N(<New as Model>::arb(r, d)), 2 => TE2::M { m: <HashMap<String, u32> as Model>::arb(r, d) }, 3 => TE2::O(<Option<u32> as Model>::arb(r, d)), 4 => TE2::V(<Vec<Flat> as Model>::arb(r, d)), 5 => TE2::T(<u8 as Model>::arb(r, d), <Option<String> as Model>::arb(r, d), <Flat as Model>::arb(r, d)), 6 => TE2::S(<String as Model>::arb(r, d)), 7 => TE2::F { only: <Flat as Model>::arb(r, d) }, 8 => TE2::B(<bool as Model>::arb(r, d)), 9 => TE2::P { x: <Option<u32> as Model>::arb(r, d), y: <Option<Vec<u8>> as Model>::arb(r, d), z: <i8 as Model>::arb(r, d) }, 10 => TE2::U(<UnitE as Model>::arb(r, d)), _ => TE2::Q(<Vec<TE2> as Model>::arb(r, d)) } }
fn to_mv(&self) -> MV { match self { TE2::A => MV::Enum(0, vec![]), TE2::N(x0) => MV::Enum(1, vec![x0.to_mv()]), TE2::M { m: x0 } => MV::Enum(2, vec![x0.to_mv()]), TE2::O(x0) => MV::Enum(3, vec![x0.to_mv()]), TE2::V(x0) => MV::Enum(4, vec![x0.to_mv()]), TE2::T(x0, x1, x2) => MV::Enum(5, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]), TE2::S(x0) => MV::Enum(6, vec![x0.to_mv()]), TE2::F { only: x0 } => MV::Enum(7, vec![x0.to_mv()]), TE2::B(x0) => MV::Enum(8, vec![x0.to_mv()]), TE2::P { x: x0, y: x1, z: x2 } => MV::Enum(9, vec![x0.to_mv(), x1.to_mv(), x2.to_mv()]), TE2::U(x0) => MV::Enum(10, vec![x0.to_mv()]), TE2::Q(x0) => MV::Enum(11, vec![x0.to_mv()]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TMaps2 { pub a: BTreeMap<String, BTreeMap<String, i64>>, pub b: HashMap<String, Vec<Flat>>, pub c: HashMap<String, Option<u32>>, pub d: Vec<HashMap<String, String>>, pub e: Vec<Vec<TOne>> }
impl Model for TMaps2 { const NAME: &'static str = "TMaps2"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <BTreeMap<String, BTreeMap<String, i64>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <HashMap<String, Vec<Flat>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <HashMap<String, Option<u32>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Vec<HashMap<String, String>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Vec<Vec<TOne>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TMaps2", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TMaps2 { a: <BTreeMap<String, BTreeMap<String, i64>> as Model>::arb(r, d), b: <HashMap<String, Vec<Flat>> as Model>::arb(r, d), c: <HashMap<String, Option<u32>> as Model>::arb(r, d), d: <Vec<HashMap<String, String>> as Model>::arb(r, d), e: <Vec<Vec<TOne>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv(), self.e.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TOne { pub v: Vec<u32> }
impl Model for TOne { const NAME: &'static str = "TOne"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "v", wire: "v", ty: || <Vec<u32> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TOne", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TOne { v: <Vec<u32> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.v.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct THold { pub o: TOne, pub n: New, pub x: Option<New>, pub y: Vec<TOneS>, pub z: Option<Option<TOneS>> }
impl Model for THold { const NAME: &'static str = "THold"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "o", wire: "o", ty: || <TOne as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <New as Model>::FNS, default: None, sensitive: false }, FieldD { name: "x", wire: "x", ty: || <Option<New> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "y", wire: "y", ty: || <Vec<TOneS> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "z", wire: "z", ty: || <Option<Option<TOneS>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "THold", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); THold { o: <TOne as Model>::arb(r, d), n: <New as Model>::arb(r, d), x: <Option<New> as Model>::arb(r, d), y: <Vec<TOneS> as Model>::arb(r, d), z: <Option<Option<TOneS>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.o.to_mv(), self.n.to_mv(), self.x.to_mv(), self.y.to_mv(), self.z.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TOneS { pub s: Option<String> }
impl Model for TOneS { const NAME: &'static str = "TOneS"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "s", wire: "s", ty: || <Option<String> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TOneS", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); TOneS { s: <Option<String> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.s.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct TTree { pub v: i64, pub kids: Vec<TTree>, pub by: HashMap<String, TTree>, pub e: Option<TE2> }
impl Model for TTree { const NAME: &'static str = "TTree"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "v", wire: "v", ty: || <i64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "kids", wire: "kids", ty: || <Vec<TTree> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "by", wire: "by", ty: || <HashMap<String, TTree> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "e", wire: "e", ty: || <Option<TE2> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "TTree", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { if d == 0 { return TTree { v: <i64 as Model>::arb(r, 0), kids: Default::default(), by: Default::default(), e: <Option<TE2> as Model>::arb(r, 0) } } TTree { v: <i64 as Model>::arb(r, d.saturating_sub(1)), kids: <Vec<TTree> as Model>::arb(r, d.saturating_sub(1)), by: <HashMap<String, TTree> as Model>::arb(r, d.saturating_sub(1)), e: <Option<TE2> as Model>::arb(r, d.saturating_sub(1)) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.v.to_mv(), self.kids.to_mv(), self.by.to_mv(), self.e.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YStr { pub a: String, pub b: String, pub c: String }
impl Model for YStr { const NAME: &'static str = "YStr"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <String as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YStr", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); YStr { a: <String as Model>::arb(r, d), b: <String as Model>::arb(r, d), c: <String as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YMany { pub k0: u64, pub k1: String, pub k2: u64, pub k3: String, pub k4: u64, pub k5: String, pub k6: u64, pub k7: String, pub k8: u64, pub k9: String, pub inner: Flat, pub deep: Deep }
impl Model for YMany { const NAME: &'static str = "YMany"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "k0", wire: "k0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k1", wire: "k1", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k2", wire: "k2", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k3", wire: "k3", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k4", wire: "k4", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k5", wire: "k5", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k6", wire: "k6", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k7", wire: "k7", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k8", wire: "k8", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "k9", wire: "k9", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "inner", wire: "inner", ty: || <Flat as Model>::FNS, default: None, sensitive: false }, FieldD { name: "deep", wire: "deep", ty: || <Deep as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YMany", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); YMany { k0: <u64 as Model>::arb(r, d), k1: <String as Model>::arb(r, d), k2: <u64 as Model>::arb(r, d), k3: <String as Model>::arb(r, d), k4: <u64 as Model>::arb(r, d), k5: <String as Model>::arb(r, d), k6: <u64 as Model>::arb(r, d), k7: <String as Model>::arb(r, d), k8: <u64 as Model>::arb(r, d), k9: <String as Model>::arb(r, d), inner: <Flat as Model>::arb(r, d), deep: <Deep as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.k0.to_mv(), self.k1.to_mv(), self.k2.to_mv(), self.k3.to_mv(), self.k4.to_mv(), self.k5.to_mv(), self.k6.to_mv(), self.k7.to_mv(), self.k8.to_mv(), self.k9.to_mv(), self.inner.to_mv(), self.deep.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YNum { pub n: u64, pub m: u64 }
impl Model for YNum { const NAME: &'static str = "YNum"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "n", wire: "n", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "m", wire: "m", ty: || <u64 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YNum", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); YNum { n: <u64 as Model>::arb(r, d), m: <u64 as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.n.to_mv(), self.m.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YOdd { pub r#type: String, pub _x: u64, pub Ünï: YNum, pub a1_b2: YStr }
impl Model for YOdd { const NAME: &'static str = "YOdd"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "type", wire: "type", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "_x", wire: "_x", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "Ünï", wire: "Ünï", ty: || <YNum as Model>::FNS, default: None, sensitive: false }, FieldD { name: "a1_b2", wire: "a1_b2", ty: || <YStr as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YOdd", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); YOdd { r#type: <String as Model>::arb(r, d), _x: <u64 as Model>::arb(r, d), Ünï: <YNum as Model>::arb(r, d), a1_b2: <YStr as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.r#type.to_mv(), self._x.to_mv(), self.Ünï.to_mv(), self.a1_b2.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YTup(pub u64, pub String, pub YNum);
impl Model for YTup { const NAME: &'static str = "YTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "1", wire: "1", ty: || <String as Model>::FNS, default: None, sensitive: false }, FieldD { name: "2", wire: "2", ty: || <YNum as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YTup", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { YTup(<u64 as Model>::arb(r, d), <String as Model>::arb(r, d), <YNum as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv(), self.1.to_mv(), self.2.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YHasTup { pub t: YTup, pub u: YTup, pub n: YNew }
impl Model for YHasTup { const NAME: &'static str = "YHasTup"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "t", wire: "t", ty: || <YTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "u", wire: "u", ty: || <YTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "n", wire: "n", ty: || <YNew as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YHasTup", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); YHasTup { t: <YTup as Model>::arb(r, d), u: <YTup as Model>::arb(r, d), n: <YNew as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.t.to_mv(), self.u.to_mv(), self.n.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YNew(pub u64);
impl Model for YNew { const NAME: &'static str = "YNew"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "0", wire: "0", ty: || <u64 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YNew", tuple: true, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { YNew(<u64 as Model>::arb(r, d)) }
fn to_mv(&self) -> MV { MV::Struct(vec![self.0.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct YDeep { pub a: YHasTup, pub b: YOdd, pub c: YMany, pub d: Deep }
impl Model for YDeep { const NAME: &'static str = "YDeep"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "a", wire: "a", ty: || <YHasTup as Model>::FNS, default: None, sensitive: false }, FieldD { name: "b", wire: "b", ty: || <YOdd as Model>::FNS, default: None, sensitive: false }, FieldD { name: "c", wire: "c", ty: || <YMany as Model>::FNS, default: None, sensitive: false }, FieldD { name: "d", wire: "d", ty: || <Deep as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "YDeep", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); YDeep { a: <YHasTup as Model>::arb(r, d), b: <YOdd as Model>::arb(r, d), c: <YMany as Model>::arb(r, d), d: <Deep as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.a.to_mv(), self.b.to_mv(), self.c.to_mv(), self.d.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  #[repr(u8)] pub enum InvE { A(Inv) , B { k: u8, i: TokInv } , C(Vec<Inv>) , D  }
impl Model for InvE { const NAME: &'static str = "InvE";
fn kind() -> Kind { static D: EnumD = EnumD { name: "InvE", variants: &[VariantD { name: "A", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Inv as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "B", kind: 2, fields: &[FieldD { name: "k", wire: "k", ty: || <u8 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "i", wire: "i", ty: || <TokInv as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "C", kind: 1, fields: &[FieldD { name: "0", wire: "0", ty: || <Vec<Inv> as Model>::FNS, default: None, sensitive: false }] }, VariantD { name: "D", kind: 0, fields: &[] }] }; Kind::Enum(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = d; match r.below(4) { 0 => InvE::A(<Inv as Model>::arb(r, d)), 1 => InvE::B { k: <u8 as Model>::arb(r, d), i: <TokInv as Model>::arb(r, d) }, 2 => InvE::C(<Vec<Inv> as Model>::arb(r, d)), _ => InvE::D } }
fn to_mv(&self) -> MV { match self { InvE::A(x0) => MV::Enum(0, vec![x0.to_mv()]), InvE::B { k: x0, i: x1 } => MV::Enum(1, vec![x0.to_mv(), x1.to_mv()]), InvE::C(x0) => MV::Enum(2, vec![x0.to_mv()]), InvE::D => MV::Enum(3, vec![]) } } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct InvAll { pub e: InvE, pub o: Option<Inv>, pub l: Vec<Option<TokInv>>, pub m: BTreeMap<String, Inv>, pub h: HashMap<String, InvE> }
impl Model for InvAll { const NAME: &'static str = "InvAll"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "e", wire: "e", ty: || <InvE as Model>::FNS, default: None, sensitive: false }, FieldD { name: "o", wire: "o", ty: || <Option<Inv> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "l", wire: "l", ty: || <Vec<Option<TokInv>> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "m", wire: "m", ty: || <BTreeMap<String, Inv> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "h", wire: "h", ty: || <HashMap<String, InvE> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "InvAll", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); InvAll { e: <InvE as Model>::arb(r, d), o: <Option<Inv> as Model>::arb(r, d), l: <Vec<Option<TokInv>> as Model>::arb(r, d), m: <BTreeMap<String, Inv> as Model>::arb(r, d), h: <HashMap<String, InvE> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.e.to_mv(), self.o.to_mv(), self.l.to_mv(), self.m.to_mv(), self.h.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] #[facet(invariants = "inv_range")]  pub struct InvKey { pub lo: u32, pub hi: u32 }
impl InvKey { fn inv_range(&self) -> bool { self.lo <= self.hi } }
impl Model for InvKey { const NAME: &'static str = "InvKey"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "lo", wire: "lo", ty: || <u32 as Model>::FNS, default: None, sensitive: false }, FieldD { name: "hi", wire: "hi", ty: || <u32 as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "InvKey", tuple: false, fields: F, deny: false, default: None, invariant: Some(inv_mv) }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let (a, b) = (u32::arb(r, d), u32::arb(r, d)); InvKey { lo: a.min(b), hi: a.max(b) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.lo.to_mv(), self.hi.to_mv()]) } }
#[derive(Facet, Clone, Debug, PartialEq)]  pub struct InvKeys { pub m: BTreeMap<InvKey, Tok>, pub h: HashMap<InvKey, Vec<InvKey>> }
impl Model for InvKeys { const NAME: &'static str = "InvKeys"; const DEFAULT: Option<fn() -> MV> = None;
fn kind() -> Kind { static F: &[FieldD] = &[FieldD { name: "m", wire: "m", ty: || <BTreeMap<InvKey, Tok> as Model>::FNS, default: None, sensitive: false }, FieldD { name: "h", wire: "h", ty: || <HashMap<InvKey, Vec<InvKey>> as Model>::FNS, default: None, sensitive: false }];
static D: StructD = StructD { name: "InvKeys", tuple: false, fields: F, deny: false, default: None, invariant: None }; Kind::Struct(&D) }
fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); InvKeys { m: <BTreeMap<InvKey, Tok> as Model>::arb(r, d), h: <HashMap<InvKey, Vec<InvKey>> as Model>::arb(r, d) } }
fn to_mv(&self) -> MV { MV::Struct(vec![self.m.to_mv(), self.h.to_mv()]) } }
/// (type, tags)
pub static ZOO: &[(T, &str)] = &[
    (<Flat as Model>::FNS, "wjmtyup"),
    (<Nums as Model>::FNS, "wjmtp"),
    (<INums as Model>::FNS, "wjtp"),
    (<NzNums as Model>::FNS, "wjtp"),
    (<Floats as Model>::FNS, "wjtp"),
    (<Mixed as Model>::FNS, "wjtp"),
    (<Nested as Model>::FNS, "wjmtyup"),
    (<Deep as Model>::FNS, "wjmtyup"),
    (<Opts as Model>::FNS, "wjtp"),
    (<Lists as Model>::FNS, "wjtp"),
    (<ListOfStructs as Model>::FNS, "wjtp"),
    (<OptLists as Model>::FNS, "wjpt"),
    (<Maps as Model>::FNS, "wjtp"),
    (<BMaps as Model>::FNS, "wjpt"),
    (<IntKeys as Model>::FNS, "wtp"),
    (<Renamed as Model>::FNS, "wjp"),
    (<Swapped as Model>::FNS, "wjp"),
    (<Defs as Model>::FNS, "wjp"),
    (<Deny as Model>::FNS, "wjp"),
    (<DenyNest as Model>::FNS, "wjp"),
    (<WholeDef as Model>::FNS, "wjp"),
    (<Inv as Model>::FNS, "wjp"),
    (<HoldsInv as Model>::FNS, "wjp"),
    (<ListInv as Model>::FNS, "wjp"),
    (<Tup as Model>::FNS, "wjpt"),
    (<New as Model>::FNS, "wjpt"),
    (<HasTup as Model>::FNS, "wjpt"),
    (<UnitS as Model>::FNS, "wjpt"),
    (<EmptyS as Model>::FNS, "wjpt"),
    (<Tree as Model>::FNS, "wjpt"),
    (<Toks as Model>::FNS, "wp"),
    (<TokNest as Model>::FNS, "wp"),
    (<TokMix as Model>::FNS, "wp"),
    (<TokTup as Model>::FNS, "wp"),
    (<Zsts as Model>::FNS, "wp"),
    (<Map2 as Model>::FNS, "wp"),
    (<TokKey as Model>::FNS, "wp"),
    (<KeyE as Model>::FNS, "wp"),
    (<EnumKeys as Model>::FNS, "wp"),
    (<OptTree as Model>::FNS, "wp"),
    (<Wide as Model>::FNS, "wp"),
    (<Wide63 as Model>::FNS, "wp"),
    (<Wide70 as Model>::FNS, "wp"),
    (<WideE as Model>::FNS, "w"),
    (<Chars as Model>::FNS, "wpt"),
    (<UnitE as Model>::FNS, "wjtp"),
    (<DataE as Model>::FNS, "wjtp"),
    (<TokEnum as Model>::FNS, "wp"),
    (<R16 as Model>::FNS, "wp"),
    (<R32 as Model>::FNS, "wp"),
    (<R64 as Model>::FNS, "wp"),
    (<I8E as Model>::FNS, "wp"),
    (<I32E as Model>::FNS, "wp"),
    (<UsE as Model>::FNS, "wp"),
    (<I64E as Model>::FNS, "wp"),
    (<IsE as Model>::FNS, "wp"),
    (<UnsortE as Model>::FNS, "wp"),
    (<ZOnly as Model>::FNS, "w"),
    (<Zs as Model>::FNS, "w"),
    (<ZTup as Model>::FNS, "w"),
    (<ZNest as Model>::FNS, "w"),
    (<ZE as Model>::FNS, "w"),
    (<CU8 as Model>::FNS, "wp"),
    (<CI16 as Model>::FNS, "wp"),
    (<AllE as Model>::FNS, "wp"),
    (<HasEnums as Model>::FNS, "wjtp"),
    (<EnumMaps as Model>::FNS, "wjtp"),
    (<Secrets as Model>::FNS, "wp"),
    (<SecretIn as Model>::FNS, "wp"),
    (<SecretE as Model>::FNS, "wp"),
    (<SecretTup as Model>::FNS, "wp"),
    (<MsgTop as Model>::FNS, "wmp"),
    (<Big as Model>::FNS, "wjtp"),
    (<DefsWhole as Model>::FNS, "wjp"),
    (<RenDefDeny as Model>::FNS, "wjp"),
    (<DefNest as Model>::FNS, "wjp"),
    (<DfltPlain as Model>::FNS, "wjpt"),
    (<DfltIn as Model>::FNS, "wjpt"),
    (<Defs2 as Model>::FNS, "wjp"),
    (<OptRen as Model>::FNS, "wjp"),
    (<InvDef as Model>::FNS, "wjp"),
    (<TokIn as Model>::FNS, "wj"),
    (<TokJ as Model>::FNS, "wj"),
    (<TokDeny as Model>::FNS, "wj"),
    (<TokWhole as Model>::FNS, "wj"),
    (<TokInv as Model>::FNS, "wj"),
    (<TokHold as Model>::FNS, "wj"),
    (<TokTree as Model>::FNS, "wj"),
    (<UnitKey as Model>::FNS, "w"),
    (<MsgInts as Model>::FNS, "wmjp"),
    (<MsgNest as Model>::FNS, "wmjp"),
    (<MsgMany as Model>::FNS, "wmjp"),
    (<MsgLongNames as Model>::FNS, "wmp"),
    (<MsgTup as Model>::FNS, "wmp"),
    (<MsgHasTup as Model>::FNS, "wmp"),
    (<SecretKinds as Model>::FNS, "p"),
    (<SecretMid as Model>::FNS, "p"),
    (<SecretE2 as Model>::FNS, "p"),
    (<SecretNest as Model>::FNS, "p"),
    (<Bytes as Model>::FNS, "p"),
    (<ZstNest as Model>::FNS, "p"),
    (<ZstIn as Model>::FNS, "p"),
    (<TEnumNest as Model>::FNS, "t"),
    (<TE2 as Model>::FNS, "t"),
    (<TMaps2 as Model>::FNS, "t"),
    (<TOne as Model>::FNS, "t"),
    (<THold as Model>::FNS, "t"),
    (<TOneS as Model>::FNS, "t"),
    (<TTree as Model>::FNS, "t"),
    (<YStr as Model>::FNS, "tyu"),
    (<YMany as Model>::FNS, "tyu"),
    (<YNum as Model>::FNS, "tyu"),
    (<YOdd as Model>::FNS, "tyu"),
    (<YTup as Model>::FNS, "tyu"),
    (<YHasTup as Model>::FNS, "tyu"),
    (<YNew as Model>::FNS, "tyu"),
    (<YDeep as Model>::FNS, "tyu"),
    (<InvE as Model>::FNS, "wj"),
    (<InvAll as Model>::FNS, "wj"),
    (<InvKey as Model>::FNS, "w"),
    (<InvKeys as Model>::FNS, "w"),
];
