#!/usr/bin/env python3
"""writes src/bin/*.rs: one small program of safe code per way of confusing a type or outliving an owner"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
PRE = """#![forbid(unsafe_code)]
#![allow(warnings)]
use facet::Facet;
use facet_core::*;
use facet_reflect::*;
use std::collections::{BTreeMap, HashMap};
fn long(s: &str) -> String { format!("{s} {}", "x".repeat(300)) }
"""
P = {}
# --- outliving an owner
P["peek_outlives_value"] = """fn main() { let p; { let s = long("a"); p = Peek::new(&s); } println!("{}", p.get::<String>().unwrap()); }"""
P["peek_outlives_heap_value"] = """fn main() { let p; { let h = Wip::alloc::<String>().put(long("a")).unwrap().build().unwrap(); p = h.peek(); } println!("{}", p.get::<String>().unwrap()); }"""
P["peek_after_materialize"] = """fn main() { let h = Wip::alloc::<String>().put(long("a")).unwrap().build().unwrap(); let p = h.peek(); let s: String = h.materialize().unwrap(); drop(s); println!("{}", p.get::<String>().unwrap()); }"""
P["get_outlives_value"] = """fn main() { let r: &String; { let s = long("a"); let p = Peek::new(&s); r = p.get::<String>().unwrap(); } println!("{r}"); }"""
P["field_outlives_struct"] = """#[derive(Facet)] struct S { a: String }
fn main() { let f; { let s = S { a: long("a") }; f = Peek::new(&s).into_struct().unwrap().field(0).unwrap(); } println!("{}", f.get::<String>().unwrap()); }"""
P["fields_iter_outlives"] = """#[derive(Facet)] struct S { a: String }
fn main() { let f; { let s = S { a: long("a") }; f = Peek::new(&s).into_struct().unwrap().fields().next().unwrap().1; } println!("{}", f.get::<String>().unwrap()); }"""
P["enum_field_outlives"] = """#[derive(Facet)] #[repr(u8)] enum S { A { a: String } }
fn main() { let f; { let s = S::A { a: long("a") }; f = Peek::new(&s).into_enum().unwrap().field(0).unwrap(); } println!("{}", f.get::<String>().unwrap()); }"""
P["item_outlives_list"] = """fn main() { let f; { let s = vec![long("a")]; f = Peek::new(&s).into_list().unwrap().get(0).unwrap(); } println!("{}", f.get::<String>().unwrap()); }"""
P["item_after_growth"] = """fn main() { let mut s = vec![long("a")]; let f = Peek::new(&s).into_list().unwrap().get(0).unwrap(); for _ in 0..100 { s.push(long("b")) } println!("{}", f.get::<String>().unwrap()); }"""
P["list_iter_outlives"] = """fn main() { let f; { let s = vec![long("a")]; f = Peek::new(&s).into_list().unwrap().iter(); } for x in f { println!("{}", x.get::<String>().unwrap()) } }"""
P["entry_outlives_map"] = """fn main() { let f; { let s: HashMap<String, String> = [(long("k"), long("a"))].into(); f = Peek::new(&s).into_map().unwrap().iter().next().unwrap(); } println!("{} {}", f.0.get::<String>().unwrap(), f.1.get::<String>().unwrap()); }"""
P["map_get_outlives"] = """fn main() { let f; { let s: HashMap<String, String> = [("k".to_string(), long("a"))].into(); f = Peek::new(&s).into_map().unwrap().get(&"k".to_string()).unwrap(); } println!("{}", f.get::<String>().unwrap()); }"""
P["map_iter_outlives"] = """fn main() { let f; { let s: BTreeMap<String, String> = [(long("k"), long("a"))].into(); f = Peek::new(&s).into_map().unwrap().iter(); } for (k, _) in f { println!("{}", k.get::<String>().unwrap()) } }"""
P["option_value_outlives"] = """fn main() { let f; { let s = Some(long("a")); f = Peek::new(&s).into_option().unwrap().value().unwrap(); } println!("{}", f.get::<String>().unwrap()); }"""
P["built_outlives_borrow"] = """fn main() { let h; { let s = long("a"); h = Wip::alloc::<&str>().put(s.as_str()).unwrap().build().unwrap(); } println!("{h}"); }"""
P["builder_outlives_borrow"] = """fn main() { let w; { let s = long("a"); w = Wip::alloc::<&str>().put(s.as_str()).unwrap(); } println!("{}", w.build().unwrap()); }"""
P["copied_outlives_borrow"] = """fn main() { let h; { let s = long("a"); let t = s.as_str(); h = Wip::alloc::<&str>().put_peek(Peek::new(&t)).unwrap().build().unwrap(); } println!("{h}"); }"""
P["dropped_after_borrow"] = """#[derive(Facet)] struct D<'a> { s: &'a str }
impl Drop for D<'_> { fn drop(&mut self) { println!("{}", self.s) } }
fn main() { let s; let h; s = long("a"); h = Wip::alloc::<D<'_>>().put(D { s: &s }).unwrap().build().unwrap(); drop(s); drop(h); }"""
P["builder_dropped_after_borrow"] = """#[derive(Facet)] struct D<'a> { s: &'a str }
impl Drop for D<'_> { fn drop(&mut self) { println!("{}", self.s) } }
fn main() { let h; { let s = long("a"); h = Wip::alloc::<D<'_>>().put(D { s: &s }).unwrap(); } drop(h); }"""
# --- lengthening a lifetime through a shape, which does not know lifetimes
P["materialize_static_str"] = """fn main() { let r: &'static str; { let s = long("a"); let h = Wip::alloc::<&str>().put(s.as_str()).unwrap().build().unwrap(); r = h.materialize::<&'static str>().unwrap(); } println!("{r}"); }"""
P["get_static_str"] = """fn main() { let r: &'static str; { let s = long("a"); let t = s.as_str(); r = *Peek::new(&t).get::<&'static str>().unwrap(); } println!("{r}"); }"""
P["materialize_static_struct"] = """#[derive(Facet)] struct B<'a> { s: &'a str }
fn main() { let r: B<'static>; { let s = long("a"); let h = Wip::alloc::<B<'_>>().put(B { s: &s }).unwrap().build().unwrap(); r = h.materialize::<B<'static>>().unwrap(); } println!("{}", r.s); }"""
# --- trusting a pointer, function or definition of the caller's
P["put_shape_twice"] = """fn main() { let s = long("a"); let p = Peek::new(&s); let h = Wip::alloc::<String>().put_shape(p.data(), p.shape()).unwrap().build().unwrap(); drop(h); println!("{s}"); }"""
P["put_shape_other_type"] = """fn main() { let x = 7u8; let h = Wip::alloc::<[u64; 40]>().put_shape(Peek::new(&x).data(), <[u64; 40]>::SHAPE).unwrap().build().unwrap(); println!("{:?}", h.materialize::<[u64; 40]>().unwrap()); }"""
P["put_from_fn_other_type"] = """fn main() { let f = String::SHAPE.vtable.default_in_place.unwrap(); let h = Wip::alloc::<u8>().put_from_fn(f).unwrap().build().unwrap(); println!("{h}"); }"""
P["list_def_of_other_type"] = """fn main() { let Def::List(d) = <Vec<String>>::SHAPE.def else { panic!() }; let x = 7u8; let l = PeekList::new(Peek::new(&x), d); println!("{} {:?}", l.len(), l.get(0).map(|p| p.to_string())); }"""
P["map_def_of_other_type"] = """fn main() { let Def::Map(d) = <BTreeMap<String, String>>::SHAPE.def else { panic!() }; let x = 7u8; let l = PeekMap::new(Peek::new(&x), d); println!("{}", l.len()); }"""
P["map_key_of_other_type"] = """fn main() { let m: HashMap<String, u8> = [(long("k"), 1)].into(); let b = Box::new(7u8); println!("{:?}", Peek::new(&m).into_map().unwrap().get(&*b).is_some()); }"""
P["compare_other_type"] = """fn main() { let (s, b) = (long("a"), Box::new(7u8)); println!("{:?} {:?}", Peek::new(&s).eq(&Peek::new(&*b)), Peek::new(&s).partial_cmp(&Peek::new(&*b))); }"""
# --- a reader must not hand out its input as longer-lived than it is
for fmt, call, doc in [("json", "facet_json::from_str::<T>(&doc)", r'{\"s\":\"§\"}'), ("toml", "facet_toml::from_str::<T>(&doc)", r's = \"§\"'), ("yaml", "facet_yaml::from_str::<T>(&doc)", r's: §'), ("urlencoded", "facet_urlencoded::from_str::<T>(&doc)", r's=§')]:
    for ty, show in [("&'static str", "t.s"), ("std::borrow::Cow<'static, str>", "t.s")]:
        n = "cow" if "Cow" in ty else "str"
        P[f"{fmt}_static_{n}"] = f"""#[derive(Facet)] struct T {{ s: {ty} }}
fn main() {{ let t; {{ let doc = "{doc}".replace('§', &"x".repeat(300)); t = {call}; let t2 = match t {{ Ok(t) => t, Err(e) => {{ println!("refused"); return }} }}; drop(doc); println!("{{}}", t2.s); }} }}"""
P["msgpack_static_str"] = """#[derive(Facet)] struct T { s: &'static str }
fn main() { let t; { let mut doc = vec![0x81, 0xa1, b's', 0xd9, 200]; doc.extend([b'x'; 200]); t = match facet_msgpack::from_slice::<T>(&doc) { Ok(t) => t, Err(_) => { println!("refused"); return } }; drop(doc); } println!("{}", t.s); }"""
P["args_static_str"] = """#[derive(Facet)] struct T { #[facet(positional)] s: &'static str }
fn main() { let t; { let a = long("a"); match std::panic::catch_unwind(|| facet_args::from_slice::<T>(&[&a])) { Ok(x) => t = x, Err(_) => { println!("refused"); return } } drop(a); } println!("{}", t.s); }"""
P["args_named_static_str"] = """#[derive(Facet)] struct T { #[facet(named)] s: &'static str }
fn main() { let t; { let a = long("a"); match std::panic::catch_unwind(|| facet_args::from_slice::<T>(&["--s", &a])) { Ok(x) => t = x, Err(_) => { println!("refused"); return } } drop(a); } println!("{}", t.s); }"""
P["default_fn_of_other_type"] = r"""fn mk() -> [u64; 40] { [7; 40] }
#[derive(Facet)] struct S { #[facet(default = "mk")] a: u8, b: u8 }
fn main() { let t = facet_json::from_str::<S>(r#"{"b":1}"#).is_ok(); println!("{t}"); }"""
P["ok_default_fn"] = r"""fn mk() -> String { long("made") }
#[derive(Facet)] struct S { #[facet(default = "mk")] a: String, b: u8 }
fn main() { let t = facet_json::from_str::<S>(r#"{"b":1}"#).unwrap_or_else(|_| panic!()); println!("{}", t.a); }"""
P["wip_option_other_inner"] = """fn main() { let w = Wip::alloc::<Option<u8>>().put([7u64; 40]); println!("{}", w.is_ok()); }"""
P["materialize_other_type"] = """fn main() { let h = Wip::alloc::<u8>().put(7u8).unwrap().build().unwrap(); println!("{}", h.materialize::<[u64; 40]>().is_ok()); }"""
P["get_other_type"] = """fn main() { let b = Box::new(7u8); let p = Peek::new(&*b); println!("{:?}", p.get::<[u64; 40]>().is_ok()); }"""
# --- legitimate uses: must compile and run
P["ok_borrowing"] = """#[derive(Facet)] struct B<'a> { s: &'a str, v: Vec<String> }
fn main() { let s = long("a"); let h = Wip::alloc::<B<'_>>().put(B { s: &s, v: vec![long("v")] }).unwrap().build().unwrap(); { let p = h.peek(); println!("{}", p.into_struct().unwrap().field(0).unwrap()); } let b: B<'_> = h.materialize().unwrap(); println!("{}{}", b.s, b.v[0]); }"""
P["ok_maps"] = """fn main() { let m: HashMap<String, String> = [(long("k"), long("a"))].into(); let p = Peek::new(&m).into_map().unwrap(); for (k, v) in p.iter() { println!("{k} {v}") } println!("{}", p.get(&long("k")).unwrap()); }"""
for f in os.listdir(os.path.join(HERE, "src/bin")):
    os.remove(os.path.join(HERE, "src/bin", f))
for k, v in P.items():
    open(os.path.join(HERE, "src/bin", k + ".rs"), "w").write(PRE + v + "\n")
# the oracle itself: an unsafe program that the sanitizer must catch
open(os.path.join(HERE, "src/bin/control.rs"), "w").write("""fn main() { let p: *const u8; { let s = "x".repeat(300); p = s.as_ptr(); } println!("{}", unsafe { std::hint::black_box(p).read() }); }\n""")
