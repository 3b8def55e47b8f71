//! P04: derived shapes against the compiler's own layout.
use facet_core::{ConstTypeId, Def, EnumRepr, Field, FieldAttribute, FieldFlags, PtrConst, PtrUninit, Shape, ShapeAttribute, Struct, StructKind, TypeNameOpts};
use facet::Facet;
use facet_reflect::{Peek, ReflectError, Wip};
use fvl::ctx::{Ctx, R, Rng, fail};
use fvl::model::Model;
use fvl::{bail, cov, ensure};
use std::alloc::Layout;
use std::collections::{BTreeMap, HashMap};
use std::num::NonZero;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tag { U8, U16, U32, U64, Usize, I8, I16, I32, I64, Isize, C }
pub enum EA {
    Sensitive,
    Default,
    DefaultFn(fn(facet_core::DefaultInPlaceFn) -> Result<(), String>),
    Rename(&'static str),
    /// text without white space
    Arb(&'static str),
}
#[derive(Debug, PartialEq)]
pub enum CA { Deny, Default }
pub struct LF {
    pub name: &'static str,
    pub shape: fn() -> &'static Shape,
    pub id: ConstTypeId,
    pub layout: Layout,
    pub sensitive: bool,
    pub attrs: &'static [EA],
    pub doc: &'static [&'static str],
}
pub struct LV {
    pub name: &'static str,
    pub disc: i128,
    pub kind: char,
    pub fields: &'static [LF],
    pub doc: &'static [&'static str],
}
pub struct LD {
    pub name: &'static str,
    pub full: &'static str,
    pub tag: Option<Tag>,
    pub attrs: &'static [CA],
    pub doc: &'static [&'static str],
    pub params: &'static [(&'static str, fn() -> &'static Shape)],
    pub variants: &'static [LV],
}
pub trait Lay: Facet + PartialEq + std::fmt::Debug + Clone + 'static {
    fn desc() -> &'static LD;
    fn variant(&self) -> usize;
    fn make(i: usize, r: &mut Rng) -> Self;
    /// where each field of the active variant really is
    fn addrs(&self) -> Vec<usize>;
    fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>>;
    fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError>;
}
pub trait Arb {
    fn arb(r: &mut Rng) -> Self;
}
impl<X: Lay> Arb for X {
    fn arb(r: &mut Rng) -> Self {
        X::make(r.below(X::desc().variants.len()), r)
    }
}
macro_rules! arb_model { ($($t:ty),* $(,)?) => { $(impl Arb for $t { fn arb(r: &mut Rng) -> Self { <$t as Model>::arb(r, 2) } })* } }
arb_model!(u8, u16, u32, u64, u128, i8, i64, bool, char, String, (), NonZero<u32>);
impl Arb for f32 { fn arb(r: &mut Rng) -> f32 { r.below(1000) as f32 / 8.0 } }
impl Arb for f64 { fn arb(r: &mut Rng) -> f64 { r.next() as u32 as f64 / 8.0 } }
impl Arb for &'static str { fn arb(r: &mut Rng) -> Self { *r.pick(&["", "x", "some static text"]) } }
impl<T: Arb> Arb for Option<T> { fn arb(r: &mut Rng) -> Self { if r.chance(1, 3) { None } else { Some(T::arb(r)) } } }
thread_local! { static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl<T: Arb> Arb for Vec<T> {
    fn arb(r: &mut Rng) -> Self {
        let d = DEPTH.get();
        if d > 3 { return vec![]; }
        DEPTH.set(d + 1);
        let v = (0..r.below(4)).map(|_| T::arb(r)).collect();
        DEPTH.set(d);
        v
    }
}
impl<T: Arb> Arb for Arc<T> {
    fn arb(r: &mut Rng) -> Self { Arc::new(T::arb(r)) }
}
impl<V: Arb> Arb for HashMap<String, V> {
    fn arb(r: &mut Rng) -> Self {
        let d = DEPTH.get();
        if d > 3 { return HashMap::new(); }
        DEPTH.set(d + 1);
        let v = (0..r.below(3)).map(|_| (<String as Arb>::arb(r), V::arb(r))).collect();
        DEPTH.set(d);
        v
    }
}
impl<V: Arb> Arb for BTreeMap<String, V> { fn arb(r: &mut Rng) -> Self { (0..r.below(3)).map(|_| (<String as Arb>::arb(r), V::arb(r))).collect() } }
impl<T: Arb, const N: usize> Arb for [T; N] { fn arb(r: &mut Rng) -> Self { std::array::from_fn(|_| T::arb(r)) } }
impl<A: Arb, B: Arb> Arb for (A, B) { fn arb(r: &mut Rng) -> Self { (A::arb(r), B::arb(r)) } }

#[derive(Clone, Debug, PartialEq)]
pub struct NotFacet(u8, String);
impl Arb for NotFacet { fn arb(r: &mut Rng) -> Self { NotFacet(r.below(256) as u8, <String as Arb>::arb(r)) } }
pub fn lay_string() -> String { "the default of a field".to_string() }
pub fn lay_u32() -> u32 { 77 }

fn default_fn_gives<T: PartialEq + std::fmt::Debug>(f: facet_core::DefaultInPlaceFn, want: T) -> Result<(), String> {
    let mut m = std::mem::MaybeUninit::<T>::uninit();
    unsafe {
        f(PtrUninit::new(m.as_mut_ptr()));
        let v = m.assume_init();
        if v == want { Ok(()) } else { Err(format!("the default function gives {v:?}, declared {want:?}")) }
    }
}
fn same<T: Facet + PartialEq + std::fmt::Debug>(x: &T, p: &Peek<'_>) -> Result<(), String> {
    match p.get::<T>() {
        Err(e) => Err(format!("typed read refused: {e:?}")),
        Ok(y) if std::ptr::eq(x, y) && x == y => Ok(()),
        Ok(y) => Err(format!("read {y:?}, the field holds {x:?}")),
    }
}
fn put_opaque<'a, T>(w: Wip<'a>, x: T) -> Result<Wip<'a>, ReflectError>
where
    facet_core::Opaque<T>: Facet,
{
    let x = std::mem::ManuallyDrop::new(x);
    let r = unsafe { w.put_shape(PtrConst::new(&*x as *const T), <facet_core::Opaque<T> as Facet>::SHAPE) };
    if r.is_err() {
        drop(std::mem::ManuallyDrop::into_inner(x));
    }
    r
}

include!("lay_types.rs");

#[derive(Clone, Copy)]
pub struct Entry {
    pub desc: fn() -> &'static LD,
    pub statics: fn(&mut Vec<(String, String)>),
    pub one: fn(&mut Rng, usize) -> R,
}
fn entry<X: Lay>() -> Entry {
    Entry { desc: X::desc, statics: statics::<X>, one: one::<X> }
}

struct Name(&'static Shape, bool);
impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0.vtable.type_name)(f, if self.1 { TypeNameOpts::infinite() } else { TypeNameOpts::none() })
    }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn statics<X: Lay>(out: &mut Vec<(String, String)>) {
    let d = X::desc();
    let s = X::SHAPE;
    let mut bad = |c: &str, t: String| out.push((c.to_string(), t));
    cov!("shapes compared with the compiler");
    if s.layout != Layout::new::<X>() {
        bad("layout", format!("shape says {:?}, the compiler says {:?}", s.layout, Layout::new::<X>()));
    }
    if s.id != ConstTypeId::of::<X>() {
        bad("id", "the shape carries another type's id".into());
    }
    if s.vtable.invariants.is_some() != d.name.starts_with("Inv") {
        bad("invariants", format!("shape has invariants: {}", s.vtable.invariants.is_some()));
    }
    if s.doc != d.doc {
        bad("doc", format!("shape doc {:?}, declared {:?}", s.doc, d.doc));
    }
    let attrs: Vec<Option<CA>> = s.attributes.iter().map(|a| match a {
        ShapeAttribute::DenyUnknownFields => Some(CA::Deny),
        ShapeAttribute::Default => Some(CA::Default),
        _ => None,
    }).collect();
    if attrs.len() != d.attrs.len() || attrs.iter().zip(d.attrs).any(|(a, b)| a.as_ref() != Some(b)) {
        bad("container-attributes", format!("shape has {:?}, declared {:?}", s.attributes, d.attrs));
    }
    if s.type_params.len() != d.params.len() || s.type_params.iter().zip(d.params).any(|(a, b)| a.name != b.0 || (a.shape)() != (b.1)()) {
        bad("type-params", format!("shape has {:?}, declared {:?}", s.type_params.iter().map(|p| (p.name, (p.shape)().to_string())).collect::<Vec<_>>(), d.params.iter().map(|p| (p.0, p.1().to_string())).collect::<Vec<_>>()));
    }
    let name = Name(s, true).to_string();
    if squeeze(&name) != squeeze(d.full) {
        if name == d.name {
            bad("type-name-without-arguments", format!("type name {name:?}, declared {:?}", d.full));
        } else {
            bad("type-name", format!("type name {name:?}, declared {:?}", d.full));
        }
    }
    let bare = Name(s, false).to_string();
    if !bare.starts_with(d.name) || bare[d.name.len()..].starts_with(char::is_alphanumeric) {
        bad("type-name", format!("type name {bare:?}, declared {:?}", d.name));
    }
    match (&s.def, d.tag) {
        (Def::Struct(st), None) => {
            let v = &d.variants[0];
            let kind = match st.kind { StructKind::Unit => 'u', StructKind::TupleStruct | StructKind::Tuple => 't', StructKind::Struct => 's', _ => '?' };
            if kind != v.kind {
                bad("kind", format!("shape says {:?}, declared {:?}", st.kind, v.kind));
            }
            fields(st, v, false, out);
        }
        (Def::Enum(e), Some(tag)) => {
            if e.variants.len() != d.variants.len() {
                bad("variants", format!("shape has {} variants, declared {}", e.variants.len(), d.variants.len()));
            }
            let ok = match tag {
                Tag::U8 => e.repr == EnumRepr::U8, Tag::U16 => e.repr == EnumRepr::U16, Tag::U32 => e.repr == EnumRepr::U32, Tag::U64 => e.repr == EnumRepr::U64, Tag::Usize => e.repr == EnumRepr::USize,
                Tag::I8 => e.repr == EnumRepr::I8, Tag::I16 => e.repr == EnumRepr::I16, Tag::I32 => e.repr == EnumRepr::I32, Tag::I64 => e.repr == EnumRepr::I64, Tag::Isize => e.repr == EnumRepr::ISize,
                Tag::C => matches!(e.repr, EnumRepr::U32 | EnumRepr::I32),
            };
            if !ok {
                bad("repr", format!("shape says {:?}, declared {tag:?}", e.repr));
            }
            for (sv, v) in e.variants.iter().zip(d.variants) {
                cov!("variants compared");
                let mut bad = |c: &str, t: String| out.push((c.to_string(), format!("variant {}: {t}", v.name)));
                if sv.name != v.name {
                    bad("variant-name", format!("shape says {:?}", sv.name));
                }
                if sv.discriminant as i128 != v.disc {
                    bad("discriminant", format!("shape says {}, declared {}", sv.discriminant, v.disc));
                }
                if sv.doc != v.doc {
                    bad("variant-doc", format!("shape doc {:?}, declared {:?}", sv.doc, v.doc));
                }
                let kind = match sv.data.kind { StructKind::Unit => 'u', StructKind::TupleStruct | StructKind::Tuple => 't', StructKind::Struct => 's', _ => '?' };
                if kind != v.kind {
                    bad("variant-kind", format!("shape says {:?}, declared {:?}", sv.data.kind, v.kind));
                }
                fields(&sv.data, v, true, out);
            }
        }
        _ => bad("def", "the shape's definition is of another kind than the type".to_string()),
    }
}
fn fields(st: &Struct, v: &LV, in_enum: bool, out: &mut Vec<(String, String)>) {
    if st.fields.len() != v.fields.len() {
        out.push(("fields".into(), format!("{}: shape has {} fields, declared {}", v.name, st.fields.len(), v.fields.len())));
    }
    for (f, d) in st.fields.iter().zip(v.fields) {
        cov!("fields compared");
        let mut bad = |c: &str, t: String| out.push((c.to_string(), format!("{}.{}: {t}", v.name, d.name)));
        // a field without a name of its own goes by its position
        let named = f.name == d.name || (v.kind == 't' && in_enum && f.name.strip_prefix('_') == Some(d.name));
        if !named {
            bad("field-name", format!("shape says {:?}", f.name));
        }
        let fs = f.shape();
        if fs != (d.shape)() || fs.id != d.id {
            bad("field-type", format!("shape says {fs}, declared {}", (d.shape)()));
        }
        if fs.layout != d.layout {
            bad("field-layout", format!("shape says {:?}, the compiler says {:?}", fs.layout, d.layout));
        }
        if f.flags.contains(FieldFlags::SENSITIVE) != d.sensitive {
            bad("field-flags", format!("shape says {:?}, declared sensitive: {}", f.flags, d.sensitive));
        }
        if f.doc != d.doc {
            bad("field-doc", format!("shape doc {:?}, declared {:?}", f.doc, d.doc));
        }
        if f.attributes.len() != d.attrs.len() {
            bad("field-attributes", format!("shape has {:?}, declared {}", f.attributes, d.attrs.len()));
        }
        for (a, b) in f.attributes.iter().zip(d.attrs) {
            let ok = match (a, b) {
                (FieldAttribute::Sensitive, EA::Sensitive) => true,
                (FieldAttribute::Default(None), EA::Default) => true,
                (FieldAttribute::Default(Some(g)), EA::DefaultFn(h)) => match h(*g) {
                    Ok(()) => true,
                    Err(e) => {
                        bad("field-default", e);
                        true
                    }
                },
                (FieldAttribute::Rename(x), EA::Rename(y)) => x == y,
                (FieldAttribute::Arbitrary(x), EA::Arb(y)) => squeeze(x) == *y,
                _ => false,
            };
            if !ok {
                bad("field-attributes", format!("shape has {:?}", a));
            }
        }
        let want = d.attrs.iter().find_map(|a| if let EA::Rename(x) = a { Some(*x) } else { None });
        if let Some(w) = want {
            if !f.attributes.iter().any(|a| matches!(a, FieldAttribute::Rename(x) if *x == w)) {
                bad("field-rename", format!("declared rename {w:?}, shape has {:?}", f.attributes));
            }
        }
    }
}
fn read_tag(p: *const u8, t: Tag) -> i128 {
    unsafe {
        match t {
            Tag::U8 => *p as i128, Tag::U16 => *(p as *const u16) as i128, Tag::U32 => *(p as *const u32) as i128, Tag::U64 => *(p as *const u64) as i128, Tag::Usize => *(p as *const usize) as i128,
            Tag::I8 => *(p as *const i8) as i128, Tag::I16 => *(p as *const i16) as i128, Tag::I32 | Tag::C => *(p as *const i32) as i128, Tag::I64 => *(p as *const i64) as i128, Tag::Isize => *(p as *const isize) as i128,
        }
    }
}
/// one value of variant `i`: looked at through the shape, and built again through the shape
fn one<X: Lay>(r: &mut Rng, i: usize) -> R {
    let d = X::desc();
    let v = X::make(i, r);
    let i = v.variant();
    let lv = &d.variants[i];
    let p = Peek::new(&v);
    let base = &v as *const X as usize;
    let addrs = v.addrs();
    let peeks: Vec<Peek<'_>>;
    let defs: Vec<&'static Field>;
    cov!("values looked at through their shape");
    if let Some(tag) = d.tag {
        let native = read_tag(base as *const u8, tag);
        assert!(native == lv.disc, "harness: discriminant of {} is {native}, generator says {}", lv.name, lv.disc);
        let e = p.into_enum().map_err(|e| fail("peek", format!("{e:?}")))?;
        ensure!(e.discriminant() as i128 == native, "read-discriminant", "reflection reads discriminant {}, memory holds {native}", e.discriminant());
        ensure!(e.variant_index() == i, "read-variant", "reflection says variant {}, the value is variant {i} ({})", e.variant_index(), lv.name);
        ensure!(e.variant_name_active() == lv.name, "read-variant", "reflection says {:?}, the value is {:?}", e.variant_name_active(), lv.name);
        peeks = e.fields().map(|x| x.1).collect();
        defs = e.fields().map(|x| x.0).collect();
    } else {
        let s = p.into_struct().map_err(|e| fail("peek", format!("{e:?}")))?;
        peeks = s.fields().map(|x| x.1).collect();
        defs = s.fields().map(|x| x.0).collect();
    }
    ensure!(peeks.len() == addrs.len(), "read-fields", "reflection shows {} fields of {}", peeks.len(), addrs.len());
    for (j, a) in addrs.iter().enumerate() {
        ensure!(defs[j].offset == a - base, "offset", "shape says field {} of {} is at {}, the compiler put it at {}", lv.fields[j].name, lv.name, defs[j].offset, a - base);
        cov!("field offsets compared");
    }
    for (j, x) in v.agree(&peeks).into_iter().enumerate() {
        if let Err(e) = x {
            bail!("read-field", "field {} of {}: {e}", lv.fields[j].name, lv.name);
        }
    }
    // build it again, in a random order, by index or by name
    let mut w = Wip::alloc::<X>();
    if d.tag.is_some() {
        w = if r.chance(1, 2) { w.variant(i) } else { w.variant_named(lv.name) }.map_err(|e| fail("rebuild", format!("variant {}: {e:?}", lv.name)))?;
    }
    let mut order: Vec<usize> = (0..addrs.len()).collect();
    r.shuffle(&mut order);
    for j in order {
        w = if r.chance(1, 2) { w.field(j) } else { w.field_named(defs[j].name) }.map_err(|e| fail("rebuild", format!("field {}: {e:?}", lv.fields[j].name)))?;
        w = v.put(w, j).map_err(|e| fail("rebuild", format!("put of field {}: {e:?}", lv.fields[j].name)))?;
        w = w.pop().map_err(|e| fail("rebuild", format!("pop: {e:?}")))?;
    }
    let h = w.build().map_err(|e| fail("rebuild", format!("build: {e:?}")))?;
    let b: X = h.materialize().map_err(|e| fail("rebuild", format!("materialize: {e:?}")))?;
    ensure!(b == v, "rebuild", "written through the shape the value is {b:?}, meant was {v:?}");
    ensure!(b.variant() == i, "rebuild", "written as variant {i}, the type's own code sees {}", b.variant());
    if let Some(tag) = d.tag {
        let n = read_tag(&b as *const X as *const u8, tag);
        ensure!(n == lv.disc, "rebuild", "discriminant written is {n}, declared {}", lv.disc);
    }
    cov!("values written through their shape");
    Ok(())
}

/// types with declared invariants: the shape must carry exactly the declared functions
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "ok")]
pub struct IvS { a: u8, b: u8 }
impl IvS { fn ok(&self) -> bool { self.a <= self.b } }
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "first")]
#[facet(invariants = "more")]
pub struct IvTwo { a: u8, b: u8 }
impl IvTwo {
    fn first(&self) -> bool { self.a <= self.b }
    fn more(&self) -> bool { self.a % 2 == 0 }
    fn ok(&self) -> bool { self.first() && self.more() }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "ok")]
pub struct IvT(u8, String);
impl IvT { fn ok(&self) -> bool { self.0 as usize == self.1.len() } }
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "ok")]
#[repr(u8)]
pub enum IvE { A, B(u8), C { x: u8, y: String } }
impl IvE { fn ok(&self) -> bool { match self { IvE::A => true, IvE::B(x) => *x > 1, IvE::C { x, .. } => *x != 2 } } }
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "first")]
#[facet(invariants = "more")]
#[repr(C)]
pub enum IvC { A, B(u8) }
impl IvC {
    fn first(&self) -> bool { *self != IvC::B(1) }
    fn more(&self) -> bool { *self != IvC::B(2) }
    fn ok(&self) -> bool { self.first() && self.more() }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct IvHolds { n: u8, e: IvE, v: Vec<IvS>, o: Option<IvC> }
macro_rules! invd { ($c:ident $seed:ident $($n:ident $r:ident => $make:expr;)*) => { $( {
    $c.case(concat!(stringify!($n), "/invariants"), &format!("seed {:#x}", $seed), || {
        let mut rr = Rng::new($seed);
        let $r = &mut rr;
        let v: $n = $make;
        let native = v.ok();
        let Some(f) = <$n as Facet>::SHAPE.vtable.invariants else { bail!("invariants", "the shape has no invariants, the type declares some") };
        let got = unsafe { f(PtrConst::new(&v)) };
        ensure!(got == native, "invariants", "the shape's invariants say {got} for {v:?}, the type's own {native}");
        let built = Wip::alloc::<$n>().put(v.clone()).and_then(|w| w.build());
        ensure!(built.is_ok() == native, "invariants", "building {v:?} gives {built:?}, its invariant is {native}");
        if native { cov!("values whose invariant holds") } else { cov!("values whose invariant fails") }
        Ok(())
    });
} )* } }
/// types with declared invariants: the shape carries exactly the declared functions
fn invariants_one(c: &mut Ctx, seed: u64) {
    fn s(r: &mut Rng) -> IvS { IvS { a: r.below(4) as u8, b: r.below(4) as u8 } }
    fn e(r: &mut Rng) -> IvE { match r.below(3) { 0 => IvE::A, 1 => IvE::B(r.below(4) as u8), _ => IvE::C { x: r.below(4) as u8, y: String::new() } } }
    fn k(r: &mut Rng) -> IvC { if r.chance(1, 3) { IvC::A } else { IvC::B(r.below(4) as u8) } }
    invd! { c seed
        IvS r => s(r);
        IvTwo r => IvTwo { a: r.below(4) as u8, b: r.below(4) as u8 };
        IvT r => IvT(r.below(4) as u8, "x".repeat(r.below(4)));
        IvE r => e(r);
        IvC r => k(r);
    }
    c.case("IvHolds/invariants", &format!("seed {seed:#x}"), || {
        let mut r = Rng::new(seed);
        let v = IvHolds { n: 1, e: e(&mut r), v: (0..r.below(3)).map(|_| s(&mut r)).collect(), o: if r.chance(1, 3) { None } else { Some(k(&mut r)) } };
        let native = v.e.ok() && v.v.iter().all(|x| x.ok()) && v.o.as_ref().is_none_or(|x| x.ok());
        ensure!(<IvHolds as Facet>::SHAPE.vtable.invariants.is_none(), "invariants", "the shape has invariants, the type declares none");
        let built = Wip::alloc::<IvHolds>().put(v.clone()).and_then(|w| w.build());
        ensure!(built.is_ok() == native, "invariants", "building {v:?} gives {built:?}, the invariants inside hold: {native}");
        Ok(())
    });
}

pub fn p04(c: &mut Ctx) {
    let all = all();
    for (k, e) in all.iter().enumerate() {
        if !c.mine(k) {
            continue;
        }
        let d = (e.desc)();
        let mut bad = vec![];
        (e.statics)(&mut bad);
        c.case(&format!("{}/shape", d.full), "shape against the compiler", || Ok(()));
        let mut seen = std::collections::HashSet::new();
        for (cat, detail) in bad {
            if seen.insert(cat.clone()) {
                let sig = if cat == "type-name-without-arguments" { format!("*/{cat}") } else { format!("{}/{cat}", d.full) };
                c.violation(sig, detail, format!("shape of {}", d.full));
            }
        }
    }
    let mut rng = c.rng(4);
    let mut round = 0;
    for _ in 0..40 {
        invariants_one(c, rng.next());
    }
    while (round == 0 || c.time_left()) && round < 100000 {
        for (k, e) in all.iter().enumerate() {
            if !c.mine(k + round) {
                continue;
            }
            let d = (e.desc)();
            for i in 0..d.variants.len() {
                let seed = rng.next();
                c.case(&format!("{}/{}", d.full, d.variants[i].name), &format!("seed {seed:#x}"), || (e.one)(&mut Rng::new(seed), i));
            }
            if round > 0 && !c.time_left() {
                break;
            }
        }
        round += 1;
    }
}
