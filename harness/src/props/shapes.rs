//! P23: the shape of every built-in type is held against what the compiler knows of the type.
//! Expectations come from an independent description, built by the compiler from the type's own
//! generic arguments (trait `Say`), from measured addresses and from the standard library's constants.
use facet::Facet;
use facet_core::*;
use fvl::ctx::*;
use fvl::{bail, cov, ensure};
use std::alloc::Layout;
use std::any::TypeId;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Write as _};
use std::hash::{Hash as _, Hasher as _, RandomState};
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::NonZero;
use std::path::{Path, PathBuf};
use std::ptr::NonNull;
use std::sync::{Arc, Weak};

pub type Arg = fn() -> Desc;
/// how a type's name is written
pub enum Head {
    Plain(&'static str),
    /// name and how many of the arguments are written
    Angle(&'static str, usize),
    Array(usize),
    Slice,
    Tuple,
}
pub struct Ptr {
    weak: Option<TypeId>,
    strong: Option<TypeId>,
    flags: SmartPointerFlags,
    known: KnownSmartPointer,
    /// borrow, new, downgrade, upgrade
    ops: [bool; 4],
}
pub enum Kind {
    Scalar(fn(&ScalarAffinity) -> R),
    List,
    Map,
    Array(usize),
    Slice,
    Opt,
    Tuple(Vec<usize>),
    Ptr(Ptr),
    Derived(bool),
}
pub struct Desc {
    tid: TypeId,
    layout: Layout,
    shape: &'static Shape,
    head: Head,
    params: Vec<(&'static str, Arg)>,
    kind: Kind,
}
pub trait Say: Facet + 'static {
    fn head() -> Head;
    fn params() -> Vec<(&'static str, Arg)> {
        vec![]
    }
    fn kind() -> Kind;
    fn desc() -> Desc {
        Desc { tid: TypeId::of::<Self>(), layout: Layout::new::<Self>(), shape: Self::SHAPE, head: Self::head(), params: Self::params(), kind: Self::kind() }
    }
}
/// the name, as it should be written down to a depth (negative: all of it); `⋯` stands for arguments left out
/// (a derived generic type may be named without its arguments: that is P04's to judge)
fn name(d: &Desc, ttl: isize, bare: bool) -> String {
    let list = |n: usize| {
        if ttl == 0 {
            return "⋯".to_string();
        }
        d.params.iter().take(n).map(|p| name(&(p.1)(), if ttl < 0 { ttl } else { ttl - 1 }, bare)).collect::<Vec<_>>().join(", ")
    };
    match d.head {
        Head::Plain(s) => s.to_string(),
        Head::Angle(s, _) if bare && matches!(d.kind, Kind::Derived(_)) => s.to_string(),
        Head::Angle(s, n) => format!("{s}<{}>", list(n)),
        Head::Array(n) => format!("[{}; {n}]", list(1)),
        Head::Slice => format!("&[{}]", list(1)),
        Head::Tuple => format!("({})", list(usize::MAX)),
    }
}
/// the same name in any spelling: kinds of ellipsis, paths, the comma of a single-element tuple
fn plain(s: &str) -> String {
    let s = s.replace('…', "⋯").replace("core::num::", "").replace("std::num::", "").replace(",)", ")");
    if s == "&Path" { "Path".into() } else { s.replace("&Path>", "Path>").replace("&Path,", "Path,").replace("&Path)", "Path)").replace("&Path]", "Path]").replace("&Path;", "Path;") }
}
struct Named(&'static Shape, isize);
impl fmt::Display for Named {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut o = match self.1 {
            -1 => TypeNameOpts::infinite(),
            0 => TypeNameOpts::none(),
            1 => TypeNameOpts::one(),
            _ => TypeNameOpts::default(),
        };
        o.recurse_ttl = self.1;
        self.0.write_type_name(f, o)
    }
}
/// takes so many bytes, then fails
struct Short(usize, String);
impl fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}
fn check(d: &Desc, depth: usize) -> R {
    let s = d.shape;
    let full = name(d, -1, false);
    cov!("shapes compared");
    ensure!(s.id == d.tid, "id", "{full}: the shape's id is another type's");
    ensure!(s.layout == d.layout, "layout", "{full}: shape says {:?}, the compiler {:?}", s.layout, d.layout);
    // names
    for ttl in [-1, -7, 0, 1, 2, 3, 4] {
        let got = Named(s, ttl).to_string();
        let [want, bare] = [false, true].map(|b| name(d, ttl.max(-1), b));
        ensure!(plain(&got) == plain(&want) || plain(&got) == plain(&bare), "name", "named {got} to depth {ttl}, should be {want}");
        cov!("names compared");
    }
    ensure!(s.to_string() == Named(s, -1).to_string(), "name", "displayed as {s}, should be {full}");
    let whole = s.to_string();
    for n in 0..whole.len().min(40) {
        let mut w = Short(n, String::new());
        ensure!(write!(w, "{s}").is_err(), "name-sink", "{full}: the failure of a sink was not reported");
        ensure!(whole.starts_with(&w.1), "name-sink", "{full}: wrote {:?} to a failing sink", w.1);
        cov!("failing sinks reported");
    }
    // generic arguments
    let names = |v: &mut dyn Iterator<Item = &'static str>| v.collect::<Vec<_>>().join(", ");
    let (got, want) = (names(&mut s.type_params.iter().map(|p| p.name)), names(&mut d.params.iter().map(|p| p.0)));
    if matches!(d.kind, Kind::Tuple(_)) {
        // tuples list their elements as fields
        ensure!(s.type_params.is_empty() || s.type_params.len() == d.params.len(), "type-params", "{full}: {got}");
    } else {
        ensure!(got == want, "type-params", "{full}: type parameters {got:?}, should be {want:?}");
    }
    for (p, q) in s.type_params.iter().zip(&d.params) {
        let e = (q.1)();
        ensure!(p.shape().id == e.tid && p.shape() == e.shape, "type-params", "{full}: parameter {} is {}, should be {}", p.name, p.shape(), name(&e, -1, false));
        cov!("type parameters compared");
    }
    ensure!(s.doc.is_empty() || matches!(d.kind, Kind::Derived(_)), "doc", "{full}: documented as {:?}", s.doc);
    let is = |what: &str, got: &'static Shape, i: usize| -> R {
        let e = (d.params[i].1)();
        ensure!(got.id == e.tid && got.layout == e.layout && got == e.shape, what, "{full}: {what} is {got}, should be {}", name(&e, -1, false));
        cov!("element shapes compared");
        Ok(())
    };
    match (&d.kind, s.def) {
        (Kind::Scalar(f), Def::Scalar(x)) => {
            f(&x.affinity).map_err(|e| fail(&e.cat, format!("{full}: {}", e.detail)))?;
            cov!("affinities compared");
        }
        (Kind::List, Def::List(x)) => is("element", x.t(), 0)?,
        (Kind::Map, Def::Map(x)) => {
            is("key", x.k, 0)?;
            is("value", x.v, 1)?;
        }
        (Kind::Array(n), Def::Array(x)) => {
            ensure!(x.n == *n, "array-length", "{full}: length {} in the shape", x.n);
            is("element", x.t(), 0)?;
        }
        (Kind::Slice, Def::Slice(x)) => is("element", x.t(), 0)?,
        (Kind::Opt, Def::Option(x)) => is("contents", x.t(), 0)?,
        (Kind::Tuple(offs), Def::Struct(x)) => {
            ensure!(x.kind == StructKind::Tuple, "kind", "{full}: struct of kind {:?}", x.kind);
            ensure!(x.fields.len() == offs.len(), "fields", "{full}: {} fields", x.fields.len());
            for (i, f) in x.fields.iter().enumerate() {
                ensure!(f.name == i.to_string(), "fields", "{full}: field {i} is called {:?}", f.name);
                ensure!(f.offset == offs[i], "offset", "{full}: field {i} at offset {}, the compiler puts it at {}", f.offset, offs[i]);
                ensure!(f.flags.is_empty() && f.attributes.is_empty() && f.doc.is_empty(), "fields", "{full}: field {i} has flags {:?}, attributes {:?}, doc {:?}", f.flags, f.attributes, f.doc);
                is("field", f.shape(), i)?;
                cov!("tuple fields compared");
            }
        }
        (Kind::Ptr(p), Def::SmartPointer(x)) => {
            match x.pointee {
                Some(t) => is("pointee", t, 0)?,
                None => bail!("pointee", "{full}: no pointee"),
            }
            let id = |o: Option<fn() -> &'static Shape>, w: &Option<TypeId>, what: &str| -> R {
                match (o.map(|f| f()), w) {
                    (None, None) => Ok(()),
                    (Some(s), Some(t)) if s.id == *t => Ok(()),
                    (s, _) => bail!("counterpart", "{full}: {what} counterpart is {}", s.map_or("missing".to_string(), |s| s.to_string())),
                }
            };
            id(x.weak, &p.weak, "weak")?;
            id(x.strong, &p.strong, "strong")?;
            ensure!(x.flags == p.flags, "flags", "{full}: flags {:?}, should be {:?}", x.flags, p.flags);
            ensure!(x.known == Some(p.known), "known", "{full}: known as {:?}, should be {:?}", x.known, p.known);
            let v = x.vtable;
            let got = [v.borrow_fn.is_some(), v.new_into_fn.is_some(), v.downgrade_into_fn.is_some(), v.upgrade_into_fn.is_some()];
            ensure!(got == p.ops, "operations", "{full}: borrow, new, downgrade, upgrade offered: {got:?}, should be {:?}", p.ops);
            ensure!(v.lock_fn.is_none() && v.read_fn.is_none() && v.write_fn.is_none(), "operations", "{full}: offers to lock");
            cov!("smart pointers compared");
        }
        (Kind::Derived(e), Def::Struct(_) | Def::Enum(_)) => ensure!(*e == matches!(s.def, Def::Enum(_)), "kind", "{full}: {:?}", s.def),
        (_, def) => bail!("kind", "{full}: described as {}", format!("{def:?}").chars().take(60).collect::<String>()),
    }
    if depth > 0 {
        for p in &d.params {
            check(&(p.1)(), depth - 1)?;
        }
    }
    Ok(())
}

// ---- scalars
fn int<T: Copy + PartialEq + fmt::Debug>(a: &ScalarAffinity, bits: usize, signed: bool, min: T, max: T) -> R {
    let ScalarAffinity::Number(n) = a else { bail!("affinity", "not a number: {a:?}") };
    let want = NumberBits::Integer { bits, sign: if signed { Signedness::Signed } else { Signedness::Unsigned } };
    ensure!(n.bits == want, "bits", "{:?}, should be {want:?}", n.bits);
    let (lo, hi) = unsafe { (*n.min.get::<T>(), *n.max.get::<T>()) };
    ensure!(lo == min, "bounds", "smallest value {lo:?}, should be {min:?}");
    ensure!(hi == max, "bounds", "largest value {hi:?}, should be {max:?}");
    ensure!(n.positive_infinity.is_none() && n.negative_infinity.is_none() && n.nan_sample.is_none() && n.negative_zero.is_none() && n.epsilon.is_none(), "specials", "an integer with infinities, NaN, negative zero or epsilon: {n:?}");
    cov!("bounds compared");
    Ok(())
}
macro_rules! ints { ($($t:ident $signed:expr),*) => {$(
    impl Say for $t {
        fn head() -> Head { Head::Plain(stringify!($t)) }
        fn kind() -> Kind { Kind::Scalar(|a| int::<$t>(a, $t::BITS as usize, $signed, $t::MIN, $t::MAX)) }
    }
    impl Say for NonZero<$t> {
        fn head() -> Head { Head::Plain(concat!("NonZero<", stringify!($t), ">")) }
        fn kind() -> Kind { Kind::Scalar(|a| {
            if let ScalarAffinity::Number(n) = a { ensure!(n.positive_zero.is_none(), "specials", "a non-zero number with a zero"); }
            int::<NonZero<$t>>(a, $t::BITS as usize, $signed, NonZero::<$t>::MIN, NonZero::<$t>::MAX)
        }) }
    }
)*} }
ints!(u8 false, u16 false, u32 false, u64 false, u128 false, usize false, i8 true, i16 true, i32 true, i64 true, i128 true, isize true);
macro_rules! floats { ($($t:ident $b:ident $exp:expr),*) => {$(
    impl Say for $t {
        fn head() -> Head { Head::Plain(stringify!($t)) }
        fn kind() -> Kind { Kind::Scalar(|a| {
            let ScalarAffinity::Number(n) = a else { bail!("affinity", "not a number: {a:?}") };
            let want = NumberBits::Float { sign_bits: 1, exponent_bits: $exp, mantissa_bits: $t::MANTISSA_DIGITS as usize - 1, has_explicit_first_mantissa_bit: false };
            ensure!(n.bits == want && 1 + $exp + $t::MANTISSA_DIGITS as usize - 1 == 8 * size_of::<$t>(), "bits", "{:?}, should be {want:?}", n.bits);
            let get = |p: PtrConst<'static>| unsafe { *p.get::<$t>() };
            let is = |what: &str, p: Option<PtrConst<'static>>, w: $t| -> R {
                let Some(v) = p.map(get) else { bail!("specials", "no {what}") };
                ensure!(v.to_bits() == w.to_bits(), "specials", "{what} is {v:?}, should be {w:?}");
                Ok(())
            };
            is("minimum", Some(n.min), $t::MIN)?;
            is("maximum", Some(n.max), $t::MAX)?;
            is("infinity", n.positive_infinity, $t::INFINITY)?;
            is("negative infinity", n.negative_infinity, $t::NEG_INFINITY)?;
            is("zero", n.positive_zero, 0.0)?;
            is("negative zero", n.negative_zero, -0.0)?;
            is("epsilon", n.epsilon, $t::EPSILON)?;
            ensure!(n.nan_sample.map(get).is_some_and(|v| v.is_nan()), "specials", "NaN is {:?}", n.nan_sample.map(get));
            cov!("bounds compared");
            Ok(())
        }) }
    }
)*} }
floats!(f32 u32 8, f64 u64 11);
macro_rules! scalars { ($($t:ty, $name:expr, $pat:pat,)*) => {$(
    impl Say for $t {
        fn head() -> Head { Head::Plain($name) }
        fn kind() -> Kind { Kind::Scalar(|a| { ensure!(matches!(a, $pat), "affinity", "{a:?}"); Ok(()) }) }
    }
)*} }
scalars! {
    (), "()", ScalarAffinity::Empty(_),
    bool, "bool", ScalarAffinity::Boolean(_),
    char, "char", ScalarAffinity::Char(_),
    String, "String", ScalarAffinity::String(StringAffinity { max_inline_length: Some(0), .. }),
    &'static str, "&str", ScalarAffinity::String(StringAffinity { max_inline_length: None | Some(0), .. }),
    Cow<'static, str>, "Cow<'_, str>", ScalarAffinity::String(StringAffinity { max_inline_length: None | Some(0), .. }),
    PathBuf, "PathBuf", ScalarAffinity::Path(_),
    &'static Path, "Path", ScalarAffinity::Path(_),
    SocketAddr, "SocketAddr", ScalarAffinity::SocketAddr(_),
    IpAddr, "IpAddr", ScalarAffinity::IpAddr(_),
    Ipv4Addr, "Ipv4Addr", ScalarAffinity::IpAddr(_),
    Ipv6Addr, "Ipv6Addr", ScalarAffinity::IpAddr(_),
    ConstTypeId, "ConstTypeId", ScalarAffinity::Opaque(_),
    RandomState, "RandomState", ScalarAffinity::Opaque(_),
    camino::Utf8PathBuf, "Utf8PathBuf", ScalarAffinity::Path(_),
}
impl<T: 'static + ?Sized> Say for PhantomData<T> {
    fn head() -> Head {
        Head::Plain("PhantomData")
    }
    fn kind() -> Kind {
        Kind::Scalar(|a| {
            ensure!(matches!(a, ScalarAffinity::Empty(_)), "affinity", "{a:?}");
            Ok(())
        })
    }
}
// ---- generic types
macro_rules! one { ($($t:ty, $head:expr, $kind:expr);* $(;)?) => {$(
    impl<T: Say> Say for $t {
        fn head() -> Head { $head }
        fn params() -> Vec<(&'static str, Arg)> { vec![("T", T::desc as Arg)] }
        fn kind() -> Kind { $kind }
    }
)*} }
one! {
    Vec<T>, Head::Angle("Vec", 1), Kind::List;
    Option<T>, Head::Angle("Option", 1), Kind::Opt;
    &'static [T], Head::Slice, Kind::Slice;
    Arc<T>, Head::Angle("Arc", 1), Kind::Ptr(Ptr { weak: Some(TypeId::of::<Weak<T>>()), strong: None, flags: SmartPointerFlags::ATOMIC, known: KnownSmartPointer::Arc, ops: [true, true, true, false] });
    Weak<T>, Head::Angle("Weak", 1), Kind::Ptr(Ptr { weak: None, strong: Some(TypeId::of::<Arc<T>>()), flags: SmartPointerFlags::ATOMIC | SmartPointerFlags::WEAK, known: KnownSmartPointer::ArcWeak, ops: [false, false, false, true] });
    NonNull<T>, Head::Angle("NonNull", 1), Kind::Ptr(Ptr { weak: None, strong: None, flags: SmartPointerFlags::EMPTY, known: KnownSmartPointer::NonNull, ops: [true, true, false, false] });
}
impl<T: Say, const N: usize> Say for [T; N] {
    fn head() -> Head {
        Head::Array(N)
    }
    fn params() -> Vec<(&'static str, Arg)> {
        vec![("T", T::desc as Arg)]
    }
    fn kind() -> Kind {
        Kind::Array(N)
    }
}
impl<K: Say + Ord, V: Say> Say for BTreeMap<K, V> {
    fn head() -> Head {
        Head::Angle("BTreeMap", 2)
    }
    fn params() -> Vec<(&'static str, Arg)> {
        vec![("K", K::desc as Arg), ("V", V::desc as Arg)]
    }
    fn kind() -> Kind {
        Kind::Map
    }
}
impl<K: Say + Eq + std::hash::Hash, V: Say, S: Say + Default + std::hash::BuildHasher> Say for HashMap<K, V, S> {
    fn head() -> Head {
        Head::Angle("HashMap", 2)
    }
    fn params() -> Vec<(&'static str, Arg)> {
        vec![("K", K::desc as Arg), ("V", V::desc as Arg), ("S", S::desc as Arg)]
    }
    fn kind() -> Kind {
        Kind::Map
    }
}
macro_rules! tuples { ($($n:ident: $($t:ident $i:tt),+;)*) => {$(
    impl<$($t: Say),+> Say for ($($t,)+) {
        fn head() -> Head { Head::Tuple }
        fn params() -> Vec<(&'static str, Arg)> { vec![$((stringify!($t), $t::desc as Arg)),+] }
        fn kind() -> Kind {
            // where the compiler puts the elements, measured on a place of the type
            let m = std::mem::MaybeUninit::<Self>::uninit();
            let p = m.as_ptr();
            Kind::Tuple(vec![$( unsafe { (&raw const (*p).$i) as usize - p as usize } ),+])
        }
    }
)*} }
tuples! {
    a1: A 0;
    a2: A 0, B 1;
    a3: A 0, B 1, C 2;
    a4: A 0, B 1, C 2, D 3;
    a5: A 0, B 1, C 2, D 3, E 4;
    a6: A 0, B 1, C 2, D 3, E 4, F 5;
    a7: A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    a8: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7;
    a9: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    a10: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9;
    a11: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;
    a12: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11;
}
// ---- derived types, as arguments of the above
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Leaf {
    a: u8,
    b: u64,
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Pick {
    A,
    B(u32),
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Wrap<T: Facet> {
    t: T,
    n: u8,
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Both<X: Facet, Y: Facet>(X, Y);
#[derive(Facet, Debug)]
pub struct Link {
    next: Option<Arc<Link>>,
    back: Option<Weak<Link>>,
    v: Vec<Link>,
}
#[derive(Facet, Debug, Default, Clone)]
pub struct OwnHasher {
    k: u32,
}
impl std::hash::BuildHasher for OwnHasher {
    type Hasher = std::hash::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}
macro_rules! derived { ($($t:ident $e:expr),*) => {$( impl Say for $t { fn head() -> Head { Head::Plain(stringify!($t)) } fn kind() -> Kind { Kind::Derived($e) } } )*} }
derived!(Leaf false, Pick true, Link false, OwnHasher false);
impl<T: Say> Say for Wrap<T> {
    fn head() -> Head {
        Head::Angle("Wrap", 1)
    }
    fn params() -> Vec<(&'static str, Arg)> {
        vec![("T", T::desc as Arg)]
    }
    fn kind() -> Kind {
        Kind::Derived(false)
    }
}
impl<X: Say, Y: Say> Say for Both<X, Y> {
    fn head() -> Head {
        Head::Angle("Both", 2)
    }
    fn params() -> Vec<(&'static str, Arg)> {
        vec![("X", X::desc as Arg), ("Y", Y::desc as Arg)]
    }
    fn kind() -> Kind {
        Kind::Derived(false)
    }
}

// ---- characteristics of groups of shapes
fn has(s: &'static Shape, c: Characteristic) -> bool {
    use Characteristic::*;
    let (v, m) = (s.vtable, s.vtable.marker_traits);
    match c {
        Send => m.contains(MarkerTraits::SEND),
        Sync => m.contains(MarkerTraits::SYNC),
        Copy => m.contains(MarkerTraits::COPY),
        Eq => m.contains(MarkerTraits::EQ),
        Unpin => m.contains(MarkerTraits::UNPIN),
        Clone => v.clone_into.is_some(),
        Display => v.display.is_some(),
        Debug => v.debug.is_some(),
        PartialEq => v.eq.is_some(),
        PartialOrd => v.partial_ord.is_some(),
        Ord => v.ord.is_some(),
        Hash => v.hash.is_some(),
        Default => v.default_in_place.is_some(),
        FromStr => v.parse.is_some(),
        _ => unreachable!(),
    }
}
const CHARS: [Characteristic; 14] = {
    use Characteristic::*;
    [Send, Sync, Copy, Eq, Unpin, Clone, Display, Debug, PartialEq, PartialOrd, Ord, Hash, Default, FromStr]
};
fn group(g: &'static [&'static Shape]) -> R {
    for c in CHARS {
        let n = g.iter().filter(|s| has(s, c)).count();
        for s in g {
            ensure!(s.is(c) == has(s, c), "characteristic", "{s} is {c:?}: {}", s.is(c));
        }
        let (all, any, none) = (c.all(g), c.any(g), c.none(g));
        ensure!(all == (n == g.len()), "characteristic", "{c:?} of all of {} shapes, {n} of which have it: {all}", g.len());
        ensure!(any == (n > 0), "characteristic", "{c:?} of any of {} shapes, {n} of which have it: {any}", g.len());
        ensure!(none == (n == 0), "characteristic", "{c:?} of none of {} shapes, {n} of which have it: {none}", g.len());
        if n > 0 && n < g.len() { cov!("characteristics of some shapes of a group") }
    }
    for s in g {
        let v = s.vtable;
        for (q, c, what) in [
            (s.is_send(), Characteristic::Send, "is_send"), (s.is_sync(), Characteristic::Sync, "is_sync"), (s.is_copy(), Characteristic::Copy, "is_copy"), (s.is_eq(), Characteristic::Eq, "is_eq"),
            (s.is_clone(), Characteristic::Clone, "is_clone"), (s.is_display(), Characteristic::Display, "is_display"), (s.is_debug(), Characteristic::Debug, "is_debug"), (s.is_partial_eq(), Characteristic::PartialEq, "is_partial_eq"),
            (s.is_partial_ord(), Characteristic::PartialOrd, "is_partial_ord"), (s.is_ord(), Characteristic::Ord, "is_ord"), (s.is_hash(), Characteristic::Hash, "is_hash"), (s.is_default(), Characteristic::Default, "is_default"), (s.is_from_str(), Characteristic::FromStr, "is_from_str"),
            (v.is_send(), Characteristic::Send, "vtable is_send"), (v.is_sync(), Characteristic::Sync, "vtable is_sync"), (v.is_copy(), Characteristic::Copy, "vtable is_copy"), (v.is_eq(), Characteristic::Eq, "vtable is_eq"), (v.is_unpin(), Characteristic::Unpin, "vtable is_unpin"),
        ] {
            ensure!(q == has(s, c), "characteristic", "{what} of {s} is {q}");
        }
    }
    cov!("groups of shapes compared");
    Ok(())
}
include!("shape_types.rs");

pub fn p23(c: &mut Ctx) {
    let ts = types();
    let mut pool: Vec<&'static Shape> = vec![];
    for (i, (n, f)) in ts.iter().enumerate() {
        pool.push(f().shape);
        if !c.mine(i) {
            continue;
        }
        if cfg!(miri) && !c.time_left() {
            break;
        }
        c.case(&format!("shape/{n}"), n, || check(&f(), if cfg!(miri) { 1 } else { 6 }));
        cov!("types visited");
    }
    c.case("shape/pairs", "", || {
        for (i, (n, f)) in ts.iter().enumerate() {
            for (m, g) in ts.iter().skip(i + 1) {
                let (a, b) = (f(), g());
                ensure!((a.shape == b.shape) == (a.tid == b.tid), "id", "{n} and {m}: shapes compare {}", a.shape == b.shape);
            }
            if cfg!(miri) { break }
        }
        Ok(())
    });
    // one type has one shape, wherever it was asked for
    c.case("shape/crates", "", || {
        let (near, far) = (fvl::far_shapes!(), fvl::far::shapes());
        let hash = |s: &Shape| {
            let mut h = std::hash::DefaultHasher::new();
            s.hash(&mut h);
            h.finish()
        };
        for (i, a) in near.iter().enumerate() {
            for (k, b) in far.iter().enumerate() {
                ensure!((a == b) == (i == k) && a.is_shape(b) == (i == k) && (a.id == b.id) == (i == k), "id", "the shape of {a} and, in another crate, that of {b} compare {}", a == b);
                if i == k {
                    ensure!(hash(a) == hash(b), "hash", "the shape of {a} equals that of {b} in another crate and hashes differently");
                    ensure!(a.layout == b.layout && a.to_string() == b.to_string(), "id", "{a} and {b} are one type");
                    a.assert_shape(b);
                    cov!("shapes of two crates compared");
                }
            }
        }
        let set: std::collections::HashSet<&Shape> = near.iter().chain(&far).copied().collect();
        ensure!(set.len() == near.len(), "hash", "{} types, and a set of {} shapes", near.len(), set.len());
        Ok(())
    });
    // the same groups of shapes, found again in another order: one allocation serves every group
    let mut r = c.rng(23);
    r.shuffle(&mut pool);
    let pool: &'static [&'static Shape] = Box::leak(pool.into_boxed_slice());
    let mut k = 0;
    while c.time_left() && k < 40_000 {
        let n = r.below(7);
        let i = r.below(pool.len() - n);
        let g = &pool[i..i + n];
        c.case(&format!("group/{k}"), &format!("{}", g.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")), || group(g));
        k += 1;
    }
}
