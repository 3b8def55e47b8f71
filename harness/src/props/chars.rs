//! P05: the operations of a shape's vtable against the type's own trait implementations.
use fvl::ctx::*;
use fvl::mon::Tok;
use fvl::{bail, cov, ensure, tr};
use facet_core::{ConstTypeId, Facet, MarkerTraits, PtrConst, PtrMut, PtrUninit, Shape};
use facet_reflect::{HeapValue, Peek, PeekMap, ReflectError, Wip};
use std::alloc::Layout;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::NonZero;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::{Arc, Weak};

/// records what is hashed
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        hash64(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
/// what the type implements natively, behind untyped pointers
pub type V = *const u8;
pub struct Native {
    debug: Option<fn(V, u8) -> String>,
    display: Option<fn(V, u8) -> String>,
    default: Option<unsafe fn(*mut u8)>,
    clone: bool,
    eq: Option<fn(V, V) -> bool>,
    partial_ord: Option<fn(V, V) -> Option<Ordering>>,
    ord: Option<fn(V, V) -> Ordering>,
    hash: Option<fn(V, &mut Rec)>,
    parse: Option<unsafe fn(&str, *mut u8) -> bool>,
    make: unsafe fn(&mut Rng, *mut u8),
    drop: unsafe fn(*mut u8),
    needs_drop: bool,
    layout: Layout,
    id: ConstTypeId,
    markers: MarkerTraits,
    pub shape: &'static Shape,
    pub x: Cross,
}
/// operations of the public API at this type, applied to values of any type
pub struct Cross {
    pub tid: std::any::TypeId,
    pub get: fn(Peek<'_>) -> Option<V>,
    pub materialize: unsafe fn(HeapValue<'static>, *mut u8) -> bool,
    pub put: unsafe fn(Wip<'static>, *mut u8) -> Result<Wip<'static>, ReflectError>,
    pub is_current: fn(&Wip<'static>) -> bool,
    pub is_type: fn(&'static Shape) -> bool,
    pub assert_type: fn(&'static Shape),
    pub key_get: fn(&PeekMap<'_>, V) -> Option<V>,
    pub key_has: fn(&PeekMap<'_>, V) -> bool,
    pub peek: fn(V) -> Peek<'static>,
}
pub const fn cross<T: Facet + 'static>() -> Cross {
    Cross {
        tid: std::any::TypeId::of::<T>(),
        get: |p| p.get::<T>().ok().map(|r| r as *const T as V),
        materialize: |h, o| match h.materialize::<T>() {
            Ok(t) => unsafe {
                (o as *mut T).write(t);
                true
            },
            Err(_) => false,
        },
        put: |w, p| unsafe { w.put::<T>((p as *mut T).read()) },
        is_current: |w| w.current_is_type::<T>(),
        is_type: |s| s.is_type::<T>(),
        assert_type: |s| s.assert_type::<T>(),
        key_get: |m, k| m.get(at::<T>(k)).map(|p| p.data().as_byte_ptr()),
        key_has: |m, k| m.contains_key(at::<T>(k)),
        peek: |p| Peek::new(at::<T>(p)),
    }
}
pub struct Has<T: ?Sized>(PhantomData<T>);
pub trait No<T> {
    const DEBUG: Option<fn(V, u8) -> String> = None;
    const DISPLAY: Option<fn(V, u8) -> String> = None;
    const DEFAULT: Option<unsafe fn(*mut u8)> = None;
    const CLONE: bool = false;
    const EQ: Option<fn(V, V) -> bool> = None;
    const PORD: Option<fn(V, V) -> Option<Ordering>> = None;
    const ORD: Option<fn(V, V) -> Ordering> = None;
    const HASH: Option<fn(V, &mut Rec)> = None;
    const PARSE: Option<unsafe fn(&str, *mut u8) -> bool> = None;
    const M_EQ: bool = false;
    const M_SEND: bool = false;
    const M_SYNC: bool = false;
    const M_COPY: bool = false;
    const M_UNPIN: bool = false;
}
impl<T> No<T> for Has<T> {}
pub const NFMT: u8 = 6;
fn dbg(t: &dyn Debug, k: u8) -> String {
    match k {
        0 => format!("{t:?}"),
        1 => format!("{t:#?}"),
        2 => format!("{t:>14?}"),
        3 => format!("{t:+08.3?}"),
        4 => format!("{t:#x?}"),
        _ => format!("{t:*^9.2?}"),
    }
}
fn dsp(t: &dyn Display, k: u8) -> String {
    match k {
        0 => format!("{t}"),
        1 => format!("{t:#}"),
        2 => format!("{t:>14}"),
        3 => format!("{t:+08.3}"),
        4 => format!("{t:<4}|"),
        _ => format!("{t:*^9.2}"),
    }
}
fn at<'a, T>(p: V) -> &'a T {
    unsafe { &*(p as *const T) }
}
impl<T: Debug> Has<T> {
    pub const DEBUG: Option<fn(V, u8) -> String> = Some(|p, k| dbg(at::<T>(p), k));
}
impl<T: Display> Has<T> {
    pub const DISPLAY: Option<fn(V, u8) -> String> = Some(|p, k| dsp(at::<T>(p), k));
}
impl<T: Default> Has<T> {
    pub const DEFAULT: Option<unsafe fn(*mut u8)> = Some(|p| unsafe { (p as *mut T).write(T::default()) });
}
impl<T: Clone> Has<T> {
    pub const CLONE: bool = true;
}
impl<T: PartialEq> Has<T> {
    pub const EQ: Option<fn(V, V) -> bool> = Some(|a, b| at::<T>(a) == at::<T>(b));
}
impl<T: PartialOrd> Has<T> {
    pub const PORD: Option<fn(V, V) -> Option<Ordering>> = Some(|a, b| at::<T>(a).partial_cmp(at::<T>(b)));
}
impl<T: Ord> Has<T> {
    pub const ORD: Option<fn(V, V) -> Ordering> = Some(|a, b| at::<T>(a).cmp(at::<T>(b)));
}
impl<T: Hash> Has<T> {
    pub const HASH: Option<fn(V, &mut Rec)> = Some(|a, h| at::<T>(a).hash(h));
}
impl<T: FromStr> Has<T> {
    pub const PARSE: Option<unsafe fn(&str, *mut u8) -> bool> = Some(|s, p| match s.parse::<T>() {
        Ok(v) => unsafe {
            (p as *mut T).write(v);
            true
        },
        Err(_) => false,
    });
}
impl<T: Eq> Has<T> {
    pub const M_EQ: bool = true;
}
impl<T: Send> Has<T> {
    pub const M_SEND: bool = true;
}
impl<T: Sync> Has<T> {
    pub const M_SYNC: bool = true;
}
impl<T: Copy> Has<T> {
    pub const M_COPY: bool = true;
}
impl<T: Unpin> Has<T> {
    pub const M_UNPIN: bool = true;
}
macro_rules! native {
    ($t:ty, $make:expr) => {{
        #[allow(unused_imports)]
        use crate::chars::No;
        type H = Has<$t>;
        let mut m = MarkerTraits::empty();
        if H::M_EQ { m |= MarkerTraits::EQ }
        if H::M_SEND { m |= MarkerTraits::SEND }
        if H::M_SYNC { m |= MarkerTraits::SYNC }
        if H::M_COPY { m |= MarkerTraits::COPY }
        if H::M_UNPIN { m |= MarkerTraits::UNPIN }
        Native {
            debug: H::DEBUG, display: H::DISPLAY, default: H::DEFAULT, clone: H::CLONE, eq: H::EQ, partial_ord: H::PORD, ord: H::ORD, hash: H::HASH, parse: H::PARSE, markers: m,
            make: $make, drop: |p| unsafe { std::ptr::drop_in_place(p as *mut $t) }, needs_drop: std::mem::needs_drop::<$t>(), layout: Layout::new::<$t>(), id: ConstTypeId::of::<$t>(), shape: <$t as Facet>::SHAPE, x: cross::<$t>(),
        }
    }};
}

/// how much is promised about a type
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// scalars and derived types: offers exactly what the type has, with the same result
    Exact,
    /// what is offered and exists natively has the same result
    Same,
    /// as `Same`, but maps print and hash their entries in an order of their own
    Unordered,
}

impl Native {
    pub fn eq_at(&self, a: V, b: V) -> Option<bool> {
        self.eq.map(|f| f(a, b))
    }
}
/// memory of the shape's layout with red zones from the sanitizer
pub struct Mem(pub *mut u8, pub Layout);
impl Mem {
    pub fn new(s: &Shape) -> Mem {
        let l = s.layout;
        Mem(if l.size() == 0 { std::ptr::without_provenance_mut(l.align()) } else { unsafe { std::alloc::alloc(l) } }, l)
    }
    pub fn uninit<'a>(&self) -> PtrUninit<'a> {
        PtrUninit::new(self.0)
    }
    pub fn c<'a>(&self) -> PtrConst<'a> {
        PtrConst::new(self.0)
    }
    pub fn m<'a>(&self) -> PtrMut<'a> {
        PtrMut::new(self.0)
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        if self.1.size() != 0 {
            unsafe { std::alloc::dealloc(self.0, self.1) }
        }
    }
}
/// an owned native value
pub struct Val<'n>(pub Mem, &'n Native);
impl<'n> Val<'n> {
    pub fn make(n: &'n Native, seed: u64) -> Val<'n> {
        let m = Mem::new(n.shape);
        unsafe { (n.make)(&mut Rng::new(seed), m.0) };
        Val(m, n)
    }
    /// the memory, which now holds a value of the type, becomes owned
    pub fn own(m: Mem, n: &'n Native) -> Val<'n> {
        Val(m, n)
    }
    pub fn p(&self) -> V {
        self.0.0
    }
}
impl Drop for Val<'_> {
    fn drop(&mut self) {
        unsafe { (self.1.drop)(self.0.0) }
    }
}
struct E<'a>(PtrConst<'a>, &'static Shape);
impl Debug for E<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { (self.1.vtable.debug.unwrap())(self.0, f) }
    }
}
impl Display for E<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { (self.1.vtable.display.unwrap())(self.0, f) }
    }
}
fn ehash(p: PtrConst<'_>, s: &'static Shape) -> Rec {
    let mut r = Rec::default();
    unsafe { (s.vtable.hash.unwrap())(PtrConst::new(p.as_byte_ptr()), PtrMut::new(&mut r), |h, b| h.as_mut::<Rec>().0.extend_from_slice(b)) };
    r
}
pub fn same(n: &Native, a: V, b: V) -> Option<bool> {
    // identity of content: text where there is any, else equality
    match (n.debug, n.display, n.eq) {
        (Some(d), _, _) => Some(d(a, 0) == d(b, 0)),
        (_, Some(d), _) => Some(d(a, 0) == d(b, 0)),
        (_, _, Some(e)) if e(a, a) && e(b, b) => Some(e(a, b)),
        _ => None,
    }
}
pub fn show(n: &Native, a: V) -> String {
    n.debug.or(n.display).map(|d| d(a, 0)).unwrap_or_else(|| "?".into())
}

fn static_checks(n: &Native, class: Class) -> R {
    let s = n.shape;
    let v = s.vtable;
    ensure!(s.layout == n.layout, "layout", "layout {:?}, real {:?}", s.layout, n.layout);
    ensure!(s.id == n.id, "type-id", "shape is not the shape of its own type");
    if class == Class::Exact {
        let pairs = [
            ("debug", v.debug.is_some(), n.debug.is_some()),
            ("display", v.display.is_some(), n.display.is_some()),
            ("default", v.default_in_place.is_some(), n.default.is_some()),
            ("clone", v.clone_into.is_some(), n.clone),
            ("eq", v.eq.is_some(), n.eq.is_some()),
            ("partial_ord", v.partial_ord.is_some(), n.partial_ord.is_some()),
            ("ord", v.ord.is_some(), n.ord.is_some()),
            ("hash", v.hash.is_some(), n.hash.is_some()),
            ("parse", v.parse.is_some(), n.parse.is_some()),
        ];
        for (k, e, w) in pairs {
            ensure!(e == w, "offered", "{k}: shape says {e}, the type says {w}");
        }
        ensure!(v.marker_traits == n.markers, "markers", "shape says {:?}, the type has {:?}", v.marker_traits, n.markers);
    } else {
        ensure!(n.markers.contains(v.marker_traits), "markers", "shape claims {:?}, the type has {:?}", v.marker_traits, n.markers);
    }
    for (q, m, name) in [
        (s.is_eq(), MarkerTraits::EQ, "is_eq"),
        (s.is_send(), MarkerTraits::SEND, "is_send"),
        (s.is_sync(), MarkerTraits::SYNC, "is_sync"),
        (s.is_copy(), MarkerTraits::COPY, "is_copy"),
        (v.is_eq(), MarkerTraits::EQ, "vtable is_eq"),
        (v.is_send(), MarkerTraits::SEND, "vtable is_send"),
        (v.is_sync(), MarkerTraits::SYNC, "vtable is_sync"),
        (v.is_copy(), MarkerTraits::COPY, "vtable is_copy"),
        (v.is_unpin(), MarkerTraits::UNPIN, "vtable is_unpin"),
    ] {
        ensure!(q == v.marker_traits.contains(m), "markers", "{name} says {q}");
    }
    for (q, w, name) in [
        (s.is_clone(), v.clone_into.is_some(), "is_clone"),
        (s.is_display(), v.display.is_some(), "is_display"),
        (s.is_debug(), v.debug.is_some(), "is_debug"),
        (s.is_partial_eq(), v.eq.is_some(), "is_partial_eq"),
        (s.is_partial_ord(), v.partial_ord.is_some(), "is_partial_ord"),
        (s.is_ord(), v.ord.is_some(), "is_ord"),
        (s.is_hash(), v.hash.is_some(), "is_hash"),
        (s.is_default(), v.default_in_place.is_some(), "is_default"),
        (s.is_from_str(), v.parse.is_some(), "is_from_str"),
    ] {
        ensure!(q == w, "offered", "{name} says {q}");
    }
    let drops = n.needs_drop;
    ensure!(!drops || v.drop_in_place.is_some(), "offered", "no drop_in_place although the type must be dropped");
    Ok(())
}

fn pair_checks(n: &Native, class: Class, a: V, b: V) -> R {
    let s = n.shape;
    let v = s.vtable;
    let (pa, pb) = (PtrConst::new(a), PtrConst::new(b));
    if v.debug.is_some() {
        if let Some(d) = n.debug {
            for k in 0..if class == Class::Exact { NFMT } else { 1 } {
                let (e, w) = (dbg(&E(pa, s), k), d(a, k));
                ensure!(e == w, "debug", "erased {e:?}, native {w:?} (format {k})");
                cov!("debug compared");
            }
        }
    }
    if v.display.is_some() {
        if let Some(d) = n.display {
            for k in 0..if class == Class::Exact { NFMT } else { 1 } {
                let (e, w) = (dsp(&E(pa, s), k), d(a, k));
                ensure!(e == w, "display", "erased {e:?}, native {w:?} (format {k})");
                cov!("display compared");
            }
        }
    }
    if let (Some(e), Some(w)) = (v.eq, n.eq) {
        for (x, y, px, py) in [(a, b, pa, pb), (b, a, pb, pa), (a, a, pa, pa)] {
            let (g, w) = (unsafe { e(px, py) }, w(x, y));
            ensure!(g == w, "eq", "{} == {}: erased {g}, native {w}", show(n, x), show(n, y));
            if g { cov!("eq compared: equal") } else { cov!("eq compared: different") }
        }
    }
    if let (Some(e), Some(w)) = (v.partial_ord, n.partial_ord) {
        for (x, y, px, py) in [(a, b, pa, pb), (b, a, pb, pa), (a, a, pa, pa)] {
            let (g, w) = (unsafe { e(px, py) }, w(x, y));
            ensure!(g == w, "partial_ord", "{} ? {}: erased {g:?}, native {w:?}", show(n, x), show(n, y));
            cov!("partial_ord compared");
        }
    }
    if let (Some(e), Some(w)) = (v.ord, n.ord) {
        for (x, y, px, py) in [(a, b, pa, pb), (b, a, pb, pa), (a, a, pa, pa)] {
            let (g, w) = (unsafe { e(px, py) }, w(x, y));
            ensure!(g == w, "ord", "{} ? {}: erased {g:?}, native {w:?}", show(n, x), show(n, y));
            cov!("ord compared");
        }
    }
    if v.hash.is_some() {
        let (ha, hb) = (ehash(pa, s), ehash(pb, s));
        ensure!(ha == ehash(pa, s), "hash", "hashing twice gives two results");
        if let Some(w) = n.hash {
            let mut r = Rec::default();
            w(a, &mut r);
            ensure!(r == ha, "hash", "{}: erased feeds {:?}, native feeds {:?}", show(n, a), ha.0, r.0);
            cov!("hash compared");
        }
        if let Some(e) = n.eq {
            ensure!(!e(a, b) || ha == hb, "hash", "{} equals {} but hashes differently", show(n, a), show(n, b));
        }
    }
    Ok(())
}

fn own_checks(n: &Native, class: Class, seed: u64) -> R {
    let s = n.shape;
    let v = s.vtable;
    let make = || Val::make(n, seed);
    // erased drop
    let m = Mem::new(s);
    unsafe { (n.make)(&mut Rng::new(seed), m.0) };
    match v.drop_in_place {
        Some(d) => {
            let u = unsafe { d(m.m()) };
            ensure!(u.as_byte_ptr() == m.0 as *const u8, "drop", "drop_in_place returns another place");
        }
        None => ensure!(!n.needs_drop, "drop", "cannot be dropped"),
    }
    drop(m);
    cov!("erased drops");
    // erased clone: independent of the original
    if let Some(cl) = v.clone_into {
        let m = Mem::new(s);
        let orig = make();
        let p = unsafe { cl(orig.0.c(), m.uninit()) };
        let moved = p.as_byte_ptr() != m.0 as *const u8;
        drop(orig);
        let got = Val::own(m, n);
        ensure!(!moved, "clone", "clone_into returns another place");
        let want = make();
        let ok = match (class, n.eq) {
            (Class::Unordered, Some(e)) => !e(want.p(), want.p()) || e(got.p(), want.p()),
            (Class::Unordered, None) => true,
            _ => same(n, got.p(), want.p()) != Some(false),
        };
        ensure!(ok, "clone", "clone is {}, original was {}", show(n, got.p()), show(n, want.p()));
        drop((got, want));
        cov!("erased clones");
        // … and the original of the clone
        let m = Mem::new(s);
        let o = make();
        unsafe {
            cl(o.0.c(), m.uninit());
            if let Some(d) = v.drop_in_place {
                d(m.m());
            }
        }
        let ok = class == Class::Unordered || same(n, o.p(), make().p()) != Some(false);
        ensure!(ok, "clone", "dropping the clone changed the original");
    }
    if let Some(de) = v.default_in_place {
        let m = Mem::new(s);
        let p = unsafe { de(m.uninit()) };
        let moved = p.as_byte_ptr() != m.0 as *const u8;
        let got = Val::own(m, n);
        ensure!(!moved, "default", "default_in_place returns another place");
        if let Some(w) = n.default {
            let m = Mem::new(s);
            unsafe { w(m.0) };
            let want = Val::own(m, n);
            let ok = same(n, got.p(), want.p()) != Some(false);
            ensure!(ok, "default", "erased {}, native {}", show(n, got.p()), show(n, want.p()));
            cov!("erased defaults");
        }
    }
    Ok(())
}
fn parse_checks(n: &Native, text: &str) -> R {
    let s = n.shape;
    let Some(p) = s.vtable.parse else { return Ok(()) };
    let m = Mem::new(s);
    let native = || {
        n.parse.map(|f| {
            let m = Mem::new(s);
            if unsafe { f(text, m.0) } { Some(Val::own(m, n)) } else { None }
        })
    };
    match unsafe { p(text, m.uninit()) } {
        Ok(q) => {
            let moved = q.as_byte_ptr() != m.0 as *const u8;
            let g = Val::own(m, n);
            ensure!(!moved, "parse", "parse returns another place");
            cov!("texts parsed");
            match native() {
                Some(None) => bail!("parse", "{text:?} parsed as {}, natively refused", show(n, g.p())),
                Some(Some(w)) if same(n, g.p(), w.p()) == Some(false) => bail!("parse", "{text:?} parsed as {}, natively {}", show(n, g.p()), show(n, w.p())),
                _ => {}
            }
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
            if let Some(w) = native() {
                ensure!(w.is_none(), "parse", "{text:?} refused, natively {}", show(n, w.unwrap().p()));
                cov!("texts refused as natively");
            }
        }
    }
    Ok(())
}

const TEXTS: &[&str] = &[
    "", " ", "0", "-0", "+0", "1", "-1", "+1", "00", "007", "255", "256", "-128", "-129", "127", "128", "65535", "65536", "32768", "-32769", "2147483648", "4294967296",
    "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
    "170141183460469231731687303715884105728", "1.5", ".5", "5.", "1e5", "1E+400", "-1e-400", "nan", "NaN", "inf", "-infinity", "true", "false", "True", "TRUE", "t",
    "a", "ab", "é", "\u{10FFFF}", "\0", " 1", "1 ", "0x10", "1_000", "127.0.0.1", "127.0.0.01", "256.0.0.1", "::1", "::", "fe80::1%1", "[::1]:80", "1.2.3.4:65535", "1.2.3.4:65536",
    "/a/../b", "text with spaces\nand lines", "Some(1)", "None", "()", "[1]", "\u{feff}1", "１", "−1", "1\0",
];

pub struct Probe {
    pub name: &'static str,
    class: Class,
    pub n: Native,
}
fn run_probe(c: &mut Ctx, name: &str, class: Class, n: &Native, r: &mut Rng, round: usize) {
    let sig = format!("{name}");
    if round == 0 {
        c.case(&format!("{sig}/static"), name, || static_checks(n, class));
        for t in TEXTS {
            c.case(&format!("{sig}/text"), t, || parse_checks(n, t));
        }
    }
    let (s1, s2) = (r.next(), r.next());
    let make = |s: u64| Val::make(n, s);
    let inp = format!("{name} seeds {s1} {s2}");
    // values are made outside the monitored part only where they are needed in it
    c.case(&format!("{sig}/ops"), &inp, || {
        let (a, b) = (make(s1), make(s2));
        tr!("a={} b={}", show(n, a.p()), show(n, b.p()));
        pair_checks(n, class, a.p(), b.p())?;
        let a2 = make(s1);
        pair_checks(n, class, a.p(), a2.p())
    });
    c.case(&format!("{sig}/own"), &inp, || own_checks(n, class, s1));
    if n.shape.vtable.parse.is_some() {
        // texts derived from a value of the type
        let v = make(s1);
        let base = n.display.or(n.debug).map(|d| d(v.p(), 0)).unwrap_or_default();
        drop(v);
        let mut t: Vec<char> = base.chars().collect();
        for _ in 0..r.below(3) {
            let pool = ['0', '1', '9', '-', '+', '.', ':', 'e', ' ', 'a', 'é', '/', '\0', '_', 'f'];
            match r.below(3) {
                0 if !t.is_empty() => {
                    let i = r.below(t.len());
                    t.remove(i);
                }
                1 if !t.is_empty() => {
                    let i = r.below(t.len());
                    t[i] = *r.pick(&pool);
                }
                _ => t.insert(r.below(t.len() + 1), *r.pick(&pool)),
            }
        }
        let t: String = t.into_iter().collect();
        c.case(&format!("{sig}/text"), &t, || parse_checks(n, &t));
    }
}
macro_rules! probe {
    ($v:ident, $class:expr, $t:ty, $g:expr) => {{
        let name = stringify!($t);
        $v.push(Probe {
            name,
            class: $class,
            n: native!($t, |r, p| {
                let g: fn(&mut Rng) -> $t = $g;
                unsafe { (p as *mut $t).write(g(r)) }
            }),
        });
    }};
}
fn tok(r: &mut Rng) -> Tok {
    Tok::new(r.next() % 4)
}
fn small(r: &mut Rng) -> u64 {
    r.next() % 4
}
fn edge(r: &mut Rng) -> u128 {
    match r.below(5) {
        0 => r.next() as u128 % 3,
        1 => r.next() as u128,
        2 => (1u128 << r.below(128)).wrapping_sub(r.next() as u128 % 3),
        3 => u128::MAX - r.next() as u128 % 3,
        _ => (r.next() as u128) << 64 | r.next() as u128,
    }
}
fn string(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "a".into(),
        2 => "b".into(),
        3 => "héé\u{2603}\"\\\n".into(),
        4 => "a somewhat longer text that lives on the heap".into(),
        5 => (0..r.below(6)).map(|_| char::from_u32(r.next() as u32 % 0x250).unwrap_or('x')).collect(),
        6 => "a\0b".into(),
        _ => "ab".into(),
    }
}
fn sstr(r: &mut Rng) -> &'static str {
    *r.pick(&["", "a", "b", "ab", "a longer static text", "é", "a\0"])
}
fn f64v(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 0.1, 1e21, 1e-7]),
        1 => f64::from_bits(r.next()),
        2 => small(r) as f64 / 2.0,
        _ => *r.pick(&[0.0, 1.0, -1.0, f64::NAN]),
    }
}
fn nz<T: Copy + TryFrom<u128>>(r: &mut Rng, max: u128) -> T {
    let v = (edge(r) & max).max(1);
    T::try_from(v).ok().unwrap()
}
fn vecof<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Vec<T> {
    (0..r.below(4)).map(|_| f(r)).collect()
}
fn path(r: &mut Rng) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    match r.below(3) {
        0 => PathBuf::from(std::ffi::OsString::from_vec(vec![b'a', 0xff, b'/', 0x80])),
        _ => PathBuf::from(*r.pick(&["", "/", "a/b", "a//b/", "./a", "/x/../y", "é"])),
    }
}
fn ip4(r: &mut Rng) -> Ipv4Addr {
    *r.pick(&[Ipv4Addr::new(0, 0, 0, 0), Ipv4Addr::new(127, 0, 0, 1), Ipv4Addr::new(255, 255, 255, 255), Ipv4Addr::new(1, 20, 200, 3)])
}
fn ip6(r: &mut Rng) -> Ipv6Addr {
    match r.below(3) {
        0 => Ipv6Addr::from(edge(r)),
        1 => ip4(r).to_ipv6_mapped(),
        _ => *r.pick(&[Ipv6Addr::LOCALHOST, Ipv6Addr::UNSPECIFIED]),
    }
}
fn ip(r: &mut Rng) -> IpAddr {
    if r.chance(1, 2) { IpAddr::V4(ip4(r)) } else { IpAddr::V6(ip6(r)) }
}

// derived types, each with a different set of traits
use facet::Facet as FacetD;
#[derive(FacetD, Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AllS { a: u32, b: String, t: Tok }
#[derive(FacetD, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct CopyS { a: u32, b: i8 }
#[derive(FacetD)]
pub struct NoneS { a: u32, b: Tok }
/// a hasher which may not leave its thread
#[derive(FacetD, Default, Debug)]
pub struct LocalHash { here: PhantomData<*const u8> }
impl std::hash::BuildHasher for LocalHash {
    type Hasher = std::hash::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}
#[derive(FacetD, Debug)]
pub struct OnlyDebug { a: Tok }
#[derive(FacetD, Clone)]
pub struct OnlyClone { a: Tok, s: String }
#[derive(FacetD, Default)]
pub struct OnlyDefault { a: Tok, s: String }
#[derive(FacetD, PartialEq)]
pub struct OnlyEq { a: f64, t: Tok }
#[derive(FacetD, PartialEq, PartialOrd, Debug)]
pub struct OnlyPOrd { a: f64, t: Tok }
#[derive(FacetD, Hash)]
pub struct OnlyHash { a: u32, t: Tok }
#[derive(FacetD, Debug, Clone)]
pub struct TupD(u8, Tok, String);
#[derive(FacetD, Debug, Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct UnitD;
#[derive(FacetD, Debug, Clone, PartialEq)]
#[repr(align(64))]
pub struct Aligned { a: u8, t: Tok }
#[derive(FacetD, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum EnumD { A, B(Tok), C { x: u32, y: String } }
#[derive(FacetD, Debug, Clone, Default, PartialEq)]
pub struct GenD<T: 'static, const N: usize> where T: Facet + 'static { a: T, b: Vec<T>, c: PhantomData<T> }
/// hand-written operations that differ from what deriving would give, and count their calls
#[derive(FacetD)]
pub struct Odd { a: i32, t: Tok }
impl Debug for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad(&format!("Odd<{}>", self.a))
    }
}
impl Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "odd:{}{}", self.a, if f.alternate() { "!" } else { "" })
    }
}
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.a % 2 == o.a % 2
    }
}
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.a == 3 { None } else { Some(o.a.cmp(&self.a)) } // reversed and partial
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Odd) -> Ordering {
        (self.a % 2).cmp(&(o.a % 2))
    }
}
impl Hash for Odd {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.a % 2).hash(h);
        h.write_u8(7);
        h.write_i128(-5);
        h.write(b"xyz");
    }
}
impl Clone for Odd {
    fn clone(&self) -> Odd {
        Odd { a: self.a, t: self.t.clone() }
    }
}
impl Default for Odd {
    fn default() -> Odd {
        Odd { a: 41, t: Tok::new(41) }
    }
}
impl FromStr for Odd {
    type Err = ();
    fn from_str(s: &str) -> Result<Odd, ()> {
        let a: i32 = s.parse().map_err(|_| ())?;
        let t = Tok::new(5);
        if a < 0 { Err(()) } else { Ok(Odd { a, t }) }
    }
}
/// not Send, not Sync, not Unpin
#[derive(FacetD)]
pub struct Markers { p: std::ptr::NonNull<u8>, n: u32 }
#[derive(FacetD, Debug, Clone, Copy, PartialEq)]
pub struct FloatNoEq { x: f32 }

fn s4<T: Default + Clone, const N: usize>(r: &mut Rng, f: fn(&mut Rng) -> T) -> [T; N] {
    std::array::from_fn(|_| f(r))
}
fn u(r: &mut Rng) -> u32 {
    small(r) as u32
}
fn s8(r: &mut Rng) -> u8 {
    small(r) as u8
}

pub fn probes() -> Vec<Probe> {
    use Class::*;
    let mut v: Vec<Probe> = vec![];
    macro_rules! ints { ($($t:ty),*) => {$( probe!(v, Exact, $t, |r| edge(r) as $t); )*} }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    macro_rules! nzs { ($($t:ty),*) => {$( probe!(v, Exact, NonZero<$t>, |r| NonZero::new(match edge(r) as $t { 0 => 1, x => x }).unwrap()); )*} }
    nzs!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    probe!(v, Exact, f64, |r| f64v(r));
    probe!(v, Exact, f32, |r| f64v(r) as f32);
    probe!(v, Exact, bool, |r| r.chance(1, 2));
    probe!(v, Exact, char, |r| match r.below(3) { 0 => 'a', 1 => char::from_u32(r.next() as u32 % 0x110000).unwrap_or('\''), _ => *r.pick(&['\0', '\n', '"', '\'', '\u{10ffff}', '\u{301}']) });
    probe!(v, Exact, (), |_| ());
    probe!(v, Exact, String, |r| string(r));
    probe!(v, Exact, &'static str, |r| sstr(r));
    probe!(v, Exact, Cow<'static, str>, |r| if r.chance(1, 2) { Cow::Borrowed(sstr(r)) } else { Cow::Owned(string(r)) });
    probe!(v, Exact, PathBuf, |r| path(r));
    probe!(v, Exact, &'static Path, |r| Path::new(sstr(r)));
    probe!(v, Exact, Ipv4Addr, |r| ip4(r));
    probe!(v, Exact, Ipv6Addr, |r| ip6(r));
    probe!(v, Exact, IpAddr, |r| ip(r));
    probe!(v, Exact, SocketAddr, |r| SocketAddr::new(ip(r), r.next() as u16));
    probe!(v, Same, PhantomData<u8>, |_| PhantomData);
    probe!(v, Same, PhantomData<str>, |_| PhantomData);
    probe!(v, Exact, ConstTypeId, |r| *r.pick(&[ConstTypeId::of::<u8>(), ConstTypeId::of::<String>(), ConstTypeId::of::<[u8]>()]));
    probe!(v, Same, std::hash::RandomState, |_| std::hash::RandomState::new());
    probe!(v, Exact, Tok, |r| tok(r));
    // derived
    probe!(v, Exact, AllS, |r| AllS { a: u(r), b: string(r), t: tok(r) });
    probe!(v, Exact, CopyS, |r| CopyS { a: u(r), b: small(r) as i8 });
    probe!(v, Exact, NoneS, |r| NoneS { a: u(r), b: tok(r) });
    probe!(v, Exact, OnlyDebug, |r| OnlyDebug { a: tok(r) });
    probe!(v, Exact, OnlyClone, |r| OnlyClone { a: tok(r), s: string(r) });
    probe!(v, Exact, OnlyDefault, |r| OnlyDefault { a: tok(r), s: string(r) });
    probe!(v, Exact, OnlyEq, |r| OnlyEq { a: f64v(r), t: tok(r) });
    probe!(v, Exact, OnlyPOrd, |r| OnlyPOrd { a: f64v(r), t: tok(r) });
    probe!(v, Exact, OnlyHash, |r| OnlyHash { a: u(r), t: tok(r) });
    probe!(v, Exact, TupD, |r| TupD(r.next() as u8, tok(r), string(r)));
    probe!(v, Exact, UnitD, |_| UnitD);
    probe!(v, Exact, Aligned, |r| Aligned { a: 3, t: tok(r) });
    probe!(v, Exact, EnumD, |r| match r.below(3) { 0 => EnumD::A, 1 => EnumD::B(tok(r)), _ => EnumD::C { x: u(r), y: string(r) } });
    probe!(v, Same, GenD<String, 3>, |r| GenD { a: string(r), b: vecof(r, string), c: PhantomData });
    probe!(v, Exact, Odd, |r| Odd { a: u(r) as i32, t: tok(r) });
    probe!(v, Exact, Markers, |r| Markers { p: std::ptr::NonNull::dangling(), n: u(r) });
    probe!(v, Exact, FloatNoEq, |r| FloatNoEq { x: f64v(r) as f32 });
    probe!(v, Exact, fvl::zoo::TokNest, |r| <fvl::zoo::TokNest as fvl::model::Model>::arb(r, 2));
    probe!(v, Exact, fvl::zoo::TokEnum, |r| <fvl::zoo::TokEnum as fvl::model::Model>::arb(r, 2));
    probe!(v, Exact, fvl::zoo::Mixed, |r| <fvl::zoo::Mixed as fvl::model::Model>::arb(r, 2));
    probe!(v, Exact, fvl::zoo::R64, |r| <fvl::zoo::R64 as fvl::model::Model>::arb(r, 2));
    // generic containers
    macro_rules! opts { ($($t:ty, $f:expr);* $(;)?) => {$(
        probe!(v, Same, Option<$t>, |r| if r.chance(1, 3) { None } else { let f: fn(&mut Rng) -> $t = $f; Some(f(r)) });
        probe!(v, Same, Vec<$t>, |r| vecof::<$t>(r, $f));
        probe!(v, Same, Arc<$t>, |r| { let f: fn(&mut Rng) -> $t = $f; Arc::new(f(r)) });
        probe!(v, Same, [$t; 0], |_| []);
        probe!(v, Same, [$t; 1], |r| { let f: fn(&mut Rng) -> $t = $f; [f(r)] });
        probe!(v, Same, [$t; 3], |r| { let f: fn(&mut Rng) -> $t = $f; [f(r), f(r), f(r)] });
        probe!(v, Same, ($t,), |r| { let f: fn(&mut Rng) -> $t = $f; (f(r),) });
        probe!(v, Same, (u8, $t), |r| { let f: fn(&mut Rng) -> $t = $f; (s8(r), f(r)) });
        probe!(v, Same, ($t, u8, $t), |r| { let f: fn(&mut Rng) -> $t = $f; (f(r), s8(r), f(r)) });
    )*} }
    opts! {
        u32, |r| u(r);
        Tok, |r| tok(r);
        String, |r| string(r);
        f64, |r| f64v(r);
        (), |_| ();
        u8, |r| s8(r);
        Vec<Tok>, |r| vecof(r, tok);
        Option<Tok>, |r| if r.chance(1, 2) { None } else { Some(tok(r)) };
        (Tok, u8), |r| (tok(r), s8(r));
        [Tok; 2], |r| [tok(r), tok(r)];
        Arc<Tok>, |r| Arc::new(tok(r));
        AllS, |r| AllS { a: u(r), b: string(r), t: tok(r) };
        NoneS, |r| NoneS { a: u(r), b: tok(r) };
        OnlyDebug, |r| OnlyDebug { a: tok(r) };
        OnlyClone, |r| OnlyClone { a: tok(r), s: string(r) };
        OnlyDefault, |r| OnlyDefault { a: tok(r), s: string(r) };
        OnlyEq, |r| OnlyEq { a: f64v(r), t: tok(r) };
        OnlyPOrd, |r| OnlyPOrd { a: f64v(r), t: tok(r) };
        OnlyHash, |r| OnlyHash { a: u(r), t: tok(r) };
        CopyS, |r| CopyS { a: u(r), b: 1 };
        Odd, |r| Odd { a: u(r) as i32, t: tok(r) };
        Markers, |r| Markers { p: std::ptr::NonNull::dangling(), n: u(r) };
        Aligned, |r| Aligned { a: 1, t: tok(r) };
        EnumD, |r| if r.chance(1, 2) { EnumD::A } else { EnumD::B(tok(r)) };
        UnitD, |_| UnitD;
        char, |r| *r.pick(&['a', 'b', '\n']);
        NonZero<u8>, |r| NonZero::new(1 + s8(r)).unwrap();
        Option<String>, |r| if r.chance(1, 2) { None } else { Some(string(r)) };
        &'static str, |r| sstr(r);
    }
    probe!(v, Same, [u32; 33], |r| s4(r, u));
    probe!(v, Same, [u32; 32], |r| s4(r, u));
    probe!(v, Same, [u8; 7], |r| s4(r, s8));
    probe!(v, Same, [String; 2], |r| s4(r, string));
    probe!(v, Same, [[u8; 2]; 2], |r| [s4(r, s8), s4(r, s8)]);
    probe!(v, Same, &'static [u32], |r| *r.pick(&[&[][..], &[1], &[1, 2], &[2, 1], &[1, 2, 3]]));
    probe!(v, Same, &'static [&'static str], |r| *r.pick(&[&[][..], &["a"], &["a", "b"], &["ab"], &["", "ab"]]));
    probe!(v, Same, &'static [f64], |r| *r.pick(&[&[][..], &[1.0], &[f64::NAN], &[0.0, 1.0], &[-0.0, 1.0]]));
    probe!(v, Same, (u8, u16, u32, u64), |r| (s8(r), u(r) as u16, u(r), small(r)));
    probe!(v, Same, (Tok, String, u8, Tok, f64), |r| (tok(r), string(r), s8(r), tok(r), f64v(r)));
    probe!(v, Same, (u8, u8, u8, u8, u8, Tok), |r| (s8(r), s8(r), s8(r), s8(r), s8(r), tok(r)));
    probe!(v, Same, (u8, u64, u8, u64, u8, Tok, u8), |r| (s8(r), small(r), s8(r), 2, s8(r), tok(r), 1));
    probe!(v, Same, (u8, u16, u8, u32, u8, Tok, u8, String), |r| (s8(r), 1, s8(r), 2, s8(r), tok(r), 1, string(r)));
    probe!(v, Same, (u8, u16, u8, u32, u8, Tok, u8, String, Tok), |r| (s8(r), 1, s8(r), 2, s8(r), tok(r), 1, string(r), tok(r)));
    probe!(v, Same, (u8, u16, u8, u32, u8, Tok, u8, u8, u8, u8), |r| (s8(r), 1, s8(r), 2, s8(r), tok(r), 1, 1, 1, s8(r)));
    probe!(v, Same, (u8, u16, u8, u32, u8, Tok, u8, u8, u8, u8, Tok), |r| (s8(r), 1, s8(r), 2, s8(r), tok(r), 1, 1, 1, s8(r), tok(r)));
    probe!(v, Same, (u8, u16, u8, u32, u8, Tok, u8, u8, u8, u8, u8, Tok), |r| (s8(r), 1, s8(r), 2, s8(r), tok(r), 1, 1, 1, s8(r), s8(r), tok(r)));
    probe!(v, Same, (Vec<u8>, (Tok, [Tok; 2])), |r| (vecof(r, s8), (tok(r), [tok(r), tok(r)])));
    probe!(v, Same, BTreeMap<u32, Tok>, |r| (0..r.below(4)).map(|_| (u(r), tok(r))).collect());
    probe!(v, Same, BTreeMap<String, Vec<Tok>>, |r| (0..r.below(4)).map(|_| (string(r), vecof(r, tok))).collect());
    probe!(v, Same, BTreeMap<Tok, f64>, |r| (0..r.below(4)).map(|_| (tok(r), f64v(r))).collect());
    probe!(v, Same, BTreeMap<u8, NoneS>, |r| (0..r.below(4)).map(|_| (s8(r), NoneS { a: 1, b: tok(r) })).collect());
    probe!(v, Unordered, HashMap<u32, Tok>, |r| (0..r.below(4)).map(|_| (u(r), tok(r))).collect());
    probe!(v, Unordered, HashMap<String, Vec<Tok>>, |r| (0..r.below(4)).map(|_| (string(r), vecof(r, tok))).collect());
    probe!(v, Unordered, HashMap<Tok, f64>, |r| (0..r.below(4)).map(|_| (tok(r), f64v(r))).collect());
    probe!(v, Unordered, HashMap<u8, NoneS>, |r| (0..r.below(4)).map(|_| (s8(r), NoneS { a: 1, b: tok(r) })).collect());
    probe!(v, Unordered, HashMap<u32, Tok, LocalHash>, |r| (0..r.below(4)).map(|_| (u(r), tok(r))).collect());
    probe!(v, Unordered, HashMap<(u8, Tok), Option<Tok>>, |r| (0..r.below(4)).map(|_| ((s8(r), tok(r)), Some(tok(r)))).collect());
    probe!(v, Same, Weak<Tok>, |_| Weak::new());
    probe!(v, Same, std::ptr::NonNull<u64>, |r| std::ptr::NonNull::new((small(r) as usize * 8 + 8) as *mut u64).unwrap());
    v
}
pub mod one {
    #[derive(facet::Facet, Debug, Clone, PartialEq)]
    pub struct Twin { pub a: u32, pub t: fvl::mon::Tok }
    #[derive(facet::Facet, Debug, Clone, PartialEq)]
    #[repr(u8)]
    pub enum TwinE { A, B(u32) }
}
pub mod two {
    #[derive(facet::Facet, Debug, Clone, PartialEq)]
    pub struct Twin { pub a: u32, pub t: fvl::mon::Tok }
    #[derive(facet::Facet, Debug, Clone, PartialEq)]
    #[repr(u8)]
    pub enum TwinE { A, B(u32) }
}
#[derive(FacetD, Debug, Clone, PartialEq)]
#[repr(transparent)]
pub struct NewU32(pub u32);
#[derive(FacetD, Debug, Clone, PartialEq)]
#[repr(transparent)]
pub struct NewStr { pub s: String }
#[derive(FacetD, Debug, Clone, PartialEq)]
pub struct Gen<T: 'static> where T: Facet + 'static { pub t: T }
#[derive(FacetD, Debug, Clone, PartialEq)]
pub struct Tagged<T: 'static> where T: 'static { pub x: u32, pub p: PhantomData<T> }
#[derive(FacetD, Debug, Clone, PartialEq)]
pub struct Sized_<const N: usize> { pub x: u32 }
/// types that are easily taken for each other: same layout, same name, same contents
pub fn lookalikes() -> Vec<Probe> {
    use Class::*;
    let mut v: Vec<Probe> = vec![];
    probe!(v, Exact, one::Twin, |r| one::Twin { a: u(r), t: tok(r) });
    probe!(v, Exact, two::Twin, |r| two::Twin { a: u(r), t: tok(r) });
    probe!(v, Exact, one::TwinE, |r| if r.chance(1, 2) { one::TwinE::A } else { one::TwinE::B(u(r)) });
    probe!(v, Exact, two::TwinE, |r| if r.chance(1, 2) { two::TwinE::A } else { two::TwinE::B(u(r)) });
    probe!(v, Exact, NewU32, |r| NewU32(u(r)));
    probe!(v, Exact, NewStr, |r| NewStr { s: string(r) });
    probe!(v, Same, Gen<u32>, |r| Gen { t: u(r) });
    probe!(v, Same, Gen<i32>, |r| Gen { t: u(r) as i32 });
    probe!(v, Same, Gen<f32>, |r| Gen { t: u(r) as f32 });
    probe!(v, Same, Gen<String>, |r| Gen { t: string(r) });
    probe!(v, Same, Gen<Gen<u32>>, |r| Gen { t: Gen { t: u(r) } });
    probe!(v, Same, Gen<Vec<u8>>, |r| Gen { t: vecof(r, s8) });
    probe!(v, Same, Tagged<u32>, |r| Tagged { x: u(r), p: PhantomData });
    probe!(v, Same, Tagged<i32>, |r| Tagged { x: u(r), p: PhantomData });
    probe!(v, Same, Tagged<Gen<u32>>, |r| Tagged { x: u(r), p: PhantomData });
    probe!(v, Same, Sized_<0>, |r| Sized_ { x: u(r) });
    probe!(v, Same, Sized_<1>, |r| Sized_ { x: u(r) });
    probe!(v, Same, PhantomData<[u8]>, |_| PhantomData);
    probe!(v, Same, Vec<i8>, |r| vecof(r, |r| s8(r) as i8));
    probe!(v, Same, Vec<i32>, |r| vecof(r, |r| u(r) as i32));
    probe!(v, Same, Vec<Vec<u32>>, |r| vecof(r, |r| vecof(r, u)));
    probe!(v, Same, Option<i32>, |r| if r.chance(1, 2) { None } else { Some(u(r) as i32) });
    probe!(v, Same, Option<Option<u32>>, |r| match r.below(3) { 0 => None, 1 => Some(None), _ => Some(Some(u(r))) });
    probe!(v, Same, [u32; 2], |r| [u(r), u(r)]);
    probe!(v, Same, [i32; 3], |r| [u(r) as i32, 1, 2]);
    probe!(v, Same, (u32, i32), |r| (u(r), 1));
    probe!(v, Same, (i32, u32), |r| (1, u(r)));
    probe!(v, Same, (u32, u32), |r| (u(r), u(r)));
    probe!(v, Same, Arc<String>, |r| Arc::new(string(r)));
    probe!(v, Same, Arc<Vec<u8>>, |r| Arc::new(vecof(r, s8)));
    probe!(v, Same, Weak<u32>, |_| Weak::new());
    probe!(v, Same, std::ptr::NonNull<i64>, |r| std::ptr::NonNull::new((small(r) as usize * 8 + 8) as *mut i64).unwrap());
    probe!(v, Same, &'static [i32], |r| *r.pick(&[&[][..], &[1], &[1, 2]]));
    probe!(v, Same, &'static [u8], |r| *r.pick(&[&[][..], b"a", b"ab"]));
    probe!(v, Unordered, HashMap<u32, u32>, |r| (0..r.below(4)).map(|_| (u(r), u(r))).collect());
    probe!(v, Unordered, HashMap<i32, u32>, |r| (0..r.below(4)).map(|_| (u(r) as i32, u(r))).collect());
    probe!(v, Unordered, HashMap<u32, i32>, |r| (0..r.below(4)).map(|_| (u(r), u(r) as i32)).collect());
    probe!(v, Unordered, HashMap<String, String>, |r| (0..r.below(4)).map(|_| (string(r), string(r))).collect());
    probe!(v, Unordered, HashMap<u128, Tok>, |r| (0..r.below(4)).map(|_| (small(r) as u128, tok(r))).collect());
    probe!(v, Same, BTreeMap<i32, Tok>, |r| (0..r.below(4)).map(|_| (u(r) as i32, tok(r))).collect());
    probe!(v, Same, BTreeMap<u128, u8>, |r| (0..r.below(4)).map(|_| (small(r) as u128, s8(r))).collect());
    probe!(v, Same, BTreeMap<Vec<Tok>, u8>, |r| (0..r.below(4)).map(|_| (vecof(r, tok), s8(r))).collect());
    v
}
pub fn p05(c: &mut Ctx) {
    let mut ps = probes();
    ps.extend(lookalikes());
    let mut r = c.rng(5);
    let mut round = 0;
    while c.time_left() {
        for (i, p) in ps.iter().enumerate() {
            if round == 0 && !c.mine(i) && !cfg!(miri) {
                continue;
            }
            if cfg!(miri) && !c.time_left() {
                break;
            }
            run_probe(c, p.name, p.class, &p.n, &mut r, round);
            cov!("types visited");
        }
        round += 1;
    }
}
