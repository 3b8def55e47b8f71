//! P03: what reflection shows of a value against what the value holds.
use facet::Facet;
use facet_core::{ConstTypeId, Def, FieldError, Shape};
use facet_reflect::{HeapValue, Peek, ReflectError, ScalarType, Wip};
use fvl::ctx::{Ctx, R, Rng, fail};
use fvl::model::{Kind, MV, SK, T};
use fvl::mon::{Tok, ZTok};
use fvl::{bail, cov, ensure, zoo};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::NonZero;
use std::sync::Arc;

/// every formatter option a value's own Display / Debug may look at
pub fn renderings(v: &(impl Debug + ?Sized)) -> Vec<String> {
    vec![format!("{v:?}"), format!("{v:#?}"), format!("{v:12?}"), format!("{v:<+9.2?}"), format!("{v:#010x?}"), format!("{v:*^20.1?}")]
}
pub fn showings(v: &(impl Display + ?Sized)) -> Vec<String> {
    vec![format!("{v}"), format!("{v:12}"), format!("{v:<8}|"), format!("{v:+}"), format!("{v:.2}"), format!("{v:*^20.1}"), format!("{v:012}"), format!("{v:#}")]
}
fn h(f: impl FnOnce(&mut DefaultHasher)) -> u64 {
    let mut s = DefaultHasher::new();
    f(&mut s);
    s.finish()
}

fn only_kind(p: Peek<'_>, want: &str) -> R {
    let got: Vec<(&str, Result<(), ReflectError>)> = vec![
        ("struct", p.into_struct().map(|_| ())),
        ("enum", p.into_enum().map(|_| ())),
        ("map", p.into_map().map(|_| ())),
        ("list", p.into_list().map(|_| ())),
        ("option", p.into_option().map(|_| ())),
        ("smart pointer", p.into_smart_pointer().map(|_| ())),
    ];
    for (k, r) in got {
        if k == want {
            if let Err(e) = r {
                bail!("kind", "a {want} is not shown as one: {e:?}");
            }
        } else {
            ensure!(r.is_err(), "kind", "a {want} is shown as a {k}");
            cov!("views of another kind refused");
        }
    }
    Ok(())
}

fn typed<X: Facet + PartialEq + Debug>(p: Peek<'_>, want: &X, st: Option<ScalarType>) -> R {
    match p.get::<X>() {
        Ok(x) => ensure!(x == want, "scalar", "read {x:?}, the value is {want:?}"),
        Err(e) => bail!("scalar", "typed read refused: {e:?}"),
    }
    ensure!(p.scalar_type() == st, "scalar-type", "scalar type {:?}, expected {st:?}", p.scalar_type());
    ensure!(renderings(&p) == renderings(want), "debug", "printed {:?}, natively {:?}", renderings(&p), renderings(want));
    cov!("scalars read");
    Ok(())
}
fn shown<X: Facet + Display>(p: Peek<'_>, want: &X) -> R {
    ensure!(showings(&p) == showings(want), "display", "printed {:?}, natively {:?}", showings(&p), showings(want));
    Ok(())
}
/// a typed read as anything but X is refused
fn refused<X: Facet>(p: Peek<'_>) -> R {
    macro_rules! no { ($($t:ty),*) => { $( if <$t as Facet>::SHAPE.id != X::SHAPE.id { ensure!(p.get::<$t>().is_err(), "scalar", "a {} was read as a {}", X::SHAPE, <$t as Facet>::SHAPE); } )* } }
    no!(u8, i8, u16, u32, i32, u64, i64, usize, isize, f32, f64, bool, char, String, (), u128, Option<u8>, Vec<u8>, NonZero<u8>, NonZero<u64>, Tok);
    Ok(())
}
fn scalar(p: Peek<'_>, sk: &SK, m: &MV) -> R {
    only_kind(p, "scalar")?;
    macro_rules! go { ($t:ty, $v:expr, $st:expr) => {{ let v: $t = $v; typed(p, &v, $st)?; shown(p, &v)?; refused::<$t>(p)? }} }
    match (sk, m) {
        (SK::Bool, MV::Bool(b)) => go!(bool, *b, Some(ScalarType::Bool)),
        (SK::Char, MV::Char(c)) => go!(char, *c, None),
        (SK::Str, MV::Str(s)) => go!(String, s.clone(), Some(ScalarType::String)),
        (SK::F64, MV::F64(b)) => {
            let x = p.get::<f64>().map_err(|e| fail("scalar", format!("{e:?}")))?;
            ensure!(x.to_bits() == *b || x.is_nan() && f64::from_bits(*b).is_nan(), "scalar", "read {x:?}, the value is {:?}", f64::from_bits(*b));
            ensure!(p.scalar_type() == Some(ScalarType::F64), "scalar-type", "{:?}", p.scalar_type());
            ensure!(renderings(&p) == renderings(x), "debug", "printed {:?}", renderings(&p));
            shown(p, x)?;
            refused::<f64>(p)?;
        }
        (SK::F32, MV::F32(b)) => {
            let x = p.get::<f32>().map_err(|e| fail("scalar", format!("{e:?}")))?;
            ensure!(x.to_bits() == *b || x.is_nan() && f32::from_bits(*b).is_nan(), "scalar", "read {x:?}, the value is {:?}", f32::from_bits(*b));
            ensure!(p.scalar_type() == Some(ScalarType::F32), "scalar-type", "{:?}", p.scalar_type());
            ensure!(renderings(&p) == renderings(x), "debug", "printed {:?}", renderings(&p));
            shown(p, x)?;
            refused::<f32>(p)?;
        }
        (SK::Unit, MV::Unit) if p.shape() == ZTok::SHAPE => {
            typed(p, &ZTok::new(), None)?;
            refused::<ZTok>(p)?;
        }
        (SK::Unit, MV::Unit) => {
            typed(p, &(), Some(ScalarType::Unit))?;
            refused::<()>(p)?;
        }
        (SK::Tok, MV::Tok(v)) => {
            let x = p.get::<Tok>().map_err(|e| fail("scalar", format!("{e:?}")))?;
            ensure!(x.val() == *v, "scalar", "read {x:?}, the value is {v}");
            ensure!(renderings(&p) == renderings(x), "debug", "printed {:?}", renderings(&p));
            shown(p, x)?;
        }
        (SK::Int { bits, signed, nonzero, ptr }, _) => {
            macro_rules! int { ($t:ty, $st:expr) => {{
                let v: $t = match m { MV::Int(i) => *i as $t, MV::Big(b) => *b as $t, _ => bail!("harness", "model") };
                if *nonzero { go!(NonZero<$t>, NonZero::new(v).unwrap(), None) } else { go!($t, v, $st) }
            }} }
            match (bits, signed, ptr) {
                (8, false, _) => int!(u8, Some(ScalarType::U8)),
                (16, false, _) => int!(u16, Some(ScalarType::U16)),
                (32, false, _) => int!(u32, Some(ScalarType::U32)),
                (64, false, false) => int!(u64, Some(ScalarType::U64)),
                (64, false, true) => int!(usize, Some(ScalarType::USize)),
                (128, false, _) => int!(u128, None),
                (8, true, _) => int!(i8, Some(ScalarType::I8)),
                (16, true, _) => int!(i16, Some(ScalarType::I16)),
                (32, true, _) => int!(i32, Some(ScalarType::I32)),
                (64, true, false) => int!(i64, Some(ScalarType::I64)),
                (64, true, true) => int!(isize, Some(ScalarType::ISize)),
                (128, true, _) => int!(i128, None),
                _ => bail!("harness", "integer of {bits} bits"),
            }
        }
        _ => bail!("harness", "model"),
    }
    Ok(())
}
fn inside(outer: Peek<'_>, p: Peek<'_>, what: &str) -> R {
    let (o, size) = (outer.data().as_byte_ptr() as usize, outer.shape().layout.size());
    let (a, n) = (p.data().as_byte_ptr() as usize, p.shape().layout.size());
    ensure!(a >= o && a + n <= o + size, "place", "{what} lies outside of its owner");
    Ok(())
}
const STRANGERS: &[&str] = &["", "no such thing", "0", "_0", "Field", "a ", " a", "A", "a.b", "é", "field", "len"];

pub fn walk(p: Peek<'_>, t: T, m: &MV, r: &mut Rng) -> R {
    ensure!(p.shape() == t.shape, "shape", "shown as a {}, it is a {}", p.shape(), t.name);
    ensure!(p.id() == p.id() && p.ptr_eq(&p), "identity", "a peek is not itself");
    match ((t.kind)(), m) {
        (Kind::Scalar(sk), _) => scalar(p, &sk, m)?,
        (Kind::Struct(d), MV::Struct(v)) => {
            only_kind(p, "struct")?;
            let s = p.into_struct().map_err(|e| fail("kind", format!("{e:?}")))?;
            cov!("structs walked");
            ensure!(s.field_count() == v.len(), "fields", "{} fields shown of {}", s.field_count(), v.len());
            ensure!(s.fields().count() == v.len(), "fields", "{} fields listed of {}", s.fields().count(), v.len());
            for (i, (f, q)) in s.fields().enumerate() {
                let fd = &d.fields[i];
                inside(p, q, fd.name)?;
                ensure!(f.name == fd.name, "field-name", "field {i} is called {:?}, not {:?}", f.name, fd.name);
                walk(q, (fd.ty)(), &v[i], r)?;
                let a = s.field(i).map_err(|e| fail("field", format!("field({i}): {e:?}")))?;
                ensure!(a.ptr_eq(&q) && a.shape() == q.shape() && a.id() == q.id(), "field", "field({i}) shows another place than fields()");
                let b = s.field_by_name(fd.name).map_err(|e| fail("field", format!("field_by_name({:?}): {e:?}", fd.name)))?;
                ensure!(b.ptr_eq(&q) && b.shape() == q.shape(), "field", "field_by_name({:?}) shows another place than fields()", fd.name);
            }
            for i in [v.len(), v.len() + 1, v.len() + r.below(1000), usize::MAX] {
                ensure!(matches!(s.field(i), Err(FieldError::IndexOutOfBounds)), "absent", "field({i}) of {} gives {:?}", v.len(), s.field(i).map(|x| x.shape()));
                cov!("absent things refused");
            }
            let mut names: Vec<String> = STRANGERS.iter().map(|s| s.to_string()).collect();
            for f in d.fields {
                names.push(f.name[..f.name.char_indices().last().map(|x| x.0).unwrap_or(0)].to_string());
                names.push(format!("{}x", f.name));
                names.push(f.name.to_uppercase());
                names.push(f.wire.to_string());
            }
            for n in names {
                if d.fields.iter().all(|f| f.name != n) {
                    ensure!(matches!(s.field_by_name(&n), Err(FieldError::NoSuchField)), "absent", "field_by_name({n:?}) gives {:?}", s.field_by_name(&n).map(|x| x.shape()));
                    cov!("absent things refused");
                }
            }
        }
        (Kind::Enum(d), MV::Enum(i, v)) => {
            only_kind(p, "enum")?;
            let e = p.into_enum().map_err(|e| fail("kind", format!("{e:?}")))?;
            cov!("enums walked");
            ensure!(e.variant_count() == d.variants.len() && e.variants().len() == d.variants.len(), "variants", "{} variants shown of {}", e.variant_count(), d.variants.len());
            for k in 0..d.variants.len() {
                ensure!(e.variant_name(k) == Some(d.variants[k].name), "variants", "variant {k} is called {:?}", e.variant_name(k));
            }
            for k in [d.variants.len(), usize::MAX] {
                ensure!(e.variant_name(k).is_none(), "absent", "variant_name({k}) gives {:?}", e.variant_name(k));
            }
            let vd = &d.variants[*i];
            ensure!(e.variant_index() == *i, "active", "variant {} is said to be active, it is {i} ({})", e.variant_index(), vd.name);
            ensure!(e.variant_name_active() == vd.name, "active", "variant {:?} is said to be active, it is {:?}", e.variant_name_active(), vd.name);
            ensure!(e.active_variant().name == vd.name && e.active_variant().discriminant == e.discriminant(), "active", "the active variant's description does not fit");
            ensure!(e.fields().count() == v.len(), "fields", "{} fields shown of {}", e.fields().count(), v.len());
            for (k, (f, q)) in e.fields().enumerate() {
                let fd = &vd.fields[k];
                inside(p, q, f.name)?;
                ensure!(vd.kind == 1 || f.name == fd.name, "field-name", "field {k} is called {:?}, not {:?}", f.name, fd.name);
                walk(q, (fd.ty)(), &v[k], r)?;
                let a = e.field(k).ok_or_else(|| fail("field", format!("field({k}) gives nothing")))?;
                ensure!(a.ptr_eq(&q) && a.shape() == q.shape(), "field", "field({k}) shows another place than fields()");
                ensure!(e.field_index(f.name) == Some(k), "field", "field_index({:?}) gives {:?}", f.name, e.field_index(f.name));
                let b = e.field_by_name(f.name).ok_or_else(|| fail("field", format!("field_by_name({:?}) gives nothing", f.name)))?;
                ensure!(b.ptr_eq(&q) && b.shape() == q.shape(), "field", "field_by_name({:?}) shows another place", f.name);
            }
            for k in [v.len(), v.len() + 1, usize::MAX] {
                ensure!(e.field(k).is_none(), "absent", "field({k}) of {} gives something", v.len());
                cov!("absent things refused");
            }
            let here: Vec<&str> = e.fields().map(|x| x.0.name).collect();
            let mut names: Vec<String> = STRANGERS.iter().map(|s| s.to_string()).collect();
            for (k, o) in e.variants().iter().enumerate() {
                names.extend(o.data.fields.iter().map(|f| f.name.to_string()));
                names.push(d.variants[k].name.to_string());
            }
            for n in names {
                if !here.contains(&n.as_str()) {
                    ensure!(e.field_index(&n).is_none() && e.field_by_name(&n).is_none(), "absent", "the active variant {:?} shows a field {n:?}", vd.name);
                    cov!("fields of other variants refused");
                }
            }
        }
        (Kind::Option(it), _) => {
            only_kind(p, "option")?;
            let o = p.into_option().map_err(|e| fail("kind", format!("{e:?}")))?;
            match m {
                MV::None => {
                    ensure!(o.is_none() && !o.is_some(), "option", "None is shown as Some");
                    ensure!(o.value().is_none(), "option", "None shows a value");
                    cov!("None walked");
                }
                MV::Some(x) => {
                    ensure!(!o.is_none() && o.is_some(), "option", "Some is shown as None");
                    let q = o.value().ok_or_else(|| fail("option", "Some shows no value"))?;
                    inside(p, q, "the value of an option")?;
                    walk(q, it, x, r)?;
                    cov!("Some walked");
                }
                _ => bail!("harness", "model"),
            }
        }
        (Kind::List(it), MV::List(v)) => {
            only_kind(p, "list")?;
            let l = p.into_list().map_err(|e| fail("kind", format!("{e:?}")))?;
            cov!("lists walked");
            ensure!(l.len() == v.len() && l.is_empty() == v.is_empty(), "list", "length {} (empty: {}), it is {}", l.len(), l.is_empty(), v.len());
            let mut it2 = l.iter();
            for (k, x) in v.iter().enumerate() {
                ensure!(it2.size_hint() == (v.len() - k, Some(v.len() - k)) && it2.len() == v.len() - k, "list", "{:?} left after {k} of {}", it2.size_hint(), v.len());
                let q = it2.next().ok_or_else(|| fail("list", format!("the iterator ends after {k} of {}", v.len())))?;
                walk(q, it, x, r)?;
                let a = l.get(k).ok_or_else(|| fail("list", format!("get({k}) of {} gives nothing", v.len())))?;
                ensure!(a.ptr_eq(&q) && a.shape() == q.shape(), "list", "get({k}) shows another place than the iterator");
                cov!("list items walked");
            }
            for _ in 0..3 {
                ensure!(it2.next().is_none() && it2.size_hint() == (0, Some(0)), "list", "the iterator goes on after {} items", v.len());
            }
            for k in [v.len(), v.len() + 1, v.len() + 64, usize::MAX] {
                ensure!(l.get(k).is_none(), "absent", "get({k}) of {} gives something", v.len());
                cov!("absent things refused");
            }
        }
        (Kind::Map(kt, vt), MV::Map(v)) => {
            only_kind(p, "map")?;
            let mp = p.into_map().map_err(|e| fail("kind", format!("{e:?}")))?;
            cov!("maps walked");
            ensure!(mp.len() == v.len() && mp.is_empty() == v.is_empty(), "map", "length {} (empty: {}), it is {}", mp.len(), mp.is_empty(), v.len());
            let mut left: Vec<&(MV, MV)> = v.iter().collect();
            let mut it = mp.iter();
            let stop = if r.chance(1, 5) { r.below(v.len() + 1) } else { v.len() };
            for n in 0..stop {
                let (kp, vp) = it.next().ok_or_else(|| fail("map", format!("the iterator ends after {n} of {}", v.len())))?;
                let at = left.iter().position(|e| walk(kp, kt, &e.0, &mut Rng::new(1)).is_ok());
                let Some(at) = at else { bail!("map", "the iterator shows a key which is not in the map, or shows it twice") };
                let e = left.remove(at);
                walk(vp, vt, &e.1, r)?;
                // the lookup of that key leads to the same place
                macro_rules! look { ($($k:ty),*) => { $( if let Ok(k) = kp.get::<$k>() {
                    let q = mp.get::<$k>(k).ok_or_else(|| fail("lookup", "a key of the map is not found"))?;
                    ensure!(mp.contains_key::<$k>(k), "lookup", "contains_key denies a key of the map");
                    ensure!((q.ptr_eq(&vp) || vp.shape().layout.size() == 0) && q.shape() == vp.shape(), "lookup", "a key leads to another place than the iterator's");
                    cov!("map keys looked up");
                } )* } }
                look!(String, u32, i64, Tok, zoo::TokKey, zoo::KeyE);
                cov!("map entries walked");
            }
            if stop == v.len() {
                for _ in 0..3 {
                    ensure!(it.next().is_none(), "map", "the iterator goes on after {} entries", v.len());
                }
            }
            drop(it);
            macro_rules! none { ($($k:ty, $make:expr, $same:expr);*) => { $( for _ in 0..4 {
                let k: $k = $make;
                let same: fn(&MV, &$k) -> bool = $same;
                if v.iter().any(|e| same(&e.0, &k)) && kt.shape == <$k as Facet>::SHAPE { continue }
                ensure!(mp.get::<$k>(&k).is_none() && !mp.contains_key::<$k>(&k), "absent", "the key {k:?}, which is not in the map, is found");
                cov!("absent keys refused");
            } )* } }
            none! { String, if r.chance(1, 2) { String::new() } else { fvl::model::arb_string(r) }, |m, k| *m == MV::Str(k.clone());
                    u32, r.next() as u32 >> (r.below(32)), |m, k| *m == MV::Int(*k as i128);
                    i64, r.next() as i64 >> (r.below(64)), |m, k| *m == MV::Int(*k as i128);
                    u64, r.next(), |_, _| false; Tok, Tok::new(r.below(40) as u64), |m, k| *m == MV::Tok(k.val()) }
        }
        _ => bail!("harness", "model of {}", t.name),
    }
    Ok(())
}
fn floats(m: &MV) -> bool {
    match m {
        MV::F32(_) | MV::F64(_) => true,
        MV::Struct(v) | MV::Enum(_, v) | MV::List(v) => v.iter().any(floats),
        MV::Some(x) => floats(x),
        MV::Map(v) => v.iter().any(|(k, x)| floats(k) || floats(x)),
        _ => false,
    }
}

/// one typed pair: everything a Peek or a HeapValue answers, beside the native answer
struct Typed {
    name: &'static str,
    scalar: Option<ScalarType>,
    shape: &'static Shape,
    run: fn(&mut Rng) -> R,
}
trait MaybeOrd { fn pc(a: &Self, b: &Self) -> Option<Option<Ordering>>; }
struct P<'a, X>(&'a X);
fn heap<X: Facet + 'static>(x: X) -> Result<HeapValue<'static>, fvl::ctx::Fail> {
    Wip::alloc::<X>().put(x).and_then(|w| w.build()).map_err(|e| fail("heap", format!("{e:?}")))
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Sorted { b: u8, a: i32, s: String }
#[derive(Facet, Debug, Clone, PartialEq, PartialOrd)]
pub struct SortedF { a: f32, b: Option<i8> }
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SortedT(i8, Option<u16>);
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum SortedE { Z, A(u8), M { x: i8, y: String } }
#[derive(Facet, Debug, Clone, PartialEq, Eq, Hash)]
#[repr(i16)]
pub enum EqE { Z, A(u8) = 300, B }
#[derive(Facet)]
pub struct Nothing { _a: u8 }
/// compares backwards, to tell its own order from any other
#[derive(Facet, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Backwards(u8);
impl PartialOrd for Backwards { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(o.0.cmp(&self.0)) } }
impl Display for Backwards { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "b", &self.0.to_string()) } }
#[derive(Facet, Debug, Clone)]
pub struct OddEq(u8);
impl PartialEq for OddEq { fn eq(&self, o: &Self) -> bool { self.0 % 2 == o.0 % 2 } }
impl Hash for OddEq { fn hash<H: Hasher>(&self, h: &mut H) { (self.0 % 2).hash(h) } }

macro_rules! typed {
    ($($t:ty = [$($f:ident)*] $st:expr, $arb:expr;)*) => { vec![$( Typed {
        name: stringify!($t), scalar: $st, shape: <$t as Facet>::SHAPE,
        run: |r| {
            let make: fn(&mut Rng) -> $t = $arb;
            let (seed, flip) = (r.next(), r.chance(1, 2));
            let a: $t = make(&mut Rng::new(seed));
            let b: $t = make(&mut if flip { Rng::new(seed) } else { r.clone() });
            let (p, q) = (Peek::new(&a), Peek::new(&b));
            let (ha, hb) = (heap(make(&mut Rng::new(seed)))?, heap(make(&mut if flip { Rng::new(seed) } else { r.clone() }))?);
            let _ = (&p, &q, &ha, &hb, &a, &b);
            ensure!(p.shape() == ha.peek().shape(), "shape", "a heap value shows another shape");
            ensure!(!p.ptr_eq(&q) || std::mem::size_of::<$t>() == 0, "identity", "two values share a place");
            ensure!(p.id() != q.id() || std::mem::size_of::<$t>() == 0, "identity", "two values share an id");
            $( typed!(@ $f p q ha hb a b $t); )*
            Ok(())
        }
    }),*] };
    (@ debug $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        ensure!(renderings(&$p) == renderings(&$a), "debug", "printed {:?}, natively {:?}", renderings(&$p), renderings(&$a));
        ensure!(renderings(&$ha) == renderings(&$a), "debug", "a heap value printed {:?}, natively {:?}", renderings(&$ha), renderings(&$a));
        cov!("values printed");
    };
    // what the shape does not offer is reported as absent, never answered
    (@ eq_if $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        if $p.shape().vtable.eq.is_some() { typed!(@ eq $p $q $ha $hb $a $b $t); } else { typed!(@ noeq $p $q $ha $hb $a $b $t); }
    };
    (@ ord_if $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        if $p.shape().vtable.partial_ord.is_some() { typed!(@ ord $p $q $ha $hb $a $b $t); } else { typed!(@ noord $p $q $ha $hb $a $b $t); }
    };
    (@ hash_if $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        if $p.shape().vtable.hash.is_some() { typed!(@ hash $p $q $ha $hb $a $b $t); } else { typed!(@ nohash $p $q $ha $hb $a $b $t); }
    };
    (@ debug_if $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        if $p.shape().vtable.debug.is_some() { typed!(@ debug $p $q $ha $hb $a $b $t); }
    };
    (@ display_if $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        if $p.shape().vtable.display.is_some() { typed!(@ display $p $q $ha $hb $a $b $t); }
    };
    (@ display $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        ensure!(showings(&$p) == showings(&$a), "display", "printed {:?}, natively {:?}", showings(&$p), showings(&$a));
        ensure!(showings(&$ha) == showings(&$a), "display", "a heap value printed {:?}, natively {:?}", showings(&$ha), showings(&$a));
    };
    (@ eq $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        for (x, y, p, q) in [(&$a, &$b, &$p, &$q), (&$b, &$a, &$q, &$p), (&$a, &$a, &$p, &$p)] {
            ensure!(Peek::eq(p, q) == Some(x == y), "eq", "Peek::eq gives {:?}, natively {}", Peek::eq(p, q), x == y);
            ensure!(PartialEq::eq(p, q) == (x == y) && PartialEq::ne(p, q) == (x != y), "eq", "== gives {}, natively {}", p == q, x == y);
            if x == y { cov!("compared: equal") } else { cov!("compared: different") }
        }
        ensure!(($ha == $hb) == ($a == $b), "eq", "heap values: == gives {}, natively {}", $ha == $hb, $a == $b);
    };
    (@ ord $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        for (x, y, p, q) in [(&$a, &$b, &$p, &$q), (&$b, &$a, &$q, &$p), (&$a, &$a, &$p, &$p)] {
            let n = PartialOrd::partial_cmp(x, y);
            ensure!(Peek::partial_cmp(p, q) == n, "ord", "Peek::partial_cmp gives {:?}, natively {n:?}", Peek::partial_cmp(p, q));
            ensure!(PartialOrd::partial_cmp(p, q) == n, "ord", "partial_cmp gives {:?}, natively {n:?}", PartialOrd::partial_cmp(p, q));
            ensure!((p < q) == (x < y) && (p <= q) == (x <= y) && (p > q) == (x > y) && (p >= q) == (x >= y), "ord", "<, <=, > and >= disagree with the native ones");
            match n { None => cov!("ordered: not comparable"), Some(Ordering::Less) => cov!("ordered: less"), Some(Ordering::Greater) => cov!("ordered: greater"), _ => cov!("ordered: equal") }
        }
        ensure!($ha.partial_cmp(&$hb) == PartialOrd::partial_cmp(&$a, &$b), "ord", "heap values: partial_cmp gives {:?}, natively {:?}", $ha.partial_cmp(&$hb), PartialOrd::partial_cmp(&$a, &$b));
    };
    (@ noord $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        ensure!(PartialOrd::partial_cmp(&$p, &$q).is_none() && Peek::partial_cmp(&$p, &$q).is_none() && $ha.partial_cmp(&$hb).is_none(), "ord", "values without an order are ordered");
    };
    (@ noeq $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        ensure!(Peek::eq(&$p, &$q).is_none() && !PartialEq::eq(&$p, &$q) && $ha != $hb, "eq", "values that cannot be compared are");
        cov!("values without equality");
    };
    (@ hash $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        let n = h(|s| $a.hash(s));
        ensure!(h(|s| { Peek::hash(&$p, s); }) == n && h(|s| Hash::hash(&$p, s)) == n, "hash", "the hash differs from the native one");
        ensure!(Peek::hash(&$p, &mut DefaultHasher::new()), "hash", "a value that can be hashed is said not to be");
        ensure!(h(|s| { Peek::hash(&$ha.peek(), s); }) == n, "hash", "the hash of a heap value differs from the native one");
        cov!("values hashed");
    };
    (@ nohash $p:ident $q:ident $ha:ident $hb:ident $a:ident $b:ident $t:ty) => {
        ensure!(!Peek::hash(&$p, &mut DefaultHasher::new()), "hash", "a value that cannot be hashed is");
    };
}
fn ai(r: &mut Rng) -> i64 { (r.next() as i64) >> (r.below(8) * 8) }
fn af(r: &mut Rng) -> f64 { *r.pick(&[0.0, -0.0, 1.5, -2.25, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300]) }
fn small(r: &mut Rng) -> String { r.pick(&["", "a", "ab", "b", "é", "日本", "a\u{0}", "\"\n"]).to_string() }
fn table() -> Vec<Typed> {
    use ScalarType as S;
    typed! {
        u8 = [debug display eq ord hash] Some(S::U8), |r| ai(r) as u8;
        u16 = [debug display eq ord hash] Some(S::U16), |r| ai(r) as u16;
        u32 = [debug display eq ord hash] Some(S::U32), |r| ai(r) as u32;
        u64 = [debug display eq ord hash] Some(S::U64), |r| ai(r) as u64;
        usize = [debug display eq ord hash] Some(S::USize), |r| ai(r) as usize;
        u128 = [debug display eq ord hash] None, |r| ai(r) as u128;
        i8 = [debug display eq ord hash] Some(S::I8), |r| ai(r) as i8;
        i16 = [debug display eq ord hash] Some(S::I16), |r| ai(r) as i16;
        i32 = [debug display eq ord hash] Some(S::I32), |r| ai(r) as i32;
        i64 = [debug display eq ord hash] Some(S::I64), |r| ai(r);
        isize = [debug display eq ord hash] Some(S::ISize), |r| ai(r) as isize;
        i128 = [debug display eq ord hash] None, |r| ai(r) as i128;
        f32 = [debug display eq ord nohash] Some(S::F32), |r| af(r) as f32;
        f64 = [debug display eq ord nohash] Some(S::F64), |r| af(r);
        bool = [debug display eq ord hash] Some(S::Bool), |r| r.chance(1, 2);
        char = [debug display eq ord hash] None, |r| *r.pick(&['a', '\n', 'é', '\u{10ffff}']);
        () = [debug eq ord hash] Some(S::Unit), |_| ();
        String = [debug display eq ord hash] Some(S::String), |r| small(r);
        &'static str = [debug display eq ord hash] Some(S::Str), |r| *r.pick(&["", "a", "ab", "é", "\u{0}x"]);
        Cow<'static, str> = [debug display eq ord hash] Some(S::CowStr), |r| if r.chance(1, 2) { Cow::Borrowed("ab") } else { Cow::Owned(small(r)) };
        SocketAddr = [debug display eq ord hash] Some(S::SocketAddr), |r| SocketAddr::new(if r.chance(1, 2) { IpAddr::V4(Ipv4Addr::from(r.below(4) as u32)) } else { IpAddr::V6(Ipv6Addr::from(r.below(4) as u128)) }, r.below(3) as u16);
        IpAddr = [debug display eq ord hash] Some(S::IpAddr), |r| if r.chance(1, 2) { IpAddr::V4(Ipv4Addr::from(r.below(4) as u32)) } else { IpAddr::V6(Ipv6Addr::from(r.below(4) as u128)) };
        Ipv4Addr = [debug display eq ord hash] Some(S::Ipv4Addr), |r| Ipv4Addr::from(r.next() as u32 & 0x0300_0001);
        Ipv6Addr = [debug display eq ord hash] Some(S::Ipv6Addr), |r| Ipv6Addr::from(r.below(4) as u128);
        ConstTypeId = [debug eq ord hash] Some(S::ConstTypeId), |r| if r.chance(1, 2) { ConstTypeId::of::<u8>() } else { ConstTypeId::of::<i8>() };
        NonZero<u8> = [debug display eq ord hash] None, |r| NonZero::new(1 + r.below(255) as u8).unwrap();
        NonZero<i64> = [debug display eq ord hash] None, |r| NonZero::new(ai(r) | 1).unwrap();
        Vec<u8> = [debug eq ord_if hash_if] None, |r| (0..r.below(3)).map(|_| r.below(2) as u8).collect();
        Vec<f64> = [debug eq ord_if nohash] None, |r| (0..r.below(3)).map(|_| af(r)).collect();
        Vec<String> = [debug eq ord_if hash_if] None, |r| (0..r.below(3)).map(|_| small(r)).collect();
        Vec<Option<i8>> = [debug eq_if ord_if hash_if] None, |r| (0..r.below(3)).map(|_| if r.chance(1, 2) { None } else { Some(r.below(3) as i8 - 1) }).collect();
        Vec<Vec<u16>> = [debug eq ord_if hash_if] None, |r| (0..r.below(3)).map(|_| (0..r.below(3)).map(|_| r.below(2) as u16).collect()).collect();
        Option<u8> = [debug eq_if ord_if hash_if] None, |r| if r.chance(1, 2) { None } else { Some(r.below(3) as u8) };
        Option<String> = [debug eq_if ord_if hash_if] None, |r| if r.chance(1, 2) { None } else { Some(small(r)) };
        Option<Option<i32>> = [debug eq_if ord_if hash_if] None, |r| r.pick(&[None, Some(None), Some(Some(1)), Some(Some(-1))]).clone();
        Option<f32> = [debug eq_if ord_if nohash] None, |r| if r.chance(1, 2) { None } else { Some(af(r) as f32) };
        [u8; 3] = [debug eq ord hash] None, |r| [r.below(2) as u8, r.below(2) as u8, r.below(2) as u8];
        [String; 1] = [debug eq ord hash] None, |r| [small(r)];
        [i64; 0] = [debug eq ord hash] None, |_| [];
        (u8,) = [debug eq ord_if hash_if] None, |r| (r.below(3) as u8,);
        (i8, String) = [debug eq ord_if hash_if] None, |r| (r.below(2) as i8 - 1, small(r));
        (u8, f64, i8) = [debug eq ord_if nohash] None, |r| (r.below(2) as u8, af(r), r.below(2) as i8);
        HashMap<String, u8> = [debug eq noord] None, |r| if r.chance(1, 2) { HashMap::new() } else { [(small(r), r.below(2) as u8)].into() };
        BTreeMap<u8, String> = [debug eq ord_if hash_if] None, |r| (0..r.below(4)).map(|_| (r.below(3) as u8, small(r))).collect();
        Arc<u32> = [debug_if display_if eq_if ord_if hash_if] None, |r| Arc::new(r.below(3) as u32);
        std::path::PathBuf = [debug eq ord hash] None, |r| std::path::PathBuf::from(small(r));
        Sorted = [debug eq ord hash] None, |r| Sorted { b: r.below(2) as u8, a: r.below(3) as i32 - 1, s: small(r) };
        SortedF = [debug eq ord nohash] None, |r| SortedF { a: af(r) as f32, b: if r.chance(1, 2) { None } else { Some(1) } };
        SortedT = [debug eq ord hash] None, |r| SortedT(r.below(3) as i8 - 1, if r.chance(1, 2) { None } else { Some(r.below(3) as u16) });
        SortedE = [debug eq ord hash] None, |r| match r.below(3) { 0 => SortedE::Z, 1 => SortedE::A(r.below(2) as u8), _ => SortedE::M { x: r.below(2) as i8 - 1, y: small(r) } };
        EqE = [debug eq noord hash] None, |r| match r.below(3) { 0 => EqE::Z, 1 => EqE::A(r.below(2) as u8), _ => EqE::B };
        Nothing = [noeq noord nohash] None, |r| Nothing { _a: r.below(2) as u8 };
        Backwards = [debug display eq ord hash] None, |r| Backwards(r.below(3) as u8);
        OddEq = [debug eq noord hash] None, |r| OddEq(r.below(5) as u8);
    }
}

pub fn p03(c: &mut Ctx) {
    let tab = table();
    for t in &tab {
        let (s, want) = (t.shape, t.scalar);
        c.case(&format!("{}/scalar-type", t.name), "shape", || {
            ensure!(ScalarType::try_from_shape(s) == want, "scalar-type", "scalar type {:?}, expected {want:?}", ScalarType::try_from_shape(s));
            Ok(())
        });
    }
    for (t, _) in zoo::ZOO {
        if !matches!((t.kind)(), Kind::Scalar(_)) {
            ensure_none(c, t);
        }
    }
    let mut rng = c.rng(3);
    while c.time_left() {
        for (t, _) in zoo::ZOO {
            let (seed, depth) = (rng.next(), 1 + rng.below(4));
            let nf = rng.chance(1, 2);
            c.case(&format!("walk/{}", t.name), &format!("seed {seed:#x} depth {depth}"), || {
                fvl::model::NONFINITE.with(|n| n.set(nf));
                let mut res = Ok(());
                (t.with)(&mut Rng::new(seed), depth, &mut |p, m| {
                    res = walk(p, t, &m, &mut Rng::new(seed ^ 1)).and_then(|_| pair(p, t, &m, seed, depth));
                });
                fvl::model::NONFINITE.with(|n| n.set(false));
                res
            });
        }
        for _ in 0..4 {
            for t in &tab {
                let seed = rng.next();
                c.case(&format!("typed/{}", t.name), &format!("seed {seed:#x}"), || (t.run)(&mut Rng::new(seed)));
            }
        }
    }
}
fn ensure_none(c: &mut Ctx, t: T) {
    c.case(&format!("{}/scalar-type", t.name), "shape", || {
        let got = ScalarType::try_from_shape(t.shape);
        ensure!(got.is_none() || matches!(t.shape.def, Def::Scalar(_)), "scalar-type", "a {} is said to be a scalar {got:?}", t.name);
        Ok(())
    });
}
/// the value against an equal and an unequal one, and on the heap
fn pair(p: Peek<'_>, t: T, m: &MV, seed: u64, depth: usize) -> R {
    let hv = {
        let (w, _) = (t.put)(Wip::alloc_shape(t.shape), &mut Rng::new(seed));
        w.and_then(|w| w.build()).map_err(|e| fail("heap", format!("{e:?}")))?
    };
    let again = {
        let (w, mm) = (t.put)(Wip::alloc_shape(t.shape), &mut Rng::new(seed));
        (w.and_then(|w| w.build()).map_err(|e| fail("heap", format!("{e:?}")))?, mm)
    };
    walk(hv.peek(), t, &again.1, &mut Rng::new(seed ^ 2))?;
    ensure!(renderings(&hv) == renderings(&hv.peek()) && showings(&hv) == showings(&hv.peek()), "heap", "a heap value prints otherwise than its peek");
    ensure!(p.id() != hv.peek().id() || t.shape.layout.size() == 0, "identity", "two values share an id");
    if t.shape.vtable.eq.is_some() && !floats(&again.1) {
        ensure!(Peek::eq(&hv.peek(), &again.0.peek()) == Some(true) && hv == again.0, "eq", "equal values are said to differ");
        let (a, b) = (hv.peek(), again.0.peek());
        let (x, y) = (h(|s| { Peek::hash(&a, s); }), h(|s| { Peek::hash(&b, s); }));
        ensure!(x == y, "hash", "equal values hash differently");
        let mut res = Ok(());
        (t.with)(&mut Rng::new(seed ^ 0x55), depth, &mut |q, mq| {
            let want = mq == *m;
            if !floats(m) && !floats(&mq) && Peek::eq(&p, &q) != Some(want) {
                res = Err(fail("eq", format!("Peek::eq gives {:?} for {m:?} and {mq:?}", Peek::eq(&p, &q))));
            }
        });
        res?;
        cov!("walked values compared");
    }
    Ok(())
}
