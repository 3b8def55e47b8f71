//! P20: a floating-point number offered to a place.
use fvl::ctx::*;
use fvl::{bail, cov, ensure};
use facet::Facet;
use facet_reflect::Wip;
use std::collections::{BTreeMap, HashMap};
use std::num::NonZero;

/// what a place holds after the number was put there
#[derive(Clone, Debug, PartialEq)]
pub enum Held {
    Int(bool, u128),
    F32(u32),
    F64(u64),
    Other(String),
}
trait Place: Facet + Default2 + 'static {
    fn held(&self) -> Held;
    const SPEC: Spec;
}
/// a value to fill the neighbours with
trait Default2 {
    fn fill() -> Self;
}
#[derive(Clone, Copy)]
enum Spec {
    /// bits, signed, non-zero, must be accepted if it fits
    Int(u32, bool, bool, bool),
    F32,
    F64,
    No,
}
macro_rules! ints { ($($t:ident $bits:expr, $s:expr, $sup:expr;)*) => { $(
    impl Default2 for $t { fn fill() -> Self { 7 } }
    impl Place for $t { fn held(&self) -> Held { let v = *self; #[allow(unused_comparisons)] Held::Int(v < 0, if v < 0 { (v as i128).unsigned_abs() } else { v as u128 }) } const SPEC: Spec = Spec::Int($bits, $s, false, $sup); }
    impl Default2 for NonZero<$t> { fn fill() -> Self { NonZero::new(7).unwrap() } }
    impl Place for NonZero<$t> { fn held(&self) -> Held { self.get().held() } const SPEC: Spec = Spec::Int($bits, $s, true, $sup); }
)* } }
ints! { u8 8, false, true; u16 16, false, true; u32 32, false, true; u64 64, false, true; usize 64, false, true; u128 128, false, false;
        i8 8, true, true; i16 16, true, true; i32 32, true, true; i64 64, true, true; isize 64, true, true; i128 128, true, false; }
impl Default2 for f32 { fn fill() -> Self { 1.5 } }
impl Place for f32 { fn held(&self) -> Held { Held::F32(self.to_bits()) } const SPEC: Spec = Spec::F32; }
impl Default2 for f64 { fn fill() -> Self { 1.5 } }
impl Place for f64 { fn held(&self) -> Held { Held::F64(self.to_bits()) } const SPEC: Spec = Spec::F64; }
macro_rules! others { ($($t:ty => $v:expr;)*) => { $(
    impl Default2 for $t { fn fill() -> Self { $v } }
    impl Place for $t { fn held(&self) -> Held { Held::Other(format!("{self:?}")) } const SPEC: Spec = Spec::No; }
)* } }
others! { bool => true; String => "x".into(); char => 'x'; Vec<u8> => vec![1]; Option<u32> => Some(1); (u8, u8) => (1, 2); fvl::zoo::Flat => fvl::zoo::Flat { a: 1, b: "b".into() }; fvl::zoo::UnitE => fvl::zoo::UnitE::Alpha; BTreeMap<String, u8> => BTreeMap::new(); [u8; 2] => [1, 2]; }

#[derive(Facet)]
struct Around<T: 'static> where T: Facet {
    before: u64,
    x: T,
    after: u64,
}
#[derive(Facet)]
#[repr(u8)]
#[allow(dead_code)]
enum Holder<T: 'static> where T: Facet {
    No,
    Yes { before: u8, x: T },
}

/// the number as sign and integer magnitude, if it is an integer below 2^128
fn integer(f: f64) -> Option<(bool, u128)> {
    let b = f.to_bits();
    let (neg, e, m) = (b >> 63 == 1, (b >> 52 & 0x7ff) as i64, b & ((1 << 52) - 1));
    if e == 0x7ff {
        return None;
    }
    let (m, e) = if e == 0 { (m as u128, -1074) } else { ((m | 1 << 52) as u128, e - 1075) };
    if m == 0 {
        return Some((false, 0));
    }
    if e >= 0 {
        if e > 128 - 53 && (m.leading_zeros() as i64) < e {
            return None;
        }
        Some((neg, m << e))
    } else {
        let s = -e;
        if s >= 128 || m & ((1u128 << s) - 1) != 0 { None } else { Some((neg, m >> s)) }
    }
}
/// nearest f32, ties to even; None if beyond the largest one
fn to_f32(f: f64) -> Option<u32> {
    let b = f.to_bits();
    let sign = ((b >> 63) as u32) << 31;
    let (e, m) = ((b >> 52 & 0x7ff) as i64, b & ((1 << 52) - 1));
    if e == 0x7ff {
        return Some(if m == 0 { sign | 0x7f80_0000 } else { sign | 0x7fc0_0000 });
    }
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if m == 0 {
        return Some(sign);
    }
    // the last place of the result
    let top = 63 - m.leading_zeros() as i64 + e; // exponent of the leading bit
    let ulp = (top - 23).max(-149);
    let sh = ulp - e;
    let q = if sh <= 0 {
        m << -sh
    } else if sh > 63 {
        0
    } else {
        let (q, rest, half) = (m >> sh, m & ((1 << sh) - 1), 1u64 << (sh - 1));
        q + (rest > half || rest == half && q & 1 == 1) as u64
    };
    // value = q * 2^ulp
    let (mut q, mut ulp) = (q, ulp);
    if q == 1 << 24 {
        q >>= 1;
        ulp += 1;
    }
    if q < 1 << 23 {
        return Some(sign | q as u32); // subnormal
    }
    let ex = ulp + 23 + 127;
    if ex >= 255 {
        return None;
    }
    Some(sign | (ex as u32) << 23 | (q as u32 & 0x7f_ffff))
}
fn expected(s: Spec, f: f64) -> Option<(Held, bool)> {
    match s {
        Spec::No => None,
        Spec::F64 => Some((Held::F64(f.to_bits()), true)),
        Spec::F32 => to_f32(f).map(|b| (Held::F32(b), true)),
        Spec::Int(bits, signed, nz, sup) => {
            let (neg, m) = integer(f)?;
            let max = match (signed, neg) {
                (false, true) => return None,
                (false, false) => u128::MAX >> (128 - bits),
                (true, neg) => (1u128 << (bits - 1)) - !neg as u128,
            };
            if m > max || nz && m == 0 {
                return None;
            }
            Some((Held::Int(neg, m), sup))
        }
    }
}
fn same(a: &Held, b: &Held) -> bool {
    match (a, b) {
        (Held::F32(a), Held::F32(b)) if f32::from_bits(*a).is_nan() => f32::from_bits(*b).is_nan(),
        (Held::F64(a), Held::F64(b)) if f64::from_bits(*a).is_nan() => f64::from_bits(*b).is_nan(),
        _ => a == b,
    }
}
fn place<T: Place>(c: &mut Ctx, f: f64, how: usize) {
    let tn = std::any::type_name::<T>().replace("core::num::nonzero::", "").replace("alloc::string::", "").replace("alloc::vec::", "");
    const HOW: [&str; 8] = ["root", "field", "variant", "element", "some", "value", "tuple", "overwrite"];
    let what = expected(T::SPEC, f);
    c.case(&format!("put/{tn}/{}", HOW[how]), &format!("{f:?} = {:#018x}", f.to_bits()), || {
        let e = |e: facet_reflect::ReflectError| Fail { cat: "builder".into(), detail: format!("{e}") };
        let w = match how {
            0 => Wip::alloc::<T>(),
            1 => Wip::alloc::<Around<T>>().field(0).map_err(e)?.put(0xa5a5_a5a5_a5a5_a5a5u64).map_err(e)?.pop().map_err(e)?.field(2).map_err(e)?.put(0x5a5a_5a5a_5a5a_5a5au64).map_err(e)?.pop().map_err(e)?.field(1).map_err(e)?,
            2 => Wip::alloc::<Holder<T>>().variant(1).map_err(e)?.field(0).map_err(e)?.put(9u8).map_err(e)?.pop().map_err(e)?.field(1).map_err(e)?,
            3 => Wip::alloc::<Vec<T>>().begin_pushback().map_err(e)?.push().map_err(e)?.put(T::fill()).map_err(e)?.pop().map_err(e)?.push().map_err(e)?,
            4 => Wip::alloc::<Option<T>>().push_some().map_err(e)?,
            5 => Wip::alloc::<HashMap<String, T>>().begin_map_insert().map_err(e)?.push_map_key().map_err(e)?.put("k".to_string()).map_err(e)?.push_map_value().map_err(e)?,
            6 => Wip::alloc::<(u8, T)>().field(0).map_err(e)?.put(3u8).map_err(e)?.pop().map_err(e)?.field(1).map_err(e)?,
            _ => Wip::alloc::<Around<T>>().field(1).map_err(e)?.put(T::fill()).map_err(e)?.pop().map_err(e)?.field(0).map_err(e)?.put(1u64).map_err(e)?.pop().map_err(e)?.field(2).map_err(e)?.put(2u64).map_err(e)?.pop().map_err(e)?.field(1).map_err(e)?,
        };
        let can = w.can_put_f64();
        let w = match (w.try_put_f64(f), &what) {
            (Err(x), None) => {
                cov!("numbers refused as they should be");
                ensure!(!format!("{x}").is_empty(), "error-text", "empty error");
                return Ok(());
            }
            (Err(_), Some((_, false))) => {
                cov!("numbers refused by unsupported types");
                return Ok(());
            }
            (Err(x), Some((h, true))) => bail!("refused", "{h:?} fits but was refused: {x}"),
            (Ok(w), None) => {
                // say what it holds if that is possible
                bail!("accepted", "does not fit but was accepted ({})", if how == 0 { w.build().ok().and_then(|h| h.materialize::<T>().ok()).map(|v| format!("{:?}", v.held())).unwrap_or_default() } else { String::new() })
            }
            (Ok(w), Some(_)) => w,
        };
        ensure!(can, "can", "can_put_f64 said no, try_put_f64 accepted");
        let h = match how {
            0 => w.build().map_err(e)?.materialize::<T>().map_err(e)?.held(),
            1 | 7 => {
                let v = w.pop().map_err(e)?.build().map_err(e)?.materialize::<Around<T>>().map_err(e)?;
                let n = if how == 1 { (0xa5a5_a5a5_a5a5_a5a5, 0x5a5a_5a5a_5a5a_5a5a) } else { (1, 2) };
                ensure!((v.before, v.after) == n, "neighbour", "neighbours are {:x} {:x}", v.before, v.after);
                v.x.held()
            }
            2 => match w.pop().map_err(e)?.build().map_err(e)?.materialize::<Holder<T>>().map_err(e)? {
                Holder::Yes { before: 9, x } => x.held(),
                _ => bail!("neighbour", "wrong variant or neighbour"),
            },
            3 => {
                let v = w.pop().map_err(e)?.build().map_err(e)?.materialize::<Vec<T>>().map_err(e)?;
                ensure!(v.len() == 2 && v[0].held() == T::fill().held(), "neighbour", "wrong list");
                v[1].held()
            }
            4 => match w.pop().map_err(e)?.build().map_err(e)?.materialize::<Option<T>>().map_err(e)? {
                Some(v) => v.held(),
                None => bail!("value", "None"),
            },
            5 => {
                let v = w.pop().map_err(e)?.build().map_err(e)?.materialize::<HashMap<String, T>>().map_err(e)?;
                ensure!(v.len() == 1 && v.contains_key("k"), "neighbour", "wrong map");
                v["k"].held()
            }
            _ => {
                let v = w.pop().map_err(e)?.build().map_err(e)?.materialize::<(u8, T)>().map_err(e)?;
                ensure!(v.0 == 3, "neighbour", "neighbour is {}", v.0);
                v.1.held()
            }
        };
        let (m, _) = what.as_ref().unwrap();
        cov!("numbers stored");
        ensure!(same(&h, m), "value", "holds {h:?}, should hold {m:?}");
        Ok(())
    });
}
/// numbers around which conversions go wrong
fn edges() -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, 0.5, 1.0, 1.5, 0.1, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::INFINITY, f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001), f64::EPSILON, 1e19, 1e20, 1e38, 1e39, 1e300, f32::MAX as f64, f32::MIN_POSITIVE as f64, 3.402823567797336e38, 3.4028235677973366e38, 7.006492321624085e-46, 1.401298464324817e-45];
    for k in 0..=129 {
        let p = 2f64.powi(k);
        for d in [0.0, 0.5, 1.0, 1.5, 2.0] {
            v.push(p - d);
            v.push(p + d);
        }
        v.push(f64::from_bits(p.to_bits() - 1));
        v.push(f64::from_bits(p.to_bits() + 1));
        v.push(1.0 / p);
    }
    for t in [u8::MAX as f64, i8::MAX as f64, u16::MAX as f64, i16::MAX as f64, u32::MAX as f64, i32::MAX as f64, 9007199254740991.0, 9007199254740993.0, 256.0 * 3.0, 65536.0 * 3.0, 4294967296.0 * 3.0] {
        for d in [-1.0, -0.5, 0.0, 0.25, 0.5, 1.0] {
            v.push(t + d);
        }
    }
    let n: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}
fn random(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => f64::from_bits(r.next()),
        1 => (r.next() >> r.below(64)) as f64 * if r.chance(1, 2) { -1.0 } else { 1.0 },
        2 => (r.next() >> r.below(64)) as f64 / 2f64.powi(r.below(12) as i32),
        3 => r.below(600) as f64 - 300.0,
        4 => f32::from_bits(r.next() as u32) as f64,
        _ => {
            let x = 2f64.powi(r.below(140) as i32 - 5);
            let x = f64::from_bits((x.to_bits() as i64 + r.below(7) as i64 - 3) as u64);
            if r.chance(1, 2) { -x } else { x }
        }
    }
}
pub fn p20(c: &mut Ctx) {
    macro_rules! all { ($($t:ty),*) => { [$(place::<$t> as fn(&mut Ctx, f64, usize)),*] } }
    let places = all![
        u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128, f32, f64, NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<usize>, NonZero<u128>, NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>,
        NonZero<isize>, NonZero<i128>, bool, String, char, Vec<u8>, Option<u32>, (u8, u8), fvl::zoo::Flat, fvl::zoo::UnitE, BTreeMap<String, u8>, [u8; 2]
    ];
    let edges = edges();
    // every edge into every type
    let mut k = 0;
    for p in &places {
        for f in &edges {
            k += 1;
            if !c.mine(k) || cfg!(miri) && !c.time_left() {
                continue;
            }
            p(c, *f, k / 8 % 8);
        }
    }
    cov!("every edge put into every type");
    c.start = std::time::Instant::now();
    let mut n = 0;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let f = random(&mut r);
        let how = r.below(8);
        r.pick(&places)(c, f, how);
    }
}
