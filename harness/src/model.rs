//! A facet-independent description of types and values (the reference side of every oracle).
use crate::ctx::{Rng, no_panic};
use crate::mon::{Tok, ZTok};
use facet_core::{Facet, Shape};
use facet_reflect::{HeapValue, Peek, ReflectError, Wip};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum MV {
    Unit,
    Bool(bool),
    Int(i128),
    Big(u128), // only above i128::MAX
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Tok(u64),
    Struct(Vec<MV>),
    Enum(usize, Vec<MV>),
    None,
    Some(Box<MV>),
    List(Vec<MV>),
    Map(Vec<(MV, MV)>), // sorted by key
}
impl MV {
    pub fn nodes(&self) -> usize {
        1 + match self {
            MV::Struct(v) | MV::Enum(_, v) | MV::List(v) => v.iter().map(|x| x.nodes()).sum(),
            MV::Some(x) => x.nodes(),
            MV::Map(v) => v.iter().map(|(k, x)| k.nodes() + x.nodes()).sum(),
            _ => 0,
        }
    }
}
pub fn f64mv(f: f64) -> MV {
    MV::F64(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() })
}
pub fn f32mv(f: f32) -> MV {
    MV::F32(if f.is_nan() { f32::NAN.to_bits() } else { f.to_bits() })
}

pub type T = &'static TyFns;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SK {
    Bool,
    Int { bits: u32, signed: bool, nonzero: bool, ptr: bool },
    F32,
    F64,
    Char,
    Str,
    Tok,
    Unit,
}
pub enum Kind {
    Scalar(SK),
    Struct(&'static StructD),
    Enum(&'static EnumD),
    Option(T),
    List(T),
    Map(T, T),
}
pub struct FieldD {
    pub name: &'static str,
    pub wire: &'static str,
    pub ty: fn() -> T,
    pub default: Option<fn() -> MV>,
    pub sensitive: bool,
}
pub struct StructD {
    pub name: &'static str,
    pub tuple: bool,
    pub fields: &'static [FieldD],
    pub deny: bool,
    pub default: Option<fn() -> MV>,
    pub invariant: Option<fn(&MV) -> bool>,
}
pub struct VariantD {
    pub name: &'static str,
    /// 0 unit, 1 tuple, 2 struct
    pub kind: u8,
    pub fields: &'static [FieldD],
}
pub struct EnumD {
    pub name: &'static str,
    pub variants: &'static [VariantD],
}
pub type De = fn(&[u8]) -> Result<Result<MV, String>, String>;
pub struct TyFns {
    pub name: &'static str,
    pub kind: fn() -> Kind,
    pub shape: &'static Shape,
    pub put: fn(Wip<'static>, &mut Rng) -> (Result<Wip<'static>, ReflectError>, MV),
    pub put_opt: fn(Wip<'static>, &mut Rng) -> (Result<Wip<'static>, ReflectError>, MV),
    pub mat: fn(HeapValue<'static>) -> Result<MV, ReflectError>,
    pub with: fn(&mut Rng, usize, &mut dyn FnMut(Peek<'_>, MV)),
    pub default: Option<fn() -> MV>,
    pub tn: fn() -> &'static str,
    pub json_out: fn(&mut Rng, usize) -> JsonOut,
    pub pretty: fn(&mut Rng, usize, Printer<'_>) -> PrettyOut,
    pub share: fn(&mut Rng, usize) -> Arc<dyn Shared>,
    pub msgpack_out: fn(&mut Rng, usize) -> (MV, Result<Vec<u8>, String>),
    pub de_json: De,
    pub de_msgpack: De,
    pub de_toml: De,
    pub de_yaml: De,
    pub de_url: De,
}
/// the type's name without paths
fn short_name<X: 'static>() -> &'static str {
    use std::sync::Mutex;
    static NAMES: Mutex<BTreeMap<&'static str, &'static str>> = Mutex::new(BTreeMap::new());
    let full = std::any::type_name::<X>();
    let mut m = NAMES.lock().unwrap();
    if let Some(s) = m.get(full) {
        return s;
    }
    let mut out = String::new();
    let mut word = String::new();
    for ch in full.chars() {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch)
        } else if ch == ':' {
            word.clear()
        } else {
            out.push_str(&word);
            word.clear();
            if ch != ' ' {
                out.push(ch);
            }
        }
    }
    out.push_str(&word);
    let s: &'static str = Box::leak(out.into_boxed_str());
    m.insert(full, s);
    s
}
/// everything the JSON writer's entry points did with one value
pub struct JsonOut {
    pub value: MV,
    pub writer: Result<Result<Vec<u8>, String>, String>,
    pub peek_writer: Result<Result<Vec<u8>, String>, String>,
    pub string: Result<String, String>,
    pub peek_string: Result<String, String>,
    pub short: Vec<u8>,
    pub failing: Vec<(usize, Result<(Result<(), String>, Vec<u8>), String>)>,
}
struct Short(Vec<u8>);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.0.len() % 7 == 3 && self.0.last() != Some(&b[0]) {
            // now and then a spurious interruption, which is to be retried
            INTR.with(|i| i.set(!i.get()));
            if INTR.with(|i| i.get()) {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
thread_local! { static INTR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; pub static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; pub static NONFINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
struct Failing(Vec<u8>, usize);
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 {
            return Err(std::io::Error::other("disk full"));
        }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn json_out<X: Model>(r: &mut Rng, d: usize) -> JsonOut {
    let v = X::arb(r, d);
    let writer = no_panic(|| {
        let mut b = vec![];
        facet_json::to_writer(&v, &mut b).map(|_| b).map_err(|e| e.to_string())
    });
    let mut failing = vec![];
    let mut short = Short(vec![]);
    if let Ok(Ok(b)) = &writer {
        let _ = no_panic(|| facet_json::to_writer(&v, &mut short));
        for _ in 0..2 {
            let at = r.below(b.len() + 2);
            failing.push((at, no_panic(|| {
                let mut w = Failing(vec![], at);
                let res = facet_json::to_writer(&v, &mut w).map_err(|e| e.to_string());
                (res, w.0)
            })));
        }
    }
    JsonOut {
        value: v.to_mv(),
        peek_writer: no_panic(|| {
            let mut b = vec![];
            facet_json::peek_to_writer(&Peek::new(&v), &mut b).map(|_| b).map_err(|e| e.to_string())
        }),
        string: no_panic(|| facet_json::to_string(&v)),
        peek_string: no_panic(|| facet_json::peek_to_string(&Peek::new(&v))),
        writer,
        short: short.0,
        failing,
    }
}
thread_local! { pub static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// the stream sensitive fields draw from: takes one draw of `r`, whatever is done with it
pub fn secret(r: &mut Rng) -> Rng {
    let n = r.next();
    let salt = SALT.with(|s| s.get());
    if salt == 0 { Rng::new(n) } else { Rng::new(n ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15)) }
}
pub struct PrettyOut {
    pub value: MV,
    /// entry point, what it wrote
    pub outs: Vec<(&'static str, Result<String, String>)>,
    /// with the settings everybody gets by default
    pub plain: Result<String, String>,
    /// a sink which fails after so many bytes: what it was told, what it received
    pub failing: (usize, Result<(bool, String), String>),
}
struct FailFmt(String, usize);
impl std::fmt::Write for FailFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
pub type Printer<'a> = &'a dyn Fn() -> facet_pretty::PrettyPrinter;
pub fn pretty_out<X: Facet>(v: &X, value: MV, r: &mut Rng, mk: Printer<'_>) -> PrettyOut {
    use facet_pretty::FacetPretty;
    struct To<'a, X: Facet>(&'a X, facet_pretty::PrettyPrinter);
    impl<X: Facet> std::fmt::Display for To<'_, X> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.1.format_to(self.0, f)
        }
    }
    let outs = vec![
        ("format", no_panic(|| mk().format(v))),
        ("format_peek", no_panic(|| mk().format_peek(Peek::new(v)))),
        ("format_to", no_panic(|| To(v, mk()).to_string())),
        ("pretty_with", no_panic(|| v.pretty_with(mk()).to_string())),
        ("pretty_with, flags", no_panic(|| format!("{:#}", v.pretty_with(mk())))),
    ];
    let n = outs[0].1.as_ref().map(|s| s.len()).unwrap_or(0);
    let at = r.below(n + 2);
    let failing = no_panic(|| {
        use std::fmt::Write;
        let mut w = FailFmt(String::new(), at);
        let ok = write!(w, "{}", v.pretty_with(mk())).is_ok();
        (ok, w.0)
    });
    PrettyOut { value, outs, plain: no_panic(|| v.pretty().to_string()), failing: (at, failing) }
}
/// a value several threads hold
pub trait Shared: Send + Sync {
    fn peek(&self) -> Peek<'_>;
    fn mv(&self) -> MV;
    fn json(&self) -> Result<String, String>;
    fn msgpack(&self) -> Result<Vec<u8>, String>;
}
impl<X: Model> Shared for X {
    fn peek(&self) -> Peek<'_> {
        Peek::new(self)
    }
    fn mv(&self) -> MV {
        self.to_mv()
    }
    fn json(&self) -> Result<String, String> {
        no_panic(|| facet_json::to_string(self))
    }
    fn msgpack(&self) -> Result<Vec<u8>, String> {
        no_panic(|| facet_msgpack::to_vec(self))
    }
}
pub trait Model: Facet + Send + Sync + Sized + 'static {
    const FNS: T = &TyFns {
        name: Self::NAME,
        kind: Self::kind,
        shape: Self::SHAPE,
        put: |w, r| {
            let v = Self::arb(r, 3);
            let m = v.to_mv();
            (w.put(v), m)
        },
        put_opt: |w, r| {
            let v = if r.chance(1, 3) { None } else { Some(Self::arb(r, 3)) };
            let m = match &v {
                None => MV::None,
                Some(x) => MV::Some(Box::new(x.to_mv())),
            };
            (w.put(v), m)
        },
        mat: |h| {
            let v: Self = h.materialize::<Self>()?;
            Ok(v.to_mv())
        },
        with: |r, d, f| {
            let v = Self::arb(r, d);
            let m = v.to_mv();
            f(Peek::new(&v), m);
        },
        default: Self::DEFAULT,
        tn: short_name::<Self>,
        json_out: json_out::<Self>,
        pretty: |r, d, mk| {
            let v = Self::arb(r, d);
            pretty_out(&v, v.to_mv(), r, mk)
        },
        share: |r, d| Arc::new(Self::arb(r, d)),
        msgpack_out: |r, d| {
            let v = Self::arb(r, d);
            (v.to_mv(), no_panic(|| facet_msgpack::to_vec(&v)))
        },
        de_json: |b| {
            no_panic(|| match facet_json::from_slice::<Self>(b) {
                Ok(v) => Ok(v.to_mv()),
                Err(e) => Err(format!("{e}")),
            })
        },
        de_msgpack: |b| {
            no_panic(|| match facet_msgpack::from_slice::<Self>(b) {
                Ok(v) => Ok(v.to_mv()),
                Err(e) => Err(format!("{e}")),
            })
        },
        de_toml: |b| {
            no_panic(|| match std::str::from_utf8(b) {
                Err(_) => Err("not utf8".into()),
                Ok(s) => match facet_toml::from_str::<Self>(s) {
                    Ok(v) => Ok(v.to_mv()),
                    Err(e) => Err(format!("{e:?}")),
                },
            })
        },
        de_yaml: |b| {
            no_panic(|| match std::str::from_utf8(b) {
                Err(_) => Err("not utf8".into()),
                Ok(s) => match facet_yaml::from_str::<Self>(s) {
                    Ok(v) => Ok(v.to_mv()),
                    Err(e) => Err(format!("{e:?}")),
                },
            })
        },
        de_url: |b| {
            no_panic(|| match std::str::from_utf8(b) {
                Err(_) => Err("not utf8".into()),
                Ok(s) => match facet_urlencoded::from_str::<Self>(s) {
                    Ok(v) => Ok(v.to_mv()),
                    Err(e) => Err(format!("{e}")),
                },
            })
        },
    };
    const NAME: &'static str;
    const DEFAULT: Option<fn() -> MV> = None;
    fn kind() -> Kind;
    fn arb(r: &mut Rng, d: usize) -> Self;
    fn to_mv(&self) -> MV;
}

pub const NASTY: &[&str] = &[
    "", "a", "hello world", "\"", "\\", "\\n", "a\"b\\c/d", "\n", "\r\n", "\t", "\u{8}\u{c}", "\u{0}",
    "\u{1}\u{1f}", "\u{7f}", "\u{80}\u{9f}", "\u{2028}\u{2029}", "é", "日本語", "🦀", "\u{10ffff}",
    "null", "true", "0", "-1", "1e5", "{}", "[]", ",", ":", "u0041", "\\u0041", "\u{feff}x", " lead", "trail ",
    "a\u{300}", "\u{fffd}", "x\u{200b}y", "%20+&=;", "#", "'", "'''", "\"\"\"", "$", "\u{1b}[31m",
    "\u{d7ff}\u{e000}", "NaN", "~", "- a", "a: b", "key=value", "[a]", "a]b[",
];
pub fn arb_string(r: &mut Rng) -> String {
    if LONG.with(|n| n.get()) && r.chance(1, 60) {
        let n = *r.pick(&[65534usize, 65535, 65536, 65537, 70000]);
        return (0..n).map(|i| (b'A' + ((i + n) % 26) as u8) as char).collect();
    }
    match r.below(6) {
        0 | 1 => r.pick(NASTY).to_string(),
        2 => {
            let n = r.below(12);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        3 => {
            let n = *r.pick(&[15usize, 16, 17, 30, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 300]);
            (0..n).map(|i| (b'A' + ((i + n) % 26) as u8) as char).collect()
        }
        4 => {
            let n = r.below(8);
            (0..n)
                .map(|_| loop {
                    let lim = *r.pick(&[0x80usize, 0x100, 0x800, 0x3000, 0x110000]);
                    if let Some(c) = char::from_u32(r.below(lim) as u32) {
                        return c;
                    }
                })
                .collect()
        }
        _ => {
            let mut s = String::new();
            for _ in 0..r.below(4) {
                s.push_str(r.pick(NASTY));
            }
            s
        }
    }
}
pub fn arb_f64(r: &mut Rng) -> f64 {
    if NONFINITE.with(|n| n.get()) && r.chance(1, 20) {
        return *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]);
    }
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1.5, 1e300, -1e300, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON]),
        1 => r.below(1000) as f64,
        2 => (r.next() as i64) as f64,
        3 => (r.next() >> 11) as f64,
        4 => r.below(100000) as f64 / 100.0,
        5 => {
            let k = r.below(70) as i32;
            let b = 2f64.powi(k);
            *r.pick(&[b, -b, b - 1.0, b + 1.0, b + 0.5, -b - 1.0])
        }
        _ => loop {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                return f;
            }
        },
    }
}
pub fn arb_int(r: &mut Rng, bits: u32, signed: bool) -> i128 {
    let (lo, hi): (i128, i128) = if signed && bits == 128 {
        (i128::MIN, i128::MAX)
    } else if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, if bits == 128 { i128::MAX } else { (1i128 << bits) - 1 })
    };
    match r.below(5) {
        0 => *r.pick(&[lo, hi, lo + 1, hi - 1, 0, 1]),
        1 => {
            // around a power of two
            let k = r.below(bits as usize) as u32;
            let b = 1i128 << k.min(126);
            let v = b + r.below(3) as i128 - 1;
            let v = if signed && r.chance(1, 2) { v.wrapping_neg() } else { v };
            v.clamp(lo, hi)
        }
        2 => (r.below(300) as i128 - if signed { 150 } else { 0 }).clamp(lo, hi),
        _ => {
            let v = (r.next() as u128 | (r.next() as u128) << 64) >> (128 - bits);
            if signed {
                // sign-extend
                ((v << (128 - bits)) as i128) >> (128 - bits)
            } else if bits == 128 {
                (v >> 1) as i128
            } else {
                v as i128
            }
        }
    }
}
macro_rules! ints {
    ($($t:ident $bits:literal $signed:literal $ptr:literal;)*) => {$(
        impl Model for $t {
            const NAME: &'static str = stringify!($t);
            const DEFAULT: Option<fn() -> MV> = Some(|| MV::Int(0));
            fn kind() -> Kind { Kind::Scalar(SK::Int { bits: $bits, signed: $signed, nonzero: false, ptr: $ptr }) }
            fn arb(r: &mut Rng, _d: usize) -> Self { arb_int(r, $bits, $signed) as $t }
            fn to_mv(&self) -> MV { MV::Int(*self as i128) }
        }
        impl Model for std::num::NonZero<$t> {
            const NAME: &'static str = concat!("NonZero<", stringify!($t), ">");
            fn kind() -> Kind { Kind::Scalar(SK::Int { bits: $bits, signed: $signed, nonzero: true, ptr: $ptr }) }
            fn arb(r: &mut Rng, _d: usize) -> Self { loop { if let Some(x) = Self::new(arb_int(r, $bits, $signed) as $t) { return x } } }
            fn to_mv(&self) -> MV { MV::Int(self.get() as i128) }
        }
    )*};
}
ints! { u8 8 false false; u16 16 false false; u32 32 false false; u64 64 false false; usize 64 false true;
i8 8 true false; i16 16 true false; i32 32 true false; i64 64 true false; isize 64 true true; i128 128 true false; }
impl Model for u128 {
    const NAME: &'static str = "u128";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Int(0));
    fn kind() -> Kind {
        Kind::Scalar(SK::Int { bits: 128, signed: false, nonzero: false, ptr: false })
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        if r.chance(1, 4) { u128::MAX - r.below(2) as u128 } else { arb_int(r, 128, false) as u128 }
    }
    fn to_mv(&self) -> MV {
        match i128::try_from(*self) {
            Ok(i) => MV::Int(i),
            Err(_) => MV::Big(*self),
        }
    }
}
impl Model for bool {
    const NAME: &'static str = "bool";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Bool(false));
    fn kind() -> Kind {
        Kind::Scalar(SK::Bool)
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        r.chance(1, 2)
    }
    fn to_mv(&self) -> MV {
        MV::Bool(*self)
    }
}
impl Model for char {
    const NAME: &'static str = "char";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Char('\0'));
    fn kind() -> Kind {
        Kind::Scalar(SK::Char)
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        loop {
            let s = arb_string(r);
            if let Some(c) = s.chars().next() {
                return c;
            }
        }
    }
    fn to_mv(&self) -> MV {
        MV::Char(*self)
    }
}
impl Model for f64 {
    const NAME: &'static str = "f64";
    const DEFAULT: Option<fn() -> MV> = Some(|| f64mv(0.0));
    fn kind() -> Kind {
        Kind::Scalar(SK::F64)
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        arb_f64(r)
    }
    fn to_mv(&self) -> MV {
        f64mv(*self)
    }
}
impl Model for f32 {
    const NAME: &'static str = "f32";
    const DEFAULT: Option<fn() -> MV> = Some(|| f32mv(0.0));
    fn kind() -> Kind {
        Kind::Scalar(SK::F32)
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        loop {
            let f = if r.chance(1, 2) { arb_f64(r) as f32 } else { f32::from_bits(r.next() as u32) };
            if f.is_finite() || NONFINITE.with(|n| n.get()) {
                return f;
            }
        }
    }
    fn to_mv(&self) -> MV {
        f32mv(*self)
    }
}
impl Model for String {
    const NAME: &'static str = "String";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Str(String::new()));
    fn kind() -> Kind {
        Kind::Scalar(SK::Str)
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        arb_string(r)
    }
    fn to_mv(&self) -> MV {
        MV::Str(self.clone())
    }
}
impl Model for Tok {
    const NAME: &'static str = "Tok";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Tok(7));
    fn kind() -> Kind {
        Kind::Scalar(SK::Tok)
    }
    fn arb(r: &mut Rng, _d: usize) -> Self {
        Tok::new(r.below(1000) as u64)
    }
    fn to_mv(&self) -> MV {
        MV::Tok(self.val())
    }
}
impl Model for ZTok {
    const NAME: &'static str = "ZTok";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Unit);
    fn kind() -> Kind {
        Kind::Scalar(SK::Unit)
    }
    fn arb(_: &mut Rng, _d: usize) -> Self {
        ZTok::new()
    }
    fn to_mv(&self) -> MV {
        MV::Unit
    }
}
impl Model for () {
    const NAME: &'static str = "()";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Unit);
    fn kind() -> Kind {
        Kind::Scalar(SK::Unit)
    }
    fn arb(_: &mut Rng, _d: usize) -> Self {}
    fn to_mv(&self) -> MV {
        MV::Unit
    }
}
impl<X: Model> Model for Option<X> {
    const NAME: &'static str = "Option";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::None);
    fn kind() -> Kind {
        Kind::Option(X::FNS)
    }
    fn arb(r: &mut Rng, d: usize) -> Self {
        if r.chance(1, 3) { None } else { Some(X::arb(r, d)) }
    }
    fn to_mv(&self) -> MV {
        match self {
            None => MV::None,
            Some(x) => MV::Some(Box::new(x.to_mv())),
        }
    }
}
pub fn arb_len(r: &mut Rng, d: usize) -> usize {
    if d == 0 {
        return r.below(2);
    }
    match r.below(8) {
        0 => 0,
        1 => 1,
        7 if d >= 4 => *r.pick(&[15, 16, 17, 40]),
        _ => r.below(4),
    }
}
impl<X: Model> Model for Vec<X> {
    const NAME: &'static str = "Vec";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::List(vec![]));
    fn kind() -> Kind {
        Kind::List(X::FNS)
    }
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = arb_len(r, d);
        (0..n).map(|_| X::arb(r, d.saturating_sub(1))).collect()
    }
    fn to_mv(&self) -> MV {
        MV::List(self.iter().map(|x| x.to_mv()).collect())
    }
}
impl<K: Model + Eq + std::hash::Hash, X: Model> Model for HashMap<K, X> {
    const NAME: &'static str = "HashMap";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Map(vec![]));
    fn kind() -> Kind {
        Kind::Map(K::FNS, X::FNS)
    }
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = arb_len(r, d);
        (0..n).map(|_| (K::arb(r, 1), X::arb(r, d.saturating_sub(1)))).collect()
    }
    fn to_mv(&self) -> MV {
        let mut v: Vec<_> = self.iter().map(|(k, x)| (k.to_mv(), x.to_mv())).collect();
        v.sort();
        MV::Map(v)
    }
}
impl<K: Model + Ord, X: Model> Model for BTreeMap<K, X> {
    const NAME: &'static str = "BTreeMap";
    const DEFAULT: Option<fn() -> MV> = Some(|| MV::Map(vec![]));
    fn kind() -> Kind {
        Kind::Map(K::FNS, X::FNS)
    }
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = arb_len(r, d);
        (0..n).map(|_| (K::arb(r, 1), X::arb(r, d.saturating_sub(1)))).collect()
    }
    fn to_mv(&self) -> MV {
        let mut v: Vec<_> = self.iter().map(|(k, x)| (k.to_mv(), x.to_mv())).collect();
        v.sort();
        MV::Map(v)
    }
}
impl T2 for TyFns {}
pub trait T2 {}
pub fn kind(t: T) -> Kind {
    (t.kind)()
}

/// some value of the type, as its model
pub fn arb_mv(t: T, r: &mut Rng, d: usize) -> MV {
    let mut m = MV::Unit;
    (t.with)(r, d, &mut |_, x| m = x);
    m
}
