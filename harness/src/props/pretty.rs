//! P17, P18: the pretty-printer.
use fvl::ctx::*;
use fvl::model::*;
use fvl::zoo::*;
use fvl::{bail, cov, ensure};
use facet::Facet;
use facet_pretty::{ColorGenerator, FacetPretty, PrettyPrinter};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    indent: usize,
    max: Option<usize>,
    colors: bool,
    cg: Option<(f32, f32, f32)>,
}
fn mk(c: Cfg) -> PrettyPrinter {
    let mut p = PrettyPrinter::new().with_indent_size(c.indent).with_colors(c.colors);
    if let Some(m) = c.max {
        p = p.with_max_depth(m);
    }
    if let Some((h, s, l)) = c.cg {
        p = p.with_color_generator(ColorGenerator::new().with_base_hue(h).with_saturation(s).with_lightness(l));
    }
    p
}
fn arb_cfg(r: &mut Rng) -> Cfg {
    let odd = [0.0, 1.0, -1.0, 0.5, 210.0, 359.9, 360.0, -720.0, 1e30, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE];
    Cfg {
        indent: *r.pick(&[2, 2, 2, 0, 1, 3, 4, 8]),
        max: match r.below(4) {
            0 => Some(r.below(7)),
            1 if r.chance(1, 8) => Some(usize::MAX - r.below(2)),
            _ => None,
        },
        colors: r.chance(1, 2),
        cg: r.chance(1, 4).then(|| (*r.pick(&odd), *r.pick(&odd), *r.pick(&odd))),
    }
}

// ------------------------------------------------------------------ the reference renderer
pub struct Name(&'static facet_core::Shape);
impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0.vtable.type_name)(f, facet_core::TypeNameOpts::infinite())
    }
}
#[derive(Default)]
struct Seen {
    scalars: u64,
    redacted: u64,
    elided: u64,
    fields: u64,
}
fn pad(o: &mut String, c: Cfg, d: usize) {
    for _ in 0..d * c.indent {
        o.push(' ');
    }
}
fn rend(o: &mut String, ty: T, m: &MV, d: usize, c: Cfg, s: &mut Seen) {
    use std::fmt::Write;
    if c.max.is_some_and(|m| d > m) {
        s.elided += 1;
        o.push_str("[...]");
        return;
    }
    let name = Name(ty.shape);
    match (kind(ty), m) {
        (Kind::Scalar(k), m) => {
            s.scalars += 1;
            match m {
                MV::Unit => o.push_str("()"),
                MV::Bool(b) => write!(o, "{b}").unwrap(),
                MV::Int(i) => write!(o, "{i}").unwrap(),
                MV::Big(i) => write!(o, "{i}").unwrap(),
                MV::F32(b) => write!(o, "{}", f32::from_bits(*b)).unwrap(),
                MV::F64(b) => write!(o, "{}", f64::from_bits(*b)).unwrap(),
                MV::Char(c) => o.push(*c),
                MV::Str(s) => o.push_str(s),
                MV::Tok(t) => write!(o, "tok {t}").unwrap(),
                _ => unreachable!("{k:?}"),
            }
        }
        (Kind::Option(_), MV::None) => write!(o, "{name}::None").unwrap(),
        (Kind::Option(t), MV::Some(x)) => {
            write!(o, "{name}::Some(").unwrap();
            rend(o, t, x, d, c, s);
            o.push(')');
        }
        (Kind::Struct(sd), MV::Struct(v)) => {
            write!(o, "{name} {{").unwrap();
            if !v.is_empty() {
                o.push('\n');
                fields(o, sd.fields, v, true, d + 1, c, s);
                pad(o, c, d);
            }
            o.push('}');
        }
        (Kind::Enum(e), MV::Enum(i, v)) => {
            let vd = &e.variants[*i];
            write!(o, "{name}::{}", vd.name).unwrap();
            match vd.kind {
                0 => {}
                1 => {
                    o.push_str("(\n");
                    fields(o, vd.fields, v, false, d + 1, c, s);
                    pad(o, c, d);
                    o.push(')');
                }
                _ => {
                    o.push_str(" {\n");
                    fields(o, vd.fields, v, true, d + 1, c, s);
                    pad(o, c, d);
                    o.push('}');
                }
            }
        }
        (Kind::List(t), MV::List(v)) if matches!(kind(t), Kind::Scalar(SK::Int { bits: 8, signed: false, nonzero: false, .. })) => {
            // bytes: one value, sixteen to a line
            write!(o, "{name}\n").unwrap();
            s.scalars += 1;
            for (i, b) in v.iter().enumerate() {
                if i % 16 == 0 {
                    if i > 0 {
                        o.push('\n');
                    }
                    pad(o, c, d + 1);
                } else {
                    o.push(' ');
                }
                let MV::Int(b) = b else { unreachable!() };
                write!(o, "{b:02x}").unwrap();
            }
            pad(o, c, d);
        }
        (Kind::List(t), MV::List(v)) => {
            write!(o, "{name} [\n").unwrap();
            for x in v {
                pad(o, c, d + 1);
                rend(o, t, x, d + 1, c, s);
                o.push_str(",\n");
            }
            pad(o, c, d);
            o.push(']');
        }
        (Kind::Map(..), MV::Map(_)) => {
            // the printer does not show what is in a map
            write!(o, "{name} {{\n").unwrap();
            pad(o, c, d + 1);
            o.push_str("/* Map contents */\n");
            pad(o, c, d);
            o.push('}');
        }
        (_, m) => unreachable!("{} {m:?}", ty.name),
    }
}
fn fields(o: &mut String, fs: &[FieldD], v: &[MV], named: bool, d: usize, c: Cfg, s: &mut Seen) {
    for (f, x) in fs.iter().zip(v) {
        pad(o, c, d);
        if named {
            s.fields += 1;
            o.push_str(f.name);
            o.push_str(": ");
        }
        if f.sensitive {
            s.redacted += 1;
            o.push_str("[REDACTED]");
        } else {
            rend(o, (f.ty)(), x, d, c, s);
        }
        o.push_str(",\n");
    }
}
/// the texts side by side where they first differ
fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let mut lo = k.saturating_sub(60);
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (k + 60).min(s.len());
        while !s.is_char_boundary(hi) {
            hi += 1;
        }
        s[lo..hi].to_string()
    };
    format!("at byte {k}: {:?} instead of {:?}", cut(a), cut(b))
}
/// removes the colour sequences; each must be switched off again before the next is switched on
fn uncolor(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut on = false;
    let mut rest = s;
    while let Some(i) = rest.find('\u{1b}') {
        out.push_str(&rest[..i]);
        let t = &rest[i..];
        let Some(e) = t.find('m') else { return Err("an escape sequence without an end".into()) };
        let body = &t[1..e];
        let Some(body) = body.strip_prefix('[') else { return Err(format!("escape sequence {body:?}")) };
        if !body.bytes().all(|b| b.is_ascii_digit() || b == b';') {
            return Err(format!("escape sequence {body:?}"));
        }
        let off = body == "0" || body.is_empty();
        if !off && on {
            return Err(format!("{body:?} switched on before the last was switched off, after {:?}", out.chars().rev().take(30).collect::<Vec<_>>().iter().rev().collect::<String>()));
        }
        on = !off;
        rest = &t[e + 1..];
    }
    out.push_str(rest);
    if on { Err("colours left switched on at the end".into()) } else { Ok(out) }
}

fn judge(ty: T, o: &PrettyOut, c: Cfg) -> R {
    let mut want = String::new();
    let mut s = Seen::default();
    rend(&mut want, ty, &o.value, 0, c, &mut s);
    let mut first: Option<&String> = None;
    for (what, res) in &o.outs {
        let got = match res {
            Err(p) => bail!("panic", "{what} panicked: {p}"),
            Ok(g) => g,
        };
        match first {
            None => first = Some(got),
            Some(f) => ensure!(f == got, "entry-points", "{what} {}", differ(got, f)),
        }
    }
    let got = first.unwrap();
    if !c.colors {
        ensure!(*got == want, "text", "{}", differ(got, &want));
        cov!("values printed without colours");
    } else if !want.contains('\u{1b}') {
        match uncolor(got) {
            Err(e) => bail!("colours", "{e}"),
            Ok(g) => ensure!(g == want, "text", "colours removed, {}", differ(&g, &want)),
        }
        if s.scalars + s.fields > 0 && s.elided == 0 {
            ensure!(got.contains('\u{1b}'), "colours", "no colours in {got:?}");
        }
        cov!("values printed in colour");
    }
    // the settings everybody gets
    let mut want = String::new();
    rend(&mut want, ty, &o.value, 0, Cfg { indent: 2, max: None, colors: true, cg: None }, &mut Seen::default());
    match &o.plain {
        Err(p) => bail!("panic", "pretty() panicked: {p}"),
        Ok(_) if want.contains('\u{1b}') => {}
        Ok(g) => match uncolor(g) {
            Err(e) => bail!("colours", "pretty(): {e}"),
            Ok(g) => ensure!(g == want, "text", "pretty(), colours removed, {}", differ(&g, &want)),
        },
    }
    let (at, f) = &o.failing;
    match f {
        Err(p) => bail!("panic", "panicked on a sink failing at byte {at}: {p}"),
        Ok((ok, part)) => {
            ensure!(*ok == (*at >= got.len()), "sink", "a sink failing at byte {at} of {}: success {ok}", got.len());
            ensure!(got.starts_with(part.as_str()), "sink", "a sink failing at byte {at} received {part:?}");
            if !ok {
                cov!("failing sinks reported");
            }
        }
    }
    cov!("fields redacted", s.redacted);
    cov!("values elided at the depth limit", s.elided);
    cov!("scalars printed", s.scalars);
    Ok(())
}

// ------------------------------------------------------------------ types with docs, with their text
/// Top docs
/// second line
#[derive(Facet, Clone)]
struct Doc {
    /// first field
    a: u32,
    plain: u8,
    /// nested
    /// two lines
    b: DocIn,
    e: DocE,
    l: Vec<DocIn>,
    /// secret docs
    #[facet(sensitive)]
    s: String,
}
/// Inner docs
#[derive(Facet, Clone)]
struct DocIn {
    /// inner field
    x: i8,
}
/// Enum docs
#[derive(Facet, Clone)]
#[repr(u8)]
enum DocE {
    /// Unit docs
    A,
    /// Tuple docs
    B(
        /// tuple field
        u8,
        Option<DocUnit>,
    ),
    /// Struct docs
    C {
        /// named field
        f: bool,
        /// secret field
        #[facet(sensitive)]
        g: u32,
    },
}
/// Unit struct docs
#[derive(Facet, Clone)]
struct DocUnit;

fn doc_in(v: &DocIn, d: usize, i: usize) -> String {
    let p = " ".repeat(d * i);
    let q = " ".repeat((d + 1) * i);
    format!("/// Inner docs\n{p}DocIn {{\n{q}/// inner field\n{q}x: {},\n{p}}}", v.x)
}
fn doc_e(v: &DocE, d: usize, i: usize) -> String {
    let p = " ".repeat(d * i);
    let q = " ".repeat((d + 1) * i);
    match v {
        DocE::A => format!("/// Enum docs\n{p}/// Unit docs\n{p}DocE::A"),
        DocE::B(n, u) => {
            let u = match u {
                None => "Option<DocUnit>::None".to_string(),
                Some(_) => format!("Option<DocUnit>::Some(/// Unit struct docs\n{q}DocUnit {{}})"),
            };
            format!("/// Enum docs\n{p}/// Tuple docs\n{p}DocE::B(\n{q}/// tuple field\n{q}{n},\n{q}{u},\n{p})")
        }
        DocE::C { f, .. } => format!("/// Enum docs\n{p}/// Struct docs\n{p}DocE::C {{\n{q}/// named field\n{q}f: {f},\n{q}/// secret field\n{q}g: [REDACTED],\n{p}}}"),
    }
}
fn doc_text(v: &Doc, i: usize) -> String {
    let p = " ".repeat(i);
    let l: String = v.l.iter().map(|x| format!("{p}{p}{},\n", doc_in(x, 2, i))).collect();
    format!(
        "/// Top docs\n/// second line\nDoc {{\n{p}/// first field\n{p}a: {},\n{p}plain: {},\n\n{p}/// nested\n{p}/// two lines\n{p}b: {},\n{p}e: {},\n{p}l: Vec<DocIn> [\n{l}{p}],\n\n{p}/// secret docs\n{p}s: [REDACTED],\n}}",
        v.a, v.plain, doc_in(&v.b, 1, i), doc_e(&v.e, 1, i)
    )
}
fn arb_doc(r: &mut Rng) -> Doc {
    Doc {
        a: r.next() as u32,
        plain: r.next() as u8,
        b: DocIn { x: r.next() as i8 },
        e: match r.below(3) {
            0 => DocE::A,
            1 => DocE::B(r.next() as u8, r.chance(1, 2).then_some(DocUnit)),
            _ => DocE::C { f: r.chance(1, 2), g: r.next() as u32 },
        },
        l: (0..r.below(3)).map(|_| DocIn { x: r.next() as i8 }).collect(),
        s: "never shown".into(),
    }
}

// ------------------------------------------------------------------ kinds without a reference text
pub type Sect = (&'static str, fn(&mut Rng, Printer<'_>) -> PrettyOut, bool);
macro_rules! sect {
    ($t:ty, $secret:expr, |$r:ident| $e:expr) => {
        (stringify!($t), (|$r: &mut Rng, p: Printer<'_>| { let v: $t = $e; pretty_out(&v, MV::Unit, $r, p) }) as fn(&mut Rng, Printer<'_>) -> PrettyOut, $secret)
    };
}
/// a generic holder, a struct with a lifetime, attributes in either order, renamed
#[derive(Facet, Clone, Debug, PartialEq)]
struct Gen<X> {
    #[facet(sensitive)]
    hidden: X,
    shown: u32,
}
#[derive(Facet, Clone, Debug)]
struct Holder {
    a: Arc<SecretIn>,
    b: [SecretE; 2],
    c: Vec<Arc<SecretTup>>,
    d: Option<[Arc<SecretE2>; 1]>,
    n: u32,
}
#[derive(Facet, Clone, Debug)]
struct Attrs {
    #[facet(rename = "x")]
    #[facet(sensitive)]
    a: String,
    #[facet(sensitive)]
    #[facet(rename = "y")]
    b: String,
    /// docs
    #[facet(sensitive)]
    /// more docs
    c: String,
    #[facet(sensitive)]
    #[facet(default)]
    d: u64,
    #[facet(default = "one")]
    #[facet(sensitive)]
    e: u64,
    shown: u32,
}
fn one() -> u64 {
    1
}
#[derive(Facet, Clone, Debug)]
#[facet(deny_unknown_fields)]
struct Plain2 {
    #[facet(sensitive)]
    s: &'static str,
    #[facet(sensitive)]
    p: Option<Arc<String>>,
    #[facet(sensitive)]
    a: [u8; 4],
    #[facet(sensitive)]
    t: (u32, String),
    q: (u32, Gen<u8>),
}
/// several attributes in one bracket: a known finding of P04
#[derive(Facet, Clone, Debug)]
struct Comb {
    #[facet(sensitive, rename = "x")]
    a: String,
    shown: u32,
}
#[derive(Facet, Clone, Debug)]
#[repr(u8)]
enum AttrsE {
    A(#[facet(sensitive)] Arc<SecretIn>, [Gen<String>; 1]),
    #[facet(rename = "other")]
    B {
        #[facet(rename = "k")]
        #[facet(sensitive)]
        key: String,
        z: Gen<Vec<u64>>,
    },
}
fn word(r: &mut Rng) -> String {
    let mut r = secret(r);
    (0..r.range(0, 9)).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
fn words(r: &mut Rng) -> &'static str {
    const W: &[&str] = &["alpha", "beta", "gamma", "delta", "", "epsilon", "zeta"];
    W[secret(r).below(W.len())]
}
fn num(r: &mut Rng) -> u64 {
    secret(r).next()
}
fn genx<X>(hidden: X, r: &mut Rng) -> Gen<X> {
    Gen { hidden, shown: r.below(100) as u32 }
}
fn holder(r: &mut Rng) -> Holder {
    Holder {
        a: Arc::new(SecretIn::arb(r, 2)),
        b: [SecretE::arb(r, 2), SecretE::arb(r, 2)],
        c: (0..r.below(3)).map(|_| Arc::new(SecretTup::arb(r, 1))).collect(),
        d: r.chance(1, 2).then(|| [Arc::new(SecretE2::arb(r, 1))]),
        n: r.below(100) as u32,
    }
}
fn attrs(r: &mut Rng) -> Attrs {
    Attrs { a: word(r), b: word(r), c: word(r), d: num(r), e: num(r), shown: r.below(100) as u32 }
}
fn plain2(r: &mut Rng) -> Plain2 {
    let (n, w) = (num(r), word(r));
    Plain2 { s: words(r), p: (n % 2 == 0).then(|| Arc::new(w)), a: (num(r) as u32).to_le_bytes(), t: (num(r) as u32, word(r)), q: (r.below(9) as u32, genx(num(r) as u8, r)) }
}
fn attrse(r: &mut Rng) -> AttrsE {
    if r.chance(1, 2) { AttrsE::A(Arc::new(SecretIn::arb(&mut secret(r), 2)), [genx(word(r), r)]) } else { AttrsE::B { key: word(r), z: genx(vec![num(r); 2], r) } }
}
fn sects() -> Vec<Sect> {
    vec![
        sect!(Arc<SecretIn>, true, |r| Arc::new(SecretIn::arb(r, 2))),
        sect!(Arc<Secrets>, true, |r| Arc::new(Secrets::arb(r, 2))),
        sect!(Arc<Vec<SecretIn>>, true, |r| Arc::new(Vec::arb(r, 2))),
        sect!(Arc<Option<SecretE>>, true, |r| Arc::new(Option::arb(r, 2))),
        sect!(Arc<Arc<SecretE>>, true, |r| Arc::new(Arc::new(SecretE::arb(r, 2)))),
        sect!([SecretIn; 1], true, |r| [SecretIn::arb(r, 2)]),
        sect!([SecretE; 3], true, |r| [SecretE::arb(r, 2), SecretE::arb(r, 1), SecretE::arb(r, 0)]),
        sect!([[SecretTup; 1]; 2], true, |r| [[SecretTup::arb(r, 1)], [SecretTup::arb(r, 1)]]),
        sect!([Vec<Option<SecretIn>>; 1], true, |r| [Vec::arb(r, 3)]),
        sect!([HashMap<u32, SecretIn>; 1], true, |r| [HashMap::arb(r, 0)]),
        sect!(Vec<[SecretIn; 1]>, true, |r| (0..3).map(|_| [SecretIn::arb(r, 1)]).collect()),
        sect!(Option<Arc<SecretE2>>, true, |r| Some(Arc::new(SecretE2::arb(r, 2)))),
        sect!(HashMap<String, [SecretIn; 1]>, true, |r| (0..3).map(|i| (i.to_string(), [SecretIn::arb(r, 1)])).collect()),
        sect!(BTreeMap<u32, Arc<SecretIn>>, true, |r| (0..3).map(|i| (i, Arc::new(SecretIn::arb(r, 1)))).collect()),
        sect!((u32, SecretIn), true, |r| (r.below(9) as u32, SecretIn::arb(r, 1))),
        sect!(Vec<(SecretE, SecretTup)>, true, |r| (0..2).map(|_| (SecretE::arb(r, 1), SecretTup::arb(r, 1))).collect()),
        sect!(Gen<String>, true, |r| genx(word(r), r)),
        sect!(Gen<u8>, true, |r| genx(num(r) as u8, r)),
        sect!(Gen<Vec<u8>>, true, |r| genx(vec![num(r) as u8; 20], r)),
        sect!(Gen<Arc<String>>, true, |r| genx(Arc::new(word(r)), r)),
        sect!(Gen<[u64; 3]>, true, |r| genx([num(r), num(r), 1], r)),
        sect!(Gen<Gen<String>>, true, |r| { let g = Gen { hidden: word(r), shown: num(r) as u32 }; genx(g, r) }),
        sect!(Gen<Option<u64>>, true, |r| { let n = num(r); genx((n % 3 != 0).then_some(n), r) }),
        sect!(Gen<SecretE>, true, |r| genx(SecretE::arb(&mut secret(r), 1), r)),
        sect!(Gen<HashMap<String, u32>>, true, |r| genx(HashMap::arb(&mut secret(r), 3), r)),
        sect!(Gen<&'static str>, true, |r| genx(words(r), r)),
        sect!(Gen<()>, true, |r| genx((), r)),
        sect!(Gen<f64>, true, |r| genx(f64::from_bits(num(r)), r)),
        sect!(Gen<std::net::Ipv4Addr>, true, |r| genx(std::net::Ipv4Addr::from(num(r) as u32), r)),
        sect!(Vec<Gen<String>>, true, |r| (0..4).map(|_| genx(word(r), r)).collect()),
        sect!(Holder, true, |r| holder(r)),
        sect!(Arc<Holder>, true, |r| Arc::new(holder(r))),
        sect!(Attrs, true, |r| attrs(r)),
        sect!(Option<Attrs>, true, |r| Some(attrs(r))),
        sect!([Attrs; 1], true, |r| [attrs(r)]),
        sect!(Plain2, true, |r| plain2(r)),
        sect!(Arc<Plain2>, true, |r| Arc::new(plain2(r))),
        sect!(AttrsE, true, |r| attrse(r)),
        sect!([AttrsE; 1], true, |r| [attrse(r)]),
        sect!(Comb, true, |r| Comb { a: word(r), shown: r.below(100) as u32 }),
        // nothing sensitive: only totality, colours, entry points
        sect!([u32; 4], false, |r| [r.below(9) as u32; 4]),
        sect!([u8; 0], false, |_r| []),
        sect!([String; 2], false, |r| [r.next().to_string(), String::new()]),
        sect!(Arc<u32>, false, |r| Arc::new(r.below(9) as u32)),
        sect!(Vec<Arc<String>>, false, |r| (0..3).map(|i| Arc::new(i.to_string() + &r.below(9).to_string())).collect()),
        sect!((u32, String, bool), false, |r| (r.below(9) as u32, r.below(9).to_string(), true)),
        sect!(&'static str, false, |r| *r.pick(&["", "a", "two\nlines"])),
        sect!(std::borrow::Cow<'static, str>, false, |r| std::borrow::Cow::Owned(r.below(9).to_string())),
        sect!(std::net::SocketAddr, false, |r| std::net::SocketAddr::from(([1, 2, 3, 4], r.below(9) as u16))),
        sect!(std::sync::Weak<u32>, false, |_r| std::sync::Weak::new()),
    ]
}

/// output of one value under one configuration
fn text(o: &PrettyOut) -> Result<String, Fail> {
    let mut s = String::new();
    for (w, t) in &o.outs {
        match t {
            Ok(t) => {
                s.push_str(t);
                s.push('\u{1}');
            }
            Err(p) => return Err(fail("panic", format!("{w} panicked: {p}"))),
        }
    }
    match &o.plain {
        Ok(t) => s.push_str(t),
        Err(p) => return Err(fail("panic", format!("pretty() panicked: {p}"))),
    }
    Ok(s)
}
struct Salt(u64);
impl Salt {
    fn new(n: u64) -> Salt {
        Salt(SALT.with(|s| s.replace(n)))
    }
}
impl Drop for Salt {
    fn drop(&mut self) {
        SALT.with(|s| s.set(self.0))
    }
}
fn holds_secret(t: T, d: usize) -> bool {
    if d == 0 {
        return false;
    }
    match kind(t) {
        Kind::Struct(s) => s.fields.iter().any(|f| f.sensitive || holds_secret((f.ty)(), d - 1)),
        Kind::Enum(e) => e.variants.iter().any(|v| v.fields.iter().any(|f| f.sensitive || holds_secret((f.ty)(), d - 1))),
        Kind::Option(t) | Kind::List(t) => holds_secret(t, d - 1),
        Kind::Map(k, t) => holds_secret(k, d - 1) || holds_secret(t, d - 1),
        _ => false,
    }
}
pub fn p17(c: &mut Ctx) {
    let mut types: Vec<T> = ZOO.iter().map(|(t, _)| *t).filter(|t| holds_secret(*t, 6)).collect();
    types.extend([
        <Vec<Secrets> as Model>::FNS,
        <Vec<Vec<SecretE>> as Model>::FNS,
        <Option<Option<SecretIn>> as Model>::FNS,
        <Option<Vec<SecretTup>> as Model>::FNS,
        <HashMap<String, SecretE2> as Model>::FNS,
        <BTreeMap<u32, Vec<Secrets>> as Model>::FNS,
        <Vec<HashMap<String, SecretIn>> as Model>::FNS,
        <Vec<Option<SecretE2>> as Model>::FNS,
        <Option<SecretKinds> as Model>::FNS,
        <Vec<SecretNest> as Model>::FNS,
    ]);
    let sects: Vec<Sect> = sects().into_iter().filter(|s| s.2).collect();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let cfg = arb_cfg(&mut r);
        let k = r.below(types.len() + sects.len());
        let d = r.below(4);
        let rr = r.clone();
        let salt = c.rng(n ^ 0x5a5a).next() | 1;
        let input = format!("{cfg:?} depth {d} seed {} shard {} case {n}", c.seed, c.shard);
        if k < types.len() {
            let ty = types[k];
            c.case(&format!("secret/{}", (ty.tn)()), &input, || {
                // the same value twice but for what is sensitive in it
                let outs: Vec<PrettyOut> = [0, salt, salt.wrapping_add(2)]
                    .iter()
                    .map(|s| {
                        let _s = Salt::new(*s);
                        (ty.pretty)(&mut rr.clone(), d, &|| mk(cfg))
                    })
                    .collect();
                let base = text(&outs[0])?;
                for o in &outs[1..] {
                    let t = text(o)?;
                    if o.value != outs[0].value {
                        cov!("pairs differing only in sensitive fields");
                    }
                    ensure!(t == base, "leak", "what is sensitive shows: {} :: {:?} and {:?}", differ(&t, &base), outs[0].value, o.value);
                }
                // every sensitive field is announced, and what is not sensitive is shown
                judge(ty, &outs[0], cfg)
            });
        } else {
            let (name, f, _) = sects[k - types.len()];
            c.case(&format!("secret-kinds/{}", name.replace(' ', "")), &input, || {
                let mut base: Option<String> = None;
                for s in [0, salt, salt.wrapping_add(2)] {
                    let _s = Salt::new(s);
                    let o = f(&mut rr.clone(), &|| mk(cfg));
                    let t = text(&o)?;
                    cov!("values of other kinds");
                    match &base {
                        None => base = Some(t),
                        Some(b) => ensure!(t == *b, "leak", "what is sensitive shows: {}", differ(&t, b)),
                    }
                }
                if name.starts_with("Gen<") || name == "Attrs" || name == "Comb" || name == "Plain2" {
                    let t = base.unwrap();
                    let n = t.matches("[REDACTED]").count();
                    if cfg.max != Some(0) {
                        ensure!(n > 0, if name == "Comb" { "leak" } else { "marker" }, "no redaction marker in {t:?}");
                    }
                    ensure!(t.contains("shown") || t.contains("q"), "shown", "fields which are not sensitive are missing from {t:?}");
                }
                Ok(())
            });
        }
    }
}

pub fn p18(c: &mut Ctx) {
    NONFINITE.with(|n| n.set(true));
    let mut types: Vec<T> = ZOO.iter().filter(|(_, t)| t.contains('p')).map(|(t, _)| *t).collect();
    types.extend([
        <Vec<u8> as Model>::FNS,
        <Vec<Vec<u8>> as Model>::FNS,
        <Option<Vec<u8>> as Model>::FNS,
        <Vec<String> as Model>::FNS,
        <Vec<()> as Model>::FNS,
        <Vec<Option<Option<bool>>> as Model>::FNS,
        <HashMap<String, Vec<u8>> as Model>::FNS,
        <Vec<BTreeMap<u8, u8>> as Model>::FNS,
        <Option<DataE> as Model>::FNS,
        <Vec<TokEnum> as Model>::FNS,
        <Vec<ZstNest> as Model>::FNS,
        <Option<Tree> as Model>::FNS,
        u8::FNS,
        i128::FNS,
        u128::FNS,
        f32::FNS,
        f64::FNS,
        String::FNS,
        char::FNS,
        bool::FNS,
        <() as Model>::FNS,
    ]);
    let sects = sects();
    let mut n = 0u64;
    deep(c);
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let cfg = arb_cfg(&mut r);
        let d = r.below(5);
        let rr = r.clone();
        let input = format!("{cfg:?} depth {d} seed {} shard {} case {n}", c.seed, c.shard);
        match r.below(12) {
            0 => {
                let (name, f, _) = *r.pick(&sects);
                c.case(&format!("kinds/{}", name.replace(' ', "")), &input, || {
                    let a = f(&mut rr.clone(), &|| mk(cfg));
                    text(&a)?;
                    let b = f(&mut rr.clone(), &|| mk(Cfg { colors: false, ..cfg }));
                    text(&b)?;
                    let (x, y) = (a.outs[0].1.as_ref().unwrap(), b.outs[0].1.as_ref().unwrap());
                    ensure!(a.outs.iter().all(|o| o.1.as_ref() == Ok(x)), "entry-points", "{:?}", a.outs);
                    if !y.contains('\u{1b}') && cfg.colors {
                        match uncolor(x) {
                            Err(e) => bail!("colours", "{e}"),
                            Ok(g) => ensure!(g == *y, "colours", "colours removed, {}", differ(&g, y)),
                        }
                    }
                    cov!("other kinds printed");
                    Ok(())
                });
            }
            1 => {
                let v = arb_doc(&mut r);
                c.case("docs/Doc", &input, || {
                    let cfg = Cfg { max: None, ..cfg };
                    let got = mk(cfg).format(&v);
                    let got = if cfg.colors { uncolor(&got).map_err(|e| fail("colours", e))? } else { got };
                    let want = doc_text(&v, cfg.indent);
                    ensure!(got == want, "text", "{}", differ(&got, &want));
                    cov!("documented types printed");
                    Ok(())
                });
            }
            _ => {
                let ty = *r.pick(&types);
                let rr = r.clone();
                c.case(&format!("print/{}", (ty.tn)()), &input, || {
                    let o = (ty.pretty)(&mut rr.clone(), d, &|| mk(cfg));
                    judge(ty, &o, cfg)
                });
            }
        }
    }
    NONFINITE.with(|n| n.set(false));
}
/// very deep values, and wide indentation
fn deep(c: &mut Ctx) {
    let reps: &[(usize, usize)] = if cfg!(miri) { &[(5, 2)] } else { &[(3, 30_000), (600, 2), (5_000, 0), (700, 1), (40, 60)] };
    for (i, &(depth, indent)) in reps.iter().enumerate() {
        if !c.mine(i) {
            continue;
        }
        c.case("deep/Tree", &format!("depth {depth} indent {indent}"), || {
            let mut t = Tree { v: 0, kids: vec![] };
            for k in 0..depth {
                t = Tree { v: k as u32, kids: vec![t] };
            }
            let got = no_panic(|| PrettyPrinter::new().with_colors(false).with_indent_size(indent).format(&t));
            // take it apart without recursion
            let mut cur = t;
            while let Some(k) = cur.kids.pop() {
                cur = k;
            }
            let got = match got {
                Err(p) => bail!("panic", "panicked: {p}"),
                Ok(g) => g,
            };
            let mut at = 0usize;
            let mut want_v = depth as i64 - 1;
            for l in got.lines() {
                let sp = l.bytes().take_while(|b| *b == b' ').count();
                if let Some(v) = l.trim_start().strip_prefix("v: ") {
                    let v: i64 = v.trim_end_matches(',').parse().unwrap_or(-1);
                    ensure!(v == want_v.max(0), "text", "level {at} shows {v}, holds {want_v}");
                    ensure!(sp == (at * 2 + 1) * indent, "text", "level {at} is indented by {sp}");
                    want_v -= 1;
                    at += 1;
                }
            }
            ensure!(at == depth + 1, "text", "{at} levels shown of {}", depth + 1);
            ensure!(got.matches(['{', '[']).count() == got.matches(['}', ']']).count(), "text", "unbalanced");
            cov!("very deep values printed");
            Ok(())
        });
    }
}
