//! P13: TOML in. Documents are generated together with their tree (tables inline, dotted and as
//! headers); for damaged documents the tree is the one toml_edit's parser gives.
use fvl::ctx::*;
use fvl::model::*;
use fvl::{bail, cov, ensure};
use fvl::zoo::ZOO;

#[derive(Clone, Debug, PartialEq)]
pub enum TV {
    Str(String),
    Int(i128),
    Float(u64),
    Bool(bool),
    Date(String),
    Arr(Vec<TV>),
    /// an array of tables written with `[[header]]`s
    Aot(Vec<TV>),
    Tab(Vec<(String, TV)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    Ok(MV),
    Err(String),
    Maybe(MV),
    Any,
}
use Dec::{Any, Err as No, Maybe, Ok as Yes};

/// all of the parts, or the strongest reason not to have them
pub fn all(parts: Vec<Dec>, f: impl FnOnce(Vec<MV>) -> MV) -> Dec {
    let (mut any, mut maybe) = (false, false);
    let mut out = vec![];
    for p in parts {
        match p {
            No(e) => return No(e),
            Any => any = true,
            Maybe(m) => {
                maybe = true;
                out.push(m)
            }
            Yes(m) => out.push(m),
        }
    }
    if any {
        Any
    } else if maybe {
        Maybe(f(out))
    } else {
        Yes(f(out))
    }
}
pub fn weaken(d: Dec) -> Dec {
    match d {
        Yes(m) => Maybe(m),
        d => d,
    }
}
fn get<'a>(t: &'a [(String, TV)], k: &str) -> Option<&'a TV> {
    t.iter().find(|(n, _)| n == k).map(|(_, v)| v)
}
/// what the tree denotes as a value of the type
pub fn decode(ty: T, v: &TV) -> Dec {
    let no = |what: &str| No(format!("{what} as {}", ty.name));
    match kind(ty) {
        Kind::Option(t) => all(vec![decode(t, v)], |mut m| MV::Some(Box::new(m.remove(0)))),
        Kind::Scalar(k) => match (k, v) {
            (SK::Bool, TV::Bool(b)) => Yes(MV::Bool(*b)),
            (SK::Str, TV::Str(s)) => Yes(MV::Str(s.clone())),
            (SK::Str, TV::Date(_)) => Any,
            (SK::Char, TV::Str(s)) if s.chars().count() == 1 => Maybe(MV::Char(s.chars().next().unwrap())),
            (SK::Tok, TV::Str(_)) | (SK::Unit, _) => Any,
            (SK::Int { bits, signed, nonzero, .. }, TV::Int(i)) => match fvl::jref::int_fits(*i < 0, i.unsigned_abs(), bits, signed, nonzero) {
                // a type the reader does not know may be refused
                Some(m) if bits == 128 || nonzero => Maybe(m),
                Some(m) => Yes(m),
                None => no("an integer out of range"),
            },
            // a float which is a whole number may be taken for that number, and never for another
            (SK::Int { bits, signed, nonzero, .. }, TV::Float(b)) => {
                let f = f64::from_bits(*b);
                if f.fract() == 0.0 && f.abs() < 1e30 {
                    match fvl::jref::int_fits(f < 0.0, f.abs() as u128, bits, signed, nonzero) {
                        Some(m) => Maybe(m),
                        None => no("a float out of range"),
                    }
                } else {
                    no("a fraction")
                }
            }
            (SK::F64, TV::Float(b)) => Yes(f64mv(f64::from_bits(*b))),
            (SK::F64, TV::Int(i)) => {
                let f = *i as f64;
                if f as i128 == *i { Yes(f64mv(f)) } else { Maybe(f64mv(f)) }
            }
            (SK::F32, TV::Float(b)) => {
                let f = f64::from_bits(*b);
                if f.is_finite() && !(f as f32).is_finite() { no("a float out of range") } else { Yes(f32mv(f as f32)) }
            }
            (SK::F32, TV::Int(i)) => {
                let f = *i as f32;
                if f as i128 == *i { Yes(f32mv(f)) } else { Maybe(f32mv(f)) }
            }
            _ => no("another kind of value"),
        },
        Kind::List(t) => match v {
            TV::Arr(a) | TV::Aot(a) => all(a.iter().map(|x| decode(t, x)).collect(), MV::List),
            _ => no("no array"),
        },
        Kind::Map(k, t) => match v {
            TV::Tab(e) if e.is_empty() => Yes(MV::Map(vec![])),
            TV::Tab(e) => match kind(k) {
                Kind::Scalar(SK::Str) => {
                    let keys: Vec<MV> = e.iter().map(|(k, _)| MV::Str(k.clone())).collect();
                    all(e.iter().map(|(_, x)| decode(t, x)).collect(), |m| {
                        let mut v: Vec<(MV, MV)> = keys.into_iter().zip(m).collect();
                        v.sort();
                        MV::Map(v)
                    })
                }
                _ => Any,
            },
            _ => no("no table"),
        },
        Kind::Struct(d) => match v {
            TV::Tab(e) => fields(d.fields, e, false),
            // a struct of one field may be written as that field
            v if d.fields.len() == 1 => {
                let x = all(vec![decode((d.fields[0].ty)(), v)], MV::Struct);
                if matches!(v, TV::Aot(_)) { weaken(x) } else { x }
            }
            _ => no("no table"),
        },
        Kind::Enum(d) => match v {
            TV::Str(s) => match d.variants.iter().position(|x| x.name == s) {
                Some(i) if d.variants[i].kind == 0 => Yes(MV::Enum(i, vec![])),
                Some(i) if d.variants[i].fields.iter().all(|f| matches!(kind((f.ty)()), Kind::Option(_))) => Any,
                Some(_) => no("the bare name of a variant with fields"),
                None => no("an unknown variant"),
            },
            TV::Tab(e) if e.len() == 1 => {
                let Some(i) = d.variants.iter().position(|x| x.name == e[0].0) else { return no("an unknown variant") };
                let (vd, p) = (&d.variants[i], &e[0].1);
                match (vd.kind, p) {
                    (0, TV::Tab(e)) if e.is_empty() => Yes(MV::Enum(i, vec![])),
                    (0, _) => Maybe(MV::Enum(i, vec![])),
                    (_, TV::Tab(e)) => {
                        let d = wrap(i, fields(vd.fields, e, vd.kind == 1));
                        if vd.kind == 1 && vd.fields.len() == 1 && direct(vd, p) {
                            // the one field could just as well be the table itself
                            if matches!(d, No(_)) { Any } else { weaken(d) }
                        } else {
                            d
                        }
                    }
                    (_, p) if vd.fields.len() == 1 => {
                        let x = all(vec![decode((vd.fields[0].ty)(), p)], |m| MV::Enum(i, m));
                        if matches!(p, TV::Aot(_)) { weaken(x) } else { x }
                    }
                    (1, TV::Arr(a)) if a.len() == vd.fields.len() => weaken(all(a.iter().zip(vd.fields).map(|(x, f)| decode((f.ty)(), x)).collect(), |m| MV::Enum(i, m))),
                    _ => no("a bare value for several fields"),
                }
            }
            _ => no("no variant"),
        },
    }
}
fn wrap(i: usize, d: Dec) -> Dec {
    match d {
        Yes(MV::Struct(v)) => Yes(MV::Enum(i, v)),
        Maybe(MV::Struct(v)) => Maybe(MV::Enum(i, v)),
        d => d,
    }
}
fn direct(vd: &VariantD, p: &TV) -> bool {
    !matches!(decode((vd.fields[0].ty)(), p), No(_))
}
fn fields(fs: &[FieldD], e: &[(String, TV)], numbered: bool) -> Dec {
    all(
        fs.iter()
            .enumerate()
            .map(|(i, f)| {
                let n = i.to_string();
                let (name, ty) = (if numbered { n.as_str() } else { f.name }, (f.ty)());
                match get(e, name) {
                    Some(x) => decode(ty, x),
                    None if matches!(kind(ty), Kind::Option(_)) => Yes(MV::None),
                    None => No(format!("field {name} missing")),
                }
            })
            .collect(),
        MV::Struct,
    )
}

// ------------------------------------------------------------------ trees
pub fn tree(ty: T, m: &MV, r: &mut Rng) -> TV {
    match (kind(ty), m) {
        (_, MV::Bool(b)) => TV::Bool(*b),
        (_, MV::Int(i)) => TV::Int(*i),
        (_, MV::Big(_)) => TV::Int(i64::MAX as i128),
        (_, MV::F64(b)) => {
            let f = f64::from_bits(*b);
            if f.fract() == 0.0 && f.abs() < 1e15 && f.to_bits() != (-0.0f64).to_bits() && r.chance(1, 3) { TV::Int(f as i128) } else { TV::Float(f.to_bits()) }
        }
        (_, MV::F32(b)) => TV::Float((f32::from_bits(*b) as f64).to_bits()),
        (_, MV::Char(c)) => TV::Str(c.to_string()),
        (_, MV::Str(s)) => TV::Str(s.clone()),
        (_, MV::Tok(t)) => TV::Str(t.to_string()),
        (Kind::Option(t), MV::Some(x)) => tree(t, x, r),
        (Kind::List(t), MV::List(v)) => TV::Arr(v.iter().filter(|x| !absent(x)).map(|x| tree(t, x, r)).collect()),
        (Kind::Map(_, t), MV::Map(v)) => TV::Tab(v.iter().filter(|(_, x)| !absent(x)).map(|(k, x)| (fvl::jref::key_text(k).unwrap_or_default(), tree(t, x, r))).collect()),
        (Kind::Struct(d), MV::Struct(v)) => {
            if d.fields.len() == 1 && !absent(&v[0]) && r.chance(1, 3) {
                let x = tree((d.fields[0].ty)(), &v[0], r);
                if !matches!(x, TV::Tab(_)) {
                    return x;
                }
            }
            TV::Tab(v.iter().zip(d.fields).filter(|(x, _)| !absent(x)).map(|(x, f)| (f.name.to_string(), tree((f.ty)(), x, r))).collect())
        }
        (Kind::Enum(d), MV::Enum(i, v)) => {
            let vd = &d.variants[*i];
            if vd.kind == 0 {
                return if r.chance(2, 3) { TV::Str(vd.name.into()) } else { TV::Tab(vec![(vd.name.into(), TV::Tab(vec![]))]) };
            }
            let sub: Vec<(String, TV)> = v
                .iter()
                .zip(vd.fields)
                .enumerate()
                .filter(|(_, (x, _))| !absent(x))
                .map(|(k, (x, f))| (if vd.kind == 1 { k.to_string() } else { f.name.to_string() }, tree((f.ty)(), x, r)))
                .collect();
            if vd.fields.len() == 1 && sub.len() == 1 && !matches!(sub[0].1, TV::Tab(_)) && r.chance(1, 2) {
                return TV::Tab(vec![(vd.name.into(), sub.into_iter().next().unwrap().1)]);
            }
            TV::Tab(vec![(vd.name.into(), TV::Tab(sub))])
        }
        _ => TV::Bool(true),
    }
}
/// there is no null in TOML
fn absent(m: &MV) -> bool {
    match m {
        MV::None => true,
        MV::Some(x) => absent(x),
        _ => false,
    }
}
pub fn names(ty: T, out: &mut Vec<String>, d: usize) {
    if d == 0 {
        return;
    }
    match kind(ty) {
        Kind::Struct(s) => {
            for f in s.fields {
                out.push(f.name.into());
                names((f.ty)(), out, d - 1);
            }
        }
        Kind::Enum(e) => {
            for v in e.variants {
                out.push(v.name.into());
                for (i, f) in v.fields.iter().enumerate() {
                    out.push(f.name.into());
                    out.push(i.to_string());
                    names((f.ty)(), out, d - 1);
                }
            }
        }
        Kind::Option(t) | Kind::List(t) | Kind::Map(_, t) => names(t, out, d - 1),
        _ => {}
    }
}
fn arb_key(r: &mut Rng, names: &[String]) -> String {
    match r.below(3) {
        0 => r.pick(&["a", "b", "id", "x", "0", "1", "2", "unknown", "", "é", "a b", "-", "1e5", "true", "inf", "2020-01-01", "k.v", "\u{1F600}"]).to_string(),
        1 if !names.is_empty() => r.pick(names).clone(),
        _ => arb_string(r),
    }
}
pub fn arb_tv(r: &mut Rng, d: usize, names: &[String]) -> TV {
    match r.below(if d == 0 { 7 } else { 10 }) {
        0 => TV::Bool(r.chance(1, 2)),
        1 | 2 => {
            let bits = *r.pick(&[8, 16, 32, 64, 64]);
            TV::Int(match r.below(3) {
                0 => *r.pick(&[0, -1, 1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1 << 31, (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, 1 << 53, (1 << 53) + 1, (1 << 24) + 1]),
                _ => arb_int(r, bits, true),
            })
        }
        3 => TV::Float(match r.below(3) {
            0 => *r.pick(&[0.5, 1.5, 1.0, -1.0, 0.0, -0.0, 255.0, 256.0, 255.5, -0.5, 1e300, 1e39, 3.4028236e38, 65536.0, 18446744073709551616.0, 9223372036854775808.0, 4294967295.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-320, 1e15]),
            _ => arb_f64(r),
        }.to_bits()),
        4 | 5 => TV::Str(if r.chance(1, 3) && !names.is_empty() { r.pick(names).clone() } else { arb_string(r) }),
        6 => TV::Date(r.pick(&["1979-05-27T07:32:00Z", "1979-05-27T00:32:00.999999-07:00", "1979-05-27 07:32:00", "1979-05-27", "07:32:00"]).to_string()),
        7 => TV::Arr((0..r.below(4)).map(|_| arb_tv(r, d - 1, names)).collect()),
        _ => tab(r, d, names),
    }
}
fn tab(r: &mut Rng, d: usize, names: &[String]) -> TV {
    let mut v: Vec<(String, TV)> = vec![];
    for _ in 0..r.below(4) {
        let k = arb_key(r, names);
        if get(&v, &k).is_none() {
            let x = arb_tv(r, d - 1, names);
            v.push((k, x));
        }
    }
    TV::Tab(v)
}
pub fn mutate(j: &mut TV, r: &mut Rng, names: &[String]) {
    let mut cur = j;
    let mut root = true;
    loop {
        let n = match cur {
            TV::Arr(v) | TV::Aot(v) => v.len(),
            TV::Tab(v) => v.len(),
            _ => 0,
        };
        if n == 0 || r.chance(1, 4) && !root {
            break;
        }
        root = false;
        let i = r.below(n);
        cur = match cur {
            TV::Arr(v) | TV::Aot(v) => &mut v[i],
            TV::Tab(v) => &mut v[i].1,
            _ => unreachable!(),
        };
        if r.chance(1, 3) {
            break;
        }
    }
    match cur {
        TV::Tab(v) if root || r.chance(5, 6) => {
            let n = v.len();
            match r.below(7) {
                0 | 1 if n > 0 => {
                    v.remove(r.below(n));
                }
                2 | 3 | 4 => {
                    let k = arb_key(r, names);
                    if get(v, &k).is_none() {
                        let at = r.below(n + 1);
                        let x = arb_tv(r, 2, names);
                        v.insert(at, (k, x));
                    }
                }
                5 if n > 0 => {
                    let k = arb_key(r, names);
                    if get(v, &k).is_none() {
                        let i = r.below(n);
                        v[i].0 = k;
                    }
                }
                _ if n > 0 => {
                    let i = r.below(n);
                    v[i].1 = arb_tv(r, 2, names);
                }
                _ => {}
            }
        }
        TV::Arr(v) if r.chance(2, 3) => {
            let n = v.len();
            match r.below(3) {
                0 if n > 0 => {
                    v.remove(r.below(n));
                }
                1 if n > 0 => {
                    let x = v[r.below(n)].clone();
                    v.push(x);
                }
                _ => {
                    let at = r.below(n + 1);
                    let x = arb_tv(r, 2, names);
                    v.insert(at, x);
                }
            }
        }
        c => *c = if r.chance(1, 4) { TV::Arr(vec![c.clone()]) } else { arb_tv(r, 2, names) },
    }
}

// ------------------------------------------------------------------ writing documents
fn sp(r: &mut Rng, o: &mut String) {
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
        o.push(*r.pick(&[' ', ' ', '\t']))
    }
}
fn nl(r: &mut Rng, o: &mut String) {
    sp(r, o);
    if r.chance(1, 8) {
        o.push_str(r.pick(&["# a comment", "# [x] = \"y\"", "#", "# é \u{1F600}", "#[["]));
    }
    o.push_str(if r.chance(1, 6) { "\r\n" } else { "\n" });
    if r.chance(1, 10) {
        nl(r, o);
    }
    if r.chance(1, 6) {
        sp(r, o)
    }
}
/// inside arrays line breaks and comments are whitespace
fn asp(r: &mut Rng, o: &mut String) {
    if r.chance(1, 6) { nl(r, o) } else { sp(r, o) }
}
fn basic(s: &str, r: &mut Rng, o: &mut String, multi: bool) {
    let style = r.below(3);
    let mut quotes = 0;
    let n = s.chars().count();
    for (i, c) in s.chars().enumerate() {
        if c != '"' {
            quotes = 0
        }
        match c {
            '"' if multi && quotes < 2 && i + 1 < n && r.chance(1, 2) => {
                quotes += 1;
                o.push('"')
            }
            '"' => {
                quotes = 0;
                o.push_str("\\\"")
            }
            '\\' => o.push_str("\\\\"),
            '\n' if multi && r.chance(2, 3) => o.push('\n'),
            '\t' if r.chance(1, 2) => o.push('\t'),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\x08' => o.push_str("\\b"),
            '\x0c' => o.push_str("\\f"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || style == 2 && r.chance(1, 3) => {
                if (c as u32) < 0x10000 && r.chance(2, 3) { o.push_str(&format!("\\u{:04X}", c as u32)) } else { o.push_str(&format!("\\U{:08x}", c as u32)) }
            }
            // a backslash at the end of a line takes the whitespace after it away
            c if multi && style == 1 && !c.is_whitespace() && r.chance(1, 8) => {
                o.push_str("\\\n");
                for _ in 0..r.below(3) {
                    o.push(*r.pick(&[' ', '\t', '\n']));
                }
                o.push(c)
            }
            c => o.push(c),
        }
    }
}
fn str_text(s: &str, r: &mut Rng, o: &mut String) {
    let lit = s.chars().all(|c| c == '\t' || (c as u32) >= 0x20 && c as u32 != 0x7f);
    let mlit = s.chars().all(|c| c == '\t' || c == '\n' || (c as u32) >= 0x20 && c as u32 != 0x7f) && !s.contains("'''") && !s.ends_with('\'');
    match r.below(6) {
        0 if lit && !s.contains('\'') => {
            o.push('\'');
            o.push_str(s);
            o.push('\'')
        }
        1 if mlit => {
            o.push_str("'''");
            if s.starts_with('\n') || r.chance(1, 2) {
                o.push('\n')
            }
            o.push_str(s);
            o.push_str("'''")
        }
        2 => {
            o.push_str("\"\"\"");
            if s.starts_with('\n') || r.chance(1, 2) {
                o.push('\n')
            }
            basic(s, r, o, true);
            o.push_str("\"\"\"")
        }
        _ => {
            o.push('"');
            basic(s, r, o, false);
            o.push('"')
        }
    }
}
fn key_text(k: &str, r: &mut Rng, o: &mut String) {
    if !k.is_empty() && k.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-') && r.chance(5, 6) {
        o.push_str(k)
    } else if k.chars().all(|c| (c as u32) >= 0x20 && c as u32 != 0x7f && c != '\'') && r.chance(1, 3) {
        o.push('\'');
        o.push_str(k);
        o.push('\'')
    } else {
        o.push('"');
        basic(k, r, o, false);
        o.push('"')
    }
}
fn under(s: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    let on = r.chance(1, 3);
    let b: Vec<char> = s.chars().collect();
    for (i, c) in b.iter().enumerate() {
        o.push(*c);
        if on && c.is_ascii_hexdigit() && i + 1 < b.len() && b[i + 1].is_ascii_hexdigit() && r.chance(1, 2) {
            o.push('_')
        }
    }
    o
}
fn int_text(i: i128, r: &mut Rng) -> String {
    match r.below(8) {
        0 if i >= 0 => format!("0x{}", under(&format!("{i:x}"), r)),
        1 if i >= 0 => format!("0x{}", under(&format!("{i:X}"), r)),
        2 if i >= 0 => format!("0o{}", under(&format!("{i:o}"), r)),
        3 if i >= 0 => format!("0b{}", under(&format!("{i:b}"), r)),
        4 if i >= 0 => format!("+{}", under(&i.to_string(), r)),
        _ if i < 0 => format!("-{}", under(&i.unsigned_abs().to_string(), r)),
        _ => under(&i.to_string(), r),
    }
}
fn float_text(f: f64, r: &mut Rng) -> String {
    if f.is_nan() {
        return r.pick(&["nan", "+nan", "-nan"]).to_string();
    }
    if f.is_infinite() {
        return if f > 0.0 { r.pick(&["inf", "+inf"]).to_string() } else { "-inf".into() };
    }
    let s = match r.below(3) {
        0 => format!("{f:e}"),
        _ => format!("{f:?}"),
    };
    let s = if s.contains('.') || s.contains('e') { s } else { format!("{s}.0") };
    match r.below(5) {
        0 => s.replace('e', "E"),
        1 if !s.contains("e-") => s.replace('e', "e+"),
        2 if !s.contains('e') => format!("{s}{}", "0".repeat(r.below(20))),
        3 if f.is_sign_positive() => format!("+{s}"),
        _ => s,
    }
}
fn value(v: &TV, r: &mut Rng, o: &mut String) {
    match v {
        TV::Str(s) => str_text(s, r, o),
        TV::Int(i) => o.push_str(&int_text(*i, r)),
        TV::Float(f) => o.push_str(&float_text(f64::from_bits(*f), r)),
        TV::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        TV::Date(d) => o.push_str(d),
        TV::Arr(a) | TV::Aot(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                asp(r, o);
                value(x, r, o);
                asp(r, o);
                if i + 1 < a.len() || r.chance(1, 4) {
                    o.push(',')
                }
            }
            asp(r, o);
            o.push(']')
        }
        TV::Tab(t) => {
            o.push('{');
            let mut first = true;
            for (k, x) in t {
                if !first {
                    o.push(',')
                }
                first = false;
                sp(r, o);
                pair(&mut vec![], k, x, r, o, true);
                sp(r, o);
            }
            if first {
                sp(r, o)
            }
            o.push('}')
        }
    }
}
/// `k = v`, or for a table now and then its entries one by one with dotted keys
fn pair(prefix: &mut Vec<String>, k: &str, v: &TV, r: &mut Rng, o: &mut String, inline: bool) {
    let mut kt = String::new();
    key_text(k, r, &mut kt);
    prefix.push(kt);
    match v {
        TV::Tab(t) if !t.is_empty() && prefix.len() < 6 && r.chance(1, 2) => {
            for (i, (k2, v2)) in t.iter().enumerate() {
                if inline && i > 0 {
                    o.push(',');
                    sp(r, o)
                }
                pair(prefix, k2, v2, r, o, inline);
            }
        }
        v => {
            for (i, p) in prefix.iter().enumerate() {
                if i > 0 {
                    sp(r, o);
                    o.push('.');
                    sp(r, o);
                }
                o.push_str(p);
            }
            sp(r, o);
            o.push('=');
            sp(r, o);
            value(v, r, o);
            if !inline {
                nl(r, o)
            }
        }
    }
    prefix.pop();
}
/// what is written as an array of tables is noted in the tree
fn table(path: &[String], t: &mut [(String, TV)], r: &mut Rng, o: &mut String) {
    let mut later: Vec<usize> = vec![];
    for i in 0..t.len() {
        let head = match &t[i].1 {
            TV::Tab(_) => path.len() < 8 && r.chance(1, 2),
            TV::Arr(a) => !a.is_empty() && a.iter().all(|x| matches!(x, TV::Tab(_))) && path.len() < 8 && r.chance(1, 2),
            _ => false,
        };
        if head {
            later.push(i)
        } else {
            let (k, v) = &t[i];
            pair(&mut vec![], k, v, r, o, false);
        }
    }
    r.shuffle(&mut later);
    for i in later {
        let (k, v) = &mut t[i];
        let mut p = path.to_vec();
        let mut kt = String::new();
        key_text(k, r, &mut kt);
        p.push(kt);
        let text = {
            let mut s = String::new();
            for (i, x) in p.iter().enumerate() {
                if i > 0 {
                    sp(r, &mut s);
                    s.push('.');
                    sp(r, &mut s);
                }
                s.push_str(x);
            }
            s
        };
        match v {
            TV::Tab(e) => {
                // a header may be left out where tables below it have their own
                let only_tables = !e.is_empty() && e.iter().all(|(_, x)| matches!(x, TV::Tab(_)));
                let mut body = String::new();
                table(&p, e, r, &mut body);
                if !(only_tables && body.trim_start().starts_with('[') && r.chance(1, 2)) {
                    sp(r, o);
                    o.push('[');
                    sp(r, o);
                    o.push_str(&text);
                    sp(r, o);
                    o.push(']');
                    nl(r, o);
                }
                o.push_str(&body);
            }
            TV::Arr(a) => {
                for x in a.iter_mut() {
                    let TV::Tab(e) = x else { unreachable!() };
                    sp(r, o);
                    o.push_str("[[");
                    sp(r, o);
                    o.push_str(&text);
                    sp(r, o);
                    o.push_str("]]");
                    nl(r, o);
                    table(&p, e, r, o);
                }
                *v = TV::Aot(std::mem::take(a));
            }
            _ => unreachable!(),
        }
    }
}
pub fn render(t: &mut TV, r: &mut Rng) -> String {
    let TV::Tab(e) = t else { panic!("not a table") };
    let mut o = String::new();
    if r.chance(1, 10) {
        nl(r, &mut o)
    }
    table(&[], e, r, &mut o);
    if r.chance(1, 8) && o.ends_with('\n') && !o.ends_with("\r\n") {
        o.pop();
    }
    o
}

// ------------------------------------------------------------------ the parser's own tree
pub fn parse(s: &str) -> Result<TV, String> {
    let d: toml_edit::DocumentMut = s.parse().map_err(|e: toml_edit::TomlError| e.to_string())?;
    Ok(item(d.as_item()))
}
fn item(i: &toml_edit::Item) -> TV {
    use toml_edit::Item as I;
    match i {
        I::None => TV::Tab(vec![]),
        I::Value(v) => val(v),
        I::Table(t) => TV::Tab(t.iter().map(|(k, v)| (k.to_string(), item(v))).collect()),
        I::ArrayOfTables(a) => TV::Aot(a.iter().map(|t| TV::Tab(t.iter().map(|(k, v)| (k.to_string(), item(v))).collect())).collect()),
    }
}
fn val(v: &toml_edit::Value) -> TV {
    use toml_edit::Value as V;
    match v {
        V::String(s) => TV::Str(s.value().clone()),
        V::Integer(i) => TV::Int(*i.value() as i128),
        V::Float(f) => TV::Float(f.value().to_bits()),
        V::Boolean(b) => TV::Bool(*b.value()),
        V::Datetime(d) => TV::Date(d.value().to_string()),
        V::Array(a) => TV::Arr(a.iter().map(val).collect()),
        V::InlineTable(t) => TV::Tab(t.iter().map(|(k, v)| (k.to_string(), val(v))).collect()),
    }
}
fn same(a: &TV, b: &TV) -> bool {
    match (a, b) {
        (TV::Float(x), TV::Float(y)) => x == y || f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan(),
        (TV::Date(_), TV::Date(_)) => true,
        (TV::Arr(x), TV::Arr(y)) | (TV::Aot(x), TV::Aot(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (TV::Tab(x), TV::Tab(y)) => x.len() == y.len() && x.iter().all(|(k, v)| get(y, k).is_some_and(|w| same(v, w))),
        (a, b) => a == b,
    }
}
fn ints_fit(t: &TV) -> bool {
    match t {
        TV::Int(i) => i64::try_from(*i).is_ok(),
        TV::Arr(a) | TV::Aot(a) => a.iter().all(ints_fit),
        TV::Tab(t) => t.iter().all(|(_, v)| ints_fit(v)),
        _ => true,
    }
}

// ------------------------------------------------------------------ judging
pub fn judge(got: Result<Result<MV, String>, String>, want: &Dec) -> R {
    match got {
        Err(p) => bail!("panic", "{p}"),
        Ok(Ok(v)) => match want {
            Yes(m) | Maybe(m) => {
                ensure!(v == *m, "value", "read as {v:?}, denotes {m:?}");
                cov!("documents read");
            }
            No(e) => bail!("accepted", "read as {v:?}, must be refused: {e}"),
            Any => {}
        },
        Ok(Err(e)) => match want {
            Yes(m) => bail!("refused", "refused ({e}), denotes {m:?}"),
            No(_) => cov!("documents refused as they should be"),
            _ => {}
        },
    }
    Ok(())
}
pub fn types(tag: char) -> Vec<T> {
    ZOO.iter().filter(|(_, t)| t.contains(tag)).map(|(t, _)| *t).collect()
}
fn corrupt(doc: &mut String, r: &mut Rng) {
    let mut c: Vec<char> = doc.chars().collect();
    let n = c.len();
    match r.below(8) {
        0 => c.truncate(r.below(n + 1)),
        1 if n > 0 => {
            c.remove(r.below(n));
        }
        2 if n > 0 => {
            let i = r.below(n);
            c[i] = *r.pick(&['[', ']', '{', '}', '=', '.', ',', '"', '\'', '\\', '#', '\n', ' ', '0', '1', 'e', '-', '_', 'x', 't', '\0', '\u{7f}', '\u{feff}', '\r', 'é']);
        }
        3 | 4 if n > 0 => {
            let (i, j) = (r.below(n), r.below(n));
            c.swap(i, j)
        }
        5 if n > 0 => {
            let a = r.below(n);
            let b = r.range(a, (a + 12).min(n));
            if r.chance(1, 2) {
                c.drain(a..b);
            } else {
                let s = c[a..b].to_vec();
                let at = r.below(c.len() + 1);
                c.splice(at..at, s);
            }
        }
        _ => {
            let at = r.below(n + 1);
            let t = *r.pick(&["[", "]", "[[a]]", "[a]", "\n[a]\n", "\n[[b]]\n", "=", " = ", "\"\"\"", "'''", "{", "}", "x = 1\n", "a.b = 2\n", "1e400", "99999999999999999999", "0x", "true", "2020-02-30", "\\u{", "\\uD800", "_", ",", ".", "-", "nan"]);
            c.splice(at..at, t.chars());
        }
    }
    *doc = c.into_iter().collect();
}
pub fn arb_doc(ty: T, r: &mut Rng, d: usize) -> (TV, String) {
    let m = arb_mv(ty, r, d);
    let mut t = tree(ty, &m, r);
    if r.chance(1, 2) {
        let mut ns = vec![];
        names(ty, &mut ns, 4);
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            mutate(&mut t, r, &ns);
        }
    }
    if !matches!(t, TV::Tab(_)) {
        t = TV::Tab(vec![(r.pick(&["value", "v", "0", "x"]).to_string(), t)]);
    }
    if let TV::Tab(e) = &mut t {
        shuffle(e, r)
    }
    let s = render(&mut t, r);
    (t, s)
}
fn shuffle(e: &mut Vec<(String, TV)>, r: &mut Rng) {
    if r.chance(1, 2) {
        r.shuffle(e);
    }
    for (_, v) in e {
        match v {
            TV::Tab(e) => shuffle(e, r),
            TV::Arr(a) => a.iter_mut().for_each(|x| {
                if let TV::Tab(e) = x {
                    shuffle(e, r)
                }
            }),
            _ => {}
        }
    }
}
/// the text alone: whatever the parser makes of it is what it denotes
fn by_text(c: &mut Ctx, ty: T, doc: &str, what: &str) {
    c.case(&format!("toml-{what}/{}", (ty.tn)()), doc, || {
        let want = match parse(doc) {
            Ok(t) => decode(ty, &t),
            Err(e) => {
                cov!("malformed documents");
                No(e)
            }
        };
        judge((ty.de_toml)(doc.as_bytes()), &want)
    });
}
pub fn p13(c: &mut Ctx) {
    c.check_leaks = false; // P22
    let mut types = types('t');
    types.extend([<std::collections::HashMap<String, u8> as Model>::FNS, <std::collections::BTreeMap<String, Vec<DataE>> as Model>::FNS, <Option<Flat> as Model>::FNS, <std::collections::HashMap<String, Option<Opts>> as Model>::FNS]);
    use fvl::zoo::*;
    // nesting: of arrays, inline tables, dotted keys, headers
    let mut k = 0;
    for ty in &types {
        for depth in [10usize, 40, 79, 80, 81, 200, 5000, 60_000] {
            for shape in 0..8 {
                k += 1;
                if !c.mine(k) || cfg!(miri) && (depth > 100 || !c.time_left()) || depth > 1000 && k % 5 != 0 {
                    continue;
                }
                let doc = match shape {
                    0 => format!("a = {}{}", "[".repeat(depth), "]".repeat(depth)),
                    1 => format!("a = {}1{}", "{a=".repeat(depth), "}".repeat(depth)),
                    2 => format!("a{} = 1", ".a".repeat(depth)),
                    3 => format!("[a{}]\nb = 1", ".a".repeat(depth)),
                    4 => format!("[[a{}]]\nb = 1", ".a".repeat(depth)),
                    5 => format!("kids = {}v=1{}\nv = 1", "[{v=1,kids=[".repeat(depth.min(5000)).replace("kids=[[", "kids=[{"), "]}".repeat(depth.min(5000))),
                    6 => (0..depth.min(60)).map(|i| format!("[[kids{}]]\nv = {i}\n", ".kids".repeat(i))).collect::<String>(),
                    _ => format!("v = 1\nkids = {}", "[{v=1,kids=".repeat(depth.min(5000))),
                };
                by_text(c, *ty, &doc, "nest");
            }
        }
    }
    cov!("deep nesting swept");
    c.start = std::time::Instant::now();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = *r.pick(&types);
        if r.chance(1, 12) {
            odd(c, &mut r);
            continue;
        }
        let d = r.range(0, 3);
        let (t, doc) = arb_doc(ty, &mut r, d);
        if r.chance(1, 4) {
            if r.chance(1, 6) && doc.len() < 250 {
                for (k, _) in doc.char_indices() {
                    by_text(c, ty, &doc[..k], "cut");
                }
                cov!("documents truncated everywhere");
            } else {
                let mut doc = doc;
                for _ in 0..*r.pick(&[1, 1, 2, 4]) {
                    corrupt(&mut doc, &mut r);
                }
                by_text(c, ty, &doc, "damaged");
            }
            continue;
        }
        c.case(&format!("toml/{}", (ty.tn)()), &doc, || {
            // the parser and the generator must agree on the document before the reader is judged
            match parse(&doc) {
                Ok(p) if same(&p, &t) => {}
                Err(_) if !ints_fit(&t) => {}
                o => {
                    cov!("documents the parser reads otherwise");
                    if std::env::var_os("FV_SELF").is_some() {
                        bail!("self", "{o:?} for {t:?}");
                    }
                    return Ok(());
                }
            }
            let want = if ints_fit(&t) { decode(ty, &t) } else { No("an integer of more than 64 bits".into()) };
            cov!("documents generated");
            judge((ty.de_toml)(doc.as_bytes()), &want)
        });
    }
}
mod addr {
    use facet::Facet;
    use std::borrow::Cow;
    use std::net::*;
    #[derive(Facet, Debug, PartialEq, Clone)]
    pub struct Net {
        pub ip: IpAddr,
        pub v4: Ipv4Addr,
        pub v6: Ipv6Addr,
        pub sock: SocketAddr,
        pub name: Cow<'static, str>,
        pub list: Vec<IpAddr>,
        pub opt: Option<Ipv6Addr>,
    }
    #[derive(Facet, Debug, PartialEq, Clone)]
    pub struct Cows {
        pub m: std::collections::HashMap<String, Cow<'static, str>>,
        pub c: Vec<Cow<'static, str>>,
    }
}
/// types that are read from text
fn odd(c: &mut Ctx, r: &mut Rng) {
    use std::net::*;
    let rr = r.clone();
    let gen_doc = |r: &mut Rng| -> (Option<addr::Net>, String) {
        fn txt(r: &mut Rng, k: usize) -> String {
            let v4 = Ipv4Addr::from(r.next() as u32);
            let v6 = match r.below(4) {
                0 => v4.to_ipv6_mapped(),
                1 => Ipv6Addr::LOCALHOST,
                2 => Ipv6Addr::from((r.next() as u128) << 70),
                _ => Ipv6Addr::from((r.next() as u128) << 64 | r.next() as u128),
            };
            let port = *r.pick(&[0u16, 1, 80, 65535]);
            match r.below(14) {
                0 => arb_string(r),
                1 => r.pick(&["", "256.1.1.1", "1.2.3", "1.2.3.4 ", " ::1", "::g", "1.2.3.4:65536", "[::1]", "[::1]:", "localhost:80", "01.2.3.4", "1.2.3.4:-1", "::1:80", "1.2.3.4/8"]).to_string(),
                _ => match k {
                    0 => if r.chance(1, 2) { v4.to_string() } else { v6.to_string() },
                    1 => v4.to_string(),
                    2 => v6.to_string(),
                    _ => if r.chance(1, 2) { format!("{v4}:{port}") } else { format!("[{v6}]:{port}") },
                },
            }
        }
        let (a, b, d, e, n, l, o) = (txt(r, 0), txt(r, 1), txt(r, 2), txt(r, 3), arb_string(r), (0..r.below(3)).map(|_| txt(r, 0)).collect::<Vec<_>>(), r.chance(1, 2).then(|| txt(r, 2)));
        let want = (|| {
            Some(addr::Net {
                ip: a.parse().ok()?,
                v4: b.parse().ok()?,
                v6: d.parse().ok()?,
                sock: e.parse().ok()?,
                name: n.clone().into(),
                list: l.iter().map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?,
                opt: match &o {
                    Some(x) => Some(x.parse().ok()?),
                    None => None,
                },
            })
        })();
        let s = |x: &String| TV::Str(x.clone());
        let mut e = vec![("ip".to_string(), s(&a)), ("v4".into(), s(&b)), ("v6".into(), s(&d)), ("sock".into(), s(&e)), ("name".into(), s(&n)), ("list".into(), TV::Arr(l.iter().map(s).collect()))];
        if let Some(o) = &o {
            e.push(("opt".into(), s(o)))
        }
        r.shuffle(&mut e);
        let mut t = TV::Tab(e);
        let doc = render(&mut t, r);
        (want, doc)
    };
    let (_, doc) = gen_doc(&mut rr.clone());
    c.case("toml-addresses", &doc, || {
        let (want, doc) = gen_doc(&mut rr.clone());
        if parse(&doc).is_err() {
            return Ok(());
        }
        match (no_panic(|| facet_toml::from_str::<addr::Net>(&doc)), want) {
            (Err(p), _) => bail!("panic", "{p}"),
            (Ok(Ok(v)), Some(w)) => {
                ensure!(v == w, "value", "read as {v:?}, denotes {w:?}");
                cov!("addresses read");
            }
            (Ok(Ok(v)), None) => bail!("accepted", "read as {v:?}, must be refused"),
            (Ok(Err(e)), Some(_)) => bail!("refused", "{e}"),
            (Ok(Err(_)), None) => cov!("addresses refused as they should be"),
        }
        Ok(())
    });
    // borrowed or owned text
    let ss: Vec<String> = (0..r.below(4)).map(|_| arb_string(r)).collect();
    let mut ks: Vec<String> = (0..r.below(4)).map(|_| arb_string(r)).collect();
    ks.sort();
    ks.dedup();
    let mut t = TV::Tab(vec![
        ("m".into(), TV::Tab(ks.iter().map(|k| (k.clone(), TV::Str(k.clone()))).collect())),
        ("c".into(), TV::Arr(ss.iter().map(|x| TV::Str(x.clone())).collect())),
    ]);
    let doc = render(&mut t, r);
    c.case("toml-cow", &doc, || {
        if parse(&doc).is_err() {
            return Ok(());
        }
        match no_panic(|| facet_toml::from_str::<addr::Cows>(&doc)) {
            Err(p) => bail!("panic", "{p}"),
            Ok(Err(e)) => bail!("refused", "{e}"),
            Ok(Ok(v)) => {
                ensure!(v.c == ss, "value", "read as {v:?}");
                ensure!(v.m.len() == ks.len() && ks.iter().all(|k| v.m.get(k).is_some_and(|x| x == k)), "value", "read as {v:?}");
            }
        }
        cov!("borrowed texts read");
        Ok(())
    });
}
