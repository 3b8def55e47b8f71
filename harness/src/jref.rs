//! An independent JSON reader, writer and decoder: the reference side of the JSON oracles.
use crate::ctx::Rng;
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn depth(j: &J) -> usize {
    match j {
        J::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        J::Obj(v) => 1 + v.iter().map(|(_, x)| depth(x)).max().unwrap_or(0),
        _ => 0,
    }
}

// ------------------------------------------------------------------ strict RFC 8259 parser
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
pub fn parse(b: &[u8]) -> Result<J, String> {
    let mut p = P { b, i: 0 };
    let j = p.value(0)?;
    p.ws();
    if p.i != b.len() {
        return Err(format!("trailing input at {}", p.i));
    }
    Ok(j)
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn value(&mut self, d: usize) -> Result<J, String> {
        if d > 3_000 {
            return Err("reference: too deep".into());
        }
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.lit(b":")?;
                    v.push((k, self.value(d + 1)?));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("expected , or }} at {}", self.i)),
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value(d + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("expected , or ] at {}", self.i)),
                    }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' => self.lit(b"true").map(|_| J::Bool(true)),
            b'f' => self.lit(b"false").map(|_| J::Bool(false)),
            b'n' => self.lit(b"null").map(|_| J::Null),
            _ => self.number(),
        }
    }
    fn lit(&mut self, l: &[u8]) -> Result<(), String> {
        if self.b[self.i..].starts_with(l) {
            self.i += l.len();
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", String::from_utf8_lossy(l), self.i))
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i == s { Err(format!("digit expected at {s}")) } else { Ok(()) }
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1
        } else {
            self.digits()?
        }
        if self.peek() == b'.' {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.b.get(self.i..self.i + 4).ok_or("short \\u")?;
        if !h.iter().all(|c| c.is_ascii_hexdigit()) {
            return Err("bad \\u".into());
        }
        self.i += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        self.lit(b"\"")?;
        let mut out = vec![];
        loop {
            let Some(&c) = self.b.get(self.i) else { return Err("unterminated string".into()) };
            self.i += 1;
            match c {
                b'"' => break,
                0..0x20 => return Err(format!("raw control character at {}", self.i - 1)),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let c = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\x08',
                        b'f' => '\x0c',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                self.lit(b"\\u")?;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return Err("bad surrogate pair".into());
                                }
                                u = 0x10000 + ((u & 0x3ff) << 10) + (l & 0x3ff);
                            }
                            char::from_u32(u).ok_or("lone surrogate")?
                        }
                        _ => return Err(format!("bad escape at {}", self.i)),
                    };
                    out.extend_from_slice(c.to_string().as_bytes());
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).map_err(|_| "invalid UTF-8".to_string())
    }
}

// ------------------------------------------------------------------ numbers
/// The integer a JSON number denotes: Ok(None) = not an integer, Err = too large to represent here
pub fn num_int(s: &str) -> Result<Option<(bool, u128)>, ()> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (m, e) = match s.find(['e', 'E']) {
        Some(k) => (&s[..k], &s[k + 1..]),
        None => (s, "0"),
    };
    let (ip, fp) = match m.find('.') {
        Some(k) => (&m[..k], &m[k + 1..]),
        None => (m, ""),
    };
    let mut d: Vec<u8> = ip.bytes().chain(fp.bytes()).map(|c| c - b'0').collect();
    if d.iter().all(|x| *x == 0) {
        return Ok(Some((neg, 0)));
    }
    let (eneg, edigits) = match e.as_bytes()[0] {
        b'-' => (true, &e[1..]),
        b'+' => (false, &e[1..]),
        _ => (false, e),
    };
    let ed = edigits.trim_start_matches('0');
    if ed.len() > 6 {
        return if eneg { Ok(None) } else { Err(()) };
    }
    let mut exp: i64 = if ed.is_empty() { 0 } else { ed.parse::<i64>().unwrap() };
    if eneg {
        exp = -exp
    }
    exp -= fp.len() as i64;
    // value = d * 10^exp
    while exp < 0 {
        if *d.last().unwrap() != 0 {
            return Ok(None);
        }
        d.pop();
        exp += 1;
    }
    let mut v: u128 = 0;
    for x in d {
        v = v.checked_mul(10).and_then(|v| v.checked_add(x as u128)).ok_or(())?;
    }
    while exp > 0 && v != 0 {
        v = v.checked_mul(10).ok_or(())?;
        exp -= 1;
    }
    Ok(Some((neg, v)))
}
pub fn int_fits(neg: bool, v: u128, bits: u32, signed: bool, nonzero: bool) -> Option<MV> {
    if nonzero && v == 0 {
        return None;
    }
    let max: u128 = match (signed, neg) {
        (true, true) => 1u128 << (bits - 1),
        (true, false) => (1u128 << (bits - 1)) - 1,
        (false, true) => 0,
        (false, false) => if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 },
    };
    if v > max {
        return None;
    }
    Some(if neg {
        MV::Int((v as i128).wrapping_neg())
    } else if v > i128::MAX as u128 {
        MV::Big(v)
    } else {
        MV::Int(v as i128)
    })
}

// ------------------------------------------------------------------ decoding a tree as a type
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    Ok(MV),
    Err(String),
    /// this value or an error
    Maybe(MV),
    /// the property says nothing about this document
    Any,
}
pub fn decode(ty: T, j: &J) -> Dec {
    macro_rules! err { ($($a:tt)*) => { return Dec::Err(format!($($a)*)) } }
    match kind(ty) {
        Kind::Option(t) => match j {
            J::Null => Dec::Ok(MV::None),
            x => match decode(t, x) {
                Dec::Ok(m) => Dec::Ok(MV::Some(Box::new(m))),
                o => o,
            },
        },
        Kind::Scalar(k) => match (k, j) {
            (SK::Bool, J::Bool(b)) => Dec::Ok(MV::Bool(*b)),
            (SK::Str, J::Str(s)) => Dec::Ok(MV::Str(s.clone())),
            (SK::Char, J::Str(s)) => {
                let mut it = s.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => Dec::Ok(MV::Char(c)),
                    _ => err!("not one character"),
                }
            }
            (SK::Tok, J::Str(s)) => match s.parse::<u64>() {
                Ok(v) => Dec::Ok(MV::Tok(v)),
                Err(_) => err!("not a token"),
            },
            (SK::Int { bits, signed, nonzero, .. }, J::Num(s)) => match num_int(s) {
                Ok(Some((neg, v))) => match int_fits(neg, v, bits, signed, nonzero) {
                    Some(m) => Dec::Ok(m),
                    None => err!("out of range"),
                },
                _ => err!("not an integer in range"),
            },
            (SK::F64, J::Num(s)) => match s.parse::<f64>() {
                Ok(f) if f.is_finite() => Dec::Ok(MV::F64(f.to_bits())),
                _ => err!("out of range"),
            },
            (SK::F32, J::Num(s)) => match s.parse::<f32>() {
                Ok(f) if f.is_finite() => Dec::Ok(MV::F32(f.to_bits())),
                _ => err!("out of range"),
            },
            // text is parsed into any type that can be parsed
            (_, J::Str(_)) | (SK::Unit, _) => Dec::Any,
            _ => err!("wrong type for {}", ty.name),
        },
        Kind::List(t) => match j {
            J::Arr(v) => {
                let mut out = vec![];
                let mut any = false;
                for x in v {
                    match decode(t, x) {
                        Dec::Ok(m) => out.push(m),
                        Dec::Any => any = true,
                        e => return e,
                    }
                }
                if any { Dec::Any } else { Dec::Ok(MV::List(out)) }
            }
            _ => err!("not a list"),
        },
        Kind::Struct(d) => match j {
            J::Obj(v) => {
                let mut out: Vec<Option<MV>> = d.fields.iter().map(|_| None).collect();
                let mut any = false;
                for (k, x) in v {
                    match d.fields.iter().position(|f| f.wire == k) {
                        Some(i) => {
                            if out[i].is_some() {
                                return Dec::Any; // a repeated key
                            }
                            match decode((d.fields[i].ty)(), x) {
                                Dec::Ok(m) => out[i] = Some(m),
                                Dec::Any => {
                                    any = true;
                                    out[i] = Some(MV::Unit);
                                }
                                e => {
                                    // which of the two errors wins does not matter, but a
                                    // repeated key later on could
                                    if v.iter().filter(|(a, _)| a == k).count() > 1 {
                                        return Dec::Any;
                                    }
                                    return e;
                                }
                            }
                        }
                        None if d.deny => err!("unknown field {k}"),
                        None => {}
                    }
                }
                let whole = d.default.map(|f| match f() {
                    MV::Struct(v) => v,
                    _ => unreachable!(),
                });
                let mut fin = vec![];
                for (i, (o, f)) in out.into_iter().zip(d.fields).enumerate() {
                    fin.push(match (o, f.default, &whole) {
                        (Some(m), ..) => m,
                        (None, Some(g), _) => g(),
                        (None, None, Some(w)) => w[i].clone(),
                        _ => err!("missing field {}", f.name),
                    });
                }
                if any {
                    return Dec::Any;
                }
                let m = MV::Struct(fin);
                if let Some(inv) = d.invariant {
                    if !inv(&m) {
                        err!("invariant");
                    }
                }
                Dec::Ok(m)
            }
            _ => err!("not a struct"),
        },
        // the JSON reader knows neither maps nor enums: it may only refuse them
        Kind::Map(..) | Kind::Enum(_) => Dec::Any,
    }
}
/// may the writer refuse this value?
pub fn writable(ty: T, m: &MV) -> bool {
    match (kind(ty), m) {
        (Kind::Scalar(k), _) => !matches!(k, SK::Unit | SK::Tok | SK::Char | SK::Int { bits: 128, .. }),
        (Kind::Option(t), MV::Some(x)) => writable(t, x),
        (Kind::List(t), MV::List(v)) => v.iter().all(|x| writable(t, x)),
        (Kind::Struct(d), MV::Struct(v)) => v.iter().zip(d.fields).all(|(x, f)| writable((f.ty)(), x)),
        (Kind::Enum(d), MV::Enum(i, v)) => v.iter().zip(d.variants[*i].fields).all(|(x, f)| writable((f.ty)(), x)),
        (Kind::Map(k, t), MV::Map(v)) => v.is_empty() || matches!(kind(k), Kind::Scalar(_)) && v.iter().all(|(_, x)| writable(t, x)),
        _ => true,
    }
}
pub fn key_text(m: &MV) -> Option<String> {
    Some(match m {
        MV::Str(s) => s.clone(),
        MV::Int(i) => i.to_string(),
        MV::Big(i) => i.to_string(),
        MV::Bool(b) => b.to_string(),
        MV::Char(c) => c.to_string(),
        MV::Tok(t) => format!("tok {t}"),
        _ => return None,
    })
}
/// does the tree denote the value? (the writer's side)
pub fn denotes(ty: T, m: &MV, j: &J) -> Result<(), String> {
    macro_rules! no { ($($a:tt)*) => { return Err(format!($($a)*)) } }
    match (kind(ty), m, j) {
        (Kind::Option(_), MV::None, J::Null) => {}
        (Kind::Option(t), MV::Some(x), j) => denotes(t, x, j)?,
        (Kind::Scalar(_), MV::Bool(a), J::Bool(b)) if a == b => {}
        (Kind::Scalar(_), MV::Str(a), J::Str(b)) if a == b => {}
        (Kind::Scalar(_), MV::Int(a), J::Num(b)) if *b == a.to_string() => {}
        (Kind::Scalar(_), MV::F64(a), J::Num(b)) if b.parse::<f64>().unwrap().to_bits() == *a => {}
        (Kind::Scalar(_), MV::F32(a), J::Num(b)) if b.parse::<f32>().unwrap().to_bits() == *a => {}
        (Kind::Scalar(_), MV::F64(a), J::Null) if !f64::from_bits(*a).is_finite() => {}
        (Kind::Scalar(_), MV::F32(a), J::Null) if !f32::from_bits(*a).is_finite() => {}
        (Kind::List(t), MV::List(v), J::Arr(w)) => {
            if v.len() != w.len() {
                no!("{} elements written as {}", v.len(), w.len());
            }
            for (a, b) in v.iter().zip(w) {
                denotes(t, a, b)?;
            }
        }
        (Kind::Map(_, t), MV::Map(v), J::Obj(w)) => {
            if v.len() != w.len() {
                no!("map of {} entries written as {}", v.len(), w.len());
            }
            for (k, x) in v {
                let Some(kt) = key_text(k) else { no!("key {k:?}") };
                match w.iter().filter(|(a, _)| *a == kt).collect::<Vec<_>>()[..] {
                    [(_, y)] => denotes(t, x, y)?,
                    ref o => no!("key {kt:?} written {} times", o.len()),
                }
            }
        }
        (Kind::Struct(d), MV::Struct(v), J::Obj(w)) => fields(d.fields, v, w)?,
        (Kind::Enum(d), MV::Enum(i, v), j) => {
            let vd = &d.variants[*i];
            if v.is_empty() {
                if *j != J::Str(vd.name.to_string()) {
                    no!("variant {} written as {j:?}", vd.name);
                }
                return Ok(());
            }
            let J::Obj(o) = j else { no!("variant {} not written as an object", vd.name) };
            let [(k, p)] = &o[..] else { no!("variant object with {} keys", o.len()) };
            if k != vd.name {
                no!("variant {} written as {k:?}", vd.name);
            }
            match (vd.kind, p) {
                (1, p) if v.len() == 1 => denotes((vd.fields[0].ty)(), &v[0], p)?,
                (1, J::Arr(w)) if w.len() == v.len() => {
                    for ((a, b), f) in v.iter().zip(w).zip(vd.fields) {
                        denotes((f.ty)(), a, b)?;
                    }
                }
                (2, J::Obj(w)) => fields(vd.fields, v, w)?,
                (_, p) => no!("payload of {} written as {p:?}", vd.name),
            }
        }
        (_, m, j) => no!("{} {m:?} written as {j:?}", ty.name),
    }
    Ok(())
}
fn fields(fs: &[FieldD], v: &[MV], w: &[(String, J)]) -> Result<(), String> {
    if w.len() != v.len() {
        return Err(format!("{} fields written as {}", v.len(), w.len()));
    }
    for (x, f) in v.iter().zip(fs) {
        match w.iter().filter(|(k, _)| k == f.wire).collect::<Vec<_>>()[..] {
            [(_, y)] => denotes((f.ty)(), x, y).map_err(|e| format!("{}.{e}", f.wire))?,
            ref o => return Err(format!("field {:?} written {} times", f.wire, o.len())),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ writing documents
/// a document tree for a value
pub fn tree(ty: T, m: &MV, r: &mut Rng) -> J {
    match (kind(ty), m) {
        (_, MV::Unit) => J::Null,
        (_, MV::Bool(b)) => J::Bool(*b),
        (_, MV::Int(i)) => J::Num(num_text(&i.to_string(), r)),
        (_, MV::Big(i)) => J::Num(i.to_string()),
        (_, MV::F64(b)) => {
            let f = f64::from_bits(*b);
            J::Num(if !f.is_finite() { "1".into() } else { num_text(&match r.below(4) { 0 => format!("{f:e}"), 1 => format!("{f:?}"), _ => format!("{f}") }, r) })
        }
        (_, MV::F32(b)) => {
            let f = f32::from_bits(*b);
            J::Num(if !f.is_finite() { "1".into() } else { num_text(&match r.below(4) { 0 => format!("{f:e}"), 1 => format!("{f:?}"), 2 => format!("{}", f as f64), _ => format!("{f}") }, r) })
        }
        (_, MV::Char(c)) => J::Str(c.to_string()),
        (_, MV::Str(s)) => J::Str(s.clone()),
        (_, MV::Tok(t)) => J::Str(t.to_string()),
        (_, MV::None) => J::Null,
        (Kind::Option(t), MV::Some(x)) => tree(t, x, r),
        (Kind::List(t), MV::List(v)) => J::Arr(v.iter().map(|x| tree(t, x, r)).collect()),
        (Kind::Map(_, t), MV::Map(v)) => J::Obj(v.iter().map(|(k, x)| (key_text(k).unwrap_or_default(), tree(t, x, r))).collect()),
        (Kind::Struct(d), MV::Struct(v)) => J::Obj(v.iter().zip(d.fields).map(|(x, f)| (f.wire.to_string(), tree((f.ty)(), x, r))).collect()),
        (Kind::Enum(d), MV::Enum(i, v)) => {
            let vd = &d.variants[*i];
            let sub: Vec<J> = v.iter().zip(vd.fields).map(|(x, f)| tree((f.ty)(), x, r)).collect();
            if sub.is_empty() {
                return J::Str(vd.name.into());
            }
            let p = if vd.kind == 1 { if sub.len() == 1 { sub.into_iter().next().unwrap() } else { J::Arr(sub) } } else { J::Obj(vd.fields.iter().map(|f| f.wire.to_string()).zip(sub).collect()) };
            J::Obj(vec![(vd.name.into(), p)])
        }
        _ => J::Null,
    }
}
/// another spelling of the same number
pub fn num_text(s: &str, r: &mut Rng) -> String {
    let (neg, body) = match s.strip_prefix('-') {
        Some(b) => ("-", b),
        None => ("", s),
    };
    let plain = body.bytes().all(|c| c.is_ascii_digit());
    let e = if r.chance(1, 2) { "e" } else { "E" };
    match r.below(12) {
        0 if plain => format!("{neg}{body}.0"),
        1 if plain => format!("{neg}{body}.{}", "0".repeat(r.range(1, 25))),
        2 if plain => format!("{neg}{body}{e}{}0", r.pick(&["", "+", "-"])),
        3 if plain && body != "0" => {
            // shift the point right, compensate
            let k = r.range(1, 20);
            format!("{neg}{body}{}{e}-{}", "0".repeat(k), k)
        }
        4 if plain && body.len() > 1 => format!("{neg}{}.{}{e}{}", &body[..1], &body[1..], body.len() - 1),
        5 if plain => {
            let z = body.len() - body.trim_end_matches('0').len();
            if z > 0 && body.len() > z { format!("{neg}{}{e}{z}", &body[..body.len() - z]) } else { s.to_string() }
        }
        6 if plain && body != "0" => format!("{neg}0.{body}{e}{}{}", r.pick(&["", "+", "0", "+00"]), body.len()),
        7 if !body.contains(['e', 'E']) && body.contains('.') => format!("{s}{}", "0".repeat(r.range(1, 30))),
        8 if !body.contains(['e', 'E']) => format!("{s}{e}0"),
        _ => s.to_string(),
    }
}
fn ws(r: &mut Rng, style: u8, out: &mut String) {
    match style {
        0 => {}
        1 => {
            if r.chance(1, 3) {
                out.push(' ')
            }
        }
        _ => {
            for _ in 0..r.below(4) {
                out.push(*r.pick(&[' ', '\t', '\n', '\r']));
            }
        }
    }
}
pub fn str_text(s: &str, r: &mut Rng, out: &mut String) {
    let style = r.below(4);
    out.push('"');
    for c in s.chars() {
        let esc = style == 3 || style == 2 && r.chance(1, 4);
        match c {
            '"' | '\\' | '\n' | '\r' | '\t' | '\x08' | '\x0c' if !(esc && r.chance(1, 2)) => {
                out.push('\\');
                out.push(match c {
                    '\n' => 'n',
                    '\r' => 'r',
                    '\t' => 't',
                    '\x08' => 'b',
                    '\x0c' => 'f',
                    c => c,
                });
            }
            '/' if esc => out.push_str("\\/"),
            c if esc || (c as u32) < 0x20 => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    if r.chance(1, 2) {
                        out.push_str(&format!("\\u{u:04x}"))
                    } else {
                        out.push_str(&format!("\\u{u:04X}"))
                    }
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
pub fn render(j: &J, r: &mut Rng, style: u8, out: &mut String) {
    ws(r, style, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(s) => out.push_str(s),
        J::Str(s) => str_text(s, r, out),
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                render(x, r, style, out);
            }
            ws(r, style, out);
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                ws(r, style, out);
                str_text(k, r, out);
                ws(r, style, out);
                out.push(':');
                render(x, r, style, out);
            }
            ws(r, style, out);
            out.push('}');
        }
    }
    ws(r, style, out);
}
/// some arbitrary document
pub fn arb_j(r: &mut Rng, d: usize) -> J {
    match r.below(if d == 0 { 5 } else { 8 }) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 | 3 => J::Num(arb_num(r)),
        4 => J::Str(arb_string(r)),
        5 => J::Arr((0..r.below(4)).map(|_| arb_j(r, d - 1)).collect()),
        _ => J::Obj((0..r.below(4)).map(|_| (arb_key(r), arb_j(r, d - 1))).collect()),
    }
}
pub fn arb_key(r: &mut Rng) -> String {
    match r.below(3) {
        0 => r.pick(&["a", "b", "id", "inner", "x", "0", "1", "name", "unknown", "lo", "__proto__", ""]).to_string(),
        _ => arb_string(r),
    }
}
pub fn arb_num(r: &mut Rng) -> String {
    let bits = *r.pick(&[8, 16, 32, 64, 128]);
    let base = match r.below(6) {
        0 => arb_f64(r).to_string(),
        1 => format!("{:e}", arb_f64(r)),
        2 => r.pick(&["0", "-0", "1e400", "-1e400", "1e-400", "256", "-129", "65536", "4294967296", "18446744073709551616", "18446744073709551615", "9223372036854775808", "-9223372036854775809", "9007199254740993", "0.5", "1.5", "-0.0", "340282366920938463463374607431768211456", "-1", "3.4028236e38", "1e39", "1e99999999999999999999", "0e99999999999999999999", "1E-99999999999999999999", "0.1e1", "100e-2", "100e-3"]).to_string(),
        _ => arb_int(r, bits, true).to_string(),
    };
    num_text(&base, r)
}
/// change something somewhere in the tree
pub fn mutate(j: &mut J, r: &mut Rng, names: &[String]) {
    // walk to a random node
    let mut cur = j;
    loop {
        let n = match cur {
            J::Arr(v) => v.len(),
            J::Obj(v) => v.len(),
            _ => 0,
        };
        if n == 0 || r.chance(1, 3) {
            break;
        }
        let i = r.below(n);
        cur = match cur {
            J::Arr(v) => &mut v[i],
            J::Obj(v) => &mut v[i].1,
            _ => unreachable!(),
        };
    }
    match cur {
        J::Obj(v) if r.chance(5, 6) => {
            let n = v.len();
            match r.below(8) {
                0 | 1 if n > 0 => {
                    v.remove(r.below(n));
                }
                2 | 3 => {
                    let k = if r.chance(1, 3) && !names.is_empty() { r.pick(names).clone() } else { arb_key(r) };
                    let at = r.below(n + 1);
                    v.insert(at, (k, arb_j(r, 3)));
                }
                4 if n > 0 => {
                    let i = r.below(n);
                    v[i].0 = if r.chance(1, 2) && !names.is_empty() { r.pick(names).clone() } else { arb_key(r) };
                }
                5 if n > 0 => {
                    let i = r.below(n);
                    v[i].1 = J::Null;
                }
                _ => r.shuffle(v),
            }
        }
        J::Arr(v) if r.chance(2, 3) => {
            let n = v.len();
            match r.below(3) {
                0 if n > 0 => {
                    v.remove(r.below(n));
                }
                1 if n > 0 => {
                    let x = v[r.below(n)].clone();
                    v.push(x);
                }
                _ => {
                    let at = r.below(n + 1);
                    v.insert(at, arb_j(r, 2));
                }
            }
        }
        J::Num(s) if r.chance(2, 3) => *s = arb_num(r),
        c => *c = arb_j(r, 2),
    }
}
/// every field name a type knows, by both its names
pub fn names(ty: T, out: &mut Vec<String>, d: usize) {
    if d == 0 {
        return;
    }
    match kind(ty) {
        Kind::Struct(s) => {
            for f in s.fields {
                out.push(f.name.into());
                out.push(f.wire.into());
                names((f.ty)(), out, d - 1);
            }
        }
        Kind::Option(t) | Kind::List(t) => names(t, out, d - 1),
        _ => {}
    }
}
