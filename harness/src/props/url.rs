//! P15: URL-encoded input. The reference decodes the pairs and the brackets by itself.
use crate::toml::{Dec, all, judge, types, weaken};
use fvl::ctx::*;
use fvl::model::*;
use fvl::{bail, cov};
use Dec::{Any, Err as No, Maybe, Ok as Yes};
use std::collections::BTreeMap;

/// application/x-www-form-urlencoded, as the URL standard has it
pub fn pairs(s: &[u8]) -> Vec<(String, String)> {
    fn dec(s: &[u8]) -> String {
        let mut o = vec![];
        let mut i = 0;
        while i < s.len() {
            let hex = |k: usize| s.get(k).and_then(|c| (*c as char).to_digit(16));
            match s[i] {
                b'+' => o.push(b' '),
                b'%' if hex(i + 1).is_some() && hex(i + 2).is_some() => {
                    o.push((hex(i + 1).unwrap() * 16 + hex(i + 2).unwrap()) as u8);
                    i += 2;
                }
                c => o.push(c),
            }
            i += 1;
        }
        String::from_utf8_lossy(&o).into_owned()
    }
    s.split(|c| *c == b'&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.iter().position(|c| *c == b'=') {
            Some(k) => (dec(&p[..k]), dec(&p[k + 1..])),
            None => (dec(p), String::new()),
        })
        .collect()
}
/// `a[b][c]`: a path; anything else with a bracket in it names no field
fn path(k: &str) -> Option<Vec<&str>> {
    let Some(i) = k.find(['[', ']']) else { return Some(vec![k]) };
    let mut out = vec![&k[..i]];
    let mut rest = &k[i..];
    while !rest.is_empty() {
        rest = rest.strip_prefix('[')?;
        let j = rest.find(['[', ']'])?;
        if !rest[j..].starts_with(']') {
            return None;
        }
        out.push(&rest[..j]);
        rest = &rest[j + 1..];
    }
    Some(out)
}
#[derive(Default, Debug)]
pub struct Node {
    vals: Vec<String>,
    subs: BTreeMap<String, Node>,
}
pub fn build(ps: &[(String, String)]) -> Node {
    let mut root = Node::default();
    for (k, v) in ps {
        let Some(p) = path(k) else { continue };
        let mut n = &mut root;
        for s in p {
            n = n.subs.entry(s.to_string()).or_default();
        }
        n.vals.push(v.clone());
    }
    root
}
/// which of several values given for one key counts is left open
fn scalar(ty: T, v: &str) -> Dec {
    match kind(ty) {
        Kind::Scalar(SK::Str) => Yes(MV::Str(v.to_string())),
        Kind::Scalar(SK::Int { bits, signed, nonzero, ptr }) => {
            let digits = !v.is_empty() && v.bytes().all(|c| c.is_ascii_digit());
            let known = bits == 64 && !signed && !nonzero && !ptr;
            let n = v.strip_prefix(['+', '-']).unwrap_or(v);
            if n.is_empty() || !n.bytes().all(|c| c.is_ascii_digit()) {
                return No(format!("{v:?} is not a number"));
            }
            match n.trim_start_matches('0') {
                t if t.len() > 39 => No("out of range".into()),
                t => match fvl::jref::int_fits(v.starts_with('-') && !t.is_empty(), if t.is_empty() { 0 } else { t.parse::<u128>().unwrap_or(u128::MAX) }, bits, signed, nonzero) {
                    Some(m) if known && digits => Yes(m),
                    Some(m) => Maybe(m),
                    None => No("out of range".into()),
                },
            }
        }
        _ => Any,
    }
}
pub fn decode(ty: T, n: &Node) -> Dec {
    match kind(ty) {
        Kind::Struct(d) => {
            if !n.vals.is_empty() {
                return No("a plain value for a struct".into());
            }
            all(
                d.fields
                    .iter()
                    .map(|f| {
                        let fty = (f.ty)();
                        match (n.subs.get(f.name), kind(fty)) {
                            // a struct of nothing needs nothing
                            (None, Kind::Struct(s)) if s.fields.is_empty() => Any,
                            (None, Kind::Option(_)) => Any,
                            (None, _) => No(format!("field {} missing", f.name)),
                            (Some(s), Kind::Struct(_)) => decode(fty, s),
                            (Some(s), Kind::Scalar(_)) => {
                                if s.vals.is_empty() {
                                    return No(format!("brackets after the scalar {}", f.name));
                                }
                                let ds: Vec<Dec> = s.vals.iter().map(|v| scalar(fty, v)).collect();
                                let same = ds.windows(2).all(|w| w[0] == w[1]);
                                let x = if same { ds[0].clone() } else if ds.iter().all(|d| matches!(d, No(_))) { ds[0].clone() } else { Any };
                                if s.subs.is_empty() { x } else { weaken(x) }
                            }
                            _ => Any,
                        }
                    })
                    .collect(),
                MV::Struct,
            )
        }
        _ => No("not a struct".into()),
    }
}
// ------------------------------------------------------------------ writing
fn enc(s: &str, r: &mut Rng, o: &mut String, brackets: bool) {
    let style = r.below(4);
    for b in s.bytes() {
        match b {
            b' ' if style < 2 => o.push('+'),
            b'[' | b']' if brackets && style != 3 && r.chance(3, 4) => o.push(b as char),
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'*' if style != 3 || r.chance(1, 2) => o.push(b as char),
            b'/' | b'?' | b':' | b'@' | b'!' | b'$' | b'(' | b')' | b',' | b';' | b'\'' if style == 1 => o.push(b as char),
            b => o.push_str(&if r.chance(1, 2) { format!("%{b:02x}") } else { format!("%{b:02X}") }),
        }
    }
}
fn flat(ty: T, m: &MV, at: &str, r: &mut Rng, out: &mut Vec<(String, String)>) {
    match (kind(ty), m) {
        (Kind::Struct(d), MV::Struct(v)) => {
            for (x, f) in v.iter().zip(d.fields) {
                let k = if at.is_empty() { f.name.to_string() } else { format!("{at}[{}]", f.name) };
                flat((f.ty)(), x, &k, r, out);
            }
        }
        (_, MV::Str(s)) => out.push((at.to_string(), s.clone())),
        (_, MV::Int(i)) => out.push((at.to_string(), match r.below(12) {
            0 => format!("{}{i}", "0".repeat(r.range(1, 40))),
            1 => format!("+{i}"),
            _ => i.to_string(),
        })),
        (_, m) => out.push((at.to_string(), format!("{m:?}"))),
    }
}
fn odd_key(r: &mut Rng, keys: &[String]) -> String {
    let base = if keys.is_empty() { "a".to_string() } else { r.pick(keys).clone() };
    let mut c: Vec<char> = base.chars().collect();
    match r.below(10) {
        0 => arb_string(r),
        1 => format!("{base}[x]"),
        2 => format!("{base}[]"),
        3 => base.replacen('[', "", 1),
        4 => base.replacen(']', "", 1),
        5 => format!("{base}x"),
        6 => format!("x[{base}]"),
        7 => base.replace("][", "]x["),
        8 => {
            let at = r.below(c.len() + 1);
            c.insert(at, *r.pick(&['[', ']', ' ', '.', '\0', 'é']));
            c.into_iter().collect()
        }
        _ => {
            // letters after a closing bracket
            match base.find(']') {
                Some(i) => format!("{}{}", &base[..i + 1], &base[i + 1..].replace(['[', ']'], "")) + r.pick(&["me", "x", "]", "[", ""]),
                None => format!("{base}["),
            }
        }
    }
}
pub fn arb_doc(ty: T, r: &mut Rng, d: usize) -> String {
    let m = arb_mv(ty, r, d);
    let mut ps = vec![];
    flat(ty, &m, "", r, &mut ps);
    let keys: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            match r.below(6) {
                0 if !ps.is_empty() => {
                    ps.remove(r.below(ps.len()));
                }
                1 if !ps.is_empty() => {
                    let i = r.below(ps.len());
                    ps[i].1 = if r.chance(1, 2) { r.pick(&["", "-1", "1.5", "1e3", " 1", "1 ", "0x10", "18446744073709551616", "18446744073709551615", "99999999999999999999999999", "١", "one", "-0", "+", "+-1", "1_000"]).to_string() } else { arb_string(r) };
                }
                2 if !ps.is_empty() => {
                    let p = (ps[r.below(ps.len())].0.clone(), arb_string(r));
                    ps.push(p);
                }
                3 if !ps.is_empty() => {
                    let i = r.below(ps.len());
                    ps[i].0 = odd_key(r, &keys);
                }
                _ => {
                    let p = (odd_key(r, &keys), arb_string(r));
                    ps.push(p);
                }
            }
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut ps);
    }
    let mut o = String::new();
    for (k, v) in &ps {
        if r.chance(1, 30) {
            o.push('&')
        }
        enc(k, r, &mut o, true);
        if !(v.is_empty() && r.chance(1, 3)) {
            o.push('=');
            enc(v, r, &mut o, false);
        }
        o.push('&');
    }
    if r.chance(4, 5) {
        o.pop();
    }
    o
}
fn corrupt(doc: &mut Vec<u8>, r: &mut Rng) {
    let n = doc.len();
    match r.below(4) {
        0 => doc.truncate(r.below(n + 1)),
        1 if n > 0 => {
            doc.remove(r.below(n));
        }
        2 if n > 0 => {
            let i = r.below(n);
            doc[i] = *r.pick(b"&=[]%+ a0#;?");
        }
        _ => {
            let at = r.below(n + 1);
            let t: &[u8] = *r.pick(&[&b"%"[..], b"%f", b"%ff", b"%00", b"%5B", b"%5D", b"[", b"]", b"&", b"=", b"[]", b"%C3%A9", b"%e2%98", b"%zz"]);
            doc.splice(at..at, t.iter().copied());
        }
    }
}
fn one(c: &mut Ctx, ty: T, doc: &str, what: &str) {
    c.case(&format!("{what}/{}", (ty.tn)()), doc, || {
        let want = decode(ty, &build(&pairs(doc.as_bytes())));
        let first = (ty.de_url)(doc.as_bytes());
        // the same text again: the outcome may depend on nothing else
        let again = (ty.de_url)(doc.as_bytes());
        if first != again {
            bail!("unsteady", "{first:?} and then {again:?}");
        }
        judge(first, &want)
    });
}
pub fn p15(c: &mut Ctx) {
    c.check_leaks = false; // P22
    use fvl::zoo::*;
    let types = types('u');
    let others: Vec<T> = vec![Nums::FNS, INums::FNS, Opts::FNS, Lists::FNS, Maps::FNS, HasEnums::FNS, UnitE::FNS, u64::FNS, String::FNS, <Vec<u64> as Model>::FNS, <Option<Flat> as Model>::FNS, Mixed::FNS, HasTup::FNS, Chars::FNS];
    let mut k = 0;
    for ty in types.iter().chain(&others) {
        for depth in [3usize, 30, 127, 128, 129, 1000, 30_000, 200_000] {
            for shape in 0..6 {
                k += 1;
                if !c.mine(k) || cfg!(miri) && (depth > 127 || !c.time_left()) {
                    continue;
                }
                let doc = match shape {
                    0 => format!("a{}=1", "[a]".repeat(depth)),
                    1 => format!("inner{}=1&id=1", "[inner]".repeat(depth)),
                    2 => format!("a{}=1", "[".repeat(depth)),
                    3 => format!("a{}{}=1", "[".repeat(depth), "]".repeat(depth)),
                    4 => format!("a=1&b=x&zz{}=1", "[z]".repeat(depth)),
                    _ => format!("{}=1", "[]".repeat(depth)),
                };
                if depth < 20_000 {
                    one(c, *ty, &doc, "url-nest");
                } else {
                    // (the reference is recursive where it drops its tree)
                    c.case(&format!("url-deep/{}", (ty.tn)()), &format!("shape {shape} depth {depth}"), || judge((ty.de_url)(doc.as_bytes()), &Any));
                }
            }
        }
    }
    cov!("deep nesting swept");
    c.start = std::time::Instant::now();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = if r.chance(1, 8) { *r.pick(&others) } else { *r.pick(&types) };
        let d = r.range(0, 3);
        let doc = arb_doc(ty, &mut r, d);
        if r.chance(1, 4) {
            let mut b = doc.into_bytes();
            for _ in 0..*r.pick(&[1, 1, 2, 4]) {
                corrupt(&mut b, &mut r);
            }
            let doc = String::from_utf8_lossy(&b).into_owned();
            one(c, ty, &doc, "url-damaged");
        } else {
            one(c, ty, &doc, "url");
        }
    }
}
