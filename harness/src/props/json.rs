//! P08, P09, P10, P21, and the JSON part of P22.
use fvl::ctx::*;
use fvl::jref::{self, Dec, J};
use fvl::model::*;
use fvl::zoo::ZOO;
use fvl::{bail, cov, ensure};
use std::collections::{BTreeMap, HashMap};
use std::num::NonZero;

/// top-level types which are not in the zoo
pub fn extra() -> Vec<T> {
    use fvl::zoo::*;
    vec![
        <Vec<Nested> as Model>::FNS,
        <Vec<Option<u32>> as Model>::FNS,
        <Option<Vec<u8>> as Model>::FNS,
        <Option<Flat> as Model>::FNS,
        <Vec<Vec<Vec<i16>>> as Model>::FNS,
        <Vec<Option<Vec<Option<String>>>> as Model>::FNS,
        <Option<u64> as Model>::FNS,
        <Option<bool> as Model>::FNS,
        <Option<String> as Model>::FNS,
        <Vec<Deny> as Model>::FNS,
        <Vec<Defs> as Model>::FNS,
        <Option<WholeDef> as Model>::FNS,
        <Vec<Swapped> as Model>::FNS,
        <Vec<char> as Model>::FNS,
        <Vec<f32> as Model>::FNS,
        <Vec<f64> as Model>::FNS,
        <Vec<NonZero<i8>> as Model>::FNS,
        <Vec<usize> as Model>::FNS,
        bool::FNS,
        String::FNS,
        u8::FNS,
        u16::FNS,
        u32::FNS,
        u64::FNS,
        i8::FNS,
        i16::FNS,
        i32::FNS,
        i64::FNS,
        usize::FNS,
        isize::FNS,
        u128::FNS,
        i128::FNS,
        f32::FNS,
        f64::FNS,
        char::FNS,
        <NonZero<u8> as Model>::FNS,
        <NonZero<u64> as Model>::FNS,
        <NonZero<i64> as Model>::FNS,
        <NonZero<isize> as Model>::FNS,
        <Vec<u128> as Model>::FNS,
        <Vec<i128> as Model>::FNS,
    ]
}
pub fn extra_w() -> Vec<T> {
    use fvl::zoo::*;
    vec![
        <HashMap<String, Vec<Flat>> as Model>::FNS,
        <BTreeMap<i64, Option<DataE>> as Model>::FNS,
        <BTreeMap<u8, String> as Model>::FNS,
        <BTreeMap<bool, u8> as Model>::FNS,
        <BTreeMap<char, u8> as Model>::FNS,
        <Vec<DataE> as Model>::FNS,
        <Vec<BTreeMap<String, Vec<UnitE>>> as Model>::FNS,
        <Option<Renamed> as Model>::FNS,
        <Vec<()> as Model>::FNS,
        <() as Model>::FNS,
        <BTreeMap<UnitKey, u8> as Model>::FNS,
        <Vec<fvl::mon::Tok> as Model>::FNS,
        DataE::FNS,
        UnitE::FNS,
    ]
}
/// types whose documents the reader supports in full
pub fn readable(tag: char) -> Vec<T> {
    let mut v: Vec<T> = ZOO.iter().filter(|(_, t)| t.contains(tag)).map(|(t, _)| *t).collect();
    v.extend(extra());
    v
}
fn has_map_or_enum(t: T, d: usize) -> bool {
    if d == 0 {
        return false;
    }
    match kind(t) {
        Kind::Map(..) | Kind::Enum(_) => true,
        Kind::Option(t) | Kind::List(t) => has_map_or_enum(t, d - 1),
        Kind::Struct(s) => s.fields.iter().any(|f| f.default.is_none() && has_map_or_enum((f.ty)(), d - 1)),
        _ => false,
    }
}
fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if b.len() <= 4000 => s.to_string(),
        _ if b.len() <= 4000 => format!("{} bytes: {}", b.len(), b.escape_ascii()),
        _ => format!("{} bytes: {}...{}", b.len(), b[..100].escape_ascii(), b[b.len() - 100..].escape_ascii()),
    }
}

// ------------------------------------------------------------------ P08
pub fn p08(c: &mut Ctx) {
    let mut types: Vec<T> = ZOO.iter().map(|(t, _)| *t).collect();
    types.extend(extra());
    types.extend(extra_w());
    NONFINITE.with(|n| n.set(true));
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r0 = c.rng(n);
        let ty = *r0.pick(&types);
        let d = r0.range(0, 5);
        let sig = format!("write/{}", (ty.tn)());
        let input = format!("depth {d} seed {} shard {} case {n}", c.seed, c.shard);
        let rr = r0.clone();
        c.case(&sig, &input, || {
            let mut r = rr.clone();
            let o = (ty.json_out)(&mut r, d);
            let res = judge_out(ty, &o);
            if let Err(f) = res {
                bail!(&f.cat, "{} :: value {:?}", f.detail, o.value);
            }
            Ok(())
        });
    }
    NONFINITE.with(|n| n.set(false));
}
fn judge_out(ty: T, o: &JsonOut) -> R {
    let ok = jref::writable(ty, &o.value);
    match &o.writer {
        Err(p) => bail!("panic", "to_writer panicked: {p}"),
        Ok(Err(e)) => {
            cov!("values refused by the writer");
            ensure!(!ok, "refused", "to_writer refused a supported value: {e}");
            ensure!(matches!(o.peek_writer, Ok(Err(_))), "entry-points", "to_writer refused, peek_to_writer did not");
            // these two have no way to report the error but to panic
            ensure!(o.string.is_err() && o.peek_string.is_err(), "entry-points", "to_writer refused, to_string wrote {:?}", o.string);
        }
        Ok(Ok(b)) => {
            cov!("documents written");
            match &o.string {
                Err(p) => bail!("panic", "to_string panicked: {p}"),
                Ok(s) => ensure!(s.as_bytes() == &b[..], "entry-points", "to_string wrote {s:?}, to_writer {:?}", show(b)),
            }
            match &o.peek_string {
                Err(p) => bail!("panic", "peek_to_string panicked: {p}"),
                Ok(s) => ensure!(s.as_bytes() == &b[..], "entry-points", "peek_to_string wrote {s:?}, to_writer {:?}", show(b)),
            }
            ensure!(matches!(&o.peek_writer, Ok(Ok(x)) if x == b), "entry-points", "peek_to_writer differs from to_writer {:?}", show(b));
            ensure!(&o.short == b, "short-writes", "a writer taking a byte at a time got {:?} instead of {:?}", show(&o.short), show(b));
            let j = match jref::parse(b) {
                Ok(j) => j,
                Err(e) => bail!("malformed", "{e} in {}", show(b)),
            };
            let second = serde_json::from_slice::<serde_json::Value>(b);
            if let Err(e) = second {
                // serde_json refuses numbers beyond f64 and deep nesting only
                ensure!(jref::depth(&j) > 100 || e.to_string().contains("out of range"), "malformed", "serde_json: {e} in {}", show(b));
            }
            if let Err(e) = jref::denotes(ty, &o.value, &j) {
                bail!("value", "{e} in {}", show(b));
            }
            for (at, r) in &o.failing {
                cov!("failing writers");
                match r {
                    Err(p) => bail!("panic", "to_writer panicked on a writer failing at byte {at}: {p}"),
                    Ok((res, got)) => {
                        ensure!(res.is_err() == (*at < b.len()), "write-error", "a writer failing at byte {at} of {}: {res:?}", b.len());
                        ensure!(b.starts_with(got), "write-error", "a writer failing at byte {at} received {:?}", show(got));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P09
/// what the property asks for, given the reference's answer
fn judge_read(ty: T, doc: &[u8], what: &Dec, deep: bool) -> R {
    let got = (ty.de_json)(doc);
    match (what, got) {
        (_, Err(p)) => bail!("panic", "panicked: {p}"),
        (Dec::Any, Ok(Ok(_))) => cov!("unspecified documents read"),
        (Dec::Any, Ok(Err(_))) => cov!("unspecified documents refused"),
        (Dec::Maybe(_), Ok(Err(_))) => cov!("unspecified documents refused"),
        (Dec::Ok(m) | Dec::Maybe(m), Ok(Ok(g))) => {
            cov!("documents read");
            ensure!(*m == g, "value", "read as {g:?}, denotes {m:?}");
        }
        (Dec::Ok(_), Ok(Err(_))) if deep => cov!("deep documents refused"),
        (Dec::Ok(m), Ok(Err(e))) => bail!("refused", "denotes {m:?} but refused: {}", strip(&e)),
        (Dec::Err(_), Ok(Err(e))) => {
            cov!("documents refused as they should be");
            located(&e, doc)?;
        }
        (Dec::Err(w), Ok(Ok(g))) => bail!("accepted", "should be refused ({w}) but read as {g:?}"),
    }
    Ok(())
}
pub fn strip(e: &str) -> String {
    let mut out = String::new();
    let mut rest = e;
    while let Some(i) = rest.find("\u{1b}[") {
        out.push_str(&rest[..i]);
        let tail = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_digit() || c == ';');
        rest = match tail.strip_prefix('m') {
            Some(t) => t,
            None => {
                out.push('\u{1b}');
                &rest[i + 1..]
            }
        };
    }
    out + rest
}
/// every error names a position inside the input
fn located(e: &str, doc: &[u8]) -> R {
    ensure!(!e.is_empty(), "error-text", "empty error text");
    let e = strip(e);
    match std::str::from_utf8(doc) {
        Err(_) => {
            let Some(k) = e.find(" at byte ") else { bail!("location", "no position in {e:?}") };
            let d: String = e[k + 9..].chars().take_while(|c| c.is_ascii_digit()).collect();
            let p: usize = d.parse().unwrap_or(usize::MAX);
            ensure!(p <= doc.len(), "location", "position {d:?} in {} byte(s): {e}", doc.len());
        }
        Ok(s) => {
            let Some(k) = e.find("json:") else { bail!("location", "no position in {e:?}") };
            let rest = &e[k + 5..];
            let mut it = rest.splitn(2, ':');
            let l: usize = it.next().unwrap_or("").trim().parse().unwrap_or(0);
            let cs: String = it.next().unwrap_or("").chars().take_while(|c| c.is_ascii_digit()).collect();
            let col: usize = cs.parse().unwrap_or(0);
            // lines as Unicode counts them
            let lines = 1 + s.chars().filter(|c| matches!(c, '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')).count();
            ensure!(l >= 1 && l <= lines && col >= 1 && col <= s.len() + 1, "location", "position {l}:{col} is not inside the input of {lines} line(s), {} byte(s): {e}", s.len());
        }
    }
    cov!("errors formatted and located");
    Ok(())
}
const DEEP: usize = 400;
pub fn p09(c: &mut Ctx) {
    c.check_leaks = false; // P22
    let types = readable('j');
    let plain: Vec<T> = types.iter().copied().filter(|t| !has_map_or_enum(*t, 4)).collect();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = if r.chance(9, 10) { *r.pick(&plain) } else { *r.pick(&types) };
        let d = r.range(0, 4);
        let m = arb_mv(ty, &mut r, d);
        // what facet writes, facet reads back
        if r.chance(1, 8) && !has_map_or_enum(ty, 4) {
            let rr = r.clone();
            c.case(&format!("roundtrip/{}", (ty.tn)()), &format!("depth {d} seed {} shard {} case {n}", c.seed, c.shard), || {
                let mut r = rr.clone();
                let o = (ty.json_out)(&mut r, d);
                if let Ok(Ok(b)) = &o.writer {
                    match jref::parse(b).map(|j| jref::decode(ty, &j)) {
                        Ok(Dec::Any) => return Ok(()), // a map inside
                        _ => cov!("round trips"),
                    }
                    match (ty.de_json)(b) {
                        Err(p) => bail!("panic", "{p} on {}", show(b)),
                        Ok(Err(e)) => bail!("refused", "{} on {}", strip(&e), show(b)),
                        Ok(Ok(g)) => ensure!(g == o.value, "value", "{:?} came back as {g:?} through {}", o.value, show(b)),
                    }
                }
                Ok(())
            });
            continue;
        }
        if r.chance(1, 25) {
            // text spelt in escaped units
            let s = units(&mut r);
            if jref::parse(s.as_bytes()).is_ok() {
                let doc = match r.below(3) {
                    0 => format!("{{\"a\":1,\"b\":{s}}}"),
                    1 => format!("{{{s}:{s},\"a\":1,\"b\":\"x\"}}"),
                    _ => format!("{{\"a\":1,\"zz\":[{s},{{{s}:{s}}}],\"b\":{s}}}"),
                };
                let ty = <fvl::zoo::Flat as Model>::FNS;
                let what = jref::parse(doc.as_bytes()).map(|j| jref::decode(ty, &j)).unwrap();
                c.case("read/units", &doc, || {
                    cov!("texts in escaped units");
                    judge_read(ty, doc.as_bytes(), &what, false)
                });
            }
            continue;
        }
        let mut j = jref::tree(ty, &m, &mut r);
        let k = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 5]);
        if k > 0 {
            let mut names = vec![];
            jref::names(ty, &mut names, 4);
            for _ in 0..k {
                jref::mutate(&mut j, &mut r, &names);
            }
        } else {
            shuffle_keys(&mut j, &mut r);
        }
        let style = r.below(3) as u8;
        let mut doc = String::new();
        jref::render(&j, &mut r, style, &mut doc);
        let what = jref::decode(ty, &j);
        let deep = jref::depth(&j) > DEEP;
        c.case(&format!("read/{}", (ty.tn)()), &doc, || {
            // the reference must agree with itself
            match jref::parse(doc.as_bytes()) {
                Ok(k) if k == j => {}
                o => panic!("reference: {o:?} for {j:?}"),
            }
            judge_read(ty, doc.as_bytes(), &what, deep)
        });
    }
}
fn shuffle_keys(j: &mut J, r: &mut Rng) {
    match j {
        J::Arr(v) => v.iter_mut().for_each(|x| shuffle_keys(x, r)),
        J::Obj(v) => {
            r.shuffle(v);
            v.iter_mut().for_each(|(_, x)| shuffle_keys(x, r));
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ P10
const TOKENS: &[&[u8]] = &[
    b"{", b"}", b"[", b"]", b",", b":", b"\"", b"\\", b"null", b"true", b"false", b"-", b"+", b".", b"e", b"E9", b"1e", b"01", b"00", b"0x1", b"NaN",
    b"Infinity", b"nul", b"tru", b"fals", b"nulll", b"True", b"'", b"//", b"/*", b" ", b"\t", b"\n", b"\r", b"\x0b", b"\x0c", b"\x00", b"\x01", b"\x1f", b"\x7f", b"\x80",
    b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\xff", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xc2\x85", b"\\u", b"\\u12", b"\\ud800", b"\\ud83e\\udd80", b"\\ud83e\\u0041",
    b"\\udc00", b"\\x41", b"\\0", b"\\/", b"\\b", b"\"a\":", b"\"\":1", b",,", b"[]", b"{}", b"[[", b"]]", b"{{", b"\"\"", b"1.", b".5", b"-.5", b"--1", b"1.5e+", b"1e400", b"-0", b"1E+2",
    b"18446744073709551616", b"9223372036854775808", b"340282366920938463463374607431768211456", "é".as_bytes(), "🦀".as_bytes(), "日本".as_bytes(),
];
pub fn corrupt(doc: &mut Vec<u8>, r: &mut Rng) {
    let n = doc.len();
    match r.below(9) {
        0 | 1 => doc.truncate(r.below(n + 1)),
        2 if n > 0 => {
            let i = r.below(n);
            doc[i] ^= 1 << r.below(8);
        }
        3 if n > 0 => {
            doc.remove(r.below(n));
        }
        4 if n > 0 => {
            let i = r.below(n);
            doc[i] = *r.pick(b"{}[],:\"\\0-.e \ntn\xff\x80\x1f\x00");
        }
        5 if n > 0 => {
            // duplicate or drop a slice
            let a = r.below(n);
            let b = r.range(a, (a + 8).min(n));
            if r.chance(1, 2) {
                doc.drain(a..b);
            } else {
                let s: Vec<u8> = doc[a..b].to_vec();
                let at = r.below(doc.len() + 1);
                doc.splice(at..at, s);
            }
        }
        6 => {
            let t: &[u8] = *r.pick(TOKENS);
            doc.extend_from_slice(t);
        }
        _ => {
            let t: &[u8] = *r.pick(TOKENS);
            let at = r.below(n + 1);
            doc.splice(at..at, t.iter().copied());
        }
    }
}
/// a JSON string of `\u` units: pairs, halves of pairs, edges of the ranges, bad digits
pub fn units(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3, 5]) {
        let hi = *r.pick(&[0xd800u32, 0xdbff, 0xd83e, 0xd801, 0xdbfe]);
        let lo = *r.pick(&[0xdc00u32, 0xdfff, 0xdd80, 0xdc01, 0xdffe]);
        let bmp = *r.pick(&[0u32, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x22, 0x5c, 0x1f]);
        let hx = |u: u32, r: &mut Rng| if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
        match r.below(16) {
            0..=4 => {
                s += &hx(hi, r);
                s += &hx(lo, r);
            }
            5 => s += &hx(hi, r),
            6 => s += &hx(lo, r),
            7 => {
                s += &hx(hi, r);
                s += *r.pick(&["xxdc00", "dc00", "\\ndc00", "\\xdc00", "u\\dc00", " udc00", "\\Udc00", "/udc00", "  dc00", "éDC00", "\\u", "\\ud", "\\udc0", "\\udc0g", "\\", "\\\\udc00"]);
            }
            8 | 9 => {
                // one hexadecimal digit is none
                let mut t: Vec<char> = hx(if r.chance(1, 2) { bmp } else { hi }, r).chars().collect();
                if r.chance(1, 3) {
                    t.extend(hx(lo, r).chars());
                }
                let at = r.range(2, t.len() - 1);
                t[at] = *r.pick(&['g', 'G', '/', ':', '@', '`', ' ', '+', '-', '_', 'x', 'é', '０', '.', '\'']);
                s.extend(t);
            }
            10 => {
                s += &hx(bmp, r);
                s += &hx(lo, r);
            }
            11 => s += *r.pick(&["\\a", "\\v", "\\0", "\\'", "\\B", "\\N", "\\ ", "\\\u{1}", "\\é", "\\e", "\\x41"]),
            12 => s += *r.pick(&["\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"]),
            13 => s += *r.pick(&["é", "🦀", "a", "\u{7f}", "\u{80}", "\u{10ffff}", "\u{ffff}", "\u{2028}"]),
            _ => s += &hx(bmp, r),
        }
    }
    if !r.chance(1, 40) {
        s.push('"');
    }
    s
}
/// fields the type does not know, with something in them to skip, in every object it does
fn ignored(ty: T, j: &mut J, r: &mut Rng) {
    match (kind(ty), j) {
        (Kind::Option(t), j) if *j != J::Null => ignored(t, j, r),
        (Kind::List(t), J::Arr(v)) => v.iter_mut().for_each(|x| ignored(t, x, r)),
        (Kind::Struct(d), J::Obj(v)) => {
            for f in d.fields {
                if let Some((_, x)) = v.iter_mut().find(|(k, _)| k == f.wire) {
                    ignored((f.ty)(), x, r);
                }
            }
            let x = match r.below(5) {
                0 => J::Arr(vec![jref::arb_j(r, 1), jref::arb_j(r, 1)]),
                1 => J::Obj(vec![("k".into(), jref::arb_j(r, 1)), ("l".into(), jref::arb_j(r, 2))]),
                2 => J::Obj(vec![("k".into(), J::Arr(vec![jref::arb_j(r, 0), J::Obj(vec![])]))]),
                3 => J::Arr(vec![J::Arr(vec![]), J::Obj(vec![("k".into(), J::Null)])]),
                _ => jref::arb_j(r, 3),
            };
            let at = r.below(v.len() + 1);
            v.insert(at, (r.pick(&["zz", "zz\n", "ignored", "z\u{1f980}"]).to_string(), x));
        }
        _ => {}
    }
}
/// one token exchanged, dropped, doubled or swapped with its neighbour
fn tokens(doc: &mut Vec<u8>, r: &mut Rng) {
    let mut t: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    while i < doc.len() {
        let s = i;
        i += 1;
        match doc[s] {
            b'"' => {
                while i < doc.len() && doc[i] != b'"' {
                    i += if doc[i] == b'\\' { 2 } else { 1 };
                }
                i = (i + 1).min(doc.len());
            }
            b'{' | b'}' | b'[' | b']' | b',' | b':' | b' ' | b'\t' | b'\n' | b'\r' => {}
            _ => {
                while i < doc.len() && !b"{}[],: \t\n\r\"".contains(&doc[i]) {
                    i += 1;
                }
            }
        }
        t.push(doc[s..i].to_vec());
    }
    let n = t.len();
    let i = r.below(n);
    match r.below(8) {
        0 => {
            t.remove(i);
        }
        1 => t.insert(i, t[i].clone()),
        2 if n > 1 => t.swap(i, (i + 1) % n),
        3 => {
            // not a whole token
            let k = r.below(t[i].len().max(1));
            t[i].truncate(k);
        }
        4 => t.truncate(i),
        _ => {
            let by: &[&[u8]] = &[b"{", b"}", b"[", b"]", b",", b":", b";", b"=", b"1", b"null", b"\"k\"", b"true", b"'k'", b"k", b"x", b"-", b"\xff", b"\"\xff\"", b"\"\\ud800\"", b"01", b"1.", b"\"\n\""];
            t[i] = r.pick(by).to_vec();
        }
    }
    *doc = t.concat();
}
fn p10_case(c: &mut Ctx, ty: T, doc: &[u8], kind: &str) {
    let parsed = jref::parse(doc);
    let (what, deep) = match &parsed {
        // well-formed or not: far beyond what the reference follows
        Err(e) if e.contains("too deep") => (Dec::Any, true),
        Err(e) => (Dec::Err(format!("malformed: {e}")), false),
        Ok(j) => (jref::decode(ty, j), jref::depth(j) > DEEP),
    };
    let malformed = parsed.is_err();
    c.case(&format!("{kind}/{}", (ty.tn)()), &show(doc), || {
        if malformed {
            cov!("malformed documents");
        }
        judge_read(ty, doc, &what, deep)
    });
}
pub fn p10(c: &mut Ctx) {
    c.check_leaks = false; // P22
    let types = readable('j');
    // deep nesting, of what the type knows and of what it ignores
    let mut k = 0;
    let depths: &[usize] = if cfg!(miri) { &[20] } else { &[50, 300, 511, 512, 513, 600, 5_000, 200_000] };
    for ty in &types[..if cfg!(miri) { 4 } else { types.len() }] {
        for &depth in depths {
            for shape in 0..8 {
                k += 1;
                // the very deep documents are long: a few types suffice
                if !c.mine(k) || depth > 1000 && (k / 64 + shape) % 6 != 0 || cfg!(miri) && !c.time_left() {
                    continue;
                }
                let (open, mid, close): (&str, &str, &str) = match shape {
                    0 => ("[", "", "]"),
                    1 => ("{\"a\":", "1", "}"),
                    2 => ("{\"zz\":", "1", "}"),
                    3 => ("[[", "", ""),
                    4 => ("{\"zz\":[", "", "]}"),
                    5 => ("{\"kids\":[", "", "],\"v\":1}"),
                    6 => ("{\"v\":1,\"kids\":[", "", "]}"),
                    _ => ("{\"v\":1,\"kids\":[", "", ""),
                };
                if shape == 5 && !(ty.tn)().contains("Tree") && depth > 513 {
                    continue;
                }
                let n = if open.len() > 1 { depth / 2 } else { depth };
                let doc = format!("{}{mid}{}", open.repeat(n), close.repeat(n));
                p10_case(c, *ty, doc.as_bytes(), "nest");
                let doc = format!("{{\"zz\":{}{mid}{}}}", open.repeat(n), close.repeat(n));
                p10_case(c, *ty, doc.as_bytes(), "nest");
            }
        }
    }
    cov!("deep nesting swept");
    let mut n = 0u64;
    // the sweep may take long; leave the random part its own time
    c.start = std::time::Instant::now();
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = *r.pick(&types);
        if r.chance(1, 20) {
            let doc: Vec<u8> = (0..r.below(40)).map(|_| if r.chance(1, 2) { *r.pick(b"{}[],:\"\\0123-.e \ntrufalsn") } else { r.next() as u8 }).collect();
            p10_case(c, ty, &doc, "random");
            continue;
        }
        if r.chance(1, 6) {
            // one string made of escaped units, where it is read and where it is skipped
            let s = units(&mut r);
            let (ty, doc) = match r.below(6) {
                0 => (<fvl::zoo::Flat as Model>::FNS, format!("{{\"a\":1,\"b\":{s}}}")),
                1 => (<fvl::zoo::Flat as Model>::FNS, format!("{{\"zz\":{s},\"a\":1,\"b\":\"x\"}}")),
                2 => (<fvl::zoo::Flat as Model>::FNS, format!("{{\"a\":1,{s}:[{s}],\"b\":\"x\"}}")),
                3 => (<fvl::zoo::Flat as Model>::FNS, format!("{{\"a\":1,\"zz\":{{{s}:{s}}},\"b\":\"x\"}}")),
                4 => (<Vec<String> as Model>::FNS, format!("[{s},{}]", units(&mut r))),
                _ => (<char as Model>::FNS, s),
            };
            p10_case(c, ty, doc.as_bytes(), "units");
            continue;
        }
        let d = r.range(0, 3);
        let m = arb_mv(ty, &mut r, d);
        let mut j = jref::tree(ty, &m, &mut r);
        if r.chance(1, 3) {
            let mut names = vec![];
            jref::names(ty, &mut names, 3);
            jref::mutate(&mut j, &mut r, &names);
        }
        let skipped = r.chance(1, 3);
        if skipped {
            ignored(ty, &mut j, &mut r);
        }
        let style = r.below(3) as u8;
        let mut doc = String::new();
        jref::render(&j, &mut r, style, &mut doc);
        let doc = doc.into_bytes();
        if r.chance(1, 12) && doc.len() < 300 {
            // every truncation of this one
            for k in 0..doc.len() {
                p10_case(c, ty, &doc[..k], "truncated");
            }
            cov!("documents truncated everywhere");
            continue;
        }
        let mut doc = doc;
        if skipped || r.chance(1, 3) {
            tokens(&mut doc, &mut r);
            p10_case(c, ty, &doc, "tokens");
            continue;
        }
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            corrupt(&mut doc, &mut r);
        }
        p10_case(c, ty, &doc, "corrupt");
    }
}

// ------------------------------------------------------------------ P21
pub fn p21(c: &mut Ctx) {
    c.check_leaks = false;
    use fvl::zoo::*;
    let types: Vec<T> = vec![
        Renamed::FNS, Swapped::FNS, Defs::FNS, Deny::FNS, DenyNest::FNS, WholeDef::FNS, Inv::FNS, HoldsInv::FNS, ListInv::FNS, DefsWhole::FNS, RenDefDeny::FNS, DefNest::FNS, OptRen::FNS, InvDef::FNS, DfltPlain::FNS,
        <Vec<Defs> as Model>::FNS, <Vec<Deny> as Model>::FNS, <Option<WholeDef> as Model>::FNS, <Vec<Option<Renamed>> as Model>::FNS, <Vec<DefsWhole> as Model>::FNS, <Vec<Inv> as Model>::FNS, <Vec<RenDefDeny> as Model>::FNS, <Option<DfltPlain> as Model>::FNS,
    ];
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = *r.pick(&types);
        let d = r.range(0, 3);
        if r.chance(1, 6) {
            // writing: every field under its new name
            let rr = r.clone();
            c.case(&format!("attr-write/{}", (ty.tn)()), &format!("depth {d} seed {} shard {} case {n}", c.seed, c.shard), || {
                let mut r = rr.clone();
                let o = (ty.json_out)(&mut r, d);
                cov!("written");
                judge_out(ty, &o)
            });
            continue;
        }
        let m = arb_mv(ty, &mut r, d);
        let mut j = jref::tree(ty, &m, &mut r);
        let mut names = vec![];
        jref::names(ty, &mut names, 4);
        attr_mutate(ty, &mut j, &mut r, &names);
        if r.chance(2, 3) {
            shuffle_keys(&mut j, &mut r);
        }
        let style = r.below(3) as u8;
        let mut doc = String::new();
        jref::render(&j, &mut r, style, &mut doc);
        let what = jref::decode(ty, &j);
        let deep = jref::depth(&j) > DEEP;
        c.case(&format!("attr-read/{}", (ty.tn)()), &doc, || judge_read(ty, doc.as_bytes(), &what, deep));
    }
}
/// drop fields, add unknown ones, use old names, break invariants - all over the document
fn attr_mutate(ty: T, j: &mut J, r: &mut Rng, names: &[String]) {
    match (kind(ty), j) {
        (Kind::Option(t), j) => {
            if *j != J::Null {
                attr_mutate(t, j, r, names)
            }
        }
        (Kind::List(t), J::Arr(v)) => v.iter_mut().for_each(|x| attr_mutate(t, x, r, names)),
        (Kind::Struct(d), J::Obj(v)) => {
            for f in d.fields {
                if let Some((_, x)) = v.iter_mut().find(|(k, _)| k == f.wire) {
                    attr_mutate((f.ty)(), x, r, names);
                }
            }
            let style = r.below(6);
            if style <= 2 {
                // leave out defaulted fields, now and then another one
                v.retain(|(k, _)| {
                    let f = d.fields.iter().find(|f| f.wire == k).unwrap();
                    let droppable = f.default.is_some() || d.default.is_some();
                    if droppable { !r.chance(1, 2) } else { !r.chance(1, 40) }
                });
            }
            if d.invariant.is_some() && r.chance(1, 3) && v.len() >= 2 {
                let (a, b) = (v[0].1.clone(), v[1].1.clone());
                v[0].1 = b;
                v[1].1 = a;
            }
            if style == 3 && !v.is_empty() {
                // old name instead of the new one
                let i = r.below(v.len());
                if let Some(f) = d.fields.iter().find(|f| f.wire == v[i].0) {
                    v[i].0 = f.name.to_string();
                }
            }
            if style == 4 || r.chance(1, 12) && !d.deny || r.chance(1, 40) {
                for _ in 0..r.range(1, 3) {
                    let k = if r.chance(1, 3) && !names.is_empty() { r.pick(names).clone() } else { jref::arb_key(r) };
                    let at = r.below(v.len() + 1);
                    v.insert(at, (k, jref::arb_j(r, 4)));
                }
            }
        }
        _ => {}
    }
}
