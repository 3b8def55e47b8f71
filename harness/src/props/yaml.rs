//! P14: YAML in. Documents are generated together with their tree (block and flow mappings, every
//! kind of scalar); for damaged documents the tree is the one yaml-rust2's loader gives.
use crate::toml::{Dec, judge};
use fvl::ctx::*;
use fvl::model::*;
use fvl::{bail, cov};
use Dec::{Any, Err as No, Maybe, Ok as Yes};
use yaml_rust2::{Yaml, YamlLoader};

#[derive(Clone, Debug, PartialEq)]
pub enum YT {
    Str(String),
    Num(i128),
    Real(String),
    Bool(bool),
    Null,
    Seq(Vec<YT>),
    Map(Vec<(YT, YT)>),
}
fn key(k: &str) -> YT {
    YT::Str(k.into())
}
pub fn from_yaml(y: &Yaml) -> YT {
    match y {
        Yaml::Real(s) => YT::Real(s.clone()),
        Yaml::Integer(i) => YT::Num(*i as i128),
        Yaml::String(s) => YT::Str(s.clone()),
        Yaml::Boolean(b) => YT::Bool(*b),
        Yaml::Array(v) => YT::Seq(v.iter().map(from_yaml).collect()),
        Yaml::Hash(h) => YT::Map(h.iter().map(|(k, v)| (from_yaml(k), from_yaml(v))).collect()),
        Yaml::Alias(_) | Yaml::Null | Yaml::BadValue => YT::Null,
    }
}
/// None: not one document
pub fn parse(s: &str) -> Result<Option<YT>, String> {
    let d = YamlLoader::load_from_str(s).map_err(|e| e.to_string())?;
    Ok(if d.len() == 1 { Some(from_yaml(&d[0])) } else { None })
}
fn same(a: &YT, b: &YT) -> bool {
    match (a, b) {
        (YT::Num(i), YT::Real(s)) | (YT::Real(s), YT::Num(i)) => s.parse::<i128>() == Ok(*i),
        (YT::Seq(x), YT::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (YT::Map(x), YT::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| same(k, l) && same(a, b)),
        (a, b) => a == b,
    }
}
/// what the tree denotes as a value of the type
pub fn decode(ty: T, v: &YT) -> Dec {
    let no = |what: &str| No(format!("{what} as {}", ty.name));
    match kind(ty) {
        Kind::Scalar(SK::Int { bits: 64, signed: false, nonzero: false, ptr: false }) => match v {
            YT::Num(i) => match u64::try_from(*i) {
                Ok(u) => Yes(MV::Int(u as i128)),
                Err(_) => no("a number out of range"),
            },
            YT::Real(s) => match s.parse::<u64>() {
                Ok(u) => Yes(MV::Int(u as i128)),
                Err(_) => match s.parse::<f64>() {
                    // a whole number written as a float may be taken for that number
                    Ok(f) if f.fract() == 0.0 && f >= 0.0 && f < 1.8446744073709552e19 => Maybe(MV::Int(f as i128)),
                    _ => no("not a number in range"),
                },
            },
            // quoted numbers and booleans are taken for numbers on purpose
            YT::Str(s) => match s.parse::<u64>() {
                Ok(u) => Maybe(MV::Int(u as i128)),
                Err(_) => no("text"),
            },
            YT::Bool(b) => Maybe(MV::Int(*b as i128)),
            _ => no("no number"),
        },
        Kind::Scalar(SK::Str) => match v {
            YT::Str(s) => Yes(MV::Str(s.clone())),
            _ => no("no text"),
        },
        // unknown to the reader: refused, or read properly
        Kind::Scalar(SK::Int { bits, signed, nonzero, .. }) => match v {
            YT::Num(i) => match fvl::jref::int_fits(*i < 0, i.unsigned_abs(), bits, signed, nonzero) {
                Some(m) => Maybe(m),
                None => no("a number out of range"),
            },
            YT::Map(_) | YT::Seq(_) | YT::Null => no("no number"),
            _ => Any,
        },
        Kind::Scalar(SK::Bool) => match v {
            YT::Bool(b) => Maybe(MV::Bool(*b)),
            YT::Map(_) | YT::Seq(_) | YT::Null => no("no boolean"),
            _ => Any,
        },
        Kind::Scalar(_) => match v {
            YT::Map(_) | YT::Seq(_) => no("no scalar"),
            _ => Any,
        },
        Kind::List(t) => match v {
            YT::Seq(a) => crate::toml::weaken(crate::toml::all(a.iter().map(|x| decode(t, x)).collect(), MV::List)),
            YT::Null => Any,
            _ => no("no list"),
        },
        Kind::Option(t) => match v {
            YT::Null => Maybe(MV::None),
            v => crate::toml::weaken(crate::toml::all(vec![decode(t, v)], |mut m| MV::Some(Box::new(m.remove(0))))),
        },
        Kind::Map(..) | Kind::Enum(_) => Any,
        Kind::Struct(d) => {
            let YT::Map(e) = v else { return no("no mapping") };
            let mut out: Vec<Option<Dec>> = d.fields.iter().map(|_| None).collect();
            for (k, x) in e {
                let YT::Str(k) = k else { return no("a key which is not text") };
                match d.fields.iter().position(|f| f.name == k) {
                    Some(i) => out[i] = Some(decode((d.fields[i].ty)(), x)),
                    None => return no("an unknown field"),
                }
            }
            crate::toml::all(
                out.into_iter().zip(d.fields).map(|(o, f)| o.unwrap_or_else(|| if matches!(kind((f.ty)()), Kind::Option(_)) { Maybe(MV::None) } else { No(format!("field {} missing", f.name)) })).collect(),
                MV::Struct,
            )
        }
    }
}
pub fn tree(ty: T, m: &MV) -> YT {
    match (kind(ty), m) {
        (_, MV::Str(s)) => YT::Str(s.clone()),
        (_, MV::Int(i)) => YT::Num(*i),
        (_, MV::Bool(b)) => YT::Bool(*b),
        (Kind::Struct(d), MV::Struct(v)) => YT::Map(v.iter().zip(d.fields).map(|(x, f)| (key(f.name), tree((f.ty)(), x))).collect()),
        (Kind::List(t), MV::List(v)) => YT::Seq(v.iter().map(|x| tree(t, x)).collect()),
        (Kind::Option(t), MV::Some(x)) => tree(t, x),
        (Kind::Map(_, t), MV::Map(v)) => YT::Map(v.iter().map(|(k, x)| (key(&fvl::jref::key_text(k).unwrap_or_default()), tree(t, x))).collect()),
        _ => YT::Null,
    }
}
fn arb(r: &mut Rng, d: usize, names: &[String]) -> YT {
    match r.below(if d == 0 { 8 } else { 11 }) {
        0 => YT::Bool(r.chance(1, 2)),
        1 => YT::Null,
        2 | 3 => YT::Num(match r.below(3) {
            0 => *r.pick(&[0, -1, 1, i64::MIN as i128, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, -42]),
            _ => arb_int(r, 64, true),
        }),
        4 => YT::Real(r.pick(&["1.5", "-0.5", "1e3", "1e300", ".inf", "-.inf", ".nan", "1.0", "0.0", "-0.0", "18446744073709551616.0", "1e19", "-1.0"]).to_string()),
        5..8 => YT::Str(if r.chance(1, 3) && !names.is_empty() { r.pick(names).clone() } else { text(r) }),
        8 => YT::Seq((0..r.below(4)).map(|_| arb(r, d - 1, names)).collect()),
        _ => {
            let mut v: Vec<(YT, YT)> = vec![];
            for _ in 0..r.below(4) {
                let k = if r.chance(1, 8) { YT::Num(r.below(5) as i128) } else { YT::Str(if names.is_empty() || r.chance(1, 2) { text(r) } else { r.pick(names).clone() }) };
                if !v.iter().any(|(x, _)| *x == k) {
                    v.push((k, arb(r, d - 1, names)));
                }
            }
            YT::Map(v)
        }
    }
}
fn text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&["", " ", "42", "-1", "0x10", "true", "null", "~", "yes", "1.5", "- a", "a: b", "a:b", "#x", "a #b", "'", "''", "\"", "\\", "[", "]", "{a}", "&x", "*x", "!t", "|", ">", "%d", "@a", "`b", "? a", "---", "...", "a\nb", "a\n", "\na", "a\n\nb\n", " a", "a ", "\ta", "a\tb", "é", "\u{1F600}", "a, b", "<<", "=", "18446744073709551615", "+5", "007", "1_000", "2020-01-01", "\u{85}", "\u{2028}", "\u{feff}", "a\r\nb", "\0", "\x07"]).to_string(),
        _ => arb_string(r),
    }
}
fn mutate(t: &mut YT, r: &mut Rng, names: &[String]) {
    let mut cur = t;
    let mut first = true;
    loop {
        let n = match cur {
            YT::Map(v) => v.len(),
            _ => 0,
        };
        if n == 0 || !first && r.chance(1, 2) || r.chance(1, 4) {
            break;
        }
        first = false;
        let i = r.below(n);
        let YT::Map(v) = cur else { unreachable!() };
        cur = &mut v[i].1;
    }
    match cur {
        YT::Map(v) if r.chance(5, 6) => {
            let n = v.len();
            match r.below(6) {
                0 | 1 if n > 0 => {
                    v.remove(r.below(n));
                }
                2 | 3 => {
                    let k = if !names.is_empty() && r.chance(1, 2) { key(r.pick(names)) } else { arb(r, 0, names) };
                    if !v.iter().any(|(x, _)| same(x, &k)) {
                        let at = r.below(n + 1);
                        let x = arb(r, 2, names);
                        v.insert(at, (k, x));
                    }
                }
                _ if n > 0 => {
                    let i = r.below(n);
                    v[i].1 = arb(r, 2, names);
                }
                _ => {}
            }
        }
        c => *c = arb(r, 2, names),
    }
}
// ------------------------------------------------------------------ writing documents
fn dq(s: &str, r: &mut Rng, o: &mut String) {
    let style = r.below(3);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\0' => o.push_str("\\0"),
            '\u{85}' if r.chance(1, 2) => o.push_str("\\N"),
            '\u{a0}' if r.chance(1, 2) => o.push_str("\\_"),
            '/' if r.chance(1, 3) => o.push_str("\\/"),
            c if (c as u32) < 0x100 && ((c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || style == 2 && r.chance(1, 4)) => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}') || style == 2 && (c as u32) < 0x10000 && r.chance(1, 3) => o.push_str(&format!("\\u{:04X}", c as u32)),
            c if style == 2 && r.chance(1, 4) => o.push_str(&format!("\\U{:08x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn printable(s: &str) -> bool {
    s.chars().all(|c| (c as u32) >= 0x20 && !(0x7f..0xa1).contains(&(c as u32)) && !matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}'))
}
fn plain(s: &str) -> bool {
    s.len() > 0
        && s.as_bytes()[0].is_ascii_alphabetic()
        && s.bytes().all(|c| c.is_ascii_alphanumeric() || b" _./-+!*&%@".contains(&c))
        && !s.ends_with(' ')
        // what this parser takes for a number
        && s.parse::<f64>().is_err()
        && !["true", "false", "null", "True", "False", "Null", "TRUE", "FALSE", "NULL", "y", "n", "yes", "no", "on", "off"].contains(&s)
}
fn scalar(t: &YT, r: &mut Rng, o: &mut String) {
    match t {
        YT::Null => o.push_str(r.pick(&["null", "~"])),
        YT::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        YT::Real(s) => o.push_str(s),
        YT::Num(i) => {
            let small = i64::try_from(*i).is_ok();
            match r.below(6) {
                0 if *i >= 0 && small => o.push_str(&format!("0x{i:x}")),
                1 if *i >= 0 && small => o.push_str(&format!("0o{i:o}")),
                2 if *i >= 0 => o.push_str(&format!("+{i}")),
                _ => o.push_str(&i.to_string()),
            }
        }
        YT::Str(s) => match r.below(4) {
            0 | 1 if plain(s) => o.push_str(s),
            2 if printable(s) => {
                o.push('\'');
                o.push_str(&s.replace('\'', "''"));
                o.push('\'')
            }
            _ => dq(s, r, o),
        },
        _ => unreachable!(),
    }
}
fn flow(t: &YT, r: &mut Rng, o: &mut String) {
    fn sp(r: &mut Rng, o: &mut String) {
        if r.chance(1, 3) {
            o.push_str(r.pick(&[" ", "  "]))
        }
    }
    match t {
        YT::Seq(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ")
                }
                sp(r, o);
                flow(x, r, o);
                sp(r, o);
            }
            o.push(']')
        }
        YT::Map(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ")
                }
                sp(r, o);
                scalar_key(k, r, o);
                o.push_str(": ");
                flow(x, r, o);
                sp(r, o);
            }
            o.push('}')
        }
        t => scalar(t, r, o),
    }
}
fn scalar_key(k: &YT, r: &mut Rng, o: &mut String) {
    match k {
        YT::Seq(_) | YT::Map(_) => o.push_str("zz"),
        k => scalar(k, r, o),
    }
}
fn block_text(s: &str) -> bool {
    let body = s.strip_suffix('\n').unwrap_or(s);
    !body.is_empty() && !body.ends_with('\n') && body.split('\n').all(|l| printable(l)) && !body.starts_with([' ', '\n', '\t'])
}
fn eol(r: &mut Rng, o: &mut String) {
    match r.below(12) {
        0 => o.push_str(" # a comment: [x"),
        1 => o.push(' '),
        2 => o.push_str("\n\n# another"),
        _ => {}
    }
    o.push('\n');
}
/// the value after `key:` (nothing written yet after the colon)
fn block(t: &YT, ind: usize, r: &mut Rng, o: &mut String, n: &mut usize) {
    // an anchor now and then
    if r.chance(1, 12) {
        *n += 1;
        o.push_str(&format!(" &a{n}"));
    }
    match t {
        YT::Map(v) if !v.is_empty() && r.chance(2, 3) => {
            eol(r, o);
            mapping(v, ind + *r.pick(&[1, 2, 2, 2, 3, 4]), r, o, n);
        }
        YT::Seq(v) if !v.is_empty() && r.chance(2, 3) => {
            eol(r, o);
            let ind = ind + *r.pick(&[1, 2, 4]);
            for x in v {
                o.push_str(&" ".repeat(ind));
                o.push_str("- ");
                flow(x, r, o);
                eol(r, o);
            }
        }
        YT::Str(s) if block_text(s) && r.chance(1, 4) => {
            let keep = s.ends_with('\n');
            let fold = !s.trim_end_matches('\n').contains('\n') && r.chance(1, 2);
            o.push_str(if fold { " >" } else { " |" });
            if !keep {
                o.push('-')
            }
            o.push('\n');
            let ind = ind + *r.pick(&[1, 2, 3]);
            for l in s.strip_suffix('\n').unwrap_or(s).split('\n') {
                if !l.is_empty() {
                    o.push_str(&" ".repeat(ind));
                    o.push_str(l);
                }
                o.push('\n');
            }
        }
        t => {
            o.push(' ');
            flow(t, r, o);
            eol(r, o);
        }
    }
}
fn mapping(v: &[(YT, YT)], ind: usize, r: &mut Rng, o: &mut String, n: &mut usize) {
    for (k, x) in v {
        o.push_str(&" ".repeat(ind));
        if r.chance(1, 16) {
            o.push_str("? ");
            scalar_key(k, r, o);
            o.push('\n');
            o.push_str(&" ".repeat(ind));
            o.push(':');
        } else {
            scalar_key(k, r, o);
            o.push(':');
        }
        block(x, ind, r, o, n);
    }
}
pub fn render(t: &YT, r: &mut Rng) -> String {
    let mut o = String::new();
    if r.chance(1, 8) {
        o.push_str(r.pick(&["# start\n", "\n\n"]));
    }
    if r.chance(1, 6) {
        o.push_str("---\n");
    }
    match t {
        YT::Map(v) if !v.is_empty() && r.chance(3, 4) => mapping(v, 0, r, &mut o, &mut 0),
        t => {
            flow(t, r, &mut o);
            o.push('\n')
        }
    }
    if r.chance(1, 10) {
        o.push_str("...\n");
    }
    o
}
pub fn arb_doc(ty: T, r: &mut Rng, d: usize) -> (YT, String) {
    let m = arb_mv(ty, r, d);
    let mut t = tree(ty, &m);
    if r.chance(1, 2) {
        let mut ns = vec![];
        crate::toml::names(ty, &mut ns, 4);
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            mutate(&mut t, r, &ns);
        }
    }
    shuffle(&mut t, r);
    let s = render(&t, r);
    (t, s)
}
fn shuffle(t: &mut YT, r: &mut Rng) {
    if let YT::Map(v) = t {
        if r.chance(1, 2) {
            r.shuffle(v)
        }
        v.iter_mut().for_each(|(_, x)| shuffle(x, r));
    }
}
fn corrupt(doc: &mut String, r: &mut Rng) {
    let mut c: Vec<char> = doc.chars().collect();
    let n = c.len();
    match r.below(7) {
        0 => c.truncate(r.below(n + 1)),
        1 if n > 0 => {
            c.remove(r.below(n));
        }
        2 | 3 if n > 0 => {
            let i = r.below(n);
            c[i] = *r.pick(&['[', ']', '{', '}', ':', '-', ',', '"', '\'', '\\', '#', '\n', ' ', '0', '1', '|', '>', '&', '*', '!', '?', '%', '\t', '\0', '\u{feff}', '\r', 'é', '~', '@']);
        }
        4 if n > 0 => {
            let a = r.below(n);
            let b = r.range(a, (a + 12).min(n));
            if r.chance(1, 2) {
                c.drain(a..b);
            } else {
                let s = c[a..b].to_vec();
                let at = r.below(c.len() + 1);
                c.splice(at..at, s);
            }
        }
        _ => {
            let at = r.below(n + 1);
            let t = *r.pick(&["---\n", "...\n", "- ", "? ", ": ", "&a ", "*a", "*a1", "!!str ", "!!int ", "!!float ", "!!bool ", "!!null ", "!x ", "<<: ", "{", "}", "[", "]", "| ", ">", "\n  ", "\n", "  ", "-1", "1e9", "null", "~", "true", "%YAML 1.2\n---\n", "\\x", "# ", " #"]);
            c.splice(at..at, t.chars());
        }
    }
    *doc = c.into_iter().collect();
}
fn by_text(c: &mut Ctx, ty: T, doc: &str, what: &str) {
    c.case(&format!("yaml-{what}/{}", (ty.tn)()), doc, || {
        let want = match no_panic(|| parse(doc)) {
            Ok(Ok(Some(t))) => decode(ty, &t),
            Ok(Ok(None)) => No("not one document".into()),
            Ok(Err(e)) => {
                cov!("malformed documents");
                No(e)
            }
            Err(_) => {
                cov!("documents the parser itself panics on");
                Any
            }
        };
        judge((ty.de_yaml)(doc.as_bytes()), &want)
    });
}
pub fn p14(c: &mut Ctx) {
    c.check_leaks = false; // P22
    let types = crate::toml::types('y');
    // what the reader does not know must be refused, not more
    use fvl::zoo::*;
    let others: Vec<T> = vec![
        Nums::FNS, INums::FNS, Opts::FNS, Lists::FNS, Maps::FNS, HasEnums::FNS, UnitE::FNS, DataE::FNS, Tup::FNS, New::FNS, HasTup::FNS, Floats::FNS, Mixed::FNS, OptLists::FNS, Chars::FNS, u64::FNS, u32::FNS, bool::FNS,
        <Vec<u64> as Model>::FNS, <Vec<Flat> as Model>::FNS, <Option<u64> as Model>::FNS, <Option<Flat> as Model>::FNS, String::FNS, <std::collections::HashMap<String, u64> as Model>::FNS, <Vec<Vec<String>> as Model>::FNS,
    ];
    let mut k = 0;
    for ty in types.iter().chain(&others) {
        for depth in [10usize, 60, 100, 127, 128, 129, 500, 3_000, 20_000, 100_000] {
            for shape in 0..8 {
                k += 1;
                if !c.mine(k) || cfg!(miri) && (depth > 60 || !c.time_left()) || depth > 500 && k % 7 != 0 {
                    continue;
                }
                let doc = match shape {
                    0 => format!("{}{}", "[".repeat(depth), "]".repeat(depth)),
                    1 => format!("{}1{}", "{a: ".repeat(depth), "}".repeat(depth)),
                    2 => "[".repeat(depth),
                    3 => "{a: ".repeat(depth),
                    4 => "- ".repeat(depth),
                    5 => (0..depth.min(600)).map(|i| format!("{}a:\n", " ".repeat(i))).collect(),
                    6 => "? ".repeat(depth),
                    _ => format!("a: 1\nb: {}{}", "[".repeat(depth), "]".repeat(depth)),
                };
                if depth <= 60 {
                    by_text(c, *ty, &doc, "nest");
                } else {
                    // the parser used as the reference might not survive it
                    let short = format!("shape {shape} depth {depth}");
                    c.case(&format!("yaml-deep/{}", (ty.tn)()), &short, || judge((ty.de_yaml)(doc.as_bytes()), &Any));
                }
            }
        }
    }
    cov!("deep nesting swept");
    c.start = std::time::Instant::now();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = if r.chance(1, 5) { *r.pick(&others) } else { *r.pick(&types) };
        let d = r.range(0, 3);
        let (t, doc) = arb_doc(ty, &mut r, d);
        if r.chance(1, 4) {
            if r.chance(1, 6) && doc.len() < 250 {
                for (k, _) in doc.char_indices() {
                    by_text(c, ty, &doc[..k], "cut");
                }
                cov!("documents truncated everywhere");
            } else {
                let mut doc = doc;
                for _ in 0..*r.pick(&[1, 1, 2, 4]) {
                    corrupt(&mut doc, &mut r);
                }
                by_text(c, ty, &doc, "damaged");
            }
            continue;
        }
        c.case(&format!("yaml/{}", (ty.tn)()), &doc, || {
            match parse(&doc) {
                Ok(Some(p)) if same(&p, &t) => {}
                o => {
                    cov!("documents the parser reads otherwise");
                    if std::env::var_os("FV_SELF").is_some() {
                        bail!("self", "{o:?} for {t:?}");
                    }
                    return Ok(());
                }
            }
            cov!("documents generated");
            judge((ty.de_yaml)(doc.as_bytes()), &decode(ty, &t))
        });
    }
}
