//! P16: command lines. Every struct comes with a table of what its fields are; lists of arguments
//! are made from values, options in any order among the positional arguments.
use fvl::ctx::*;
use fvl::model::*;
use fvl::{bail, cov, ensure};
use facet::Facet;

#[derive(Clone, Copy)]
pub struct Opt {
    name: &'static str,
    positional: bool,
    short: Option<char>,
    ty: fn() -> T,
}
pub struct Spec {
    name: &'static str,
    fields: &'static [Opt],
    run: fn(&[&str]) -> Result<Vec<MV>, String>,
}
macro_rules! args {
    ($name:ident { $( $(#[facet $m:tt])* $f:ident : $t:ty = $pos:expr, $short:expr );* $(;)? }) => {
        #[derive(Facet)]
        #[allow(non_snake_case)]
        struct $name { $( $(#[facet $m])* $f: $t ),* }
        impl $name {
            const SPEC: Spec = Spec {
                name: stringify!($name),
                fields: &[ $( Opt { name: stringify!($f), positional: $pos, short: $short, ty: || <$t as Model>::FNS } ),* ],
                run: |a| no_panic(|| { let v: $name = facet_args::from_slice(a); vec![ $( v.$f.to_mv() ),* ] }),
            };
        }
    };
}
args!(Readme { #[facet(positional)] path: String = true, None; #[facet(named, short = 'v')] verbose: bool = false, Some('v'); #[facet(named, short = 'j')] concurrency: usize = false, Some('j') });
args!(TwoPos { #[facet(positional)] from: String = true, None; #[facet(named, short = 'f')] force: bool = false, Some('f'); #[facet(positional)] to: String = true, None });
args!(ThreePos { #[facet(positional)] a: String = true, None; #[facet(positional)] b: u32 = true, None; #[facet(positional)] c: String = true, None });
args!(Flags { #[facet(named, short = 'a')] all: bool = false, Some('a'); #[facet(named)] brief: bool = false, None; #[facet(named, short = 'C')] colour: bool = false, Some('C'); #[facet(named, short = 'd')] dry_run: bool = false, Some('d') });
args!(Numbers { #[facet(named)] a: u8 = false, None; #[facet(named, short = 'b')] b: i64 = false, Some('b'); #[facet(named)] c: f64 = false, None; #[facet(named, short = 'x')] d: u64 = false, Some('x'); #[facet(named)] e: i8 = false, None; #[facet(named)] f: f32 = false, None });
args!(Shorts { #[facet(named, short = 'n')] name: String = false, Some('n'); #[facet(named, short = 'm')] mode: String = false, Some('m'); #[facet(named, short = '1')] one: bool = false, Some('1'); #[facet(named, short = 'é')] accent: bool = false, Some('é') });
args!(Mixed { #[facet(named)] out: String = false, None; #[facet(positional)] input: String = true, None; #[facet(named, short = 'q')] quiet: bool = false, Some('q'); #[facet(positional)] count: i32 = true, None; #[facet(named, short = 'w')] width: u16 = false, Some('w'); #[facet(positional)] label: String = true, None });
args!(Plain { name: String = false, None; size: u64 = false, None; on: bool = false, None });
args!(Swap { #[facet(named, short = 'b')] a: String = false, Some('b'); #[facet(named, short = 'a')] b: String = false, Some('a') });
args!(OnePos { #[facet(positional)] only: String = true, None });
args!(PosNum { #[facet(positional)] x: f64 = true, None; #[facet(positional)] y: u8 = true, None; #[facet(named, short = 'v')] v: bool = false, Some('v') });
args!(Wide { #[facet(named, short = 'l')] level: i128 = false, Some('l'); #[facet(named)] big: u128 = false, None; #[facet(positional)] p: String = true, None; #[facet(named, short = 'k')] keep: bool = false, Some('k'); #[facet(named, short = 's')] size: isize = false, Some('s') });

const SPECS: &[Spec] = &[Readme::SPEC, TwoPos::SPEC, ThreePos::SPEC, Flags::SPEC, Numbers::SPEC, Shorts::SPEC, Mixed::SPEC, Plain::SPEC, Swap::SPEC, OnePos::SPEC, PosNum::SPEC, Wide::SPEC];

fn text(m: &MV) -> String {
    match m {
        MV::Str(s) => s.clone(),
        MV::F64(b) => format!("{}", f64::from_bits(*b)),
        MV::F32(b) => format!("{}", f32::from_bits(*b)),
        MV::Int(i) => i.to_string(),
        MV::Big(i) => i.to_string(),
        MV::Bool(b) => b.to_string(),
        m => format!("{m:?}"),
    }
}
fn nasty(r: &mut Rng) -> String {
    match r.below(3) {
        0 => r.pick(&["", " ", "a b", "--verbose", "-v", "-", "--", "---", "true", "false", "14", "-1", "=", "a=b", "--x=y", "é\u{1F600}", "\n", "TRUE", "example.rs", "/", "\\", "'", "\"", "*", "\0"]).to_string(),
        _ => arb_string(r),
    }
}
/// values of the fields and a list of arguments which says them
fn make(s: &Spec, r: &mut Rng) -> (Vec<MV>, Vec<String>) {
    let mut vals = vec![];
    let mut opts: Vec<Vec<String>> = vec![];
    let mut pos: Vec<Vec<String>> = vec![];
    for f in s.fields {
        let ty = (f.ty)();
        let mut m = arb_mv(ty, r, 1);
        if matches!(m, MV::F64(b) if f64::from_bits(b).is_nan()) || matches!(m, MV::F32(b) if f32::from_bits(b).is_nan()) {
            m = if matches!(m, MV::F64(_)) { f64mv(0.25) } else { f32mv(0.25) };
        }
        if matches!(m, MV::Str(_)) {
            m = MV::Str(nasty(r));
        }
        if f.positional {
            // what starts with a dash is an option
            let mut t = text(&m);
            if t.starts_with('-') {
                m = match m {
                    MV::Str(s) => MV::Str(s.trim_start_matches('-').to_string()),
                    MV::F64(b) => f64mv(-f64::from_bits(b)),
                    MV::Int(i) => MV::Int(if i == i32::MIN as i128 { 7 } else { -i }),
                    m => m,
                };
                t = text(&m);
            }
            pos.push(vec![t]);
        } else {
            let name = match f.short {
                Some(ch) if r.chance(1, 2) => format!("-{ch}"),
                _ => format!("--{}", f.name),
            };
            match &m {
                MV::Bool(true) => opts.push(vec![name]),
                MV::Bool(false) => {}
                m => opts.push(vec![name, text(m)]),
            }
        }
        vals.push(m);
    }
    r.shuffle(&mut opts);
    // merge, keeping the positional arguments in order
    let mut out: Vec<String> = vec![];
    let (mut i, mut k) = (0, 0);
    while i < opts.len() || k < pos.len() {
        if i < opts.len() && (k == pos.len() || r.chance(1, 2)) {
            out.extend(opts[i].clone());
            i += 1;
        } else {
            out.extend(pos[k].clone());
            k += 1;
        }
    }
    (vals, out)
}
pub fn p16(c: &mut Ctx) {
    c.check_leaks = false;
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let s = &SPECS[r.below(SPECS.len())];
        let (vals, mut list) = make(s, &mut r);
        let bad: Option<&'static str> = if r.chance(1, 4) { spoil(s, &mut list, &mut r) } else { None };
        c.case(&format!("{}/{}", if bad.is_some() { "bad-args" } else { "args" }, s.name), &format!("{list:?}"), || {
            let l: Vec<&str> = list.iter().map(|x| x.as_str()).collect();
            match ((s.run)(&l), bad) {
                (Ok(v), None) => {
                    ensure!(v == vals, "value", "read as {v:?}, given {vals:?}");
                    cov!("argument lists read");
                    for (f, m) in s.fields.iter().zip(&v) {
                        match m {
                            MV::Bool(true) => cov!("flags given"),
                            MV::Bool(false) => cov!("flags not given"),
                            _ if f.positional => cov!("positional arguments read"),
                            _ => cov!("option values read"),
                        }
                    }
                }
                (Err(e), None) => bail!("refused", "{e}"),
                (Ok(v), Some(w)) => bail!("accepted", "{w}: read as {v:?}"),
                (Err(_), Some(_)) => cov!("wrong argument lists refused"),
            }
            Ok(())
        });
    }
}
/// make the list wrong in a way that leaves no room for interpretation
fn spoil(s: &Spec, list: &mut Vec<String>, r: &mut Rng) -> Option<&'static str> {
    let names: Vec<String> = s.fields.iter().filter(|f| !f.positional && !matches!(kind((f.ty)()), Kind::Scalar(SK::Bool))).map(|f| format!("--{}", f.name)).collect();
    match r.below(4) {
        0 => {
            list.insert(0, r.pick(&["--unknown", "--Verbose", "--verbos", "--no-such-thing"]).to_string());
            Some("unknown option")
        }
        1 => {
            // everything that is needed is missing
            if s.fields.iter().all(|f| matches!(kind((f.ty)()), Kind::Scalar(SK::Bool))) {
                return None;
            }
            list.clear();
            Some("nothing given")
        }
        2 if !names.is_empty() => {
            list.push(r.pick(&names).clone());
            Some("an option without its value")
        }
        _ => {
            let nums: Vec<&Opt> = s.fields.iter().filter(|f| matches!(kind((f.ty)()), Kind::Scalar(SK::Int { .. } | SK::F32 | SK::F64)) && !f.positional).collect();
            if nums.is_empty() {
                return None;
            }
            let f = *r.pick(&nums);
            let bad = *r.pick(&["", "x", "1x", " 1", "1 ", "0x1", "1_0", "--5", "999999999999999999999999999999999999999999999999x", "1,5", "٣"]);
            list.insert(0, bad.to_string());
            list.insert(0, format!("--{}", f.name));
            Some("not a number")
        }
    }
}

/// one list of arguments, good or bad, and what reading it gives
pub fn outcome(r: &mut Rng) -> String {
    let s = &SPECS[r.below(SPECS.len())];
    let (_, mut list) = make(s, r);
    if r.chance(1, 3) {
        spoil(s, &mut list, r);
    }
    let l: Vec<&str> = list.iter().map(|x| x.as_str()).collect();
    format!("{:?}", (s.run)(&l))
}
