//! P11, P12 and the MessagePack part of P22.
use fvl::ctx::*;
use fvl::jref::Dec;
use fvl::model::*;
use fvl::mref::{self, M};
use fvl::zoo::ZOO;
use fvl::{bail, cov, ensure, mon};

pub fn types() -> Vec<T> {
    use fvl::zoo::*;
    let mut v: Vec<T> = ZOO.iter().filter(|(_, t)| t.contains('m')).map(|(t, _)| *t).collect();
    v.extend([
        u8::FNS, u16::FNS, u32::FNS, u64::FNS, i8::FNS, i16::FNS, i32::FNS, i64::FNS, usize::FNS, isize::FNS, i128::FNS, bool::FNS, String::FNS, f64::FNS, f32::FNS, char::FNS, Flat::FNS,
        New::FNS, EmptyS::FNS, UnitS::FNS, <Option<u32> as Model>::FNS, <Vec<u8> as Model>::FNS, Mixed::FNS, Opts::FNS, UnitE::FNS, Maps::FNS,
    ]);
    v
}
fn hex(b: &[u8]) -> String {
    let n = b.len().min(300);
    let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if n < b.len() {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}
pub fn arb_mv(t: T, r: &mut Rng, d: usize) -> MV {
    let mut m = MV::Unit;
    (t.with)(r, d, &mut |_, x| m = x);
    m
}
const DEEP: usize = 400;
pub fn judge(ty: T, doc: &[u8], what: &Dec, deep: bool) -> R {
    let base = mon::reset_peak();
    let got = (ty.de_msgpack)(doc);
    let grown = mon::peak() - base;
    // every value built, the error and its text, and some room
    let limit = 64 * doc.len() as i64 + (1 << 16);
    ensure!(cfg!(miri) || grown <= limit, "memory", "{} byte(s) of input made the reader hold {grown} bytes", doc.len());
    match (what, got) {
        (_, Err(p)) => bail!("panic", "panicked: {p}"),
        (Dec::Any, Ok(r)) => {
            if r.is_ok() {
                cov!("unspecified messages read")
            } else {
                cov!("unspecified messages refused")
            }
        }
        (Dec::Maybe(_), Ok(Err(_))) => cov!("messages of unsupported types refused"),
        (Dec::Ok(m) | Dec::Maybe(m), Ok(Ok(g))) => {
            cov!("messages read");
            ensure!(*m == g, "value", "read as {g:?}, denotes {m:?}");
        }
        (Dec::Ok(_), Ok(Err(_))) if deep => cov!("deep messages refused"),
        (Dec::Ok(m), Ok(Err(e))) => bail!("refused", "denotes {m:?} but refused: {e}"),
        (Dec::Err(_), Ok(Err(e))) => {
            cov!("messages refused as they should be");
            ensure!(!e.is_empty(), "error-text", "empty error text");
        }
        (Dec::Err(w), Ok(Ok(g))) => bail!("accepted", "should be refused ({w}) but read as {g:?}"),
    }
    Ok(())
}
pub fn expect(ty: T, doc: &[u8]) -> (Dec, bool) {
    match mref::parse(doc) {
        Err(e) if e.contains("too deep") => (Dec::Any, true),
        Err(e) => (Dec::Err(e), false),
        Ok((m, n)) => {
            let d = mref::decode(ty, &m);
            // what to do with input after the message is left open
            let d = match d {
                Dec::Ok(m) if n < doc.len() => Dec::Maybe(m),
                d => d,
            };
            (d, mref::depth(&m) > DEEP)
        }
    }
}
pub fn mutate(m: &mut M, r: &mut Rng, names: &[String]) {
    match m {
        M::Map(v) if r.chance(9, 10) => {
            let n = v.len();
            if n > 0 && r.chance(1, 2) {
                let i = r.below(n);
                return mutate(&mut v[i].1, r, names);
            }
            match r.below(6) {
                0 if n > 0 => {
                    v.remove(r.below(n));
                }
                1 | 2 => {
                    let k = if r.chance(1, 6) && !names.is_empty() { M::Str(r.pick(names).clone().into_bytes()) } else { M::Str(arb_string(r).into_bytes()) };
                    let at = r.below(n + 1);
                    v.insert(at, (k, mref::arb_m(r, 3)));
                }
                3 if n > 0 => {
                    let i = r.below(n);
                    v[i].0 = if r.chance(1, 4) { mref::arb_m(r, 1) } else { M::Str(arb_string(r).into_bytes()) };
                }
                _ => r.shuffle(v),
            }
        }
        M::UInt(_) | M::Neg(_) if r.chance(3, 4) => {
            let bits = *r.pick(&[8, 16, 32, 64]);
            let v = arb_int(r, bits, r.clone().chance(1, 2));
            *m = if v < 0 { M::Neg(v as i64) } else { M::UInt(v as u64) };
        }
        m => *m = mref::arb_m(r, 2),
    }
}
pub fn p11(c: &mut Ctx) {
    c.check_leaks = false;
    let types = types();
    LONG.with(|n| n.set(true));
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = *r.pick(&types);
        let d = r.range(0, 3);
        if r.chance(1, 3) {
            let rr = r.clone();
            c.case(&format!("write/{}", (ty.tn)()), &format!("depth {d} seed {} shard {} case {n}", c.seed, c.shard), || {
                let mut r = rr.clone();
                let (m, out) = (ty.msgpack_out)(&mut r, d);
                match out {
                    Err(p) => {
                        cov!("values of unsupported types");
                        ensure!(!mref::supported(ty), "panic", "to_vec panicked on {m:?}: {p}");
                    }
                    Ok(b) => {
                        cov!("values written");
                        let (t, used) = match mref::parse(&b) {
                            Ok(x) => x,
                            Err(e) => bail!("malformed", "{m:?} written as {}: {e}", hex(&b)),
                        };
                        ensure!(used == b.len(), "malformed", "{m:?} written as {}: only {used} byte(s) are one message", hex(&b));
                        ensure!(t == mref::tree(ty, &m), "value", "{m:?} written as {t:?} = {}", hex(&b));
                        if mref::supported(ty) {
                            cov!("round trips");
                            match (ty.de_msgpack)(&b) {
                                Ok(Ok(g)) => ensure!(g == m, "roundtrip", "{m:?} came back as {g:?} through {}", hex(&b)),
                                o => bail!("roundtrip", "{m:?} came back as {o:?} through {}", hex(&b)),
                            }
                        }
                    }
                }
                Ok(())
            });
            continue;
        }
        let m = arb_mv(ty, &mut r, d);
        let mut t = mref::tree(ty, &m);
        let mut names = vec![];
        fvl::jref::names(ty, &mut names, 3);
        for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) {
            mutate(&mut t, &mut r, &names);
        }
        shuffle(&mut t, &mut r);
        let mut doc = vec![];
        mref::write(&t, &mut r, &mut doc);
        let (what, deep) = expect(ty, &doc);
        c.case(&format!("read/{}", (ty.tn)()), &hex(&doc), || {
            match mref::parse(&doc) {
                Ok((k, n)) if n == doc.len() && format!("{k:?}") == format!("{t:?}") => {}
                o => panic!("reference: {o:?} for {t:?}"),
            }
            judge(ty, &doc, &what, deep)
        });
    }
    LONG.with(|n| n.set(false));
}
fn shuffle(m: &mut M, r: &mut Rng) {
    if let M::Map(v) = m {
        r.shuffle(v);
        v.iter_mut().for_each(|(_, x)| shuffle(x, r));
    }
}
pub fn corrupt(doc: &mut Vec<u8>, r: &mut Rng) {
    let n = doc.len();
    const TAGS: &[u8] = &[0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff];
    match r.below(8) {
        0 | 1 => doc.truncate(r.below(n + 1)),
        2 if n > 0 => {
            let i = r.below(n);
            doc[i] ^= 1 << r.below(8);
        }
        3 | 4 if n > 0 => {
            let i = r.below(n);
            doc[i] = *r.pick(TAGS);
        }
        5 if n > 0 => {
            doc.remove(r.below(n));
        }
        6 => {
            // a huge declared length
            let at = r.below(n + 1);
            let t = *r.pick(&[0xdbu8, 0xdd, 0xdf, 0xc6, 0xc9, 0xda, 0xdc, 0xde]);
            doc.splice(at..at, [t, 0xff, 0xff, 0xff, 0xff]);
        }
        _ => {
            let at = r.below(n + 1);
            let t = *r.pick(TAGS);
            doc.splice(at..at, [t]);
        }
    }
}
fn p12_case(c: &mut Ctx, ty: T, doc: &[u8], kind: &str) {
    let (what, deep) = expect(ty, doc);
    let cut = matches!(&what, Dec::Err(e) if e.starts_with("truncated"));
    c.case(&format!("{kind}/{}", (ty.tn)()), &hex(doc), || {
        if cut {
            cov!("truncated messages");
        }
        judge(ty, doc, &what, deep)
    });
}
pub fn p12(c: &mut Ctx) {
    c.check_leaks = false;
    let types = types();
    let mut k = 0;
    for ty in &types[..if cfg!(miri) { 2 } else { types.len() }] {
        // every short input: one byte, and every tag with every truncation behind an unknown key
        for b in 0..=255u8 {
            k += 1;
            if !c.mine(k) || cfg!(miri) && (b % 5 != 0 && b < 0xc0 || !c.time_left()) {
                continue;
            }
            for tail in [&[][..], &[0u8; 3][..], &[0xff; 4][..], &[0xffu8; 9][..], &[0x81; 8][..], &[0u8; 40][..]] {
                let mut doc = vec![b];
                doc.extend_from_slice(tail);
                p12_case(c, *ty, &doc, "tag");
                let mut doc = vec![0x81, 0xa2, b'z', b'z', b];
                doc.extend_from_slice(tail);
                p12_case(c, *ty, &doc, "tag");
                let mut doc = vec![0x81, 0xa1, b'a', b];
                doc.extend_from_slice(tail);
                p12_case(c, *ty, &doc, "tag");
            }
        }
        for &depth in if cfg!(miri) { &[30usize][..] } else { &[100usize, 1000, 20_000, 500_000] } {
            for pre in [&[0x91u8][..], &[0x81, 0xa1, b'x'][..], &[0x81, 0x91][..], &[0xdd, 0, 0, 0, 1][..], &[0xdf, 0, 0, 0, 1, 0xc0][..], &[0x92][..]] {
                k += 1;
                if !c.mine(k) {
                    continue;
                }
                let mut doc = vec![];
                for _ in 0..depth {
                    doc.extend_from_slice(pre);
                }
                doc.push(0xc0);
                p12_case(c, *ty, &doc, "nest");
                let mut d2 = vec![0x81, 0xa2, b'z', b'z'];
                d2.extend_from_slice(&doc);
                p12_case(c, *ty, &d2, "nest");
            }
        }
    }
    cov!("tags and nesting swept");
    c.start = std::time::Instant::now();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let ty = *r.pick(&types);
        if r.chance(1, 10) {
            let doc: Vec<u8> = (0..r.below(40)).map(|_| if r.chance(1, 2) { *r.pick(b"\x81\x82\xa1ab\xdf\xdd\xdb\xcf\x00") } else { r.next() as u8 }).collect();
            p12_case(c, ty, &doc, "random");
            continue;
        }
        let d = r.range(0, 3);
        let m = arb_mv(ty, &mut r, d);
        let mut t = mref::tree(ty, &m);
        if r.chance(1, 3) {
            let mut names = vec![];
            fvl::jref::names(ty, &mut names, 3);
            mutate(&mut t, &mut r, &names);
        }
        let mut doc = vec![];
        mref::write(&t, &mut r, &mut doc);
        if r.chance(1, 12) && doc.len() < 300 {
            for k in 0..doc.len() {
                p12_case(c, ty, &doc[..k], "truncated");
            }
            cov!("messages truncated everywhere");
            continue;
        }
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            corrupt(&mut doc, &mut r);
        }
        p12_case(c, ty, &doc, "corrupt");
    }
}
