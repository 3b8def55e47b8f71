//! An independent MessagePack reader, writer and decoder (written from the specification).
use crate::ctx::Rng;
use crate::jref::Dec;
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Nil,
    Bool(bool),
    UInt(u64),
    Neg(i64),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Arr(Vec<M>),
    Map(Vec<(M, M)>),
    Ext(u8, Vec<u8>),
}
pub fn depth(m: &M) -> usize {
    match m {
        M::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        M::Map(v) => 1 + v.iter().map(|(a, b)| depth(a).max(depth(b))).max().unwrap_or(0),
        _ => 0,
    }
}
pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
/// the first value and where it ends
pub fn parse(b: &[u8]) -> Result<(M, usize), String> {
    let mut p = P { b, i: 0 };
    let m = p.value(0)?;
    Ok((m, p.i))
}
impl P<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], String> {
        if self.b.len() - self.i < n {
            return Err(format!("truncated at {}", self.i));
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn be(&mut self, n: usize) -> Result<u64, String> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn arr(&mut self, n: u64, d: usize) -> Result<M, String> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.value(d + 1)?);
        }
        Ok(M::Arr(v))
    }
    fn map(&mut self, n: u64, d: usize) -> Result<M, String> {
        let mut v = vec![];
        for _ in 0..n {
            v.push((self.value(d + 1)?, self.value(d + 1)?));
        }
        Ok(M::Map(v))
    }
    fn int(v: i64) -> M {
        if v < 0 { M::Neg(v) } else { M::UInt(v as u64) }
    }
    fn ext(&mut self, n: u64) -> Result<M, String> {
        let t = self.be(1)? as u8;
        Ok(M::Ext(t, self.take(n as usize)?.to_vec()))
    }
    fn value(&mut self, d: usize) -> Result<M, String> {
        if d > 3000 {
            return Err("reference: too deep".into());
        }
        let t = self.be(1)? as u8;
        Ok(match t {
            0x00..=0x7f => M::UInt(t as u64),
            0x80..=0x8f => self.map((t & 15) as u64, d)?,
            0x90..=0x9f => self.arr((t & 15) as u64, d)?,
            0xa0..=0xbf => M::Str(self.take((t & 31) as usize)?.to_vec()),
            0xc0 => M::Nil,
            0xc1 => return Err("the byte c1 is never used".into()),
            0xc2 => M::Bool(false),
            0xc3 => M::Bool(true),
            0xc4 | 0xc5 | 0xc6 => {
                let n = self.be(1 << (t - 0xc4))?;
                M::Bin(self.take(n as usize)?.to_vec())
            }
            0xc7 | 0xc8 | 0xc9 => {
                let n = self.be(1 << (t - 0xc7))?;
                self.ext(n)?
            }
            0xca => M::F32(self.be(4)? as u32),
            0xcb => M::F64(self.be(8)?),
            0xcc..=0xcf => M::UInt(self.be(1 << (t - 0xcc))?),
            0xd0 => Self::int(self.be(1)? as i8 as i64),
            0xd1 => Self::int(self.be(2)? as i16 as i64),
            0xd2 => Self::int(self.be(4)? as i32 as i64),
            0xd3 => Self::int(self.be(8)? as i64),
            0xd4..=0xd8 => self.ext(1 << (t - 0xd4))?,
            0xd9 | 0xda | 0xdb => {
                let n = self.be(1 << (t - 0xd9))?;
                M::Str(self.take(n as usize)?.to_vec())
            }
            0xdc => {
                let n = self.be(2)?;
                self.arr(n, d)?
            }
            0xdd => {
                let n = self.be(4)?;
                self.arr(n, d)?
            }
            0xde => {
                let n = self.be(2)?;
                self.map(n, d)?
            }
            0xdf => {
                let n = self.be(4)?;
                self.map(n, d)?
            }
            0xe0..=0xff => M::Neg(t as i8 as i64),
        })
    }
}
/// writes a value, choosing any of the formats the specification allows for it
pub fn write(m: &M, r: &mut Rng, out: &mut Vec<u8>) {
    fn len(out: &mut Vec<u8>, r: &mut Rng, n: usize, fix: Option<(u8, usize)>, fam: &[(u8, u32)]) {
        let mut c: Vec<(u8, u32)> = fam.iter().copied().filter(|(_, bytes)| *bytes == 4 || n < 1 << (8 * bytes)).collect();
        if let Some((_, lim)) = fix {
            if n <= lim {
                c.push((0, 0));
                c.push((0, 0));
            }
        }
        let (tag, bytes) = *r.pick(&c);
        if bytes == 0 {
            out.push(fix.unwrap().0 | n as u8);
        } else {
            out.push(tag);
            out.extend_from_slice(&(n as u64).to_be_bytes()[8 - bytes as usize..]);
        }
    }
    match m {
        M::Nil => out.push(0xc0),
        M::Bool(b) => out.push(0xc2 + *b as u8),
        M::UInt(v) => {
            let mut c: Vec<u8> = vec![0xcf];
            if *v < 128 {
                c.extend([0, 0]);
            }
            for (tag, bits) in [(0xcc, 8), (0xcd, 16), (0xce, 32), (0xd0, 7), (0xd1, 15), (0xd2, 31), (0xd3, 63)] {
                if *v < 1u64 << bits {
                    c.push(tag);
                }
            }
            let t = *r.pick(&c);
            let n = match t {
                0 => return out.push(*v as u8),
                0xcc..=0xcf => 1 << (t - 0xcc),
                _ => 1 << (t - 0xd0),
            };
            out.push(t);
            out.extend_from_slice(&v.to_be_bytes()[8 - n..]);
        }
        M::Neg(v) => {
            let mut c: Vec<u8> = vec![0xd3];
            if *v >= -32 {
                c.extend([0, 0]);
            }
            for (tag, min) in [(0xd0, i8::MIN as i64), (0xd1, i16::MIN as i64), (0xd2, i32::MIN as i64)] {
                if *v >= min {
                    c.push(tag);
                }
            }
            let t = *r.pick(&c);
            if t == 0 {
                return out.push(*v as u8);
            }
            out.push(t);
            out.extend_from_slice(&v.to_be_bytes()[8 - (1 << (t - 0xd0))..]);
        }
        M::F32(b) => {
            out.push(0xca);
            out.extend_from_slice(&b.to_be_bytes());
        }
        M::F64(b) => {
            out.push(0xcb);
            out.extend_from_slice(&b.to_be_bytes());
        }
        M::Str(s) => {
            len(out, r, s.len(), Some((0xa0, 31)), &[(0xd9, 1), (0xda, 2), (0xdb, 4)]);
            out.extend_from_slice(s);
        }
        M::Bin(s) => {
            len(out, r, s.len(), None, &[(0xc4, 1), (0xc5, 2), (0xc6, 4)]);
            out.extend_from_slice(s);
        }
        M::Ext(t, s) => {
            if matches!(s.len(), 1 | 2 | 4 | 8 | 16) && r.chance(1, 2) {
                out.push(0xd4 + s.len().trailing_zeros() as u8);
            } else {
                len(out, r, s.len(), None, &[(0xc7, 1), (0xc8, 2), (0xc9, 4)]);
            }
            out.push(*t);
            out.extend_from_slice(s);
        }
        M::Arr(v) => {
            len(out, r, v.len(), Some((0x90, 15)), &[(0xdc, 2), (0xdd, 4)]);
            v.iter().for_each(|x| write(x, r, out));
        }
        M::Map(v) => {
            len(out, r, v.len(), Some((0x80, 15)), &[(0xde, 2), (0xdf, 4)]);
            for (k, x) in v {
                write(k, r, out);
                write(x, r, out);
            }
        }
    }
}
pub fn arb_m(r: &mut Rng, d: usize) -> M {
    match r.below(if d == 0 { 9 } else { 12 }) {
        0 => M::Nil,
        1 => M::Bool(r.chance(1, 2)),
        2 => M::UInt(arb_int(r, 64, false) as u64),
        3 => {
            let v = arb_int(r, 64, true) as i64;
            if v < 0 { M::Neg(v) } else { M::UInt(v as u64) }
        }
        4 => M::F32(r.next() as u32),
        5 => M::F64(arb_f64(r).to_bits()),
        6 => M::Str(arb_string(r).into_bytes()),
        7 => M::Bin((0..r.below(40)).map(|_| r.next() as u8).collect()),
        8 => {
            let n = *r.pick(&[0, 1, 2, 3, 4, 7, 8, 16, 17, 300]);
            M::Ext(r.next() as u8, (0..n).map(|_| r.next() as u8).collect())
        }
        9 => M::Arr((0..*r.pick(&[0usize, 1, 2, 15, 16])).map(|_| arb_m(r, d - 1)).collect()),
        _ => M::Map((0..*r.pick(&[0usize, 1, 2, 15, 16])).map(|_| (if r.chance(1, 2) { M::Str(arb_string(r).into_bytes()) } else { arb_m(r, 0) }, arb_m(r, d - 1))).collect()),
    }
}
/// the message for a value
pub fn tree(ty: T, m: &MV) -> M {
    match (kind(ty), m) {
        (_, MV::Bool(b)) => M::Bool(*b),
        (_, MV::Int(i)) if *i < 0 => i64::try_from(*i).map_or(M::Nil, M::Neg),
        (_, MV::Int(i)) => u64::try_from(*i).map_or(M::Nil, M::UInt),
        (_, MV::Str(s)) => M::Str(s.as_bytes().to_vec()),
        (_, MV::F32(b)) => M::F32(*b),
        (_, MV::F64(b)) => M::F64(*b),
        (Kind::Struct(d), MV::Struct(v)) => M::Map(v.iter().zip(d.fields).map(|(x, f)| (M::Str(f.name.into()), tree((f.ty)(), x))).collect()),
        _ => M::Nil,
    }
}
/// does the writer support the type?
pub fn supported(ty: T) -> bool {
    match kind(ty) {
        Kind::Scalar(SK::Int { bits, nonzero, ptr, .. }) => bits <= 64 && !nonzero && !ptr,
        Kind::Scalar(SK::Str | SK::Bool) => true,
        Kind::Struct(d) => d.fields.iter().all(|f| supported((f.ty)())),
        _ => false,
    }
}
pub fn decode(ty: T, m: &M) -> Dec {
    macro_rules! err { ($($a:tt)*) => { return Dec::Err(format!($($a)*)) } }
    match (kind(ty), m) {
        (Kind::Scalar(SK::Bool), M::Bool(b)) => Dec::Ok(MV::Bool(*b)),
        (Kind::Scalar(SK::Str), M::Str(s)) => match String::from_utf8(s.clone()) {
            Ok(s) => Dec::Ok(MV::Str(s)),
            Err(_) => err!("invalid UTF-8"),
        },
        (Kind::Scalar(SK::Int { bits, signed, nonzero, ptr }), M::UInt(_) | M::Neg(_)) => {
            let (neg, v) = match m {
                M::UInt(v) => (false, *v as u128),
                M::Neg(v) => (true, v.unsigned_abs() as u128),
                _ => unreachable!(),
            };
            match crate::jref::int_fits(neg, v, bits, signed, nonzero) {
                // sizes, 128 bits and the non-zero types are not supported by the reader
                Some(m) if bits > 64 || nonzero || ptr => Dec::Maybe(m),
                Some(m) => Dec::Ok(m),
                None => err!("out of range"),
            }
        }
        (Kind::Scalar(SK::F64), M::F64(b)) => Dec::Maybe(f64mv(f64::from_bits(*b))),
        (Kind::Scalar(SK::F64 | SK::F32 | SK::Char | SK::Unit | SK::Tok), _) => Dec::Any,
        (Kind::Scalar(_), _) => err!("wrong type for {}", ty.name),
        (Kind::Struct(d), M::Map(v)) => {
            let mut out: Vec<Option<MV>> = d.fields.iter().map(|_| None).collect();
            let (mut any, mut maybe, mut bad) = (false, false, None);
            for (k, x) in v {
                let M::Str(k) = k else { return Dec::Any };
                let Ok(k) = std::str::from_utf8(k) else { return Dec::Any };
                let Some(i) = d.fields.iter().position(|f| f.name == k) else { continue };
                if out[i].is_some() {
                    return Dec::Any;
                }
                out[i] = Some(match decode((d.fields[i].ty)(), x) {
                    Dec::Ok(m) => m,
                    Dec::Maybe(m) => {
                        maybe = true;
                        m
                    }
                    Dec::Any => {
                        any = true;
                        MV::Unit
                    }
                    Dec::Err(e) => {
                        bad = Some(e);
                        MV::Unit
                    }
                });
            }
            if let Some(e) = bad {
                return Dec::Err(e);
            }
            if let Some(i) = out.iter().position(|x| x.is_none()) {
                if d.default.is_some() || d.fields[i].default.is_some() {
                    return Dec::Any;
                }
                err!("missing field {}", d.fields[i].name);
            }
            if any {
                return Dec::Any;
            }
            let m = MV::Struct(out.into_iter().map(|x| x.unwrap()).collect());
            if maybe { Dec::Maybe(m) } else { Dec::Ok(m) }
        }
        (Kind::Struct(_), _) => err!("not a map"),
        _ => Dec::Any,
    }
}
