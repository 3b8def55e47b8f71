//! P07: every ordered pair of types is offered to every place where one type meets another.
use crate::chars::{self, Native, Probe, V, Val};
use facet_core::{ConstTypeId, Def};
use facet_reflect::{HeapValue, Peek, ReflectError, Wip};
use fvl::ctx::*;
use fvl::{bail, cov, ensure, tr};
use std::hash::{Hash, Hasher};

/// an owned value whose contents will be moved out: only the memory is freed
fn moved(v: Val<'_>, f: impl FnOnce(*mut u8)) {
    let v = std::mem::ManuallyDrop::new(v);
    f(v.p() as *mut u8);
    // the memory, but not the value, is released
    let m = unsafe { std::ptr::read(&v.0) };
    drop(m);
}
fn heap(n: &Native, seed: u64) -> Result<HeapValue<'static>, Fail> {
    let v = Val::make(n, seed);
    let mut out = None;
    moved(v, |p| out = Some(unsafe { (n.x.put)(Wip::alloc_shape(n.shape), p) }));
    match out.unwrap().and_then(|w| w.build()) {
        Ok(h) => Ok(h),
        Err(e) => bail!("own-type-refused", "a value of the type itself was refused: {e}"),
    }
}
fn hash_of<T: Hash>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 = hash64(b) ^ self.0.rotate_left(7).wrapping_mul(31)
        }
    }
    let mut h = F(1);
    t.hash(&mut h);
    h.0
}
fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
fn pair(a: &Native, b: &Native, sa: u64, sb: u64) -> R {
    let same = a.x.tid == b.x.tid;
    let (s, t) = (a.shape, b.shape);
    // shapes
    ensure!((s == t) == same, "shape-equality", "shapes compare {}, the types are {}", s == t, if same { "the same" } else { "different" });
    ensure!((s.id == t.id) == same, "id-equality", "type ids compare {}", s.id == t.id);
    ensure!((s.id == b.x.tid) == same, "id-equality", "ConstTypeId against TypeId compares {}", s.id == b.x.tid);
    ensure!((s.id.cmp(&t.id) == std::cmp::Ordering::Equal) == same, "id-order", "type ids order as {:?}", s.id.cmp(&t.id));
    ensure!(s.is_shape(t) == same, "is-shape", "is_shape says {}", s.is_shape(t));
    ensure!((b.x.is_type)(s) == same, "is-type", "is_type says {}", (b.x.is_type)(s));
    ensure!(panics(|| (b.x.assert_type)(s)) != same, "assert-type", "assert_type {}", if same { "refuses the type itself" } else { "accepts another type" });
    ensure!(panics(|| s.assert_shape(t)) != same, "assert-shape", "assert_shape {}", if same { "refuses the type itself" } else { "accepts another type" });
    if same {
        ensure!(hash_of(s) == hash_of(t) && hash_of(&s.id) == hash_of(&t.id), "shape-hash", "equal shapes hash differently");
    }
    if same { cov!("pairs of one type") } else { cov!("pairs of two types") }
    // reads
    let (va, vb) = (Val::make(a, sa), Val::make(b, sb));
    let (pa, pb) = ((a.x.peek)(va.p()), (b.x.peek)(vb.p()));
    match (b.x.get)(pa) {
        Some(p) if same => ensure!(p == va.p(), "get-elsewhere", "get returned another place"),
        Some(_) => bail!("typed-read", "get returned a reference of another type"),
        None => {
            ensure!(!same, "own-type-refused", "get refused the value's own type");
            cov!("typed reads refused");
        }
    }
    // comparisons, both ways round
    for (p, q) in [(pa, pb), (pb, pa)] {
        let (e, o) = (Peek::eq(&p, &q), Peek::partial_cmp(&p, &q));
        if same {
            ensure!(e.is_none() || e == a.eq_at(p.data().as_byte_ptr(), q.data().as_byte_ptr()), "eq", "eq of one type is {e:?}");
        } else {
            ensure!(e != Some(true) && !(p == q), "compared", "values of different types compare equal: {e:?}");
            ensure!(o.is_none() && p.partial_cmp(&q).is_none() && std::cmp::PartialOrd::partial_cmp(&p, &q).is_none(), "ordered", "values of different types are ordered {o:?}");
            cov!("comparisons refused");
        }
        ensure!((p.id() == q.id()) == (same && p.data().as_byte_ptr() == q.data().as_byte_ptr()), "value-id", "identities compare {}", p.id() == q.id());
    }
    // a map's keys
    if let (Def::Map(d), Ok(m)) = (s.def, pa.into_map()) {
        let key = d.k.id == b.x.tid;
        let (h, g) = ((b.x.key_has)(&m, vb.p()), (b.x.key_get)(&m, vb.p()));
        ensure!(h == g.is_some(), "map-lookup", "contains_key says {h} and get {}", g.is_some());
        if !key {
            ensure!(!h, "map-lookup", "a key of another type was found");
            cov!("map lookups refused");
        } else {
            // the entries themselves decide
            let mut found = None;
            for (k, v) in m.iter() {
                if b.eq_at(k.data().as_byte_ptr(), vb.p()) == Some(true) {
                    found = Some(v.data().as_byte_ptr());
                }
            }
            ensure!(found == g, "map-lookup", "lookup found {g:?}, iteration {found:?}");
        }
    }
    drop(va);
    drop(vb);
    // owned values
    let (ha, hb) = (heap(a, sa)?, heap(b, sb)?);
    if !same {
        ensure!(ha != hb && ha.partial_cmp(&hb).is_none(), "compared", "owned values of different types compare equal or in order");
    }
    drop(hb);
    let o = chars::Mem::new(t);
    if unsafe { (b.x.materialize)(ha, o.0) } {
        drop(Val::own(o, b));
        ensure!(same, "extraction", "an owned value was extracted as another type");
        cov!("values extracted");
    } else {
        ensure!(!same, "own-type-refused", "extraction refused the value's own type");
        cov!("extractions refused");
    }
    // writes
    let w = Wip::alloc_shape(s);
    ensure!((b.x.is_current)(&w) == same, "current-is-type", "current_is_type says {}", (b.x.is_current)(&w));
    offer(w, b, sb, same)
}
/// put a value of type `b` where the builder stands
fn offer(w: Wip<'static>, b: &Native, sb: u64, same: bool) -> R {
    let place = w.shape();
    // documented: a T may be put into an Option<T>
    let wrapped = match place.def {
        Def::Option(d) => d.t().id == b.x.tid,
        _ => false,
    };
    tr!("put {} into {place}", b.shape);
    let v = Val::make(b, sb);
    let mut out: Option<Result<Wip<'static>, ReflectError>> = None;
    moved(v, |p| out = Some(unsafe { (b.x.put)(w, p) }));
    match out.unwrap() {
        Ok(_) if !same && !wrapped => bail!("write", "a {} was put into a {place}", b.shape),
        Err(e) if same || wrapped => bail!("own-type-refused", "putting a {} into a {place} failed: {e}", b.shape),
        Err(_) => cov!("writes refused"),
        Ok(w) => {
            if same { cov!("writes accepted") } else { cov!("values put into an option") }
            drop(w)
        }
    }
    // and by reference
    let v = Val::make(b, sb);
    if let Ok(_) = Wip::alloc_shape(place).put_peek((b.x.peek)(v.p())) {
        ensure!(same, "write", "a {} was copied into a {place}", b.shape);
        cov!("copies accepted");
    } else {
        cov!("copies refused");
    }
    Ok(())
}
/// walk a few steps into the builder of `a`, then offer a value of `b`
fn nested(a: &Native, b: &Native, sb: u64, r: &mut Rng) -> R {
    let mut w = Wip::alloc_shape(a.shape);
    for _ in 0..r.range(1, 3) {
        let n = match w.shape().def {
            Def::Struct(d) if !d.fields.is_empty() => {
                let i = r.below(d.fields.len());
                tr!("field {i}");
                w.field(i)
            }
            Def::Enum(d) if !d.variants.is_empty() => {
                let i = r.below(d.variants.len());
                let n = d.variants[i].data.fields.len();
                let j = r.below(n.max(1));
                tr!("variant {i} field {j}");
                let x = w.variant(i);
                if n == 0 { x } else { x.and_then(|w| w.field(j)) }
            }
            Def::List(_) => {
                tr!("push");
                w.put_empty_list().and_then(|w| w.begin_pushback()).and_then(|w| w.push())
            }
            Def::Map(_) => {
                tr!("key");
                w.put_empty_map().and_then(|w| w.begin_map_insert()).and_then(|w| w.push_map_key())
            }
            Def::Option(_) => {
                tr!("some");
                w.push_some()
            }
            _ => break,
        };
        match n {
            Ok(x) => w = x,
            Err(e) => {
                tr!("stop: {e}");
                return Ok(());
            }
        }
    }
    cov!("writes offered to inner places");
    let same = w.shape().id == b.x.tid;
    ensure!((b.x.is_current)(&w) == same, "current-is-type", "current_is_type says {}", (b.x.is_current)(&w));
    offer(w, b, sb, same)
}
/// one value seen as itself and as its first field: two identities
fn inner_ids(a: &Native, sa: u64) -> R {
    let v = Val::make(a, sa);
    let p = (a.x.peek)(v.p());
    if let Ok(s) = p.into_struct() {
        for (f, q) in s.fields() {
            ensure!(q.id() != p.id() || f.shape().id == a.x.tid, "value-id", "field {} has the identity of the whole value", f.name);
            cov!("inner identities compared");
        }
    }
    ensure!(p.id() == (a.x.peek)(v.p()).id(), "value-id", "a value differs from itself");
    ensure!(hash_of(&p.id()) == hash_of(&(a.x.peek)(v.p()).id()), "value-id", "one identity, two hashes");
    let _ = ConstTypeId::of::<V>();
    Ok(())
}
pub fn p07(c: &mut Ctx) {
    let mut ps: Vec<Probe> = chars::probes();
    ps.extend(chars::lookalikes());
    let mut r = c.rng(7);
    // every ordered pair once, in an order of the seed's own, then pairs at random
    let n = ps.len();
    let mut pairs: Vec<(u16, u16)> = (0..n * n).map(|k| ((k / n) as u16, (k % n) as u16)).collect();
    Rng::new(c.seed ^ 77).shuffle(&mut pairs);
    let mine: Vec<(u16, u16)> = pairs.into_iter().enumerate().filter(|(k, _)| c.mine(*k)).map(|(_, p)| p).collect();
    let mut done = 0;
    let mut k = 0;
    while c.time_left() {
        let (i, j) = if k < mine.len() { mine[k] } else { (r.below(n) as u16, if r.chance(1, 4) { 0 } else { r.below(n) as u16 }) };
        k += 1;
        let (i, mut j) = (i as usize, j as usize);
        if k > mine.len() && r.chance(1, 4) {
            j = i;
        }
        let (a, b) = (&ps[i], &ps[j]);
        let (sa, sb) = (r.next() % 97, r.next() % 97);
        c.case(&format!("{}~{}", short(a.name), short(b.name)), &format!("{} seed {sa} with {} seed {sb}", a.name, b.name), || pair(&a.n, &b.n, sa, sb));
        let sn = r.next();
        c.case(&format!("in {}~{}", short(a.name), short(b.name)), &format!("inside {} put {} seed {sb}, path {sn}", a.name, b.name), || nested(&a.n, &b.n, sb, &mut Rng::new(sn)));
        if r.chance(1, 8) {
            c.case(&format!("ids {}", short(a.name)), &format!("{} seed {sa}", a.name), || inner_ids(&a.n, sa));
        }
        done += 1;
    }
    if done >= mine.len() {
        cov!("shards that offered every pair of theirs");
    }
}
fn short(s: &str) -> String {
    s.replace("crate::chars::", "").replace(' ', "")
}
