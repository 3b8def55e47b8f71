//! P06: lists, maps, options, arrays, slices and smart pointers operated through their shapes,
//! against the native container and a model.
use crate::chars::Mem;
use facet_core::{Def, Facet, KnownSmartPointer, MapDef, Opaque, PtrConst, PtrMut, PtrUninit, Shape, SmartPointerFlags};
use fvl::ctx::*;
use fvl::model::*;
use fvl::mon::Tok;
use fvl::zoo;
use fvl::{bail, cov, ensure, tr};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
use std::num::NonZero;
use std::sync::{Arc, Weak};

/// an element type, erased
struct El {
    shape: &'static Shape,
    make: unsafe fn(&mut Rng, *mut u8) -> MV,
    mv: unsafe fn(*const u8) -> MV,
    drop: unsafe fn(*mut u8),
}
impl El {
    const fn of<E: Model>() -> El {
        El {
            shape: E::SHAPE,
            make: |r, p| unsafe {
                let v = E::arb(r, 2);
                let m = v.to_mv();
                (p as *mut E).write(v);
                m
            },
            mv: |p| unsafe { (*(p as *const E)).to_mv() },
            drop: |p| unsafe { std::ptr::drop_in_place(p as *mut E) },
        }
    }
    /// a value in memory of its own, to be moved out of
    fn new(&self, r: &mut Rng) -> (Mem, MV) {
        let m = Mem::new(self.shape);
        let v = unsafe { (self.make)(r, m.0) };
        (m, v)
    }
}
fn get(e: &El, p: PtrConst<'_>) -> MV {
    unsafe { (e.mv)(p.as_byte_ptr()) }
}
fn must_panic<X>(what: &str, f: impl FnOnce() -> X) -> R {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ensure!(r.is_err(), "out-of-range", "{what} returned instead of refusing");
    cov!("out-of-range accesses refused");
    Ok(())
}
fn far(r: &mut Rng, len: usize) -> usize {
    match r.below(5) {
        0 => len,
        1 => len + 1,
        2 => usize::MAX,
        3 => len + r.below(1000),
        _ => usize::MAX / 2 + r.below(9),
    }
}
/// a container in memory of its own
struct Own<'a> {
    m: Mem,
    s: &'static Shape,
    live: bool,
    _p: std::marker::PhantomData<&'a ()>,
}
impl Own<'_> {
    fn new(s: &'static Shape) -> Self {
        Own { m: Mem::new(s), s, live: false, _p: Default::default() }
    }
}
impl Drop for Own<'_> {
    fn drop(&mut self) {
        if self.live {
            // erased drop
            unsafe { (self.s.vtable.drop_in_place.unwrap())(self.m.m()) };
        }
    }
}

// ---------------------------------------------------------------- lists
fn list<E: Model>(seed: u64, big: bool) -> R {
    static_list(<Vec<E> as Facet>::SHAPE, &El::of::<E>(), seed, big, &|p| unsafe { (*(p as *const Vec<E>)).to_mv() }, &|p, i| unsafe {
        let v = &*(p as *const Vec<E>);
        (v.as_ptr() as *const u8).wrapping_add(i * std::mem::size_of::<E>())
    })
}
fn static_list(s: &'static Shape, e: &El, seed: u64, big: bool, snap: &dyn Fn(*const u8) -> MV, addr: &dyn Fn(*const u8, usize) -> *const u8) -> R {
    let r = &mut Rng::new(seed);
    let Def::List(d) = s.def else { bail!("def", "{s} is not a list") };
    ensure!(d.t() == e.shape, "def", "element shape of {s} is {}", d.t());
    let mut own = Own::new(s);
    let cap = *r.pick(&[0, 1, 2, 3, 7, 16]);
    unsafe {
        let p = match (d.vtable.init_in_place_with_capacity, s.vtable.default_in_place, r.below(3)) {
            (Some(f), _, 0 | 1) => f(own.m.uninit(), cap),
            (_, Some(f), _) => f(own.m.uninit()),
            (Some(f), ..) => f(own.m.uninit(), cap),
            _ => bail!("def", "{s} cannot be created"),
        };
        own.live = true;
        ensure!(p.as_byte_ptr() == own.m.0 as *const u8, "init", "initialised another place");
    }
    let mut model: Vec<MV> = vec![];
    let n = if big { 200 } else { r.range(1, 40) };
    for _ in 0..n {
        match r.below(if big { 4 } else { 9 }) {
            0..=3 => {
                let (m, v) = e.new(r);
                tr!("push {v:?}");
                unsafe { (d.vtable.push)(own.m.m(), PtrMut::new(m.0)) };
                model.push(v);
                cov!("list pushes");
            }
            4 | 5 if !model.is_empty() => {
                let i = r.below(model.len());
                let p = unsafe { (d.vtable.get_item_ptr)(own.m.c(), i) };
                ensure!(p.as_byte_ptr() == addr(own.m.0, i), "item", "item {i} of {} is elsewhere", model.len());
                ensure!(get(e, p) == model[i], "item", "item {i} is {:?}, pushed {:?}", get(e, p), model[i]);
                cov!("list items read");
            }
            6 => {
                let i = far(r, model.len());
                must_panic(&format!("get_item_ptr({i}) of {}", model.len()), || unsafe { (d.vtable.get_item_ptr)(own.m.c(), i) })?;
            }
            7 => {
                if let Some(cl) = s.vtable.clone_into {
                    // carry on with the clone, drop the original
                    let mut c = Own::new(s);
                    unsafe { cl(own.m.c(), c.m.uninit()) };
                    c.live = true;
                    tr!("clone");
                    std::mem::swap(&mut own, &mut c);
                    cov!("containers cloned");
                }
            }
            _ => {}
        }
        let l = unsafe { (d.vtable.len)(own.m.c()) };
        ensure!(l == model.len(), "len", "len is {l}, {} pushed", model.len());
    }
    let got = snap(own.m.0);
    ensure!(got == MV::List(model.clone()), "content", "list holds {got:?}, pushed {model:?}");
    for (i, v) in model.iter().enumerate() {
        let p = unsafe { (d.vtable.get_item_ptr)(own.m.c(), i) };
        ensure!(get(e, p) == *v, "item", "item {i} is {:?}, pushed {v:?}", get(e, p));
    }
    cov!("lists driven");
    Ok(())
}

// ---------------------------------------------------------------- arrays and slices
fn array<E: Model, const N: usize>(seed: u64) -> R {
    let r = &mut Rng::new(seed);
    let a: [E; N] = std::array::from_fn(|_| E::arb(r, 1));
    let e = El::of::<E>();
    let s = <[E; N] as Facet>::SHAPE;
    let Def::Array(d) = s.def else { bail!("def", "{s} is not an array") };
    ensure!(d.n == N && d.t() == e.shape, "def", "array shape {} x {}", d.t(), d.n);
    let ptrs: Vec<_> = a.iter().map(|x| x as *const E as *const u8).collect();
    items("array", &ptrs, &e, r, &|i| unsafe { (d.vtable.get_item_ptr)(PtrConst::new(&a), i) })
}
fn slice<E: Model>(seed: u64) -> R {
    let r = &mut Rng::new(seed);
    let n = *r.pick(&[0, 1, 2, 3, 9]);
    let owned: Vec<E> = (0..n + 2).map(|_| E::arb(r, 1)).collect();
    let a: &[E] = &owned[1..1 + n];
    // the shape is that of the same type with another lifetime
    let e = El::of::<E>();
    let s = <&'static [E] as Facet>::SHAPE;
    let Def::Slice(d) = s.def else { bail!("def", "{s} is not a slice") };
    ensure!(d.t() == e.shape, "def", "slice of {}", d.t());
    let l = unsafe { (d.vtable.len)(PtrConst::new(&a)) };
    ensure!(l == n, "len", "len is {l}, should be {n}");
    let ptrs: Vec<_> = a.iter().map(|x| x as *const E as *const u8).collect();
    items("slice", &ptrs, &e, r, &|i| unsafe { (d.vtable.get_item_ptr)(PtrConst::new(&a), i) })
}
fn items(what: &str, ptrs: &[*const u8], e: &El, r: &mut Rng, f: &dyn Fn(usize) -> PtrConst<'static>) -> R {
    for (i, p) in ptrs.iter().enumerate() {
        let q = f(i);
        ensure!(q.as_byte_ptr() == *p, "item", "{what} item {i} is elsewhere");
        let _ = get(e, q);
        cov!("array and slice items read");
    }
    let i = far(r, ptrs.len());
    must_panic(&format!("{what} get_item_ptr({i}) of {}", ptrs.len()), || f(i))
}

// ---------------------------------------------------------------- maps
/// a hasher that makes collisions
#[derive(Default, Clone)]
pub struct Bad;
pub struct BadH(u64);
impl BuildHasher for Bad {
    type Hasher = BadH;
    fn build_hasher(&self) -> BadH {
        BadH(0)
    }
}
impl Hasher for BadH {
    fn finish(&self) -> u64 {
        self.0 & 3
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_add(hash64(b));
    }
}
unsafe impl Facet for Bad {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(facet_core::ConstTypeId::of::<Bad>())
            .layout(std::alloc::Layout::new::<Bad>())
            .vtable(facet_core::value_vtable!(Bad, |f, _| write!(f, "Bad")))
            .def(Def::Scalar(facet_core::ScalarDef::builder().affinity(facet_core::ScalarAffinity::opaque().build()).build()))
            .build()
    };
}
struct MapN<'a> {
    snap: &'a dyn Fn(*const u8) -> MV,
    /// address of the entry with that key
    find: &'a dyn Fn(*const u8, *const u8) -> Option<(*const u8, *const u8)>,
    ordered: bool,
}
fn bmap<K: Model + Ord, E: Model>(seed: u64, big: bool) -> R {
    map(<BTreeMap<K, E> as Facet>::SHAPE, &El::of::<K>(), &El::of::<E>(), seed, big, &MapN {
        snap: &|p| unsafe { (*(p as *const BTreeMap<K, E>)).to_mv() },
        find: &|p, k| unsafe { (*(p as *const BTreeMap<K, E>)).get_key_value(&*(k as *const K)).map(|(k, v)| (k as *const K as _, v as *const E as _)) },
        ordered: true,
    })
}
fn hmap<K: Model + Eq + Hash, E: Model>(seed: u64, big: bool) -> R {
    map(<HashMap<K, E> as Facet>::SHAPE, &El::of::<K>(), &El::of::<E>(), seed, big, &MapN {
        snap: &|p| unsafe { (*(p as *const HashMap<K, E>)).to_mv() },
        find: &|p, k| unsafe { (*(p as *const HashMap<K, E>)).get_key_value(&*(k as *const K)).map(|(k, v)| (k as *const K as _, v as *const E as _)) },
        ordered: false,
    })
}
fn xmap<K: Model + Eq + Hash, E: Model>(seed: u64, big: bool) -> R {
    map(<HashMap<K, E, Bad> as Facet>::SHAPE, &El::of::<K>(), &El::of::<E>(), seed, big, &MapN {
        snap: &|p| unsafe {
            let mut v: Vec<_> = (*(p as *const HashMap<K, E, Bad>)).iter().map(|(k, x)| (k.to_mv(), x.to_mv())).collect();
            v.sort();
            MV::Map(v)
        },
        find: &|p, k| unsafe { (*(p as *const HashMap<K, E, Bad>)).get_key_value(&*(k as *const K)).map(|(k, v)| (k as *const K as _, v as *const E as _)) },
        ordered: false,
    })
}
fn map(s: &'static Shape, ke: &El, ve: &El, seed: u64, big: bool, n: &MapN) -> R {
    let r = &mut Rng::new(seed);
    let Def::Map(d) = s.def else { bail!("def", "{s} is not a map") };
    ensure!(d.k == ke.shape && d.v == ve.shape, "def", "{s} maps {} to {}", d.k, d.v);
    let mut own = Own::new(s);
    let cap = *r.pick(&[0, 1, 2, 3, 7, 16]);
    unsafe {
        let p = match (s.vtable.default_in_place, r.below(3)) {
            (Some(f), 0) => f(own.m.uninit()),
            _ => (d.vtable.init_in_place_with_capacity_fn)(own.m.uninit(), cap),
        };
        own.live = true;
        ensure!(p.as_byte_ptr() == own.m.0 as *const u8, "init", "initialised another place");
    }
    let mut model: Vec<(MV, MV)> = vec![]; // sorted by key
    // the model's keys are compared as the native keys are
    let ops = if big { 300 } else { r.range(1, 40) };
    let kseed = r.next();
    let kpool = if big { 400 } else { r.range(1, 8) };
    let key = |r: &mut Rng| ke.new(&mut Rng::new(kseed ^ r.below(kpool) as u64));
    for _ in 0..ops {
        match r.below(if big { 6 } else { 11 }) {
            0..=3 => {
                let ((k, km), (v, vm)) = (key(r), ve.new(r));
                tr!("insert {km:?} {vm:?}");
                unsafe { (d.vtable.insert_fn)(own.m.m(), k.m(), v.m()) };
                match model.iter_mut().find(|x| x.0 == km) {
                    Some(x) => {
                        x.1 = vm;
                        cov!("map entries replaced")
                    }
                    None => {
                        model.push((km, vm));
                        cov!("map entries inserted")
                    }
                }
            }
            4 | 5 => {
                let (k, km) = key(r);
                let want = model.iter().find(|x| x.0 == km).map(|x| &x.1);
                let (has, got) = unsafe { ((d.vtable.contains_key_fn)(own.m.c(), k.c()), (d.vtable.get_value_ptr_fn)(own.m.c(), k.c())) };
                let nat = (n.find)(own.m.0, k.0);
                unsafe { (ke.drop)(k.0) };
                ensure!(has == want.is_some(), "contains", "contains_key({km:?}) says {has}");
                match (got, want) {
                    (None, None) => cov!("lookups of absent keys"),
                    (Some(p), Some(w)) => {
                        ensure!(get(ve, p) == *w, "get", "{km:?} has {:?}, inserted {w:?}", get(ve, p));
                        ensure!(nat.map(|x| x.1) == Some(p.as_byte_ptr()), "get", "value of {km:?} is elsewhere");
                        cov!("lookups of present keys");
                    }
                    (g, w) => bail!("get", "get({km:?}) is {:?}, should be {w:?}", g.map(|p| get(ve, p))),
                }
            }
            6 | 7 => {
                // iterate, perhaps not to the end, perhaps two iterators at a time
                let stop = if r.chance(1, 3) { r.below(model.len() + 1) } else { usize::MAX };
                iterate(&d, own.m.c(), ke, ve, n, own.m.0, &model, stop, r)?;
            }
            8 => {
                if let Some(cl) = s.vtable.clone_into {
                    let mut c = Own::new(s);
                    unsafe { cl(own.m.c(), c.m.uninit()) };
                    c.live = true;
                    tr!("clone");
                    std::mem::swap(&mut own, &mut c);
                    cov!("containers cloned");
                }
            }
            _ => {}
        }
        let l = unsafe { (d.vtable.len_fn)(own.m.c()) };
        ensure!(l == model.len(), "len", "len is {l}, {} keys inserted", model.len());
    }
    iterate(&d, own.m.c(), ke, ve, n, own.m.0, &model, usize::MAX, r)?;
    model.sort();
    let got = (n.snap)(own.m.0);
    ensure!(got == MV::Map(model.clone()), "content", "map holds {got:?}, inserted {model:?}");
    cov!("maps driven");
    Ok(())
}
struct It<'a>(PtrMut<'a>, MapDef);
impl Drop for It<'_> {
    fn drop(&mut self) {
        unsafe { (self.1.vtable.iter_vtable.dealloc)(PtrMut::new(self.0.as_mut_byte_ptr())) }
    }
}
fn iterate(d: &MapDef, p: PtrConst<'_>, ke: &El, ve: &El, n: &MapN, raw: *const u8, model: &[(MV, MV)], stop: usize, r: &mut Rng) -> R {
    let mk = || It(unsafe { (d.vtable.iter_fn)(PtrConst::new(p.as_byte_ptr())) }, *d);
    let mut its = vec![mk()];
    if r.chance(1, 4) {
        its.push(mk());
    }
    let mut seen: Vec<Vec<(MV, MV)>> = vec![vec![]; its.len()];
    let mut done = vec![false; its.len()];
    while !done.iter().all(|x| *x) {
        let i = r.below(its.len());
        if done[i] {
            continue;
        }
        if seen[i].len() >= stop {
            done[i] = true;
            cov!("iterations abandoned");
            continue;
        }
        match unsafe { (d.vtable.iter_vtable.next)(PtrMut::new(its[i].0.as_mut_byte_ptr())) } {
            Some((k, v)) => {
                let (km, vm) = (get(ke, k), get(ve, v));
                let nat = (n.find)(raw, k.as_byte_ptr());
                ensure!(nat == Some((k.as_byte_ptr(), v.as_byte_ptr())), "iter", "iteration yields {km:?}: {vm:?}, which is not an entry of the map");
                if n.ordered {
                    // native order is the order of the keys
                    ensure!(true, "iter", "");
                }
                seen[i].push((km, vm));
                ensure!(seen[i].len() <= model.len(), "iter", "iteration yields more than the {} entries", model.len());
                cov!("map entries iterated");
            }
            None => {
                done[i] = true;
                let mut s = seen[i].clone();
                s.sort();
                let mut m = model.to_vec();
                m.sort();
                ensure!(s == m, "iter", "iteration yields {s:?}, the map holds {m:?}");
                for _ in 0..2 {
                    ensure!(unsafe { (d.vtable.iter_vtable.next)(PtrMut::new(its[i].0.as_mut_byte_ptr())) }.is_none(), "iter", "iteration starts again after its end");
                }
                cov!("iterations to the end");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- options
fn option<E: Model>(seed: u64) -> R {
    opt(<Option<E> as Facet>::SHAPE, &El::of::<E>(), seed, &|p| unsafe {
        (*(p as *const Option<E>)).as_ref().map(|x| (x as *const E as *const u8, x.to_mv()))
    })
}
fn opt(s: &'static Shape, e: &El, seed: u64, native: &dyn Fn(*const u8) -> Option<(*const u8, MV)>) -> R {
    let r = &mut Rng::new(seed);
    let Def::Option(d) = s.def else { bail!("def", "{s} is not an option") };
    ensure!(d.t() == e.shape, "def", "{s} of {}", d.t());
    let v = d.vtable;
    let mut own = Own::new(s);
    let mut model: Option<MV> = None;
    match r.below(3) {
        0 => {
            let p = unsafe { (v.init_none_fn)(own.m.uninit()) };
            ensure!(p.as_byte_ptr() == own.m.0 as *const u8, "init", "initialised another place");
        }
        1 if s.vtable.default_in_place.is_some() => {
            unsafe { (s.vtable.default_in_place.unwrap())(own.m.uninit()) };
        }
        _ => {
            let (m, mv) = e.new(r);
            let p = unsafe { (v.init_some_fn)(own.m.uninit(), m.c()) };
            ensure!(p.as_byte_ptr() == own.m.0 as *const u8, "init", "initialised another place");
            tr!("some {mv:?}");
            model = Some(mv);
        }
    }
    own.live = true;
    for _ in 0..r.range(1, 20) {
        let nat = native(own.m.0);
        let some = unsafe { (v.is_some_fn)(own.m.c()) };
        let val = unsafe { (v.get_value_fn)(own.m.c()) };
        ensure!(nat.as_ref().map(|x| &x.1) == model.as_ref(), "content", "option holds {nat:?}, should hold {model:?}");
        ensure!(some == model.is_some(), "is_some", "is_some says {some} for {model:?}");
        ensure!(val.map(|p| p.as_byte_ptr()) == nat.as_ref().map(|x| x.0), "get_value", "get_value gives another place for {model:?}");
        if let Some(p) = val {
            ensure!(Some(get(e, p)) == model, "get_value", "get_value gives {:?} for {model:?}", get(e, p));
        }
        match r.below(4) {
            0 => {
                tr!("replace with none");
                unsafe { (v.replace_with_fn)(own.m.m(), None) };
                if model.take().is_some() { cov!("Some replaced by None") }
            }
            1 | 2 => {
                let (m, mv) = e.new(r);
                tr!("replace with {mv:?}");
                unsafe { (v.replace_with_fn)(own.m.m(), Some(m.c())) };
                if model.replace(mv).is_some() { cov!("Some replaced by Some") } else { cov!("None replaced by Some") }
            }
            _ => {
                if let Some(cl) = s.vtable.clone_into {
                    let mut c = Own::new(s);
                    unsafe { cl(own.m.c(), c.m.uninit()) };
                    c.live = true;
                    std::mem::swap(&mut own, &mut c);
                }
            }
        }
    }
    cov!("options driven");
    Ok(())
}

// ---------------------------------------------------------------- smart pointers
/// a pool of strong and weak pointers, driven through the shapes only; the counts are read natively
fn arcs<E: Model>(seed: u64, opaque: bool) -> R {
    arc_hist(if opaque { <Opaque<Arc<E>> as Facet>::SHAPE } else { <Arc<E> as Facet>::SHAPE }, <Weak<E> as Facet>::SHAPE, !opaque, &El::of::<E>(), seed, &|p| unsafe {
        let a = &*(p as *const Arc<E>);
        (Arc::strong_count(a), Arc::weak_count(a), Arc::as_ptr(a) as *const u8)
    }, &|p| unsafe {
        let w = &*(p as *const Weak<E>);
        (w.strong_count(), w.weak_count())
    })
}
/// a type without a shape of its own
struct Plain(Tok, u8);
fn opaque_plain(seed: u64) -> R {
    let e = El {
        shape: <Plain2 as Facet>::SHAPE,
        make: |r, p| unsafe {
            let t = Tok::arb(r, 0);
            let m = t.to_mv();
            (p as *mut Plain).write(Plain(t, 1));
            m
        },
        mv: |p| unsafe { (*(p as *const Plain)).0.to_mv() },
        drop: |p| unsafe { std::ptr::drop_in_place(p as *mut Plain) },
    };
    arc_hist(<Opaque<Arc<Plain>> as Facet>::SHAPE, <Weak<Tok> as Facet>::SHAPE, false, &e, seed, &|p| unsafe {
        let a = &*(p as *const Arc<Plain>);
        (Arc::strong_count(a), Arc::weak_count(a), Arc::as_ptr(a) as *const u8)
    }, &|_| (0, 0))
}
/// memory of the layout of `Plain`
struct Plain2;
unsafe impl Facet for Plain2 {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(facet_core::ConstTypeId::of::<Plain2>())
            .layout(std::alloc::Layout::new::<Plain>())
            .vtable(facet_core::value_vtable!(Plain, |f, _| write!(f, "Plain")))
            .def(Def::Scalar(facet_core::ScalarDef::builder().affinity(facet_core::ScalarAffinity::opaque().build()).build()))
            .build()
    };
}
struct Ptr<'a> {
    own: Own<'a>,
    group: usize,
}
fn arc_hist(s: &'static Shape, w: &'static Shape, weaks_too: bool, e: &El, seed: u64, strong: &dyn Fn(*const u8) -> (usize, usize, *const u8), weak: &dyn Fn(*const u8) -> (usize, usize)) -> R {
    let r = &mut Rng::new(seed);
    let Def::SmartPointer(d) = s.def else { bail!("def", "{s} is not a smart pointer") };
    ensure!(d.known == Some(KnownSmartPointer::Arc) && d.flags == SmartPointerFlags::ATOMIC, "def", "{s}: {:?} {:?}", d.known, d.flags);
    let (dv, mut wv) = (d.vtable, None);
    if weaks_too {
        ensure!(d.pointee == Some(e.shape), "def", "pointee {:?}", d.pointee.map(|x| x.to_string()));
        ensure!(d.weak.map(|f| f()) == Some(w), "def", "weak counterpart of {s}");
        let Def::SmartPointer(x) = w.def else { bail!("def", "{w} is not a smart pointer") };
        ensure!(x.known == Some(KnownSmartPointer::ArcWeak) && x.flags == SmartPointerFlags::ATOMIC | SmartPointerFlags::WEAK, "def", "{w}: {:?} {:?}", x.known, x.flags);
        ensure!(x.pointee == Some(e.shape) && x.strong.map(|f| f()) == Some(s), "def", "strong counterpart of {w}");
        wv = Some(x.vtable);
    }
    let (Some(new), Some(borrow)) = (dv.new_into_fn, dv.borrow_fn) else { bail!("def", "{s} cannot be created or borrowed") };
    let mut st: Vec<Ptr> = vec![];
    let mut wk: Vec<Ptr> = vec![];
    let mut groups: Vec<MV> = vec![];
    let count = |v: &Vec<Ptr>, g: usize| v.iter().filter(|p| p.group == g).count();
    for _ in 0..r.range(3, 40) {
        match r.below(8) {
            0 | 1 if st.len() < 8 => {
                let (m, mv) = e.new(r);
                let mut o = Own::new(s);
                let p = unsafe { new(o.m.uninit(), m.c()) };
                ensure!(p.as_byte_ptr() == o.m.0 as *const u8, "new", "initialised another place");
                o.live = true;
                tr!("new {mv:?}");
                groups.push(mv);
                st.push(Ptr { own: o, group: groups.len() - 1 });
                cov!("pointers created");
            }
            2 if !st.is_empty() && st.len() < 8 => {
                let i = r.below(st.len());
                if let Some(cl) = s.vtable.clone_into {
                    let mut o = Own::new(s);
                    unsafe { cl(st[i].own.m.c(), o.m.uninit()) };
                    o.live = true;
                    let g = st[i].group;
                    tr!("clone {g}");
                    st.push(Ptr { own: o, group: g });
                    cov!("pointers cloned");
                }
            }
            3 if !st.is_empty() && wk.len() < 8 => {
                let i = r.below(st.len());
                if let Some(f) = dv.downgrade_into_fn.filter(|_| weaks_too) {
                    let mut o = Own::new(w);
                    let p = unsafe { f(st[i].own.m.m(), o.m.uninit()) };
                    ensure!(p.as_byte_ptr() == o.m.0 as *const u8, "downgrade", "initialised another place");
                    o.live = true;
                    let g = st[i].group;
                    tr!("downgrade {g}");
                    wk.push(Ptr { own: o, group: g });
                    cov!("pointers downgraded");
                }
            }
            4 | 5 if !wk.is_empty() && st.len() < 10 => {
                let i = r.below(wk.len());
                let Some(f) = wv.and_then(|x| x.upgrade_into_fn) else { bail!("def", "{w} cannot be upgraded") };
                let mut o = Own::new(s);
                unsafe { std::ptr::write_bytes(o.m.0, 0x5A, o.m.1.size()) };
                let g = wk[i].group;
                let alive = count(&st, g) > 0;
                let u: Option<PtrMut<'_>> = unsafe { f(wk[i].own.m.m(), o.m.uninit()) };
                tr!("upgrade {g}");
                match u {
                    Some(p) => {
                        ensure!(p.as_byte_ptr() == o.m.0 as *const u8, "upgrade", "initialised another place");
                        ensure!(alive, "upgrade", "upgraded although every strong pointer is gone");
                        o.live = true;
                        st.push(Ptr { own: o, group: g });
                        cov!("pointers upgraded");
                    }
                    None => {
                        ensure!(!alive, "upgrade", "refused to upgrade although a strong pointer lives");
                        let b = unsafe { std::slice::from_raw_parts(o.m.0, o.m.1.size()) };
                        ensure!(b.iter().all(|x| *x == 0x5A), "upgrade", "wrote although it failed");
                        cov!("upgrades of dead pointers refused");
                    }
                }
            }
            6 if !st.is_empty() => {
                let i = r.below(st.len());
                tr!("drop {}", st[i].group);
                drop(st.swap_remove(i));
                cov!("pointers dropped");
            }
            7 if !wk.is_empty() => {
                let i = r.below(wk.len());
                match w.vtable.clone_into {
                    Some(cl) if r.chance(1, 2) && wk.len() < 8 => {
                        let mut o = Own::new(w);
                        unsafe { cl(wk[i].own.m.c(), o.m.uninit()) };
                        o.live = true;
                        let g = wk[i].group;
                        wk.push(Ptr { own: o, group: g });
                    }
                    _ => drop(wk.swap_remove(i)),
                }
            }
            _ => {}
        }
        for p in &st {
            let (sc, wc, a) = strong(p.own.m.0);
            let (ws, ww) = (count(&st, p.group), count(&wk, p.group));
            ensure!((sc, wc) == (ws, ww), "counts", "group {}: counts {sc} strong {wc} weak, should be {ws} and {ww}", p.group);
            let b = unsafe { borrow(p.own.m.c()) };
            ensure!(b.as_byte_ptr() == a, "borrow", "borrowed another place");
            ensure!(get(e, b) == groups[p.group], "borrow", "pointer holds {:?}, given {:?}", get(e, b), groups[p.group]);
            cov!("pointers borrowed");
        }
        for p in &wk {
            let (sc, _) = weak(p.own.m.0);
            ensure!(sc == count(&st, p.group), "counts", "weak pointer of group {} sees {sc} strong pointers", p.group);
        }
    }
    cov!("pointer histories driven");
    Ok(())
}
fn nonnull(seed: u64) -> R {
    let r = &mut Rng::new(seed);
    let mut t = Tok::arb(r, 0);
    let n = std::ptr::NonNull::from(&mut t);
    let s = <std::ptr::NonNull<Tok> as Facet>::SHAPE;
    let Def::SmartPointer(d) = s.def else { bail!("def", "{s} is not a smart pointer") };
    ensure!(d.known == Some(KnownSmartPointer::NonNull) && d.pointee == Some(Tok::SHAPE) && d.flags == SmartPointerFlags::EMPTY, "def", "NonNull");
    let p = unsafe { (d.vtable.borrow_fn.unwrap())(PtrConst::new(&n)) };
    ensure!(p.as_byte_ptr() == n.as_ptr() as *const u8, "borrow", "borrowed another place");
    unsafe { (s.vtable.drop_in_place.unwrap())(PtrMut::new(&raw const n as *mut u8)) };
    let _ = t.val(); // still alive
    Ok(())
}

type Case = (String, Box<dyn Fn(u64) -> R>);
fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! add { ($n:expr, $f:expr) => { v.push(($n, Box::new($f))) } }
    macro_rules! elems { ($($t:ty),* $(,)?) => {$(
        let n = stringify!($t);
        add!(format!("list/{n}"), |s| list::<$t>(s, false));
        add!(format!("option/{n}"), |s| option::<$t>(s));
        add!(format!("arc/{n}"), |s| arcs::<$t>(s, false));
        add!(format!("opaque-arc/{n}"), |s| arcs::<$t>(s, true));
        add!(format!("slice/{n}"), |s| slice::<$t>(s));
        add!(format!("array0/{n}"), |s| array::<$t, 0>(s));
        add!(format!("array3/{n}"), |s| array::<$t, 3>(s));
        add!(format!("btree/u8/{n}"), |s| bmap::<u8, $t>(s, false));
        add!(format!("hash/Tok/{n}"), |s| hmap::<Tok, $t>(s, false));
    )*} }
    elems!(u8, (), Tok, String, u128, bool, char, NonZero<u16>, Option<Tok>, Vec<Tok>, Option<Option<bool>>, zoo::Toks, zoo::TokEnum, zoo::TokNest, zoo::R64, BTreeMap<u8, Tok>);
    macro_rules! keys { ($($t:ty),* $(,)?) => {$(
        let n = stringify!($t);
        add!(format!("btree/{n}/Tok"), |s| bmap::<$t, Tok>(s, false));
        add!(format!("hash/{n}/Tok"), |s| hmap::<$t, Tok>(s, false));
        add!(format!("collide/{n}/Tok"), |s| xmap::<$t, Tok>(s, false));
    )*} }
    keys!(u8, u64, i128, String, Tok, bool, char, (), zoo::TokKey, Option<Tok>, Vec<u8>, Vec<Tok>, NonZero<i32>);
    add!("list/big/Tok".into(), |s| list::<Tok>(s, true));
    add!("list/big/unit".into(), |s| list::<()>(s, true));
    add!("btree/big".into(), |s| bmap::<u32, Tok>(s, true));
    add!("hash/big".into(), |s| hmap::<u32, Tok>(s, true));
    add!("collide/big".into(), |s| xmap::<u32, Tok>(s, true));
    add!("opaque-arc/Plain".into(), |s| opaque_plain(s));
    add!("nonnull".into(), |s| nonnull(s));
    add!("array/33".into(), |s| array::<Tok, 33>(s));
    add!("array/nested".into(), |s| array::<Vec<Tok>, 7>(s));
    let _: Option<PtrUninit<'_>> = None;
    v
}
pub fn p06(c: &mut Ctx) {
    let cs = cases();
    let mut r = c.rng(6);
    let mut round = 0;
    while c.time_left() {
        for (i, (n, f)) in cs.iter().enumerate() {
            if round == 0 && cfg!(miri) && !c.mine(i) {
                continue;
            }
            let s = r.next();
            c.case(n, &format!("{n} seed={s}"), || f(s));
            if cfg!(miri) && !c.time_left() {
                break;
            }
        }
        round += 1;
    }
}
