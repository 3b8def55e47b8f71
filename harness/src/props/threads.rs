//! P19: many threads at once, and any order of calls.
//!
//! A round is a process of its own: a few jobs (write, read, print, walk, build, ... one value or one
//! document) are run by several threads at once, each in an order of its own, and once by a single
//! thread. ThreadSanitizer watches the round; every result is compared with the single thread's,
//! and with what the same job gave in other rounds, which ran other jobs before it.
use crate::{args, json, msgpack, peeks, toml, url, wip, yaml};
use facet::Facet;
use facet_core::{Def, PtrConst, PtrMut, PtrUninit, Shape};
use facet_reflect::{HeapValue, Peek, Wip};
use fvl::ctx::*;
use fvl::model::*;
use fvl::mon::{self, Tok};
use fvl::zoo::ZOO;
use fvl::{bail, cov, jref, mref};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Weak};

const KINDS: usize = 14;
const NAMES: [&str; KINDS] = ["json-write", "msgpack-write", "pretty", "walk", "compare", "json-read", "msgpack-read", "toml-read", "yaml-read", "url-read", "args", "build", "shape", "heap"];
#[derive(Clone, Copy)]
pub struct Job {
    no: usize,
    kind: usize,
    ty: T,
    seed: u64,
}
struct Types {
    all: Vec<T>,
    j: Vec<T>,
    m: Vec<T>,
    t: Vec<T>,
    y: Vec<T>,
    u: Vec<T>,
    p: Vec<T>,
}
fn types() -> Types {
    let tag = |c: char| ZOO.iter().filter(|(_, g)| g.contains(c)).map(|(t, _)| *t).collect::<Vec<_>>();
    Types { all: ZOO.iter().map(|(t, _)| *t).collect(), j: tag('j'), m: tag('m'), t: tag('t'), y: tag('y'), u: tag('u'), p: tag('p') }
}
/// the pool: job number -> job, the same in every round of one seed
fn job(ts: &Types, seed: u64, no: usize) -> Job {
    let mut r = Rng::new(seed.wrapping_mul(0xA5A5_1234_9E37_79B9) ^ (no as u64) << 1);
    let kind = r.below(KINDS);
    let from = match kind {
        0 | 5 => &ts.j,
        1 | 6 => &ts.m,
        7 => &ts.t,
        8 => &ts.y,
        9 => &ts.u,
        3 | 11 => &ts.p,
        _ => &ts.all,
    };
    Job { no, kind, ty: *r.pick(from), seed: r.next() }
}
/// does the text of a value depend on the random state of a hash map
fn unordered(s: &'static Shape, seen: &mut Vec<&'static Shape>) -> bool {
    if seen.contains(&s) {
        return false;
    }
    seen.push(s);
    s.to_string().contains("HashMap")
        || match s.def {
            Def::Struct(d) => d.fields.iter().any(|f| unordered(f.shape(), seen)),
            Def::Enum(e) => e.variants.iter().any(|v| v.data.fields.iter().any(|f| unordered(f.shape(), seen))),
            Def::Map(m) => unordered(m.k, seen) || unordered(m.v, seen),
            Def::List(l) => unordered(l.t(), seen),
            Def::Option(o) => unordered(o.t(), seen),
            _ => false,
        }
}
fn dump(s: &'static Shape, depth: usize, o: &mut String) {
    use std::fmt::Write;
    let _ = write!(o, "{s} {:?} {:?} ", s.layout, s.attributes);
    if depth == 0 {
        return;
    }
    let mut fields = |fs: &'static [facet_core::Field], o: &mut String| {
        for f in fs {
            let _ = write!(o, "[{} {:?} @{} {:?} {:?} ", f.name, f.flags, f.offset, f.attributes, f.doc);
            dump(f.shape(), depth - 1, o);
            o.push(']');
        }
    };
    match s.def {
        Def::Struct(d) => fields(d.fields, o),
        Def::Enum(e) => {
            for v in e.variants {
                let _ = write!(o, "|{} {:?} {:?} ", v.name, v.discriminant, v.data.kind);
                fields(v.data.fields, o);
            }
        }
        Def::Map(m) => {
            dump(m.k, depth - 1, o);
            dump(m.v, depth - 1, o)
        }
        Def::List(l) => dump(l.t(), depth - 1, o),
        Def::Option(x) => dump(x.t(), depth - 1, o),
        _ => {}
    }
}
fn cut(mut s: String) -> String {
    let mut k = s.len().min(20_000);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    s.truncate(k);
    s
}
/// without what depends on where the program was loaded: addresses, and the hue made from them
fn stable(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find("0x").into_iter().chain(rest.find("[38;2;")).min() {
        let colour = rest.as_bytes()[i] == b'[';
        let k = i + if colour { 6 } else { 2 };
        o.push_str(&rest[..k]);
        let t = &rest[k..];
        let n = t.find(|c: char| if colour { !c.is_ascii_digit() && c != ';' } else { !c.is_ascii_hexdigit() }).unwrap_or(t.len());
        if !colour && n < 8 {
            o.push_str(&t[..n]);
        }
        rest = &t[n..];
    }
    o.push_str(rest);
    o
}
fn outcome(r: R) -> String {
    match r {
        Ok(()) => "as the model says".into(),
        Err(e) => format!("{}: {}", e.cat, e.detail),
    }
}
fn spoil(doc: &mut Vec<u8>, r: &mut Rng) {
    if r.chance(1, 3) && !doc.is_empty() {
        json::corrupt(doc, r)
    }
}
fn hash_of(p: &Peek<'_>) -> (bool, u64) {
    let mut h = DefaultHasher::new();
    let b = p.hash(&mut h);
    (b, h.finish())
}
/// what the job gives; `v` is its value (shared with the other threads or not)
fn run(j: &Job, v: Option<&dyn Shared>, with_mv: &MV) -> String {
    let r = &mut Rng::new(j.seed ^ 0x77);
    let ty = j.ty;
    let text = |doc: Vec<u8>| String::from_utf8_lossy(&doc).into_owned();
    let s = match j.kind {
        0 => format!("{:?}", v.unwrap().json()),
        1 => format!("{:?}", v.unwrap().msgpack()),
        2 => {
            let (i, m, c) = (r.below(5), r.below(9), r.chance(1, 2));
            let mk = || {
                let p = facet_pretty::PrettyPrinter::new().with_indent_size(i).with_colors(c);
                if m < 6 { p.with_max_depth(m) } else { p }
            };
            format!("{:?}", no_panic(|| mk().format_peek(v.unwrap().peek())))
        }
        3 => {
            let p = v.unwrap().peek();
            format!("{} {p:?} {p} {:?}", outcome(peeks::walk(p, ty, with_mv, r)), hash_of(&p))
        }
        4 => {
            let p = v.unwrap().peek();
            let other = (ty.share)(r, 1);
            let q = other.peek();
            format!("{:?} {:?} {:?} {:?} {:?}", p.eq(&q), p.partial_cmp(&q), q.partial_cmp(&p), p.eq(&p), hash_of(&q))
        }
        5 => {
            let m = arb_mv(ty, r, 2);
            let mut t = jref::tree(ty, &m, r);
            if r.chance(1, 3) {
                let mut ns = vec![];
                jref::names(ty, &mut ns, 3);
                jref::mutate(&mut t, r, &ns);
            }
            let mut s = String::new();
            let style = r.below(3) as u8;
            jref::render(&t, r, style, &mut s);
            let mut doc = s.into_bytes();
            spoil(&mut doc, r);
            format!("{:?}", (ty.de_json)(&doc))
        }
        6 => {
            let m = arb_mv(ty, r, 2);
            let t = mref::tree(ty, &m);
            let mut doc = vec![];
            mref::write(&t, r, &mut doc);
            if r.chance(1, 3) {
                msgpack::corrupt(&mut doc, r);
            }
            format!("{:?}", (ty.de_msgpack)(&doc))
        }
        7 => {
            let mut doc = toml::arb_doc(ty, r, 2).1.into_bytes();
            spoil(&mut doc, r);
            format!("{:?}", (ty.de_toml)(text(doc).as_bytes()))
        }
        8 => {
            let mut doc = yaml::arb_doc(ty, r, 2).1.into_bytes();
            spoil(&mut doc, r);
            format!("{:?}", (ty.de_yaml)(text(doc).as_bytes()))
        }
        9 => {
            let mut doc = url::arb_doc(ty, r, 2).into_bytes();
            spoil(&mut doc, r);
            format!("{:?}", (ty.de_url)(text(doc).as_bytes()))
        }
        10 => args::outcome(r),
        11 => outcome(wip::history(ty, j.seed, 24, true, false)),
        12 => {
            let mut o = String::new();
            dump(ty.shape, 4, &mut o);
            o
        }
        _ => {
            let (w, m) = (ty.put)(Wip::alloc_shape(ty.shape), r);
            match w.and_then(|w| w.build()) {
                Ok(h) => {
                    let got = (ty.mat)(h);
                    format!("{:?} {}", got.as_ref().map_err(|e| e.to_string()), matches!(&got, Ok(x) if *x == m))
                }
                Err(e) => format!("refused: {e}"),
            }
        }
    };
    cut(s)
}

pub struct Out {
    viols: Vec<(String, String, String)>,
    /// job, digest of its result
    digests: Vec<(usize, u64)>,
    /// a digest of the order in which the jobs began, over all threads
    order: u64,
    counts: [u64; 6],
}
static CLOCK: AtomicU64 = AtomicU64::new(0);

pub fn round(ts: &Types, seed: u64, k: u64, small: bool) -> Out {
    let mut out = Out { viols: vec![], digests: vec![], order: 0, counts: [0; 6] };
    let mut r = Rng::new(seed ^ k.wrapping_mul(0x2545_F491_4F6C_DD1D));
    let pool = if small { 60 } else { 900 };
    let n = if small { r.range(2, 4) } else { r.range(4, 20) };
    let mut jobs: Vec<Job> = (0..n).map(|_| job(ts, seed, r.below(pool))).collect();
    if r.chance(1, 4) {
        // the same thing done by everybody
        let j = jobs[0];
        jobs.truncate(2);
        jobs.push(j);
    }
    let cold = r.chance(2, 3);
    let threads = if small { 2 } else { *r.pick(&[2, 3, 4, 4, 6, 8]) };
    let vals: Vec<(Option<Arc<dyn Shared>>, MV)> = jobs
        .iter()
        .map(|j| match j.kind {
            0..=4 => {
                let v = (j.ty.share)(&mut Rng::new(j.seed), 2);
                let m = v.mv();
                (Some(v), m)
            }
            _ => (None, MV::None),
        })
        .collect();
    let single = || -> Vec<String> { jobs.iter().zip(&vals).map(|(j, v)| run(j, v.0.as_deref(), &v.1)).collect() };
    let mut base = if cold { vec![] } else { single() };
    out.counts[if cold { 2 } else { 3 }] += 1;
    let bar = Barrier::new(threads);
    let results: Vec<(Vec<(usize, u64, String)>, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|i| {
                let mut r = r.clone();
                for _ in 0..i + 1 {
                    r = Rng::new(r.next() ^ i as u64);
                }
                let (jobs, vals, bar) = (&jobs, &vals, &bar);
                std::thread::Builder::new()
                    .stack_size(if cfg!(miri) { 2 << 20 } else { 8 << 20 })
                    .spawn_scoped(s, move || {
                        let mut order: Vec<usize> = (0..jobs.len()).collect();
                        if r.chance(3, 4) {
                            r.shuffle(&mut order);
                        }
                        let mut res = vec![];
                        bar.wait();
                        for i in order {
                            match r.below(6) {
                                0 => std::thread::yield_now(),
                                1 if !cfg!(miri) => (0..r.below(3000)).for_each(|_| std::hint::spin_loop()),
                                _ => {}
                            }
                            let at = CLOCK.fetch_add(1, Relaxed);
                            res.push((i, at, run(&jobs[i], vals[i].0.as_deref(), &vals[i].1)));
                        }
                        let ops = pointers(&mut r);
                        (res, ops)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (vec![(usize::MAX, 0, last_panic())], 0))).collect()
    });
    if cold {
        base = single();
    }
    let mut order = vec![];
    for (t, (res, ops)) in results.iter().enumerate() {
        out.counts[4] += ops;
        for (i, at, got) in res {
            if *i == usize::MAX {
                out.viols.push(("thread/panic".into(), "a thread panicked".into(), String::new()));
                continue;
            }
            order.push((*at, t, *i));
            out.counts[0] += 1;
            out.counts[1] += vals[*i].0.is_some() as u64;
            let j = &jobs[*i];
            if *got != base[*i] {
                out.viols.push((
                    format!("{}/{}/differs-among-threads", NAMES[j.kind], (j.ty.tn)()),
                    format!("thread {t} of {threads} obtains {}, a single thread {}", clip(got), clip(&base[*i])),
                    format!("job {} (seed {}) in round {k}", j.no, j.seed),
                ));
            }
        }
    }
    order.sort();
    out.order = hash64(&order.iter().flat_map(|x| [x.1 as u8, x.2 as u8]).collect::<Vec<_>>());
    for (i, j) in jobs.iter().enumerate() {
        let fixed = !matches!(j.kind, 0..=4) || !unordered(j.ty.shape, &mut vec![]);
        if fixed {
            out.digests.push((j.no, hash64(stable(&base[i]).as_bytes())));
        }
    }
    drop(vals);
    let (_, live, bad) = mon::tok_stats();
    if bad > 0 {
        out.viols.push(("threads/drop".into(), mon::tok_bad_text(), format!("round {k}")));
    } else if live > 0 {
        out.viols.push(("threads/leak".into(), format!("{live} value(s) never dropped"), format!("round {k}")));
    }
    if r.chance(1, 6) {
        handles(&mut out);
    }
    out
}
fn clip(s: &str) -> String {
    s.chars().take(600).collect()
}

// ------------------------------------------------------------------ smart pointers
/// What all threads hold: strong and weak pointers to one value, driven through their shapes only.
static SHARED: std::sync::Mutex<Option<(Arc<Tok>, Weak<Tok>)>> = std::sync::Mutex::new(None);
fn clone_of<X: Facet>(x: &X) -> X {
    let mut m = MaybeUninit::<X>::uninit();
    unsafe {
        (X::SHAPE.vtable.clone_into.unwrap())(PtrConst::new(x), PtrUninit::from_maybe_uninit(&mut m));
        m.assume_init()
    }
}
fn drop_of<X: Facet>(x: X) {
    let mut m = std::mem::ManuallyDrop::new(x);
    unsafe {
        (X::SHAPE.vtable.drop_in_place.unwrap())(PtrMut::new(&mut *m as *mut X));
    }
}
fn def<X: Facet>() -> facet_core::SmartPointerDef {
    match X::SHAPE.def {
        Def::SmartPointer(d) => d,
        _ => unreachable!(),
    }
}
fn pointers(r: &mut Rng) -> u64 {
    let (first, weak) = {
        let mut g = SHARED.lock().unwrap();
        let (a, w) = g.get_or_insert_with(|| {
            let a = Arc::new(Tok::new(42));
            let w = Arc::downgrade(&a);
            (a, w)
        });
        (Arc::clone(a), Weak::clone(w))
    };
    let (sd, wd) = (def::<Arc<Tok>>(), def::<Weak<Tok>>());
    let mut strong = vec![first];
    let mut weaks = vec![weak];
    let mut n = 0;
    for _ in 0..if cfg!(miri) { 6 } else { 40 } {
        n += 1;
        match r.below(6) {
            0 if strong.len() < 6 => {
                let c = clone_of(r.pick(&strong));
                strong.push(c)
            }
            1 if strong.len() > 1 => {
                let i = r.below(strong.len());
                drop_of(strong.swap_remove(i))
            }
            2 if weaks.len() < 6 => unsafe {
                let mut m = MaybeUninit::<Weak<Tok>>::uninit();
                let i = r.below(strong.len());
                (sd.vtable.downgrade_into_fn.unwrap())(PtrMut::new(&mut strong[i] as *mut _), PtrUninit::from_maybe_uninit(&mut m));
                weaks.push(m.assume_init())
            },
            3 => unsafe {
                let mut m = MaybeUninit::<Arc<Tok>>::uninit();
                let i = r.below(weaks.len());
                match (wd.vtable.upgrade_into_fn.unwrap())(PtrMut::new(&mut weaks[i] as *mut _), PtrUninit::from_maybe_uninit(&mut m)) {
                    Some(_) if strong.len() < 6 => strong.push(m.assume_init()),
                    Some(_) => drop_of(m.assume_init()),
                    None => panic!("a weak pointer to a living value was not upgraded"),
                }
            },
            4 if weaks.len() > 1 => {
                let i = r.below(weaks.len());
                drop_of(weaks.swap_remove(i))
            }
            _ => unsafe {
                let p = (sd.vtable.borrow_fn.unwrap())(PtrConst::new(r.pick(&strong)));
                assert_eq!(p.get::<Tok>().val(), 42);
            },
        }
    }
    // the last one out: what the threads share goes when the first thread is done with it
    *SHARED.lock().unwrap() = None;
    n
}

// ------------------------------------------------------------------ handles
#[derive(Facet)]
struct Racy {
    #[facet(opaque)]
    c: Arc<Cell<u64>>,
}
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<X> No for X {}
struct IsSend<X>(std::marker::PhantomData<X>);
impl<X: Send> IsSend<X> {
    const SEND: bool = true;
}
struct IsSync<X>(std::marker::PhantomData<X>);
impl<X: Sync> IsSync<X> {
    const SYNC: bool = true;
}
struct Carry<X>(X);
// only used for what the compiler itself would let through
unsafe impl<X> Send for Carry<X> {}
unsafe impl<X> Sync for Carry<X> {}
fn bump(p: &Peek<'_>) {
    let x = p.get::<Racy>().unwrap();
    for _ in 0..50 {
        x.c.set(x.c.get() + 1);
    }
}
/// safe code may move a handle to another thread only if that cannot race: if it may, do it
fn handles(out: &mut Out) {
    macro_rules! claims {
        ($($t:ty),* $(,)?) => { [$( (stringify!($t), IsSend::<$t>::SEND, IsSync::<$t>::SYNC) ),*] };
    }
    let c = claims!(
        Peek<'static>,
        facet_reflect::PeekStruct<'static>,
        facet_reflect::PeekEnum<'static>,
        facet_reflect::PeekList<'static>,
        facet_reflect::PeekMap<'static>,
        facet_reflect::PeekOption<'static>,
        facet_reflect::PeekSmartPointer<'static>,
        HeapValue<'static>,
        Wip<'static>,
    );
    for (name, send, sync) in c {
        out.counts[5] += 1;
        if send || sync {
            out.viols.push((format!("handles/{name}/crosses-threads"), format!("{name} is {}, whatever it refers to: safe code can reach a Cell from two threads", if send { "Send" } else { "Sync" }), String::new()));
        }
    }
    if IsSend::<Peek<'static>>::SEND {
        let v = Racy { c: Arc::new(Cell::new(0)) };
        let p = Carry(Peek::new(&v));
        std::thread::scope(|s| {
            s.spawn(move || {
                let p = p;
                bump(&p.0)
            });
            bump(&Peek::new(&v));
        });
    }
}

// ------------------------------------------------------------------ the rounds
pub fn show(seed: u64, no: u64) {
    let ts = types();
    let j = job(&ts, seed, no as usize);
    let v: Option<Arc<dyn Shared>> = match j.kind {
        0..=4 => Some((j.ty.share)(&mut Rng::new(j.seed), 2)),
        _ => None,
    };
    let m = v.as_ref().map(|v| v.mv()).unwrap_or(MV::None);
    println!("{}", run(&j, v.as_deref(), &m));
}
/// child process: one round, told to its parent line by line
pub fn child(seed: u64, k: u64) {
    let o = round(&types(), seed, k, false);
    let mut s = String::new();
    use std::fmt::Write;
    for (n, d) in &o.digests {
        let _ = writeln!(s, "J {n} {d}");
    }
    let _ = writeln!(s, "O {}", o.order);
    let _ = writeln!(s, "C {}", o.counts.map(|x| x.to_string()).join(" "));
    for (a, b, c) in &o.viols {
        let _ = writeln!(s, "V {}", serde_json::json!([a, b, c]));
    }
    s.push_str("END\n");
    print!("{s}");
}
fn spawned(seed: u64, k: u64) -> Result<Out, Fail> {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["P19-round", "--seed", &seed.to_string(), "--shard", &k.to_string(), "--out", "/dev/null"])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| fail("harness", e.to_string()))?;
    let mut e = ch.stderr.take().unwrap();
    let eh = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let mut b = vec![];
    let mut so = ch.stdout.take().unwrap();
    let oh = std::thread::spawn(move || {
        let _ = so.read_to_end(&mut b);
        b
    });
    let t0 = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            _ if t0.elapsed().as_secs() > 240 => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(fail("hang", "the round took more than 240 s (it takes a fraction of one)"));
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(2)),
        }
    };
    let text = String::from_utf8_lossy(&oh.join().unwrap()).into_owned();
    let err = String::from_utf8_lossy(&eh.join().unwrap()).into_owned();
    if !st.success() || !text.ends_with("END\n") {
        let what = if err.contains("data race") {
            "data-race"
        } else if err.contains("ThreadSanitizer") {
            "sanitizer"
        } else {
            "died"
        };
        let at = err.find("WARNING: ThreadSanitizer").or(err.find("ERROR: ")).unwrap_or(0);
        return Err(fail(what, format!("{st}: {}", err[at..].chars().take(3500).collect::<String>())));
    }
    let mut o = Out { viols: vec![], digests: vec![], order: 0, counts: [0; 6] };
    for l in text.lines() {
        let (k, x) = l.split_at(1);
        let x = x.trim();
        match k {
            "J" => {
                let (a, b) = x.split_once(' ').unwrap();
                o.digests.push((a.parse().unwrap(), b.parse().unwrap()));
            }
            "O" => o.order = x.parse().unwrap(),
            "C" => x.split(' ').enumerate().for_each(|(i, n)| o.counts[i] = n.parse().unwrap()),
            "V" => {
                let v: Vec<String> = serde_json::from_str(x).unwrap();
                o.viols.push((v[0].clone(), v[1].clone(), v[2].clone()));
            }
            _ => {}
        }
    }
    Ok(o)
}
pub fn p19(c: &mut Ctx) {
    c.check_leaks = false;
    c.check_toks = false;
    let ts = types();
    let mut seen: HashMap<usize, (u64, u64)> = HashMap::new();
    let mut orders = HashSet::new();
    let mut n = 0u64;
    let mut compared = 0u64;
    // one pool of jobs for all the processes of one run
    let seed = c.seed;
    while c.time_left() {
        n += 1;
        let k = n * c.shards as u64 + c.shard as u64;
        let out = std::cell::RefCell::new(None);
        c.case("round", &format!("seed {seed} round {k}"), || {
            let o = if cfg!(miri) {
                mon::tok_reset();
                round(&ts, seed, k, true)
            } else {
                spawned(seed, k)?
            };
            *out.borrow_mut() = Some(o);
            Ok(())
        });
        let Some(o) = out.into_inner() else { continue };
        for (a, b, i) in o.viols {
            c.violation(a, b, format!("seed {seed} round {k} {i}"));
        }
        orders.insert(o.order);
        for (i, x) in o.counts.iter().enumerate() {
            match i {
                0 => cov!("jobs run beside other threads", *x),
                1 => cov!("jobs on a value shared by threads", *x),
                2 => cov!("rounds that began with threads", *x),
                3 => cov!("rounds that began with a single thread", *x),
                4 => cov!("smart pointer operations beside other threads", *x),
                _ => cov!("handles tried across threads", *x),
            }
        }
        for (no, d) in o.digests {
            match seen.get(&no) {
                Some((x, _)) if *x == d => compared += 1,
                Some((_, k0)) => {
                    let j = job(&ts, seed, no);
                    c.violation(format!("{}/{}/differs-with-history", NAMES[j.kind], (j.ty.tn)()), format!("job {no} (seed {}) gives one result in round {k0} and another in round {k}", j.seed), format!("seed {seed} rounds {k0}, {k}"));
                }
                None => {
                    seen.insert(no, (d, k));
                }
            }
        }
    }
    cov!("results compared across histories", compared);
    cov!("distinct orders of jobs over the threads", orders.len());
}
