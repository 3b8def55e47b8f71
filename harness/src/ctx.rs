//! Case runner: executes one case under the monitors, classifies what was observed.
use crate::mon;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

/// What one case found wrong: a stable category (part of the signature) and the detail.
pub struct Fail {
    pub cat: String,
    pub detail: String,
}
pub fn fail(cat: &str, detail: impl Into<String>) -> Fail {
    Fail { cat: cat.to_string(), detail: detail.into() }
}
pub type R = Result<(), Fail>;
#[macro_export]
macro_rules! bail {
    ($cat:expr, $($a:tt)*) => { return Err($crate::ctx::fail($cat, format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $cat:expr, $($a:tt)*) => { if !$c { return Err($crate::ctx::fail($cat, format!($($a)*))) } };
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub input: String,
    pub count: u64,
}

pub struct Ctx {
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub thorough: bool,
    pub budget: Duration,
    pub start: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: BTreeMap<String, Viol>,
    pub known: Vec<String>,
    pub inconclusive: BTreeMap<String, u64>,
    pub only: Option<String>,
    crash: Option<File>,
    pub check_leaks: bool,
    pub check_toks: bool,
    /// judge behaviour (results of the closure, panics)
    pub behaviour: bool,
    lastcrumb: usize,
}

thread_local! { static PANIC_MSG: std::cell::Cell<([u8; 1024], usize)> = const { std::cell::Cell::new(([0; 1024], 0)) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let mut s = String::new();
        if let Some(l) = info.location() {
            let f = l.file();
            s.push_str(&format!("{}:{}: ", f.rsplit("/repo/").next().unwrap_or(f), l.line()));
        }
        if let Some(m) = info.payload().downcast_ref::<&str>() {
            s.push_str(m);
        } else if let Some(m) = info.payload().downcast_ref::<String>() {
            s.push_str(m);
        }
        if !info.can_unwind() {
            eprintln!("PANIC that cannot unwind at {s}");
        }
        let b = s.as_bytes();
        let n = b.len().min(1000);
        let mut m = [0; 1024];
        m[..n].copy_from_slice(&b[..n]);
        PANIC_MSG.with(|p| p.set((m, n)));
    }));
}
pub fn last_panic() -> String {
    let (m, n) = PANIC_MSG.with(|p| p.get());
    String::from_utf8_lossy(&m[..n]).into_owned()
}
/// run `f`; a panic becomes Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        drop(p);
        last_panic()
    })
}

thread_local! { static TRACE: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(1 << 16)); }
pub fn trace(s: &str) {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() + s.len() + 2 < t.capacity() {
            t.push_str(s);
            t.push(';');
        }
    })
}
pub fn trace_fmt(a: std::fmt::Arguments<'_>) {
    use std::fmt::Write;
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() + 400 < t.capacity() {
            let n = t.len();
            let _ = t.write_fmt(a);
            if t.len() > n + 300 {
                let mut k = n + 300;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            t.push(';');
        }
    })
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { $crate::ctx::trace_fmt(format_args!($($a)*)) };
}
pub fn clear_trace() {
    TRACE.with(|t| t.borrow_mut().clear())
}
pub fn take_trace() -> String {
    TRACE.with(|t| t.borrow().clone())
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// one case may not take longer than this (they take microseconds to milliseconds)
const CASE_LIMIT: Duration = Duration::from_secs(20);
static CASE_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn start_watchdog() {
    if cfg!(miri) || cfg!(tsan) {
        return;
    }
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::spawn(|| {
        let (mut last, mut cpu) = (0, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = CASE_NO.load(Relaxed);
            let t = process_cpu();
            if n != last || n == 0 {
                (last, cpu) = (n, t);
            } else if t - cpu > CASE_LIMIT.as_secs_f64() {
                // CPU time, not wall time: a busy machine must not look like a hang
                eprintln!("HANG: one case has used {:.0} s of CPU", t - cpu);
                std::process::exit(97);
            }
        }
    });
}
/// must not allocate: it runs beside the case whose allocations are being counted
fn process_cpu() -> f64 {
    #[repr(C)]
    struct Timespec(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec(0, 0);
    unsafe { clock_gettime(2, &mut t) };
    t.0 as f64 + t.1 as f64 / 1e9
}

impl Ctx {
    pub fn new(seed: u64, shard: usize, shards: usize, thorough: bool, secs: f64, crash: Option<File>) -> Self {
        Ctx {
            seed,
            shard,
            shards,
            thorough,
            budget: Duration::from_secs_f64(secs),
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            viols: BTreeMap::new(),
            known: vec![],
            inconclusive: BTreeMap::new(),
            only: None,
            crash,
            check_leaks: true,
            check_toks: true,
            behaviour: true,
            lastcrumb: 0,
        }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(
            self.seed
                .wrapping_mul(0x1000_0000_01b3)
                .wrapping_add(stream.wrapping_mul(0x9E37_79B9))
                .wrapping_add((self.shard as u64) << 40),
        )
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }
    /// fraction of the budget used
    pub fn used(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    /// true if this shard should run deterministic item i
    pub fn mine(&self, i: usize) -> bool {
        i % self.shards == self.shard
    }
    fn crumb(&mut self, sig: &str, input: &str) {
        if let Some(f) = &self.crash {
            let mut s = String::with_capacity(input.len() + sig.len() + 8);
            s.push_str(sig);
            s.push('\n');
            let mut k = input.len().min(6000);
            while !input.is_char_boundary(k) {
                k -= 1;
            }
            s.push_str(&input[..k]);
            let n = s.len();
            while s.len() < self.lastcrumb {
                s.push('\n');
            }
            self.lastcrumb = n;
            let _ = f.write_at(s.as_bytes(), 0);
        }
    }
    pub fn violation(&mut self, sig: String, detail: String, input: String) {
        let tr = take_trace();
        let input = if tr.is_empty() { input } else { format!("{input} :: {tr}") };
        let new = Viol { sig: sig.clone(), detail, input, count: 0 };
        let e = self.viols.entry(sig).or_insert_with(|| new.clone());
        let n = e.count + 1;
        if new.input.len() < e.input.len() {
            *e = new; // keep the shortest witness
        }
        e.count = n;
    }
    pub fn note_inconclusive(&mut self, what: &str) {
        *self.inconclusive.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        // keep the first few and then ever sparser ones
        let n = self.evals;
        if self.samples.len() < 3 || (n.is_power_of_two() && self.samples.len() < 12) {
            let mut s = s();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    /// Runs one case. `sig` is the stable part of the signature, `input` describes the case so
    /// that it can be replayed; `f` must own nothing when it returns.
    pub fn case(&mut self, sig: &str, input: &str, f: impl Fn() -> R) {
        if let Some(o) = &self.only {
            if !sig.contains(o.as_str()) {
                return;
            }
        }
        self.crumb(sig, input);
        self.evals += 1;
        CASE_NO.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.distinct.insert(hash64(input.as_bytes()) ^ hash64(sig.as_bytes()));
        self.sample(|| format!("[{sig}] {input}"));
        let mut leaks = 0;
        // a leak counts only if it happens on three runs in a row (lazily initialised globals)
        for round in 0..3 {
            mon::tok_reset();
            clear_trace();
            let m = mon::mark();
            let r = catch_unwind(AssertUnwindSafe(&f));
            let cat_detail = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some((e.cat, e.detail)),
                Err(p) => {
                    drop(p);
                    Some(("panic".to_string(), format!("panicked: {}", last_panic())))
                }
            };
            let (_, live, badn) = mon::tok_stats();
            let cat_detail = if self.behaviour { cat_detail } else if cat_detail.is_some() {
                // memory-only mode: whatever the outcome, look at the ledgers below, but a
                // panicking or refusing case is not judged for leaks
                if badn == 0 && mon::bad_free(m).is_none() {
                    return;
                }
                None
            } else {
                None
            };
            if let Some(b) = mon::bad_free(m) {
                self.violation(format!("{sig}/bad-free"), b, input.to_string());
                return;
            }
            if self.check_toks && badn > 0 {
                self.violation(format!("{sig}/drop"), mon::tok_bad_text(), input.to_string());
                return;
            }
            if let Some((c, d)) = cat_detail {
                self.violation(format!("{sig}/{c}"), d, input.to_string());
                return;
            }
            if self.check_toks && live > 0 {
                self.violation(
                    format!("{sig}/leak"),
                    format!("{live} value(s) handed over were never dropped"),
                    input.to_string(),
                );
                return;
            }
            let (blocks, bytes) = mon::leaked(m);
            if cfg!(miri) || cfg!(tsan) || !self.check_leaks || blocks <= 0 {
                return;
            }
            leaks += 1;
            if leaks == 3 {
                let sizes = mon::leak_sizes(m);
                self.violation(
                    format!("{sig}/leak"),
                    format!("{blocks} block(s), {bytes} byte(s) never freed (sizes {sizes:?})"),
                    input.to_string(),
                );
                return;
            }
            let _ = round;
        }
    }
}
