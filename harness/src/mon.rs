//! Monitors: allocation ledger, drop ledger, coverage counters, crash breadcrumbs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, Ordering::*};

// ---------------------------------------------------------------- allocation ledger
const CAP: usize = 1 << 20;
#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    align: u32,
    seq: u32,
}
struct Ledger {
    lock: AtomicBool,
    tab: UnsafeCell<*mut Slot>,
}
unsafe impl Sync for Ledger {}
static LEDGER: Ledger = Ledger {
    lock: AtomicBool::new(false),
    tab: UnsafeCell::new(std::ptr::null_mut()),
};
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
static SEQ: AtomicU64 = AtomicU64::new(0);
static OVERFLOWED: AtomicBool = AtomicBool::new(false);
pub static BAD_FREES: AtomicU64 = AtomicU64::new(0);
static BAD_KIND: AtomicU64 = AtomicU64::new(0); // 1 unknown pointer, 2 layout mismatch, 3 zero size
static BAD_INFO: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// Pad fresh/freed memory with patterns (off under miri, where it is useless)
pub struct Mon;

fn lock() {
    while LEDGER.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LEDGER.lock.store(false, Release);
}
fn h(p: usize) -> usize {
    ((p >> 4).wrapping_mul(0x9E3779B97F4A7C15)) >> (64 - 20)
}
unsafe fn tab() -> *mut Slot {
    unsafe {
        let t = *LEDGER.tab.get();
        if !t.is_null() {
            return t;
        }
        let t = System.alloc_zeroed(Layout::array::<Slot>(CAP).unwrap()) as *mut Slot;
        *LEDGER.tab.get() = t;
        t
    }
}
unsafe fn insert(ptr: usize, l: Layout) {
    unsafe {
        let live = LIVE.fetch_add(1, Relaxed);
        let b = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        PEAK_BYTES.fetch_max(b, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        if OVERFLOWED.load(Relaxed) {
            return;
        }
        if live as usize > CAP * 3 / 4 {
            OVERFLOWED.store(true, Relaxed);
            return;
        }
        let seq = SEQ.fetch_add(1, Relaxed) as u32;
        let t = tab();
        let mut i = h(ptr);
        while (*t.add(i)).ptr != 0 {
            i = (i + 1) & (CAP - 1);
        }
        *t.add(i) = Slot { ptr, size: l.size(), align: l.align() as u32, seq };
    }
}
/// returns false if the pointer must not be passed on to the system allocator
unsafe fn remove(ptr: usize, l: Layout) -> bool {
    unsafe {
        if OVERFLOWED.load(Relaxed) {
            LIVE.fetch_sub(1, Relaxed);
            return true;
        }
        let t = tab();
        let mut i = h(ptr);
        loop {
            let s = *t.add(i);
            if s.ptr == 0 {
                bad(1, ptr, l, 0, 0);
                return true; // let ASan have a look at it as well
            }
            if s.ptr == ptr {
                if s.size != l.size() || s.align as usize != l.align() {
                    bad(2, ptr, l, s.size, s.align as usize);
                }
                LIVE.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub(s.size as i64, Relaxed);
                break;
            }
            i = (i + 1) & (CAP - 1);
        }
        // backward-shift deletion
        let mut j = i;
        loop {
            j = (j + 1) & (CAP - 1);
            let s = *t.add(j);
            if s.ptr == 0 {
                break;
            }
            let k = h(s.ptr);
            if (j > i && (k <= i || k > j)) || (j < i && (k <= i && k > j)) {
                *t.add(i) = s;
                i = j;
            }
        }
        (*t.add(i)).ptr = 0;
        true
    }
}
fn bad(kind: u64, ptr: usize, l: Layout, size: usize, align: usize) {
    let _ = ptr;
    if BAD_FREES.fetch_add(1, Relaxed) == 0 {
        BAD_KIND.store(kind, Relaxed);
        BAD_INFO[0].store(l.size() as u64, Relaxed);
        BAD_INFO[1].store(l.align() as u64, Relaxed);
        BAD_INFO[2].store(size as u64, Relaxed);
        BAD_INFO[3].store(align as u64, Relaxed);
    }
}
#[cfg(not(any(miri, tsan)))]
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if l.size() == 0 {
                bad(3, 0, l, 0, 0);
            }
            let p = System.alloc(l);
            if !p.is_null() {
                // MemorySanitizer must see fresh memory as uninitialised
                if !cfg!(msan) {
                    std::ptr::write_bytes(p, 0xA5, l.size().min(4096));
                }
                lock();
                insert(p as usize, l);
                unlock();
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                lock();
                insert(p as usize, l);
                unlock();
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            lock();
            let known = remove(p as usize, l);
            unlock();
            if known {
                if BAD_FREES.load(Relaxed) == 0 {
                    std::ptr::write_bytes(p, 0xDE, l.size().min(4096));
                }
                System.dealloc(p, l)
            }
        }
    }
}
#[cfg(any(miri, tsan))]
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static GLOBAL: Mon = Mon;

#[derive(Clone, Copy)]
pub struct Mark {
    live: i64,
    bytes: i64,
    seq: u64,
    bad: u64,
}
pub fn mark() -> Mark {
    Mark {
        live: LIVE.load(Relaxed),
        bytes: LIVE_BYTES.load(Relaxed),
        seq: SEQ.load(Relaxed),
        bad: BAD_FREES.load(Relaxed),
    }
}
pub fn reset_peak() -> i64 {
    let b = LIVE_BYTES.load(Relaxed);
    PEAK_BYTES.store(b, Relaxed);
    b
}
pub fn peak() -> i64 {
    PEAK_BYTES.load(Relaxed)
}
/// (blocks leaked, bytes leaked) since the mark
pub fn leaked(m: Mark) -> (i64, i64) {
    (LIVE.load(Relaxed) - m.live, LIVE_BYTES.load(Relaxed) - m.bytes)
}
pub fn leak_sizes(m: Mark) -> [usize; 6] {
    let mut out = [0usize; 6];
    let mut n = 0;
    lock();
    unsafe {
        let t = tab();
        for i in 0..CAP {
            let s = *t.add(i);
            if s.ptr != 0 && s.seq >= m.seq as u32 && n < out.len() {
                out[n] = s.size;
                n += 1;
            }
        }
    }
    unlock();
    out
}
pub fn bad_free(m: Mark) -> Option<String> {
    if BAD_FREES.load(Relaxed) > m.bad {
        let i = |k: usize| BAD_INFO[k].load(Relaxed);
        let r = match BAD_KIND.load(Relaxed) {
            1 => format!("freed a block that is not allocated (size {} align {})", i(0), i(1)),
            2 => format!(
                "freed a block of size {} align {} as size {} align {}",
                i(2), i(3), i(0), i(1)
            ),
            _ => "zero-size allocation".to_string(),
        };
        BAD_FREES.store(0, Relaxed);
        Some(r)
    } else {
        None
    }
}

// ---------------------------------------------------------------- coverage counters
pub struct Counter {
    pub name: &'static str,
    pub n: AtomicU64,
    next: AtomicPtr<Counter>,
    reg: AtomicBool,
}
static HEAD: AtomicPtr<Counter> = AtomicPtr::new(std::ptr::null_mut());
impl Counter {
    pub const fn new(name: &'static str) -> Self {
        Counter {
            name,
            n: AtomicU64::new(0),
            next: AtomicPtr::new(std::ptr::null_mut()),
            reg: AtomicBool::new(false),
        }
    }
    /// relaxed throughout: counting must not order threads which the code under test does not order
    pub fn hit(&'static self, k: u64) {
        self.n.fetch_add(k, Relaxed);
        if !self.reg.load(Relaxed) && !self.reg.swap(true, Relaxed) {
            let me = self as *const Counter as *mut Counter;
            let mut head = HEAD.load(Relaxed);
            loop {
                self.next.store(head, Relaxed);
                match HEAD.compare_exchange(head, me, Relaxed, Relaxed) {
                    Ok(_) => break,
                    Err(h) => head = h,
                }
            }
        }
    }
}
pub fn counters() -> Vec<(&'static str, u64)> {
    let mut m = std::collections::BTreeMap::new();
    let mut p = HEAD.load(Relaxed);
    while !p.is_null() {
        let c = unsafe { &*p };
        *m.entry(c.name).or_insert(0) += c.n.load(Relaxed);
        p = c.next.load(Relaxed);
    }
    m.into_iter().collect()
}
#[macro_export]
macro_rules! cov {
    ($n:literal) => {
        $crate::cov!($n, 1)
    };
    ($n:literal, $k:expr) => {{
        static C: $crate::mon::Counter = $crate::mon::Counter::new($n);
        C.hit($k as u64);
    }};
}

// ---------------------------------------------------------------- drop ledger (tokens)
/// State of every token created in the current case: 0 = never, 1 = live, 2 = dropped
const TOK_CAP: usize = 1 << 16;
static TOK: [AtomicU64; TOK_CAP] = [const { AtomicU64::new(0) }; TOK_CAP];
static TOK_NEXT: AtomicU64 = AtomicU64::new(0);
static TOK_BAD: AtomicU64 = AtomicU64::new(0);
static TOK_BAD_KIND: AtomicU64 = AtomicU64::new(0);
const MAGIC: u64 = 0x7A6B_5C4D_3E2F_1001;

pub fn tok_reset() {
    let n = TOK_NEXT.swap(0, SeqCst);
    for t in TOK.iter().take((n as usize).min(TOK_CAP)) {
        t.store(0, Relaxed);
    }
    ZTOK.store(0, Relaxed);
    TOK_BAD.store(0, Relaxed);
    TOK_BAD_KIND.store(0, Relaxed);
}
fn tok_bad(kind: u64) {
    TOK_BAD.fetch_add(1, Relaxed);
    TOK_BAD_KIND.fetch_or(1 << kind, Relaxed);
}
/// (created, live, bad events)
pub fn tok_stats() -> (u64, u64, u64) {
    let n = TOK_NEXT.load(SeqCst);
    let mut live = 0;
    for t in TOK.iter().take((n as usize).min(TOK_CAP)) {
        if t.load(Relaxed) == 1 {
            live += 1;
        }
    }
    live += ZTOK.load(SeqCst).max(0) as u64;
    (n, live, TOK_BAD.load(Relaxed))
}
pub fn tok_bad_text() -> String {
    let k = TOK_BAD_KIND.load(Relaxed);
    let mut v = vec![];
    if k & 2 != 0 {
        v.push("token dropped twice");
    }
    if k & 4 != 0 {
        v.push("dropped memory that holds no token (uninitialised, freed or overwritten)");
    }
    if k & 16 != 0 {
        v.push("zero-sized tokens dropped more often than created");
    }
    if k & 8 != 0 {
        v.push("read memory that holds no live token");
    }
    v.join(", ")
}
/// A payload whose every creation, read and drop is recorded.
pub struct Tok {
    magic: u64,
    id: u64,
    val: Box<u64>,
}
impl Tok {
    pub fn new(v: u64) -> Self {
        let id = TOK_NEXT.fetch_add(1, Relaxed);
        if (id as usize) < TOK_CAP {
            TOK[id as usize].store(1, Relaxed);
        }
        Tok { magic: MAGIC, id, val: Box::new(v) }
    }
    pub fn val(&self) -> u64 {
        self.check();
        if self.magic != MAGIC {
            return u64::MAX;
        }
        *self.val
    }
    fn check(&self) {
        if self.magic != MAGIC
            || (self.id as usize) < TOK_CAP && TOK[self.id as usize].load(Relaxed) != 1
        {
            tok_bad(3);
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            tok_bad(2);
            // do not free garbage
            let b = std::mem::replace(&mut self.val, Box::new(0));
            std::mem::forget(b);
            return;
        }
        if (self.id as usize) < TOK_CAP && TOK[self.id as usize].swap(2, Relaxed) != 1 {
            tok_bad(1);
            let b = std::mem::replace(&mut self.val, Box::new(0));
            std::mem::forget(b);
            return;
        }
        // leave no trace that could look like a live token
        self.magic = 0xDEAD_DEAD_DEAD_DEAD;
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new(self.val())
    }
}
impl Default for Tok {
    fn default() -> Self {
        Tok::new(7)
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tok#{}", self.val())
    }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tok {}", self.val())
    }
}
impl std::str::FromStr for Tok {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse::<u64>().map(Tok::new)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.val() == o.val()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.val().cmp(&o.val())
    }
}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.val().hash(h)
    }
}
/// A token without any bytes: only counted.
static ZTOK: AtomicI64 = AtomicI64::new(0);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ZTok(());
impl ZTok {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        ZTOK.fetch_add(1, SeqCst);
        ZTok(())
    }
}
impl Default for ZTok {
    fn default() -> Self {
        ZTok::new()
    }
}
impl Clone for ZTok {
    fn clone(&self) -> Self {
        ZTok::new()
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        if ZTOK.fetch_sub(1, SeqCst) <= 0 {
            tok_bad(4);
        }
    }
}
/// A unit struct which is counted likewise, with a derived shape.
#[derive(facet::Facet)]
pub struct ZUnit;
impl ZUnit {
    pub fn make() -> Self {
        ZTOK.fetch_add(1, SeqCst);
        ZUnit
    }
}
impl Drop for ZUnit {
    fn drop(&mut self) {
        if ZTOK.fetch_sub(1, SeqCst) <= 0 {
            tok_bad(4);
        }
    }
}
unsafe impl facet::Facet for ZTok {
    const SHAPE: &'static facet::Shape = &const {
        facet::Shape::builder()
            .id(facet::ConstTypeId::of::<ZTok>())
            .layout(Layout::new::<ZTok>())
            .vtable(facet::value_vtable!(ZTok, |f, _opts| write!(f, "ZTok")))
            .def(facet::Def::Scalar(
                facet::ScalarDef::builder()
                    .affinity(facet::ScalarAffinity::opaque().build())
                    .build(),
            ))
            .build()
    };
}
unsafe impl facet::Facet for Tok {
    const SHAPE: &'static facet::Shape = &const {
        facet::Shape::builder()
            .id(facet::ConstTypeId::of::<Tok>())
            .layout(Layout::new::<Tok>())
            .vtable(facet::value_vtable!(Tok, |f, _opts| write!(f, "Tok")))
            .def(facet::Def::Scalar(
                facet::ScalarDef::builder()
                    .affinity(facet::ScalarAffinity::opaque().build())
                    .build(),
            ))
            .build()
    };
}
