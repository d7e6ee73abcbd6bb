//! Bounded exhaustive exploration engine.
//!
//! A *state* is one complete assignment of the explored space (an encoded block, a call
//! with its buffers, a stream, a call history).  A *transition* is one edge taken by the
//! explorer from a state to a neighbouring one (one field set to another value, one call
//! or block appended).  States are deduplicated through a visited set, and every newly
//! reached state is executed on the real code and compared with the reference model.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Lock-free open-addressing set of 64-bit fingerprints.
pub struct Visited {
    tab: Vec<AtomicU64>,
    mask: usize,
    used: AtomicU64,
    pub saturated: AtomicBool,
}
impl Visited {
    pub fn new(log2: u32) -> Self {
        let n = 1usize << log2;
        // zeroed allocation: pages are only touched when used
        let mut v: Vec<u64> = vec![0; n];
        let p = v.as_mut_ptr() as *mut AtomicU64;
        let (l, c) = (v.len(), v.capacity());
        std::mem::forget(v);
        let tab = unsafe { Vec::from_raw_parts(p, l, c) };
        Visited { tab, mask: n - 1, used: AtomicU64::new(0), saturated: AtomicBool::new(false) }
    }
    /// true when the fingerprint was not present
    pub fn insert(&self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mut i = (h >> 7) as usize & self.mask;
        for _ in 0..256 {
            let cur = self.tab[i].load(Relaxed);
            if cur == h {
                return false;
            }
            if cur == 0 {
                match self.tab[i].compare_exchange(0, h, Relaxed, Relaxed) {
                    Ok(_) => return true,
                    Err(x) if x == h => return false,
                    Err(_) => {}
                }
            }
            i = (i + 1) & self.mask;
        }
        // Table too full: treat as new (never skips an execution), but say so.
        self.saturated.store(true, Relaxed);
        self.used.fetch_add(1, Relaxed);
        true
    }
}

#[inline]
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
#[inline]
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(mix(b ^ 0x632be59bd9b4e019)))
}
pub fn hash_bytes(tag: u64, d: &[u8]) -> u64 {
    let mut h = hash2(tag, d.len() as u64);
    for c in d.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = hash2(h, u64::from_le_bytes(b));
    }
    h
}
/// Deterministic generator for *base* states (the enumeration around them is exhaustive).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// One replayable case: ordered key/value pairs.
#[derive(Clone, Debug)]
pub struct Case(pub Vec<(String, String)>);
impl Case {
    pub fn new(kind: &str) -> Self {
        Case(vec![("kind".into(), kind.into())])
    }
    pub fn kv(mut self, k: &str, v: impl ToString) -> Self {
        self.0.push((k.into(), v.to_string()));
        self
    }
    pub fn hex(self, k: &str, d: &[u8]) -> Self {
        let s = hexs(d);
        self.kv(k, s)
    }
    pub fn get(&self, k: &str) -> &str {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> usize {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn bytes(&self, k: &str) -> Vec<u8> {
        unhex(self.get(k))
    }
    /// identity used by the known-findings file
    pub fn identity(&self) -> String {
        self.0.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
    }
}
pub fn hexs(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub struct Violation {
    pub case: Case,
    pub msg: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub visited: Visited,
    outcomes: Vec<AtomicU64>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub vcount: AtomicU64,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Vec<(String, String)>, // (identity, text)
    pub known_hit: Mutex<BTreeMap<usize, u64>>,
    pub samples: Mutex<Vec<String>>,
    sampled: AtomicUsize, // attempts
    pub families: Mutex<BTreeMap<String, (u64, u64)>>,
    pub start: Instant,
    pub notes: Mutex<Vec<String>>,
    pub stop: AtomicBool,
}

pub struct Local<'a> {
    pub ctx: &'a Ctx,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub fam: String,
    f_states: u64,
    f_trans: u64,
    pub last: Option<Case>,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}
/// What each worker is executing right now, for the watchdog and the allocation limit.
struct Slot {
    since: AtomicU64, // 0 = idle, else tick + 1
    p0: AtomicUsize,
    p1: AtomicUsize,
}
const NSLOTS: usize = 64;
static SLOTS: [Slot; NSLOTS] =
    [const { Slot { since: AtomicU64::new(0), p0: AtomicUsize::new(0), p1: AtomicUsize::new(0) } }; NSLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(1);
static TICK: AtomicU64 = AtomicU64::new(0);
/// an execution of the code under test that takes longer than this many seconds does not terminate
pub static STUCK_AFTER: AtomicU64 = AtomicU64::new(60);
/// largest single allocation the code under test may ask for (bytes)
pub static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(4 << 30);
static CTX: AtomicUsize = AtomicUsize::new(0);

/// What the code under test takes from the heap during one guarded execution (C26).
pub static METERED: AtomicBool = AtomicBool::new(false);
#[derive(Clone, Copy, Default)]
pub struct Meter {
    pub live: isize,
    pub peak: isize,
    pub count: u64,
}
thread_local! {
    static METER: Cell<Meter> = const { Cell::new(Meter { live: 0, peak: 0, count: 0 }) };
    static BUDGET: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[inline]
fn account(n: isize) {
    if METERED.load(Relaxed) {
        METER.with(|m| {
            let mut v = m.get();
            v.live += n;
            v.peak = v.peak.max(v.live);
            v.count += (n > 0) as u64;
            m.set(v);
        });
    }
}
/// the most heap the next guarded executions of this thread may hold at a time
pub fn budget(bytes: usize) {
    BUDGET.with(|b| b.set(bytes));
}
fn judge(m: Meter) -> Result<(), String> {
    let b = BUDGET.with(|b| b.get());
    if m.live != 0 {
        return Err(format!("memory: {} bytes are not given back", m.live));
    }
    if b == 0 && m.count > 0 {
        return Err(format!("memory: {} allocations where none are needed", m.count));
    }
    if m.peak > 0 && m.peak as usize > b {
        return Err(format!("memory: holds {} bytes at a time, more than {}", m.peak, b));
    }
    Ok(())
}
/// largest part of its budget any execution used, in thousandths
pub static TIGHTEST: AtomicU64 = AtomicU64::new(0);
pub static ALLOCATING: AtomicU64 = AtomicU64::new(0);

pub struct Limiter;
/// Small allocations come from per-thread free lists: eight workers on one malloc arena
/// spend their time waiting for its lock.
const CLASSES: usize = 64; // 16 .. 1024 bytes
const CHUNK: usize = 1 << 16;
struct Pool {
    free: [*mut u8; CLASSES],
    at: *mut u8,
    left: usize,
}
thread_local! {
    static POOL: std::cell::UnsafeCell<Pool> =
        const { std::cell::UnsafeCell::new(Pool { free: [std::ptr::null_mut(); CLASSES], at: std::ptr::null_mut(), left: 0 }) };
}
#[inline]
fn small(l: &std::alloc::Layout) -> bool {
    l.size() <= 16 * CLASSES && l.align() <= 16
}
unsafe impl std::alloc::GlobalAlloc for Limiter {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as isize);
        if small(&l) {
            let c = l.size().max(1).div_ceil(16) - 1;
            return POOL.with(|p| {
                let p = &mut *p.get();
                let h = p.free[c];
                if !h.is_null() {
                    p.free[c] = *(h as *mut *mut u8);
                    return h;
                }
                let n = 16 * (c + 1);
                if p.left < n {
                    p.at = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(CHUNK, 16));
                    if p.at.is_null() {
                        p.left = 0;
                        return p.at;
                    }
                    p.left = CHUNK;
                }
                let r = p.at;
                p.at = r.add(n);
                p.left -= n;
                r
            });
        }
        if l.size() > (1 << 20) {
            over_limit(l.size());
        }
        std::alloc::System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, q: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as isize));
        if small(&l) {
            let c = l.size().max(1).div_ceil(16) - 1;
            return POOL.with(|p| {
                let p = &mut *p.get();
                *(q as *mut *mut u8) = p.free[c];
                p.free[c] = q;
            });
        }
        std::alloc::System.dealloc(q, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if small(&l) {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        account(l.size() as isize);
        if l.size() > (1 << 20) {
            over_limit(l.size());
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let new = std::alloc::Layout::from_size_align_unchecked(n, l.align());
        if !small(&l) && !small(&new) {
            if n > (1 << 20) {
                over_limit(n);
            }
            account(n as isize - l.size() as isize);
            return std::alloc::System.realloc(p, l, n);
        }
        let q = self.alloc(new);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static GLOBAL: Limiter = Limiter;
#[cold]
fn over_limit(n: usize) {
    if n > ALLOC_LIMIT.load(Relaxed) && QUIET.with(|q| q.get()) {
        QUIET.with(|q| q.set(false));
        emergency(SLOT.with(|s| s.get()), format!("asks for a single allocation of {} bytes", n));
    }
}
/// The execution in slot `i` cannot be allowed to continue: report it, write the evidence, leave.
fn emergency(i: usize, msg: String) -> ! {
    let (a, b) = (SLOTS[i].p0.load(Relaxed), SLOTS[i].p1.load(Relaxed));
    let case = if a != 0 {
        let f: &dyn Fn() -> Case = unsafe { std::mem::transmute::<(usize, usize), &dyn Fn() -> Case>((a, b)) };
        f()
    } else {
        Case::new("unknown")
    };
    let c = CTX.load(Relaxed) as *const Ctx;
    if c.is_null() {
        println!("{}\n{}\nREPRODUCED", case.identity(), msg);
        std::process::exit(1);
    }
    let c = unsafe { &*c };
    c.report(case, msg);
    c.stop.store(true, Relaxed);
    let r = crate::report::finish(c, "the exploration was cut short by an execution that cannot continue", &[]);
    std::process::exit(r);
}
pub fn watchdog(ctx: Option<&Ctx>) {
    if let Some(c) = ctx {
        CTX.store(c as *const Ctx as usize, Relaxed);
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = TICK.fetch_add(1, Relaxed) + 1;
        for (i, s) in SLOTS.iter().enumerate() {
            let t = s.since.load(Relaxed);
            if t != 0 && now + 1 > t + STUCK_AFTER.load(Relaxed) {
                emergency(i, format!("no result after {} s", now + 1 - t));
            }
        }
    });
}
pub fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            def(i)
        }
    }));
}
/// Run the code under test; a panic becomes Err(message).  `case` describes the execution.
#[inline]
pub fn guard<R>(case: &dyn Fn() -> Case, f: impl FnOnce() -> R) -> Result<R, String> {
    let mut si = SLOT.with(|s| s.get());
    if si == 0 {
        si = NEXT_SLOT.fetch_add(1, Relaxed) % NSLOTS;
        SLOT.with(|s| s.set(si));
    }
    let slot = &SLOTS[si];
    let (a, b) = unsafe { std::mem::transmute::<&dyn Fn() -> Case, (usize, usize)>(case) };
    slot.p0.store(a, Relaxed);
    slot.p1.store(b, Relaxed);
    slot.since.store(TICK.load(Relaxed) + 1, Relaxed);
    QUIET.with(|q| q.set(true));
    if METERED.load(Relaxed) {
        METER.with(|m| m.set(Meter::default()));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if METERED.load(Relaxed) && r.is_ok() {
        let m = METER.with(|m| m.get());
        QUIET.with(|q| q.set(false));
        let b = BUDGET.with(|b| b.get());
        if m.count > 0 {
            ALLOCATING.fetch_add(1, Relaxed);
            if b > 0 && b < usize::MAX {
                TIGHTEST.fetch_max(m.peak.max(0) as u64 * 1000 / b as u64, Relaxed);
            }
        }
        if let Err(e) = judge(m) {
            slot.since.store(0, Relaxed);
            return Err(e);
        }
    }
    QUIET.with(|q| q.set(false));
    slot.since.store(0, Relaxed);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            format!("panic: {}", s)
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("panic: {}", s)
        } else {
            "panic".to_string()
        }
    })
}

impl<'a> Local<'a> {
    pub fn new(ctx: &'a Ctx) -> Self {
        Local { ctx, states: 0, transitions: 0, traces: 0, fam: String::new(), f_states: 0, f_trans: 0, last: None }
    }
    #[inline]
    pub fn edge(&mut self) {
        self.transitions += 1;
        self.f_trans += 1;
    }
    #[inline]
    pub fn fresh(&mut self, h: u64) -> bool {
        let n = self.ctx.visited.insert(h);
        if n {
            self.states += 1;
            self.f_states += 1;
        }
        n
    }
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    #[inline]
    pub fn outcome(&self, h: u64) {
        let h = mix(h);
        let bit = (h >> 10) as usize % (self.ctx.outcomes.len() * 64);
        let w = &self.ctx.outcomes[bit / 64];
        let m = 1u64 << (bit % 64);
        if w.load(Relaxed) & m == 0 {
            w.fetch_or(m, Relaxed);
        }
    }
    pub fn family(&mut self, name: &str) {
        self.flush_family();
        self.fam = name.to_string();
    }
    fn flush_family(&mut self) {
        if !self.fam.is_empty() {
            let mut f = self.ctx.families.lock().unwrap();
            let e = f.entry(self.fam.clone()).or_insert((0, 0));
            e.0 += self.f_states;
            e.1 += self.f_trans;
        }
        self.f_states = 0;
        self.f_trans = 0;
    }
    pub fn flush(&mut self) {
        self.flush_family();
        self.ctx.states.fetch_add(self.states, Relaxed);
        self.ctx.transitions.fetch_add(self.transitions, Relaxed);
        self.ctx.traces.fetch_add(self.traces, Relaxed);
        self.states = 0;
        self.transitions = 0;
        self.traces = 0;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        // spread out: the 1st, 2nd, 4th, ... state of every worker
        if !self.states.is_power_of_two() || self.ctx.sampled.load(Relaxed) >= 12 {
            return;
        }
        let mut v = self.ctx.samples.lock().unwrap();
        if v.len() < 12 {
            let t = s();
            if !v.iter().any(|x| x == &t) {
                v.push(t);
                self.ctx.sampled.store(v.len(), Relaxed);
            }
        }
    }
    #[cold]
    pub fn violation(&mut self, case: Case, msg: String) {
        self.ctx.report(case, msg)
    }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, log2: u32, known: Vec<(String, String)>) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx {
            id: id.into(),
            tier,
            seed,
            visited: Visited::new(log2),
            outcomes: (0..1 << 18).map(|_| AtomicU64::new(0)).collect(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            vcount: AtomicU64::new(0),
            violations: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            sampled: AtomicUsize::new(0),
            families: Mutex::new(BTreeMap::new()),
            start: Instant::now(),
            notes: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn report(&self, case: Case, msg: String) {
        if self.id == "C26" && !msg.starts_with("memory: ") && !msg.starts_with("asks for") {
            return; // the other properties have checks of their own
        }
        let idn = case.identity();
        if let Some(i) = self.known.iter().position(|k| k.0 == idn) {
            *self.known_hit.lock().unwrap().entry(i).or_insert(0) += 1;
            return;
        }
        let n = self.vcount.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 40 {
            v.push(Violation { case, msg });
        }
        if n > 200 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    pub fn distinct_outcomes(&self) -> u64 {
        // linear-counting estimate is avoided: this is a lower bound (set bits)
        self.outcomes.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum()
    }
    /// Run work items on all cores; items are claimed in order.
    pub fn run(&self, items: Vec<Item>) {
        let next = AtomicUsize::new(0);
        let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                s.spawn(|| {
                    let mut l = Local::new(self);
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() || self.stop.load(Relaxed) {
                            break;
                        }
                        l.family(&items[i].0);
                        let t0 = Instant::now();
                        (items[i].1)(&mut l);
                        if std::env::var("T2DMC_TIMES").is_ok() {
                            let d = t0.elapsed().as_secs_f64();
                            if d > 0.5 {
                                eprintln!("{:.2}s item {} {}", d, i, items[i].0);
                            }
                        }
                        l.flush_family();
                        l.fam.clear();
                    }
                    l.flush();
                });
            }
        });
    }
}

pub type Item = (String, Box<dyn Fn(&mut Local) + Sync + Send>);
pub fn item(name: impl Into<String>, f: impl Fn(&mut Local) + Sync + Send + 'static) -> Item {
    (name.into(), Box::new(f))
}

/// A bit field of an encoded block together with the alphabet it is deviated over.
#[derive(Clone, Debug)]
pub struct Field {
    pub lo: u32,
    pub len: u32,
    pub alpha: Vec<u128>,
}
impl Field {
    pub fn full(lo: u32, len: u32) -> Field {
        Field { lo, len, alpha: (0..1u128 << len).collect() }
    }
    /// boundary alphabet: 0, 1, max-1, max, mid, mid-1 and single bits
    pub fn edge(lo: u32, len: u32) -> Field {
        let max = if len >= 128 { u128::MAX } else { (1u128 << len) - 1 };
        let mut a = vec![0, 1, max, max.wrapping_sub(1) & max, max >> 1, (max >> 1) + 1];
        for i in 0..len.min(16) {
            a.push(1u128 << i);
        }
        a.iter_mut().for_each(|x| *x &= max);
        a.sort();
        a.dedup();
        Field { lo, len, alpha: a }
    }
    pub fn small(lo: u32, len: u32) -> Field {
        let max = (1u128 << len) - 1;
        let mut a = vec![0, 1, max, max >> 1, (max >> 1) + 1];
        a.iter_mut().for_each(|x| *x &= max);
        a.sort();
        a.dedup();
        Field { lo, len, alpha: a }
    }
    pub fn with(lo: u32, len: u32, alpha: Vec<u128>) -> Field {
        Field { lo, len, alpha }
    }
}
#[inline]
pub fn setf(b: u128, lo: u32, len: u32, v: u128) -> u128 {
    let m = if len >= 128 { u128::MAX } else { ((1u128 << len) - 1) << lo };
    (b & !m) | ((v << lo) & m)
}
#[inline]
pub fn getf(b: u128, lo: u32, len: u32) -> u128 {
    (b >> lo) & ((1u128 << len) - 1)
}

/// Explore every assignment that differs from `base` in at most `k` of `fields`.
pub fn deviations(
    l: &mut Local,
    base: u128,
    fields: &[Field],
    k: usize,
    f: &mut dyn FnMut(&mut Local, u128),
) {
    fn rec(
        l: &mut Local,
        cur: u128,
        fields: &[Field],
        k: usize,
        f: &mut dyn FnMut(&mut Local, u128),
    ) {
        l.edge();
        f(l, cur);
        if k == 0 || l.ctx.stop.load(Relaxed) {
            return;
        }
        for (i, fl) in fields.iter().enumerate() {
            let v0 = getf(cur, fl.lo, fl.len);
            for &v in &fl.alpha {
                if v != v0 {
                    rec(l, setf(cur, fl.lo, fl.len, v), &fields[i + 1..], k - 1, f);
                }
            }
        }
    }
    rec(l, base, fields, k, f)
}

/// Full cartesian product of `fields` over `base`.
pub fn product(
    l: &mut Local,
    base: u128,
    fields: &[Field],
    f: &mut dyn FnMut(&mut Local, u128),
) {
    if fields.is_empty() {
        l.edge();
        f(l, base);
        return;
    }
    for &v in &fields[0].alpha {
        if l.ctx.stop.load(Relaxed) {
            return;
        }
        product(l, setf(base, fields[0].lo, fields[0].len, v), &fields[1..], f);
    }
}

/// All single-bit fields of an n-bit block (flipped by `deviations`).
pub fn bit_fields(n: u32) -> Vec<Field> {
    (0..n).map(|i| Field::full(i, 1)).collect()
}
pub fn byte_fields(n: u32) -> Vec<Field> {
    (0..n).map(|i| Field::full(i * 8, 8)).collect()
}
pub fn nibble_fields(n: u32) -> Vec<Field> {
    (0..n).map(|i| Field::full(i * 4, 4)).collect()
}
