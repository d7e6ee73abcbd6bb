//! C23 (32-bit targets), C24 (big-endian targets) and C25 (build profiles): the same code built
//! another way gives the same results.  Every explored call is made in this process and on the
//! other build: a WebAssembly module in node, a 32-bit big-endian program in the interpreter of
//! mips.rs, an s390x program (64-bit, big-endian) in Miri, or a second copy of the crate
//! compiled without overflow checks and debug assertions.
use super::crunch::Spec;
use crate::engine::*;
use crate::images::*;
use crate::refs::astc::FOOTPRINTS;
use crate::refs::crunch::*;
use std::io::{BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use crate::mips::{Machine, Program, Stop};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[allow(dead_code)]
mod table {
    use texture2ddecoder as t;
    include!("../../../port/src/table.rs");
}
#[cfg(feature = "plain")]
#[allow(dead_code)]
mod plain {
    use t2d_plain as t;
    include!("../../../port/src/table.rs");
}
#[allow(dead_code)]
#[path = "../../../port/src/wire.rs"]
mod wire;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Target {
    Wasm32,
    /// 64-bit, in Miri: slow
    BigEndian,
    /// 32-bit, in our own interpreter: fast; what it finds Miri has to confirm
    Mips,
    /// C27: the same program, its instructions counted
    Steps,
    Plain,
}
impl Target {
    fn name(self) -> &'static str {
        match self {
            Target::Wasm32 => "wasm32",
            Target::BigEndian => "big-endian",
            Target::Mips => "mips",
            Target::Steps => "steps",
            Target::Plain => "plain-release",
        }
    }
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
struct Worker {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Worker {
    fn new(t: Target) -> Worker {
        let r = root();
        let mut c = match t {
            Target::Wasm32 => {
                let mut c = Command::new("node");
                c.arg(format!("{}/port/js/worker.js", r)).arg(format!("{}/target/port/worker.wasm", r));
                c
            }
            _ => {
                let mut c = Command::new(format!("{}/port/miri.sh", r));
                c.arg("run");
                c
            }
        };
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        let tx = child.stdin.take().unwrap();
        let mut rx = BufReader::with_capacity(1 << 18, child.stdout.take().unwrap());
        let mut last = std::collections::VecDeque::new();
        for b in rx.by_ref().bytes() {
            let Ok(b) = b else { break };
            last.push_back(b);
            if last.len() > wire::HELLO.len() {
                last.pop_front();
            }
            if last.iter().eq(wire::HELLO) {
                return Worker { child, tx, rx };
            }
        }
        // the tools that run the other build do not work here: no answer
        eprintln!("the {} worker does not start", t.name());
        let _ = child.kill();
        std::process::exit(3)
    }
    fn send(&mut self, n: usize, b: &[u8]) -> Option<()> {
        self.tx.write_all(&(n as u32).to_le_bytes()).ok()?;
        self.tx.write_all(&(b.len() as u32).to_le_bytes()).ok()?;
        self.tx.write_all(b).ok()?;
        self.tx.flush().ok()
    }
    /// false when nothing arrives within that time: Miri takes minutes for what others do in a moment
    fn ready(&mut self, seconds: i32) -> bool {
        #[repr(C)]
        struct PollFd {
            fd: i32,
            events: i16,
            revents: i16,
        }
        extern "C" {
            fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
        }
        use std::os::fd::AsRawFd;
        if !self.rx.buffer().is_empty() {
            return true;
        }
        let mut p = PollFd { fd: self.rx.get_ref().as_raw_fd(), events: 1, revents: 0 };
        unsafe { poll(&mut p, 1, seconds * 1000) != 0 }
    }
    fn answer(&mut self) -> Option<(u8, u64)> {
        let mut a = [0u8; 9];
        self.rx.read_exact(&mut a).ok()?;
        Some((a[0], u64::from_le_bytes(a[1..].try_into().unwrap())))
    }
    fn image(&mut self, n: usize) -> Option<Vec<u32>> {
        let mut a = vec![0u8; 4 * n];
        self.rx.read_exact(&mut a).ok()?;
        Some(a.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn put(b: &mut Vec<u8>, func: usize, full: bool, n: [usize; 4], ilen: usize, d: &[u8]) {
    b.push(func as u8);
    b.push(full as u8);
    for v in n.into_iter().chain([ilen, d.len()]) {
        b.extend((v as u32).to_le_bytes());
    }
    b.extend(d);
}
fn case(t: Target, r: &wire::Request) -> Case {
    Case::new("port")
        .kv("target", t.name())
        .kv("function", table::entry(r.func).name)
        .kv("numbers", r.n.map(|v| v.to_string()).join(","))
        .kv("image_len", r.ilen)
        .hex("data", r.data)
}
/// the call in this process: 0 decoded, 1 refused, 2 panicked
fn here(r: &wire::Request, img: &mut Vec<u32>, c: &dyn Fn() -> Case) -> u8 {
    img.clear();
    img.resize(r.ilen, wire::PREFILL);
    match guard(c, || table::call(r.func, r.n, r.data, img)) {
        Ok(true) => 0,
        Ok(false) => 1,
        Err(_) => 2,
    }
}
#[cfg(feature = "plain")]
fn plain(r: &wire::Request, img: &mut Vec<u32>, c: &dyn Fn() -> Case) -> u8 {
    img.clear();
    img.resize(r.ilen, wire::PREFILL);
    match guard(c, || plain::call(r.func, r.n, r.data, img)) {
        Ok(true) => 0,
        Ok(false) => 1,
        Err(_) => 2,
    }
}
#[cfg(not(feature = "plain"))]
fn plain(_: &wire::Request, _: &mut Vec<u32>, _: &dyn Fn() -> Case) -> u8 {
    unreachable!()
}
const WHAT: [&str; 4] = ["decodes", "is refused", "panics", "leaves its memory"];
const BOTH: &str = "it panics on both";
fn judge(t: Target, here: (u8, u64), there: (u8, u64)) -> Result<u64, String> {
    if here.0 != there.0 {
        return Err(format!("here it {}, on {} it {}", WHAT[here.0 as usize & 3], t.name(), WHAT[there.0 as usize & 3]));
    }
    if here.0 == 2 {
        return Err(BOTH.into());
    }
    if here.0 == 0 && here.1 != there.1 {
        return Err(format!("different pixels on {}", t.name()));
    }
    Ok(hash2(here.0 as u64, if here.0 == 0 { here.1 } else { 0 }))
}
/// calls the interpreter gave no answer to: they need more memory or time than it has
static UNJUDGED: AtomicU64 = AtomicU64::new(0);
/// differences Miri does not see: the interpreter is wrong
/// calls Miri gave no answer to
static SLOW: AtomicU64 = AtomicU64::new(0);
const PATIENCE: i32 = 20;
static CONFIRMED: AtomicU64 = AtomicU64::new(0);
static UNCONFIRMED: AtomicU64 = AtomicU64::new(0);
static CONFIRM: std::sync::Mutex<()> = std::sync::Mutex::new(());
const EMULATED: usize = 64 << 20;
fn program() -> &'static Program {
    static P: std::sync::OnceLock<Program> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let b = std::fs::read(format!("{}/target/port/worker.elf", root())).unwrap_or_default();
        Program::load(&b).unwrap_or_else(|e| {
            eprintln!("the mips program does not load: {}", e);
            std::process::exit(3)
        })
    })
}
struct Emulated(Machine<'static>);
impl Emulated {
    fn new() -> Emulated {
        Emulated(Machine::new(program(), EMULATED))
    }
    /// 0 decoded, 1 refused, 2 panicked, 3 left its memory; nothing when it cannot say
    fn call(&mut self, r: &wire::Request, img: &mut Vec<u32>) -> Option<u8> {
        let (s, image, data) = self.execute(r, 2_000_000_000)?;
        img.clear();
        img.extend(self.0.mem[image..data].chunks_exact(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())));
        let a = match s {
            Stop::Returned(s) => Some(s as u8),
            Stop::Break(78) => Some(2),
            Stop::Fault(_) => Some(3),
            _ => None,
        };
        if a.is_none_or(|a| a > 1) {
            *self = Emulated::new();
        }
        a
    }
    /// how the call ends within so many instructions, and where its image begins and ends
    fn execute(&mut self, r: &wire::Request, limit: u64) -> Option<(Stop, usize, usize)> {
        let (p, m) = (program(), &mut self.0);
        let request = p.end as usize + 15 & !15;
        let image = request + 64;
        let data = image + 4 * r.ilen;
        let heap = data + r.data.len() + 31 & !15;
        if heap + (1 << 16) > EMULATED {
            return None;
        }
        for (k, v) in [r.func, r.n[0], r.n[1], r.n[2], r.n[3], image, r.ilen, data, r.data.len()].into_iter().enumerate() {
            m.put((request + 4 * k) as u32, v as u32);
        }
        m.mem[image..data].chunks_exact_mut(4).for_each(|c| c.copy_from_slice(&wire::PREFILL.to_be_bytes()));
        m.mem[data..data + r.data.len()].copy_from_slice(r.data);
        m.put(p.heap, heap as u32);
        m.put(p.heap + 4, EMULATED as u32);
        Some((m.call(p.answer, request as u32, p.base - 64, limit), image, data))
    }
}
/// What a call may cost, in instructions of the 32-bit program: about four times what the dearest
/// calls of each kind take.  A call with too little room or data has nothing to decode.
fn may_take(r: &wire::Request) -> u64 {
    const CALL: u64 = 10_000;
    let name = table::entry(r.func).name;
    if name.contains("crunch") {
        // tables, palettes and blocks (of which each takes at least one bit)
        let be = |at: usize| if r.data.len() > at + 1 { r.data[at] as u64 * 256 + r.data[at + 1] as u64 } else { 0 };
        let palettes = be(39) + be(47) + be(55) + be(63);
        return 6_000_000 + 8_000 * palettes + 20_000 * r.data.len() as u64;
    }
    if name.starts_with("crnd") {
        return CALL + 100 * r.data.len() as u64;
    }
    let per_block = |bw: usize, bh: usize| match name {
        _ if name.contains("astc") => 20_000 + 8_000 * (bw * bh) as u64,
        _ if name.contains("pvrtc") => 20_000 + 6_000 * (bw * bh) as u64,
        _ if name.contains("bc6") => 80_000,
        _ if name.contains("bc7") => 40_000,
        _ => 12_000,
    };
    if name.contains("block") {
        return CALL + per_block(r.n[2].min(16), r.n[3].min(16));
    }
    let (bw, bh, bytes) = match shapes().iter().find(|i| name.strip_prefix("decode_") == Some(i.name)) {
        Some(i) => (i.bw, i.bh, i.bytes),
        None if name == "decode_astc" => (r.n[2], r.n[3], 16),
        None if name == "decode_pvrtc" => (if r.n[2] != 0 { 8 } else { 4 }, 4, 8),
        None => (4, 4, 16),
    };
    let (w, h) = (r.n[0] as u128, r.n[1] as u128);
    if bw == 0 || bh == 0 || w * h > r.ilen as u128 {
        return CALL;
    }
    let n = w.div_ceil(bw as u128) * h.div_ceil(bh as u128);
    if n * bytes as u128 > r.data.len() as u128 {
        return CALL;
    }
    CALL + n as u64 * per_block(bw.min(16), bh.min(16))
}
/// ... and the stack it may use, in bytes
const STACK: u32 = 32 << 10;
/// the fullest any call used of what it may take, in thousandths
static FULLEST: AtomicU64 = AtomicU64::new(0);
fn shapes() -> &'static [Img] {
    static S: std::sync::OnceLock<Vec<Img>> = std::sync::OnceLock::new();
    S.get_or_init(all)
}
fn effort(m: &mut Emulated, r: &wire::Request) -> Result<u64, String> {
    let limit = may_take(r);
    let p = program();
    m.0.floor = p.base - STACK;
    let before = m.0.steps;
    let Some((stop, ..)) = m.execute(r, limit) else {
        UNJUDGED.fetch_add(1, Relaxed);
        return Ok(0);
    };
    let took = m.0.steps - before;
    if !matches!(stop, Stop::Returned(_)) {
        *m = Emulated::new();
    }
    match stop {
        Stop::Returned(_) | Stop::Break(78) if took <= limit => {
            FULLEST.fetch_max(1000 * took / limit, Relaxed);
            Ok(took)
        }
        Stop::Returned(_) | Stop::Break(78) | Stop::Steps => Err(format!("takes more than {} instructions", limit)),
        Stop::Fault(a) if a < p.base - STACK + 4096 && a >= p.base - (STACK << 4) => Err(format!("uses more than {} bytes of stack", STACK)),
        Stop::Fault(a) => Err(format!("leaves its memory ({:x})", a)),
        _ => {
            UNJUDGED.fetch_add(1, Relaxed);
            Ok(0)
        }
    }
}
/// An image of nx by ny blocks, all alike, and one of twice as many: the work at most doubles (and
/// a tenth more).
fn doubling(m: &mut Emulated, seen: &mut Seen, i: &Img, k: usize, nx: usize, ny: usize, wide: bool) -> Result<u64, String> {
    let a = alphabet(i, 8);
    let (mx, my) = if wide { (2 * nx, ny) } else { (nx, 2 * ny) };
    let mut took = [0; 2];
    for (t, (nx, ny)) in took.iter_mut().zip([(nx, ny), (mx, my)]) {
        if let Some(n) = seen.get(&(nx, ny)) {
            *t = *n;
            continue;
        }
        let (w, h) = (nx * i.bw, ny * i.bh);
        let x: Vec<u8> = a[k % a.len()].iter().copied().cycle().take(i.need(w, h)).collect();
        let mut b = vec![];
        put(&mut b, image_func(i), false, [w, h, 0, 0], w * h, &x);
        *t = effort(m, &wire::parse(&b).0)?;
        seen.insert((nx, ny), *t);
    }
    // (no answer when the interpreter has no room for it)
    if took[0] > 0 && took[1] > 2 * took[0] + took[0] / 10 + 10_000 {
        return Err(format!("{}x{} blocks take {} instructions, {}x{} take {}", nx, ny, took[0], mx, my, took[1]));
    }
    Ok(took[1])
}
type Seen = std::collections::HashMap<(usize, usize), u64>;
fn growth_items(c: &Ctx) -> Vec<Item> {
    let most = if c.thorough() { 14 } else { 12 };
    let mut v = vec![];
    for i in all() {
        for k in 0..if c.thorough() { 4 } else { 1 } {
            v.push(item(format!("{}: growth", i.name), move |l| {
                let (mut m, mut seen) = (Emulated::new(), Seen::new());
                for ex in 0..=most {
                    for ey in 0..=most - ex {
                        // strips, squares and what lies between at the largest sizes
                        if ex * ey != 0 && ex != ey && ex + ey < most {
                            continue;
                        }
                        for wide in [false, true] {
                            l.edge();
                            let (nx, ny) = (1usize << ex, 1 << ey);
                            if !l.fresh(hash2(hash2(i.bw as u64 * 64 + i.bh as u64, image_func(&i) as u64 * 8 + k as u64), hash2(nx as u64 * 2 + wide as u64, ny as u64))) {
                                continue;
                            }
                            l.trace();
                            match doubling(&mut m, &mut seen, &i, k, nx, ny, wide) {
                                Ok(n) => l.outcome(hash2(7, n)),
                                Err(e) => l.violation(Case::new("growth").kv("image", i.name).kv("block", k).kv("nx", nx).kv("ny", ny).kv("wide", wide as usize), e),
                            }
                        }
                    }
                }
            }));
        }
    }
    v
}
pub fn replay_growth(c: &Case) -> Result<String, String> {
    let i = find(c.get("image"));
    doubling(&mut Emulated::new(), &mut Seen::new(), &i, c.num("block"), c.num("nx"), c.num("ny"), c.num("wide") != 0).map(|n| format!("{} instructions", n))
}
/// collects calls into batches
struct Runner<'a, 'b> {
    l: &'a mut Local<'b>,
    t: Target,
    w: Option<Worker>,
    buf: Vec<u8>,
    count: usize,
    img: Vec<u32>,
    other: Vec<u32>,
    m: Option<Emulated>,
}
impl<'a, 'b> Runner<'a, 'b> {
    fn new(l: &'a mut Local<'b>, t: Target, w: Option<Worker>, m: Option<Emulated>) -> Self {
        Runner { l, t, w, buf: vec![], count: 0, img: vec![], other: vec![], m }
    }
    fn add(&mut self, func: usize, n: [usize; 4], ilen: usize, d: &[u8]) {
        self.l.edge();
        let h = hash2(hash2(func as u64, (n[0] as u64) << 32 ^ n[1] as u64), hash2((n[2] as u64) << 32 ^ n[3] as u64, ilen as u64));
        if !self.l.fresh(hash_bytes(h, d)) {
            return;
        }
        put(&mut self.buf, func, false, n, ilen, d);
        self.count += 1;
        let limit = match self.t {
            Target::Plain | Target::Mips | Target::Steps => 1,
            Target::Wasm32 => 4000,
            Target::BigEndian => 100,
        };
        if self.count >= limit || self.buf.len() > 1 << 20 {
            self.flush();
        }
    }
    fn flush(&mut self) {
        let n = std::mem::take(&mut self.count);
        let buf = std::mem::take(&mut self.buf);
        if n > 0 && !self.l.ctx.stop.load(Relaxed) {
            self.exec(n, &buf);
        }
        self.buf = buf;
        self.buf.clear();
    }
    fn exec(&mut self, n: usize, b: &[u8]) {
        let t = self.t;
        if t == Target::Plain {
            let mut at = 0;
            for _ in 0..n {
                let (r, used) = wire::parse(&b[at..]);
                at += used;
                self.l.trace();
                let c = || case(t, &r);
                let x = here(&r, &mut self.img, &c);
                let y = plain(&r, &mut self.other, &c);
                let (hx, hy) = (wire::hash(&self.img), if self.img == self.other { 0 } else { 1 });
                match judge(t, (x, hx), (y, if hy == 0 { hx } else { !hx })) {
                    Ok(o) => self.l.outcome(o),
                    Err(e) => self.l.violation(c(), e),
                }
            }
            return;
        }
        if t == Target::Steps {
            let mut at = 0;
            for _ in 0..n {
                let (r, used) = wire::parse(&b[at..]);
                at += used;
                self.l.trace();
                let m = self.m.get_or_insert_with(Emulated::new);
                match effort(m, &r) {
                    Ok(took) => self.l.outcome(hash2(r.func as u64, took)),
                    Err(e) => self.l.violation(case(t, &r), e),
                }
            }
            return;
        }
        if t == Target::Mips {
            let mut at = 0;
            for _ in 0..n {
                let (r, used) = wire::parse(&b[at..]);
                at += used;
                self.l.trace();
                let c = || case(Target::BigEndian, &r);
                let x = here(&r, &mut self.img, &c);
                let m = self.m.get_or_insert_with(Emulated::new);
                let y = m.call(&r, &mut self.other);
                let Some(y) = y else {
                    UNJUDGED.fetch_add(1, Relaxed);
                    continue;
                };
                let h = wire::hash(&self.img);
                let same = self.img == self.other;
                match judge(t, (x, h), (y, if same { h } else { !h })) {
                    Ok(o) => self.l.outcome(o),
                    Err(e) => self.confirm(&r, &e),
                }
            }
            return;
        }
        let mut w = self.w.take().unwrap_or_else(|| Worker::new(t));
        let mut got = Vec::with_capacity(n);
        let mut want = Vec::with_capacity(n);
        let sent = w.send(n, b).is_some();
        let mut at = 0;
        let mut ends = Vec::with_capacity(n);
        for _ in 0..n {
            let (r, used) = wire::parse(&b[at..]);
            let x = here(&r, &mut self.img, &|| case(t, &r));
            want.push((x, wire::hash(&self.img)));
            ends.push(at);
            at += used;
        }
        let mut late = false;
        if sent && t == Target::BigEndian {
            while got.len() < n {
                late = !w.ready(PATIENCE);
                match if late { None } else { w.answer() } {
                    Some(a) => got.push(a),
                    None => break,
                }
            }
        } else if sent {
            let c = || case(t, &wire::parse(b).0).kv("batch", n);
            let _ = guard(&c, || {
                for _ in 0..n {
                    match w.answer() {
                        Some(a) => got.push(a),
                        None => break,
                    }
                }
            });
        }
        if late {
            // no verdict on this call; those behind it go to another worker
            let at = got.len();
            SLOW.fetch_add(1, Relaxed);
            drop(w);
            self.conclude(b, &ends, want, got);
            if at + 1 < n {
                self.exec(n - at - 1, &b[ends[at + 1]..]);
            }
            return;
        }
        if got.len() == n {
            self.w = Some(w);
            self.conclude(b, &ends, want, got);
            return;
        }
        // the worker ended: find the call that ended it
        drop(w);
        if self.l.ctx.stop.load(Relaxed) {
            return;
        }
        if n == 1 {
            self.l.trace();
            let c = case(t, &wire::parse(b).0);
            self.l.violation(c, format!("the call ends the {} process", t.name()));
            return;
        }
        let m = ends[n / 2];
        self.exec(n / 2, &b[..m]);
        self.exec(n - n / 2, &b[m..]);
    }
    fn conclude(&mut self, b: &[u8], ends: &[usize], want: Vec<(u8, u64)>, got: Vec<(u8, u64)>) {
        let t = self.t;
        {
            for ((at, x), y) in ends.iter().zip(want).zip(got) {
                self.l.trace();
                match judge(t, x, y) {
                    Ok(o) => {
                        self.l.outcome(o);
                        let r = wire::parse(&b[*at..]).0;
                        self.l.sample(|| format!("{} {:?} image {} data {}: same on {}", table::entry(r.func).name, r.n, r.ilen, hexs(&r.data[..r.data.len().min(24)]), t.name()));
                    }
                    Err(e) => {
                        let c = case(t, &wire::parse(&b[*at..]).0);
                        self.l.violation(c, e)
                    }
                }
            }
        }
    }
    /// a difference our interpreter saw is a violation when Miri sees one too
    fn confirm(&mut self, r: &wire::Request, e: &str) {
        let _one = CONFIRM.lock().unwrap();
        if self.l.ctx.stop.load(Relaxed) || UNCONFIRMED.load(Relaxed) >= 12 {
            return;
        }
        let c = case(Target::BigEndian, r);
        if e == BOTH {
            return self.l.violation(c, e.to_string());
        }
        match replay(&c) {
            Err(e) => {
                self.l.violation(c, e);
                // each takes Miri seconds
                if CONFIRMED.fetch_add(1, Relaxed) >= 5 {
                    self.l.ctx.stop.store(true, Relaxed);
                }
            }
            Ok(_) => {
                if UNCONFIRMED.fetch_add(1, Relaxed) == 0 {
                    println!("note: {} {:?} data {}: {} in the mips interpreter; not confirmed by Miri", table::entry(r.func).name, r.n, hexs(&r.data[..r.data.len().min(64)]), e);
                }
            }
        }
    }
    fn flips(&mut self, b: u128, from: u32, bits: u32, k: usize, f: &mut dyn FnMut(&mut Self, u128)) {
        f(self, b);
        if k > 0 && !self.l.ctx.stop.load(Relaxed) {
            for i in from..bits {
                self.flips(b ^ 1 << i, i + 1, bits, k - 1, f);
            }
        }
    }
}
fn func(name: &str) -> usize {
    (0..table::N).find(|i| table::entry(*i).name == name).unwrap_or_else(|| panic!("no function {}", name))
}
fn image_func(i: &Img) -> usize {
    func(&format!("decode_{}", i.name))
}

/// how far to go
#[derive(Clone, Copy)]
struct Depth {
    bases: usize,    // base blocks
    special: usize,  // ... and special ones
    one: usize,      // of these, with every bit flipped
    two: usize,      // ... every pair of bits
    three: usize,    // ... every three bits
    bytes: usize,    // ... every byte given every value
    edge: usize,     // ... every byte given boundary values
    modes: usize,    // stride over the ASTC block modes
    cems: usize,     // endpoint words per ASTC mode and partition count
    feet: usize,     // stride over the ASTC footprints
    sizes: usize,    // image sizes, in blocks
    pairs: usize,    // pairs of blocks in an image
    grids: u32,      // PVRTC grids, log2
    crn: usize,      // Crunch image sizes
    crn_step: usize,
    damage: usize,   // values per damaged byte of a Crunch file
    damage_step: usize,
    big: bool,       // images beyond 16-bit sizes
}
fn depth(t: Target, th: bool) -> Depth {
    match (t, th) {
        (Target::BigEndian, false) => Depth { bases: 7, special: 6, one: 4, two: 0, three: 0, bytes: 0, edge: 1, modes: 23, cems: 1, feet: 5, sizes: 1, pairs: 4, grids: 2, crn: 6, crn_step: 5, damage: 1, damage_step: 13, big: false },
        (Target::BigEndian, true) => Depth { bases: 12, special: 20, one: 10, two: 0, three: 0, bytes: 0, edge: 3, modes: 9, cems: 1, feet: 2, sizes: 1, pairs: 8, grids: 3, crn: 10, crn_step: 2, damage: 2, damage_step: 5, big: false },
        (Target::Mips, false) => Depth { bases: 50, special: 40, one: 90, two: 10, three: 0, bytes: 30, edge: 90, modes: 1, cems: 10, feet: 1, sizes: 3, pairs: 24, grids: 5, crn: 12, crn_step: 1, damage: 5, damage_step: 1, big: true },
        (Target::Steps, false) => Depth { bases: 50, special: 40, one: 90, two: 10, three: 0, bytes: 30, edge: 90, modes: 1, cems: 10, feet: 1, sizes: 3, pairs: 24, grids: 5, crn: 14, crn_step: 1, damage: 9, damage_step: 1, big: true },
        (Target::Mips | Target::Steps, true) => Depth { bases: 150, special: 64, one: 214, two: 24, three: 0, bytes: 100, edge: 214, modes: 1, cems: 24, feet: 1, sizes: 4, pairs: 40, grids: 6, crn: 20, crn_step: 1, damage: 40, damage_step: 1, big: true },
        (Target::Wasm32, false) => Depth { bases: 80, special: 40, one: 120, two: 24, three: 0, bytes: 60, edge: 120, modes: 1, cems: 16, feet: 1, sizes: 3, pairs: 24, grids: 5, crn: 14, crn_step: 1, damage: 9, damage_step: 1, big: true },
        (Target::Wasm32, true) => Depth { bases: 400, special: 64, one: 464, two: 60, three: 2, bytes: 464, edge: 464, modes: 1, cems: 64, feet: 1, sizes: 6, pairs: 60, grids: 7, crn: 33, crn_step: 1, damage: 256, damage_step: 1, big: true },
        (Target::Plain, false) => Depth { bases: 100, special: 40, one: 140, two: 30, three: 0, bytes: 100, edge: 140, modes: 1, cems: 16, feet: 1, sizes: 3, pairs: 24, grids: 5, crn: 14, crn_step: 1, damage: 9, damage_step: 1, big: true },
        (Target::Plain, true) => Depth { bases: 1500, special: 64, one: 1600, two: 300, three: 4, bytes: 1600, edge: 1600, modes: 1, cems: 64, feet: 1, sizes: 6, pairs: 60, grids: 7, crn: 33, crn_step: 1, damage: 256, damage_step: 1, big: true },
    }
}
const EDGE: [u8; 8] = [0, 1, 2, 0x7f, 0x80, 0xc0, 0xfe, 0xff];
type Job = Box<dyn Fn(&mut Runner) + Sync + Send>;

/// a block function: its index, the two extra numbers, block bytes, image length
#[derive(Clone, Copy)]
struct Blk {
    func: usize,
    n: [usize; 4],
    bytes: usize,
    ilen: usize,
    shape: Img,
}
fn blocks(d: Depth) -> Vec<Blk> {
    let mut v = vec![];
    for i in all() {
        match i.class {
            Class::Plain(_) => {
                let name = match i.name {
                    "bc6_signed" => "decode_bc6_block_signed".to_string(),
                    "bc6_unsigned" => "decode_bc6_block_unsigned".to_string(),
                    n => format!("decode_{}_block", n),
                };
                v.push(Blk { func: func(&name), n: [0; 4], bytes: i.bytes, ilen: 20, shape: i });
            }
            Class::Astc => {
                let k = FOOTPRINTS.iter().position(|f| *f == (i.bw, i.bh)).unwrap();
                if k % d.feet == 0 {
                    v.push(Blk { func: func("decode_astc_block"), n: [0, 0, i.bw, i.bh], bytes: 16, ilen: i.bw * i.bh, shape: i });
                }
            }
            Class::Pvrtc => v.push(Blk { func: image_func(&i), n: [i.bw, i.bh, 0, 0], bytes: 8, ilen: i.bw * i.bh, shape: i }),
        }
    }
    let eacr = find("eacr");
    for ch in 0..4 {
        v.push(Blk { func: func("decode_eac_block"), n: [0, 0, ch, 0], bytes: 8, ilen: 20, shape: eacr });
        v.push(Blk { func: func("decode_eac_signed_block"), n: [0, 0, ch, 0], bytes: 8, ilen: 20, shape: eacr });
    }
    v.push(Blk { func: func("decode_etc2_a8_block"), n: [0; 4], bytes: 8, ilen: 20, shape: eacr });
    for s in 0..2 {
        v.push(Blk { func: func("decode_bc6_block"), n: [0, 0, s, 0], bytes: 16, ilen: 20, shape: find("bc6_signed") });
    }
    v
}
fn jobs(t: Target, d: Depth) -> Vec<(String, Job)> {
    let mut v: Vec<(String, Job)> = vec![];
    let mut job = |name: String, f: Job| v.push((name, f));
    // 1. single blocks
    for b in blocks(d) {
        let i = b.shape;
        let mut list: Vec<u128> = super::blocks::bases(d.bases, 8 * b.bytes as u32, 700 + b.func as u64);
        let mut sp: Vec<u128> = alphabet(&i, 6).into_iter().map(|x| crate::refs::le(&x, i.bytes) & if b.bytes == 8 { u64::MAX as u128 } else { u128::MAX }).collect();
        sp.dedup();
        let keep = sp.len().min(d.special);
        // spread over all the special blocks, and deviate from them first
        let step = sp.len().div_ceil(keep.max(1)).max(1);
        let mut sp: Vec<u128> = sp.iter().skip(i.bw % step).step_by(step).copied().collect();
        let half = list.split_off(list.len().min(2));
        sp.extend(list);
        sp.extend(half);
        let bits = 8 * b.bytes as u32;
        for (k, x) in sp.into_iter().enumerate() {
            let n = if k < d.three { 3 } else if k < d.two { 2 } else if k < d.one { 1 } else { 0 };
            let (bytes, edge) = (k < d.bytes, k < d.edge);
            job(
                format!("{}: single blocks", table::entry(b.func).name),
                Box::new(move |r| {
                    r.flips(x, 0, bits, n, &mut |r, v| r.add(b.func, b.n, b.ilen, &v.to_le_bytes()[..b.bytes]));
                    let base = x.to_le_bytes();
                    for at in 0..b.bytes {
                        let mut y = base;
                        if bytes {
                            for v in 0..=255 {
                                y[at] = v;
                                r.add(b.func, b.n, b.ilen, &y[..b.bytes]);
                            }
                        } else if edge {
                            for v in EDGE {
                                y[at] = v;
                                r.add(b.func, b.n, b.ilen, &y[..b.bytes]);
                            }
                        }
                    }
                }),
            );
        }
        if i.class == Class::Astc {
            for part in 0..4usize {
                job(
                    "decode_astc_block: block modes".into(),
                    Box::new(move |r| {
                        let mut g = Rng(i.bw as u64 * 32 + i.bh as u64);
                        let off = (i.bw + i.bh) % d.modes;
                        for mode in (off..2048).step_by(d.modes) {
                            for parts in 1..=4usize {
                                let rest = g.u128();
                                if parts - 1 != part {
                                    continue;
                                }
                                let all = if parts == 1 { 16 } else { 64 };
                                let step = (all / d.cems.min(all)).max(1);
                                for cem in (mode / d.modes % step..all).step_by(step) {
                                    let x = if parts == 1 {
                                        super::astc::one(mode, cem, rest)
                                    } else {
                                        super::astc::multi(mode, parts, (rest >> 64) as usize & 1023, cem, rest)
                                    };
                                    r.add(b.func, b.n, b.ilen, &x.to_le_bytes());
                                }
                            }
                        }
                    }),
                );
            }
        }
    }
    // 2. images: sizes and lengths
    for i in all() {
        let fi = image_func(&i);
        job(
            format!("{}: sizes and lengths", table::entry(fi).name),
            Box::new(move |r| {
                let a = alphabet(&i, 8);
                let step = if t == Target::BigEndian { 3 } else { 1 };
                for w in (0..=d.sizes * i.bw + 2).step_by(step) {
                    for h in (0..=d.sizes * i.bh + 2).step_by(step) {
                        let n = i.need(w, h);
                        let x: Vec<u8> = (0..n / i.bytes + 1).flat_map(|k| a[(k + w * 3 + h) % a.len()].clone()).collect();
                        r.add(fi, [w, h, 0, 0], w * h, &x[..n]);
                        r.add(fi, [w, h, 0, 0], w * h + 3, &x[..n + 1]);
                        r.add(fi, [w, h, 0, 0], w * h, &x[..n.saturating_sub(1)]);
                        r.add(fi, [w, h, 0, 0], (w * h).saturating_sub(1), &x[..n]);
                    }
                }
                if t == Target::Steps {
                    // room and data beyond what the image needs
                    for (w, h) in [(0, 0), (1, 1), (i.bw, i.bh), (3 * i.bw, 2 * i.bh + 1)] {
                        let x: Vec<u8> = (0..1 << 18).map(|k| (k * 7 >> 3) as u8).collect();
                        r.add(fi, [w, h, 0, 0], 1 << 18, &x);
                        r.add(fi, [w, h, 0, 0], (w * h).saturating_sub(1), &x);
                        r.add(fi, [w, h, 0, 0], 1 << 18, &x[..i.need(w, h).saturating_sub(1)]);
                    }
                }
                if d.big {
                    for (w, h) in [(65535, 1), (65536, 1), (65537, 2), (1, 65537), (3, 70001), (300, 257), (512, 512)] {
                        let n = i.need(w, h);
                        let x: Vec<u8> = (0..n / i.bytes + 1).flat_map(|k| a[(k * 7 + k / 41) % a.len()].clone()).collect();
                        r.add(fi, [w, h, 0, 0], w * h, &x[..n]);
                        r.add(fi, [w, h, 0, 0], w * h - 1, &x[..n]);
                        r.add(fi, [w, h, 0, 0], w * h, &x[..n - 1]);
                    }
                }
            }),
        );
        // two blocks next to each other
        job(
            format!("{}: pairs of blocks", table::entry(fi).name),
            Box::new(move |r| {
                let a = alphabet(&i, 6);
                let step = a.len().div_ceil(d.pairs).max(1);
                for (k, x) in a.iter().step_by(step).enumerate() {
                    for y in a.iter().skip(k % step).step_by(step) {
                        let z = [&x[..], y].concat();
                        r.add(fi, [2 * i.bw, i.bh, 0, 0], 2 * i.bw * i.bh, &z);
                        r.add(fi, [i.bw, 2 * i.bh, 0, 0], 2 * i.bw * i.bh, &z);
                    }
                }
            }),
        );
        if i.class == Class::Pvrtc {
            for ex in 0..=d.grids {
                job(
                    format!("{}: block grids", table::entry(fi).name),
                    Box::new(move |r| {
                        for ey in 0..=d.grids {
                            let (w, h) = (i.bw << ex, i.bh << ey);
                            for s in 0..2 {
                                let mut g = Rng((ex * 16 + ey) as u64 + 100 * s);
                                let x: Vec<u8> = (0..i.nblocks(w, h)).flat_map(|_| g.next().to_le_bytes()).collect();
                                r.add(fi, [w, h, 0, 0], w * h, &x);
                                r.add(fi, [w - 1, h - 2, 0, 0], w * h, &x);
                            }
                        }
                    }),
                );
            }
        }
    }
    // 3. the general functions
    job(
        "general functions".into(),
        Box::new(move |r| {
            let x: Vec<u8> = (0..36).flat_map(|k| sample_block(&find("astc_4_4"), k % 16)).collect();
            let wide: Vec<usize> = (0..14).chain([16, 144, 145, 65536, 1 << 31, u32::MAX as usize]).collect();
            let fa = func("decode_astc");
            let step = if t == Target::BigEndian { 4 } else { 1 };
            for bw in wide.iter().step_by(step) {
                for bh in wide.iter().step_by(step) {
                    for (w, h) in [(12, 12), (5, 4), (1, 1), (25, 13), (0, 0)].into_iter().take(if t == Target::BigEndian { 2 } else { 5 }) {
                        r.add(fa, [w, h, *bw, *bh], w * h, &x);
                    }
                }
            }
            for (name, shape, flag) in [("decode_bc6", "bc6_signed", 1), ("decode_bc6", "bc6_unsigned", 0), ("decode_pvrtc", "pvrtc_2bpp", 1), ("decode_pvrtc", "pvrtc_4bpp", 0)] {
                let (f, i) = (func(name), find(shape));
                for (nx, ny) in [(1, 1), (2, 1), (1, 2), (2, 2), (4, 2)] {
                    for s in 0..8 {
                        let x: Vec<u8> = (0..nx * ny).flat_map(|k| sample_block(&i, s * 8 + k as u64)).collect();
                        r.add(f, [nx * i.bw, ny * i.bh, flag, 0], nx * ny * i.bw * i.bh, &x);
                        r.add(f, [nx * i.bw, ny * i.bh, flag, 0], nx * ny * i.bw * i.bh, &x[1..]);
                    }
                }
            }
        }),
    );
    // 4. sizes no buffer can have
    job(
        "extreme sizes".into(),
        Box::new(move |r| {
            let nums: Vec<usize> = [1, 3, 4, 5, 12, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x20000, 0x7fffffff, 0x80000000, 0xfffffff8, 0xfffffff9, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff].to_vec();
            let x = [0x5au8; 64];
            let f: Vec<usize> = all().iter().map(image_func).chain([func("decode_crunch"), func("decode_unity_crunch")]).collect();
            for (k, f) in f.into_iter().enumerate() {
                for (a, w) in nums.iter().enumerate() {
                    for (b, h) in nums.iter().enumerate() {
                        if t == Target::BigEndian && (a + b + k) % 9 != 0 {
                            continue;
                        }
                        r.add(f, [*w, *h, 0, 0], 64, &x);
                        // a product that wraps to the room there is
                        let ilen = (*w as u32).wrapping_mul(*h as u32) as usize;
                        if ilen <= 4096 && t != Target::BigEndian {
                            r.add(f, [*w, *h, 0, 0], ilen, &x);
                            r.add(f, [*w, *h, 0, 0], ilen, &[]);
                        }
                    }
                }
            }
            let f = func("decode_astc");
            for w in &nums {
                for bw in &nums {
                    if t != Target::BigEndian || (w + bw) % 11 == 0 {
                        r.add(f, [*w, *w, *bw, *bw], 64, &x);
                        r.add(f, [*w, 4, 4, *bw], 64, &x);
                        r.add(f, [4, *w, *bw, 4], 64, &x);
                    }
                }
            }
        }),
    );
    // 5. Crunch files
    for unity in [false, true] {
        let formats: Vec<u8> = if unity { UNITY_FORMATS.to_vec() } else { CRUNCH_FORMATS.to_vec() };
        let fi = func(if unity { "decode_unity_crunch" } else { "decode_crunch" });
        let inf = func("crnd_get_texture_info");
        for f in formats {
            for part in 0..if d.crn > 8 { 4usize } else { 1 } {
                job(
                    format!("{}: shapes", table::entry(fi).name),
                    Box::new(move |r| {
                        let parts = if d.crn > 8 { 4 } else { 1 };
                        for w in (1..=d.crn).step_by(d.crn_step) {
                            if w / d.crn_step % parts != part {
                                continue;
                            }
                            for h in (1..=d.crn).step_by(d.crn_step) {
                                for faces in [1, 2, 6] {
                                    if faces > 1 && d.crn <= 8 && (w + h + faces) % 3 != 0 {
                                        continue;
                                    }
                                    let mut p = Params::new(unity, f, w, h, faces);
                                    let few = if d.crn > 8 { 4 } else { 2 };
                                    p.num = [[3, 3, 3, 3], [5, 9, 7, 4], [1, 1, 1, 1], [17, 33, 20, 40]][(w + h + f as usize) % few];
                                    p.levels = 1 + (w * h) % 3;
                                    let (file, _) = Spec { p: &p, seed: (w * 31 + h) as u64, zero: 0, over: &[] }.build();
                                    r.add(fi, [w, h, 0, 0], w * h, &file.bytes);
                                    r.add(fi, [file.bx * 4, faces * file.by * 4, 0, 0], file.bx * faces * file.by * 16, &file.bytes);
                                    if d.crn > 8 {
                                        r.add(fi, [w + 40, h, 0, 0], (w + 40) * h, &file.bytes);
                                    }
                                    r.add(inf, [file.bytes.len(), 0, 0, 0], 8, &file.bytes);
                                }
                            }
                        }
                        if part == 0 && d.big {
                            for n in [100, 600, 3000, 8192] {
                                let mut p = Params::new(unity, f, 24, 16, 1);
                                p.num = [n; 4];
                                let (file, _) = Spec { p: &p, seed: n as u64, zero: 0, over: &[] }.build();
                                r.add(fi, [24, 16, 0, 0], 24 * 16, &file.bytes);
                            }
                        }
                    }),
                );
            }
            if t == Target::Steps {
                job(
                    format!("{}: claimed sizes", table::entry(fi).name),
                    Box::new(move |r| {
                        let mut p = Params::new(unity, f, 8, 8, 1);
                        p.num = [2; 4];
                        p.shape = Some(2);
                        let (file, _) = Spec { p: &p, seed: 71, zero: 0, over: &[] }.build();
                        let sides = [0usize, 1, 5, 8, 9, 32, 64, 100, 256, 1024, 4095, 4096, 4097, 0x7fff, 0xffff];
                        for w in sides {
                            for h in sides {
                                for lf in [[1u8, 1], [1, 6], [16, 1], [2, 6]] {
                                    for pad in [0, 40, 4000, 40000] {
                                        let mut x = file.bytes.clone();
                                        x[12..14].copy_from_slice(&(w as u16).to_be_bytes());
                                        x[14..16].copy_from_slice(&(h as u16).to_be_bytes());
                                        x[16..18].copy_from_slice(&lf);
                                        x.extend((0..pad).map(|k| (k * 11 >> 2) as u8));
                                        // (the stated sizes of the file, and of what follows the header)
                                        let n = (x.len() as u32).to_be_bytes();
                                        x[6..10].copy_from_slice(&n);
                                        let (iw, ih) = if w * h <= 1 << 18 { (w, h) } else { (8, 8) };
                                        r.add(fi, [iw, ih, 0, 0], iw * ih, &x);
                                        r.add(fi, [8, 8, 0, 0], 64, &x);
                                    }
                                }
                            }
                        }
                        // palettes
                        for seg in [39usize, 47, 55, 63] {
                            for n in [0u16, 1, 3, 64, 255, 256, 1000, 4096, 8191, 8192, 8193, 0x7fff, 0xffff] {
                                for pad in [0, 4000, 40000] {
                                    let mut x = file.bytes.clone();
                                    x[seg..seg + 2].copy_from_slice(&n.to_be_bytes());
                                    x.extend((0..pad).map(|k| (k * 13 >> 2) as u8));
                                    let m = (x.len() as u32).to_be_bytes();
                                    x[6..10].copy_from_slice(&m);
                                    r.add(fi, [8, 8, 0, 0], 64, &x);
                                }
                            }
                        }
                    }),
                );
            }
            job(
                format!("{}: damaged", table::entry(fi).name),
                Box::new(move |r| {
                    for (k, (w, h)) in [(8, 8), (5, 9)].into_iter().enumerate() {
                        let mut p = Params::new(unity, f, w, h, 1);
                        p.num = [2; 4];
                        p.shape = Some(2);
                        if k == 1 && t == Target::BigEndian {
                            break;
                        }
                        let (file, _) = Spec { p: &p, seed: 70, zero: 0, over: &[] }.build();
                        for at in (f as usize % d.damage_step..file.bytes.len()).step_by(d.damage_step) {
                            // (an interpreter has no time for the large images and palettes a header can ask for)
                            if t == Target::BigEndian && (10..70).contains(&at) {
                                continue;
                            }
                            r.add(fi, [w, h, 0, 0], w * h, &file.bytes[..at]);
                            let b = file.bytes[at];
                            let all: Vec<u8> = if d.damage == 256 { (0..=255).collect() } else { [b ^ 0x80, 0xff, 0, b ^ 1, 1, 0x7f, 0x80, b ^ 0x10, b.wrapping_add(1)].into_iter().take(d.damage).collect() };
                            for v in all {
                                let mut x = file.bytes.clone();
                                x[at] = v;
                                r.add(fi, [w, h, 0, 0], w * h, &x);
                                if at < 80 {
                                    r.add(inf, [x.len(), 0, 0, 0], 8, &x);
                                }
                            }
                        }
                        if d.damage > 1 {
                            // larger numbers in the header: offsets and sizes near the end of the address space
                            for at in 12..file.bytes.len().min(90) {
                                for v in [[0xff, 0xff, 0xff, 0xff], [0x7f, 0xff, 0xff, 0xff], [0x80, 0, 0, 0], [0xff, 0xff, 0xff, 0xb0], [0, 0, 0xff, 0xff], [0xff, 0xff, 0, 0]] {
                                    for n in 2..=4 {
                                        let mut x = file.bytes.clone();
                                        if at + n <= x.len() {
                                            x[at..at + n].copy_from_slice(&v[4 - n..]);
                                            r.add(fi, [w, h, 0, 0], w * h, &x);
                                            r.add(inf, [x.len(), 0, 0, 0], 8, &x);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }),
            );
        }
    }
    v
}
fn run(c: &Ctx, targets: &[Target]) {
    STUCK_AFTER.store(if targets.contains(&Target::BigEndian) { 400 } else { 120 }, Relaxed);
    ALLOC_LIMIT.store(1 << 30, Relaxed);
    let mut items = if targets.contains(&Target::Steps) { growth_items(c) } else { vec![] };
    for t in targets.iter().copied() {
        // the other build itself must work: one trivial call
        let mut b = vec![];
        put(&mut b, func("crnd_get_texture_info"), false, [0; 4], 8, &[]);
        let works = match t {
            Target::Plain => true,
            Target::Mips | Target::Steps => Emulated::new().call(&wire::parse(&b).0, &mut vec![]).is_some(),
            _ => {
                let mut w = Worker::new(t);
                w.send(1, &b).is_some() && w.answer().is_some()
            }
        };
        if !works {
            eprintln!("the {} worker does not run", t.name());
            std::process::exit(3);
        }
        let idle: &'static Idle = Box::leak(Default::default());
        IDLE.lock().unwrap().push(idle);
        let mut list = jobs(t, depth(t, c.thorough()));
        if t == Target::BigEndian {
            // long jobs first, so that the last ones to end are short
            list.sort_by_key(|(n, _)| !(n.contains("crunch") || n.contains("astc") || n.contains("general")));
        }
        items.extend(list.into_iter().map(|(n, f)| {
            item(n, move |l| {
                let (w, m) = idle.lock().unwrap().pop().unwrap_or_default();
                let mut r = Runner::new(l, t, w, m);
                f(&mut r);
                r.flush();
                idle.lock().unwrap().push((r.w.take(), r.m.take()));
            })
        }));
    }
    c.run(items);
    for i in IDLE.lock().unwrap().drain(..) {
        i.lock().unwrap().clear();
    }
    let (u, v) = (UNJUDGED.load(Relaxed), UNCONFIRMED.load(Relaxed));
    let slow = SLOW.load(Relaxed);
    if slow > 0 {
        println!("note: Miri gave no answer to {} calls within {} s each", slow, PATIENCE);
    }
    if u + v > 0 {
        println!("note: {} calls without an answer from the mips interpreter, {} differences not confirmed", u, v);
    }
}
type Idle = std::sync::Mutex<Vec<(Option<Worker>, Option<Emulated>)>>;
static IDLE: std::sync::Mutex<Vec<&'static Idle>> = std::sync::Mutex::new(vec![]);
/// the build for the target failed because of the crate under test: build.sh left a note
fn nobuild(t: Target) -> bool {
    match t {
        Target::Wasm32 => std::path::Path::new(&format!("{}/target/port/wasm32.broken", root())).exists(),
        Target::BigEndian | Target::Mips | Target::Steps => std::path::Path::new(&format!("{}/target/port/big-endian.broken", root())).exists(),
        Target::Plain => cfg!(not(feature = "plain")),
    }
}
fn run_or_report(c: &Ctx, t: Target) {
    if nobuild(t) {
        let mut l = Local::new(c);
        l.edge();
        l.fresh(1);
        l.trace();
        l.violation(Case::new("noport").kv("target", t.name()), format!("the crate does not compile for {}", t.name()));
        l.flush();
        return;
    }
    run(c, if t == Target::BigEndian { &[Target::BigEndian, Target::Mips] } else { std::slice::from_ref(&t) })
}
pub fn run_wasm(c: &Ctx) {
    run_or_report(c, Target::Wasm32)
}
pub fn run_be(c: &Ctx) {
    run_or_report(c, Target::BigEndian)
}
pub fn run_steps(c: &Ctx) {
    run_or_report(c, Target::Steps);
    c.note(format!("the dearest call took {}/1000 of what it may", FULLEST.load(Relaxed)));
}
pub fn run_plain(c: &Ctx) {
    run_or_report(c, Target::Plain)
}
fn target(c: &Case) -> Target {
    [Target::Wasm32, Target::BigEndian, Target::Plain, Target::Steps].into_iter().find(|t| t.name() == c.get("target")).unwrap_or(Target::Wasm32)
}
pub fn replay_nobuild(c: &Case) -> Result<String, String> {
    if nobuild(target(c)) { Err(format!("the crate does not compile for {}", c.get("target"))) } else { Ok("compiles".into()) }
}
pub fn replay(c: &Case) -> Result<String, String> {
    let t = target(c);
    let n: Vec<usize> = c.get("numbers").split(',').map(|s| s.parse().unwrap_or(0)).collect();
    let mut b = vec![];
    put(&mut b, func(c.get("function")), true, n.try_into().map_err(|_| "four numbers")?, c.num("image_len"), &c.bytes("data"));
    let (r, _) = wire::parse(&b);
    let (mut x, mut y) = (vec![], vec![]);
    let sx = here(&r, &mut x, &|| c.clone());
    let sy;
    if t == Target::Steps {
        return effort(&mut Emulated::new(), &r).map(|n| format!("{} instructions, within its limits", n));
    }
    if t == Target::Plain {
        sy = plain(&r, &mut y, &|| c.clone());
    } else {
        let mut w = Worker::new(t);
        w.send(1, &b).ok_or("the worker does not run")?;
        if t == Target::BigEndian && !w.ready(4 * PATIENCE) {
            return Ok(format!("no answer within {} s", 4 * PATIENCE));
        }
        sy = w.answer().ok_or(format!("the call ends the {} process", t.name()))?.0;
        y = w.image(r.ilen).ok_or("the worker ended")?;
    }
    judge(t, (sx, wire::hash(&x)), (sy, wire::hash(&y))).map_err(|e| match (0..x.len().min(y.len())).find(|i| x[*i] != y[*i]) {
        Some(i) => format!("{}: pixel {} is {:08x} here and {:08x} there", e, i, x[i], y[i]),
        None => e,
    })?;
    Ok(format!("{} on both: {:08x?}", WHAT[sx as usize], &x[..x.len().min(16)]))
}
