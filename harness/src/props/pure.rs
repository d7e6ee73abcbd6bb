//! C15: decoding is a pure function of its arguments.
//!  * histories: every call sequence to a depth bound, each from a fresh process (fork), plus one long
//!    history per thread that contains every pair / triple of calls, all with the same buffers;
//!  * schedules: call A is single-stepped, and a complete call B runs in another thread at every
//!    instruction boundary of A; steps of A that change static memory are recorded;
//!  * surroundings: prefilled images, every alignment, guard pages, unchanged input.
use super::crunch::Spec;
use crate::engine::*;
use crate::images::*;
use crate::refs::crunch::*;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use texture2ddecoder as t2d;

type R = Result<(), &'static str>;
#[derive(Clone)]
enum F {
    Image(Call),
    Astc(usize, usize),
    Pvrtc(bool),
    Block(fn(&[u8], &mut [u32])),
    AstcBlock(usize, usize),
    Header,
}
#[derive(Clone)]
struct Op {
    name: String,
    f: F,
    data: Vec<u8>,
    w: usize,
    h: usize,
    pixels: usize,
}
const PIX: usize = 1024;

fn call(op: &Op, data: &[u8], img: &mut [u32]) -> R {
    match op.f {
        F::Image(c) => c(data, op.w, op.h, img),
        F::Astc(a, b) => t2d::decode_astc(data, op.w, op.h, a, b, img),
        F::Pvrtc(two) => t2d::decode_pvrtc(data, op.w, op.h, img, two),
        F::Block(b) => {
            b(data, img);
            Ok(())
        }
        F::AstcBlock(a, b) => {
            t2d::decode_astc_block(data, a, b, img);
            Ok(())
        }
        F::Header => {
            let mut i = t2d::CrnTextureInfo::default();
            if !i.crnd_get_texture_info(data, data.len() as u32) {
                return Err("header");
            }
            for (k, v) in [i.width, i.height, i.levels, i.faces, i.userdata0, i.userdata1, i.bytes_per_block].into_iter().enumerate() {
                img[k] = v;
            }
            Ok(())
        }
    }
}
fn digest(r: Result<R, ()>, img: &[u32]) -> u64 {
    let mut h = match r {
        Ok(Ok(())) => 1,
        Ok(Err(e)) => return hash_bytes(2, e.as_bytes()) | 1, // the image is not part of a refusal
        Err(()) => return 4,
    };
    for v in img {
        h = hash2(h, *v as u64);
    }
    h | 1
}
/// run with the given buffers; the image starts as `fill`
fn run_in(op: &Op, buf: &mut [u8], img: &mut [u32], fill: u32) -> u64 {
    let d = &mut buf[..op.data.len()];
    d.copy_from_slice(&op.data);
    let img = &mut img[..op.pixels];
    img.fill(fill);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(op, d, img)));
    digest(r.map_err(|_| ()), img)
}

/// Calls chosen to collide on whatever an implementation might remember: same function and
/// other content, same beginning and other end, same content and other shape, refused calls.
fn alphabet(level: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, f: F, data: Vec<u8>, w: usize, h: usize, px: usize| {
        assert!(px <= PIX);
        v.push(Op { name, f, data, w, h, pixels: px })
    };
    let twist = |mut d: Vec<u8>, from: usize, bytes: usize| {
        for b in d.chunks_mut(bytes) {
            for x in b.iter_mut().skip(from) {
                *x ^= 0x3c
            }
        }
        d
    };
    for i in all() {
        let f = F::Image(i.call);
        let two: Vec<u8> = (0..2).flat_map(|k| sample_block(&i, k + 4)).collect();
        add(format!("{} 2x1 blocks", i.name), f.clone(), two.clone(), 2 * i.bw, i.bh, 2 * i.bw * i.bh);
        if level > 0 {
            add(format!("{} one block", i.name), f.clone(), two[i.bytes..].to_vec(), i.bw, i.bh, i.bw * i.bh);
            add(format!("{} 1x2 blocks", i.name), f.clone(), two.clone(), i.bw, 2 * i.bh, 2 * i.bw * i.bh);
            add(format!("{} short data", i.name), f.clone(), two[..i.bytes + 1].to_vec(), 2 * i.bw, i.bh, 2 * i.bw * i.bh);
        }
        if level > 1 {
            // what a memory that starts out as zeros, or as ones, might hold
            for (n, v) in [("zeros", 0u8), ("ones", 0xff)] {
                add(format!("{} {}", i.name, n), f.clone(), vec![v; i.bytes], i.bw, i.bh, i.bw * i.bh);
            }
        }
        if level > 1 {
            add(format!("{} other second half", i.name), f.clone(), twist(two.clone(), i.bytes / 2, i.bytes), 2 * i.bw, i.bh, 2 * i.bw * i.bh);
            add(format!("{} swapped blocks", i.name), f.clone(), [&two[i.bytes..], &two[..i.bytes]].concat(), 2 * i.bw, i.bh, 2 * i.bw * i.bh);
            if i.class != Class::Pvrtc {
                add(format!("{} cropped", i.name), f.clone(), two.clone(), i.bw + 1, i.bh - 1, (i.bw + 1) * (i.bh - 1));
            }
        }
        if level > 2 {
            for k in [1, 2, 4, 8].into_iter().filter(|k| *k < i.bytes) {
                let mut d = vec![0xff; i.bytes];
                d[..k].fill(0);
                add(format!("{} {} zeros, ones", i.name, k), f.clone(), d.clone(), i.bw, i.bh, i.bw * i.bh);
                if k >= 4 {
                    d.iter_mut().for_each(|b| *b = !*b);
                    add(format!("{} {} ones, zeros", i.name, k), f.clone(), d, i.bw, i.bh, i.bw * i.bh);
                }
            }
            add(format!("{} other bytes", i.name), f.clone(), twist(two.clone(), 0, i.bytes), 2 * i.bw, i.bh, 2 * i.bw * i.bh);
            add(format!("{} empty", i.name), f.clone(), vec![], 0, 0, 0);
            add(format!("{} small image", i.name), f.clone(), two.clone(), 2 * i.bw, i.bh, 2 * i.bw * i.bh - 1);
        }
    }
    // ASTC: the same 16 bytes in different footprints: partitions, dual plane, void extent, illegal
    let n = if level == 0 { 1 } else { 2 };
    for (fp, name) in [((4, 4), "4x4"), ((8, 8), "8x8"), ((6, 5), "6x5"), ((12, 12), "12x12")].into_iter().take(1 + n) {
        for (k, b) in [
            crate::props::astc::multi(0x042, 2, 77, 8 << 2, 0x0123_4567_89ab_cdef_1122_3344_5566_7788),
            crate::props::astc::multi(0x042, 3, 77, 8 << 2, 0x0123_4567_89ab_cdef_1122_3344_5566_7788),
            crate::props::astc::multi(0x042, 2, 78, 8 << 2, 0x0123_4567_89ab_cdef_1122_3344_5566_7788),
            0x1234_5678_9abc_def0_ffff_ffff_ffff_fdfc,
            0x1234_5678_9abc_def0_1111_2222_3333_4440,
        ]
        .into_iter()
        .enumerate()
        .take(2 + level)
        {
            add(format!("astc {} block {}", name, k), F::AstcBlock(fp.0, fp.1), b.to_le_bytes().to_vec(), 0, 0, fp.0 * fp.1);
            if level > 1 {
                add(format!("astc {} image {}", name, k), F::Astc(fp.0, fp.1), b.to_le_bytes().to_vec(), fp.0, fp.1, fp.0 * fp.1);
            }
        }
    }
    // the same partitioned block in every footprint: same width, same height, same area
    if level > 0 {
        for fp in crate::refs::astc::FOOTPRINTS {
            for parts in 2..=if level > 1 { 4 } else { 2 } {
                let b = crate::props::astc::multi(0x042, parts, 77, 8 << 2, 0x0123_4567_89ab_cdef_1122_3344_5566_7788);
                add(format!("astc {}x{} {} partitions", fp.0, fp.1, parts), F::AstcBlock(fp.0, fp.1), b.to_le_bytes().to_vec(), 0, 0, fp.0 * fp.1);
            }
        }
    }
    add("astc 7x7".into(), F::Astc(7, 7), vec![0; 16], 7, 7, 49);
    for two in [false, true] {
        // twice as many blocks in one direction than in the other
        for (bw, bh) in [(4usize, 2usize), (2, 4), (1, 1), (8, 1)].into_iter().take(1 + level) {
            let (w, h) = (bw * if two { 8 } else { 4 }, bh * 4);
            let d: Vec<u8> = (0..bw * bh * 8).map(|i| (i * 37 + 5) as u8 ^ (i as u8) << 4).collect();
            add(format!("pvrtc {} {}x{}", two, w, h), F::Pvrtc(two), d, w, h, w * h);
        }
    }
    // blocks
    for f in crate::fmts::FMTS.iter().chain(&crate::fmts::EXTRA) {
        let d: Vec<u8> = (0..f.bytes).map(|i| (i * 73 + 21) as u8).collect();
        if level > 0 {
            add(format!("{} block", f.name), F::Block(f.block), d.clone(), 0, 0, 16);
        }
        if level > 1 {
            add(format!("{} other block", f.name), F::Block(f.block), twist(d, f.bytes / 2, f.bytes), 0, 0, 16);
        }
    }
    // Crunch: several palettes and shapes per format, damaged files in between
    for (unity, formats) in [(false, &CRUNCH_FORMATS[..]), (true, &UNITY_FORMATS[..])] {
        for &f in formats {
            if level == 0 && !matches!(f, 0 | 2 | 9 | 12) {
                continue;
            }
            let u = if unity { "unity" } else { "crunch" };
            for k in 0..if level == 0 { 1 } else { 1 + level.min(2) } {
                let mut p = Params::new(unity, f, [8, 4, 12][k], [8, 12, 4][k], 1);
                p.num = [[2, 3, 2, 3], [3, 2, 3, 2], [18, 17, 18, 17]][k];
                p.shape = Some([2, 4, 22][k]);
                let (file, _) = Spec { p: &p, seed: 60 + k as u64, zero: 0, over: &[] }.build();
                let fun = F::Image(if unity { t2d::decode_unity_crunch } else { t2d::decode_crunch });
                add(format!("{} {} file {}", u, f, k), fun.clone(), file.bytes.clone(), p.w, p.h, p.w * p.h);
                if level > 1 && k == 0 || level == 1 && f == 0 {
                    let mut d = file.bytes.clone();
                    let n = d.len();
                    d[n - 3..].fill(0xff);
                    add(format!("{} {} damaged", u, f), fun.clone(), d, p.w, p.h, p.w * p.h);
                    add(format!("{} {} truncated", u, f), fun.clone(), file.bytes[..n / 2].to_vec(), p.w, p.h, p.w * p.h);
                    add(format!("{} {} header", u, f), F::Header, file.bytes, 0, 0, 7);
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ processes
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn sched_yield() -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn sigaction(sig: i32, new: *const Sigaction, old: *mut Sigaction) -> i32;
}
#[repr(C)]
struct Sigaction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const MAXOPS: usize = 1024;
const MAXV: usize = 64;
#[repr(C)]
struct Shared {
    base: [AtomicU64; MAXOPS],
    len: [AtomicU64; MAXOPS],
    touch: [AtomicU64; MAXOPS],
    next: AtomicUsize,
    nodes: AtomicU64,
    edges: AtomicU64,
    steps: AtomicU64,
    points: AtomicU64,
    schedules: AtomicU64,
    writes: AtomicU64,
    blocked: AtomicU64,
    unavailable: AtomicU32,
    vn: AtomicUsize,
    // kind, a, b, c, d
    v: [[AtomicU64; 5]; MAXV],
    // one page per stepping process: request, done, mismatch, quit
    hs: [[AtomicU64; 8]; 64],
    near: [[AtomicU64; 8]; MAXOPS],
}
fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    }
}
impl Shared {
    fn violation(&self, kind: u64, a: &[u64]) {
        let i = self.vn.fetch_add(1, SeqCst);
        if i < MAXV {
            self.v[i][0].store(kind, SeqCst);
            for (k, x) in a.iter().enumerate() {
                self.v[i][k + 1].store(*x, SeqCst);
            }
        }
    }
    fn full(&self) -> bool {
        self.vn.load(Relaxed) >= MAXV
    }
}
/// run `f` in a forked child; false when the child did not end normally
fn child(f: impl FnOnce()) -> i32 {
    unsafe {
        let p = fork();
        if p == 0 {
            f();
            _exit(0);
        }
        p
    }
}
fn join(p: i32) -> bool {
    let mut st = 0;
    p > 0 && unsafe { waitpid(p, &mut st, 0) } == p && st == 0
}
struct Buf {
    data: Vec<u8>,
    img: Vec<u32>,
}
impl Buf {
    fn new() -> Buf {
        Buf { data: vec![0; 1 << 16], img: vec![0; PIX] }
    }
    fn run(&mut self, op: &Op) -> u64 {
        run_in(op, &mut self.data, &mut self.img, 0)
    }
}
fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// explore all continuations of the current process state to depth `d`
fn histories(s: &Shared, ops: &[Op], buf: &mut Buf, d: usize, prefix: u64, len: u32) {
    for (i, o) in ops.iter().enumerate() {
        s.edges.fetch_add(1, Relaxed);
        let hist = prefix << 10 | i as u64;
        let p = child(|| {
            unsafe { alarm(60) };
            let h = buf.run(o);
            s.nodes.fetch_add(1, Relaxed);
            if h != s.base[i].load(Relaxed) {
                s.violation(1, &[hist, len as u64 + 1]);
                return;
            }
            if d > 1 && !s.full() {
                histories(s, ops, buf, d - 1, hist, len + 1);
            }
        });
        if !join(p) {
            s.violation(2, &[hist, len as u64 + 1]);
        }
        if s.full() {
            return;
        }
    }
}
/// The calls that differ from `o` in as little as a call can differ: one bit of the data, one bit in two
/// bytes (equal under exclusive or), two bytes or words exchanged (equal under addition), the same bytes
/// for another shape of image.
fn near(o: &Op) -> Vec<Op> {
    let n = o.data.len();
    let mut v = vec![];
    let mut put = |d: Vec<u8>| {
        if d != o.data {
            v.push(Op { data: d, ..o.clone() })
        }
    };
    let with = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut d = o.data.clone();
        f(&mut d);
        d
    };
    for b in 0..8 * n {
        put(with(&|d| d[b / 8] ^= 1 << (b % 8)));
    }
    for i in 0..n.min(32) {
        put(with(&|d| d[i] ^= 0xff));
        for j in i + 1..n.min(32) {
            put(with(&|d| d.swap(i, j)));
            for k in [0, 3, 6] {
                put(with(&|d| {
                    d[i] ^= 1 << k;
                    d[j] ^= 1 << k
                }));
            }
        }
    }
    for z in [2, 4, 8, 16] {
        for i in (0..n.min(64)).step_by(z).filter(|i| i + 2 * z <= n) {
            put(with(&|d| d[i..i + 2 * z].rotate_left(z)));
        }
    }
    if o.w > 1 && o.h > 1 && matches!(o.f, F::Image(_) | F::Astc(..)) {
        for (w, h) in [(o.w - 1, o.h), (o.w, o.h - 1), (o.h, o.w), (o.w - 1, o.h - 1)] {
            v.push(Op { w, h, pixels: w * h, ..o.clone() });
        }
    }
    v
}
/// the calls whose nearest neighbours are explored
fn near_centres(level: usize) -> Vec<Op> {
    let mut v = alphabet(level);
    v.retain(|o| !o.name.ends_with("damaged") && !o.name.ends_with("truncated") && !o.data.is_empty());
    v
}
/// y as the first call of a process
fn fresh_digest(s: &Shared, slot: usize, y: &Op) -> Option<u64> {
    s.near[slot][0].store(0, SeqCst);
    let base = child(|| {
        unsafe { alarm(60) };
        s.near[slot][0].store(Buf::new().run(y), SeqCst);
    });
    join(base).then(|| s.near[slot][0].load(SeqCst))
}
/// x y1 x y2 x ... in one process: the first change whose result, or the result of x after it, is not
/// as in a fresh process
fn near_history(s: &Shared, slot: usize, x: &Op, ys: &[Op]) -> Option<usize> {
    let mut bases = Vec::with_capacity(ys.len());
    for (k, y) in ys.iter().enumerate() {
        match fresh_digest(s, slot, y) {
            Some(h) => bases.push(h),
            None => return Some(k),
        }
    }
    let at = &s.near[slot][1];
    at.store(0, SeqCst);
    let p = child(|| {
        unsafe { alarm(600) };
        let mut buf = Buf::new();
        let a = buf.run(x);
        for (k, y) in ys.iter().enumerate() {
            at.store(k as u64, SeqCst);
            if buf.run(y) != bases[k] || buf.run(x) != a {
                unsafe { _exit(1) }
            }
        }
    });
    if join(p) { None } else { Some(at.load(SeqCst) as usize) }
}
fn workers(s: &Shared, n: usize, f: impl Fn(usize)) {
    s.next.store(0, SeqCst);
    let cpus = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let ps: Vec<i32> = (0..cpus)
        .map(|_| {
            child(|| loop {
                let i = s.next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                f(i);
            })
        })
        .collect();
    for p in ps {
        if !join(p) {
            s.violation(3, &[]);
        }
    }
}
fn baseline(s: &Shared, ops: &[Op]) {
    assert!(ops.len() <= MAXOPS);
    for b in &s.base {
        b.store(0, Relaxed);
    }
    workers(s, ops.len(), |i| {
        let p = child(|| {
            unsafe { alarm(60) };
            let h = Buf::new().run(&ops[i]);
            s.base[i].store(h, SeqCst);
        });
        if !join(p) {
            s.violation(2, &[i as u64, 1]);
        }
    });
}

// ------------------------------------------------------------------ single stepping
static mut STEP: *const StepState = std::ptr::null();
struct StepState {
    hs: &'static [AtomicU64; 8], // 0 request, 1 done, 2 mismatch, 3 quit
    steps: AtomicU64,
    points: AtomicU64,
    blocked: AtomicU64,
    from: u64,
    every: u64,
    limit: u64,
    watch: (usize, usize),
    hash: AtomicU64,
    changes: AtomicU64,
}
#[cfg(target_arch = "x86_64")]
const EFL: usize = 17; // REG_EFL in gregs
unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut u8) {
    let st = &*STEP;
    let n = st.steps.fetch_add(1, Relaxed);
    if st.watch.1 > 0 {
        let h = hash_mem(st.watch);
        if h != st.hash.load(Relaxed) {
            st.hash.store(h, Relaxed);
            st.changes.fetch_add(1, Relaxed);
        }
    }
    if n >= st.from && (n - st.from) % st.every == 0 && n < st.limit {
        let hs = st.hs;
        let mut asked = hs[0].load(Acquire);
        if hs[1].load(Acquire) == asked {
            asked += 1;
            hs[0].store(asked, Release);
            st.points.fetch_add(1, Relaxed);
        }
        let mut spins = 0u64;
        while hs[1].load(Acquire) != asked {
            if spins < 5_000 {
                std::hint::spin_loop();
            } else {
                sched_yield();
            }
            spins += 1;
            // B may be waiting for a lock that A holds: let A go on
            if spins > 25_000 {
                st.blocked.fetch_add(1, Relaxed);
                break;
            }
        }
    }
    if n >= st.limit {
        let gregs = ctx.add(40) as *mut u64;
        *gregs.add(EFL) &= !0x100;
    }
}
unsafe fn hash_mem(r: (usize, usize)) -> u64 {
    let p = r.0 as *const u64;
    let n = r.1 / 8;
    let mut a = [1u64, 2, 3, 4];
    let mut i = 0;
    while i + 4 <= n {
        for k in 0..4 {
            a[k] = (a[k] ^ std::ptr::read_volatile(p.add(i + k))).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        }
        i += 4;
    }
    a[0] ^ a[1].rotate_left(16) ^ a[2].rotate_left(32) ^ a[3].rotate_left(48)
}
/// writable static memory of this program
fn statics() -> (usize, usize) {
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let (mut lo, mut hi) = (0, 0);
    let mut last = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let Some((a, b)) = f[0].split_once('-') else { continue };
        let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
        let own = f.len() > 5 && f[5] == exe;
        if f[1].starts_with("rw") && (own || f.len() == 5 && a == last && hi == a && lo != 0) {
            if lo == 0 {
                lo = a
            }
            hi = b;
        }
        if own || f.len() == 5 {
            last = b;
        }
    }
    (lo, hi - lo)
}
#[cfg(target_arch = "x86_64")]
#[inline(never)]
unsafe fn trap_on() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[cfg(target_arch = "x86_64")]
#[inline(never)]
unsafe fn trap_off() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
}
fn install_trap() {
    unsafe {
        let a = Sigaction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &a, std::ptr::null_mut());
    }
}
/// A single-stepped in this thread while B runs in another one at the chosen boundaries.
/// Returns (result of A, steps, points, mismatches of B, changes of static memory, blocked).
#[allow(clippy::too_many_arguments)]
fn stepped(a: &Op, buf: &mut Buf, hs: &'static [AtomicU64; 8], from: u64, every: u64, limit: u64, watch: bool) -> (u64, u64, u64, u64, u64) {
    let st = StepState {
        hs,
        steps: AtomicU64::new(0),
        points: AtomicU64::new(0),
        blocked: AtomicU64::new(0),
        from,
        every: every.max(1),
        limit,
        watch: if watch { statics() } else { (0, 0) },
        hash: AtomicU64::new(0),
        changes: AtomicU64::new(0),
    };
    let d = &mut buf.data[..a.data.len()];
    d.copy_from_slice(&a.data);
    let img = &mut buf.img[..a.pixels];
    img.fill(0);
    unsafe {
        STEP = &st;
        if watch {
            st.hash.store(hash_mem(st.watch), Relaxed);
        }
        trap_on();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(a, d, img)));
    unsafe {
        trap_off();
    }
    let h = digest(r.map_err(|_| ()), img);
    // let an unfinished B finish
    while hs[1].load(Acquire) != hs[0].load(Acquire) {
        std::thread::yield_now();
    }
    (h, st.steps.load(Relaxed), st.points.load(Relaxed), st.blocked.load(Relaxed), st.changes.load(Relaxed))
}
/// the thread that runs B whenever asked
fn partner(hs: &'static [AtomicU64; 8], ops: &'static [Op], s: &'static Shared) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        let mut buf = Buf::new();
        let mut last = hs[1].load(Acquire);
        let mut idle = 0u32;
        loop {
            let q = hs[0].load(Acquire);
            if q != last {
                last = q;
                idle = 0;
                let b = hs[4].load(Acquire) as usize;
                if buf.run(&ops[b]) != s.base[b].load(Relaxed) {
                    hs[2].fetch_add(1, SeqCst);
                }
                hs[1].store(q, Release);
            } else if hs[3].load(Relaxed) != 0 {
                return;
            } else {
                idle += 1;
                if idle > 2000 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
        }
    })
}
/// is single stepping possible here?
fn can_step(s: &'static Shared, ops: &'static [Op]) -> bool {
    let p = child(|| {
        unsafe { alarm(20) };
        install_trap();
        let r = stepped(&ops[0], &mut Buf::new(), &s.hs[63], u64::MAX, 1, 1 << 40, false);
        if r.1 < 100 || r.0 != s.base[0].load(Relaxed) {
            unsafe { _exit(1) }
        }
    });
    join(p)
}

// ------------------------------------------------------------------ the check
fn drain(ctx: &Ctx, s: &Shared, ops: &[Op], level: usize) {
    let n = s.vn.swap(0, SeqCst).min(MAXV);
    for v in &s.v[..n] {
        let g = |i: usize| v[i].load(SeqCst);
        let seq = |hist: u64, len: u64| (0..len).map(|k| (hist >> (10 * (len - 1 - k)) & 1023).to_string()).collect::<Vec<_>>().join(",");
        let names = |hist: u64, len: u64| {
            (0..len).map(|k| ops[(hist >> (10 * (len - 1 - k)) & 1023) as usize].name.clone()).collect::<Vec<_>>().join(" ; ")
        };
        let c = Case::new("history").kv("level", level);
        match g(0) {
            1 | 2 => ctx.report(
                c.kv("calls", seq(g(1), g(2))),
                format!("{}: {}", names(g(1), g(2)), if g(0) == 1 { "the last call gives another result than as the first call of a process" } else { "the process ended abnormally" }),
            ),
            4 => ctx.report(
                Case::new("preempt").kv("level", level).kv("a", g(1)).kv("b", g(2)).kv("from", g(3)).kv("every", g(4)),
                format!("{} with {} running in another thread in the middle gives another result", ops[g(1) as usize].name, ops[g(2) as usize].name),
            ),
            5 => ctx.report(
                Case::new("around").kv("level", level).kv("call", g(1)).kv("variant", g(2)),
                format!("{}: result depends on the old content, the alignment or the surroundings of the buffers", ops[g(1) as usize].name),
            ),
            6 => {
                let (x, k) = (&near_centres(level)[g(1) as usize], g(2));
                ctx.report(Case::new("near").kv("level", level).kv("call", g(1)).kv("change", k).kv("all", g(3)), format!("{}: a call that differs a little and comes after it, or the call itself after that, gives another result than in a fresh process", x.name))
            }
            k => ctx.report(c.kv("calls", ""), format!("exploring process ended abnormally ({})", k)),
        }
    }
}
pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let s = shared();
    quiet();
    let t0 = std::time::Instant::now();
    let add = |name: &str, st: u64, tr: u64, traces: u64| {
        ctx.states.fetch_add(st, Relaxed);
        ctx.transitions.fetch_add(tr, Relaxed);
        ctx.traces.fetch_add(traces, Relaxed);
        ctx.families.lock().unwrap().insert(name.into(), (st, tr));
        if std::env::var_os("VERIF_TIMING").is_some() {
            eprintln!("{:?} {}", t0.elapsed(), name);
        }
    };
    let take = |s: &Shared| (s.nodes.swap(0, SeqCst), s.edges.swap(0, SeqCst));
    // 1. histories from a fresh process.  No decoder has run in this process so far.
    for (level, depth) in if th { vec![(3usize, 2usize), (0, 3)] } else { vec![(2, 2), (0, 3)] } {
        let ops = alphabet(level);
        baseline(s, &ops);
        drain(ctx, s, &ops, level);
        for o in &s.base[..ops.len()] {
            Local::new(ctx).outcome(o.load(Relaxed));
        }
        take(s);
        workers(s, ops.len(), |i| {
            let p = child(|| {
                unsafe { alarm(300) };
                let mut buf = Buf::new();
                s.nodes.fetch_add(1, Relaxed);
                s.edges.fetch_add(1, Relaxed);
                if buf.run(&ops[i]) != s.base[i].load(Relaxed) {
                    s.violation(1, &[i as u64, 1]);
                    return;
                }
                histories(s, &ops, &mut buf, depth - 1, i as u64, 1);
            });
            if !join(p) {
                s.violation(2, &[i as u64, 1]);
            }
        });
        drain(ctx, s, &ops, level);
        let (n, e) = take(s);
        add(&format!("all histories of {} calls out of {} in a fresh process", depth, ops.len()), n, e, n);
    }
    // 1b. a call, a call that differs as little as possible, the first again
    {
        let level = if th { 3 } else { 1 };
        let ops = near_centres(level);
        workers(s, ops.len(), |i| {
            let x = &ops[i];
            let ys = near(x);
            s.nodes.fetch_add(2 * ys.len() as u64, Relaxed);
            s.edges.fetch_add(2 * ys.len() as u64, Relaxed);
            if let Some(k) = near_history(s, i, x, &ys) {
                // alone, or only after those before it
                let alone = near_history(s, i, x, &ys[k..k + 1]).is_some();
                s.violation(6, &[i as u64, k as u64, !alone as u64]);
            }
        });
        drain(ctx, s, &ops, level);
        let (n, e) = take(s);
        add(&format!("{} calls, each around every call that differs from it in one bit, two bytes or the shape", ops.len()), n, e, n / 2);
    }
    // 2. one long history per thread containing every pair (triple) of calls
    for (level, triples) in [(3usize, false), (if th { 2 } else { 1 }, true)] {
        let ops: &'static [Op] = Box::leak(alphabet(level).into_boxed_slice());
        baseline(s, ops);
        drain(ctx, s, ops, level);
        // in a child: what happens there stays there
        let p = child(|| {
            s.next.store(0, SeqCst);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| {
                        let mut buf = Buf::new();
                        let mut last = [0u64; 2];
                        let n = ops.len();
                        let mut go = |i: usize, buf: &mut Buf| {
                            s.nodes.fetch_add(1, Relaxed);
                            s.edges.fetch_add(1, Relaxed);
                            if buf.run(&ops[i]) != s.base[i].load(Relaxed) {
                                s.violation(1, &[last[0] << 20 | last[1] << 10 | i as u64, 3]);
                            }
                            last = [last[1], i as u64];
                        };
                        loop {
                            let a = s.next.fetch_add(1, SeqCst);
                            if a >= n || s.full() {
                                return;
                            }
                            for b in 0..n {
                                if triples {
                                    for c in 0..n {
                                        // a b c, so that every triple occurs
                                        go(a, &mut buf);
                                        go(b, &mut buf);
                                        go(c, &mut buf);
                                    }
                                } else {
                                    go(a, &mut buf);
                                    go(b, &mut buf);
                                }
                            }
                        }
                    });
                }
            });
        });
        if !join(p) {
            s.violation(3, &[]);
        }
        drain(ctx, s, ops, level);
        let (n, e) = take(s);
        add(&format!("long histories with every {} of {} calls, 8 threads", if triples { "triple" } else { "pair" }, ops.len()), n, e, n);
    }
    // 3. surroundings of the buffers
    {
        let level = 3;
        let ops = alphabet(level);
        baseline(s, &ops);
        drain(ctx, s, &ops, level);
        workers(s, ops.len(), |i| {
            for v in 0..VARIANTS {
                s.edges.fetch_add(1, Relaxed);
                s.nodes.fetch_add(1, Relaxed);
                let p = child(|| {
                    if !around(&ops[i], s.base[i].load(Relaxed), v) {
                        s.violation(5, &[i as u64, v as u64]);
                    }
                });
                if !join(p) {
                    s.violation(5, &[i as u64, v as u64]);
                }
            }
        });
        drain(ctx, s, &ops, level);
        let (n, e) = take(s);
        add("prefilled images, alignments, guard pages", n, e, n);
    }
    // 4. schedules
    if !ctx.violations.lock().unwrap().is_empty() {
        ctx.note("violations without any schedule: schedules were not explored");
        return;
    }
    let limit = if th { 780 } else { 400 };
    for (level, every_pair, points, singles) in if th { vec![(2usize, false, 20_000u64, 200_000u64), (0, true, 2_000, 1_000_000)] } else { vec![(1, false, 1_500, 20_000)] } {
        let ops: &'static [Op] = Box::leak(alphabet(level).into_boxed_slice());
        baseline(s, ops);
        drain(ctx, s, ops, level);
        if !(cfg!(target_arch = "x86_64") && can_step(s, ops)) {
            ctx.note("single stepping is not available here: schedules were explored at whole-call granularity only");
            break;
        }
        let pairs = schedules(s, ops, every_pair, points, singles, limit, t0);
        drain(ctx, s, ops, level);
        let g = |x: &AtomicU64| x.swap(0, SeqCst);
        let (steps, points, runs) = (g(&s.steps), g(&s.points), g(&s.schedules));
        let skipped = s.unavailable.swap(0, SeqCst);
        if skipped > 0 {
            ctx.note(format!("time ran out: {} pairs of calls were not preempted", skipped));
        }
        let name = if every_pair { "schedules: every pair of calls" } else { "schedules: every dependent pair of calls" };
        add(&format!("{} out of {}, one preempted at instruction boundaries by the whole other", name, ops.len()), points, steps, runs);
        ctx.note(format!(
            "{}: {} pairs, {} calls single-stepped, {} instructions, {} preemptions by a complete other call, {} boundaries at which the other call had to wait, {} instructions that changed static memory",
            name, pairs, runs, steps, points, g(&s.blocked), g(&s.writes)
        ));
    }
}
#[allow(clippy::too_many_arguments)]
fn schedules(s: &'static Shared, ops: &'static [Op], every_pair: bool, points: u64, singles: u64, limit: u64, t0: std::time::Instant) -> usize {
    let n = ops.len();
    // how long is each call, and does it change static memory?  (each in a fresh process)
    workers(s, n, |a| {
        let p = child(|| {
            install_trap();
            unsafe { alarm(300) };
            let r = stepped(&ops[a], &mut Buf::new(), &s.hs[60], u64::MAX, 1, 1 << 40, true);
            s.steps.fetch_add(r.1, Relaxed);
            s.schedules.fetch_add(1, Relaxed);
            s.writes.fetch_add(r.4, Relaxed);
            s.len[a].store(r.1, SeqCst);
            s.touch[a].store(r.4, SeqCst);
            if r.0 != s.base[a].load(Relaxed) {
                s.violation(4, &[a as u64, a as u64, 0, u64::MAX]);
            }
        });
        if !join(p) {
            s.violation(2, &[a as u64, 1]);
        }
    });
    // the function, and with Crunch the format
    let family = |a: usize| {
        let mut w = ops[a].name.split(' ');
        let f = w.next().unwrap_or("");
        (f, if matches!(f, "crunch" | "unity") { w.next() } else { None })
    };
    let writes = |a: usize| s.touch[a].load(Relaxed) > 0;
    // Calls of which neither changes shared memory are independent; pairs of one family are
    // explored all the same.
    let pairs: Vec<(usize, usize)> = (0..n * n)
        .map(|i| (i / n, i % n))
        .filter(|&(a, b)| every_pair || family(a) == family(b) || writes(a) || writes(b))
        .collect();
    // half of the cores step, the other half run the partner calls
    s.next.store(0, SeqCst);
    let ps: Vec<i32> = (0..4usize)
        .map(|w| {
            child(|| {
                install_trap();
                let hs = &s.hs[w];
                let t = partner(hs, ops, s);
                let mut buf = Buf::new();
                loop {
                    let i = s.next.fetch_add(1, SeqCst);
                    if i >= pairs.len() || s.full() {
                        break;
                    }
                    if t0.elapsed().as_secs() > limit {
                        s.unavailable.fetch_add(1, SeqCst);
                        continue;
                    }
                    unsafe { alarm(600) };
                    let (a, b) = pairs[i];
                    hs[4].store(b as u64, SeqCst);
                    let one = |from: u64, every: u64, limit: u64, buf: &mut Buf| {
                        let r = stepped(&ops[a], buf, hs, from, every, limit, false);
                        s.steps.fetch_add(r.1, Relaxed);
                        s.points.fetch_add(r.2, Relaxed);
                        s.blocked.fetch_add(r.3, Relaxed);
                        s.schedules.fetch_add(1, Relaxed);
                        if r.0 != s.base[a].load(Relaxed) || hs[2].swap(0, SeqCst) != 0 {
                            s.violation(4, &[a as u64, b as u64, from, every]);
                        }
                    };
                    let len = s.len[a].load(Relaxed);
                    // B at every boundary, or at every `every`-th with long calls
                    let every = len.div_ceil(points).max(1);
                    one(0, every, 1 << 40, &mut buf);
                    // exactly one preemption, at each boundary in turn
                    if family(a) == family(b) || writes(a) {
                        let stride = (len * len / 2 / singles).max(1);
                        let mut k = 0;
                        while k < len && !s.full() {
                            one(k, u64::MAX / 2, k + 1, &mut buf);
                            k += stride;
                        }
                    }
                }
                hs[3].store(1, SeqCst);
                t.join().ok();
            })
        })
        .collect();
    for p in ps {
        if !join(p) {
            s.violation(3, &[]);
        }
    }
    pairs.len()
}
const VARIANTS: usize = 40;
/// false when the result differs
fn around(op: &Op, base: u64, variant: usize) -> bool {
    unsafe {
        alarm(60);
        let page = 4096;
        let room = 16 * page;
        let total = room + 2 * page;
        let m = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
        let m2 = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
        if m as isize == -1 || m2 as isize == -1 {
            return true;
        }
        let all = std::slice::from_raw_parts_mut(m, total);
        let junk = [0u8, 0xff, 0xa5][variant % 3];
        all.fill(junk);
        std::slice::from_raw_parts_mut(m2, total).fill(junk ^ 0x5a);
        // variants 0..32: offsets from the start of a page; then: against a guard page behind or before
        let at = match variant {
            0..=31 => page + variant,
            32..=35 => page + room - op.data.len(),
            _ => page,
        };
        let img_at = match variant {
            0..=31 => page + 4 * (variant / 2),
            32..=35 => page + room - 4 * op.pixels,
            _ => page,
        };
        let fill = [0u32, u32::MAX, JUNK, 0xff00_0000, 0x00ff_ffff][variant % 5];
        let d = &mut all[at..at + op.data.len()];
        d.copy_from_slice(&op.data);
        let img = std::slice::from_raw_parts_mut(m2.add(img_at) as *mut u32, op.pixels);
        img.fill(fill);
        if variant >= 32 {
            mprotect(m, page, 0);
            mprotect(m.add(page + room), page, 0);
            mprotect(m2, page, 0);
            mprotect(m2.add(page + room), page, 0);
            // the input cannot be written either
            mprotect(m.add(page), room, 1);
        }
        // functions that fill single channels leave the others: start those from the usual content
        let keeps = matches!(op.f, F::Block(_));
        if keeps {
            img.fill(0);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(op, d, img)));
        let ok = digest(r.map_err(|_| ()), img) == base && d == op.data;
        munmap(m, total);
        munmap(m2, total);
        ok
    }
}
pub fn replay_history(c: &Case) -> Result<String, String> {
    let s = shared();
    let ops = alphabet(c.num("level"));
    baseline(s, &ops);
    let mut buf = Buf::new();
    let mut out = String::new();
    let mut bad = false;
    for k in c.get("calls").split(',').filter_map(|x| x.parse::<usize>().ok()) {
        let h = buf.run(&ops[k]);
        bad |= h != s.base[k].load(Relaxed);
        out += &format!("{}: {}\n", ops[k].name, if h == s.base[k].load(Relaxed) { "as in a fresh process" } else { "differs" });
    }
    if bad { Err(out) } else { Ok(out) }
}
pub fn replay_near(c: &Case) -> Result<String, String> {
    let ops = near_centres(c.num("level"));
    let x = ops.get(c.num("call")).ok_or("no such call")?;
    let ys = near(x);
    let k = c.num("change");
    let y = ys.get(k).ok_or("no such change")?;
    let w = format!("{} with data {:02x?} and with {:02x?}, {}x{} and {}x{}", x.name, x.data, y.data, x.w, x.h, y.w, y.h);
    let from = if c.num("all") == 1 { 0 } else { k };
    if near_history(shared(), 0, x, &ys[from..=k]).is_none() { Ok(w) } else { Err(w) }
}
pub fn replay_preempt(c: &Case) -> Result<String, String> {
    let s = shared();
    let ops: &'static [Op] = Box::leak(alphabet(c.num("level")).into_boxed_slice());
    baseline(s, ops);
    install_trap();
    let (a, b) = (c.num("a"), c.num("b"));
    let hs = &s.hs[0];
    hs[4].store(b as u64, SeqCst);
    let t = partner(hs, ops, s);
    let from = c.get("from").parse().unwrap_or(0);
    let every = c.get("every").parse().unwrap_or(1);
    let r = stepped(&ops[a], &mut Buf::new(), hs, from, every, 1 << 40, false);
    let m = hs[2].load(SeqCst);
    hs[3].store(1, SeqCst);
    t.join().ok();
    let out = format!("{} stepped {} instructions, {} preemptions by {}", ops[a].name, r.1, r.2, ops[b].name);
    if r.0 != s.base[a].load(Relaxed) || m != 0 { Err(out) } else { Ok(out) }
}
pub fn replay_around(c: &Case) -> Result<String, String> {
    let s = shared();
    let ops = alphabet(c.num("level"));
    baseline(s, &ops);
    let i = c.num("call");
    let v = c.num("variant");
    let p = child(|| {
        if !around(&ops[i], s.base[i].load(Relaxed), v) {
            unsafe { _exit(1) }
        }
    });
    if join(p) { Ok(ops[i].name.clone()) } else { Err(format!("{}: differs or ends abnormally", ops[i].name)) }
}
