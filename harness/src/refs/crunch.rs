//! Model of the Crunch and Unity-Crunch containers: an encoder driven by a choice function
//! that emits a file together with the texture blocks the file describes.  Written from the
//! format description (crnlib / Unity's fork), independent of the decoder under test.
use crate::engine::Rng;

/// What a choice is about; explorations select which kinds they vary.
pub mod kind {
    pub const CE: u32 = 1; // colour endpoint symbols
    pub const CS: u32 = 2; // colour selector symbols
    pub const AE: u32 = 4;
    pub const AS: u32 = 8;
    pub const REF: u32 = 16; // chunk encodings / endpoint references
    pub const DELTA: u32 = 32; // endpoint deltas
    pub const SEL: u32 = 64; // selector deltas / indices
    pub const HUFF: u32 = 128; // code shapes
    pub const LAYOUT: u32 = 256; // file layout
    pub const ALL: u32 = 511;
}

/// A sequence of choices: recorded values, some of them overridden.
pub struct Choices<'a> {
    rng: Rng,
    zero: u32, // kinds that start from alternative 0
    over: &'a [(usize, u32)],
    pub log: Vec<(u32, u32, u32)>, // kind, number of alternatives, value
}
impl<'a> Choices<'a> {
    pub fn new(seed: u64, zero: u32, over: &'a [(usize, u32)]) -> Self {
        Choices { rng: Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15)), zero, over, log: Vec::with_capacity(128) }
    }
    pub fn pick(&mut self, k: u32, n: u32) -> u32 {
        let mut v = (self.rng.next() % n as u64) as u32;
        if self.zero & k != 0 {
            v = 0
        }
        let pos = self.log.len();
        for o in self.over {
            if o.0 == pos {
                v = o.1 % n;
            }
        }
        self.log.push((k, n, v));
        v
    }
}

#[derive(Default)]
pub struct Bits {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    pub fn put(&mut self, v: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.acc = self.acc << n | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            self.n -= 8;
            self.out.push((self.acc >> self.n) as u8);
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.put(0, 8 - self.n);
        }
        if self.out.is_empty() {
            self.out.push(0)
        }
        self.out
    }
}

/// Canonical prefix code: codes ascend by (length, symbol).
pub struct Code {
    pub sizes: Vec<u8>,
    codes: Vec<u32>,
}
impl Code {
    pub fn new(sizes: Vec<u8>) -> Code {
        let mut count = [0u32; 17];
        sizes.iter().for_each(|l| count[*l as usize] += 1);
        let mut next = [0u32; 17];
        for len in 2..17 {
            next[len] = (next[len - 1] + count[len - 1]) << 1;
        }
        let codes = sizes
            .iter()
            .map(|l| {
                let c = next[*l as usize];
                next[*l as usize] += 1;
                c
            })
            .collect();
        Code { sizes, codes }
    }
    pub fn put(&self, w: &mut Bits, s: u32) {
        let l = self.sizes[s as usize];
        assert!(l > 0, "symbol without a code");
        w.put(self.codes[s as usize], l as u32);
    }
    /// Kraft sum does not exceed one
    pub fn ok(sizes: &[u8]) -> bool {
        sizes.iter().filter(|l| **l > 0).map(|l| 1u64 << (32 - *l as u32)).sum::<u64>() <= 1 << 32
    }
}
fn log2c(n: usize) -> u32 {
    (0..).find(|b| 1usize << b >= n).unwrap()
}
/// lengths for `n` symbols filling a subtree of depth `base`; complete unless n == 1 and base == 0
fn subtree(n: usize, base: u32, complete: bool) -> Vec<u8> {
    let c = log2c(n);
    if n == 1 {
        return vec![(base.max(1)) as u8];
    }
    let short = if complete { (1usize << c) - n } else { 0 };
    (0..n).map(|i| (base + c - (i < short) as u32) as u8).collect()
}
/// Code shapes: number `shape` of `SHAPES` over the used symbols out of `n`.
pub const SHAPES: u32 = 26;
pub fn sizes(shape: u32, n: usize, used: &[bool]) -> Vec<u8> {
    let all = matches!(shape, 0 | 1);
    let mut syms: Vec<usize> = (0..n).filter(|i| all || used[*i]).collect();
    if syms.is_empty() {
        syms.push(0);
    }
    if shape >= 4 && shape % 2 == 1 {
        syms.reverse();
    }
    let k = syms.len();
    let ls: Vec<u8> = match shape {
        0 => subtree(k, 0, true),
        1 => subtree(k, 0, false),
        2 => subtree(k, 0, true),
        3 => vec![16; k],
        // a comb of depth d, the rest at the bottom
        4..=21 => {
            let d = [1u32, 2, 3, 5, 8, 10, 11, 12, 15][(shape as usize - 4) / 2].min(k as u32 - 1);
            let rest = k - d as usize;
            let room = 16 - log2c(rest).min(16);
            let d = d.min(room);
            let rest = k - d as usize;
            let mut v: Vec<u8> = (1..=d as u8).collect();
            v.extend(subtree(rest, d, true));
            v
        }
        // everything at one length, around the size of the lookup table
        22 => vec![log2c(k).max(11) as u8; k],
        23 => vec![log2c(k).max(12) as u8; k],
        24 => vec![log2c(k).max(10) as u8; k],
        // all lengths from short to long repeatedly
        _ => {
            let mut v = vec![];
            let c = log2c(k) + 1;
            for i in 0..k {
                v.push((c + (i as u32 % 3)).min(16) as u8);
            }
            v
        }
    };
    let mut out = vec![0u8; n];
    for (s, l) in syms.iter().zip(ls) {
        out[*s] = l.min(16);
    }
    if !Code::ok(&out) {
        return sizes(0, n, used);
    }
    out
}
/// Serialise a code.  rle: 0 none, 1 greedy, 2 small runs only, 3 large runs only;
/// trim: leave out trailing unused symbols and trailing code-length codes; deep: skewed code-length code.
pub fn put_code(w: &mut Bits, sizes: &[u8], rle: u32, trim: bool, deep: bool) {
    let n = if trim { sizes.iter().rposition(|l| *l != 0).map_or(0, |p| p + 1) } else { sizes.len() };
    w.put(n as u32, 14);
    if n == 0 {
        return;
    }
    let mut toks: Vec<(u32, u32, u32)> = vec![]; // symbol, extra value, extra bits
    let mut i = 0;
    while i < n {
        let v = sizes[i];
        let run = (i..n).take_while(|j| sizes[*j] == v).count();
        if v == 0 {
            if rle != 0 && rle != 2 && run >= 11 {
                let r = run.min(138);
                toks.push((18, r as u32 - 11, 7));
                i += r;
                continue;
            }
            if rle != 0 && rle != 3 && run >= 3 {
                let r = run.min(10);
                toks.push((17, r as u32 - 3, 3));
                i += r;
                continue;
            }
        } else if i > 0 && sizes[i - 1] == v {
            if rle != 0 && rle != 2 && run >= 7 {
                let r = run.min(70);
                toks.push((20, r as u32 - 7, 6));
                i += r;
                continue;
            }
            if rle != 0 && rle != 3 && run >= 3 {
                let r = run.min(6);
                toks.push((19, r as u32 - 3, 2));
                i += r;
                continue;
            }
        }
        toks.push((v as u32, 0, 0));
        i += 1;
    }
    let mut used = [false; 21];
    toks.iter().for_each(|t| used[t.0 as usize] = true);
    let syms: Vec<usize> = (0..21).filter(|i| used[*i]).collect();
    let mut cl = vec![0u8; 21];
    let k = syms.len();
    let d = if deep { (k - 1).min(7 - (log2c(k.max(2)) as usize).min(3)).min(k - 1) } else { 0 };
    let mut d = d;
    while k - d > 1 && d as u32 + log2c(k - d) > 7 {
        d -= 1;
    }
    let mut ls: Vec<u8> = (1..=d as u8).collect();
    ls.extend(subtree(k - d, d as u32, true));
    for (s, l) in syms.iter().zip(ls) {
        cl[*s] = l;
    }
    let order = [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16];
    let m = if trim { order.iter().rposition(|s| cl[*s] != 0).unwrap() + 1 } else { 21 };
    w.put(m as u32, 5);
    for s in &order[..m] {
        w.put(cl[*s] as u32, 3);
    }
    let c = Code::new(cl);
    for t in toks {
        c.put(w, t.0);
        w.put(t.1, t.2);
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub unity: bool,
    pub fmt: u8,
    pub w: usize,
    pub h: usize,
    pub faces: usize,
    pub levels: usize,
    pub num: [usize; 4], // colour endpoints, colour selectors, alpha endpoints, alpha selectors
    pub shape: Option<u32>, // one code shape for every model, or chosen per model
    pub rle: u32,           // packed: rle style, trim, deep
    pub layout: Option<u32>,
}
pub const LAYOUTS: u32 = 12;
impl Params {
    pub fn new(unity: bool, fmt: u8, w: usize, h: usize, faces: usize) -> Params {
        Params { unity, fmt, w, h, faces, levels: 1, num: [3, 3, 3, 3], shape: Some(2), rle: 5, layout: Some(0) }
    }
    pub fn etc(&self) -> bool {
        self.fmt >= 10
    }
    pub fn sub(&self) -> bool {
        (10..=12).contains(&self.fmt)
    }
    pub fn colour(&self) -> bool {
        !(7..=9).contains(&self.fmt)
    }
    pub fn alphas(&self) -> usize {
        match self.fmt {
            0 | 10 | 11 | 13 => 0,
            7 | 8 => 2,
            _ => 1,
        }
    }
    pub fn block_bytes(&self) -> usize {
        if matches!(self.fmt, 0 | 9 | 10 | 11 | 13) { 8 } else { 16 }
    }
}
/// formats each decoder can decode
pub const CRUNCH_FORMATS: [u8; 9] = [0, 2, 3, 4, 5, 6, 7, 8, 9];
pub const UNITY_FORMATS: [u8; 14] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

pub struct File {
    pub bytes: Vec<u8>,
    /// blocks of level 0, all faces, in raster order
    pub blocks: Vec<u8>,
    pub bx: usize,
    pub by: usize,
}

/// symbols of one segment: (model, symbol)
type Syms = Vec<(usize, u32)>;
struct Models {
    sizes: Vec<usize>, // alphabet of each model
}

fn from_linear2(v: u8) -> u32 {
    [0, 2, 3, 1][v as usize]
}
fn from_linear3(v: u8) -> u64 {
    [0, 2, 3, 4, 5, 6, 7, 1][v as usize]
}
fn dxt_colour(e: &[u32; 6], s: &[u8; 16]) -> [u8; 8] {
    // two 5:6:5 colours, then 2 bits per texel
    let w0 = e[0] << 11 | e[1] << 5 | e[2];
    let w1 = e[3] << 11 | e[4] << 5 | e[5];
    let bits = (0..16).fold(0u32, |a, i| a | from_linear2(s[i]) << (2 * i));
    let mut b = [0u8; 8];
    b[0..2].copy_from_slice(&(w0 as u16).to_le_bytes());
    b[2..4].copy_from_slice(&(w1 as u16).to_le_bytes());
    b[4..8].copy_from_slice(&bits.to_le_bytes());
    b
}
fn dxt_alpha(e: &[u32; 2], s: &[u8; 16]) -> [u8; 8] {
    let bits = (0..16).fold(0u64, |a, i| a | from_linear3(s[i]) << (3 * i));
    let mut b = bits.wrapping_shl(16).to_le_bytes();
    b[0] = e[0] as u8;
    b[1] = e[1] as u8;
    b
}
/// ETC colour block of two endpoints (r, g, b, table) with a sub-block split
fn etc_colour(e0: &[u32; 4], e1: &[u32; 4], flip: bool, s: &[u8; 16]) -> [u8; 8] {
    let diff = (0..3).all(|c| {
        let d = e1[c] as i32 - e0[c] as i32;
        (-4..=3).contains(&d)
    });
    let mut b = [0u8; 8];
    for c in 0..3 {
        b[c] = if diff {
            (e0[c] << 3 | ((e1[c] as i32 - e0[c] as i32) & 7) as u32) as u8
        } else {
            ((e0[c] >> 1) << 4 | e1[c] >> 1) as u8
        };
    }
    b[3] = (e0[3] << 5 | e1[3] << 2 | (diff as u32) << 1 | flip as u32) as u8;
    etc_codes(&mut b, s, !flip);
    b
}
fn etc_codes(b: &mut [u8; 8], s: &[u8; 16], transposed: bool) {
    let (mut msb, mut lsb) = (0u16, 0u16);
    for y in 0..4 {
        for x in 0..4 {
            let v = if transposed { s[x * 4 + y] } else { s[y * 4 + x] };
            // -large, -small, +small, +large
            let code = [3u16, 2, 0, 1][v as usize];
            msb |= (code >> 1) << (x * 4 + y);
            lsb |= (code & 1) << (x * 4 + y);
        }
    }
    b[4..6].copy_from_slice(&msb.to_be_bytes());
    b[6..8].copy_from_slice(&lsb.to_be_bytes());
}
fn etc_alpha(e: &[u32; 2], s: &[u8; 16], transposed: bool) -> [u8; 8] {
    let mut bits = 0u64;
    for y in 0..4 {
        for x in 0..4 {
            let v = if transposed { s[x * 4 + y] } else { s[y * 4 + x] } as u64;
            // ascending: the four negative modifiers are stored in descending order
            let code = if v <= 3 { 3 - v } else { v };
            bits |= code << (45 - 3 * (x * 4 + y));
        }
    }
    let mut b = bits.to_be_bytes();
    b[0] = e[0] as u8;
    b[1] = e[1] as u8;
    b
}

pub fn build(p: &Params, c: &mut Choices) -> File {
    let bx = p.w.div_ceil(4).max(1);
    let by = p.h.div_ceil(4).max(1);
    let n = p.num;
    // models: 0 reference/chunk, 1 colour endpoint delta, 2 colour selector delta, 3 alpha endpoint delta,
    // 4 alpha selector delta, 5 and 6 colour endpoint components, 7 colour selectors, 8 alpha endpoints, 9 alpha selectors
    let ms = Models {
        sizes: vec![
            if p.unity { 256 } else { 512 },
            n[0],
            n[1],
            n[2],
            n[3],
            32,
            64,
            if p.unity { 16 } else { 49 },
            256,
            if p.unity { 64 } else { 225 },
        ],
    };
    // ---- palettes
    let (mut s_ce, mut s_cs, mut s_ae, mut s_as): (Syms, Syms, Syms, Syms) = Default::default();
    let mut ce: Vec<[u32; 6]> = vec![];
    let mut etc_e: Vec<[u32; 4]> = vec![];
    let mut cs: Vec<[u8; 16]> = vec![];
    let mut ae: Vec<[u32; 2]> = vec![];
    let mut sa: Vec<[u8; 16]> = vec![];
    if p.colour() {
        if p.etc() {
            let mut cur = [0u32; 4];
            for _ in 0..n[0] {
                for (i, v) in cur.iter_mut().enumerate() {
                    // three 5-bit colour components, then the number of the modifier table
                    let d = if i < 3 { c.pick(kind::CE, 32) } else { (c.pick(kind::CE, 8) + 32 - *v) % 32 };
                    s_ce.push((5, d));
                    *v = (*v + d) % 32;
                }
                etc_e.push(cur);
            }
        } else {
            let mut cur = [0u32; 6];
            for _ in 0..n[0] {
                for (i, v) in cur.iter_mut().enumerate() {
                    let m = if i % 3 == 1 { 64 } else { 32 };
                    let d = c.pick(kind::CE, m);
                    s_ce.push((if m == 64 { 6 } else { 5 }, d));
                    *v = (*v + d) % m;
                }
                ce.push(cur);
            }
        }
        let mut cur = [0u8; 16];
        for _ in 0..n[1] {
            for j in 0..8 {
                if p.unity {
                    let d = c.pick(kind::CS, 16);
                    s_cs.push((7, d));
                    cur[2 * j] ^= (d & 3) as u8;
                    cur[2 * j + 1] ^= (d >> 2) as u8;
                } else {
                    let d = c.pick(kind::CS, 49);
                    s_cs.push((7, d));
                    cur[2 * j] = (cur[2 * j] as i32 + (d % 7) as i32 - 3).rem_euclid(4) as u8;
                    cur[2 * j + 1] = (cur[2 * j + 1] as i32 + (d / 7) as i32 - 3).rem_euclid(4) as u8;
                }
            }
            cs.push(cur);
        }
    }
    if p.alphas() > 0 {
        let mut cur = [0u32; 2];
        for _ in 0..n[2] {
            for v in cur.iter_mut() {
                let d = c.pick(kind::AE, 256);
                s_ae.push((8, d));
                *v = (*v + d) % 256;
            }
            ae.push(cur);
        }
        let mut cur = [0u8; 16];
        for _ in 0..n[3] {
            for j in 0..8 {
                if p.unity {
                    let d = c.pick(kind::AS, 64);
                    s_as.push((9, d));
                    cur[2 * j] ^= (d & 7) as u8;
                    cur[2 * j + 1] ^= (d >> 3) as u8;
                } else {
                    let d = c.pick(kind::AS, 225);
                    s_as.push((9, d));
                    cur[2 * j] = (cur[2 * j] as i32 + (d % 15) as i32 - 7).rem_euclid(8) as u8;
                    cur[2 * j + 1] = (cur[2 * j + 1] as i32 + (d / 15) as i32 - 7).rem_euclid(8) as u8;
                }
            }
            sa.push(cur);
        }
    }
    // ---- level 0
    let mut lv: Syms = vec![];
    let bb = p.block_bytes();
    let mut blocks = vec![0u8; bx * by * p.faces * bb];
    let make_dxt = |ci: usize, csel: usize, ai: &[usize; 2], asel: &[usize; 2]| -> Vec<u8> {
        let mut b = vec![];
        for k in 0..p.alphas() {
            match p.fmt {
                14 => b.extend(etc_alpha(&ae[ai[k]], &sa[asel[k]], false)),
                _ => b.extend(dxt_alpha(&ae[ai[k]], &sa[asel[k]])),
            }
        }
        if p.colour() {
            if p.etc() {
                let e = etc_e[ci];
                let t = e[3];
                let mut x = [(e[0] << 3) as u8, (e[1] << 3) as u8, (e[2] << 3) as u8, (t << 5 | t << 2 | 2) as u8, 0, 0, 0, 0];
                etc_codes(&mut x, &cs[csel], false);
                b.extend(x);
            } else {
                b.extend(dxt_colour(&ce[ci], &cs[csel]));
            }
        }
        b
    };
    if !p.unity {
        level_crunch(p, c, &mut lv, bx, by, &mut blocks, &make_dxt);
    } else if !p.sub() {
        level_unity(p, c, &mut lv, bx, by, &mut blocks, &make_dxt);
    } else {
        level_unity_etc(p, c, &mut lv, bx, by, &mut blocks, &etc_e, &cs, &ae, &sa);
    }
    // ---- codes
    let mut used: Vec<Vec<bool>> = ms.sizes.iter().map(|n| vec![false; *n]).collect();
    for seg in [&s_ce, &s_cs, &s_ae, &s_as, &lv] {
        for (m, s) in seg {
            used[*m][*s as usize] = true;
        }
    }
    let mut codes: Vec<Option<Code>> = vec![];
    let mut opts = vec![];
    for m in 0..10 {
        let want = match m {
            0 => true,
            1 | 2 | 5 | 7 => p.colour(),
            6 => p.colour() && !p.etc(),
            _ => p.alphas() > 0,
        };
        if !want {
            codes.push(None);
            opts.push(0);
            continue;
        }
        let sh = match p.shape {
            Some(s) => s,
            None => c.pick(kind::HUFF, SHAPES),
        };
        opts.push(if p.rle < 16 { p.rle } else { c.pick(kind::HUFF, 16) });
        codes.push(Some(Code::new(sizes(sh, ms.sizes[m], &used[m]))));
    }
    let put = |w: &mut Bits, m: usize| {
        let o = opts[m];
        put_code(w, &codes[m].as_ref().unwrap().sizes, o & 3, o & 4 != 0, o & 8 != 0)
    };
    let body = |w: &mut Bits, s: &Syms| {
        for (m, v) in s {
            codes[*m].as_ref().unwrap().put(w, *v)
        }
    };
    let mut tables = Bits::default();
    for m in 0..5 {
        if codes[m].is_some() {
            put(&mut tables, m)
        }
    }
    let tables = tables.finish();
    let seg = |ms: &[usize], s: &Syms| {
        let mut w = Bits::default();
        ms.iter().for_each(|m| put(&mut w, *m));
        body(&mut w, s);
        w.finish()
    };
    let mut pal: Vec<Vec<u8>> = vec![vec![]; 4];
    if p.colour() {
        pal[0] = if p.etc() { seg(&[5], &s_ce) } else { seg(&[5, 6], &s_ce) };
        pal[1] = seg(&[7], &s_cs);
    }
    if p.alphas() > 0 {
        pal[2] = seg(&[8], &s_ae);
        pal[3] = seg(&[9], &s_as);
    }
    let mut level = seg(&[], &lv);
    let need = (bx * by * p.faces).div_ceil(8);
    if level.len() < need {
        level.resize(need, 0) // only possible when every symbol has a one-bit code
    }
    // ---- file
    let lay = match p.layout {
        Some(l) => l,
        None => c.pick(kind::LAYOUT, LAYOUTS),
    };
    let gap = [0usize, 0, 1, 5, 0, 0, 0, 300, 0, 0, 70000, 2][lay as usize % 12];
    let order: [usize; 5] = match lay {
        0 | 2 | 7 => [0, 1, 2, 3, 4],
        1 | 3 => [4, 3, 2, 1, 0],
        4 => [1, 2, 3, 4, 0],
        5 => [2, 4, 0, 1, 3],
        6 => [4, 0, 1, 2, 3],
        8 => [3, 1, 4, 0, 2],
        10 => [1, 0, 3, 2, 4],
        _ => [0, 2, 1, 4, 3],
    };
    let levels_first = matches!(lay, 5 | 8 | 11) && p.levels > 1;
    let hs = 70 + 4 * p.levels.max(1) + if lay == 9 { 6 } else { 0 };
    let mut out = vec![0u8; hs];
    let mut ofs = [0usize; 5];
    let mut lofs = vec![0usize; p.levels];
    let junk = |out: &mut Vec<u8>| (0..gap).for_each(|i| out.push((i * 37 + 11) as u8));
    let put_levels = |out: &mut Vec<u8>, lofs: &mut Vec<usize>| {
        for (i, o) in lofs.iter_mut().enumerate() {
            *o = out.len();
            if i == 0 {
                out.extend(&level)
            } else {
                out.extend([0x5a, 0xc3, i as u8])
            }
        }
    };
    if levels_first {
        put_levels(&mut out, &mut lofs);
    }
    for k in order {
        junk(&mut out);
        ofs[k] = out.len();
        let d = if k == 4 { &tables } else { &pal[k] };
        out.extend(d);
    }
    junk(&mut out);
    if !levels_first {
        put_levels(&mut out, &mut lofs);
    }
    let data_size = out.len();
    if lay == 11 || lay == 3 {
        out.extend([0xEE; 9]);
    }
    let be = |out: &mut Vec<u8>, at: usize, n: usize, v: usize| {
        for i in 0..n {
            out[at + i] = (v >> (8 * (n - 1 - i))) as u8;
        }
    };
    be(&mut out, 0, 2, 0x4878);
    be(&mut out, 2, 2, hs);
    be(&mut out, 4, 2, 0xBEEF);
    be(&mut out, 6, 4, data_size);
    be(&mut out, 10, 2, 0xFACE);
    be(&mut out, 12, 2, p.w);
    be(&mut out, 14, 2, p.h);
    be(&mut out, 16, 1, p.levels);
    be(&mut out, 17, 1, p.faces);
    be(&mut out, 18, 1, p.fmt as usize);
    be(&mut out, 25, 4, 0x01020304);
    for k in 0..4 {
        let at = 33 + 8 * k;
        let on = if k < 2 { p.colour() } else { p.alphas() > 0 };
        if on {
            be(&mut out, at, 3, ofs[k]);
            be(&mut out, at + 3, 3, pal[k].len());
            be(&mut out, at + 6, 2, n[k]);
        }
    }
    be(&mut out, 65, 2, tables.len());
    be(&mut out, 67, 3, ofs[4]);
    for (i, o) in lofs.iter().enumerate() {
        be(&mut out, 70 + 4 * i, 4, *o);
    }
    assert!(tables.len() < 65536 && ofs.iter().all(|o| *o < 1 << 24));
    File { bytes: out, blocks, bx, by }
}

const TILES: [[usize; 4]; 8] = [
    [0, 0, 0, 0],
    [0, 0, 1, 1],
    [0, 1, 0, 1],
    [0, 0, 1, 2],
    [1, 2, 0, 0],
    [0, 1, 0, 2],
    [1, 0, 2, 0],
    [0, 1, 2, 3],
];
type MakeDxt<'a> = &'a dyn Fn(usize, usize, &[usize; 2], &[usize; 2]) -> Vec<u8>;

fn step(c: &mut Choices, k: u32, lv: &mut Syms, model: usize, idx: &mut usize, n: usize) -> usize {
    let d = c.pick(k, n as u32);
    lv.push((model, d));
    *idx = (*idx + d as usize) % n;
    *idx
}

fn level_crunch(p: &Params, c: &mut Choices, lv: &mut Syms, bx: usize, by: usize, blocks: &mut [u8], make: MakeDxt) {
    let bb = p.block_bytes();
    let (cx, cy) = (bx.div_ceil(2), by.div_ceil(2));
    let total = cx * cy * p.faces;
    // which partition each chunk uses, packed three to a symbol
    let mut enc: Vec<usize> = vec![];
    let (mut ci, mut cs) = (0usize, 0usize);
    let (mut ai, mut asl) = ([0usize; 2], [0usize; 2]);
    let mut done = 0;
    for f in 0..p.faces {
        for y in 0..cy {
            for k in 0..cx {
                let x = if y % 2 == 1 { cx - 1 - k } else { k };
                if done % 3 == 0 {
                    // encodings of chunks behind the last one are immaterial
                    let m = (total - done).min(3);
                    let mut s = 0;
                    for i in 0..m {
                        let e = c.pick(kind::REF, 8);
                        enc.push(e as usize);
                        s |= e << (3 * i);
                    }
                    lv.push((0, s));
                }
                let tiles = TILES[enc[done]];
                done += 1;
                let nt = tiles.iter().max().unwrap() + 1;
                let mut te = [0usize; 4];
                let mut ta = [[0usize; 2]; 4];
                // all alpha endpoints first, then the colour endpoints
                for a in 0..p.alphas() {
                    for t in ta.iter_mut().take(nt) {
                        t[a] = step(c, kind::DELTA, lv, 3, &mut ai[a], p.num[2]);
                    }
                }
                if p.colour() {
                    for t in te.iter_mut().take(nt) {
                        *t = step(c, kind::DELTA, lv, 1, &mut ci, p.num[0]);
                    }
                }
                for q in 0..4 {
                    let (px, py) = (x * 2 + q % 2, y * 2 + q / 2);
                    let mut sel = [0usize; 2];
                    for a in 0..p.alphas() {
                        sel[a] = step(c, kind::SEL, lv, 4, &mut asl[a], p.num[3]);
                    }
                    let mut s = 0;
                    if p.colour() {
                        s = step(c, kind::SEL, lv, 2, &mut cs, p.num[1]);
                    }
                    if px < bx && py < by {
                        let b = make(te[tiles[q]], s, &ta[tiles[q]], &sel);
                        let at = ((f * by + py) * bx + px) * bb;
                        blocks[at..at + bb].copy_from_slice(&b);
                    }
                }
            }
        }
    }
}
/// where a block takes its endpoints from: 0 new, 1 previous block, 2 block above, 3 block above left (ETC)
fn reference(c: &mut Choices, f: usize, x: usize, y: usize, diag: bool) -> u32 {
    let mut ok = vec![0u32];
    if f + x + y > 0 {
        ok.push(1);
    }
    if y > 0 {
        ok.push(2);
        if diag && x > 0 {
            ok.push(3)
        }
    }
    ok[c.pick(kind::REF, ok.len() as u32) as usize]
}
fn level_unity(p: &Params, c: &mut Choices, lv: &mut Syms, bx: usize, by: usize, blocks: &mut [u8], make: MakeDxt) {
    let bb = p.block_bytes();
    let (w, h) = (bx.div_ceil(2) * 2, by.div_ceil(2) * 2);
    // endpoint indices of the previous block, and per position
    let (mut ci, mut ai) = (0usize, [0usize; 2]);
    for f in 0..p.faces {
        let mut refs = vec![0u32; w * h];
        let mut at_pos = vec![(0usize, [0usize; 2]); w * h];
        for y in 0..h {
            for x in 0..w {
                if y % 2 == 0 && x % 2 == 0 {
                    let mut s = 0;
                    for (i, (dx, dy)) in [(0, 0), (0, 1), (1, 0), (1, 1)].into_iter().enumerate() {
                        let r = reference(c, f, x + dx, y + dy, false);
                        refs[(y + dy) * w + x + dx] = r;
                        s |= r << (2 * i);
                    }
                    lv.push((0, s));
                }
                match refs[y * w + x] {
                    0 => {
                        if p.colour() {
                            step(c, kind::DELTA, lv, 1, &mut ci, p.num[0]);
                        }
                        for a in ai.iter_mut().take(p.alphas()) {
                            step(c, kind::DELTA, lv, 3, a, p.num[2]);
                        }
                    }
                    1 => {}
                    _ => (ci, ai) = at_pos[(y - 1) * w + x],
                }
                at_pos[y * w + x] = (ci, ai);
                let mut cs = 0;
                if p.colour() {
                    cs = c.pick(kind::SEL, p.num[1] as u32) as usize;
                    lv.push((2, cs as u32));
                }
                let mut sel = [0usize; 2];
                for s in sel.iter_mut().take(p.alphas()) {
                    *s = c.pick(kind::SEL, p.num[3] as u32) as usize;
                    lv.push((4, *s as u32));
                }
                if x < bx && y < by {
                    let b = make(ci, cs, &ai, &sel);
                    let at = ((f * by + y) * bx + x) * bb;
                    blocks[at..at + bb].copy_from_slice(&b);
                }
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn level_unity_etc(
    p: &Params,
    c: &mut Choices,
    lv: &mut Syms,
    bx: usize,
    by: usize,
    blocks: &mut [u8],
    ep: &[[u32; 4]],
    cs: &[[u8; 16]],
    ae: &[[u32; 2]],
    sa: &[[u8; 16]],
) {
    let bb = p.block_bytes();
    let alpha = p.alphas() > 0;
    let (w, h) = (bx.div_ceil(2) * 2, by.div_ceil(2) * 2);
    // (first endpoint, second endpoint, alpha endpoint) of every block of the face
    let (mut ci, mut ai) = (0usize, 0usize);
    for f in 0..p.faces {
        let mut refs = vec![(0u32, 0u32); w * h];
        let mut st = vec![(0usize, 0usize, 0usize); w * h];
        for y in 0..h {
            for x in 0..w {
                if y % 2 == 0 {
                    let up = (reference(c, f, x, y, true), 0);
                    let lo = (reference(c, f, x, y + 1, true), 0);
                    let (su, sl) = (c.pick(kind::REF, 4), c.pick(kind::REF, 4));
                    refs[y * w + x] = (up.0, su);
                    refs[(y + 1) * w + x] = (lo.0, sl);
                    lv.push((0, up.0 | lo.0 << 2 | su << 4 | sl << 6));
                }
                let (r, sub) = refs[y * w + x];
                match r {
                    0 => {
                        step(c, kind::DELTA, lv, 1, &mut ci, p.num[0]);
                        if alpha {
                            step(c, kind::DELTA, lv, 3, &mut ai, p.num[2]);
                        }
                    }
                    1 => {}
                    2 => {
                        let a = st[(y - 1) * w + x];
                        (ci, ai) = (a.0, a.2);
                    }
                    _ => {
                        let a = st[(y - 1) * w + x - 1];
                        (ci, ai) = (a.1, a.2);
                    }
                }
                let first = ci;
                let s = c.pick(kind::SEL, p.num[1] as u32) as usize;
                lv.push((2, s as u32));
                let mut s2 = 0;
                if alpha {
                    s2 = c.pick(kind::SEL, p.num[3] as u32) as usize;
                    lv.push((4, s2 as u32));
                }
                if sub != 0 {
                    step(c, kind::DELTA, lv, 1, &mut ci, p.num[0]);
                }
                st[y * w + x] = (first, ci, ai);
                if x < bx && y < by {
                    let flip = sub < 2;
                    let at = ((f * by + y) * bx + x) * bb;
                    let mut b = vec![];
                    if alpha {
                        b.extend(etc_alpha(&ae[ai], &sa[s2], !flip));
                    }
                    b.extend(etc_colour(&ep[first], &ep[ci], flip, &cs[s]));
                    blocks[at..at + bb].copy_from_slice(&b);
                }
            }
        }
    }
}
