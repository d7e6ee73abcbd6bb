//! ASTC 2D blocks, written from the Khronos Data Format Specification.
use super::px;

pub const FOOTPRINTS: [(usize, usize); 14] = [
    (4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8), (10, 10), (12, 10),
    (12, 12),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// constant colour; `loose` when the extent fields are not the ones an encoder may write
    Void { loose: bool, nan: [bool; 4] },
    Illegal,
    Ldr,
    Hdr,
}
fn bit(b: u128, i: u32) -> usize {
    (b >> i & 1) as usize
}
fn f(b: u128, lo: u32, n: u32) -> usize {
    if n == 0 {
        return 0;
    }
    (b >> lo & ((1u128 << n) - 1)) as usize
}

/// a quantization range: number of levels = 2^bits * (1, 3 or 5)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Range {
    pub bits: u32,
    pub base: u32, // 1, 3, 5
}
impl Range {
    /// bits an integer sequence of n values occupies
    pub fn size(self, n: usize) -> usize {
        self.bits as usize * n
            + match self.base {
                3 => (8 * n).div_ceil(5),
                5 => (7 * n).div_ceil(3),
                _ => 0,
            }
    }
}
const fn r(bits: u32, base: u32) -> Range {
    Range { bits, base }
}
/// all ranges, smallest first: 2,3,4,5,6,8,10,12,16,20,24,32,40,48,64,80,96,128,160,192,256 levels
pub const RANGES: [Range; 21] = [
    r(1, 1), r(0, 3), r(2, 1), r(0, 5), r(1, 3), r(3, 1), r(1, 5), r(2, 3), r(4, 1), r(2, 5), r(3, 3), r(5, 1), r(3, 5),
    r(4, 3), r(6, 1), r(4, 5), r(5, 3), r(7, 1), r(5, 5), r(6, 3), r(8, 1),
];

#[derive(Clone, Copy, Debug)]
pub struct Mode {
    pub w: usize,
    pub h: usize,
    pub range: Range,
    pub dual: bool,
}
/// the 11-bit block mode; None = reserved (void extent included)
pub fn mode(m: usize) -> Option<Mode> {
    let b = |i: usize| m >> i & 1;
    let a = b(6) * 2 + b(5);
    let (mut d, mut hi) = (b(10), b(9));
    let (w, h, rr);
    if m & 3 != 0 {
        rr = b(1) * 4 + b(0) * 2 + b(4);
        let bb = b(8) * 2 + b(7);
        (w, h) = match (b(3), b(2)) {
            (0, 0) => (bb + 4, a + 2),
            (0, 1) => (bb + 8, a + 2),
            (1, 0) => (a + 2, bb + 8),
            _ if b(8) == 0 => (a + 2, b(7) + 6),
            _ => (b(7) + 2, a + 2),
        };
    } else {
        rr = b(3) * 4 + b(2) * 2 + b(4);
        if m & 0xf == 0 {
            return None;
        }
        (w, h) = match (b(8), b(7)) {
            (0, 0) => (12, a + 2),
            (0, 1) => (a + 2, 12),
            (1, 0) => {
                let bb = b(10) * 2 + b(9);
                (d, hi) = (0, 0);
                (a + 6, bb + 6)
            }
            _ => match a {
                0 => (6, 10),
                1 => (10, 6),
                _ => return None,
            },
        };
    }
    // weight ranges: H=0 -> 2,3,4,5,6,8 levels, H=1 -> 10,12,16,20,24,32
    let i = rr - 2 + if hi == 1 { 6 } else { 0 };
    Some(Mode { w, h, range: RANGES[i], dual: d == 1 })
}

/// decode an integer sequence: (trit/quint, bits) of each value
fn ise(src: u128, len: usize, range: Range, n: usize) -> Vec<(usize, usize)> {
    let src = if len >= 128 { src } else { src & ((1u128 << len) - 1) };
    let mb = range.bits;
    let mut at = 0u32;
    let mut take = |k: u32| {
        let v = if at >= 128 { 0 } else { f(src, at, k.min(128 - at)) };
        at += k;
        v
    };
    let mut out = vec![];
    while out.len() < n {
        match range.base {
            3 => {
                let mut m = [0; 5];
                let mut t = 0;
                for (i, (k, s)) in [(2, 0), (2, 2), (1, 4), (2, 5), (1, 7)].into_iter().enumerate() {
                    m[i] = take(mb);
                    t |= take(k) << s;
                }
                let tr = trits(t);
                for i in 0..5 {
                    out.push((tr[i], m[i]));
                }
            }
            5 => {
                let mut m = [0; 3];
                let mut q = 0;
                for (i, (k, s)) in [(3, 0), (2, 3), (2, 5)].into_iter().enumerate() {
                    m[i] = take(mb);
                    q |= take(k) << s;
                }
                let qu = quints(q);
                for i in 0..3 {
                    out.push((qu[i], m[i]));
                }
            }
            _ => out.push((0, take(mb))),
        }
    }
    out.truncate(n);
    out
}
fn trits(t: usize) -> [usize; 5] {
    let b = |v: usize, i: usize| v >> i & 1;
    let (c, t4, t3);
    if t >> 2 & 7 == 7 {
        c = (t >> 5 & 7) << 2 | t & 3;
        (t4, t3) = (2, 2);
    } else {
        c = t & 31;
        (t4, t3) = if t >> 5 & 3 == 3 { (2, b(t, 7)) } else { (b(t, 7), t >> 5 & 3) };
    }
    let (t2, t1, t0) = if c & 3 == 3 {
        (2, b(c, 4), b(c, 3) << 1 | b(c, 2) & (b(c, 3) ^ 1))
    } else if c >> 2 & 3 == 3 {
        (2, 2, c & 3)
    } else {
        (b(c, 4), c >> 2 & 3, b(c, 1) << 1 | b(c, 0) & (b(c, 1) ^ 1))
    };
    [t0, t1, t2, t3, t4]
}
fn quints(q: usize) -> [usize; 3] {
    let b = |i: usize| q >> i & 1;
    if q >> 1 & 3 == 3 && q >> 5 & 3 == 0 {
        let n0 = b(0) ^ 1;
        return [4, 4, b(0) << 2 | (b(4) & n0) << 1 | b(3) & n0];
    }
    let (c, q2);
    if q >> 1 & 3 == 3 {
        q2 = 4;
        c = (q >> 3 & 3) << 3 | (!(q >> 5) & 3) << 1 | b(0);
    } else {
        q2 = q >> 5 & 3;
        c = q & 31;
    }
    if c & 7 == 5 {
        [c >> 3 & 3, 4, q2]
    } else {
        [c & 7, c >> 3 & 3, q2]
    }
}
/// spread pattern such as "b000b0bb0" over the bits of m (a = bit 0)
fn pattern(p: &str, m: usize) -> usize {
    p.bytes().fold(0, |acc, ch| acc << 1 | if ch == b'0' { 0 } else { m >> (ch - b'a') & 1 })
}
fn unq_colour(range: Range, (d, m): (usize, usize)) -> i32 {
    if range.base == 1 {
        // replicate to eight bits
        let n = range.bits;
        let mut v = 0usize;
        let mut have = 0;
        while have < 8 {
            v = v << n | m;
            have += n;
        }
        return (v >> (have - 8)) as i32;
    }
    let (p, c) = match (range.base, range.bits) {
        (3, 1) => ("000000000", 204),
        (5, 1) => ("000000000", 113),
        (3, 2) => ("b000b0bb0", 93),
        (5, 2) => ("b0000bb00", 54),
        (3, 3) => ("cb000cbcb", 44),
        (5, 3) => ("cb0000cbc", 26),
        (3, 4) => ("dcb000dcb", 22),
        (5, 4) => ("dcb0000dc", 13),
        (3, 5) => ("edcb000ed", 11),
        (5, 5) => ("edcb0000e", 6),
        (3, 6) => ("fedcb000f", 5),
        _ => unreachable!(),
    };
    let a = if m & 1 != 0 { 0x1ff } else { 0 };
    let t = (d * c + pattern(p, m)) ^ a;
    ((a & 0x80) | (t >> 2)) as i32
}
fn unq_weight(range: Range, (d, m): (usize, usize)) -> i32 {
    let t = match (range.base, range.bits) {
        (1, n) => {
            let mut v = 0usize;
            let mut have = 0;
            while have < 6 {
                v = v << n | m;
                have += n;
            }
            v >> (have - 6)
        }
        (3, 0) => [0, 32, 63][d],
        (5, 0) => [0, 16, 32, 47, 63][d],
        (b, n) => {
            let (p, c) = match (b, n) {
                (3, 1) => ("0000000", 50),
                (5, 1) => ("0000000", 28),
                (3, 2) => ("b000b0b", 23),
                (5, 2) => ("b0000b0", 13),
                (3, 3) => ("cb000cb", 11),
                _ => unreachable!(),
            };
            let a = if m & 1 != 0 { 0x7f } else { 0 };
            let t = (d * c + pattern(p, m)) ^ a;
            (a & 0x20) | (t >> 2)
        }
    } as i32;
    if t > 32 { t + 1 } else { t }
}

/// the specification's partition hash
fn partition(seed: usize, x: usize, y: usize, n: usize, small: bool) -> usize {
    let (x, y) = if small { (x as i64 * 2, y as i64 * 2) } else { (x as i64, y as i64) };
    let seed = (seed + (n - 1) * 1024) as u32;
    let mut p = seed;
    p ^= p >> 15;
    p = p.wrapping_sub(p << 17);
    p = p.wrapping_add(p << 7);
    p = p.wrapping_add(p << 4);
    p ^= p >> 5;
    p = p.wrapping_add(p << 16);
    p ^= p >> 7;
    p ^= p >> 3;
    p ^= p << 6;
    p ^= p >> 17;
    let rnum = p;
    let mut s = [0i64; 12];
    // seeds 1..8 and 9..12 (the z seeds do not matter in 2D)
    for (i, sh) in [0u32, 4, 8, 12, 16, 20, 24, 28].into_iter().enumerate() {
        s[i] = (rnum >> sh & 15) as i64;
    }
    for v in s.iter_mut().take(8) {
        *v *= *v;
    }
    let (sh1, sh2) = if seed & 1 != 0 {
        (if seed & 2 != 0 { 4 } else { 5 }, if n == 3 { 6 } else { 5 })
    } else {
        (if n == 3 { 6 } else { 5 }, if seed & 2 != 0 { 4 } else { 5 })
    };
    for i in [0, 2, 4, 6] {
        s[i] >>= sh1;
        s[i + 1] >>= sh2;
    }
    let v = |sx: i64, sy: i64, add: u32| (sx * x + sy * y + (rnum >> add) as i64) & 0x3f;
    let a = v(s[0], s[1], 14);
    let b = v(s[2], s[3], 10);
    let c = if n < 3 { 0 } else { v(s[4], s[5], 6) };
    let d = if n < 4 { 0 } else { v(s[6], s[7], 2) };
    if a >= b && a >= c && a >= d {
        0
    } else if b >= c && b >= d {
        1
    } else if c >= d {
        2
    } else {
        3
    }
}

/// endpoint pair of one partition; per channel whether it is HDR (12-bit logarithmic)
#[derive(Clone, Copy, Debug)]
struct Ends {
    e: [[i32; 4]; 2],
    hdr: [bool; 4],
}
fn bts(a: &mut i32, b: &mut i32) {
    *b = *b >> 1 | *a & 0x80;
    *a = *a >> 1 & 0x3f;
    if *a & 0x20 != 0 {
        *a -= 0x40;
    }
}
fn sext(v: i32, n: i32) -> i32 {
    let v = v & ((1 << n) - 1);
    if v >> (n - 1) != 0 { v - (1 << n) } else { v }
}
fn contract(c: [i32; 4]) -> [i32; 4] {
    [(c[0] + c[2]) >> 1, (c[1] + c[2]) >> 1, c[2], c[3]]
}
fn endpoints(cem: usize, vin: &[i32]) -> Ends {
    let mut v = [0i32; 8];
    v[..vin.len()].copy_from_slice(vin);
    let ldr = |e0: [i32; 4], e1: [i32; 4]| Ends {
        e: [e0.map(|x| x.clamp(0, 255)), e1.map(|x| x.clamp(0, 255))],
        hdr: [false; 4],
    };
    let sum_lt = v[1] + v[3] + v[5] < v[0] + v[2] + v[4];
    match cem {
        0 => ldr([v[0], v[0], v[0], 255], [v[1], v[1], v[1], 255]),
        1 => {
            let l0 = v[0] >> 2 | v[1] & 0xc0;
            let l1 = l0 + (v[1] & 0x3f);
            ldr([l0, l0, l0, 255], [l1, l1, l1, 255])
        }
        4 => ldr([v[0], v[0], v[0], v[2]], [v[1], v[1], v[1], v[3]]),
        5 => {
            let [mut b0, mut o0, mut b1, mut o1] = [v[0], v[1], v[2], v[3]];
            bts(&mut o0, &mut b0);
            bts(&mut o1, &mut b1);
            ldr([b0, b0, b0, b1], [b0 + o0, b0 + o0, b0 + o0, b1 + o1])
        }
        6 | 10 => {
            let s = |i: usize| v[i] * v[3] >> 8;
            let (a0, a1) = if cem == 10 { (v[4], v[5]) } else { (255, 255) };
            ldr([s(0), s(1), s(2), a0], [v[0], v[1], v[2], a1])
        }
        8 | 12 => {
            let (a0, a1) = if cem == 12 { (v[6], v[7]) } else { (255, 255) };
            let (p, q) = ([v[0], v[2], v[4], a0], [v[1], v[3], v[5], a1]);
            if sum_lt { ldr(contract(q), contract(p)) } else { ldr(p, q) }
        }
        9 | 13 => {
            for i in 0..if cem == 13 { 4 } else { 3 } {
                let (mut o, mut b) = (v[2 * i + 1], v[2 * i]);
                bts(&mut o, &mut b);
                v[2 * i] = b;
                v[2 * i + 1] = o;
            }
            let (a0, a1) = if cem == 13 { (v[6], v[6] + v[7]) } else { (255, 255) };
            let p = [v[0], v[2], v[4], a0];
            let q = [v[0] + v[1], v[2] + v[3], v[4] + v[5], a1];
            if v[1] + v[3] + v[5] >= 0 { ldr(p, q) } else { ldr(contract(q), contract(p)) }
        }
        2 | 3 => {
            let (y0, y1);
            if cem == 2 {
                (y0, y1) = if v[1] >= v[0] { (v[0] << 4, v[1] << 4) } else { ((v[1] << 4) + 8, (v[0] << 4) - 8) };
            } else if v[0] & 0x80 != 0 {
                y0 = (v[1] & 0xe0) << 4 | (v[0] & 0x7f) << 2;
                y1 = (y0 + ((v[1] & 0x1f) << 2)).min(0xfff);
            } else {
                y0 = (v[1] & 0xf0) << 4 | (v[0] & 0x7f) << 1;
                y1 = (y0 + ((v[1] & 0x0f) << 1)).min(0xfff);
            }
            Ends { e: [[y0, y0, y0, 0x780], [y1, y1, y1, 0x780]], hdr: [true; 4] }
        }
        7 => {
            let e = hdr7(&v);
            Ends { e, hdr: [true; 4] }
        }
        _ => {
            let mut e = hdr11(&v);
            let mut hdr = [true; 4];
            if cem == 14 {
                e[0][3] = v[6];
                e[1][3] = v[7];
                hdr[3] = false;
            } else if cem == 15 {
                let mode = v[6] >> 7 & 1 | v[7] >> 6 & 2;
                let (a, b) = (v[6] & 0x7f, v[7] & 0x7f);
                (e[0][3], e[1][3]) = if mode == 3 {
                    (a << 5, b << 5)
                } else {
                    let a = a | b << (mode + 1) & 0x780;
                    let b = sext(b, 6 - mode);
                    let (a, b) = (a << (4 - mode), b * (1 << (4 - mode)));
                    (a, (a + b).clamp(0, 0xfff))
                };
            }
            Ends { e, hdr }
        }
    }
}
fn put(on: bool, dst: &mut i32, b: i32, at: i32) {
    if on {
        *dst |= b << at
    }
}
fn hdr7(v: &[i32; 8]) -> [[i32; 4]; 2] {
    let mv = (v[0] & 0xc0) >> 6 | (v[1] & 0x80) >> 5 | (v[2] & 0x80) >> 4;
    let (maj, mode) = if mv & 0xc != 0xc {
        (mv >> 2, mv & 3)
    } else if mv != 0xf {
        (mv & 3, 4)
    } else {
        (0, 5)
    };
    let (mut red, mut green, mut blue, mut scale) = (v[0] & 0x3f, v[1] & 0x1f, v[2] & 0x1f, v[3] & 0x1f);
    let x = [v[1] >> 6, v[1] >> 5, v[2] >> 6, v[2] >> 5, v[3] >> 7, v[3] >> 6, v[3] >> 5].map(|t| t & 1);
    let m = |mask: i32| mask >> mode & 1 != 0;
    put(m(0x30), &mut green, x[0], 6);
    put(m(0x3a), &mut green, x[1], 5);
    put(m(0x30), &mut blue, x[2], 6);
    put(m(0x3a), &mut blue, x[3], 5);
    put(m(0x3d), &mut scale, x[6], 5);
    put(m(0x2d), &mut scale, x[5], 6);
    put(m(0x04), &mut scale, x[4], 7);
    put(m(0x3b), &mut red, x[4], 6);
    put(m(0x04), &mut red, x[3], 6);
    put(m(0x10), &mut red, x[5], 7);
    put(m(0x0f), &mut red, x[2], 7);
    put(m(0x05), &mut red, x[1], 8);
    put(m(0x0a), &mut red, x[0], 8);
    put(m(0x05), &mut red, x[0], 9);
    put(m(0x02), &mut red, x[6], 9);
    put(m(0x01), &mut red, x[3], 10);
    put(m(0x02), &mut red, x[5], 10);
    let sh = [1, 1, 2, 3, 4, 5][mode as usize];
    red <<= sh;
    green <<= sh;
    blue <<= sh;
    scale <<= sh;
    if mode != 5 {
        green = red - green;
        blue = red - blue;
    }
    let mut c = [red, green, blue];
    if maj > 0 {
        c.swap(0, maj as usize);
    }
    let k = |v: i32| v.clamp(0, 0xfff);
    [
        [k(c[0] - scale), k(c[1] - scale), k(c[2] - scale), 0x780],
        [k(c[0]), k(c[1]), k(c[2]), 0x780],
    ]
}
fn hdr11(v: &[i32; 8]) -> [[i32; 4]; 2] {
    let maj = (v[4] & 0x80) >> 7 | (v[5] & 0x80) >> 6;
    if maj == 3 {
        return [
            [v[0] << 4, v[2] << 4, (v[4] & 0x7f) << 5, 0x780],
            [v[1] << 4, v[3] << 4, (v[5] & 0x7f) << 5, 0x780],
        ];
    }
    let mode = (v[1] & 0x80) >> 7 | (v[2] & 0x80) >> 6 | (v[3] & 0x80) >> 5;
    let mut va = v[0] | (v[1] & 0x40) << 2;
    let (mut b0, mut b1, mut c) = (v[2] & 0x3f, v[3] & 0x3f, v[1] & 0x3f);
    let n = [7, 6, 7, 6, 5, 6, 5, 6][mode as usize];
    let (mut d0, mut d1) = (sext(v[4] & 0x7f, n), sext(v[5] & 0x7f, n));
    let x = [v[2] >> 6, v[3] >> 6, v[4] >> 6, v[5] >> 6, v[4] >> 5, v[5] >> 5].map(|t| t & 1);
    let m = |mask: i32| mask >> mode & 1 != 0;
    put(m(0xa4), &mut va, x[0], 9);
    put(m(0x08), &mut va, x[2], 9);
    put(m(0x50), &mut va, x[4], 9);
    put(m(0x50), &mut va, x[5], 10);
    put(m(0xa0), &mut va, x[1], 10);
    put(m(0xc0), &mut va, x[2], 11);
    put(m(0x04), &mut c, x[1], 6);
    put(m(0xe8), &mut c, x[3], 6);
    put(m(0x20), &mut c, x[2], 7);
    put(m(0x5b), &mut b0, x[0], 6);
    put(m(0x5b), &mut b1, x[1], 6);
    put(m(0x12), &mut b0, x[2], 7);
    put(m(0x12), &mut b1, x[3], 7);
    let s = 1 << ((mode >> 1) ^ 3);
    for t in [&mut va, &mut b0, &mut b1, &mut c, &mut d0, &mut d1] {
        *t *= s;
    }
    let k = |v: i32| v.clamp(0, 0xfff);
    let mut e1 = [k(va), k(va - b0), k(va - b1), 0x780];
    let mut e0 = [k(va - c), k(va - b0 - c - d0), k(va - b1 - c - d1), 0x780];
    if maj > 0 {
        e0.swap(0, maj as usize);
        e1.swap(0, maj as usize);
    }
    [e0, e1]
}

/// a half float as 8 bits: clamped to [0,1], scaled by 255 and truncated
pub fn half8(h: u32) -> (i32, bool) {
    let (e, m) = (h >> 10 & 31, (h & 0x3ff) as u64);
    if e == 31 && m != 0 {
        return (0, true);
    }
    if h & 0x8000 != 0 {
        return (0, false);
    }
    // value * 2^24, exact
    let v = if e == 0 { m } else { (1024 + m) << (e - 1) };
    (((v * 255) >> 24).min(255) as i32, false)
}
fn texel_channel(e0: i32, e1: i32, w: i32, hdr: bool) -> i32 {
    if hdr {
        let c = ((e0 << 4) * (64 - w) + (e1 << 4) * w + 32) >> 6;
        let (e, m) = (c >> 11, c & 0x7ff);
        let mt = if m < 512 {
            3 * m
        } else if m < 1536 {
            4 * m - 512
        } else {
            5 * m - 2048
        };
        let h = (e << 10 | mt >> 3).min(0x7bff);
        half8(h as u32).0
    } else {
        let c = ((e0 << 8 | e0) * (64 - w) + (e1 << 8 | e1) * w + 32) >> 6;
        (c * 255 + 32768) >> 16
    }
}

/// everything the header of a block says
#[derive(Clone, Debug)]
pub struct Config {
    pub mode: Mode,
    pub parts: usize,
    pub seed: usize,
    pub cem: [usize; 4],
    pub nvals: usize,
    pub crange: Range,
    pub cstart: u32,
    pub clen: usize,
    pub plane: Option<usize>,
    pub wbits: usize,
}
pub fn config(b: u128, bw: usize, bh: usize) -> Option<Config> {
    let m = mode(f(b, 0, 11))?;
    if m.w > bw || m.h > bh {
        return None;
    }
    let nw = m.w * m.h * if m.dual { 2 } else { 1 };
    let wbits = m.range.size(nw);
    if nw > 64 || !(24..=96).contains(&wbits) {
        return None;
    }
    let parts = f(b, 11, 2) + 1;
    if m.dual && parts == 4 {
        return None;
    }
    let mut below = 128 - wbits as i32; // next free bit position under the weights
    let mut cem = [0; 4];
    let (seed, cstart);
    if parts == 1 {
        seed = 0;
        cem[0] = f(b, 13, 4);
        cstart = 17;
    } else {
        seed = f(b, 13, 10);
        cstart = 29;
        let low = f(b, 23, 6);
        if low & 3 == 0 {
            cem = [low >> 2; 4];
        } else {
            let extra = 3 * parts as i32 - 4;
            below -= extra;
            if below < cstart {
                return None;
            }
            let all = low | f(b, below as u32, extra as u32) << 6;
            let base = (low & 3) - 1;
            for i in 0..parts {
                let c = all >> (2 + i) & 1;
                let mm = all >> (2 + parts + 2 * i) & 3;
                cem[i] = (base + c) * 4 + mm;
            }
        }
    }
    let mut plane = None;
    if m.dual {
        below -= 2;
        if below < cstart {
            return None;
        }
        plane = Some(f(b, below as u32, 2));
    }
    let nvals: usize = cem[..parts].iter().map(|c| (c / 4 + 1) * 2).sum();
    let clen = below - cstart;
    if nvals > 18 || clen < (13 * nvals as i32 + 4) / 5 {
        return None;
    }
    let crange = *RANGES[4..].iter().rev().find(|r| r.size(nvals) <= clen as usize)?;
    Some(Config { mode: m, parts, seed, cem, nvals, crange, cstart: cstart as u32, clen: clen as usize, plane, wbits })
}

pub fn block(data: &[u8], bw: usize, bh: usize, out: &mut [u32]) -> Kind {
    let b = super::le(data, 16);
    let n = bw * bh;
    if f(b, 0, 9) == 0x1fc {
        let hdr = bit(b, 9) == 1;
        let (s0, s1, t0, t1) = (f(b, 12, 13), f(b, 25, 13), f(b, 38, 13), f(b, 51, 13));
        let all = [s0, s1, t0, t1].iter().all(|x| *x == 0x1fff);
        let loose = f(b, 10, 2) != 3 || !(all || s0 < s1 && t0 < t1);
        let mut c = [0; 4];
        let mut nan = [false; 4];
        for i in 0..4 {
            let v = f(b, 64 + 16 * i as u32, 16);
            (c[i], nan[i]) = if hdr { half8(v as u32) } else { ((v >> 8) as i32, false) };
        }
        out[..n].fill(px(c[0], c[1], c[2], c[3]));
        return Kind::Void { loose, nan };
    }
    let Some(cf) = config(b, bw, bh) else {
        out[..n].fill(px(255, 0, 255, 255));
        return Kind::Illegal;
    };
    // endpoints
    let vals: Vec<i32> =
        ise(b >> cf.cstart, cf.crange.size(cf.nvals), cf.crange, cf.nvals).into_iter().map(|x| unq_colour(cf.crange, x)).collect();
    let mut ends = vec![];
    let mut at = 0;
    for i in 0..cf.parts {
        let k = (cf.cem[i] / 4 + 1) * 2;
        ends.push(endpoints(cf.cem[i], &vals[at..at + k]));
        at += k;
    }
    // weights
    let planes = if cf.mode.dual { 2 } else { 1 };
    let nw = cf.mode.w * cf.mode.h * planes;
    let grid: Vec<i32> = ise(b.reverse_bits(), cf.wbits, cf.mode.range, nw).into_iter().map(|x| unq_weight(cf.mode.range, x)).collect();
    let small = n < 31;
    let ds = (1024 + bw / 2) / (bw - 1);
    let dt = (1024 + bh / 2) / (bh - 1);
    for y in 0..bh {
        let gt = (dt * y * (cf.mode.h - 1) + 32) >> 6;
        for x in 0..bw {
            let gs = (ds * x * (cf.mode.w - 1) + 32) >> 6;
            let (js, fs, jt, ft) = (gs >> 4, (gs & 15) as i32, gt >> 4, (gt & 15) as i32);
            let w11 = (fs * ft + 8) >> 4;
            let (w10, w01) = (ft - w11, fs - w11);
            let w00 = 16 - fs - ft + w11;
            let mut w = [0; 2];
            for (p, wp) in w.iter_mut().enumerate().take(planes) {
                let at = |dx: usize, dy: usize| {
                    let (gx, gy) = (js + dx, jt + dy);
                    // positions off the grid only occur with weight zero
                    if gx < cf.mode.w && gy < cf.mode.h { grid[(gy * cf.mode.w + gx) * planes + p] } else { 0 }
                };
                *wp = (at(0, 0) * w00 + at(1, 0) * w01 + at(0, 1) * w10 + at(1, 1) * w11 + 8) >> 4;
            }
            let e = &ends[if cf.parts == 1 { 0 } else { partition(cf.seed, x, y, cf.parts, small) }];
            let mut c = [0; 4];
            for k in 0..4 {
                let wk = if cf.plane == Some(k) { w[1] } else { w[0] };
                c[k] = texel_channel(e.e[0][k], e.e[1][k], wk, e.hdr[k]);
            }
            out[y * bw + x] = px(c[0], c[1], c[2], c[3]);
        }
    }
    if ends.iter().any(|e| e.hdr[0]) { Kind::Hdr } else { Kind::Ldr }
}

/// place value `v` of a bit field into a block whose weights are stored reversed from the top
pub fn set(b: u128, lo: u32, n: u32, v: usize) -> u128 {
    crate::engine::setf(b, lo, n, v as u128)
}
