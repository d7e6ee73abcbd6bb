//! BC6H and BC7 (BPTC).
use super::*;

/// two-subset partitions, one bit per texel
pub const P2: [u16; 64] = [
    0xcccc, 0x8888, 0xeeee, 0xecc8, 0xc880, 0xfeec, 0xfec8, 0xec80, 0xc800, 0xffec, 0xfe80, 0xe800, 0xffe8, 0xff00,
    0xfff0, 0xf000, 0xf710, 0x008e, 0x7100, 0x08ce, 0x008c, 0x7310, 0x3100, 0x8cce, 0x088c, 0x3110, 0x6666, 0x366c,
    0x17e8, 0x0ff0, 0x718e, 0x399c, 0xaaaa, 0xf0f0, 0x5a5a, 0x33cc, 0x3c3c, 0x55aa, 0x9696, 0xa55a, 0x73ce, 0x13c8,
    0x324c, 0x3bdc, 0x6996, 0xc33c, 0x9966, 0x0660, 0x0272, 0x04e4, 0x4e40, 0x2720, 0xc936, 0x936c, 0x39c6, 0x639c,
    0x9336, 0x9cc6, 0x817e, 0xe718, 0xccf0, 0x0fcc, 0x7744, 0xee22,
];
/// three-subset partitions, two bits per texel
pub const P3: [u32; 64] = [
    0xaa685050, 0x6a5a5040, 0x5a5a4200, 0x5450a0a8, 0xa5a50000, 0xa0a05050, 0x5555a0a0, 0x5a5a5050, 0xaa550000,
    0xaa555500, 0xaaaa5500, 0x90909090, 0x94949494, 0xa4a4a4a4, 0xa9a59450, 0x2a0a4250, 0xa5945040, 0x0a425054,
    0xa5a5a500, 0x55a0a0a0, 0xa8a85454, 0x6a6a4040, 0xa4a45000, 0x1a1a0500, 0x0050a4a4, 0xaaa59090, 0x14696914,
    0x69691400, 0xa08585a0, 0xaa821414, 0x50a4a450, 0x6a5a0200, 0xa9a58000, 0x5090a0a8, 0xa8a09050, 0x24242424,
    0x00aa5500, 0x24924924, 0x24499224, 0x50a50a50, 0x500aa550, 0xaaaa4444, 0x66660000, 0xa5a0a5a0, 0x50a050a0,
    0x69286928, 0x44aaaa44, 0x66666600, 0xaa444444, 0x54a854a8, 0x95809580, 0x96969600, 0xa85454a8, 0x80959580,
    0xaa141414, 0x96960000, 0xaaaa1414, 0xa05050a0, 0xa0a5a5a0, 0x96000000, 0x40804080, 0xa9a8a9a8, 0xaaaaaa44,
    0x2a4a5254,
];
pub const A2: [u8; 64] = [
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 2, 8, 2, 2, 8, 8, 15, 2, 8, 2, 2, 8, 8, 2, 2,
    15, 15, 6, 8, 2, 8, 15, 15, 2, 8, 2, 2, 2, 15, 15, 6, 6, 2, 6, 8, 15, 15, 2, 2, 15, 15, 15, 15, 15, 2, 2, 15,
];
pub const A3: [[u8; 64]; 2] = [
    [
        3, 3, 15, 15, 8, 3, 15, 15, 8, 8, 6, 6, 6, 5, 3, 3, 3, 3, 8, 15, 3, 3, 6, 10, 5, 8, 8, 6, 8, 5, 15, 15, 8, 15,
        3, 5, 6, 10, 8, 15, 15, 3, 15, 5, 15, 15, 15, 15, 3, 15, 5, 5, 5, 8, 5, 10, 5, 10, 8, 13, 15, 12, 3, 3,
    ],
    [
        15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8, 15, 8, 15, 3, 15, 8, 15, 8, 3, 15, 6, 10, 15, 15, 10,
        8, 15, 3, 15, 10, 10, 8, 9, 10, 6, 15, 8, 15, 3, 6, 6, 8, 15, 3, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 3, 15,
        15, 8,
    ],
];
fn weight(i: i32, n: u32) -> i32 {
    match n {
        2 => [0, 21, 43, 64][i as usize],
        3 => [0, 9, 18, 27, 37, 46, 55, 64][i as usize],
        _ => [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64][i as usize],
    }
}
pub fn subset(ns: u32, part: usize, t: u32) -> usize {
    match ns {
        2 => (P2[part] >> t & 1) as usize,
        3 => (P3[part] >> (2 * t) & 3) as usize,
        _ => 0,
    }
}
fn is_anchor(ns: u32, part: usize, t: u32) -> bool {
    t == 0
        || (ns == 2 && t == A2[part] as u32)
        || (ns == 3 && (t == A3[0][part] as u32 || t == A3[1][part] as u32))
}

/// (subsets, partition bits, rotation bits, selector bits, colour, alpha, unique p, shared p, index, index2)
pub const BC7: [[u32; 10]; 8] = [
    [3, 4, 0, 0, 4, 0, 1, 0, 3, 0],
    [2, 6, 0, 0, 6, 0, 0, 1, 3, 0],
    [3, 6, 0, 0, 5, 0, 0, 0, 2, 0],
    [2, 6, 0, 0, 7, 0, 1, 0, 2, 0],
    [1, 0, 2, 1, 5, 6, 0, 0, 2, 3],
    [1, 0, 2, 0, 7, 8, 0, 0, 2, 2],
    [1, 0, 0, 0, 7, 7, 1, 0, 4, 0],
    [2, 6, 0, 0, 5, 5, 1, 0, 2, 0],
];
/// bit layout of a mode: (lo, len) of each field
pub struct Bc7Layout {
    pub part: (u32, u32),
    pub rot: (u32, u32),
    pub sel: (u32, u32),
    /// [channel][endpoint]
    pub ep: Vec<Vec<(u32, u32)>>,
    /// p bit position per endpoint
    pub p: Vec<Option<u32>>,
    /// (lo,len) per texel
    pub idx: Vec<(u32, u32)>,
    pub idx2: Vec<(u32, u32)>,
}
pub fn bc7_layout(mode: usize, part: usize) -> Bc7Layout {
    let [ns, pb, rb, sb, cb, ab, up, sp, ib, ib2] = BC7[mode];
    let mut pos = mode as u32 + 1;
    let mut take = |n: u32| {
        let r = (pos, n);
        pos += n;
        r
    };
    let partf = take(pb);
    let rot = take(rb);
    let sel = take(sb);
    let ne = ns * 2;
    let mut ep = vec![];
    for c in 0..4 {
        let n = if c == 3 { ab } else { cb };
        ep.push((0..ne).map(|_| take(n)).collect::<Vec<_>>());
    }
    let mut p = vec![None; ne as usize];
    if up == 1 {
        for e in 0..ne as usize {
            p[e] = Some(take(1).0);
        }
    }
    if sp == 1 {
        for s in 0..ns as usize {
            let q = take(1).0;
            p[2 * s] = Some(q);
            p[2 * s + 1] = Some(q);
        }
    }
    let idx = (0..16).map(|t| take(ib - is_anchor(ns, part, t) as u32)).collect();
    let idx2 = if ib2 > 0 { (0..16).map(|t| take(ib2 - (t == 0) as u32)).collect() } else { vec![] };
    Bc7Layout { part: partf, rot, sel, ep, p, idx, idx2 }
}
thread_local! {
    static L7: Vec<Vec<Bc7Layout>> =
        (0..8).map(|m| (0..64).map(|p| bc7_layout(m, p & ((1 << BC7[m][1]) - 1))).collect()).collect();
}
pub fn bc7(d: &[u8], out: &mut [u32]) {
    let v = le(d, 16);
    let mode = (v as u8).trailing_zeros() as usize;
    if mode >= 8 {
        out[..16].fill(0);
        return;
    }
    let [ns, pb, _, _, cb, ab, up, sp, ib, ib2] = BC7[mode];
    L7.with(|l7| {
        let part = bits(v, mode as u32 + 1, pb) as usize;
        let l = &l7[mode][part];
        let f = |x: (u32, u32)| bits(v, x.0, x.1);
        let mut ep = [[255i32; 6]; 4];
        for c in 0..4 {
            let n = if c == 3 { ab } else { cb };
            if n == 0 {
                continue;
            }
            for e in 0..(ns * 2) as usize {
                let mut x = f(l.ep[c][e]);
                let mut w = n;
                if up + sp > 0 {
                    x = x << 1 | bits(v, l.p[e].unwrap(), 1);
                    w += 1;
                }
                // replicate the top bits
                x <<= 8 - w;
                ep[c][e] = x | x >> w;
            }
        }
        let rot = f(l.rot);
        let sel = f(l.sel);
        for t in 0..16 {
            let s = subset(ns, part, t as u32);
            let i1 = f(l.idx[t]);
            let (mut wc, mut wa) = (weight(i1, ib), weight(i1, ib));
            if ib2 > 0 {
                let w2 = weight(f(l.idx2[t]), ib2);
                if sel == 0 {
                    wa = w2
                } else {
                    wc = w2
                }
            }
            let m = |c: usize, w: i32| ((64 - w) * ep[c][2 * s] + w * ep[c][2 * s + 1] + 32) >> 6;
            let mut q = [m(0, wc), m(1, wc), m(2, wc), m(3, wa)];
            if rot > 0 {
                q.swap(3, rot as usize - 1);
            }
            out[t] = px(q[0], q[1], q[2], q[3]);
        }
    })
}

/// BC6H mode: id, transformed, two-subset, endpoint bits, delta bits, header layout.
/// Layout items: endpoint component letter, endpoint number, then msb:lsb or a single bit;
/// `<` marks a reversed range (most significant bit stored first).
pub struct M6 {
    pub id: i32,
    pub tr: bool,
    pub two: bool,
    pub eb: u32,
    pub db: [u32; 3],
    pub lay: &'static str,
}
pub const BC6: [M6; 14] = [
    M6 { id: 0, tr: true, two: true, eb: 10, db: [5, 5, 5],
        lay: "g2:4 b2:4 b3:4 r0:9:0 g0:9:0 b0:9:0 r1:4:0 g3:4 g2:3:0 g1:4:0 b3:0 g3:3:0 b1:4:0 b3:1 b2:3:0 r2:4:0 b3:2 r3:4:0 b3:3" },
    M6 { id: 1, tr: true, two: true, eb: 7, db: [6, 6, 6],
        lay: "g2:5 g3:4 g3:5 r0:6:0 b3:0 b3:1 b2:4 g0:6:0 b2:5 b3:2 g2:4 b0:6:0 b3:3 b3:5 b3:4 r1:5:0 g2:3:0 g1:5:0 g3:3:0 b1:5:0 b2:3:0 r2:5:0 r3:5:0" },
    M6 { id: 2, tr: true, two: true, eb: 11, db: [5, 4, 4],
        lay: "r0:9:0 g0:9:0 b0:9:0 r1:4:0 r0:10 g2:3:0 g1:3:0 g0:10 b3:0 g3:3:0 b1:3:0 b0:10 b3:1 b2:3:0 r2:4:0 b3:2 r3:4:0 b3:3" },
    M6 { id: 6, tr: true, two: true, eb: 11, db: [4, 5, 4],
        lay: "r0:9:0 g0:9:0 b0:9:0 r1:3:0 r0:10 g3:4 g2:3:0 g1:4:0 g0:10 g3:3:0 b1:3:0 b0:10 b3:1 b2:3:0 r2:3:0 b3:0 b3:2 r3:3:0 g2:4 b3:3" },
    M6 { id: 10, tr: true, two: true, eb: 11, db: [4, 4, 5],
        lay: "r0:9:0 g0:9:0 b0:9:0 r1:3:0 r0:10 b2:4 g2:3:0 g1:3:0 g0:10 b3:0 g3:3:0 b1:4:0 b0:10 b2:3:0 r2:3:0 b3:1 b3:2 r3:3:0 b3:4 b3:3" },
    M6 { id: 14, tr: true, two: true, eb: 9, db: [5, 5, 5],
        lay: "r0:8:0 b2:4 g0:8:0 g2:4 b0:8:0 b3:4 r1:4:0 g3:4 g2:3:0 g1:4:0 b3:0 g3:3:0 b1:4:0 b3:1 b2:3:0 r2:4:0 b3:2 r3:4:0 b3:3" },
    M6 { id: 18, tr: true, two: true, eb: 8, db: [6, 5, 5],
        lay: "r0:7:0 g3:4 b2:4 g0:7:0 b3:2 g2:4 b0:7:0 b3:3 b3:4 r1:5:0 g2:3:0 g1:4:0 b3:0 g3:3:0 b1:4:0 b3:1 b2:3:0 r2:5:0 r3:5:0" },
    M6 { id: 22, tr: true, two: true, eb: 8, db: [5, 6, 5],
        lay: "r0:7:0 b3:0 b2:4 g0:7:0 g2:5 g2:4 b0:7:0 g3:5 b3:4 r1:4:0 g3:4 g2:3:0 g1:5:0 g3:3:0 b1:4:0 b3:1 b2:3:0 r2:4:0 b3:2 r3:4:0 b3:3" },
    M6 { id: 26, tr: true, two: true, eb: 8, db: [5, 5, 6],
        lay: "r0:7:0 b3:1 b2:4 g0:7:0 b2:5 g2:4 b0:7:0 b3:5 b3:4 r1:4:0 g3:4 g2:3:0 g1:4:0 b3:0 g3:3:0 b1:5:0 b2:3:0 r2:4:0 b3:2 r3:4:0 b3:3" },
    M6 { id: 30, tr: false, two: true, eb: 6, db: [6, 6, 6],
        lay: "r0:5:0 g3:4 b3:0 b3:1 b2:4 g0:5:0 g2:5 b2:5 b3:2 g2:4 b0:5:0 g3:5 b3:3 b3:5 b3:4 r1:5:0 g2:3:0 g1:5:0 g3:3:0 b1:5:0 b2:3:0 r2:5:0 r3:5:0" },
    M6 { id: 3, tr: false, two: false, eb: 10, db: [10, 10, 10], lay: "r0:9:0 g0:9:0 b0:9:0 r1:9:0 g1:9:0 b1:9:0" },
    M6 { id: 7, tr: true, two: false, eb: 11, db: [9, 9, 9],
        lay: "r0:9:0 g0:9:0 b0:9:0 r1:8:0 r0:10 g1:8:0 g0:10 b1:8:0 b0:10" },
    M6 { id: 11, tr: true, two: false, eb: 12, db: [8, 8, 8],
        lay: "r0:9:0 g0:9:0 b0:9:0 r1:7:0 <r0:11:10 g1:7:0 <g0:11:10 b1:7:0 <b0:11:10" },
    M6 { id: 15, tr: true, two: false, eb: 16, db: [4, 4, 4],
        lay: "r0:9:0 g0:9:0 b0:9:0 r1:3:0 <r0:15:10 g1:3:0 <g0:15:10 b1:3:0 <b0:15:10" },
];
/// position in the block of every bit of every endpoint component: pos[comp][endpoint][bit]
pub type Pos6 = [[[u8; 16]; 4]; 3];
pub fn bc6_positions(m: &M6) -> Pos6 {
    let mut pos = [[[255u8; 16]; 4]; 3];
    let mut at = if m.id < 2 { 2 } else { 5 };
    for it in m.lay.split_whitespace() {
        let rev = it.starts_with('<');
        let it = it.trim_start_matches('<');
        let c = match it.as_bytes()[0] {
            b'r' => 0,
            b'g' => 1,
            _ => 2,
        };
        let parts: Vec<usize> = it[1..].split(':').map(|x| x.parse().unwrap()).collect();
        let e = parts[0];
        let (hi, lo) = (parts[1], *parts.get(2).unwrap_or(&parts[1]));
        let order: Vec<usize> = if rev { (lo..=hi).rev().collect() } else { (lo..=hi).collect() };
        for b in order {
            assert_eq!(pos[c][e][b], 255);
            pos[c][e][b] = at;
            at += 1;
        }
    }
    assert_eq!(at, if m.two { 77 } else { 65 });
    pos
}
/// block with every endpoint component given explicitly
pub fn bc6_build(m: &M6, pos: &Pos6, ep: &[[u32; 4]; 3], part: u32, idx: u128) -> u128 {
    let mut v = m.id as u128;
    for c in 0..3 {
        for e in 0..4 {
            for b in 0..16 {
                if pos[c][e][b] != 255 && ep[c][e] >> b & 1 == 1 {
                    v |= 1u128 << pos[c][e][b];
                }
            }
        }
    }
    if m.two {
        v |= (part as u128) << 77;
        v | idx << 82
    } else {
        v | idx << 65
    }
}
fn sx(v: i32, n: u32) -> i32 {
    v << (32 - n) >> (32 - n)
}
fn unq(v: i32, b: u32, signed: bool) -> i32 {
    if !signed {
        if b >= 15 || v == 0 {
            v
        } else if v == (1 << b) - 1 {
            0xffff
        } else {
            ((v << 16) + 0x8000) >> b
        }
    } else {
        if b >= 16 {
            return v;
        }
        let a = v.abs();
        let u = if a == 0 {
            0
        } else if a >= (1 << (b - 1)) - 1 {
            0x7fff
        } else {
            ((a << 15) + 0x4000) >> (b - 1)
        };
        u * v.signum()
    }
}
/// IEEE half to the 8-bit output scale: value times 255, clamped, truncated.
pub fn half8(h: i32) -> i32 {
    let (s, e, m) = (h >> 15 & 1, h >> 10 & 31, (h & 1023) as f64);
    if e == 31 {
        return if h & 1023 != 0 || s == 1 { 0 } else { 255 };
    }
    let v = if e == 0 { m * 2f64.powi(-24) } else { (1024.0 + m) * 2f64.powi(e - 25) };
    if s == 1 {
        return 0;
    }
    // single precision product, as any float pipeline computes it
    let p = v as f32 * 255.0f32;
    if p >= 255.0 {
        255
    } else {
        p as i32
    }
}
thread_local! {
    static P6: Vec<Pos6> = BC6.iter().map(bc6_positions).collect();
    static H8: Vec<u8> = (0..65536).map(|h| half8(h) as u8).collect();
}
pub fn h8(h: i32) -> i32 {
    H8.with(|t| t[h as usize & 0xffff] as i32)
}
pub fn bc6(d: &[u8], out: &mut [u32], signed: bool) {
    let v = le(d, 16);
    let id = if v & 2 == 0 { (v & 3) as i32 } else { (v & 31) as i32 };
    let Some(mi) = BC6.iter().position(|m| m.id == id) else {
        out[..16].fill(0xff00_0000); // reserved: black
        return;
    };
    let m = &BC6[mi];
    P6.with(|p6| {
        let pos = &p6[mi];
        let ne = if m.two { 4 } else { 2 };
        let mut q = [[0i32; 4]; 3];
        for c in 0..3 {
            let mut e0 = 0;
            for e in 0..ne {
                let raw = (0..16)
                    .filter(|&b| pos[c][e][b] != 255)
                    .fold(0, |a, b| a | bits(v, pos[c][e][b] as u32, 1) << b);
                let val = if e == 0 {
                    e0 = if signed { sx(raw, m.eb) } else { raw };
                    e0
                } else if m.tr {
                    let s = (sx(raw, m.db[c]) + e0) & ((1 << m.eb) - 1);
                    if signed {
                        sx(s, m.eb)
                    } else {
                        s
                    }
                } else if signed {
                    sx(raw, m.db[c])
                } else {
                    raw
                };
                q[c][e] = unq(val, m.eb, signed);
            }
        }
        let (part, mut at, ib) =
            if m.two { (bits(v, 77, 5) as usize, 82u32, 3u32) } else { (0, 65, 4) };
        let ns = if m.two { 2 } else { 1 };
        for t in 0..16 {
            let n = ib - is_anchor(ns, part, t) as u32;
            let w = weight(bits(v, at, n), ib);
            at += n;
            let s = subset(ns, part, t);
            let f = |c: usize| {
                let x = ((64 - w) * q[c][2 * s] + w * q[c][2 * s + 1] + 32) >> 6;
                h8(if !signed {
                    (x * 31) >> 6
                } else if x < 0 {
                    0x8000 | ((-x * 31) >> 5)
                } else {
                    (x * 31) >> 5
                })
            };
            out[t as usize] = px(f(0), f(1), f(2), 255);
        }
    })
}
pub fn bc6s(d: &[u8], out: &mut [u32]) {
    bc6(d, out, true)
}
pub fn bc6u(d: &[u8], out: &mut [u32]) {
    bc6(d, out, false)
}
