//! ETC1, ETC2 (RGB, RGB+A1, RGBA8), EAC R11 / RG11.
use super::*;

const MODS: [[i32; 2]; 8] = [[2, 8], [5, 17], [9, 29], [13, 42], [18, 60], [24, 80], [33, 106], [47, 183]];
const DIST: [i32; 8] = [3, 6, 11, 16, 23, 32, 41, 64];
const EAC: [[i32; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];
fn cl(v: i32) -> i32 {
    v.max(0).min(255)
}
fn x4(v: i32) -> i32 {
    v * 17
}
fn x5(v: i32) -> i32 {
    v << 3 | v >> 2
}
fn x6(v: i32) -> i32 {
    v << 2 | v >> 4
}
fn x7(v: i32) -> i32 {
    v << 1 | v >> 6
}
fn s3(v: i32) -> i32 {
    if v >= 4 {
        v - 8
    } else {
        v
    }
}
fn add(c: [i32; 3], m: i32) -> [i32; 3] {
    [cl(c[0] + m), cl(c[1] + m), cl(c[2] + m)]
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Etc1,
    Etc2,
    Etc2A1,
}
/// which of the five sub-modes the block selects
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Individual,
    Differential,
    T,
    H,
    Planar,
}
pub fn mode(v: u128, k: Kind) -> Mode {
    let diff = bits(v, 33, 1) == 1;
    if k != Kind::Etc2A1 && !diff {
        return Mode::Individual;
    }
    if k == Kind::Etc1 {
        return Mode::Differential;
    }
    let over = |lo: u32| {
        let s = bits(v, lo + 3, 5) + s3(bits(v, lo, 3));
        !(0..=31).contains(&s)
    };
    if over(56) {
        Mode::T
    } else if over(48) {
        Mode::H
    } else if over(40) {
        Mode::Planar
    } else {
        Mode::Differential
    }
}

/// texel (x, y) of a 64-bit colour block
pub fn texel(v: u128, x: u32, y: u32, kind: Kind) -> [i32; 4] {
    let p = x * 4 + y; // texels are numbered down the columns
    let idx = bits(v, 16 + p, 1) * 2 + bits(v, p, 1);
    let m = mode(v, kind);
    let punch = kind == Kind::Etc2A1 && bits(v, 33, 1) == 0;
    let f = |lo: u32, n: u32| bits(v, lo, n);
    let rgb = match m {
        Mode::Individual | Mode::Differential => {
            let flip = f(32, 1);
            let second = if flip == 1 { y >= 2 } else { x >= 2 };
            let base = |lo: u32| -> i32 {
                if m == Mode::Individual {
                    x4(if second { f(lo, 4) } else { f(lo + 4, 4) })
                } else {
                    let c = f(lo + 3, 5);
                    // ETC1 leaves out-of-range sums undefined: 5-bit wrap-around
                    x5(if second { (c + s3(f(lo, 3))) & 31 } else { c })
                }
            };
            let cw = if second { f(34, 3) } else { f(37, 3) };
            let t = MODS[cw as usize];
            let md = if punch {
                [0, t[1], 0, -t[1]][idx as usize]
            } else {
                [t[0], t[1], -t[0], -t[1]][idx as usize]
            };
            add([base(56), base(48), base(40)], md)
        }
        Mode::T => {
            let a = [x4(f(59, 2) << 2 | f(56, 2)), x4(f(52, 4)), x4(f(48, 4))];
            let b = [x4(f(44, 4)), x4(f(40, 4)), x4(f(36, 4))];
            let d = DIST[(f(34, 2) << 1 | f(32, 1)) as usize];
            match idx {
                0 => a,
                1 => add(b, d),
                2 => b,
                _ => add(b, -d),
            }
        }
        Mode::H => {
            let q1 = [f(59, 4), f(56, 3) << 1 | f(52, 1), f(51, 1) << 3 | f(47, 3)];
            let q2 = [f(43, 4), f(39, 4), f(35, 4)];
            let n = |q: [i32; 3]| q[0] << 8 | q[1] << 4 | q[2];
            let sel = f(34, 1) << 2 | f(32, 1) << 1 | (n(q1) >= n(q2)) as i32;
            let d = DIST[sel as usize];
            let a = [x4(q1[0]), x4(q1[1]), x4(q1[2])];
            let b = [x4(q2[0]), x4(q2[1]), x4(q2[2])];
            match idx {
                0 => add(a, d),
                1 => add(a, -d),
                2 => add(b, d),
                _ => add(b, -d),
            }
        }
        Mode::Planar => {
            let o = [
                x6(f(57, 6)),
                x7(f(56, 1) << 6 | f(49, 6)),
                x6(f(48, 1) << 5 | f(43, 2) << 3 | f(39, 3)),
            ];
            let h = [x6(f(34, 5) << 1 | f(32, 1)), x7(f(25, 7)), x6(f(19, 6))];
            let w = [x6(f(13, 6)), x7(f(6, 7)), x6(f(0, 6))];
            let g = |k: usize| {
                cl((x as i32 * (h[k] - o[k]) + y as i32 * (w[k] - o[k]) + 4 * o[k] + 2) >> 2)
            };
            [g(0), g(1), g(2)]
        }
    };
    let a = if punch && m != Mode::Planar && idx == 2 { 0 } else { 255 };
    [rgb[0], rgb[1], rgb[2], a]
}
fn colour(d: &[u8], out: &mut [u32], k: Kind) {
    let v = be(d, 8);
    for y in 0..4 {
        for x in 0..4 {
            let t = texel(v, x, y, k);
            out[(y * 4 + x) as usize] = px(t[0], t[1], t[2], t[3]);
        }
    }
}
pub fn etc1(d: &[u8], out: &mut [u32]) {
    colour(d, out, Kind::Etc1)
}
pub fn etc2_rgb(d: &[u8], out: &mut [u32]) {
    colour(d, out, Kind::Etc2)
}
pub fn etc2_rgba1(d: &[u8], out: &mut [u32]) {
    colour(d, out, Kind::Etc2A1)
}
pub fn alpha8(d: &[u8], x: u32, y: u32) -> i32 {
    let v = be(d, 8);
    let i = x * 4 + y; // texel number, first texel in the top bits
    let t = EAC[bits(v, 48, 4) as usize][bits(v, 45 - 3 * i, 3) as usize];
    cl(bits(v, 56, 8) + t * bits(v, 52, 4))
}
pub fn etc2_a8(d: &[u8], out: &mut [u32]) {
    for y in 0..4 {
        for x in 0..4 {
            let i = (y * 4 + x) as usize;
            out[i] = out[i] & 0x00ff_ffff | (alpha8(d, x, y) as u32) << 24;
        }
    }
}
pub fn etc2_rgba8(d: &[u8], out: &mut [u32]) {
    etc2_rgb(&d[8..], out);
    etc2_a8(d, out);
}
/// signed 11-bit step of a texel (before the base is added)
pub fn eac_step(d: &[u8], x: u32, y: u32) -> i32 {
    let v = be(d, 8);
    let i = x * 4 + y;
    let t = EAC[bits(v, 48, 4) as usize][bits(v, 45 - 3 * i, 3) as usize];
    let m = bits(v, 52, 4);
    if m == 0 { t } else { t * m * 8 }
}
/// 11-bit EAC channel reduced to its top 8 bits (signed: offset to 0..2047 first).
pub fn eac11(d: &[u8], x: u32, y: u32, signed: bool) -> i32 {
    let v = be(d, 8);
    let i = x * 4 + y;
    let t = EAC[bits(v, 48, 4) as usize][bits(v, 45 - 3 * i, 3) as usize];
    let m = bits(v, 52, 4);
    let step = if m == 0 { t } else { t * m * 8 };
    let b = bits(v, 56, 8);
    if signed {
        let b = (b as u8 as i8) as i32;
        let b = if b == -128 { -127 } else { b };
        let e = (b * 8 + step).max(-1023).min(1023); // 11-bit signed
        (e + 1023) >> 3
    } else {
        (b * 8 + 4 + step).max(0).min(2047) >> 3
    }
}
pub fn eac_ch(d: &[u8], out: &mut [u32], shift: u32, signed: bool) {
    for y in 0..4 {
        for x in 0..4 {
            let i = (y * 4 + x) as usize;
            out[i] = out[i] & !(255 << shift) | (eac11(d, x, y, signed) as u32) << shift;
        }
    }
}
fn black(out: &mut [u32]) {
    out[..16].fill(0xff00_0000)
}
pub fn eacr(d: &[u8], out: &mut [u32]) {
    black(out);
    eac_ch(d, out, 16, false)
}
pub fn eacr_signed(d: &[u8], out: &mut [u32]) {
    black(out);
    eac_ch(d, out, 16, true)
}
pub fn eacrg(d: &[u8], out: &mut [u32]) {
    eacr(d, out);
    eac_ch(&d[8..], out, 8, false)
}
pub fn eacrg_signed(d: &[u8], out: &mut [u32]) {
    eacr_signed(d, out);
    eac_ch(&d[8..], out, 8, true)
}
