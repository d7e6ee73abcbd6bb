//! S3TC / RGTC / ATC.
use super::*;

/// 565 expanded to 8 bits per channel by bit replication.
fn c565(c: i32) -> [i32; 3] {
    let (r, g, b) = (c >> 11 & 31, c >> 5 & 63, c & 31);
    [r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2]
}

#[derive(Clone, Copy, PartialEq)]
pub enum S3 {
    Opaque,      // BC1, alpha ignored
    PunchAlpha,  // BC1 with one-bit alpha
    FourColour,  // colour half of BC2 / BC3
}
fn s3_texel(v: u128, i: u32, kind: S3) -> [i32; 4] {
    let (q0, q1) = (bits(v, 0, 16), bits(v, 16, 16));
    let (a, b) = (c565(q0), c565(q1));
    let code = bits(v, 32 + 2 * i, 2);
    let four = kind == S3::FourColour || q0 > q1;
    let mix = |wa: i32, wb: i32, d: i32| {
        let f = |k: usize| (wa * a[k] + wb * b[k]) / d;
        [f(0), f(1), f(2), 255]
    };
    match (code, four) {
        (0, _) => mix(1, 0, 1),
        (1, _) => mix(0, 1, 1),
        (2, true) => mix(2, 1, 3),
        (3, true) => mix(1, 2, 3),
        (2, false) => mix(1, 1, 2),
        _ => [0, 0, 0, if kind == S3::PunchAlpha { 0 } else { 255 }],
    }
}
fn s3(d: &[u8], out: &mut [u32], kind: S3) {
    let v = le(d, 8);
    for i in 0..16 {
        let t = s3_texel(v, i as u32, kind);
        out[i] = px(t[0], t[1], t[2], t[3]);
    }
}
pub fn bc1(d: &[u8], out: &mut [u32]) {
    s3(d, out, S3::Opaque)
}
pub fn bc1a(d: &[u8], out: &mut [u32]) {
    s3(d, out, S3::PunchAlpha)
}
pub fn bc2(d: &[u8], out: &mut [u32]) {
    s3(&d[8..], out, S3::FourColour);
    let v = le(d, 8);
    for i in 0..16 {
        let a = bits(v, 4 * i as u32, 4) * 17;
        out[i] = out[i] & 0x00ff_ffff | (a as u32) << 24;
    }
}
/// one eight-value interpolated channel
pub fn rgtc(d: &[u8], i: u32) -> i32 {
    let v = le(d, 8);
    let (e0, e1) = (bits(v, 0, 8), bits(v, 8, 8));
    let k = bits(v, 16 + 3 * i, 3);
    match k {
        0 => e0,
        1 => e1,
        _ if e0 > e1 => ((8 - k) * e0 + (k - 1) * e1) / 7,
        6 => 0,
        7 => 255,
        _ => ((6 - k) * e0 + (k - 1) * e1) / 5,
    }
}
fn put(out: &mut [u32], i: usize, shift: u32, v: i32) {
    out[i] = out[i] & !(0xff << shift) | (v as u32) << shift;
}
pub fn bc3(d: &[u8], out: &mut [u32]) {
    s3(&d[8..], out, S3::FourColour);
    for i in 0..16 {
        put(out, i, 24, rgtc(d, i as u32));
    }
}
/// Single red channel; the other channels of the destination are left alone.
pub fn bc4(d: &[u8], out: &mut [u32]) {
    for i in 0..16 {
        put(out, i, 16, rgtc(d, i as u32));
    }
}
pub fn bc5(d: &[u8], out: &mut [u32]) {
    for i in 0..16 {
        put(out, i, 16, rgtc(d, i as u32));
        put(out, i, 8, rgtc(&d[8..], i as u32));
    }
}

/// AMD compressed ATC.  Colour 0 is 555, colour 1 is 565; bit 15 of colour 0 selects the
/// method: 0 -> 5/8,3/8 gradient, 1 -> {black, c0 - c1/4, c0, c1}.
pub fn atc_rgb(d: &[u8], out: &mut [u32]) {
    let v = le(d, 8);
    let x = |q: i32, n: i32| q << (8 - n) | q >> (2 * n - 8);
    let a = [x(bits(v, 10, 5), 5), x(bits(v, 5, 5), 5), x(bits(v, 0, 5), 5)];
    let b = [x(bits(v, 27, 5), 5), x(bits(v, 21, 6), 6), x(bits(v, 16, 5), 5)];
    let method = bits(v, 15, 1);
    for i in 0..16 {
        let code = bits(v, 32 + 2 * i as u32, 2);
        let f = |k: usize| match (method, code) {
            (0, 0) => a[k],
            (0, 1) => (5 * a[k] + 3 * b[k]) / 8,
            (0, 2) => (3 * a[k] + 5 * b[k]) / 8,
            (0, _) => b[k],
            (_, 0) => 0,
            (_, 1) => (a[k] - b[k] / 4).max(0),
            (_, 2) => a[k],
            _ => b[k],
        };
        out[i] = px(f(0), f(1), f(2), 255);
    }
}
pub fn atc_rgba(d: &[u8], out: &mut [u32]) {
    atc_rgb(&d[8..], out);
    for i in 0..16 {
        put(out, i, 24, rgtc(d, i as u32));
    }
}
