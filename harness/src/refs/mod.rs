//! Independent reference models of the texture formats, written from the published format
//! descriptions (never from the decoder under test).  They favour directness over speed:
//! one texel at a time, plain integers.
pub mod astc;
pub mod bc67;
pub mod bcn;
pub mod crunch;
pub mod etc;
pub mod pvrtc;

/// [B,G,R,A] byte order packed little endian.
#[inline]
pub fn px(r: i32, g: i32, b: i32, a: i32) -> u32 {
    (b as u32 & 255) | (g as u32 & 255) << 8 | (r as u32 & 255) << 16 | (a as u32 & 255) << 24
}
#[inline]
pub fn le(d: &[u8], n: usize) -> u128 {
    (0..n).fold(0u128, |a, i| a | (d[i] as u128) << (8 * i))
}
#[inline]
pub fn be(d: &[u8], n: usize) -> u128 {
    (0..n).fold(0u128, |a, i| a << 8 | d[i] as u128)
}
#[inline]
pub fn bits(v: u128, lo: u32, n: u32) -> i32 {
    ((v >> lo) & ((1u128 << n) - 1)) as i32
}
