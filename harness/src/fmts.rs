//! Registry: every block format, its real entry points and its reference model.
use crate::engine::*;
use crate::refs::{bc67, bcn, etc};
use texture2ddecoder as t2d;

pub type BlockFn = fn(&[u8], &mut [u32]);
pub type ImageFn = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
pub struct Fmt {
    pub name: &'static str,
    pub bytes: usize,
    pub block: BlockFn,
    pub image: ImageFn,
    pub model: BlockFn,
    /// second admissible model where the format leaves the result open
    pub alt: Option<BlockFn>,
    /// channels the block function may leave as it found them
    pub keeps: u32,
}
fn etc2_rgba1_alt(d: &[u8], out: &mut [u32]) {
    // colour of fully transparent texels is immaterial: also accept transparent black
    etc::etc2_rgba1(d, out);
    out[..16].iter_mut().for_each(|p| {
        if *p >> 24 == 0 {
            *p = 0
        }
    })
}
fn bc6u_alt(d: &[u8], out: &mut [u32]) {
    bc67::bc6u(d, out);
    reserved_alpha(d, out)
}
fn bc6s_alt(d: &[u8], out: &mut [u32]) {
    bc67::bc6s(d, out);
    reserved_alpha(d, out)
}
fn reserved_alpha(d: &[u8], out: &mut [u32]) {
    if d[0] & 3 == 3 && d[0] & 16 != 0 && d[0] & 31 != 30 {
        out[..16].fill(0)
    }
}
/// base codeword -128 of the signed EAC formats is not a legal encoding: -128 and -127 both accepted
fn eac_s128(d: &[u8], out: &mut [u32], shift: u32) {
    if d[0] != 0x80 {
        return;
    }
    let mut e = d[..8].to_vec();
    e[0] = 0;
    for y in 0..4 {
        for x in 0..4 {
            let v = etc::eac_step(&e, x, y) - 1024 + 1023;
            let v = if v < 0 { 0 } else { v.min(2047) >> 3 };
            let i = (y * 4 + x) as usize;
            out[i] = out[i] & !(255 << shift) | (v as u32) << shift;
        }
    }
}
fn eacr_s_alt(d: &[u8], out: &mut [u32]) {
    etc::eacr_signed(d, out);
    eac_s128(d, out, 16)
}
fn eacrg_s_alt(d: &[u8], out: &mut [u32]) {
    etc::eacrg_signed(d, out);
    eac_s128(d, out, 16);
    eac_s128(&d[8..], out, 8)
}

macro_rules! f {
    ($n:ident, $b:expr, $m:expr) => { f!($n, $b, $m, None, 0) };
    ($n:ident, $b:expr, $m:expr, $alt:expr, $keeps:expr) => {
        paste_names!($n, $b, $m, $alt, $keeps)
    };
}
macro_rules! paste_names {
    ($n:ident, $b:expr, $m:expr, $alt:expr, $keeps:expr) => {
        Fmt { name: stringify!($n), bytes: $b, block: blk::$n, image: img::$n, model: $m, alt: $alt, keeps: $keeps }
    };
}
#[allow(non_snake_case)]
mod blk {
    use super::t2d;
    pub use t2d::{
        decode_atc_rgb4_block as atc_rgb4, decode_atc_rgba8_block as atc_rgba8, decode_bc1_block as bc1,
        decode_bc1a_block as bc1a, decode_bc2_block as bc2, decode_bc3_block as bc3, decode_bc4_block as bc4,
        decode_bc5_block as bc5, decode_bc6_block_signed as bc6_signed, decode_bc6_block_unsigned as bc6_unsigned,
        decode_bc7_block as bc7, decode_eacr_block as eacr, decode_eacr_signed_block as eacr_signed,
        decode_eacrg_block as eacrg, decode_eacrg_signed_block as eacrg_signed, decode_etc1_block as etc1,
        decode_etc2_rgb_block as etc2_rgb, decode_etc2_rgba1_block as etc2_rgba1,
        decode_etc2_rgba8_block as etc2_rgba8,
    };
}
mod img {
    use super::t2d;
    pub use t2d::{
        decode_atc_rgb4 as atc_rgb4, decode_atc_rgba8 as atc_rgba8, decode_bc1 as bc1, decode_bc1a as bc1a,
        decode_bc2 as bc2, decode_bc3 as bc3, decode_bc4 as bc4, decode_bc5 as bc5, decode_bc6_signed as bc6_signed,
        decode_bc6_unsigned as bc6_unsigned, decode_bc7 as bc7, decode_eacr as eacr, decode_eacr_signed as eacr_signed,
        decode_eacrg as eacrg, decode_eacrg_signed as eacrg_signed, decode_etc1 as etc1, decode_etc2_rgb as etc2_rgb,
        decode_etc2_rgba1 as etc2_rgba1, decode_etc2_rgba8 as etc2_rgba8,
    };
}
pub static FMTS: [Fmt; 19] = [
    f!(bc1, 8, bcn::bc1),
    f!(bc1a, 8, bcn::bc1a),
    f!(bc2, 16, bcn::bc2),
    f!(bc3, 16, bcn::bc3),
    f!(bc4, 8, bcn::bc4, None, 0xff00ffff),
    f!(bc5, 16, bcn::bc5, None, 0xff0000ff),
    f!(bc6_unsigned, 16, bc67::bc6u, Some(bc6u_alt), 0),
    f!(bc6_signed, 16, bc67::bc6s, Some(bc6s_alt), 0),
    f!(bc7, 16, bc67::bc7),
    f!(etc1, 8, etc::etc1),
    f!(etc2_rgb, 8, etc::etc2_rgb),
    f!(etc2_rgba1, 8, etc::etc2_rgba1, Some(etc2_rgba1_alt), 0),
    f!(etc2_rgba8, 16, etc::etc2_rgba8),
    f!(eacr, 8, etc::eacr),
    f!(eacr_signed, 8, etc::eacr_signed, Some(eacr_s_alt), 0),
    f!(eacrg, 16, etc::eacrg),
    f!(eacrg_signed, 16, etc::eacrg_signed, Some(eacrg_s_alt), 0),
    f!(atc_rgb4, 8, bcn::atc_rgb),
    f!(atc_rgba8, 16, bcn::atc_rgba),
];
macro_rules! alone {
    ($n:expr, $f:ident, $ch:expr, $signed:expr, $alt:expr) => {
        Fmt {
            name: $n,
            bytes: 8,
            // the single-channel functions fill one channel of texels whose channel is still zero
            block: |d, o| {
                o[..16].iter_mut().for_each(|p| *p &= !(255 << (8 * $ch)));
                t2d::$f(d, $ch, o)
            },
            image: t2d::decode_bc1,
            model: |d, o| etc::eac_ch(d, o, 8 * $ch, $signed),
            alt: $alt,
            keeps: 0,
        }
    };
}
macro_rules! alone_signed {
    ($n:expr, $ch:expr) => {
        alone!($n, decode_eac_signed_block, $ch, true, Some(|d, o| {
            etc::eac_ch(d, o, 8 * $ch, true);
            eac_s128(d, o, 8 * $ch)
        }))
    };
}
/// public block functions without an image function
pub static EXTRA: [Fmt; 9] = [
    alone!("eac_blue", decode_eac_block, 0, false, None),
    alone!("eac_green", decode_eac_block, 1, false, None),
    alone!("eac_red", decode_eac_block, 2, false, None),
    alone!("eac_alpha", decode_eac_block, 3, false, None),
    alone_signed!("eac_signed_blue", 0),
    alone_signed!("eac_signed_green", 1),
    alone_signed!("eac_signed_red", 2),
    alone_signed!("eac_signed_alpha", 3),
    Fmt { name: "etc2_a8", bytes: 8, block: t2d::decode_etc2_a8_block, image: t2d::decode_bc1, model: etc::etc2_a8, alt: None, keeps: 0 },
];
pub fn fmt(name: &str) -> &'static Fmt {
    FMTS.iter().chain(&EXTRA).find(|f| f.name == name).unwrap_or_else(|| panic!("no format {}", name))
}
pub fn fmt_index(f: &Fmt) -> u64 {
    FMTS.iter().chain(&EXTRA).position(|g| g.name == f.name).unwrap() as u64
}

pub const JUNK: u32 = 0x5a3c_96e1;
const GUARD: usize = 4;

pub fn matches(f: &Fmt, data: &[u8], exp: &[u32], got: &[u32], pre: &[u32]) -> bool {
    if exp == got {
        return true;
    }
    if let Some(alt) = f.alt {
        let mut e = [0u32; 16 + GUARD];
        e[..got.len()].copy_from_slice(pre);
        alt(data, &mut e[..]);
        // texel by texel either reading is admissible
        return got.iter().enumerate().all(|(i, g)| *g == exp[i] || *g == e[i]);
    }
    false
}

/// Execute one encoded block on the real block decoder and compare with the model.
/// The destination is prefilled with junk and has guard entries behind texel 15.
#[inline]
pub fn check_block(l: &mut Local, f: &'static Fmt, v: u128) {
    let bytes = v.to_le_bytes();
    let data = &bytes[..f.bytes];
    let key = hash2(fmt_index(f).wrapping_mul(31) ^ (v as u64), (v >> 64) as u64 ^ 0x77);
    if !l.fresh(key) {
        return;
    }
    check_block_now(l, f, data)
}
pub fn check_block_now(l: &mut Local, f: &'static Fmt, data: &[u8]) {
    let pre = [JUNK; 16 + GUARD];
    let mut got = pre;
    let mut exp = pre;
    l.trace();
    budget(0);
    let r = guard(&|| Case::new("block").kv("format", f.name).hex("data", data), || (f.block)(data, &mut got));
    (f.model)(data, &mut exp);
    l.outcome(exp[0] as u64 | (exp[5] as u64) << 32);
    let ok = r.is_ok() && matches(f, data, &exp, &got, &pre);
    if !ok {
        let case = Case::new("block").kv("format", f.name).hex("data", data);
        let msg = match r {
            Err(e) => e,
            Ok(()) => {
                let i = (0..exp.len()).find(|&i| exp[i] != got[i]).unwrap_or(0);
                format!("texel {}: expected {:08x} got {:08x}", i, exp[i], got[i])
            }
        };
        l.violation(case, msg);
    }
    l.sample(|| format!("{} {} -> {:08x} {:08x} ..", f.name, hexs(data), exp[0], exp[1]));
}
pub fn replay_block(c: &Case) -> Result<String, String> {
    let f = fmt(c.get("format"));
    let data = c.bytes("data");
    let pre = [JUNK; 16 + GUARD];
    let mut got = pre;
    let mut exp = pre;
    budget(0);
    let r = guard(&|| c.clone(), || (f.block)(&data, &mut got));
    (f.model)(&data, &mut exp);
    let s = format!("expected {:08x?}\ngot      {:08x?}\nresult {:?}", exp, got, r);
    if r.is_ok() && matches(f, &data, &exp, &got, &pre) {
        Ok(s)
    } else {
        Err(s)
    }
}
