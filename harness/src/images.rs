//! Registry of image decoders: every function that turns a whole buffer into an image.
use crate::engine::*;
use crate::fmts::FMTS;
use crate::refs::astc::FOOTPRINTS;
use texture2ddecoder as t2d;

pub type Call = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
pub const JUNK: u32 = 0x5a3c_96e1;
/// what the image decoders start a block from
pub const START: u32 = 0xff00_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Plain(usize), // index into FMTS
    Astc,
    Pvrtc,
}
#[derive(Clone, Copy)]
pub struct Img {
    pub name: &'static str,
    pub bw: usize,
    pub bh: usize,
    pub bytes: usize,
    pub call: Call,
    pub class: Class,
}
impl Img {
    pub fn nblocks(&self, w: usize, h: usize) -> usize {
        w.div_ceil(self.bw).saturating_mul(h.div_ceil(self.bh))
    }
    pub fn need(&self, w: usize, h: usize) -> usize {
        self.nblocks(w, h).saturating_mul(self.bytes)
    }
    /// PVRTC only defines power-of-two block grids
    pub fn defined(&self, w: usize, h: usize) -> bool {
        let p = |n: usize| n == 0 || n.is_power_of_two();
        self.class != Class::Pvrtc || p(w.div_ceil(self.bw)) && p(h.div_ceil(self.bh))
    }
    /// one block through the real block decoder, starting from what the image decoder starts from
    pub fn block(&self, d: &[u8], out: &mut [u32]) {
        match self.class {
            Class::Plain(i) => (FMTS[i].block)(d, out),
            Class::Astc => t2d::decode_astc_block(d, self.bw, self.bh, out),
            Class::Pvrtc => unreachable!(),
        }
    }
}

macro_rules! astc_table {
    ($k:ident) => {
        [
            $k::decode_astc_4_4, $k::decode_astc_5_4, $k::decode_astc_5_5, $k::decode_astc_6_5, $k::decode_astc_6_6,
            $k::decode_astc_8_5, $k::decode_astc_8_6, $k::decode_astc_8_8, $k::decode_astc_10_5, $k::decode_astc_10_6,
            $k::decode_astc_10_8, $k::decode_astc_10_10, $k::decode_astc_12_10, $k::decode_astc_12_12,
        ]
    };
}
macro_rules! plain_table {
    ($k:ident) => {
        [
            $k::decode_bc1, $k::decode_bc1a, $k::decode_bc2, $k::decode_bc3, $k::decode_bc4, $k::decode_bc5,
            $k::decode_bc6_unsigned, $k::decode_bc6_signed, $k::decode_bc7, $k::decode_etc1, $k::decode_etc2_rgb,
            $k::decode_etc2_rgba1, $k::decode_etc2_rgba8, $k::decode_eacr, $k::decode_eacr_signed, $k::decode_eacrg,
            $k::decode_eacrg_signed, $k::decode_atc_rgb4, $k::decode_atc_rgba8,
        ]
    };
}
const ASTC_NAMES: [&str; 14] = [
    "astc_4_4", "astc_5_4", "astc_5_5", "astc_6_5", "astc_6_6", "astc_8_5", "astc_8_6", "astc_8_8", "astc_10_5",
    "astc_10_6", "astc_10_8", "astc_10_10", "astc_12_10", "astc_12_12",
];
fn build(plain: [Call; 19], astc: [Call; 14], pv: [Call; 2]) -> Vec<Img> {
    let mut v = vec![];
    for (i, f) in FMTS.iter().enumerate() {
        v.push(Img { name: f.name, bw: 4, bh: 4, bytes: f.bytes, call: plain[i], class: Class::Plain(i) });
    }
    for (i, fp) in FOOTPRINTS.iter().enumerate() {
        v.push(Img { name: ASTC_NAMES[i], bw: fp.0, bh: fp.1, bytes: 16, call: astc[i], class: Class::Astc });
    }
    v.push(Img { name: "pvrtc_2bpp", bw: 8, bh: 4, bytes: 8, call: pv[0], class: Class::Pvrtc });
    v.push(Img { name: "pvrtc_4bpp", bw: 4, bh: 4, bytes: 8, call: pv[1], class: Class::Pvrtc });
    v
}
pub fn all() -> Vec<Img> {
    build(plain_table!(t2d), astc_table!(t2d), [t2d::decode_pvrtc_2bpp, t2d::decode_pvrtc_4bpp])
}
/// the same entry points of the build without the allocator
#[cfg(feature = "noalloc")]
pub fn all_noalloc() -> Option<Vec<Img>> {
    use t2d_noalloc as k;
    Some(build(plain_table!(k), astc_table!(k), [k::decode_pvrtc_2bpp, k::decode_pvrtc_4bpp]))
}
#[cfg(not(feature = "noalloc"))]
pub fn all_noalloc() -> Option<Vec<Img>> {
    None
}
pub fn find(name: &str) -> Img {
    all().into_iter().find(|i| i.name == name).unwrap_or_else(|| panic!("no image decoder {}", name))
}

/// A block of the format that decodes to something varied; `s` selects which.
pub fn sample_block(i: &Img, s: u64) -> Vec<u8> {
    let mut r = Rng(s.wrapping_mul(0x1234_5678_9abc_def1) ^ 0x77);
    let mut v = r.u128();
    if i.class == Class::Astc {
        // legal: one partition, 4x4 grid of 3-bit weights or similar, RGB direct
        let mode = [0x042usize, 0x051, 0x053, 0x442][s as usize % 4];
        v = crate::props::astc::one(mode, [8, 12, 9, 4][(s / 4) as usize % 4], v);
    }
    v.to_le_bytes()[..i.bytes].to_vec()
}
/// Special blocks: every mode the format has, reserved ones, extremes.
pub fn alphabet(i: &Img, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<u128> = crate::props::blocks::bases(n.max(6), 8 * i.bytes as u32, 3000 + i.bw as u64);
    match i.class {
        Class::Plain(k) => match FMTS[k].name {
            "bc6_unsigned" | "bc6_signed" => {
                for m in 0..32u128 {
                    let b = v[m as usize % 6];
                    v.push(setf(b, 0, 5, m));
                }
            }
            "bc7" => {
                for m in 0..9u32 {
                    let b = v[4 + m as usize % 2];
                    v.push(setf(b, 0, 8, 1u128 << m & 0xff));
                }
            }
            n if n.starts_with("etc2") => {
                for m in 0..8u128 {
                    // differential overflows select T, H, planar; opaque bit off and on
                    let sh = if i.bytes == 16 { 64 } else { 0 };
                    let w = [0xf8_04_f7_00u128, 0x04_80_80_03, 0x80_04_80_02, 0x80_80_04_03, 0x04_80_80_01, 0x80_04_80_00, 0x80_80_04_01, 0x12_34_56_01][m as usize];
                    let le = (w as u32).swap_bytes() as u128 | 0xa55a_3cc3u128 << 32;
                    v.push(le << sh | 0x1122_3344_5566_7788 << (64 - sh) & if i.bytes == 16 { u128::MAX } else { u64::MAX as u128 });
                }
            }
            _ => {}
        },
        Class::Astc => {
            for m in 0..24u64 {
                let b = sample_block(i, m);
                v.push(u128::from_le_bytes(b.try_into().unwrap()));
            }
            // void extents, reserved, illegal, two to four partitions, dual plane
            v.push(0x1234_5678_9abc_def0_ffff_ffff_ffff_fdfc);
            v.push(0x3c00_3800_0000_3400_ffff_ffff_ffff_fffc);
            v.push(0x1234_5678_9abc_def0_1111_2222_3333_4440);
            for p in 2..5usize {
                v.push(crate::props::astc::multi(0x042, p, 77 * p, 8 << 2, v[4]));
                v.push(crate::props::astc::multi(0x042, p, 177 * p, 1 << 2, v[5]));
            }
            v.push(crate::props::astc::one(0x442, 8, v[4]));
        }
        Class::Pvrtc => {}
    }
    v.iter().map(|b| b.to_le_bytes()[..i.bytes].to_vec()).collect()
}
