// Every entry point of the crate under test behind one uniform call.  Included with `t` naming
// the build of the crate that is meant: by the harness (the usual build, and the build without
// overflow checks and debug assertions) and by the workers for other targets.
#[derive(Clone, Copy)]
pub enum Fun {
    /// data, width, height, image
    Image(fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>),
    /// ... and two more numbers
    Wide(fn(&[u8], usize, usize, usize, usize, &mut [u32]) -> Result<(), &'static str>),
    /// one block
    Block(fn(&[u8], &mut [u32])),
    /// one block, and two numbers
    BlockWide(fn(&[u8], usize, usize, &mut [u32])),
}
pub struct Entry {
    #[allow(dead_code)]
    pub name: &'static str,
    pub fun: Fun,
}
macro_rules! table {
    ($($kind:ident $name:ident)*) => { &[$(Entry { name: stringify!($name), fun: Fun::$kind(t::$name) }),*] };
}
const PLAIN: &[Entry] = table! {
    Image decode_bc1 Image decode_bc1a Image decode_bc2 Image decode_bc3 Image decode_bc4 Image decode_bc5
    Image decode_bc6_unsigned Image decode_bc6_signed Image decode_bc7 Image decode_etc1 Image decode_etc2_rgb
    Image decode_etc2_rgba1 Image decode_etc2_rgba8 Image decode_eacr Image decode_eacr_signed Image decode_eacrg
    Image decode_eacrg_signed Image decode_atc_rgb4 Image decode_atc_rgba8
    Image decode_astc_4_4 Image decode_astc_5_4 Image decode_astc_5_5 Image decode_astc_6_5 Image decode_astc_6_6
    Image decode_astc_8_5 Image decode_astc_8_6 Image decode_astc_8_8 Image decode_astc_10_5 Image decode_astc_10_6
    Image decode_astc_10_8 Image decode_astc_10_10 Image decode_astc_12_10 Image decode_astc_12_12
    Image decode_pvrtc_2bpp Image decode_pvrtc_4bpp
    Image decode_crunch Image decode_unity_crunch
    Block decode_bc1_block Block decode_bc1a_block Block decode_bc2_block Block decode_bc3_block Block decode_bc4_block
    Block decode_bc5_block Block decode_bc6_block_unsigned Block decode_bc6_block_signed Block decode_bc7_block
    Block decode_etc1_block Block decode_etc2_rgb_block Block decode_etc2_rgba1_block Block decode_etc2_rgba8_block
    Block decode_eacr_block Block decode_eacr_signed_block Block decode_eacrg_block Block decode_eacrg_signed_block
    Block decode_atc_rgb4_block Block decode_atc_rgba8_block Block decode_etc2_a8_block
    Wide decode_astc BlockWide decode_astc_block
};
fn eac(d: &[u8], channel: usize, _: usize, out: &mut [u32]) {
    out[..16].fill(0);
    t::decode_eac_block(d, channel, out)
}
fn eac_signed(d: &[u8], channel: usize, _: usize, out: &mut [u32]) {
    out[..16].fill(0);
    t::decode_eac_signed_block(d, channel, out)
}
fn bc6(d: &[u8], w: usize, h: usize, signed: usize, _: usize, out: &mut [u32]) -> Result<(), &'static str> {
    t::decode_bc6(d, w, h, out, signed != 0)
}
fn bc6_block(d: &[u8], signed: usize, _: usize, out: &mut [u32]) {
    t::decode_bc6_block(d, out, signed != 0)
}
fn pvrtc(d: &[u8], w: usize, h: usize, two: usize, _: usize, out: &mut [u32]) -> Result<(), &'static str> {
    t::decode_pvrtc(d, w, h, out, two != 0)
}
/// the fields of the Crunch header, in `out`
fn info(d: &[u8], size: usize, _: usize, out: &mut [u32]) -> Result<(), &'static str> {
    let mut i = t::CrnTextureInfo::default();
    let ok = i.crnd_get_texture_info(d, size as u32);
    if !ok {
        return Err("not a Crunch file");
    }
    for (o, v) in out.iter_mut().zip([i.width, i.height, i.levels, i.faces, i.bytes_per_block, i.userdata0, i.userdata1, i.format as u32]) {
        *o = v;
    }
    Ok(())
}
const SPECIAL: &[Entry] = &[
    Entry { name: "decode_eac_block", fun: Fun::BlockWide(eac) },
    Entry { name: "decode_eac_signed_block", fun: Fun::BlockWide(eac_signed) },
    Entry { name: "decode_bc6", fun: Fun::Wide(bc6) },
    Entry { name: "decode_bc6_block", fun: Fun::BlockWide(bc6_block) },
    Entry { name: "decode_pvrtc", fun: Fun::Wide(pvrtc) },
    Entry { name: "crnd_get_texture_info", fun: Fun::Image(info) },
];
#[allow(dead_code)]
pub const N: usize = PLAIN.len() + SPECIAL.len();
pub fn entry(i: usize) -> &'static Entry {
    if i < PLAIN.len() { &PLAIN[i] } else { &SPECIAL[i - PLAIN.len()] }
}
pub fn call(i: usize, n: [usize; 4], d: &[u8], out: &mut [u32]) -> bool {
    match entry(i).fun {
        Fun::Image(f) => f(d, n[0], n[1], out).is_ok(),
        Fun::Wide(f) => f(d, n[0], n[1], n[2], n[3], out).is_ok(),
        Fun::Block(f) => {
            f(d, out);
            true
        }
        Fun::BlockWide(f) => {
            f(d, n[2], n[3], out);
            true
        }
    }
}
