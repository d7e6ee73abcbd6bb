//! C10, C11, C12: ASTC blocks.
use super::blocks::bases;
use crate::engine::*;
use crate::refs::astc::{self as m, set, Kind, FOOTPRINTS};
use texture2ddecoder as t2d;

const JUNK: u32 = 0x5a3c_96e1;
const MAGENTA: u32 = 0xffff_00ff;
type Out = [u32; 148];

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    /// compare every texel with the model (C10, C11)
    Full,
    /// only: error colour exactly on illegal encodings, one footprint written, no panic (C12)
    Status,
}
fn run(c: &dyn Fn() -> Case, d: &[u8], bw: usize, bh: usize) -> (Result<(), String>, Out) {
    let mut o = [JUNK; 148];
    let n = bw * bh + 4;
    budget(0);
    let r = guard(c, || t2d::decode_astc_block(d, bw, bh, &mut o[..n]));
    (r, o)
}
fn judge(d: &[u8], bw: usize, bh: usize, want: Want, got: &Out) -> Result<(Kind, u64), String> {
    let n = bw * bh;
    let mut e = [JUNK; 148];
    let k = m::block(d, bw, bh, &mut e);
    let h = hash2(e[0] as u64 | (e[n - 1] as u64) << 32, e[n / 2 + 1] as u64);
    if got[n..n + 4].iter().any(|p| *p != JUNK) {
        return Err("wrote behind the footprint".into());
    }
    if let Some(i) = (0..n).find(|&i| got[i] == JUNK && e[i] != JUNK) {
        return Err(format!("texel ({},{}) was not written", i % bw, i / bw));
    }
    let all = |c: u32| got[..n].iter().all(|p| *p == c);
    let ok = match k {
        Kind::Illegal => all(MAGENTA),
        _ if want == Want::Status => {
            let loose = matches!(k, Kind::Void { loose: true, .. });
            // the model itself may produce magenta texels legitimately
            loose || !all(MAGENTA) || e[..n].iter().all(|p| *p == MAGENTA)
        }
        Kind::Void { loose, nan } => {
            let mut keep = 0u32;
            for (i, sh) in [(0, 16), (1, 8), (2, 0), (3, 24)] {
                if !nan[i] {
                    keep |= 255 << sh;
                }
            }
            // what a NaN becomes is left open, but it is one colour and 0 or 255
            let nan_ok = (0..4).all(|i| {
                let b = got[0] >> (8 * i) & 255;
                keep >> (8 * i) & 255 == 255 || b == 0 || b == 255
            });
            (all(got[0]) && got[0] & keep == e[0] & keep && nan_ok) || (loose && all(MAGENTA))
        }
        _ => got[..n] == e[..n],
    };
    if ok {
        return Ok((k, h));
    }
    let i = (0..n).find(|&i| got[i] != e[i]).unwrap_or(0);
    Err(format!("{:?}: texel ({},{}) expected {:08x} got {:08x}", k, i % bw, i / bw, e[i], got[i]))
}
fn case(d: &[u8], bw: usize, bh: usize, want: Want) -> Case {
    Case::new("astc").kv("status", (want == Want::Status) as u8).kv("bw", bw).kv("bh", bh).hex("data", d)
}
pub fn check(l: &mut Local, v: u128, fp: (usize, usize), want: Want) {
    let (bw, bh) = fp;
    if !l.fresh(hash2(hash2(v as u64, (v >> 64) as u64), (bw * 64 + bh) as u64)) {
        return;
    }
    let d = v.to_le_bytes();
    l.trace();
    let c = || case(&d, bw, bh, want);
    let (r, got) = run(&c, &d, bw, bh);
    match r.and_then(|_| judge(&d, bw, bh, want, &got)) {
        Ok((k, h)) => {
            l.outcome(h);
            l.sample(|| format!("{}x{} {} {:?} -> {:08x} {:08x}", bw, bh, hexs(&d), k, got[0], got[1]))
        }
        Err(e) => l.violation(c(), e),
    }
}
pub fn replay(c: &Case) -> Result<String, String> {
    let (d, bw, bh) = (c.bytes("data"), c.num("bw"), c.num("bh"));
    let want = if c.num("status") == 1 { Want::Status } else { Want::Full };
    let (r, got) = run(&|| c.clone(), &d, bw, bh);
    r.and_then(|_| judge(&d, bw, bh, want, &got)).map(|k| format!("{:?} {:08x?}", k, &got[..bw * bh]))
}

/// fields of a block laid out for one partition
pub fn one(mode: usize, cem: usize, rest: u128) -> u128 {
    set(set(set(rest, 0, 11, mode), 11, 2, 0), 13, 4, cem)
}
/// several partitions, one endpoint-mode word in the low six bits
pub fn multi(mode: usize, parts: usize, seed: usize, low: usize, rest: u128) -> u128 {
    set(set(set(set(rest, 0, 11, mode), 11, 2, parts - 1), 13, 10, seed), 23, 6, low)
}
const HDR_CEM: [usize; 6] = [2, 3, 7, 11, 14, 15];
fn is_hdr(cf: &m::Config) -> bool {
    cf.cem[..cf.parts].iter().any(|c| HDR_CEM.contains(c))
}
/// set the class/member bits above the low word: they live right under the weights
fn with_extra(b: u128, fp: (usize, usize), extra: usize) -> u128 {
    // the position depends on the weight bits only
    let Some(md) = m::mode((b & 0x7ff) as usize) else { return b };
    let nw = md.w * md.h * if md.dual { 2 } else { 1 };
    let wb = md.range.size(nw);
    let parts = (b >> 11 & 3) as usize + 1;
    if parts == 1 || b >> 23 & 3 == 0 || md.w > fp.0 || wb > 96 {
        return b;
    }
    let n = 3 * parts - 4;
    set(b, (128 - wb - n) as u32, n as u32, extra)
}

/// Legal configurations of a footprint: (mode, parts, low CEM word); at most `cap` kept, spread evenly.
fn legal(fp: (usize, usize), hdr: bool, cap: usize) -> Vec<u128> {
    let mut v = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let mut r = Rng(fp.0 as u64 * 100 + fp.1 as u64 + hdr as u64);
    for mode in 0..2048 {
        for parts in 1..=4usize {
            for low in 0..if parts == 1 { 16 } else { 64 } {
                let rest = r.u128();
                let b = if parts == 1 { one(mode, low, rest) } else { multi(mode, parts, (rest >> 64) as usize & 1023, low, rest) };
                if let Some(cf) = m::config(b, fp.0, fp.1) {
                    // one representative per (grid, range, planes, partitions, class, colour range)
                    if is_hdr(&cf) == hdr
                        && seen.insert((cf.mode.w, cf.mode.h, cf.mode.range.bits, cf.mode.range.base, cf.mode.dual, cf.parts, cf.nvals, low & 3, cf.crange.bits * 8 + cf.crange.base))
                    {
                        v.push(b);
                    }
                }
            }
        }
    }
    if v.len() > cap {
        let n = v.len();
        v = (0..cap).map(|i| v[i * n / cap + mix(i as u64) as usize % (n / cap).max(1)]).collect();
    }
    v
}

fn sweep(it: &mut Vec<Item>, name: &'static str, hdr: bool, want: Want, fills: usize) {
    for fp in FOOTPRINTS {
        for mp in 0..32usize {
            it.push(item(format!("{}: block mode x partitions x endpoint word", name), move |l| {
                for mode in mp * 64..mp * 64 + 64 {
                    for parts in 1..=4usize {
                        for low in 0..if parts == 1 { 16 } else { 64 } {
                            for fill in 0..fills {
                                let rest = Rng((mode * 4096 + low * 32 + parts * 8 + fill) as u64).u128();
                                let b = if parts == 1 { one(mode, low, rest) } else { multi(mode, parts, (rest >> 64) as usize & 1023, low, rest) };
                                l.edge();
                                if want == Want::Full {
                                    match m::config(b, fp.0, fp.1) {
                                        Some(cf) if is_hdr(&cf) == hdr => {}
                                        _ => continue,
                                    }
                                }
                                check(l, b, fp, want);
                            }
                        }
                    }
                }
            }));
        }
    }
}
/// deviations of one legal block: bit flips, nibble pairs, ten-bit windows
fn around(it: &mut Vec<Item>, name: &'static str, fp: (usize, usize), b: u128, deep: bool) {
    it.push(item(format!("{}: bit flips<=2 of legal blocks", name), move |l| {
        deviations(l, b, &bit_fields(128), 2, &mut |l, v| check(l, v, fp, Want::Full))
    }));
    it.push(item(format!("{}: ten-bit windows of legal blocks", name), move |l| {
        for lo in 0..119 {
            product(l, b, &[Field::full(lo, 10)], &mut |l, v| check(l, v, fp, Want::Full))
        }
    }));
    if deep {
        it.push(item(format!("{}: nibble substitutions<=2 of legal blocks", name), move |l| {
            deviations(l, b, &nibble_fields(32), 2, &mut |l, v| check(l, v, fp, Want::Full))
        }));
    }
}

pub fn ldr(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it = vec![];
    sweep(&mut it, "LDR", false, Want::Full, if th { 6 } else { 1 });
    for fp in FOOTPRINTS {
        let n = if th { 160 } else { 9 };
        for (i, b) in legal(fp, false, n).into_iter().enumerate() {
            around(&mut it, "LDR", fp, b, if th { i % 4 == 0 } else { i == 0 });
        }
        // every partition seed and count; every texel gets its partition's constant colour
        for parts in 2..=4usize {
            it.push(item("LDR: partition seeds (full)", move |l| {
                for seed in 0..1024 {
                    for fill in 0..if th { 4 } else { 1 } {
                        for mode in [0x042usize, 0x153] {
                            let rest = Rng(77 + fill + seed as u64).u128();
                            // luminance endpoints: mode word 0 << 2 (all partitions CEM 0)
                            l.edge();
                            check(l, multi(mode, parts, seed, 0, rest), fp, Want::Full);
                            // RGB direct in every partition
                            l.edge();
                            check(l, multi(mode, parts, seed, 8 << 2, rest), fp, Want::Full);
                        }
                    }
                }
            }));
        }
        // different endpoint modes per partition: all class/member words
        for parts in 2..=4usize {
            it.push(item("LDR: mixed endpoint words (full)", move |l| {
                for low in 0..64 {
                    if low & 3 == 0 {
                        continue;
                    }
                    for extra in 0..1usize << (3 * parts - 4) {
                        for mode in [0x042usize, 0x051, 0x442] {
                            let rest = Rng((low * 512 + extra + mode) as u64).u128();
                            let b = with_extra(multi(mode, parts, rest as usize & 1023, low, rest), fp, extra);
                            l.edge();
                            if m::config(b, fp.0, fp.1).is_some_and(|cf| !is_hdr(&cf)) {
                                check(l, b, fp, Want::Full);
                            }
                        }
                    }
                }
            }));
        }
        // weights: every value of every weight, single and in pairs, for each weight range
        it.push(item("LDR: weight words", move |l| {
            let mut ranges = std::collections::BTreeSet::new();
            for mode in 0..2048usize {
                for cem in [0usize, 12] {
                    let b0 = one(mode, cem, Rng(mode as u64).u128());
                    let Some(cf) = m::config(b0, fp.0, fp.1) else { continue };
                    let key = (cf.mode.range.bits, cf.mode.range.base, cf.mode.dual, cf.mode.w * cf.mode.h, cem);
                    if !th && !ranges.insert((key.0, key.1, key.2, 0, cem)) {
                        continue;
                    }
                    if th && !ranges.insert(key) {
                        continue;
                    }
                    // wide endpoints so that every weight step shows
                    let b0 = set(b0, 17, 16, 0xff00);
                    for lo in (128 - cf.wbits as u32)..=119 {
                        product(l, b0, &[Field::full(lo, 9)], &mut |l, v| check(l, v, fp, Want::Full))
                    }
                    // all weights equal to each bit pattern of the range
                    for rep in 0..256u128 {
                        let mut v = b0;
                        for k in 0..cf.wbits as u32 / 8 {
                            v = setf(v, 120 - 8 * k, 8, rep);
                        }
                        l.edge();
                        check(l, v, fp, Want::Full);
                    }
                }
            }
        }));
    }
    // endpoint values: full pairs of 8-bit values for every LDR endpoint mode (colour range 256)
    let fp = (4, 4);
    for cem in [0usize, 1, 4, 5, 6, 8, 9, 10, 12, 13] {
        let nv = (cem / 4 + 1) * 2;
        for i in 0..nv as u32 {
            for j in 0..i {
                if nv > 4 && !th && (i + j * 3 + cem as u32) % 3 != 0 && i != j + 1 {
                    continue;
                }
                it.push(item("LDR: endpoint value pairs (full)", move |l| {
                    let reps = if th { 4 } else { 1 };
                    for rep in 0..reps {
                        // 4x4 grid of two-level weights: 16 bits... widened to 5 levels for range
                        let b = one(ENDP_MODE, cem, Rng(rep * 64 + 3 + (i * 8 + j) as u64).u128());
                        product(l, b, &[Field::full(17 + 8 * i, 8), Field::full(17 + 8 * j, 8)], &mut |l, v| check(l, v, fp, Want::Full))
                    }
                }));
            }
        }
    }
    it
}
/// 4x3 grid, 5 levels (28 bits of weights): leaves 83 bits for the endpoints, so up to 10 values at range 256
const ENDP_MODE: usize = 0x2 | 1 << 5 | 1 << 4;

pub fn hdr(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it = vec![];
    sweep(&mut it, "HDR", true, Want::Full, if th { 6 } else { 1 });
    for fp in FOOTPRINTS {
        for b in legal(fp, true, if th { 60 } else { 3 }) {
            around(&mut it, "HDR", fp, b, th);
        }
        for parts in 2..=4usize {
            it.push(item("HDR: mixed endpoint words (full)", move |l| {
                for low in 0..64 {
                    if low & 3 == 0 {
                        continue;
                    }
                    for extra in 0..1usize << (3 * parts - 4) {
                        for mode in [0x042usize, 0x051, 0x442] {
                            let rest = Rng((low * 512 + extra + mode) as u64 ^ 0x55).u128();
                            let b = with_extra(multi(mode, parts, rest as usize & 1023, low, rest), fp, extra);
                            l.edge();
                            if m::config(b, fp.0, fp.1).is_some_and(|cf| is_hdr(&cf)) {
                                check(l, b, fp, Want::Full);
                            }
                        }
                    }
                }
            }));
        }
        // void extent: every value of every channel, LDR and HDR
        it.push(item("void extent: channel values (full)", move |l| {
            for hdr in [0usize, 1] {
                for ch in 0..4u32 {
                    for (k, hold) in [0x3c00_1234_8000_7bffu64, 0xffff_0001_c000_03ff, 0].into_iter().enumerate() {
                        if !th && k != (fp.0 + fp.1) % 3 {
                            continue;
                        }
                        let b = set((hold as u128) << 64 | 0xffff_ffff_ffff_f000 | 0xdfc, 9, 1, hdr);
                        product(l, b, &[Field::full(64 + 16 * ch, 16)], &mut |l, v| check(l, v, fp, Want::Full))
                    }
                }
            }
        }));
        it.push(item("void extent: header bit flips", move |l| {
            for base in bases(if th { 60 } else { 10 }, 128, 33) {
                for ext in [0xffff_ffff_ffff_fdfcu128, 0xffff_ffff_ffff_fffc, 0x4000_0100_4000_1dfc, 0x8123_4567_89ab_cdfc] {
                    let b = base >> 64 << 64 | ext;
                    deviations(l, b, &bit_fields(128), if th { 2 } else { 1 }, &mut |l, v| check(l, v, fp, Want::Full));
                }
            }
        }));
    }
    let fp = (4, 4);
    for cem in HDR_CEM {
        let nv = (cem / 4 + 1) * 2;
        for i in 0..nv as u32 {
            for j in 0..i {
                it.push(item("HDR: endpoint value pairs (full)", move |l| {
                    for rep in 0..if th { 24 } else if nv <= 2 { 2 } else { 3 } {
                        let b = one(ENDP_MODE, cem, Rng(rep * 64 + 9 + (i * 8 + j) as u64).u128());
                        product(l, b, &[Field::full(17 + 8 * i, 8), Field::full(17 + 8 * j, 8)], &mut |l, v| check(l, v, fp, Want::Full))
                    }
                }));
            }
        }
        // sub-mode bits of all values in full, low bits at boundary patterns
        if nv >= 4 {
            for part in 0..16u128 {
                it.push(item("HDR: high bits of all endpoint values", move |l| {
                    // the two or three top bits of each of the values form the sub-mode and the moved bits
                    let hi = if nv == 4 { 3u32 } else { 2 };
                    for word in 0..1u128 << (hi * nv as u32) {
                        if word & 15 != part {
                            continue;
                        }
                        for low in if th { vec![0u128, 0x3f, 0x15, 0x2a, 0x20, 0x1f, 0x31] } else if nv == 8 { vec![0x15u128, 0x2a] } else { vec![0u128, 0x3f, 0x15, 0x2a] } {
                            let mut v = one(ENDP_MODE, cem, Rng(5).u128());
                            for k in 0..nv as u32 {
                                let x = word >> (hi * k) & ((1 << hi) - 1);
                                v = setf(v, 17 + 8 * k, 8, x << (8 - hi) | low.rotate_left(k) & ((1 << (8 - hi)) - 1));
                            }
                            l.edge();
                            check(l, v, fp, Want::Full);
                        }
                    }
                }));
            }
        }
    }
    // all 12-bit endpoint pairs through the interpolation: luminance large range
    it.push(item("HDR: luminance endpoints x weights", move |l| {
        for v0 in 0..256u128 {
            for v1 in 0..256u128 {
                for w in 0..2u64 {
                    let b = one(ENDP_MODE, 2, Rng(w + 21).u128());
                    let b = setf(setf(b, 17, 8, v0), 25, 8, v1);
                    l.edge();
                    check(l, b, fp, Want::Full);
                }
            }
        }
    }));
    it
}

// ---------------------------------------------------------------- C12
/// arbitrary block dimensions: no panic; refused ones leave the image alone
fn dims(l: &mut Local, bw: usize, bh: usize, w: usize, h: usize, data: &[u8]) {
    let c = || Case::new("astcdims").kv("bw", bw).kv("bh", bh).kv("width", w).kv("height", h).hex("data", data);
    if !l.fresh(hash_bytes(hash2(bw.wrapping_mul(1_000_003).wrapping_add(bh) as u64, (w * 4096 + h) as u64), data)) {
        return;
    }
    l.trace();
    if let Err(e) = dims_judge(&c, bw, bh, w, h, data) {
        l.violation(c(), e);
    }
}
fn dims_judge(c: &dyn Fn() -> Case, bw: usize, bh: usize, w: usize, h: usize, data: &[u8]) -> Result<String, String> {
    let mut img = vec![JUNK; w * h + 2];
    budget(0);
    let r = guard(c, || t2d::decode_astc(data, w, h, bw, bh, &mut img))?;
    let legal_fp = FOOTPRINTS.contains(&(bw, bh));
    let untouched = img.iter().all(|p| *p == JUNK);
    match r {
        Ok(()) if bw < 2 || bh < 2 || bw.saturating_mul(bh) > 144 => Err("unsupported block size accepted".into()),
        Ok(()) if img[w * h..].iter().any(|p| *p != JUNK) => Err("wrote behind the image".into()),
        Ok(()) => Ok("ok".into()),
        Err(e) if legal_fp => Err(format!("standard footprint refused: {}", e)),
        Err(_) if !untouched => Err("refused, but the image was changed".into()),
        Err(e) => Ok(e.into()),
    }
}
pub fn replay_dims(c: &Case) -> Result<String, String> {
    dims_judge(&|| c.clone(), c.num("bw"), c.num("bh"), c.num("width"), c.num("height"), &c.bytes("data"))
}
pub fn total(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it = vec![];
    sweep(&mut it, "status", false, Want::Status, if th { 12 } else { 3 });
    for fp in FOOTPRINTS {
        for (i, b) in bases(if th { 600 } else { 60 }, 128, 40).into_iter().enumerate() {
            it.push(item("status: bit flips<=2", move |l| {
                deviations(l, b, &bit_fields(128), 2, &mut |l, v| check(l, v, fp, Want::Status))
            }));
            if i < if th { 40 } else { 3 } {
                it.push(item("status: low 17 bits (full)", move |l| {
                    product(l, b, &[Field::full(0, 17)], &mut |l, v| check(l, v, fp, Want::Status))
                }));
                it.push(item("status: endpoint selector x partitions x mode window", move |l| {
                    product(l, b, &[Field::full(11, 2), Field::full(23, 6), Field::full(0, 9)], &mut |l, v| check(l, v, fp, Want::Status))
                }));
            }
        }
        // the extra endpoint-mode bits decide the number of values: legality at the edge
        it.push(item("status: class/member bits (full) x modes", move |l| {
            for mode in 0..2048usize {
                if !th && mode % 5 != (fp.0 * fp.1) % 5 {
                    continue;
                }
                for parts in 2..=4usize {
                    for low in (1..64).step_by(if th { 1 } else { 3 }) {
                        for extra in [0usize, 0xff, 0x55, 0x93] {
                            let rest = Rng((mode * 64 + low) as u64).u128();
                            l.edge();
                            check(l, with_extra(multi(mode, parts, 5, low, rest), fp, extra), fp, Want::Status);
                        }
                    }
                }
            }
        }));
    }
    let dmax = if th { 150 } else { 76 };
    for bw in 0..dmax {
        it.push(item("block dimensions", move |l| {
            for bh in 0..dmax {
                for d in bases(if th { 40 } else { 12 }, 128, 60) {
                    for m in [0x042usize, 0x051, 0x1fc, 0x3ff, 0x253, 0x104] {
                        let v = set(d, 0, 11, m);
                        l.edge();
                        dims(l, bw, bh, 1, 1, &v.to_le_bytes());
                    }
                    l.edge();
                    dims(l, bw, bh, 3, 2, &[d.to_le_bytes().as_slice(); 6].concat());
                }
            }
            for bh in [usize::MAX, usize::MAX / 2, 1 << 32, 1 << 63, 1000] {
                l.edge();
                dims(l, bw, bh, 2, 2, &[0x42; 64]);
                l.edge();
                dims(l, bh, bw, 2, 2, &[0x42; 64]);
                l.edge();
                dims(l, bh, bh, 2, 2, &[0x42; 64]);
            }
        }));
    }
    it
}
