//! Exhaustive exploration of single encoded blocks, format by format.
use crate::engine::*;
use crate::fmts::*;
use crate::refs::{bc67, etc};

type Fm = &'static Fmt;

/// representative fills of a block, used as base states everywhere
pub fn bases(n: usize, bits: u32, seed: u64) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![
        0,
        u128::MAX,
        0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
        0x55555555555555555555555555555555,
        0x0123456789abcdef_fedcba9876543210,
        0xe4e4e4e4_80007fff_e4e4e4e4_7fff8000,
    ];
    let mut r = Rng(seed);
    while v.len() < n {
        v.push(r.u128());
    }
    v.truncate(n.max(2));
    v.iter().map(|x| x & mask).collect()
}

/// Families that apply to every format: bit flips, nibble and byte substitutions around bases.
pub fn generic(f: Fm, c: &Ctx, fix: fn(u128) -> u128) -> Vec<Item> {
    let bits = f.bytes as u32 * 8;
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    let nb = if th { 4000 } else { 160 };
    for (i, b) in bases(nb, bits, 11 + fmt_index(f)).into_iter().enumerate() {
        let b = fix(b);
        it.push(item(format!("{}: bit flips<=2", f.name), move |l| {
            deviations(l, b, &bit_fields(bits), 2, &mut |l, v| check_block(l, f, v))
        }));
        if i < if th { 24 } else { 4 } {
            it.push(item(format!("{}: bit flips<=3", f.name), move |l| {
                deviations(l, b, &bit_fields(bits), 3, &mut |l, v| check_block(l, f, v))
            }));
        }
        it.push(item(format!("{}: nibble substitutions<=2", f.name), move |l| {
            let k = if bits == 64 || i % 8 == 0 { 2 } else { 1 };
            deviations(l, b, &nibble_fields(bits / 4), k, &mut |l, v| check_block(l, f, v))
        }));
    }
    for b in bases(if th { 40 } else { 3 }, bits, 900 + fmt_index(f)) {
        let b = fix(b);
        for i in 0..bits / 8 {
            it.push(item(format!("{}: byte pairs", f.name), move |l| {
                for j in i + 1..bits / 8 {
                    product(l, b, &[Field::full(i * 8, 8), Field::full(j * 8, 8)], &mut |l, v| {
                        check_block(l, f, v)
                    });
                }
            }));
        }
    }
    it
}
fn same(v: u128) -> u128 {
    v
}

const RAMP2: [u32; 4] = [0xe4e4e4e4, 0x1b1b1b1b, 0x4e4e4e4e, 0xb1b1b1b1];
/// every 3-bit code twice, texel t gets code (t*5+r)&7
fn ramp3(r: u64) -> u64 {
    (0..16).fold(0, |a, t| a | ((t * 5 + r) & 7) << (3 * t))
}

/// two 16-bit colours + sixteen 2-bit codes at bit `sh`
fn colour_half(f: Fm, c: &Ctx, sh: u32) -> Vec<Item> {
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    let outer: Vec<u128> = if f.bytes == 8 {
        vec![0]
    } else {
        let keep = !(((1u128 << 64) - 1) << sh);
        bases(3, 128, 5).into_iter().map(|b| b & keep).collect()
    };
    // every pair of endpoint values of one channel, the other channels held at four patterns
    for (lo0, n) in [(0u32, 5u32), (5, 6), (11, 5)] {
        for &o in &outer {
            it.push(item(format!("{}: channel endpoint pairs (full)", f.name), move |l| {
                for hold in [(0u128, 0u128), (0xffff, 0xffff), (0xffff, 0), (0, 0xffff), (0x8410, 0x7bef), (0x7bef, 0x8410)] {
                    for r in RAMP2 {
                        let b = o | (hold.0 | hold.1 << 16 | (r as u128) << 32) << sh;
                        product(
                            l,
                            b,
                            &[Field::full(sh + lo0, n), Field::full(sh + 16 + lo0, n)],
                            &mut |l, v| check_block(l, f, v),
                        );
                    }
                }
            }));
        }
    }
    // full first colour x boundary second colour and vice versa (order comparison, equal colours, neighbours)
    for part in 0..16u128 {
        it.push(item(format!("{}: colour words full x boundary", f.name), move |l| {
            let e = Field::edge(0, 16).alpha;
            for q in part * 4096..(part + 1) * 4096 {
                for x in e.iter().copied().chain([q, q ^ 1, q.wrapping_sub(1) & 0xffff, (q + 1) & 0xffff, !q & 0xffff]) {
                    l.edge();
                    check_block(l, f, (q | x << 16 | 0xe4e4e4e4u128 << 32) << sh);
                    l.edge();
                    check_block(l, f, (x | q << 16 | 0xe4e4e4e4u128 << 32) << sh);
                }
            }
        }));
    }
    // index deviations
    for (a, b) in [(0xffffu128, 0u128), (0, 0xffff), (0x1234, 0xfedc), (0xc0de, 0x1337), (0x8000, 0x7fff), (0x5555, 0x5555)] {
        it.push(item(format!("{}: texel codes k<=3", f.name), move |l| {
            for r in RAMP2.into_iter().chain([0, 0xffffffff, 0x55555555, 0xaaaaaaaa]) {
                let fl: Vec<Field> = (0..16).map(|t| Field::full(sh + 32 + 2 * t, 2)).collect();
                deviations(l, (a | b << 16 | (r as u128) << 32) << sh, &fl, 3, &mut |l, v| check_block(l, f, v));
            }
        }));
    }
    if th {
        // the complete square of colour words
        for hi in 0..256u128 {
            it.push(item(format!("{}: colour words full x full", f.name), move |l| {
                for q0 in hi * 256..(hi + 1) * 256 {
                    for q1 in 0..65536u128 {
                        l.edge();
                        let v = (q0 | q1 << 16 | 0xe4e4e4e4u128 << 32) << sh;
                        l.states += 1; // distinct by construction, not fingerprinted
                        check_block_now(l, f, &v.to_le_bytes()[..f.bytes]);
                    }
                }
            }));
        }
    }
    it
}
/// two 8-bit endpoints + sixteen 3-bit codes at bit `sh`
fn rgtc_half(f: Fm, c: &Ctx, sh: u32) -> Vec<Item> {
    let mut it: Vec<Item> = vec![];
    let outer: Vec<u128> = if f.bytes == 8 {
        vec![0]
    } else {
        let keep = !(((1u128 << 64) - 1) << sh);
        bases(4, 128, 6).into_iter().map(|b| b & keep).collect()
    };
    for r in 0..if c.thorough() { 8 } else { 4 } {
        let o = outer[r as usize % outer.len()];
        it.push(item(format!("{}: endpoint pairs full, all codes", f.name), move |l| {
            let b = o | (ramp3(r) as u128) << (16 + sh);
            product(l, b, &[Field::full(sh, 8), Field::full(sh + 8, 8)], &mut |l, v| check_block(l, f, v));
        }));
    }
    for (i, (a, b)) in [(255u128, 0u128), (0, 255), (7, 7), (200, 13), (13, 200), (128, 127)].into_iter().enumerate() {
        let o = outer[i % outer.len()];
        it.push(item(format!("{}: 3-bit texel codes k<=3", f.name), move |l| {
            let fl: Vec<Field> = (0..16).map(|t| Field::full(sh + 16 + 3 * t, 3)).collect();
            for r in [0u128, u128::MAX, ramp3(1) as u128] {
                let b = o | (a | b << 8 | (r & 0xffff_ffff_ffff) << 16) << sh;
                deviations(l, b, &fl, if i < 2 { 3 } else { 2 }, &mut |l, v| check_block(l, f, v));
            }
        }));
    }
    it
}
fn alpha4_half(f: Fm) -> Vec<Item> {
    let outer: Vec<u128> = bases(4, 128, 6).into_iter().map(|b| b >> 64 << 64).collect();
    outer
        .into_iter()
        .map(|o| {
            item(format!("{}: 4-bit alpha k<=3", f.name), move |l| {
                let fl: Vec<Field> = (0..16).map(|t| Field::full(4 * t, 4)).collect();
                for b in [0u128, 0xfedcba9876543210] {
                    deviations(l, o | b, &fl, 3, &mut |l, v| check_block(l, f, v));
                }
            })
        })
        .collect()
}

pub fn s3tc(c: &Ctx) -> Vec<Item> {
    let mut it = vec![];
    for n in ["bc1", "bc1a", "bc2", "bc3"] {
        let f = fmt(n);
        let sh = if f.bytes == 16 { 64 } else { 0 };
        it.extend(colour_half(f, c, sh));
        if n == "bc2" {
            it.extend(alpha4_half(f));
        }
        if n == "bc3" {
            it.extend(rgtc_half(f, c, 0));
        }
        it.extend(generic(f, c, same));
    }
    it
}
pub fn rgtc(c: &Ctx) -> Vec<Item> {
    let mut it = vec![];
    for n in ["bc4", "bc5"] {
        let f = fmt(n);
        it.extend(rgtc_half(f, c, 0));
        if n == "bc5" {
            it.extend(rgtc_half(f, c, 64));
        }
        it.extend(generic(f, c, same));
    }
    it
}
pub fn atc(c: &Ctx) -> Vec<Item> {
    let mut it = vec![];
    let f = fmt("atc_rgb4");
    it.extend(colour_half(f, c, 0));
    it.extend(atc_method(f, 0));
    it.extend(generic(f, c, same));
    let f = fmt("atc_rgba8");
    it.extend(colour_half(f, c, 64));
    it.extend(atc_method(f, 64));
    it.extend(rgtc_half(f, c, 0));
    it.extend(generic(f, c, same));
    it
}
/// both ATC methods, every endpoint pair of each (asymmetric) channel
fn atc_method(f: Fm, sh: u32) -> Vec<Item> {
    let mut it: Vec<Item> = vec![];
    for (l0, n0, l1, n1) in [(0, 5, 16, 5), (5, 5, 21, 6), (10, 5, 27, 5)] {
        it.push(item(format!("{}: method x channel endpoint pairs (full)", f.name), move |l| {
            for hold in [0u128, 0xffffffff, 0x7bef8410, 0x12345678] {
                for r in RAMP2 {
                    product(
                        l,
                        (hold | (r as u128) << 32) << sh,
                        &[Field::full(sh + 15, 1), Field::full(sh + l0, n0), Field::full(sh + l1, n1)],
                        &mut |l, v| check_block(l, f, v),
                    );
                }
            }
        }));
    }
    it
}

// ---------------------------------------------------------------- BC7
fn set_index_pattern(v: u128, lay: &bc67::Bc7Layout, pat: u32) -> u128 {
    let mut v = v;
    for (t, &(lo, n)) in lay.idx.iter().enumerate() {
        v = setf(v, lo, n, index_value(pat, t as u32));
    }
    for (t, &(lo, n)) in lay.idx2.iter().enumerate() {
        v = setf(v, lo, n, index_value(pat ^ 1, t as u32));
    }
    v
}
fn index_value(pat: u32, t: u32) -> u128 {
    (match pat {
        0 => t,
        1 => 15 - t,
        2 => t * 3 + 1,
        3 => t * 5 + 2,
        4 => t >> 1,
        5 => 0,
        6 => 15,
        7 => t * 7 + (t >> 2),
        p => mix((p as u64) << 8 | t as u64) as u32,
    }) as u128
}
pub fn bc7(c: &Ctx) -> Vec<Item> {
    let f = fmt("bc7");
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    for mode in 0..8usize {
        let m = bc67::BC7[mode];
        let np = 1usize << m[1];
        for part in 0..np {
            // control fields in full x random bodies x index patterns
            it.push(item(format!("bc7 mode {}: control fields x bodies", mode), move |l| {
                let lay = bc67::bc7_layout(mode, part);
                let bodies = (if th { 6000 } else { 600 }) * 8 / (m[1] as usize + 2);
                for b in bases(bodies, 128, (mode * 64 + part) as u64) {
                    for rot in 0..1u128 << m[2] {
                        for sel in 0..1u128 << m[3] {
                            let mut v = setf(b, 0, mode as u32 + 1, 1 << mode);
                            v = setf(v, lay.part.0, lay.part.1, part as u128);
                            v = setf(v, lay.rot.0, lay.rot.1, rot);
                            v = setf(v, lay.sel.0, lay.sel.1, sel);
                            l.edge();
                            check_block(l, f, v);
                        }
                    }
                }
            }));
            // per-texel codes: every code at every texel, pairs of texels
            it.push(item(format!("bc7 mode {}: texel codes", mode), move |l| {
                let lay = bc67::bc7_layout(mode, part);
                for (bi, b) in bases(if th { 8 } else { 3 }, 128, 77 + (mode * 64 + part) as u64).into_iter().rev().enumerate() {
                    let mut v = setf(b, 0, mode as u32 + 1, 1 << mode);
                    v = setf(v, lay.part.0, lay.part.1, part as u128);
                    let fl: Vec<Field> = lay.idx.iter().chain(lay.idx2.iter()).map(|&(lo, n)| Field::full(lo, n)).collect();
                    let k = if bi == 0 && (np == 1 || th) { 2 } else { 1 };
                    deviations(l, v, &fl, k, &mut |l, v| check_block(l, f, v));
                }
            }));
        }
        // every endpoint pair (with p bits) of one channel of one subset, all codes present
        let ns = m[0] as usize;
        for ch in 0..4usize {
            let n = if ch == 3 { m[5] } else { m[4] };
            if n == 0 {
                continue;
            }
            let parts: Vec<usize> = if np == 1 { vec![0] } else { (0..np).step_by(if th { 4 } else { np / 4 }).collect() };
            for part in parts {
                for s in 0..ns {
                    it.push(item(format!("bc7 mode {}: channel endpoint pairs (full)", mode), move |l| {
                        let lay = bc67::bc7_layout(mode, part);
                        let (a, b) = (lay.ep[ch][2 * s], lay.ep[ch][2 * s + 1]);
                        let mut fl = vec![Field::full(a.0, a.1), Field::full(b.0, b.1)];
                        if let Some(p) = lay.p[2 * s] {
                            fl.push(Field::full(p, 1));
                        }
                        if let Some(p) = lay.p[2 * s + 1] {
                            if Some(p) != lay.p[2 * s] {
                                fl.push(Field::full(p, 1));
                            }
                        }
                        let rots = 1u128 << m[2];
                        for rot in 0..rots {
                            for sel in 0..1u128 << m[3] {
                                // quick tier: one pattern; thorough: more fills of the other fields
                                for bi in 0..if th { 4 } else { 1 } {
                                    let base = [0x9d3c_55aa_0ff0_1234_fedc_ba98_7654_3210u128, 0, u128::MAX, 0x5555_aaaa_5555_aaaa_5555_aaaa_5555_aaaa][bi];
                                    let mut v = setf(base, 0, mode as u32 + 1, 1 << mode);
                                    v = setf(v, lay.part.0, lay.part.1, part as u128);
                                    v = setf(v, lay.rot.0, lay.rot.1, rot);
                                    v = setf(v, lay.sel.0, lay.sel.1, sel);
                                    v = set_index_pattern(v, &lay, if bi & 1 == 0 { 0 } else { 1 });
                                    product(l, v, &fl, &mut |l, v| check_block(l, f, v));
                                }
                            }
                        }
                    }));
                }
            }
        }
        // deviations over all endpoint and control fields
        it.push(item(format!("bc7 mode {}: field deviations k<=2", mode), move |l| {
            for part in (0..np).step_by((np / 8).max(1)) {
                let lay = bc67::bc7_layout(mode, part);
                let mut fl: Vec<Field> = vec![];
                for ch in &lay.ep {
                    for &(lo, n) in ch {
                        if n > 0 {
                            fl.push(Field::edge(lo, n));
                        }
                    }
                }
                for x in [lay.rot, lay.sel, lay.part] {
                    if x.1 > 0 {
                        fl.push(Field::full(x.0, x.1));
                    }
                }
                let mut ps: Vec<u32> = lay.p.iter().flatten().copied().collect();
                ps.dedup();
                fl.extend(ps.into_iter().map(|p| Field::full(p, 1)));
                for (bi, b) in bases(4, 128, 3 + mode as u64).into_iter().enumerate() {
                    let mut v = setf(b, 0, mode as u32 + 1, 1 << mode);
                    v = setf(v, lay.part.0, lay.part.1, part as u128);
                    v = set_index_pattern(v, &lay, bi as u32);
                    deviations(l, v, &fl, 2, &mut |l, v| check_block(l, f, v));
                }
            }
        }));
    }
    it.push(item("bc7 reserved mode", move |l| {
        for b in bases(300, 128, 99) {
            deviations(l, b >> 8 << 8, &bit_fields(128)[8..], 1, &mut |l, v| check_block(l, f, v));
        }
    }));
    it.extend(generic(f, c, same));
    it
}

// ---------------------------------------------------------------- BC6H
pub fn bc6(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    for n in ["bc6_unsigned", "bc6_signed"] {
        let f = fmt(n);
        for (mi, m) in bc67::BC6.iter().enumerate() {
            let npart = if m.two { 32u32 } else { 1 };
            let hdr = if m.id < 2 { 2 } else { 5 };
            for part in 0..npart {
                it.push(item(format!("{} mode {}: partitions x bodies", n, m.id), move |l| {
                    let m = &bc67::BC6[mi];
                    let bodies = if m.two { 400 } else { 4000 } * if th { 10 } else { 1 };
                    for b in bases(bodies, 128, (mi * 64) as u64 + part as u64) {
                        let mut v = setf(b, 0, hdr, m.id as u128);
                        if m.two {
                            v = setf(v, 77, 5, part as u128);
                        }
                        l.edge();
                        check_block(l, f, v);
                    }
                }));
            }
            // all pairs (endpoint, delta/endpoint) of one component, all index codes present
            for ch in 0..3usize {
                let chunks = 16u32;
                for sub in 0..if m.two { 3usize } else { 1 } {
                    // sub: which of the dependent endpoints is varied against endpoint 0
                    for ck in 0..chunks {
                        it.push(item(format!("{} mode {}: component endpoint pairs", n, m.id), move |l| {
                            let m = &bc67::BC6[mi];
                            let pos = bc67::bc6_positions(m);
                            let nb0 = m.eb;
                            let nb1 = m.db[ch];
                            let idx = (0..16u32).fold(0u128, |a, t| {
                                // 3-bit stream works for either width: every code appears
                                a | (index_value(7, t) & 15) << (if m.two { 3 } else { 4 } * t)
                            }) & ((1u128 << 46) - 1);
                            // step over the base endpoint: full when affordable
                            let full = 1u32 << nb0;
                            let total = (full as u64) << nb1;
                            let limit = if th { 1u64 << 24 } else if m.two { 1 << 14 } else { 1 << 17 };
                            let step = (total / limit).max(1) as u32 | 1;
                            let step = if total <= limit { 1 } else { step };
                            let mut e0 = ck;
                            while e0 < full {
                                for d in 0..1u32 << nb1 {
                                    let mut ep = [[0x155u32, 0x2a, 0x15, 0x0b]; 3];
                                    ep[ch] = [e0, 1, 2, 3];
                                    ep[ch][sub + 1] = d;
                                    l.edge();
                                    let p = [0u32, 13, 22][sub];
                                    check_block(l, f, bc67::bc6_build(m, &pos, &ep, p, idx));
                                }
                                e0 += chunks * step;
                            }
                            // boundaries of the base endpoint are always included
                            for e0 in [0, 1, full / 2 - 1, full / 2, full / 2 + 1, full - 2, full - 1] {
                                if (e0 % chunks) != ck {
                                    continue;
                                }
                                for d in 0..1u32 << nb1 {
                                    let mut ep = [[full - 1, 0, 1, 2]; 3];
                                    ep[ch] = [e0, 1, 2, 3];
                                    ep[ch][sub + 1] = d;
                                    l.edge();
                                    check_block(l, f, bc67::bc6_build(m, &pos, &ep, 9, idx));
                                }
                            }
                        }));
                    }
                }
            }
            it.push(item(format!("{} mode {}: texel codes", n, m.id), move |l| {
                let m = &bc67::BC6[mi];
                for part in 0..if m.two { 32u32 } else { 1 } {
                    let mut at = if m.two { 82 } else { 65 };
                    let mut fl = vec![];
                    for t in 0..16u32 {
                        let anchor = t == 0 || (m.two && t == bc67::A2[part as usize] as u32);
                        let n = if m.two { 3 } else { 4 } - anchor as u32;
                        fl.push(Field::full(at, n));
                        at += n;
                    }
                    assert_eq!(at, 128);
                    for b in bases(if th { 12 } else { 5 }, 128, 5 + mi as u64) {
                        let mut v = setf(b, 0, hdr, m.id as u128);
                        if m.two {
                            v = setf(v, 77, 5, part as u128);
                        }
                        deviations(l, v, &fl, if m.two && !th { 1 } else { 2 }, &mut |l, v| check_block(l, f, v));
                    }
                }
            }));
            // header bits: every pair of header bits flipped
            it.push(item(format!("{} mode {}: header bits k<=3", n, m.id), move |l| {
                let m = &bc67::BC6[mi];
                let top = if m.two { 82 } else { 65 };
                let fl: Vec<Field> = (hdr..top).map(|i| Field::full(i, 1)).collect();
                for (i, b) in bases(if th { 60 } else { 8 }, 128, 500 + mi as u64).into_iter().enumerate() {
                    let v = setf(b, 0, hdr, m.id as u128);
                    deviations(l, v, &fl, if i < 3 { 3 } else { 2 }, &mut |l, v| check_block(l, f, v));
                }
            }));
        }
        it.push(item(format!("{} reserved modes", n), move |l| {
            for b in bases(100, 128, 99) {
                for id in [19u128, 23, 27, 31] {
                    deviations(l, setf(b, 0, 5, id), &bit_fields(128)[5..], 1, &mut |l, v| check_block(l, f, v));
                }
            }
        }));
        it.extend(generic(f, c, same));
    }
    it
}

// ---------------------------------------------------------------- ETC
fn bswap(v: u64) -> u128 {
    v.swap_bytes() as u128
}
/// all blocks obtained from `v` by setting the mode's padding bits so that the mode is selected
fn force(v: u64, want: etc::Mode, kind: etc::Kind, diff: u64) -> Vec<u64> {
    let free: &[u32] = match want {
        etc::Mode::T => &[63, 62, 61, 58],
        etc::Mode::H => &[63, 55, 54, 53, 50],
        etc::Mode::Planar => &[63, 55, 47, 46, 45, 42],
        _ => &[],
    };
    let v = v & !(1 << 33) | diff << 33;
    let mut r = vec![];
    for c in 0..1u64 << free.len() {
        let mut x = v;
        for (i, b) in free.iter().enumerate() {
            x = x & !(1u64 << b) | (c >> i & 1) << b;
        }
        if etc::mode(x as u128, kind) == want {
            r.push(x);
        }
    }
    r
}
const ETC_RAMP: [u64; 3] = [0xaaaa_5a5a, 0x3c3c_9696, 0x0ff0_a5c3];

fn etc_colour(f: Fm, kind: etc::Kind, c: &Ctx, sh: u32) -> Vec<Item> {
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    let outer: u128 = if sh == 64 { 0x0011_2233_4455_6677 } else { 0 };
    let chk = move |l: &mut Local, v: u64| {
        l.edge();
        check_block(l, f, bswap(v) << sh | outer)
    };
    let kdiff: Vec<u64> = if kind == etc::Kind::Etc2A1 { vec![0, 1] } else { vec![1] };
    // base words: one channel byte in full x control byte in full x boundary of the others
    for ch in 0..3u32 {
        it.push(item(format!("{}: channel byte x control byte (full)", f.name), move |l| {
            let fills: [u64; 9] = [0x00, 0x08, 0x84, 0xff, 0x07, 0xf3, 0x7b, 0x1c, 0xe4];
            for hold in fills {
                for hold2 in fills {
                    for b in 0..256u64 {
                        for ctl in 0..256u64 {
                            let mut w = [hold, hold2, hold ^ 0x0f];
                            w[ch as usize] = b;
                            let v = w[0] << 56 | w[1] << 48 | w[2] << 40 | ctl << 32 | ETC_RAMP[(hold & 1) as usize];
                            chk(l, v);
                        }
                    }
                }
            }
        }));
    }
    // texel index bits
    it.push(item(format!("{}: texel codes k<=2 texels", f.name), move |l| {
        for w in [0x1234_5600u64, 0xfedc_ba02, 0x8040_2003, 0x7f00_ff41, 0x04f7_0ae7, 0xf804_10c6, 0x1304_fcff, 0x80c0_84e4] {
            for r in [0u64, 0xffff_ffff, 0xaaaa_5a5a, 0x0f0f_3355] {
                for t in 0..16u64 {
                    for u in 0..t + 1 {
                        for code in 0..16u64 {
                            let mut x = r;
                            for (p, cc) in [(t, code & 3), (u, code >> 2)] {
                                x = x & !(1 << p) & !(1 << (p + 16)) | (cc & 1) << p | (cc >> 1) << (p + 16);
                            }
                            chk(l, w << 32 | x);
                        }
                    }
                }
            }
        }
        // every single low/high word
        for w in [0x1234_5600u64, 0xfedc_ba02, 0x80c0_84e7] {
            for x in 0..65536u64 {
                chk(l, w << 32 | x << 16 | 0x5a3c);
                chk(l, w << 32 | 0x5a3c << 16 | x);
            }
        }
    }));
    // individual / differential: both sub-block codewords, flip, every 2-texel neighbourhood
    it.push(item(format!("{}: channel pairs in full, both layouts", f.name), move |l| {
        for ch in 0..3 {
            for b in 0..256u64 {
                for o in [0u64, 0x55, 0xaa, 0xff, 0x80, 0x7c] {
                    for cw in 0..64u64 {
                        for low in 0..4u64 {
                            let mut w = [o; 3];
                            w[ch] = b;
                            chk(l, w[0] << 56 | w[1] << 48 | w[2] << 40 | cw << 34 | low << 32 | ETC_RAMP[2]);
                        }
                    }
                }
            }
        }
    }));
    if kind != etc::Kind::Etc1 {
        for &d in &kdiff {
            // T and H: all colour nibbles k<=3 deviations, every padding combination
            for want in [etc::Mode::T, etc::Mode::H] {
                it.push(item(format!("{}: {:?} mode, colour nibbles", f.name, want), move |l| {
                    let fields: Vec<(u32, u32)> = if want == etc::Mode::T {
                        vec![(59, 2), (56, 2), (52, 4), (48, 4), (44, 4), (40, 4), (36, 4), (34, 2), (32, 1)]
                    } else {
                        vec![(59, 4), (56, 3), (52, 1), (51, 1), (47, 3), (43, 4), (39, 4), (35, 4), (34, 1), (32, 1)]
                    };
                    let fl: Vec<Field> = fields.iter().map(|&(a, b)| Field::full(a, b)).collect();
                    for (i, b) in bases(if th { 40 } else { 10 }, 64, 8).into_iter().enumerate() {
                        let b = (b >> 32 << 32) | ETC_RAMP[i % 3] as u128;
                        let k = if i < 4 { 3 } else { 2 };
                        deviations(l, b, &fl, k, &mut |l, v| {
                            let vs = force(v as u64, want, kind, d);
                            let n = if i == 1 { vs.len() } else { 1 };
                            for x in vs.into_iter().take(n) {
                                chk(l, x);
                            }
                        });
                    }
                }));
            }
            // H: the ordering bit - equal and neighbouring colours
            it.push(item(format!("{}: H mode colour order", f.name), move |l| {
                for a in 0..4096u64 {
                    for delta in [0i64, 1, -1, 16, -16, 256, -256, 15, -15, 240, -240] {
                        let b = (a as i64 + delta) as u64 & 0xfff;
                        for s in 0..4u64 {
                            let v = (a >> 8) << 59 | (a >> 5 & 7) << 56 | (a >> 4 & 1) << 52 | (a >> 3 & 1) << 51
                                | (a & 7) << 47 | (b >> 8) << 43 | (b >> 4 & 15) << 39 | (b & 15) << 35
                                | (s >> 1) << 34 | (s & 1) << 32 | ETC_RAMP[0];
                            for x in force(v, etc::Mode::H, kind, d).into_iter().take(1) {
                                chk(l, x);
                            }
                        }
                    }
                }
            }));
            // planar: each channel's three corner values in full
            for ch in 0..3u32 {
                for part in 0..8u64 {
                    it.push(item(format!("{}: planar corner triples (full)", f.name), move |l| {
                        let n = if ch == 1 { 7 } else { 6 };
                        for hold in [0u64, 0x1555_5555_5555_5555] {
                            for o in 0..1u64 << n {
                                if o & 7 != part {
                                    continue;
                                }
                                for h in 0..1u64 << n {
                                    for w in 0..1u64 << n {
                                        let v = planar(hold, ch, o, h, w);
                                        for x in force(v, etc::Mode::Planar, kind, d).into_iter().take(1) {
                                            chk(l, x);
                                        }
                                    }
                                }
                                if ch == 1 && !th {
                                    break; // quick: one residue per part for the 7-bit channel
                                }
                            }
                        }
                    }));
                }
            }
            it.push(item(format!("{}: planar padding bits", f.name), move |l| {
                for b in bases(400, 64, 21) {
                    for x in force(b as u64, etc::Mode::Planar, kind, d) {
                        chk(l, x);
                    }
                    for x in force(b as u64, etc::Mode::T, kind, d) {
                        chk(l, x);
                    }
                    for x in force(b as u64, etc::Mode::H, kind, d) {
                        chk(l, x);
                    }
                }
            }));
        }
    }
    if th {
        for hi in 0..256u64 {
            it.push(item(format!("{}: upper word full (2^32)", f.name), move |l| {
                for lo in 0..1u64 << 24 {
                    let v = (hi << 24 | lo) << 32 | ETC_RAMP[0];
                    l.edge();
                    l.states += 1; // distinct by construction
                    let b = bswap(v) << sh | outer;
                    check_block_now(l, f, &b.to_le_bytes()[..f.bytes]);
                }
            }));
        }
    }
    it
}
/// planar block with channel `ch` corners (o,h,w) and the other channels taken from `hold`
fn planar(hold: u64, ch: u32, o: u64, h: u64, w: u64) -> u64 {
    let put = |v: u64, lo: u32, n: u32, x: u64| v & !(((1 << n) - 1) << lo) | (x & ((1 << n) - 1)) << lo;
    match ch {
        0 => {
            let v = put(hold, 57, 6, o);
            let v = put(v, 34, 5, h >> 1);
            let v = put(v, 32, 1, h);
            put(v, 13, 6, w)
        }
        1 => {
            let v = put(hold, 56, 1, o >> 6);
            let v = put(v, 49, 6, o);
            let v = put(v, 25, 7, h);
            put(v, 6, 7, w)
        }
        _ => {
            let v = put(hold, 48, 1, o >> 5);
            let v = put(v, 43, 2, o >> 3);
            let v = put(v, 39, 3, o);
            let v = put(v, 19, 6, h);
            put(v, 0, 6, w)
        }
    }
}
/// EAC-coded half at little-endian bit offset `sh` (0 or 64)
fn eac_half(f: Fm, c: &Ctx, sh: u32) -> Vec<Item> {
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    let outers: Vec<u128> = if f.bytes == 8 {
        vec![0]
    } else {
        let keep = !(((1u128 << 64) - 1) << sh);
        bases(6, 128, 6).into_iter().map(|b| b & keep).collect()
    };
    for r in 0..if th { 8u64 } else { 4 } {
        let o = outers[r as usize % outers.len()];
        it.push(item(format!("{}: base x multiplier x table (full)", f.name), move |l| {
            let idx = (0..16).fold(0u64, |a, t| a | ((t * 5 + r) & 7) << (45 - 3 * t));
            for hd in 0..65536u64 {
                l.edge();
                check_block(l, f, o | bswap(hd << 48 | idx) << sh);
            }
        }));
    }
    for (i, hd) in [0x8000u64, 0x80f3, 0x7f10, 0x001d, 0xff2e, 0x4077, 0x00ff, 0xc1a0].into_iter().enumerate() {
        let o = outers[i % outers.len()];
        it.push(item(format!("{}: EAC texel codes k<=3", f.name), move |l| {
            let fl: Vec<Field> = (0..16).map(|t| Field::full(3 * t, 3)).collect();
            for r in [0u128, 0xffff_ffff_ffff, 0x0539_7753_1fac] {
                deviations(l, (hd as u128) << 48 | r, &fl, if i < 2 || th { 3 } else { 2 }, &mut |l, v| {
                    check_block(l, f, o | bswap(v as u64) << sh)
                });
            }
        }));
    }
    it
}
pub fn etc_rgb(c: &Ctx) -> Vec<Item> {
    let mut it = vec![];
    let f = fmt("etc1");
    it.extend(etc_colour(f, etc::Kind::Etc1, c, 0));
    it.extend(generic(f, c, same));
    let f = fmt("etc2_rgb");
    it.extend(etc_colour(f, etc::Kind::Etc2, c, 0));
    it.extend(generic(f, c, same));
    it
}
pub fn etc_alpha(c: &Ctx) -> Vec<Item> {
    let mut it = vec![];
    let f = fmt("etc2_rgba1");
    it.extend(etc_colour(f, etc::Kind::Etc2A1, c, 0));
    it.extend(generic(f, c, same));
    let f = fmt("etc2_rgba8");
    it.extend(etc_colour(f, etc::Kind::Etc2, c, 64));
    it.extend(eac_half(f, c, 0));
    it.extend(generic(f, c, same));
    it
}
pub fn eac(c: &Ctx) -> Vec<Item> {
    let mut it = vec![];
    for f in &EXTRA {
        it.extend(eac_half(f, c, 0));
    }
    for n in ["eacr", "eacr_signed", "eacrg", "eacrg_signed"] {
        let f = fmt(n);
        it.extend(eac_half(f, c, 0));
        if f.bytes == 16 {
            it.extend(eac_half(f, c, 64));
        }
        it.extend(generic(f, c, same));
    }
    it
}
