//! C13 (raster composition), C14 (buffer contract), C21 (no-alloc build), C22 (wrappers).
use crate::engine::*;
use crate::images::*;
use crate::refs::astc::FOOTPRINTS;
use std::sync::Arc;
use texture2ddecoder as t2d;

type R = Result<(), &'static str>;

// ------------------------------------------------------------------ C13
fn compose(i: &Img, data: &[u8], w: usize, h: usize) -> Result<Vec<u32>, String> {
    let (nx, ny) = (w.div_ceil(i.bw), h.div_ceil(i.bh));
    let mut out = vec![0u32; w * h];
    for by in 0..ny {
        for bx in 0..nx {
            let mut b = [START; 144];
            let o = (by * nx + bx) * i.bytes;
            let d = &data[o..o + i.bytes];
            budget(0);
            guard(&|| Case::new("oneblock").kv("image", i.name).hex("data", d), || i.block(d, &mut b))?;
            for y in by * i.bh..((by + 1) * i.bh).min(h) {
                for x in bx * i.bw..((bx + 1) * i.bw).min(w) {
                    out[y * w + x] = b[(y - by * i.bh) * i.bw + x - bx * i.bw];
                }
            }
        }
    }
    Ok(out)
}
fn diff(got: &[u32], exp: &[u32], w: usize) -> Result<(), String> {
    for (k, (g, e)) in got.iter().zip(exp).enumerate() {
        if g != e {
            return Err(format!("pixel ({},{}): expected {:08x} got {:08x}", k % w, k / w, e, g));
        }
    }
    if got[exp.len()..].iter().any(|p| *p != JUNK) {
        return Err("wrote behind the image".into());
    }
    Ok(())
}
/// call through the named decoder; the block size is explicit for ASTC's general function
fn raster(i: &Img, general: bool, data: &[u8], w: usize, h: usize, case: &dyn Fn() -> Case) -> Result<u64, String> {
    let mut img = vec![JUNK; w * h + 3];
    budget(0);
    let r: R = guard(case, || {
        if general {
            t2d::decode_astc(data, w, h, i.bw, i.bh, &mut img)
        } else {
            (i.call)(data, w, h, &mut img)
        }
    })?;
    if let Err(e) = r {
        return Err(format!("refused: {}", e));
    }
    let exp = compose(i, data, w, h)?;
    diff(&img, &exp, w)?;
    Ok(exp.iter().fold(0, |a, p| hash2(a, *p as u64)))
}
fn raster_case(i: &Img, general: bool, seed: &str, w: usize, h: usize, data: &[u8]) -> Case {
    let c = Case::new("raster").kv("image", i.name).kv("general", general as u8).kv("bw", i.bw).kv("bh", i.bh).kv("width", w).kv("height", h);
    if data.len() <= 4096 { c.hex("data", data) } else { c.kv("fill", seed) }
}
fn check_raster(l: &mut Local, i: &Img, general: bool, w: usize, h: usize, data: &[u8], fill: u64) {
    l.edge();
    if !l.fresh(hash_bytes(hash2(hash2(i.bw as u64 * 64 + i.bh as u64, hash_bytes(0, i.name.as_bytes())), (w as u64) << 32 | h as u64), data)) {
        return;
    }
    l.trace();
    let s = fill.to_string();
    let c = || raster_case(i, general, &s, w, h, data);
    match raster(i, general, data, w, h, &c) {
        Ok(o) => {
            l.outcome(o);
            l.sample(|| format!("{} {}x{} ({} blocks) equals its blocks", i.name, w, h, i.nblocks(w, h)));
        }
        Err(e) => l.violation(c(), e),
    }
}
/// contents made of distinct blocks, or of two alternating ones, or equal except one
fn fill(i: &Img, n: usize, kind: u64) -> Vec<u8> {
    (0..n as u64)
        .flat_map(|k| match kind % 3 {
            0 => sample_block(i, k + kind * 7919),
            1 => sample_block(i, (k & 1) + kind),
            _ => sample_block(i, (k % 251 == kind % 251) as u64 + 40),
        })
        .collect()
}
pub fn replay_raster(c: &Case) -> Result<String, String> {
    let mut i = find(c.get("image"));
    (i.bw, i.bh) = (c.num("bw"), c.num("bh"));
    let (w, h) = (c.num("width"), c.num("height"));
    let data = if c.get("data").is_empty() { fill(&i, i.nblocks(w, h), c.num("fill") as u64) } else { c.bytes("data") };
    raster(&i, c.num("general") == 1, &data, w, h, &|| c.clone()).map(|o| format!("hash {:x}", o))
}
pub fn raster_items(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it = vec![];
    for i in all() {
        if i.class == Class::Pvrtc {
            continue;
        }
        let (mw, mh) = if th { (6 * i.bw + 1, 6 * i.bh + 1) } else { (3 * i.bw + 1, 3 * i.bh + 1) };
        for h in 1..=mh {
            it.push(item(format!("{}: all sizes", i.name), move |l| {
                for w in 1..=mw {
                    for k in 0..if th { 9 } else { 3 } {
                        check_raster(l, &i, false, w, h, &fill(&i, i.nblocks(w, h), k), k);
                    }
                }
            }));
        }
        // what one block leaves behind must not reach the next: all ordered pairs of special blocks
        it.push(item(format!("{}: ordered block pairs", i.name), move |l| {
            let a = alphabet(&i, if th { 60 } else { 16 });
            for x in &a {
                for y in &a {
                    let d = [x.as_slice(), y].concat();
                    check_raster(l, &i, false, 2 * i.bw, i.bh, &d, 0);
                    check_raster(l, &i, false, i.bw, 2 * i.bh, &d, 0);
                    check_raster(l, &i, false, i.bw + 1, 1, &d, 0);
                }
            }
        }));
        // a block, one that differs from it as little as possible, the first again, another one in
        // between: what a decoder remembers of a block must tell it from every other block
        for (k, x) in alphabet(&i, if th { 24 } else { 8 }).into_iter().enumerate() {
            it.push(item(format!("{}: blocks and their nearest neighbours", i.name), move |l| {
                let n = i.bytes;
                let other = sample_block(&i, 5 + k as u64);
                let put = |l: &mut Local, y: &[u8]| {
                    let d = [&x, y, &x, &other, y].concat();
                    check_raster(l, &i, false, 5 * i.bw, i.bh, &d, 0);
                    check_raster(l, &i, false, i.bw, 5 * i.bh, &d, 0);
                };
                let mut y = x.clone();
                for b in 0..8 * n {
                    y[b / 8] ^= 1 << (b % 8);
                    put(l, &y);
                    // two bits: in two bytes, in two words, anywhere
                    for c in b + 1..8 * n {
                        if th || (c - b) % 8 == 0 || k < 2 {
                            y[c / 8] ^= 1 << (c % 8);
                            put(l, &y);
                            y[c / 8] ^= 1 << (c % 8);
                        }
                    }
                    y[b / 8] ^= 1 << (b % 8);
                }
                for i in 0..n {
                    for v in [0x0f, 0xf0, 0xff, 0x3c, 0xa5] {
                        y[i] ^= v;
                        put(l, &y);
                        y[i] ^= v;
                    }
                    for j in i + 1..n {
                        y.swap(i, j);
                        put(l, &y);
                        y.swap(i, j);
                    }
                }
                for z in [2, 4, 8] {
                    for i in (0..n).step_by(z).filter(|i| i + 2 * z <= n) {
                        let mut y = x.clone();
                        y[i..i + 2 * z].rotate_left(z);
                        put(l, &y);
                        for j in i..i + z {
                            y[j] = !x[j];
                        }
                        put(l, &y);
                    }
                }
            }));
        }
        // widths and heights across byte and power-of-two boundaries, strips
        it.push(item(format!("{}: strips", i.name), move |l| {
            for n in (1..=300).chain([509, 510, 511, 512, 513, 1021, 1023, 1024, 1025, 2047, 2049, 4093, 4096, 4099]) {
                for m in [1, i.bh, i.bh + 1] {
                    check_raster(l, &i, false, n, m, &fill(&i, i.nblocks(n, m), 0), 0);
                    check_raster(l, &i, false, m, n, &fill(&i, i.nblocks(m, n), 0), 0);
                }
            }
            for (w, h) in [(70001, 1), (1, 70001), (65537, 3), (3, 65537), (257, 259), (131, 517)] {
                for k in [0, 2] {
                    check_raster(l, &i, false, w, h, &fill(&i, i.nblocks(w, h), k), k);
                }
            }
        }));
        it.push(item(format!("{}: large images", i.name), move |l| {
            for (w, h) in [(1 << 20, 2), (2, 1 << 20), (2049, 1025), (1024, 2048), (4099, 4100)] {
                for k in 0..if th { 3 } else { 1 } {
                    check_raster(l, &i, false, w, h, &fill(&i, i.nblocks(w, h), k), k);
                }
            }
        }));
        // every block position of an 8x8 grid distinguished in turn
        it.push(item(format!("{}: one differing block", i.name), move |l| {
            let (x, y) = (sample_block(&i, 1), sample_block(&i, 2));
            for (nx, ny) in [(8usize, 8usize), (1, 16), (16, 1), (5, 3), (3, 7)] {
                for p in 0..nx * ny {
                    let d: Vec<u8> = (0..nx * ny).flat_map(|k| if k == p { x.clone() } else { y.clone() }).collect();
                    check_raster(l, &i, false, nx * i.bw - 1, ny * i.bh - 1, &d, 0);
                }
            }
        }));
    }
    // ASTC's general function with any block size the decoder takes
    for bw in 2..=12usize {
        it.push(item("astc: general function, all block sizes", move |l| {
            for bh in 2..=12usize {
                let mut i = find("astc_4_4");
                (i.bw, i.bh) = (bw, bh);
                for w in 1..=2 * bw + 1 {
                    for h in 1..=2 * bh + 1 {
                        check_raster(l, &i, true, w, h, &fill(&i, i.nblocks(w, h), 0), 0);
                    }
                }
            }
        }));
    }
    it
}

// ------------------------------------------------------------------ C14
#[derive(Clone, Copy)]
struct Args {
    w: usize,
    h: usize,
    dlen: usize,
    ilen: usize,
}
fn contract(i: &Img, a: Args, block: u64, reference: &mut Option<Vec<u32>>, case: &dyn Fn() -> Case) -> Result<u64, String> {
    let need = i.need(a.w, a.h);
    let pix = a.w.saturating_mul(a.h);
    let mut data: Vec<u8> = vec![];
    while data.len() < a.dlen.min(need) {
        data.extend(sample_block(i, block + (data.len() / i.bytes) as u64));
    }
    data.truncate(a.dlen.min(need));
    data.resize(a.dlen, 0xa5);
    let keep = data.clone();
    let mut img = vec![JUNK; a.ilen];
    budget(if i.class == Class::Pvrtc { super::memory::pvrtc(a.dlen) } else { 0 });
    let r: R = guard(case, || (i.call)(&data, a.w, a.h, &mut img))?;
    if keep != data {
        return Err("the encoded input was changed".into());
    }
    let untouched = img.iter().all(|p| *p == JUNK);
    let short = a.dlen < need || a.ilen < pix;
    match r {
        Err(_) if !untouched => Err("returned an error after writing to the image".into()),
        Err(_) if short || !i.defined(a.w, a.h) => Ok(1),
        // an empty image of a degenerate grid is neither here nor there
        Err(_) if pix == 0 && i.class == Class::Pvrtc => Ok(2),
        Err(e) => Err(format!("sufficient buffers refused: {}", e)),
        Ok(()) if a.dlen < need => Err(format!("{} bytes accepted where {} are needed", a.dlen, need)),
        Ok(()) if a.ilen < pix => Err(format!("image of {} accepted where {} are needed", a.ilen, pix)),
        Ok(()) if !i.defined(a.w, a.h) => Err("undefined block grid accepted".into()),
        Ok(()) => {
            if img[pix..].iter().any(|p| *p != JUNK) {
                return Err("wrote behind width*height".into());
            }
            match reference {
                None => *reference = Some(img[..pix].to_vec()),
                Some(e) if *e != img[..pix] => return Err("data or image length changes the decoded pixels".into()),
                _ => {}
            }
            if pix > 0 && block == 1 && img[..pix].contains(&JUNK) {
                return Err("a pixel was not written".into());
            }
            Ok(hash2(3, img.first().copied().unwrap_or(0) as u64))
        }
    }
}
fn contract_case(i: &Img, a: Args, block: u64) -> Case {
    Case::new("contract").kv("image", i.name).kv("width", a.w).kv("height", a.h).kv("data_len", a.dlen).kv("image_len", a.ilen).kv("block", block)
}
fn check_contract(l: &mut Local, i: &Img, a: Args, block: u64, reference: &mut Option<Vec<u32>>) {
    l.edge();
    let k = hash_bytes(0, i.name.as_bytes());
    if !l.fresh(hash2(hash2(hash2(k, a.w as u64), hash2(a.h as u64, block)), hash2(a.dlen as u64, a.ilen as u64))) {
        return;
    }
    l.trace();
    let c = || contract_case(i, a, block);
    match contract(i, a, block, reference, &c) {
        Ok(o) => {
            l.outcome(o);
            l.sample(|| format!("{} -> {}", c().identity(), o))
        }
        Err(e) => l.violation(c(), e),
    }
}
/// The same contract for the Crunch decoders, whose block data are what a valid file describes: `blocks`
/// blocks of it, however wide and high the header says the texture is.
fn crn_contract(unity: bool, format: u8, file: &[u8], nblocks: usize, a: Args, reference: &mut Option<Vec<u32>>, case: &dyn Fn() -> Case) -> Result<u64, String> {
    let blocks = a.w.div_ceil(4).saturating_mul(a.h.div_ceil(4));
    let pix = a.w.saturating_mul(a.h);
    let mut img = vec![JUNK; a.ilen];
    budget(super::memory::crunch(file));
    let r: R = guard(case, || super::crunch::decoder(unity)(file, a.w, a.h, &mut img))?;
    match r {
        Err(_) if img.iter().any(|p| *p != JUNK) => Err(format!("format {}: returned an error after writing to the image", format)),
        Err(_) if blocks > nblocks || a.ilen < pix => Ok(1),
        Err(e) => Err(format!("sufficient buffers refused: {}", e)),
        Ok(()) if blocks > nblocks => Err(format!("{} blocks accepted where {} are needed", nblocks, blocks)),
        Ok(()) if a.ilen < pix => Err(format!("image of {} accepted where {} are needed", a.ilen, pix)),
        Ok(()) if img[pix..].iter().any(|p| *p != JUNK) => Err("wrote behind width*height".into()),
        Ok(()) => {
            match reference {
                None => *reference = Some(img[..pix].to_vec()),
                Some(e) if *e != img[..pix] => return Err("image length changes the decoded pixels".into()),
                _ => {}
            }
            if img[..pix].contains(&JUNK) {
                return Err("a pixel was not written".into());
            }
            Ok(hash2(3, img.first().copied().unwrap_or(0) as u64))
        }
    }
}
pub fn replay_crn_contract(c: &Case) -> Result<String, String> {
    let (p, seed, zero, over) = super::crunch::from_case(c);
    let (f, _) = super::crunch::Spec { p: &p, seed, zero, over: &over }.build();
    let n = f.bx * f.by * p.faces;
    let (w, h) = (c.num("want_width"), c.num("want_height"));
    let mut reference = None;
    let pix = w.saturating_mul(h);
    if pix <= c.num("image_len") {
        crn_contract(p.unity, p.fmt, &f.bytes, n, Args { w, h, dlen: 0, ilen: pix }, &mut reference, &|| c.clone())?;
    }
    crn_contract(p.unity, p.fmt, &f.bytes, n, Args { w, h, dlen: 0, ilen: c.num("image_len") }, &mut reference, &|| c.clone()).map(|o| format!("as documented ({})", o))
}
fn crn_contract_items(th: bool) -> Vec<Item> {
    use crate::refs::crunch::*;
    let mut it = vec![];
    for (unity, formats) in [(false, &CRUNCH_FORMATS[..]), (true, &UNITY_FORMATS[..])] {
        for &f in formats {
            it.push(item(format!("{} format {}: requested sizes x image lengths", if unity { "unity" } else { "crunch" }, f), move |l| {
                for (w0, h0, faces) in [(8usize, 8usize, 1usize), (13, 5, 1), (4, 4, 6), (20, 12, 2)] {
                    let mut p = Params::new(unity, f, w0, h0, faces);
                    p.num = [3; 4];
                    let spec = super::crunch::Spec { p: &p, seed: 40, zero: 0, over: &[] };
                    let (file, _) = spec.build();
                    let n = file.bx * file.by * faces;
                    let mut go = |l: &mut Local, w: usize, h: usize, ilen: usize, reference: &mut Option<Vec<u32>>| {
                        l.edge();
                        if !l.fresh(hash_bytes(hash2(hash2(w as u64, h as u64), hash2(ilen as u64, unity as u64)), &file.bytes)) {
                            return;
                        }
                        l.trace();
                        let c = || spec.case("crncontract").kv("want_width", w).kv("want_height", h).kv("image_len", ilen);
                        match crn_contract(unity, f, &file.bytes, n, Args { w, h, dlen: 0, ilen }, reference, &c) {
                            Ok(o) => l.outcome(hash2(o, f as u64)),
                            Err(e) => l.violation(c(), e),
                        }
                    };
                    let m: usize = if th { 64 } else { 26 };
                    for w in 0..=m {
                        for h in 0..=m {
                            let pix: usize = w * h;
                            let mut reference = None;
                            for ilen in [pix, pix + 1, pix + 17, pix.saturating_sub(1), pix.saturating_sub(w), pix / 2, 0] {
                                go(l, w, h, ilen, &mut reference);
                            }
                        }
                    }
                    for w in 0..=4 * n + 4 {
                        for h in [1usize, 2, 4, 5] {
                            for (w, h) in [(w, h), (h, w)] {
                                go(l, w, h, w * h, &mut None);
                                go(l, w, h, (w * h).saturating_sub(1), &mut None);
                            }
                        }
                    }
                    for e in [15u32, 16, 29, 30, 31, 32, 33, 61, 62, 63] {
                        for d in [-1i64, 0, 1, 4] {
                            let big = (1usize << e).wrapping_add(d as usize);
                            for o in [0usize, 1, 4, 5, big] {
                                for (w, h) in [(big, o), (o, big)] {
                                    go(l, w, h, 64, &mut None);
                                    go(l, w, h, 0, &mut None);
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    it
}
pub fn replay_contract(c: &Case) -> Result<String, String> {
    let i = find(c.get("image"));
    let (w, h) = (c.num("width"), c.num("height"));
    let mut reference = None;
    let a = Args { w, h, dlen: c.num("data_len"), ilen: c.num("image_len") };
    let pix = w.saturating_mul(h);
    if i.need(w, h) <= a.dlen && pix <= a.ilen {
        contract(&i, Args { w, h, dlen: i.need(w, h), ilen: pix }, c.num("block") as u64, &mut reference, &|| c.clone())?;
    }
    contract(&i, a, c.num("block") as u64, &mut reference, &|| c.clone()).map(|o| format!("as documented ({})", o))
}
pub fn contract_items(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it = crn_contract_items(th);
    for i in all() {
        let (mw, mh) = if th { (4 * i.bw + 2, 4 * i.bh + 2) } else { (2 * i.bw + 2, 2 * i.bh + 2) };
        for h in 0..=mh {
            it.push(item(format!("{}: sizes x data lengths x image lengths", i.name), move |l| {
                for w in 0..=mw {
                    let (need, pix) = (i.need(w, h), w * h);
                    let mut reference = None;
                    let mut go = |l: &mut Local, dlen, ilen| check_contract(l, &i, Args { w, h, dlen, ilen }, 1, &mut reference);
                    go(l, need, pix);
                    // every data length with an exact image, every image length with exact data
                    for d in 0..=need + 2 * i.bytes + 1 {
                        go(l, d, pix);
                    }
                    // an image shorter by rows, columns or a single pixel; longer ones
                    let step = if th || pix < 80 { 1 } else { 3 };
                    for n in (0..pix.saturating_sub(2 * w)).step_by(step).chain(pix.saturating_sub(2 * w)..=pix + i.bw * i.bh + 1) {
                        go(l, need, n);
                    }
                    // both around their thresholds
                    for d in need.saturating_sub(2)..need + 3 {
                        for n in pix.saturating_sub(2)..pix + 3 {
                            go(l, d, n);
                        }
                    }
                    go(l, 0, 0);
                }
            }));
        }
        // larger sizes at the threshold
        it.push(item(format!("{}: thresholds of larger sizes", i.name), move |l| {
            let big: Vec<usize> = vec![1, i.bw - 1, i.bw, i.bw + 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512];
            let wide = [(65535usize, 1usize), (65536, 1), (65537, 1), (65537, 5), (70001, 3), (257, 256), (1 << 18, 4), (4097, 17), (1000, 1000)];
            let wide = wide.into_iter().flat_map(|(a, b)| [(a, b), (b, a)]);
            for (w, h) in big.iter().flat_map(|w| big.iter().map(|h| (*w, *h))).chain(wide) {
                {
                    if w * h > 300_000 && w < 600 && !th {
                        continue;
                    }
                    let (need, pix) = (i.need(w, h), w * h);
                    let mut reference = None;
                    for (d, n) in [(need, pix), (need - 1, pix), (need, pix - 1), (need + 1, pix + 1), (need - i.bytes, pix), (need - 1, pix - 1), (need / 2, pix), (need, pix / 2), (0, pix), (need, 0), (pix / 2, pix)] {
                        check_contract(l, &i, Args { w, h, dlen: d, ilen: n }, 1, &mut reference);
                    }
                }
            }
        }));
        // sizes whose products do not fit
        it.push(item(format!("{}: overflowing sizes", i.name), move |l| {
            let mut big = vec![];
            for e in [16u32, 29, 30, 31, 32, 33, 48, 60, 61, 62, 63] {
                for d in [-1i64, 0, 1] {
                    big.push((1usize << e).wrapping_add(d as usize));
                    big.push((1usize << e).wrapping_add((d * i.bw as i64) as usize));
                }
            }
            big.extend([usize::MAX, usize::MAX - 1, usize::MAX - i.bw, usize::MAX / 2, usize::MAX / 3, 0x5555_5555_5555_5556]);
            for &w in &big {
                for &h in big.iter().chain(&[1, 2, 3, 4, 5, 8, 16, 17]) {
                    for (w, h) in [(w, h), (h, w)] {
                        if w.max(h) < 1 << 29 {
                            continue;
                        }
                        for (d, n) in [(0, 0), (64, 64), (256, 1000)] {
                            check_contract(l, &i, Args { w, h, dlen: d, ilen: n }, 2, &mut None);
                        }
                    }
                }
                // one zero dimension: nothing to do, however long the other one
                check_contract(l, &i, Args { w, h: 0, dlen: 0, ilen: 0 }, 2, &mut None);
                check_contract(l, &i, Args { w, h: 0, dlen: 40, ilen: 40 }, 2, &mut None);
            }
        }));
    }
    it
}

// ------------------------------------------------------------------ C21 and C22
/// two callables that must agree: results, pixels and untouched rest
pub struct Pair {
    pub name: String,
    pub shape: Img, // block shape and sample blocks
    pub a: Arc<dyn Fn(&[u8], usize, usize, &mut [u32]) -> R + Send + Sync>,
    pub b: Arc<dyn Fn(&[u8], usize, usize, &mut [u32]) -> R + Send + Sync>,
}
fn agree(p: &Pair, w: usize, h: usize, data: &[u8], ilen: usize, case: &dyn Fn() -> Case) -> Result<u64, String> {
    let mut x = vec![JUNK; ilen];
    let mut y = x.clone();
    let r = guard(case, || (p.a)(data, w, h, &mut x));
    let s = guard(case, || (p.b)(data, w, h, &mut y));
    if r != s {
        return Err(format!("results differ: {:?} and {:?}", r, s));
    }
    if let Some(k) = (0..ilen).find(|&k| x[k] != y[k]) {
        return Err(format!("pixel {} differs: {:08x} and {:08x}", k, x[k], y[k]));
    }
    Ok(x.iter().fold(r.is_ok() as u64, |a, p| hash2(a, *p as u64)))
}
fn check_pair(l: &mut Local, kind: &str, p: &Pair, w: usize, h: usize, data: &[u8], ilen: usize) {
    l.edge();
    if !l.fresh(hash_bytes(hash2(hash_bytes(w as u64, p.name.as_bytes()), (h as u64) << 32 | ilen as u64), data)) {
        return;
    }
    l.trace();
    let c = || Case::new(kind).kv("pair", &p.name).kv("width", w).kv("height", h).kv("image_len", ilen).hex("data", data);
    match agree(p, w, h, data, ilen, &c) {
        Ok(o) => {
            l.outcome(o);
            l.sample(|| format!("{} {}x{} image {} data {} agree", p.name, w, h, ilen, data.len()))
        }
        Err(e) => l.violation(c(), e),
    }
}
pub fn replay_pair(c: &Case, ps: Vec<Pair>) -> Result<String, String> {
    let p = ps.iter().find(|p| p.name == c.get("pair")).ok_or("no such pair in this build")?;
    agree(p, c.num("width"), c.num("height"), &c.bytes("data"), c.num("image_len"), &|| c.clone()).map(|o| format!("agree {:x}", o))
}
fn single_block(i: Img) -> impl Fn(&[u8], usize, usize, &mut [u32]) -> R + Send + Sync {
    move |d, _, _, o| {
        i.block(d, o);
        Ok(())
    }
}
pub fn wrappers() -> Vec<Pair> {
    let mut v = vec![];
    for i in all() {
        match i.class {
            Class::Astc => v.push(Pair {
                name: format!("{} = decode_astc({},{})", i.name, i.bw, i.bh),
                shape: i,
                a: Arc::new(i.call),
                b: Arc::new(move |d, w, h, o| t2d::decode_astc(d, w, h, i.bw, i.bh, o)),
            }),
            Class::Pvrtc => v.push(Pair {
                name: format!("{} = decode_pvrtc", i.name),
                shape: i,
                a: Arc::new(i.call),
                b: Arc::new(move |d, w, h, o| t2d::decode_pvrtc(d, w, h, o, i.bw == 8)),
            }),
            Class::Plain(_) => {}
        }
    }
    for signed in [true, false] {
        let i = find(if signed { "bc6_signed" } else { "bc6_unsigned" });
        v.push(Pair {
            name: format!("{} = decode_bc6({})", i.name, signed),
            shape: i,
            a: Arc::new(i.call),
            b: Arc::new(move |d, w, h, o| t2d::decode_bc6(d, w, h, o, signed)),
        });
        v.push(Pair {
            name: format!("{} block = decode_bc6_block({})", i.name, signed),
            shape: i,
            a: Arc::new(single_block(i)),
            b: Arc::new(move |d, _, _, o| {
                t2d::decode_bc6_block(d, o, signed);
                Ok(())
            }),
        });
    }
    // the two-channel and alpha formats are made of the single-channel block functions
    let chan = |name: &str, f: fn(&[u8], &mut [u32])| Pair {
        name: format!("{} block = its channel blocks", name),
        shape: find(name),
        a: Arc::new(single_block(find(name))),
        b: Arc::new(move |d, _, _, o| {
            f(d, o);
            Ok(())
        }),
    };
    v.push(chan("eacr", |d, o| {
        o[..16].fill(START);
        t2d::decode_eac_block(d, 2, o)
    }));
    v.push(chan("eacr_signed", |d, o| {
        o[..16].fill(START);
        t2d::decode_eac_signed_block(d, 2, o)
    }));
    v.push(chan("eacrg", |d, o| {
        o[..16].fill(START);
        t2d::decode_eac_block(d, 2, o);
        t2d::decode_eac_block(&d[8..], 1, o)
    }));
    v.push(chan("eacrg_signed", |d, o| {
        o[..16].fill(START);
        t2d::decode_eac_signed_block(d, 2, o);
        t2d::decode_eac_signed_block(&d[8..], 1, o)
    }));
    v.push(chan("etc2_rgba8", |d, o| {
        t2d::decode_etc2_rgb_block(&d[8..], o);
        t2d::decode_etc2_a8_block(d, o)
    }));
    v
}
pub fn builds() -> Option<Vec<Pair>> {
    let b = all_noalloc()?;
    Some(
        all()
            .into_iter()
            .zip(b)
            .map(|(x, y)| Pair { name: format!("{} without allocator", x.name), shape: x, a: Arc::new(x.call), b: Arc::new(y.call) })
            .collect(),
    )
}
/// Explore a pair over sizes, contents and buffer lengths.
pub fn pair_items(c: &Ctx, kind: &'static str, pairs: Vec<Pair>, deep: bool) -> Vec<Item> {
    let th = c.thorough();
    let mut it = vec![];
    for p in pairs {
        let p = Arc::new(p);
        let i = p.shape;
        let block = p.name.contains("block");
        if block {
            let q = p.clone();
            it.push(item(p.name.clone(), move |l| {
                for (k, b) in crate::props::blocks::bases(if th { 400 } else { 60 }, 8 * i.bytes as u32, 61).into_iter().enumerate() {
                    let bits = 8 * i.bytes as u32;
                    deviations(l, b, &bit_fields(bits), if k < 3 { 2 } else { 1 }, &mut |l, v| {
                        check_pair(l, kind, &q, 4, 4, &v.to_le_bytes()[..i.bytes], 20)
                    });
                    deviations(l, b, &byte_fields(i.bytes as u32), 1, &mut |l, v| {
                        check_pair(l, kind, &q, 4, 4, &v.to_le_bytes()[..i.bytes], 20)
                    });
                }
            }));
            continue;
        }
        let (mw, mh) = if th { (4 * i.bw + 2, 4 * i.bh + 2) } else { (2 * i.bw + 2, 2 * i.bh + 2) };
        for h in 0..=mh {
            let q = p.clone();
            it.push(item(format!("{}: sizes x lengths", p.name), move |l| {
                for w in 0..=mw {
                    let d = fill(&i, i.nblocks(w, h), 0);
                    for n in [w * h, w * h + 5, (w * h).saturating_sub(1), (w * h) / 2, 0] {
                        check_pair(l, kind, &q, w, h, &d, n);
                    }
                    for cut in [1, i.bytes, d.len() / 2, d.len()] {
                        check_pair(l, kind, &q, w, h, &d[..d.len().saturating_sub(cut)], w * h);
                    }
                    let mut longer = d.clone();
                    longer.extend([0xc3; 21]);
                    check_pair(l, kind, &q, w, h, &longer, w * h + 1);
                }
            }));
        }
        // strips and larger images, and what lies next to each other
        let q = p.clone();
        it.push(item(format!("{}: strips and large images", p.name), move |l| {
            let strips = (1..=300usize).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 1 << 18]);
            let pow2 = i.class == Class::Pvrtc;
            for n in strips {
                for m in [1, i.bh + 1, 4 * i.bw] {
                    for (w, h) in [(n, m), (m, n)] {
                        if n > 300 && m == 4 * i.bw && !th && n % 5 > 0 {
                            continue;
                        }
                        check_pair(l, kind, &q, w, h, &fill(&i, i.nblocks(w, h), 0), w * h);
                    }
                }
            }
            for e in 0..if th { 22 } else { 18 } {
                for f in [0, 1, 2, 5, 8] {
                    for (w, h) in [(i.bw << e, i.bh << f), (i.bw << f, i.bh << e)] {
                        if (pow2 || e < 10) && (w * h < 1 << 21 || th && w * h < 1 << 24) {
                            check_pair(l, kind, &q, w, h, &fill(&i, i.nblocks(w, h), 1), w * h);
                        }
                    }
                }
            }
            for (w, h) in [(257, 259), (131, 517), (1025, 1027), (2048, 1024)] {
                for k in 0..3 {
                    check_pair(l, kind, &q, w, h, &fill(&i, i.nblocks(w, h), k), w * h);
                }
            }
        }));
        let q = p.clone();
        it.push(item(format!("{}: ordered block pairs", p.name), move |l| {
            let a = alphabet(&i, if th { 40 } else { 12 });
            for x in &a {
                for y in &a {
                    let d = [x.as_slice(), y].concat();
                    check_pair(l, kind, &q, 2 * i.bw, i.bh, &d, 2 * i.bw * i.bh);
                    check_pair(l, kind, &q, i.bw, 2 * i.bh, &d, 2 * i.bw * i.bh);
                }
            }
        }));
        let q = p.clone();
        it.push(item(format!("{}: overflowing sizes", p.name), move |l| {
            for w in [1usize, 5, 1 << 31, 1 << 32, 1 << 61, 1 << 62, 1 << 63, usize::MAX, usize::MAX - 3] {
                for h in [1usize, 5, 1 << 31, 1 << 32, 1 << 61, 1 << 62, 1 << 63, usize::MAX, usize::MAX - 3] {
                    if w.max(h) > 5 {
                        check_pair(l, kind, &q, w, h, &[0x5a; 64], 64);
                    }
                }
            }
        }));
        // contents: block and pair deviations
        let q = p.clone();
        it.push(item(format!("{}: block contents", p.name), move |l| {
            let bits = 8 * i.bytes as u32;
            let n = if th { 300 } else { 24 };
            let mut bl = crate::props::blocks::bases(n, bits, 62);
            bl.extend(alphabet(&i, 6).into_iter().map(|b| crate::refs::le(&b, i.bytes)));
            for (k, b) in bl.into_iter().enumerate() {
                let kk = if deep && (k < 4 || th && k < 60) { 2 } else { 1 };
                deviations(l, b, &bit_fields(bits), kk, &mut |l, v| {
                    check_pair(l, kind, &q, i.bw, i.bh, &v.to_le_bytes()[..i.bytes], i.bw * i.bh)
                });
                deviations(l, b, &byte_fields(i.bytes as u32), 1, &mut |l, v| {
                    check_pair(l, kind, &q, i.bw, i.bh, &v.to_le_bytes()[..i.bytes], i.bw * i.bh)
                });
            }
        }));
        if i.class == Class::Pvrtc {
            for ex in 0..5 {
                let q = p.clone();
                it.push(item(format!("{}: block grids", p.name), move |l| {
                    for ey in 0..5 {
                        for s in 0..if th { 60 } else { 8 } {
                            let (w, h) = (i.bw << ex, 4 << ey);
                            let mut r = Rng(s * 31 + ex + ey);
                            let d: Vec<u8> = (0..i.nblocks(w, h)).flat_map(|_| r.next().to_le_bytes()).collect();
                            check_pair(l, kind, &q, w, h, &d, w * h);
                        }
                    }
                    // two neighbouring blocks
                    for b in crate::props::blocks::bases(if th { 100 } else { 12 }, 128, 63) {
                        deviations(l, b, &nibble_fields(32), 1, &mut |l, v| {
                            let d = v.to_le_bytes();
                            check_pair(l, kind, &q, 2 * i.bw, 4, &d, 8 * i.bw);
                            check_pair(l, kind, &q, i.bw, 8, &d, 8 * i.bw);
                        });
                    }
                }));
            }
        }
    }
    it
}
/// C22 also: the footprint list itself
pub fn wrapper_items(c: &Ctx) -> Vec<Item> {
    let mut it = pair_items(c, "wrapper", wrappers(), true);
    it.push(item("footprints distinguish their functions", |l| {
        // a block whose decoding depends on the footprint keeps the functions apart
        for s in 0..64 {
            let i = find("astc_4_4");
            let d = sample_block(&i, s);
            for (k, fp) in FOOTPRINTS.iter().enumerate() {
                let img = &all()[19 + k];
                let p = Pair { name: format!("{} at {}x{}", img.name, fp.0, fp.1), shape: *img, a: Arc::new(img.call), b: Arc::new(move |d: &[u8], w, h, o: &mut [u32]| t2d::decode_astc(d, w, h, fp.0, fp.1, o)) };
                check_pair(l, "wrapper", &p, fp.0, fp.1, &d, fp.0 * fp.1);
            }
        }
    }));
    it
}
pub fn run_builds(c: &Ctx) {
    match builds() {
        Some(p) => c.run(pair_items(c, "builds", p, true)),
        None => {
            let mut l = Local::new(c);
            l.edge();
            l.fresh(1);
            l.trace();
            l.violation(Case::new("nobuild"), "the crate does not compile with default-features = false".into());
            l.flush();
        }
    }
}
pub fn replay_nobuild() -> Result<String, String> {
    if all_noalloc().is_some() { Ok("compiles".into()) } else { Err("the crate does not compile with default-features = false".into()) }
}
