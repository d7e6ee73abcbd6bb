//! C09: PVRTC images against the whole-image model.
use super::blocks::bases;
use crate::engine::*;
use crate::refs::pvrtc::*;
use texture2ddecoder as t2d;

pub const JUNK: u32 = 0x5a3c_96e1;
fn exec(c: &dyn Fn() -> Case, data: &[u8], w: usize, h: usize, two: bool) -> (Result<Result<(), &'static str>, String>, Vec<u32>) {
    let mut img = vec![JUNK; w * h + 3];
    budget(super::memory::pvrtc(data.len()));
    let r = guard(c, || t2d::decode_pvrtc(data, w, h, &mut img, two));
    (r, img)
}
fn judge(data: &[u8], w: usize, h: usize, two: bool, r: &Result<Result<(), &'static str>, String>, img: &[u32]) -> Result<u64, String> {
    let g = Grid::new(data, w, h, two);
    match (r, &g) {
        (Err(e), _) => Err(e.clone()),
        (Ok(Err(_)), None) => {
            if img.iter().all(|p| *p == JUNK) {
                Ok(1)
            } else {
                Err("refused, but the image was changed".into())
            }
        }
        (Ok(Err(e)), Some(_)) => Err(format!("refused: {}", e)),
        (Ok(Ok(())), None) => Err("block counts that are not powers of two were accepted".into()),
        (Ok(Ok(())), Some(g)) => {
            let mut sum = 0;
            for i in 0..w * h {
                let e = g.texel(i % w, i / w);
                sum = hash2(sum, e as u64);
                if e != img[i] {
                    return Err(format!("texel ({},{}): expected {:08x} got {:08x}", i % w, i / w, e, img[i]));
                }
            }
            if img[w * h..].iter().any(|p| *p != JUNK) {
                return Err("wrote behind the image".into());
            }
            Ok(sum)
        }
    }
}
fn case(data: &[u8], w: usize, h: usize, two: bool) -> Case {
    Case::new("pvrtc").kv("two", two as u8).kv("width", w).kv("height", h).hex("data", data)
}
pub fn check(l: &mut Local, data: &[u8], w: usize, h: usize, two: bool) {
    if !l.fresh(hash_bytes((w as u64) << 32 | (h as u64) << 1 | two as u64, data)) {
        return;
    }
    l.trace();
    let c = || case(data, w, h, two);
    let (r, img) = exec(&c, data, w, h, two);
    match judge(data, w, h, two, &r, &img) {
        Ok(o) => {
            l.outcome(o);
            l.sample(|| format!("{}bpp {}x{} {} -> {:08x?}", 4 >> two as u8, w, h, hexs(&data[..data.len().min(16)]), &img[..2]))
        }
        Err(m) => l.violation(c(), m),
    }
}
pub fn replay(c: &Case) -> Result<String, String> {
    let (data, w, h, two) = (c.bytes("data"), c.num("width"), c.num("height"), c.num("two") == 1);
    let (r, img) = exec(&|| c.clone(), &data, w, h, two);
    match judge(&data, w, h, two, &r, &img) {
        Ok(_) => Ok(format!("{:?} {:08x?}", r, &img[..img.len().min(64)])),
        Err(m) => Err(m),
    }
}

pub fn items(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    for two in [false, true] {
        let bw = if two { 8 } else { 4 };
        let n = if two { "2bpp" } else { "4bpp" };
        // --- one block that is its own neighbour on every side
        for (i, b) in bases(if th { 600 } else { 40 }, 64, 70 + two as u64).into_iter().enumerate() {
            it.push(item(format!("{} 1x1: bit flips", n), move |l| {
                let k = if i < 6 || th && i < 30 { 3 } else { 2 };
                deviations(l, b, &bit_fields(64), k, &mut |l, v| check(l, &v.to_le_bytes()[..8], bw, 4, two))
            }));
            it.push(item(format!("{} 1x1: nibble substitutions<=2", n), move |l| {
                deviations(l, b, &nibble_fields(16), 2, &mut |l, v| check(l, &v.to_le_bytes()[..8], bw, 4, two))
            }));
        }
        for part in 0..16u128 {
            it.push(item(format!("{} 1x1: colour word full x boundary", n), move |l| {
                for q in part * 4096..(part + 1) * 4096 {
                    for o in [0u128, 0xffff, 0x8000, 0x7fff, 0x1234, 0xfedc] {
                        for m in if th { vec![0xe4e4e4e4u128, 0x1b1b1b1a, 0x0ff0f00f] } else { vec![0xe4e4e4e4u128] } {
                            for v in [m | q << 32 | o << 48, m | o << 32 | q << 48] {
                                l.edge();
                                check(l, &v.to_le_bytes()[..8], bw, 4, two)
                            }
                        }
                    }
                }
            }));
        }
        // modulation words: byte pairs in full
        for b in [0x8421_7bdfu128 << 32, 0x1357_fca8u128 << 32] {
            for mode in 0..2u128 {
                for i in 0..4 {
                    it.push(item(format!("{} 1x1: modulation byte pairs", n), move |l| {
                        for j in 0..i {
                            for r in [0x5ac3_3ca5u128, 0xffff_ffff, 0] {
                                let v = setf(b, 32, 1, mode) | r;
                                product(l, v, &[Field::full(8 * j, 8), Field::full(8 * i, 8)], &mut |l, v| {
                                    check(l, &v.to_le_bytes()[..8], bw, 4, two)
                                })
                            }
                        }
                    }));
                }
            }
        }
        // --- two blocks
        for (i, b) in bases(if th { 200 } else { 14 }, 128, 80).into_iter().enumerate() {
            it.push(item(format!("{} two blocks: nibble substitutions<=2, both shapes", n), move |l| {
                let k = if i < 4 || th { 2 } else { 1 };
                deviations(l, b, &nibble_fields(32), k, &mut |l, v| {
                    let d = v.to_le_bytes();
                    check(l, &d, 2 * bw, 4, two);
                    l.edge();
                    check(l, &d, bw, 8, two);
                });
                deviations(l, b, &bit_fields(128), 2, &mut |l, v| {
                    let d = v.to_le_bytes();
                    if i % 2 == 0 {
                        check(l, &d, 2 * bw, 4, two);
                    } else {
                        check(l, &d, bw, 8, two);
                    }
                });
            }));
        }
        // --- 2x2: every arrangement of an alphabet of blocks
        let na = if th { 26 } else { 15 };
        let alpha: Vec<u64> = bases(na, 64, 90).into_iter().enumerate().map(|(i, v)| v as u64 & !(1 << 32) | (i as u64 & 1) << 32).collect();
        for a0 in 0..na {
            let alpha = alpha.clone();
            it.push(item(format!("{} 2x2: all arrangements of {} blocks", n, na), move |l| {
                let mut d = [0u8; 32];
                for i in 0..na.pow(3) {
                    let ix = [a0, i % na, i / na % na, i / na / na];
                    for k in 0..4 {
                        d[8 * k..8 * k + 8].copy_from_slice(&alpha[ix[k]].to_le_bytes());
                    }
                    l.edge();
                    check(l, &d, 2 * bw, 8, two);
                }
            }));
        }
        // --- 4x4: modes of a block and of its four neighbours
        for part in 0..4u64 {
            it.push(item(format!("{} 4x4: modes of a block and its neighbours", n), move |l| {
                let mut r = Rng(5 + part);
                for cfg in part * 256..part * 256 + 256u64 {
                    for rep in 0..if th { 40 } else { 6 } {
                        let mut d: Vec<u8> = (0..16).flat_map(|_| r.next().to_le_bytes()).collect();
                        for (k, (x, y)) in [(1usize, 1usize), (0, 1), (2, 1), (1, 0), (1, 2)].into_iter().enumerate() {
                            let o = order((x + rep) % 4, y, 4, 4) * 8;
                            let m = cfg >> (2 * k) & 3;
                            d[o] = d[o] & !1 | (m >= 2) as u8;
                            d[o + 2] = d[o + 2] & !16 | (m == 3) as u8 * 16;
                            d[o + 4] = d[o + 4] & !1 | (m > 0) as u8;
                        }
                        l.edge();
                        check(l, &d, 4 * bw, 16, two);
                    }
                }
            }));
        }
        // --- grid shapes: block order and wrap-around, every block distinct
        let top = if th { 8 } else { 6 };
        for ex in 0..=top {
            for ey in 0..=top {
                it.push(item(format!("{} power-of-two grids to {}", n, 1 << top), move |l| {
                    let (nx, ny) = (1usize << ex, 1usize << ey);
                    for s in 0..if ex + ey < 8 { 4 } else { 1 } {
                        let mut r = Rng(1000 + s);
                        let d: Vec<u8> = (0..nx * ny).flat_map(|_| r.next().to_le_bytes()).collect();
                        l.edge();
                        check(l, &d, nx * bw, ny * 4, two);
                        if nx * ny <= 64 {
                            // one marked block among equal ones, at every position
                            for m in 0..nx * ny {
                                let mut d = vec![[0x11u8, 0xee, 0, 0xff, 0x21, 0x84, 0x10, 0x42]; nx * ny].concat();
                                d[m * 8..m * 8 + 8].copy_from_slice(&r.next().to_le_bytes());
                                l.edge();
                                check(l, &d, nx * bw, ny * 4, two);
                            }
                        }
                    }
                }));
            }
        }
        it.push(item(format!("{} long strips", n), move |l| {
            for e in [10u32, 12, 14, 15, 16, 17] {
                let mut r = Rng(e as u64);
                let d: Vec<u8> = (0..1usize << e).flat_map(|_| r.next().to_le_bytes()).collect();
                for (w, h) in [(bw << e, 4), (bw, 4 << e), (2 * bw, 2 << e), (bw << (e - 1), 8), (bw << (e - 3), 32), (8 * bw, 4 << (e - 3))] {
                    l.edge();
                    check(l, &d, w, h, two);
                }
            }
        }));
        // --- sizes: cropping and refusal
        let (mw, mh) = if th { (132, 68) } else { (68, 36) };
        for h in 1..=mh {
            it.push(item(format!("{} all sizes to {}x{}", n, mw, mh), move |l| {
                let mut r = Rng(h as u64);
                for w in 1..=mw {
                    let nb = usize::div_ceil(w, bw) * usize::div_ceil(h, 4);
                    let d: Vec<u8> = (0..nb).flat_map(|_| r.next().to_le_bytes()).collect();
                    l.edge();
                    check(l, &d, w, h, two);
                }
            }));
        }
    }
    it
}
