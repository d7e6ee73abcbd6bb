//! C17 (Crunch), C18 (Unity Crunch): files built by the encoder model decode to the blocks they describe.
use crate::engine::*;
use crate::fmts::fmt;
use crate::images::JUNK;
use crate::refs::crunch::*;
use std::sync::atomic::Ordering::Relaxed;
use texture2ddecoder as t2d;

pub type R = Result<(), &'static str>;
pub fn decoder(unity: bool) -> fn(&[u8], usize, usize, &mut [u32]) -> R {
    if unity { t2d::decode_unity_crunch } else { t2d::decode_crunch }
}
fn block_image(unity: bool, f: u8) -> &'static str {
    match f {
        0 => "bc1",
        2..=6 => "bc3",
        7 | 8 => "bc5",
        9 => "bc4",
        10 | 13 if unity => "etc1",
        11 if unity => "etc2_rgb",
        12 | 14 if unity => "etc2_rgba8",
        _ => panic!("format"),
    }
}

/// everything needed to rebuild one file
pub struct Spec<'a> {
    pub p: &'a Params,
    pub seed: u64,
    pub zero: u32,
    pub over: &'a [(usize, u32)],
}
impl Spec<'_> {
    pub fn build(&self) -> (File, Vec<(u32, u32, u32)>) {
        let mut c = Choices::new(self.seed, self.zero, self.over);
        let f = build(self.p, &mut c);
        (f, c.log)
    }
    pub fn case(&self, kind: &str) -> Case {
        let p = self.p;
        let n = |o: Option<u32>| o.map_or("-".to_string(), |v| v.to_string());
        Case::new(kind)
            .kv("unity", p.unity as u8)
            .kv("format", p.fmt)
            .kv("width", p.w)
            .kv("height", p.h)
            .kv("faces", p.faces)
            .kv("levels", p.levels)
            .kv("palettes", p.num.map(|n| n.to_string()).join(","))
            .kv("shape", n(p.shape))
            .kv("rle", p.rle)
            .kv("layout", n(p.layout))
            .kv("seed", self.seed)
            .kv("zero", self.zero)
            .kv("choices", self.over.iter().map(|o| format!("{}:{}", o.0, o.1)).collect::<Vec<_>>().join(","))
    }
}
pub fn from_case(c: &Case) -> (Params, u64, u32, Vec<(usize, u32)>) {
    let o = |k: &str| c.get(k).parse::<u32>().ok();
    let mut p = Params::new(c.num("unity") == 1, c.num("format") as u8, c.num("width"), c.num("height"), c.num("faces"));
    p.levels = c.num("levels");
    for (i, v) in c.get("palettes").split(',').enumerate().take(4) {
        p.num[i] = v.parse().unwrap_or(1);
    }
    p.shape = o("shape");
    p.rle = c.num("rle") as u32;
    p.layout = o("layout");
    let over = c
        .get("choices")
        .split(',')
        .filter_map(|s| s.split_once(':'))
        .map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))
        .collect();
    (p, c.get("seed").parse().unwrap_or(0), c.num("zero") as u32, over)
}

/// decode `f` and compare with the image of the blocks it describes
fn verify(p: &Params, f: &File, full: bool, case: &dyn Fn() -> Case) -> Result<u64, String> {
    let img = fmt(block_image(p.unity, p.fmt)).image;
    let all = (f.bx * 4, p.faces * f.by * 4);
    let mut o = 0;
    budget(super::memory::crunch(&f.bytes));
    for (i, (w, h)) in [all, (p.w, p.h)].into_iter().enumerate() {
        if i == 1 && (!full || (w, h) == all) {
            continue;
        }
        let mut got = vec![JUNK; w * h + 3];
        let mut exp = got.clone();
        img(&f.blocks, w, h, &mut exp[..w * h]).map_err(|e| format!("model: {}", e))?;
        guard(case, || decoder(p.unity)(&f.bytes, w, h, &mut got))?.map_err(|e| format!("refused: {}", e))?;
        if got != exp {
            let k = (0..got.len()).find(|k| got[*k] != exp[*k]).unwrap();
            return Err(format!("image {}x{}, pixel ({},{}): expected {:08x} got {:08x}", w, h, k % w, k / w, exp[k], got[k]));
        }
        if i == 0 {
            o = exp.iter().fold(0, |a, v| hash2(a, *v as u64));
        }
        // an image one pixel too small
        if full && p.w * p.h <= 64 {
            let mut small = vec![JUNK; w * h - 1];
            match guard(case, || decoder(p.unity)(&f.bytes, w, h, &mut small))? {
                Ok(()) => return Err("image too small, but accepted".into()),
                Err(_) if small.iter().any(|v| *v != JUNK) => return Err("image too small and still written".into()),
                Err(_) => {}
            }
        }
    }
    Ok(o)
}
fn check(l: &mut Local, s: &Spec) -> Vec<(u32, u32, u32)> {
    l.edge();
    let (f, log) = s.build();
    if l.fresh(hash_bytes(s.p.unity as u64, &f.bytes)) {
        l.trace();
        match verify(s.p, &f, s.over.is_empty(), &|| s.case("crunch")) {
            Ok(o) => {
                l.outcome(o);
                l.sample(|| format!("{} file of {} bytes, format {}, {}x{}, {} faces: every block as described", if s.p.unity { "unity" } else { "crunch" }, f.bytes.len(), s.p.fmt, s.p.w, s.p.h, s.p.faces));
            }
            Err(e) => l.violation(s.case("crunch"), e),
        }
    }
    log
}
pub fn replay(c: &Case) -> Result<String, String> {
    let (p, seed, zero, over) = from_case(c);
    let (f, _) = Spec { p: &p, seed, zero, over: &over }.build();
    if let Ok(dir) = std::env::var("VERIF_DUMP") {
        // the file and the picture it describes
        let (w, h) = (f.bx * 4, p.faces * f.by * 4);
        let mut exp = vec![JUNK; w * h];
        let _ = (fmt(block_image(p.unity, p.fmt)).image)(&f.blocks, w, h, &mut exp);
        let px: Vec<u8> = exp.iter().flat_map(|v| v.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{}/file.bin", dir), &f.bytes);
        let _ = std::fs::write(format!("{}/picture.bin", dir), px);
        return Ok(format!("{}x{}", w, h));
    }
    verify(&p, &f, true, &|| c.clone()).map(|o| format!("{} bytes, image hash {:x}\n{}", f.bytes.len(), o, hexs(&f.bytes[..f.bytes.len().min(400)])))
}
/// all files within `k` changed choices of kinds `mask` around the base `seed`
fn around(l: &mut Local, p: &Params, seed: u64, mask: u32, k: usize) {
    fn rec(l: &mut Local, p: &Params, seed: u64, mask: u32, k: usize, over: &mut Vec<(usize, u32)>) {
        let log = check(l, &Spec { p, seed, zero: 0, over });
        if k == 0 {
            return;
        }
        let from = over.last().map_or(0, |o| o.0 + 1);
        for i in from..log.len() {
            if log[i].0 & mask == 0 {
                continue;
            }
            for v in 0..log[i].1 {
                if v != log[i].2 {
                    if l.ctx.stop.load(Relaxed) {
                        return;
                    }
                    over.push((i, v));
                    rec(l, p, seed, mask, k - 1, over);
                    over.pop();
                }
            }
        }
    }
    rec(l, p, seed, mask, k, &mut vec![])
}
/// every combination of the choices of kinds `mask`
fn every(l: &mut Local, p: &Params, seed: u64, mask: u32) {
    let mut over: Vec<(usize, u32)> = vec![];
    loop {
        let log = check(l, &Spec { p, seed, zero: mask, over: &over });
        let pos: Vec<usize> = (0..log.len()).filter(|i| log[*i].0 & mask != 0).collect();
        let Some(j) = pos.iter().rposition(|i| log[*i].2 + 1 < log[*i].1) else { return };
        over = pos[..=j].iter().map(|i| (*i, log[*i].2)).collect();
        over[j].1 += 1;
        if l.ctx.stop.load(Relaxed) {
            return;
        }
    }
}

pub fn items(c: &Ctx, unity: bool) -> Vec<Item> {
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    let formats: Vec<u8> = if unity { UNITY_FORMATS.to_vec() } else { CRUNCH_FORMATS.to_vec() };
    let stream = kind::REF | kind::DELTA | kind::SEL;
    for &f in &formats {
        let new = move |w: usize, h: usize, n: usize| Params::new(unity, f, w, h, n);
        // the swizzled variants share everything with their first representative
        let main = matches!(f, 0 | 2 | 7 | 9 | 10 | 12 | 13 | 14);
        // 1. shapes
        for faces in [1usize, 2, 6, 3] {
            it.push(item(format!("format {}: shapes", f), move |l| {
                let m = if th { 33 } else { 20 };
                for h in 1..=m {
                    for w in 1..=m {
                        if h > 20 && w > 20 && (w + h) % 3 > 0 {
                            continue;
                        }
                        let mut p = new(w, h, faces);
                        p.num = [[3, 3, 3, 3], [5, 9, 7, 4]][(w + h) % 2];
                        check(l, &Spec { p: &p, seed: (w * 100 + h) as u64, zero: 0, over: &[] });
                    }
                }
                for (w, h) in [(64, 64), (252, 8), (8, 252), (1021, 5), (5, 1021), (128, 36), (36, 132), (2047, 1), (1, 4095)] {
                    for s in 0..if th { 20 } else { 2 } {
                        let p = new(w, h, faces);
                        check(l, &Spec { p: &p, seed: s, zero: 0, over: &[] });
                    }
                }
            }));
        }
        // as large as the format goes, and beyond 16-bit counts of blocks
        for (k, (w, h, faces)) in [(4096usize, 4096usize, 1usize), (2048, 2045, 6), (1025, 4093, 1), (4095, 1028, 2), (65535, 4, 1), (3, 65535, 1), (65529, 61, 1), (61, 65530, 3)].into_iter().enumerate() {
            if main || k == f as usize % 8 || th {
                it.push(item(format!("format {}: large textures", f), move |l| {
                    for s in 0..if th { 4 } else { 1 } {
                        let mut p = new(w, h, faces);
                        p.num = [[40, 30, 50, 35], [3, 4, 5, 6], [8191, 8192, 8190, 8189], [300, 20, 30, 257]][(s + k) % 4];
                        check(l, &Spec { p: &p, seed: s as u64, zero: 0, over: &[] });
                    }
                }));
            }
        }
        // 2. one changed choice anywhere
        for (i, (w, h, faces)) in [(8, 8, 1), (12, 12, 1), (4, 4, 1), (20, 12, 2), (13, 17, 3), (8, 16, 1)].into_iter().enumerate() {
            for (j, num) in [[3, 3, 3, 3], [2, 5, 4, 3], [1, 1, 1, 1], [17, 6, 18, 5]].into_iter().enumerate() {
                if !main && (i + j) % 4 != f as usize % 4 {
                    continue;
                }
                for s in 0..if th { 12 } else { 1 + (i < 3 && main) as u64 } {
                    it.push(item(format!("format {}: one changed choice", f), move |l| {
                        let mut p = new(w, h, faces);
                        p.num = num;
                        p.shape = Some([2, 0, 4][s as usize % 3]);
                        around(l, &p, 100 + s, kind::ALL, 1);
                    }));
                }
            }
        }
        if !main {
            continue;
        }
        // 3. two changed choices of one kind of data
        for mask in [kind::CE, kind::CS, kind::AE, stream] {
            for (w, h, faces, n) in [(8, 8, 1, 2), (12, 12, 1, 3), (8, 8, 2, 3)] {
                if n == 3 && mask != stream && !th {
                    continue;
                }
                it.push(item(format!("format {}: two changed choices", f), move |l| {
                    let mut p = new(w, h, faces);
                    p.num = [n; 4];
                    around(l, &p, 200 + n as u64, mask, 2);
                }));
            }
        }
        if th {
            for s in 0..4 {
                it.push(item(format!("format {}: two changed choices", f), move |l| {
                    let mut p = new(4, 4, 1);
                    p.num = [1, 1, 1, 2];
                    around(l, &p, 300 + s, kind::AS, 2);
                    let mut p = new(20, 20, 1);
                    p.num = [4; 4];
                    around(l, &p, 310 + s, stream, 2);
                    let mut p = new(12, 8, 1);
                    p.num = [2; 4];
                    around(l, &p, 320 + s, stream, 3);
                }));
            }
        }
        // 4. all streams of small textures
        let sub = (10..=12).contains(&f);
        let both = matches!(f, 2 | 7 | 12 | 14);
        let mut small: Vec<(usize, usize, [usize; 4], u32)> = vec![];
        for (w, h) in [(8, 8), (4, 4), (4, 8), (8, 4)] {
            small.push((w, h, [5, 3, 5, 3], kind::REF));
        }
        if sub {
            // selectors do not interact with the references: one or two palette entries
            small.push((8, 8, [2, 1, 1, 1], kind::REF | kind::DELTA));
            if th {
                small.push((8, 8, [2, 1, 2, 1], kind::REF | kind::DELTA));
                small.push((4, 8, [2, 2, 2, 1], kind::REF | kind::DELTA));
                small.push((8, 8, [3, 2, 2, 1], kind::REF | kind::SEL));
            } else {
                small.push((8, 8, [3, 2, 2, 1], kind::DELTA | kind::SEL));
            }
        } else {
            small.push((8, 8, [2; 4], stream));
            if both {
                small.push((8, 8, [3, 2, 1, 1], stream));
                small.push((8, 8, [1, 2, 3, 1], kind::REF | kind::DELTA));
                if th {
                    small.push((8, 8, [3, 2, 2, 1], stream));
                    small.push((8, 8, [1, 2, 3, 2], stream));
                    small.push((8, 8, [3, 2, 2, 2], stream));
                    small.push((4, 8, [2, 2, 3, 2], stream));
                }
            } else {
                small.push((8, 8, [3; 4], stream));
                small.push((4, 8, [4, 2, 4, 2], stream));
                if th {
                    small.push((8, 4, [4, 3, 4, 3], stream));
                    small.push((8, 8, [5, 2, 5, 2], stream));
                }
            }
        }
        for (i, (w, h, num, mask)) in small.into_iter().enumerate() {
            it.push(item(format!("format {}: every stream", f), move |l| {
                let mut p = new(w, h, 1);
                p.num = num;
                every(l, &p, 400 + i as u64, mask);
            }));
        }
        // two columns or rows of chunks, everything about where endpoints come from
        for (w, h) in [(16, 8), (8, 16), (12, 8), (8, 12)] {
            it.push(item(format!("format {}: every reference", f), move |l| {
                let mut p = new(w, h, 1);
                p.num = [5, 2, 5, 2];
                if sub {
                    if th {
                        around(l, &p, 500, kind::REF, 4);
                    } else {
                        around(l, &p, 500, kind::REF, 3);
                    }
                } else {
                    every(l, &p, 500, kind::REF);
                }
            }));
        }
        // 5. palette sizes and code shapes
        let mut sizes: Vec<usize> = (1..=40).collect();
        sizes.extend([47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025]);
        if th {
            sizes.extend(41..=300);
        }
        for ch in sizes.chunks(8) {
            let ch = ch.to_vec();
            it.push(item(format!("format {}: palette sizes x code shapes", f), move |l| {
                for &n in &ch {
                    for shape in 0..SHAPES {
                        let mut p = new(36, 20, 1);
                        p.num = [n; 4];
                        p.shape = Some(shape);
                        p.rle = (n as u32 * 7 + shape) % 16;
                        check(l, &Spec { p: &p, seed: n as u64, zero: 0, over: &[] });
                    }
                }
            }));
        }
        for n in [2047usize, 2049, 4095, 4097, 8191, 8192] {
            it.push(item(format!("format {}: large palettes", f), move |l| {
                for shape in 0..SHAPES {
                    for q in 0..4 {
                        let mut p = new(44, 44, 1);
                        p.num = [4; 4];
                        p.num[q] = n;
                        if !th && shape % 4 != q as u32 && shape > 3 {
                            continue;
                        }
                        p.shape = Some(shape);
                        check(l, &Spec { p: &p, seed: n as u64, zero: 0, over: &[] });
                    }
                }
            }));
        }
        for shape in 0..SHAPES {
            it.push(item(format!("format {}: code shapes x serialisations", f), move |l| {
                for rle in 0..16 {
                    for n in [1usize, 4, 15, 16, 17, 40, 300] {
                        for s in 0..if th { 8 } else { 1 } {
                            let mut p = new(24, 24, 1);
                            p.num = [n; 4];
                            p.shape = Some(shape);
                            p.rle = rle;
                            check(l, &Spec { p: &p, seed: 600 + s, zero: 0, over: &[] });
                        }
                    }
                }
            }));
        }
        for s in 0..if th { 60 } else { 6u64 } {
            it.push(item(format!("format {}: code shapes per model", f), move |l| {
                let mut p = new(20, 20, 1);
                p.num = [[7, 19, 23, 6], [40, 3, 5, 80], [2, 300, 200, 2]][s as usize % 3];
                p.shape = None;
                p.rle = 16;
                p.layout = None;
                around(l, &p, 700 + s, kind::HUFF | kind::LAYOUT, if s % 3 == 1 && (th || matches!(f, 0 | 9 | 13)) { 2 } else { 1 });
            }));
        }
        // 6. file layout
        it.push(item(format!("format {}: layouts x levels", f), move |l| {
            for layout in 0..LAYOUTS {
                for levels in 1..=16 {
                    for faces in [1, 2, 6] {
                        let mut p = new(21, 18, faces);
                        p.levels = levels;
                        p.layout = Some(layout);
                        check(l, &Spec { p: &p, seed: 800, zero: 0, over: &[] });
                    }
                }
            }
        }));
    }
    // 7. formats without a decoder
    it.push(item("formats without a decoder", move |l| {
        for f in 0..=255u8 {
            if formats.contains(&f) {
                continue;
            }
            for base in [0u8, 2, 7, 9] {
                for (w, h) in [(4, 4), (8, 12)] {
                    let mut p = Params::new(unity, base, w, h, 1);
                    p.levels = 1;
                    let (file, _) = Spec { p: &p, seed: 900, zero: 0, over: &[] }.build();
                    let mut d = file.bytes;
                    d[18] = f;
                    refused(l, unity, &d, w, h);
                }
            }
        }
    }));
    it
}
fn refused_run(unity: bool, d: &[u8], w: usize, h: usize, case: &dyn Fn() -> Case) -> Result<String, String> {
    let mut img = vec![JUNK; w * h];
    budget(super::memory::crunch(d));
    match guard(case, || decoder(unity)(d, w, h, &mut img))? {
        Ok(()) => Err("accepted".into()),
        Err(e) if img.iter().all(|v| *v == JUNK) => Ok(e.into()),
        Err(_) => Err("refused, but the image was written".into()),
    }
}
fn refused(l: &mut Local, unity: bool, d: &[u8], w: usize, h: usize) {
    l.edge();
    if l.fresh(hash_bytes(unity as u64 + 2, d)) {
        l.trace();
        let c = || Case::new("crunchbad").kv("unity", unity as u8).kv("width", w).kv("height", h).hex("data", d);
        if let Err(e) = refused_run(unity, d, w, h, &c) {
            l.violation(c(), e);
        }
    }
}
pub fn replay_bad(c: &Case) -> Result<String, String> {
    refused_run(c.num("unity") == 1, &c.bytes("data"), c.num("width"), c.num("height"), &|| c.clone())
}
