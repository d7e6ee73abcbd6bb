//! C16 (Crunch header parser) and C19 (any bytes: an error or a picture, never a panic).
use super::crunch::{decoder, Spec};
use crate::engine::*;
use crate::refs::crunch::*;
use std::sync::atomic::Ordering::Relaxed;
use texture2ddecoder::CrnTextureInfo;

// ------------------------------------------------------------------ C16
#[derive(PartialEq, Clone, Debug)]
pub struct Info {
    width: u32,
    height: u32,
    levels: u32,
    faces: u32,
    bytes_per_block: u32,
    userdata0: u32,
    userdata1: u32,
    format: u32,
}
const MIN: usize = 74;
/// what a header says, or None when it is not acceptable
fn model(d: &[u8], size: u32) -> Option<Info> {
    let size = size as usize;
    let be = |at: usize, n: usize| d[at..at + n].iter().fold(0u32, |a, b| a << 8 | *b as u32);
    if size < MIN || d.len() < size || be(0, 2) != 0x4878 || (be(2, 2) as usize) < MIN {
        return None;
    }
    let levels = be(16, 1);
    if be(6, 4) as usize > size || d.len() < 70 + 4 * levels as usize || be(18, 1) > 15 {
        return None;
    }
    Some(Info {
        width: be(12, 2),
        height: be(14, 2),
        levels,
        faces: be(17, 1),
        bytes_per_block: if [0, 9, 10, 11, 13].contains(&be(18, 1)) { 8 } else { 16 },
        userdata0: be(25, 4),
        userdata1: be(29, 4),
        format: be(18, 1),
    })
}
fn info_of(i: CrnTextureInfo) -> Info {
    Info {
        width: i.width,
        height: i.height,
        levels: i.levels,
        faces: i.faces,
        bytes_per_block: i.bytes_per_block,
        userdata0: i.userdata0,
        userdata1: i.userdata1,
        format: i.format as u32,
    }
}
fn header_run(before: Option<&[u8]>, d: &[u8], size: u32, case: &dyn Fn() -> Case) -> Result<String, String> {
    let exp = model(d, size);
    budget(super::memory::HEADER);
    let got = guard(case, || {
        let mut i = CrnTextureInfo::default();
        if let Some(b) = before {
            i.crnd_get_texture_info(b, b.len() as u32);
        }
        i.crnd_get_texture_info(d, size).then(|| info_of(i))
    })?;
    if got == exp {
        Ok(format!("{:?}", got))
    } else {
        Err(format!("expected {:?} got {:?}", exp, got))
    }
}
fn header_case(before: Option<&[u8]>, d: &[u8], size: u32) -> Case {
    let c = Case::new("crnheader").kv("size", size);
    match before {
        Some(b) => c.hex("before", b),
        None => c,
    }
    .hex("data", d)
}
fn header(l: &mut Local, before: Option<&[u8]>, d: &[u8], size: u32) {
    l.edge();
    if !l.fresh(hash_bytes(size as u64 | (before.map_or(0, |b| hash_bytes(1, b))) << 32, d)) {
        return;
    }
    l.trace();
    let c = || header_case(before, d, size);
    match header_run(before, d, size, &c) {
        Ok(s) => {
            l.outcome(hash_bytes(0, s.as_bytes()));
            l.sample(|| format!("size {} of {} bytes -> {}", size, d.len(), s));
        }
        Err(e) => l.violation(c(), e),
    }
}
/// a caller that states another structure size than the crate's is refused
fn struct_run(st: u32, d: &[u8], case: &dyn Fn() -> Case) -> Result<String, String> {
    let ours = std::mem::size_of::<CrnTextureInfo>() as u32;
    let (ok, i) = guard(case, || {
        let mut i = CrnTextureInfo::default();
        i.struct_size = st;
        (i.crnd_get_texture_info(d, d.len() as u32), info_of(i))
    })?;
    let exp = if st == ours { model(d, d.len() as u32) } else { None };
    if ok == exp.is_some() && exp.is_none_or(|e| e == i) {
        Ok(format!("{}", ok))
    } else {
        Err(format!("structure size {} (ours {}): parsed = {}", st, ours, ok))
    }
}
fn struct_check(l: &mut Local, st: u32, d: &[u8]) {
    l.edge();
    if !l.fresh(hash_bytes(hash2(77, st as u64), d)) {
        return;
    }
    l.trace();
    let c = || Case::new("crnheader").kv("struct", st).hex("data", d);
    match struct_run(st, d, &c) {
        Ok(s) => l.outcome(hash_bytes(2, s.as_bytes())),
        Err(e) => l.violation(c(), e),
    }
}
pub fn replay_header(c: &Case) -> Result<String, String> {
    if !c.get("struct").is_empty() {
        return struct_run(c.get("struct").parse().unwrap_or(0), &c.bytes("data"), &|| c.clone());
    }
    let b = c.bytes("before");
    let before = if c.get("before").is_empty() { None } else { Some(b.as_slice()) };
    header_run(before, &c.bytes("data"), c.num("size") as u32, &|| c.clone())
}
fn header_bases(th: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (k, (f, levels, faces, w, h)) in
        [(0u8, 1usize, 1usize, 4usize, 4usize), (2, 2, 6, 300, 77), (9, 5, 1, 1024, 2048), (7, 16, 6, 40000, 3)].into_iter().enumerate()
    {
        let mut p = Params::new(false, f, w.min(20), h.min(20), faces);
        p.levels = levels;
        let (file, _) = Spec { p: &p, seed: 40 + k as u64, zero: 0, over: &[] }.build();
        let mut d = file.bytes;
        d[12..14].copy_from_slice(&(w as u16).to_be_bytes());
        d[14..16].copy_from_slice(&(h as u16).to_be_bytes());
        d[25..33].copy_from_slice(&[0x80, 1, 2, 0xf3, 0xff, 0xee, 0x7d, 0xcc]);
        v.push(d);
    }
    // header alone, with levels up to what fits
    let mut d = v[0][..MIN].to_vec();
    d[6..10].copy_from_slice(&(MIN as u32).to_be_bytes());
    v.push(d.clone());
    d[16] = 0;
    v.push(d.clone());
    d.resize(70 + 4 * 255, 0x11);
    d[16] = 255;
    v.push(d);
    if !th {
        v.truncate(7);
    }
    v
}
pub fn header_items(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let bases = header_bases(th);
    let mut it = vec![];
    for b in &bases {
        let d0 = b.clone();
        it.push(item("every byte x every value", move |l| {
            let mut d = d0.clone();
            for i in 0..d.len().min(400) {
                for v in 0..=255 {
                    let o = std::mem::replace(&mut d[i], v);
                    header(l, None, &d, d.len() as u32);
                    d[i] = o;
                }
            }
        }));
        let d0 = b.clone();
        it.push(item("every 16-bit field x every value", move |l| {
            let mut d = d0.clone();
            for at in [0usize, 2, 4, 6, 8, 10, 12, 14, 16, 17, 18, 19, 25, 27, 29, 31, 65] {
                let o = [d[at], d[at + 1]];
                for v in 0..=65535u16 {
                    d[at..at + 2].copy_from_slice(&v.to_be_bytes());
                    header(l, None, &d, d.len() as u32);
                }
                d[at..at + 2].copy_from_slice(&o);
            }
        }));
        for part in 0..8usize {
            let d0 = b.clone();
            it.push(item("every pair of header bytes", move |l| {
                let mut d = d0.clone();
                let alpha: Vec<u8> = if th {
                    (0..=20).chain([31, 32, 63, 64, 0x48, 0x4a, 0x4b, 0x49, 0x78, 0x79, 127, 128, 200, 254, 255]).collect()
                } else {
                    vec![0, 1, 4, 9, 15, 16, 0x48, 0x49, 0x4a, 0x4b, 0x78, 127, 128, 255]
                };
                for i in (part..80.min(d.len())).step_by(8) {
                    for j in i + 1..90.min(d.len()) {
                        let (oi, oj) = (d[i], d[j]);
                        for &a in &alpha {
                            d[i] = a;
                            for &b in &alpha {
                                d[j] = b;
                                header(l, None, &d, d.len() as u32);
                            }
                        }
                        (d[i], d[j]) = (oi, oj);
                    }
                }
            }));
        }
        let d0 = b.clone();
        it.push(item("every slice length x stated size", move |l| {
            let m = d0.len().min(1200);
            let sizes: Vec<u32> = (0..=m as u32 + 80).chain([1 << 16, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]).collect();
            let lens: Vec<usize> = if th || m < 200 { (0..=m).collect() } else { (0..=150).chain((150..=m).step_by(7)).chain([m - 1, m]).collect() };
            for n in lens {
                for &s in &sizes {
                    header(l, None, &d0[..n], s);
                }
            }
        }));
        let d0 = b.clone();
        it.push(item("levels x length x stored data size", move |l| {
            for lv in 0..=255usize {
                for len in [70 + 4 * lv, 69 + 4 * lv, 71 + 4 * lv, 66 + 4 * lv, 74 + 4 * lv, 74, 75, 1100] {
                    let mut d = d0[..74].to_vec();
                    d.resize(len.max(60), 0xa7);
                    d[16] = lv as u8;
                    for ds in [0usize, 1, 74, len.saturating_sub(1), len, len + 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff] {
                        d[6..10].copy_from_slice(&(ds as u32).to_be_bytes());
                        for s in [len, len.saturating_sub(1), 74, ds] {
                            header(l, None, &d, s as u32);
                        }
                    }
                }
            }
        }));
    }
    let d0 = bases.clone();
    it.push(item("stated structure sizes", move |l| {
        for d in &d0 {
            for st in (0..=4096u32).chain((0..32).flat_map(|b| [1 << b, (1u32 << b).wrapping_sub(1), (1 << b) + 36, !(1 << b)])) {
                struct_check(l, st, d);
            }
        }
    }));
    // a parser object that has parsed something else before
    it.push(item("two headers in sequence", move |l| {
        let mut all = bases.clone();
        for b in &bases {
            for (at, v) in [(0usize, 0u8), (18, 16), (18, 14), (16, 250), (2, 0), (17, 255), (12, 255)] {
                let mut d = b.clone();
                d[at] = v;
                all.push(d);
            }
            all.push(b[..73.min(b.len())].to_vec());
        }
        all.push(vec![]);
        for a in &all {
            for b in &all {
                header(l, Some(a), b, b.len() as u32);
            }
        }
    }));
    it.push(item("all zero and all one bytes", |l| {
        for n in 0..1100usize {
            for v in [0, 255, 0x48, 0x78] {
                header(l, None, &vec![v; n], n as u32);
            }
        }
    }));
    it
}

// ------------------------------------------------------------------ C19
fn fault_run(unity: bool, d: &[u8], w: usize, h: usize, case: &dyn Fn() -> Case) -> Result<bool, String> {
    let n = w.saturating_mul(h);
    let mut img = vec![0u32; if n > 1 << 20 { 16 } else { n }];
    budget(super::memory::crunch(d));
    guard(case, || decoder(unity)(d, w, h, &mut img)).map(|r| r.is_ok())
}
fn fault_case(unity: bool, d: &[u8], w: usize, h: usize) -> Case {
    Case::new("crnfault").kv("unity", unity as u8).kv("width", w).kv("height", h).hex("data", d)
}
fn fault(l: &mut Local, unity: bool, d: &[u8], w: usize, h: usize) {
    l.edge();
    if !l.fresh(hash_bytes(unity as u64 | (w as u64) << 1 | (h as u64) << 33, d)) {
        return;
    }
    l.trace();
    let c = || fault_case(unity, d, w, h);
    match fault_run(unity, d, w, h, &c) {
        Ok(ok) => {
            l.outcome(ok as u64);
            l.sample(|| format!("{} damaged bytes -> {}", d.len(), if ok { "a picture" } else { "an error" }));
        }
        Err(e) => l.violation(c(), e),
    }
}
pub fn replay_fault(c: &Case) -> Result<String, String> {
    fault_run(c.num("unity") == 1, &c.bytes("data"), c.num("width"), c.num("height"), &|| c.clone()).map(|b| format!("returned, ok = {}", b))
}
struct Base {
    unity: bool,
    w: usize,
    h: usize,
    d: Vec<u8>,
}
fn bases() -> Vec<Base> {
    let mut v = vec![];
    for (unity, formats) in [(false, &CRUNCH_FORMATS[..]), (true, &UNITY_FORMATS[..])] {
        for &f in formats {
            if matches!(f, 3..=6 | 8) {
                continue;
            }
            for (k, (w, h, faces, levels, num, shape)) in [
                (8usize, 8usize, 1usize, 1usize, [2usize, 2, 2, 2], 0u32),
                (13, 9, 2, 2, [3, 3, 3, 3], 4),
                (20, 20, 1, 1, [18, 17, 19, 20], 6),
            ]
            .into_iter()
            .enumerate()
            {
                let mut p = Params::new(unity, f, w, h, faces);
                p.levels = levels;
                p.num = num;
                p.shape = Some(shape);
                let (file, _) = Spec { p: &p, seed: 50 + k as u64, zero: 0, over: &[] }.build();
                v.push(Base { unity, w: file.bx * 4, h: file.by * 4 * faces, d: file.bytes });
            }
        }
    }
    v
}
fn samples() -> Vec<Base> {
    let dir = format!("{}/resources/tests/textures", std::env::var("VERIF_REPO").unwrap_or("/repo".into()));
    let mut v = vec![];
    let mut names: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        if p.extension().is_some_and(|e| e == "crn") {
            let d = std::fs::read(&p).unwrap_or_default();
            let unity = p.file_name().unwrap().to_string_lossy().starts_with("UNITY");
            v.push(Base { unity, w: 64, h: 64, d });
        }
    }
    v
}
const EDGE: [u8; 10] = [0, 1, 2, 3, 16, 31, 127, 128, 254, 255];
pub fn fault_items(c: &Ctx) -> Vec<Item> {
    ALLOC_LIMIT.store(64 << 20, Relaxed);
    STUCK_AFTER.store(30, Relaxed);
    let th = c.thorough();
    let mut it: Vec<Item> = vec![];
    for (n, b) in bases().into_iter().enumerate() {
        let b = std::sync::Arc::new(b);
        let (b1, b2, b3, b4, b5) = (b.clone(), b.clone(), b.clone(), b.clone(), b.clone());
        it.push(item("truncations, extensions, and the other decoder", move |l| {
            for n in 0..=b1.d.len() {
                for u in [false, true] {
                    fault(l, u, &b1.d[..n], b1.w, b1.h);
                    // truncated, with the header adapted to the shorter length
                    if n >= 10 {
                        let mut d = b1.d[..n].to_vec();
                        d[6..10].copy_from_slice(&(n as u32).to_be_bytes());
                        fault(l, u, &d, b1.w, b1.h);
                        d[6..10].copy_from_slice(&[0; 4]);
                        fault(l, u, &d, b1.w, b1.h);
                    }
                }
            }
        }));
        it.push(item("every byte x every value", move |l| {
            let mut d = b2.d.clone();
            for i in 0..d.len() {
                for v in 0..=255 {
                    let o = std::mem::replace(&mut d[i], v);
                    fault(l, b2.unity, &d, b2.w, b2.h);
                    if v % 4 == 3 || th {
                        fault(l, !b2.unity, &d, b2.w, b2.h);
                    }
                    d[i] = o;
                }
            }
        }));
        if n % 3 == 0 || th {
            for part in 0..6usize {
                let b3 = b3.clone();
                it.push(item("every pair of header bytes", move |l| {
                    let mut d = b3.d.clone();
                    for i in (12 + part..78).step_by(6) {
                        for j in i + 1..78 {
                            let (oi, oj) = (d[i], d[j]);
                            for a in EDGE {
                                d[i] = a;
                                for b in EDGE {
                                    d[j] = b;
                                    fault(l, b3.unity, &d, b3.w, b3.h);
                                }
                            }
                            (d[i], d[j]) = (oi, oj);
                        }
                    }
                }));
            }
            // damaged code tables and streams
            it.push(item("every pair of nearby stream bytes", move |l| {
                let mut d = b4.d.clone();
                let span = if th { 24 } else { 5 };
                for i in 74..d.len() {
                    for j in i + 1..(i + span).min(d.len()) {
                        let (oi, oj) = (d[i], d[j]);
                        for a in EDGE {
                            d[i] = a;
                            for b in EDGE {
                                d[j] = b;
                                fault(l, b4.unity, &d, b4.w, b4.h);
                            }
                        }
                        (d[i], d[j]) = (oi, oj);
                    }
                }
            }));
        }
        let b8 = b.clone();
        it.push(item("sizes a header claims together", move |l| {
            let be = |d: &[u8], at: usize, n: usize| d[at..at + n].iter().fold(0usize, |a, b| a << 8 | *b as usize);
            let o = &b8.d;
            let lv = o[16] as usize;
            let len = o.len();
            let size = |v: usize| vec![v, 1000, 65532, 65535];
            // where the first level ends: the second one's offset, or else the end of the data
            let ends: Vec<usize> = vec![0, len - 1, len, len + 1, 0x7fff, 0xffff, 0x10000, 0xff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
            let mut d = o.clone();
            for w in size(be(o, 12, 2)) {
                d[12..14].copy_from_slice(&(w as u16).to_be_bytes());
                for h in size(be(o, 14, 2)) {
                    d[14..16].copy_from_slice(&(h as u16).to_be_bytes());
                    for faces in [o[17], 1, 6, 255] {
                        d[17] = faces;
                        for &end in &ends {
                            let at = if lv > 1 { 74 } else { 6 };
                            d[at..at + 4].copy_from_slice(&(end as u32).to_be_bytes());
                            for first in [be(o, 70, 4), len, len + 100, end.wrapping_sub(1)] {
                                d[70..74].copy_from_slice(&(first as u32).to_be_bytes());
                                for many in 0..if th { 16 } else { 2 } {
                                    for (k, at) in [39usize, 47, 55, 63].into_iter().enumerate() {
                                        let v = if many == 1 || many >> k & 1 == 1 { [255, 255] } else { [o[at], o[at + 1]] };
                                        d[at..at + 2].copy_from_slice(&v);
                                    }
                                    fault(l, b8.unity, &d, b8.w, b8.h);
                                }
                            }
                        }
                    }
                }
            }
        }));
        let b9 = b.clone();
        it.push(item("where a header places a segment", move |l| {
            let be = |d: &[u8], at: usize, n: usize| d[at..at + n].iter().fold(0usize, |a, b| a << 8 | *b as usize);
            let o = &b9.d;
            let len = o.len();
            for (at, nsize, nnum) in [(33usize, 3usize, 2usize), (41, 3, 2), (49, 3, 2), (57, 3, 2), (67, 0, 0)] {
                let mut d = o.clone();
                for ofs in [be(o, at, 3), 0, 1, 74, be(o, at, 3) + 1, len - 1, len, len + 1, 0xff_ffff] {
                    d[at..at + 3].copy_from_slice(&(ofs as u32).to_be_bytes()[1..]);
                    // the tables' size stands before their offset
                    let sa = if nsize == 3 { at + 3 } else { 65 };
                    let sn = if nsize == 3 { 3 } else { 2 };
                    let orig = be(o, sa, sn);
                    for size in [orig, 0, 1, 2, orig.saturating_sub(1), orig + 1, len.saturating_sub(ofs), (len + 1).saturating_sub(ofs), len, 0xff_ffff] {
                        d[sa..sa + sn].copy_from_slice(&(size as u32).to_be_bytes()[4 - sn..]);
                        let on = if nnum == 2 { be(o, at + 6, 2) } else { 0 };
                        for num in if nnum == 2 { vec![on, 0, 1, 2, on + 1, 4096, 0xffff] } else { vec![0] } {
                            if nnum == 2 {
                                d[at + 6..at + 8].copy_from_slice(&(num as u16).to_be_bytes());
                            }
                            for total in [be(o, 6, 4), 0, ofs, ofs.wrapping_add(size)] {
                                d[6..10].copy_from_slice(&(total as u32).to_be_bytes());
                                fault(l, b9.unity, &d, b9.w, b9.h);
                            }
                        }
                    }
                }
            }
        }));
        it.push(item("bytes inserted, removed, swapped; bit pairs", move |l| {
            for i in 0..b5.d.len() {
                let mut d = b5.d.clone();
                d.remove(i);
                fault(l, b5.unity, &d, b5.w, b5.h);
                for v in [0, 0x55, 255] {
                    let mut d = b5.d.clone();
                    d.insert(i, v);
                    fault(l, b5.unity, &d, b5.w, b5.h);
                }
                for j in i + 1..(i + 9).min(b5.d.len()) {
                    let mut d = b5.d.clone();
                    d.swap(i, j);
                    fault(l, b5.unity, &d, b5.w, b5.h);
                }
                for n in [2, 4, 16, 64] {
                    for v in [0, 255] {
                        let mut d = b5.d.clone();
                        let e = (i + n).min(d.len());
                        d[i..e].fill(v);
                        fault(l, b5.unity, &d, b5.w, b5.h);
                    }
                }
                for x in 0..8 {
                    for y in 0..16 {
                        let mut d = b5.d.clone();
                        d[i] ^= 1 << x;
                        if let Some(q) = d.get_mut(i + y / 8) {
                            *q ^= 1 << (y % 8);
                        }
                        fault(l, b5.unity, &d, b5.w, b5.h);
                    }
                }
            }
        }));
        if n % 3 == 0 {
            let b6 = b.clone();
            it.push(item("requested sizes", move |l| {
                let e = [0usize, 1, 3, 4, 5, 8, 9, 64, 257, 1000, 65535, 65536, 1 << 31, 1 << 32, 1 << 62, usize::MAX - 3, usize::MAX];
                for w in e {
                    for h in e {
                        for u in [false, true] {
                            fault(l, u, &b6.d, w, h);
                        }
                    }
                }
            }));
            // all short strings in place of a code table, of each segment and of the level
            for seg in 0..6usize {
                let b7 = b.clone();
                it.push(item("every short string in place of a segment", move |l| {
                    let be = |at: usize, n: usize| b7.d[at..at + n].iter().fold(0usize, |a, b| a << 8 | *b as usize);
                    let at = [be(67, 3), be(33, 3), be(41, 3), be(49, 3), be(57, 3), be(70, 4)][seg];
                    if at == 0 {
                        return;
                    }
                    let mut d = b7.d.clone();
                    let end = (at + 3).min(d.len());
                    let (fill, n) = if th { (3, 1u32 << 21) } else { (2, 1 << 16) };
                    for v in 0..n {
                        let w = if fill == 3 { v << 11 } else { v << 16 };
                        d[at..end].copy_from_slice(&w.to_be_bytes()[..end - at]);
                        fault(l, b7.unity, &d, b7.w, b7.h);
                    }
                }));
            }
        }
    }
    for b in samples() {
        let b = std::sync::Arc::new(b);
        for part in 0..8usize {
            let b = b.clone();
            it.push(item("sample files: truncations, header bytes, single faults", move |l| {
                let step = if th { 1 } else { 61 };
                for n in (0..b.d.len()).skip(part * step).step_by(8 * step) {
                    let mut d = b.d[..n].to_vec();
                    if n >= 10 {
                        d[6..10].copy_from_slice(&[0; 4]);
                    }
                    fault(l, b.unity, &d, b.w, b.h);
                }
                let mut d = b.d.clone();
                for i in (0..120.min(d.len())).skip(part).step_by(8) {
                    for v in if th { (0..=255).collect() } else { EDGE.to_vec() } {
                        let o = std::mem::replace(&mut d[i], v);
                        fault(l, b.unity, &d, b.w, b.h);
                        d[i] = o;
                    }
                }
                let step = if th { 7 } else { 97 };
                for i in (120..d.len()).skip(part * step).step_by(8 * step) {
                    for v in [0, 255, d[i] ^ 1, d[i] ^ 0x80] {
                        let o = std::mem::replace(&mut d[i], v);
                        fault(l, b.unity, &d, b.w, b.h);
                        d[i] = o;
                    }
                }
            }));
        }
    }
    // strings that are not files at all
    it.push(item("every string of up to two bytes, constant strings", |l| {
        for u in [false, true] {
            fault(l, u, &[], 4, 4);
            for a in 0..=255u8 {
                fault(l, u, &[a], 4, 4);
                for b in 0..=255u8 {
                    fault(l, u, &[a, b], 4, 4);
                }
                for n in (0..400).chain([1 << 10, 1 << 16]) {
                    let mut d = vec![a; n];
                    fault(l, u, &d, 4, 4);
                    for (i, b) in [0x48, 0x78, 0, 74].into_iter().enumerate().filter(|x| x.0 < n) {
                        d[i] = b;
                    }
                    fault(l, u, &d, 4, 4);
                    if n > 18 {
                        d[6..10].fill(0);
                        for f in 0..16 {
                            d[18] = f;
                            if n % 8 == 0 {
                                fault(l, u, &d, 4, 4);
                            }
                        }
                    }
                }
            }
        }
    }));
    it
}
