//! C20: the Python module returns what the Rust decoders produce.
//! Every explored call is made in a Python interpreter (8 worker processes) and in Rust.
use super::crunch::{decoder, Spec};
use crate::engine::*;
use crate::images::*;
use crate::refs::astc::FOOTPRINTS;
use crate::refs::crunch::*;
use std::io::{BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use texture2ddecoder as t2d;

#[derive(Clone)]
pub struct Req {
    name: String,
    mode: u8,
    ints: Vec<String>,
    data: Vec<u8>,
}
impl Req {
    fn new(name: &str, data: &[u8], w: usize, h: usize) -> Req {
        Req { name: name.into(), mode: 0, ints: vec![w.to_string(), h.to_string()], data: data.to_vec() }
    }
    fn mode(mut self, m: u8) -> Req {
        self.mode = m;
        self
    }
    fn case(&self) -> Case {
        Case::new("python").kv("function", &self.name).kv("mode", self.mode).kv("ints", self.ints.join(",")).hex("data", &self.data)
    }
    fn hash(&self) -> u64 {
        hash2(hash_bytes(self.mode as u64, self.name.as_bytes()), hash2(hash_bytes(5, self.ints.join(",").as_bytes()), hash_bytes(6, &self.data)))
    }
}
struct Ans {
    status: u8,
    flags: u8,
    payload: Vec<u8>,
}
struct Worker {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
impl Worker {
    fn new() -> Worker {
        let python = ["/opt/vp/venv/bin/python", "/usr/bin/python3"].into_iter().find(|p| std::path::Path::new(p).exists()).unwrap_or("python3");
        let r = root();
        let mut child = Command::new(python)
            .arg(format!("{}/py/worker.py", r))
            .arg(format!("{}/target/py/mod", r))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::with_capacity(1 << 18, child.stdout.take().unwrap());
        Worker { child, tx, rx }
    }
    /// None when the interpreter died
    fn batch(&mut self, rs: &[Req]) -> Option<Vec<Ans>> {
        let mut b = (rs.len() as u32).to_le_bytes().to_vec();
        for r in rs {
            b.push(r.name.len() as u8);
            b.extend(r.name.as_bytes());
            b.push(r.mode);
            b.push(r.ints.len() as u8);
            for i in &r.ints {
                b.push(i.len() as u8);
                b.extend(i.as_bytes());
            }
            b.extend((r.data.len() as u32).to_le_bytes());
            b.extend(&r.data);
        }
        self.tx.write_all(&b).ok()?;
        self.tx.flush().ok()?;
        let mut v = vec![];
        for _ in rs {
            let mut h = [0u8; 6];
            self.rx.read_exact(&mut h).ok()?;
            let n = u32::from_le_bytes(h[2..6].try_into().unwrap()) as usize;
            let mut p = vec![0; n];
            self.rx.read_exact(&mut p).ok()?;
            v.push(Ans { status: h[0], flags: h[1], payload: p });
        }
        Some(v)
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn rust(name: &str, d: &[u8], n: &[usize], img: &mut [u32]) -> Result<(), String> {
    let (w, h) = (n[0], n[1]);
    let r = match name {
        "decode_astc" => t2d::decode_astc(d, w, h, n[2], n[3], img),
        "decode_crunch" => decoder(false)(d, w, h, img),
        "decode_unity_crunch" => decoder(true)(d, w, h, img),
        _ => (find(name.strip_prefix("decode_").unwrap_or(name)).call)(d, w, h, img),
    };
    r.map_err(|e| e.to_string())
}
enum Want {
    Pixels(Vec<u32>),
    Refused,
    /// the binding may take or refuse this kind of argument; if it takes it, these are the pixels
    Either(Option<Vec<u32>>),
}
fn want(r: &Req, case: &dyn Fn() -> Case) -> Result<Want, String> {
    let parsed: Option<Vec<usize>> = r.ints.iter().map(|s| s.parse().ok()).collect();
    let decoded = match parsed {
        None => None,
        Some(n) => match n[0].checked_mul(n[1]).filter(|p| *p <= 1 << 24) {
            // too large for an image, or for the memory the interpreter is given
            None => None,
            Some(px) => {
                let mut img = vec![0u32; px];
                guard(case, || rust(&r.name, &r.data, &n, &mut img))?.ok().map(|_| img)
            }
        },
    };
    Ok(match r.mode {
        0 | 1 => decoded.map_or(Want::Refused, Want::Pixels),
        2..=25 => Want::Either(decoded),
        _ => Want::Refused,
    })
}
fn judge(r: &Req, a: &Ans, w: &Want) -> Result<u64, String> {
    let text = || String::from_utf8_lossy(&a.payload[..a.payload.len().min(200)]).to_string();
    if a.flags & 1 != 0 {
        return Err("the input object was modified".into());
    }
    if a.flags & 2 != 0 {
        return Err("an object returned or passed earlier changed".into());
    }
    match a.status {
        2 => return Err(format!("the call panicked: {}", text())),
        3 => return Err(format!("the result is not a bytes object: {}", text())),
        _ => {}
    }
    let same = |img: &[u32]| {
        if a.payload.len() != img.len() * 4 {
            return Err(format!("{} bytes returned, the image has {}", a.payload.len(), img.len() * 4));
        }
        match (0..img.len()).find(|i| a.payload[4 * i..4 * i + 4] != img[*i].to_le_bytes()) {
            None => Ok(hash_bytes(1, &a.payload)),
            Some(i) => Err(format!("pixel {}: Rust gives {:08x}, Python {:02x?} (BGRA)", i, img[i], &a.payload[4 * i..4 * i + 4])),
        }
    };
    match (w, a.status) {
        (Want::Pixels(img), 0) => same(img),
        (Want::Pixels(_), _) => Err(format!("Rust decodes it, Python raises {}", text())),
        (Want::Refused, 0) => Err(format!("refused by Rust, Python returns {} bytes", a.payload.len())),
        (Want::Refused, _) => Ok(3),
        (Want::Either(_), 1) => Ok(4),
        (Want::Either(Some(img)), 0) if r.mode < 10 => same(img),
        (Want::Either(_), _) => Ok(5),
    }
}
/// executes requests in batches
struct Runner<'a, 'b> {
    l: &'a mut Local<'b>,
    w: Worker,
    q: Vec<Req>,
    keep: bool,
    bytes: usize,
}
impl<'a, 'b> Runner<'a, 'b> {
    fn new(l: &'a mut Local<'b>) -> Self {
        Runner { l, w: Worker::new(), q: vec![], keep: false, bytes: 0 }
    }
    fn add(&mut self, r: Req) {
        self.l.edge();
        let fresh = self.l.fresh(r.hash());
        if fresh || self.keep {
            self.bytes += r.data.len() + 200;
            self.q.push(r);
            if self.q.len() >= 500 || self.bytes > 1 << 20 {
                self.flush();
            }
        }
    }
    fn flush(&mut self) {
        if self.q.is_empty() || self.l.ctx.stop.load(Relaxed) {
            self.q.clear();
            return;
        }
        let q = std::mem::take(&mut self.q);
        self.bytes = 0;
        match self.w.batch(&q) {
            Some(a) => self.compare(&q, &a),
            None => {
                // which call ended the interpreter?
                self.w = Worker::new();
                let mut found = false;
                for r in &q {
                    match self.w.batch(std::slice::from_ref(r)) {
                        Some(a) => self.compare(std::slice::from_ref(r), &a),
                        None => {
                            found = true;
                            self.l.violation(r.case(), "the interpreter died".into());
                            self.w = Worker::new();
                        }
                    }
                }
                if !found {
                    let c = q.last().unwrap().case();
                    self.l.violation(c, "the interpreter died during a series of calls".into());
                }
            }
        }
    }
    fn compare(&mut self, q: &[Req], a: &[Ans]) {
        for (r, a) in q.iter().zip(a) {
            self.l.trace();
            let c = || r.case();
            match want(r, &c).and_then(|w| judge(r, a, &w)) {
                Ok(o) => {
                    self.l.outcome(o);
                    self.l.sample(|| format!("{}({} bytes, {}) mode {}: same as Rust", r.name, r.data.len(), r.ints.join(", "), r.mode));
                }
                Err(e) => self.l.violation(r.case(), e),
            }
        }
    }
}
fn job(v: &mut Vec<Item>, name: &str, f: impl Fn(&mut Runner) + Send + Sync + 'static) {
    v.push(item(name.to_string(), move |l| {
        let mut r = Runner::new(l);
        f(&mut r);
        r.flush();
    }));
}
fn fun(i: &Img) -> String {
    format!("decode_{}", i.name)
}
/// a valid call of every function
fn valid(k: u64) -> Vec<Req> {
    let mut v = vec![];
    for i in all() {
        let d: Vec<u8> = (0..2).flat_map(|j| sample_block(&i, k * 2 + j)).collect();
        v.push(Req::new(&fun(&i), &d, 2 * i.bw, i.bh));
    }
    let a = find("astc_5_4");
    let mut r = Req::new("decode_astc", &sample_block(&a, k), 5, 4);
    r.ints.extend(["5".into(), "4".into()]);
    v.push(r);
    for unity in [false, true] {
        let mut p = Params::new(unity, 0, 8, 8, 1);
        p.num = [3; 4];
        let (f, _) = Spec { p: &p, seed: 40 + k, zero: 0, over: &[] }.build();
        v.push(Req::new(if unity { "decode_unity_crunch" } else { "decode_crunch" }, &f.bytes, 8, 8));
    }
    v
}
pub fn items(c: &Ctx) -> Vec<Item> {
    let th = c.thorough();
    let mut it = vec![];
    // 1. sizes and lengths of the input
    for i in all() {
        job(&mut it, "every size, exact and other lengths", move |r| {
            let alpha = alphabet(&i, 8);
            let m = if th { 5 } else { 3 };
            for w in 0..=m * i.bw + 1 {
                for h in 0..=m * i.bh + 1 {
                    let n = i.need(w, h);
                    let d: Vec<u8> = (0..n / i.bytes + 1).flat_map(|k| alpha[(k + w * 3 + h) % alpha.len()].clone()).collect();
                    for len in [n, n + 1, n + i.bytes, n.wrapping_sub(1), n / 2, 0, i.bytes, n.wrapping_sub(i.bytes)] {
                        if len <= d.len() {
                            r.add(Req::new(&fun(&i), &d[..len], w, h));
                            if len == n {
                                r.add(Req::new(&fun(&i), &d[..len], w, h).mode(1));
                            }
                        }
                    }
                }
            }
        });
        // 2. contents
        for part in 0..if th { 8u8 } else { 2 } {
            job(&mut it, "block contents", move |r| {
                let parts = if th { 8 } else { 2 };
                let alpha = alphabet(&i, if th { 48 } else { 20 });
                for (x, a) in alpha.iter().enumerate() {
                    for b in alpha.iter().skip(x % parts as usize).step_by(parts as usize) {
                        if part == (x % 2) as u8 || th {
                            r.add(Req::new(&fun(&i), &[&a[..], b].concat(), 2 * i.bw, i.bh));
                        }
                    }
                }
                for s in 0..if th { 40 } else { 5u64 } {
                    let b = sample_block(&i, 20 + s);
                    for at in 0..i.bytes {
                        if at % parts as usize != part as usize {
                            continue;
                        }
                        for v in 0..=255u8 {
                            let mut d = b.clone();
                            d[at] = v;
                            r.add(Req::new(&fun(&i), &d, i.bw, i.bh));
                        }
                    }
                }
            });
        }
    }
    // 3. the general ASTC function
    job(&mut it, "decode_astc: every block size", move |r| {
        let d: Vec<u8> = (0..64).flat_map(|k| sample_block(&find("astc_4_4"), k % 16)).collect();
        let mut sizes: Vec<String> = (0..=if th { 40 } else { 15 }).map(|v: u32| v.to_string()).collect();
        sizes.extend(["72", "144", "145", "4294967296", "4294967300", "9223372036854775807", "18446744073709551615", "18446744073709551616", "-1", "-4"].map(String::from));
        for bw in &sizes {
            for bh in &sizes {
                for (w, h) in [(12, 12), (0, 0), (1, 1), (5, 4), (0, 7), (25, 13)] {
                    let mut q = Req::new("decode_astc", &d, w, h);
                    q.ints.extend([bw.clone(), bh.clone()]);
                    r.add(q);
                }
            }
        }
        for fp in FOOTPRINTS {
            for len in 0..=80 {
                let mut q = Req::new("decode_astc", &d[..len], fp.0 * 2, fp.1 * 2 - 1);
                q.ints.extend([fp.0.to_string(), fp.1.to_string()]);
                r.add(q.clone());
                r.add(q.mode(1));
            }
        }
    });
    // 4. extreme numbers and other kinds of arguments
    job(&mut it, "extreme numbers", move |r| {
        let nums = [
            "-1", "-4", "-9223372036854775808", "-18446744073709551616", "0", "1", "4", "8", "2147483647", "2147483648", "4294967295", "4294967296", "1073741824",
            "1152921504606846976", "2305843009213693951", "2305843009213693952", "4611686018427387904", "9223372036854775807", "9223372036854775808",
            "18446744073709551615", "18446744073709551616", "1000000000000000000000000000000",
        ];
        for q in valid(1) {
            for w in nums {
                for h in nums {
                    // images between what can be compared and what cannot be allocated are left out
                    if let (Ok(a), Ok(b)) = (w.parse::<u128>(), h.parse::<u128>()) {
                        if (1 << 24..1 << 29).contains(&a.saturating_mul(b)) {
                            continue;
                        }
                    }
                    let mut q = q.clone();
                    q.ints[0] = w.into();
                    q.ints[1] = h.into();
                    r.add(q.clone());
                    q.data.clear();
                    r.add(q);
                }
            }
        }
    });
    job(&mut it, "other kinds and numbers of arguments", move |r| {
        for k in 0..2 {
            for q in valid(k) {
                for mode in 0..=30 {
                    r.add(q.clone().mode(mode));
                    let mut e = q.clone();
                    e.data.clear();
                    r.add(e.mode(mode));
                }
            }
        }
    });
    // 5. Crunch files
    for unity in [false, true] {
        let formats: Vec<u8> = if unity { UNITY_FORMATS.to_vec() } else { CRUNCH_FORMATS.to_vec() };
        let name = if unity { "decode_unity_crunch" } else { "decode_crunch" };
        for f in formats {
            job(&mut it, "Crunch files: shapes", move |r| {
                for w in 1..=if th { 26 } else { 13 } {
                    for h in 1..=if th { 26 } else { 13 } {
                        for faces in 1..=2 {
                            let mut p = Params::new(unity, f, w, h, faces);
                            p.num = [[3, 3, 3, 3], [5, 9, 7, 4]][(w + h) % 2];
                            let (file, _) = Spec { p: &p, seed: (w * 31 + h) as u64, zero: 0, over: &[] }.build();
                            r.add(Req::new(name, &file.bytes, w, h));
                            r.add(Req::new(name, &file.bytes, file.bx * 4, faces * file.by * 4));
                            r.add(Req::new(name, &file.bytes, w + 40, h));
                        }
                    }
                }
            });
            job(&mut it, "Crunch files: damaged", move |r| {
                for (w, h) in [(8, 8), (5, 9)].into_iter().take(2) {
                    let mut p = Params::new(unity, f, w, h, 1);
                    p.num = [2; 4];
                    p.shape = Some(2);
                    let (file, _) = Spec { p: &p, seed: 70, zero: 0, over: &[] }.build();
                    for n in 0..file.bytes.len() {
                        r.add(Req::new(name, &file.bytes[..n], w, h));
                        let b = file.bytes[n];
                        let bits: Vec<u8> = if th { (0..=255).collect() } else { [0, 1, 0x7f, 0x80, 0xff, b ^ 1, b ^ 0x10, b ^ 0x80, b.wrapping_add(1)].to_vec() };
                        for v in bits {
                            let mut d = file.bytes.clone();
                            d[n] = v;
                            r.add(Req::new(name, &d, w, h));
                        }
                    }
                }
            });
        }
    }
    // 6. histories: every ordered pair (triple) of calls in one interpreter
    let deep = if th { 16 } else { 4 };
    for part in 0..deep {
        job(&mut it, "every pair of calls", move |r| {
            r.keep = true;
            let mut ops = valid(1);
            ops.extend(valid(2));
            for mut q in valid(1) {
                q.data.pop();
                ops.push(q);
            }
            for mut q in valid(3) {
                q.ints[0] = "3000000000".into();
                q.ints[1] = "3000000000".into();
                ops.push(q);
            }
            for (i, a) in ops.iter().enumerate() {
                if i % deep != part {
                    continue;
                }
                for b in &ops {
                    r.add(a.clone());
                    r.add(b.clone());
                    if th {
                        for c in ops.iter().step_by(3) {
                            r.add(a.clone());
                            r.add(b.clone());
                            r.add(c.clone());
                        }
                    }
                }
            }
        });
    }
    // 7. what is exported
    it.push(item("exported functions", move |l| {
        let mut names: Vec<String> = valid(0).into_iter().map(|r| r.name).collect();
        names.sort();
        for n in names {
            l.edge();
            if !l.fresh(hash_bytes(77, n.as_bytes())) {
                continue;
            }
            l.trace();
            let c = Case::new("pythonname").kv("function", &n);
            if let Err(e) = exported(&n) {
                l.violation(c, e);
            }
        }
    }));
    it
}
fn exported(name: &str) -> Result<String, String> {
    let q = Req { name: "?".into(), mode: 0, ints: vec![], data: vec![] };
    let a = Worker::new().batch(&[q]).ok_or("the interpreter died")?;
    let s = String::from_utf8_lossy(&a[0].payload).to_string();
    if s.lines().any(|l| l == name) { Ok(s) } else { Err(format!("{} is not exported", name)) }
}
pub fn replay_name(c: &Case) -> Result<String, String> {
    exported(c.get("function"))
}
pub fn replay(c: &Case) -> Result<String, String> {
    let r = Req {
        name: c.get("function").into(),
        mode: c.num("mode") as u8,
        ints: c.get("ints").split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
        data: c.bytes("data"),
    };
    let a = Worker::new().batch(std::slice::from_ref(&r)).ok_or("the interpreter died")?;
    let w = want(&r, &|| c.clone())?;
    judge(&r, &a[0], &w).map(|_| format!("status {}, {} bytes", a[0].status, a[0].payload.len()))
}
