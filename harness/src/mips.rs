//! An interpreter for the bare big-endian program of ../port: the integer instructions of
//! 32-bit MIPS release 2, no floating point, no exceptions.  What it does not know it says so.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
enum K {
    Unknown, Halt, Nop,
    Addu, Subu, And, Or, Xor, Nor, Slt, Sltu, Movz, Movn, Mul,
    Sll, Srl, Sra, Rotr, Sllv, Srlv, Srav, Rotrv,
    Addiu, Slti, Sltiu, Andi, Ori, Xori, Lui,
    Lb, Lbu, Lh, Lhu, Lw, Sb, Sh, Sw, Lwl, Lwr, Swl, Swr,
    Beq, Bne, Blez, Bgtz, Bltz, Bgez, Bal, J, Jal, Jr, Jalr,
    Mfhi, Mflo, Mthi, Mtlo, Mult, Multu, Madd, Maddu, Msub, Msubu, Div, Divu,
    Clz, Clo, Ext, Ins, Wsbh, Seb, Seh, Break,
}
#[derive(Clone, Copy, Debug)]
struct Op {
    k: K,
    /// destination (32: thrown away), and two sources
    d: u8,
    s: u8,
    t: u8,
    imm: u32,
}
pub struct Program {
    /// first byte of the program; the stack lies below it
    pub base: u32,
    text: Vec<Op>,
    data: Vec<(u32, Vec<u8>)>,
    pub heap: u32,
    pub answer: u32,
    pub end: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Returned(u32),
    Break(u32),
    /// the program left its memory, or misaligned an access
    Fault(u32),
    /// an instruction this interpreter does not know
    Unknown(u32),
    Steps,
}
fn be32(b: &[u8], at: usize) -> Result<u32, String> {
    b.get(at..at + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).ok_or("short file".into())
}
fn be16(b: &[u8], at: usize) -> Result<u32, String> {
    b.get(at..at + 2).map(|x| u16::from_be_bytes(x.try_into().unwrap()) as u32).ok_or("short file".into())
}
impl Program {
    /// reads an ELF file
    pub fn load(b: &[u8]) -> Result<Program, String> {
        if b.get(..6) != Some(b"\x7fELF\x01\x02") || be16(b, 18)? != 8 {
            return Err("not a big-endian 32-bit MIPS program".into());
        }
        let (ph, sh, phn, shn) = (be32(b, 28)? as usize, be32(b, 32)? as usize, be16(b, 44)? as usize, be16(b, 48)? as usize);
        let mut p = Program { base: 0, text: vec![], data: vec![], heap: 0, answer: 0, end: 0 };
        for i in 0..phn {
            let h = ph + 32 * i;
            if be32(b, h)? != 1 {
                continue;
            }
            let (off, va, fsz, msz) = (be32(b, h + 4)? as usize, be32(b, h + 8)?, be32(b, h + 16)? as usize, be32(b, h + 20)?);
            p.data.push((va, b.get(off..off + fsz).ok_or("short segment")?.to_vec()));
            p.end = p.end.max(va + msz);
        }
        let find = |va: u32, n: u32| p.data.iter().find(|(a, d)| va >= *a && va + n <= a + d.len() as u32).map(|(a, d)| &d[(va - a) as usize..(va - a + n) as usize]);
        let (mut base, mut text) = (0, vec![]);
        for i in 0..shn {
            let h = sh + 40 * i;
            let (ty, flags, addr, off, size, link) = (be32(b, h + 4)?, be32(b, h + 8)?, be32(b, h + 12)?, be32(b, h + 16)? as usize, be32(b, h + 20)?, be32(b, h + 24)? as usize);
            if ty == 1 && flags & 4 != 0 && size > 0 {
                if base != 0 {
                    return Err("two text sections".into());
                }
                base = addr;
                let code = find(addr, size).ok_or("text outside the segments")?;
                text = code.chunks(4).enumerate().map(|(k, w)| decode(u32::from_be_bytes(w.try_into().unwrap()), k as u32, base, size / 4)).collect();
            }
            if ty == 2 {
                let names = be32(b, sh + 40 * link + 16)? as usize;
                for s in 0..size as usize / 16 {
                    let e = off + 16 * s;
                    let n = names + be32(b, e)? as usize;
                    let name = &b[n..n + b[n..].iter().position(|c| *c == 0).unwrap_or(0)];
                    match name {
                        b"HEAP" => p.heap = be32(b, e + 4)?,
                        b"answer" => p.answer = be32(b, e + 4)?,
                        _ => (),
                    }
                }
            }
        }
        let none = Op { k: K::Unknown, d: 32, s: 0, t: 0, imm: 0 };
        text.push(Op { k: K::Halt, ..none });
        text.push(none);
        p.base = base;
        p.text = text;
        if p.heap == 0 || p.answer == 0 {
            return Err("symbols missing".into());
        }
        Ok(p)
    }
}
fn decode(w: u32, at: u32, base: u32, n: u32) -> Op {
    use K::*;
    let (rs, rt, rd, sa, fun) = ((w >> 21 & 31) as u8, (w >> 16 & 31) as u8, (w >> 11 & 31) as u8, w >> 6 & 31, w & 63);
    let dst = |r: u8| if r == 0 { 32 } else { r };
    let simm = w as u16 as i16 as i32 as u32;
    let uimm = w & 0xffff;
    let unknown = Op { k: Unknown, d: 32, s: 0, t: 0, imm: w };
    let r3 = |k| Op { k, d: dst(rd), s: rs, t: rt, imm: sa };
    let im = |k, v| Op { k, d: dst(rt), s: rs, t: rt, imm: v };
    // a branch whose target is not in the text is not executed
    let br = |k| {
        let to = (at + 1).wrapping_add(simm);
        if to < n { Op { k, d: 31, s: rs, t: rt, imm: to } } else { unknown }
    };
    let jump = |k| {
        let to = ((base + 4 * at + 4) & 0xf000_0000 | (w & 0x3ff_ffff) << 2).wrapping_sub(base) / 4;
        if to < n { Op { k, d: 31, s: 0, t: 0, imm: to } } else { unknown }
    };
    if w == 0 {
        return Op { k: Nop, ..unknown };
    }
    match w >> 26 {
        0 => match fun {
            0 => r3(Sll),
            2 if rs == 0 => r3(Srl),
            2 if rs == 1 => r3(Rotr),
            3 => r3(Sra),
            4 => r3(Sllv),
            6 if sa == 0 => r3(Srlv),
            6 if sa == 1 => r3(Rotrv),
            7 => r3(Srav),
            8 => r3(Jr),
            9 => r3(Jalr),
            10 => r3(Movz),
            11 => r3(Movn),
            13 => Op { imm: w >> 16 & 0x3ff, ..r3(Break) },
            15 => Op { k: Nop, ..unknown },
            16 => r3(Mfhi),
            17 => r3(Mthi),
            18 => r3(Mflo),
            19 => r3(Mtlo),
            24 => r3(Mult),
            25 => r3(Multu),
            26 => r3(Div),
            27 => r3(Divu),
            33 => r3(Addu),
            35 => r3(Subu),
            36 => r3(And),
            37 => r3(Or),
            38 => r3(Xor),
            39 => r3(Nor),
            42 => r3(Slt),
            43 => r3(Sltu),
            _ => unknown,
        },
        1 => match rt {
            0 => br(Bltz),
            1 => br(Bgez),
            17 if rs == 0 => br(Bal),
            _ => unknown,
        },
        2 => jump(J),
        3 => jump(Jal),
        4 => br(Beq),
        5 => br(Bne),
        6 if rt == 0 => br(Blez),
        7 if rt == 0 => br(Bgtz),
        9 => im(Addiu, simm),
        10 => im(Slti, simm),
        11 => im(Sltiu, simm),
        12 => im(Andi, uimm),
        13 => im(Ori, uimm),
        14 => im(Xori, uimm),
        15 => im(Lui, uimm << 16),
        28 => match fun {
            0 => r3(Madd),
            1 => r3(Maddu),
            2 => r3(Mul),
            4 => r3(Msub),
            5 => r3(Msubu),
            32 => r3(Clz),
            33 => r3(Clo),
            _ => unknown,
        },
        31 => match fun {
            // from bit `sa`, `rd` + 1 bits
            0 if sa + rd as u32 <= 31 => Op { k: Ext, d: dst(rt), s: rs, t: sa as u8, imm: u32::MAX >> (31 - rd as u32) },
            // bits `sa` to `rd`
            4 if sa <= rd as u32 => Op { k: Ins, d: dst(rt), s: rs, t: rt, imm: sa | (rd as u32) << 8 },
            32 => match sa {
                2 => r3(Wsbh),
                16 => r3(Seb),
                24 => r3(Seh),
                _ => unknown,
            },
            _ => unknown,
        },
        32 => im(Lb, simm),
        33 => im(Lh, simm),
        34 => im(Lwl, simm),
        35 => im(Lw, simm),
        36 => im(Lbu, simm),
        37 => im(Lhu, simm),
        38 => im(Lwr, simm),
        40 => im(Sb, simm),
        41 => im(Sh, simm),
        42 => im(Swl, simm),
        43 => im(Sw, simm),
        46 => im(Swr, simm),
        51 => Op { k: Nop, ..unknown },
        _ => unknown,
    }
}
pub struct Machine<'a> {
    p: &'a Program,
    pub mem: Vec<u8>,
    /// no access below this
    pub floor: u32,
    /// instructions executed so far
    pub steps: u64,
}
impl<'a> Machine<'a> {
    pub fn new(p: &'a Program, size: usize) -> Machine<'a> {
        let mut mem = vec![0; size];
        for (a, d) in &p.data {
            mem[*a as usize..*a as usize + d.len()].copy_from_slice(d);
        }
        Machine { p, mem, floor: 0x1000, steps: 0 }
    }
    pub fn put(&mut self, at: u32, v: u32) {
        self.mem[at as usize..at as usize + 4].copy_from_slice(&v.to_be_bytes());
    }
    /// calls the function at `f` with one argument
    pub fn call(&mut self, f: u32, arg: u32, stack: u32, limit: u64) -> Stop {
        let p = self.p;
        let mut r = [0u32; 33];
        r[4] = arg;
        r[29] = stack;
        r[31] = p.base + 4 * (p.text.len() as u32 - 2);
        let (mut hi, mut lo) = (0u32, 0u32);
        let (base, n) = (p.base, p.text.len());
        let text = &p.text[..];
        let mem = &mut self.mem[..];
        let floor = self.floor;
        let mut pc = ((f - base) / 4) as usize;
        let mut next = pc + 1;
        let mut steps = 0u64;
        macro_rules! fault {
            ($a:expr) => {{
                self.steps += steps;
                return Stop::Fault($a);
            }};
        }
        let stop = loop {
            // SAFETY: `pc` and `next` are below the length of the text: branch targets were
            // checked when they were decoded, register jumps are below, and the last
            // instruction ends the loop (its successor is never fetched).  Register numbers
            // are below 33.
            debug_assert!(pc < n);
            let o = unsafe { *text.get_unchecked(pc) };
            steps += 1;
            let now = pc;
            pc = next;
            next += 1;
            macro_rules! s {
                () => {
                    unsafe { *r.get_unchecked(o.s as usize) }
                };
            }
            macro_rules! t {
                () => {
                    unsafe { *r.get_unchecked(o.t as usize) }
                };
            }
            macro_rules! set {
                ($v:expr) => {{
                    let v = $v;
                    unsafe { *r.get_unchecked_mut(o.d as usize) = v }
                }};
            }
            macro_rules! go {
                ($c:expr) => {{
                    // (branches are where the step limit is looked at)
                    if $c {
                        next = o.imm as usize;
                        if steps > limit {
                            break Stop::Steps;
                        }
                    }
                }};
            }
            macro_rules! at {
                ($n:expr) => {{
                    let a = s!().wrapping_add(o.imm);
                    if a & ($n - 1) != 0 || a < floor || a as usize > mem.len() - $n {
                        fault!(a)
                    }
                    a as usize
                }};
            }
            macro_rules! load {
                ($n:expr) => {{
                    let a = at!($n);
                    // SAFETY: checked by at!
                    unsafe { *(mem.as_ptr().add(a) as *const [u8; $n]) }
                }};
            }
            macro_rules! store {
                ($n:expr, $v:expr) => {{
                    let a = at!($n);
                    unsafe { *(mem.as_mut_ptr().add(a) as *mut [u8; $n]) = $v }
                }};
            }
            match o.k {
                K::Nop => (),
                K::Addu => set!(s!().wrapping_add(t!())),
                K::Subu => set!(s!().wrapping_sub(t!())),
                K::And => set!(s!() & t!()),
                K::Or => set!(s!() | t!()),
                K::Xor => set!(s!() ^ t!()),
                K::Nor => set!(!(s!() | t!())),
                K::Slt => set!(((s!() as i32) < t!() as i32) as u32),
                K::Sltu => set!((s!() < t!()) as u32),
                K::Movz => {
                    if t!() == 0 {
                        set!(s!())
                    }
                }
                K::Movn => {
                    if t!() != 0 {
                        set!(s!())
                    }
                }
                K::Mul => set!(s!().wrapping_mul(t!())),
                K::Sll => set!(t!() << o.imm),
                K::Srl => set!(t!() >> o.imm),
                K::Sra => set!((t!() as i32 >> o.imm) as u32),
                K::Rotr => set!(t!().rotate_right(o.imm)),
                K::Sllv => set!(t!() << (s!() & 31)),
                K::Srlv => set!(t!() >> (s!() & 31)),
                K::Srav => set!((t!() as i32 >> (s!() & 31)) as u32),
                K::Rotrv => set!(t!().rotate_right(s!() & 31)),
                K::Addiu => set!(s!().wrapping_add(o.imm)),
                K::Slti => set!(((s!() as i32) < o.imm as i32) as u32),
                K::Sltiu => set!((s!() < o.imm) as u32),
                K::Andi => set!(s!() & o.imm),
                K::Ori => set!(s!() | o.imm),
                K::Xori => set!(s!() ^ o.imm),
                K::Lui => set!(o.imm),
                K::Lb => set!(load!(1)[0] as i8 as u32),
                K::Lbu => set!(load!(1)[0] as u32),
                K::Lh => set!(i16::from_be_bytes(load!(2)) as u32),
                K::Lhu => set!(u16::from_be_bytes(load!(2)) as u32),
                K::Lw => set!(u32::from_be_bytes(load!(4))),
                K::Sb => store!(1, [t!() as u8]),
                K::Sh => store!(2, (t!() as u16).to_be_bytes()),
                K::Sw => store!(4, t!().to_be_bytes()),
                K::Lwl | K::Lwr | K::Swl | K::Swr => {
                    let a = s!().wrapping_add(o.imm);
                    let (w, byte) = ((a & !3) as usize, a & 3);
                    if a < floor || w + 4 > mem.len() {
                        fault!(a)
                    }
                    let m = u32::from_be_bytes(mem[w..w + 4].try_into().unwrap());
                    let (left, right) = (8 * byte, 8 * (3 - byte));
                    match o.k {
                        K::Lwl => set!(m << left | t!() & !(u32::MAX << left)),
                        K::Lwr => set!(m >> right | t!() & !(u32::MAX >> right)),
                        K::Swl => mem[w..w + 4].copy_from_slice(&(m & !(u32::MAX >> left) | t!() >> left).to_be_bytes()),
                        _ => mem[w..w + 4].copy_from_slice(&(m & !(u32::MAX << right) | t!() << right).to_be_bytes()),
                    }
                }
                K::Beq => go!(s!() == t!()),
                K::Bne => go!(s!() != t!()),
                K::Blez => go!(s!() as i32 <= 0),
                K::Bgtz => go!(s!() as i32 > 0),
                K::Bltz => go!((s!() as i32) < 0),
                K::Bgez => go!(s!() as i32 >= 0),
                K::J => go!(true),
                K::Bal | K::Jal => {
                    set!(base + 4 * (now as u32 + 2));
                    go!(true)
                }
                K::Jr | K::Jalr => {
                    let a = s!();
                    if o.k == K::Jalr {
                        set!(base + 4 * (now as u32 + 2));
                    }
                    let to = a.wrapping_sub(base);
                    if to & 3 != 0 || to as usize / 4 >= n - 1 {
                        fault!(a)
                    }
                    next = to as usize / 4;
                    if steps > limit {
                        break Stop::Steps;
                    }
                }
                K::Mfhi => set!(hi),
                K::Mflo => set!(lo),
                K::Mthi => hi = s!(),
                K::Mtlo => lo = s!(),
                K::Mult | K::Multu | K::Madd | K::Maddu | K::Msub | K::Msubu => {
                    let u = (s!() as u64).wrapping_mul(t!() as u64);
                    let i = (s!() as i32 as i64).wrapping_mul(t!() as i32 as i64) as u64;
                    let acc = (hi as u64) << 32 | lo as u64;
                    let v = match o.k {
                        K::Mult => i,
                        K::Multu => u,
                        K::Madd => acc.wrapping_add(i),
                        K::Maddu => acc.wrapping_add(u),
                        K::Msub => acc.wrapping_sub(i),
                        _ => acc.wrapping_sub(u),
                    };
                    hi = (v >> 32) as u32;
                    lo = v as u32;
                }
                // (without a trap; the results for a zero divisor are not defined)
                K::Div => {
                    let (a, b) = (s!() as i32, t!() as i32);
                    if b != 0 {
                        lo = a.wrapping_div(b) as u32;
                        hi = a.wrapping_rem(b) as u32;
                    }
                }
                K::Divu => {
                    if t!() != 0 {
                        lo = s!() / t!();
                        hi = s!() % t!();
                    }
                }
                K::Clz => set!(s!().leading_zeros()),
                K::Clo => set!(s!().leading_ones()),
                K::Ext => set!(s!() >> o.t & o.imm),
                K::Ins => {
                    let (low, high) = (o.imm & 31, o.imm >> 8);
                    let mask = u32::MAX >> (31 - (high - low)) << low;
                    set!(t!() & !mask | s!() << low & mask)
                }
                K::Wsbh => set!((t!() & 0x00ff_00ff) << 8 | t!() >> 8 & 0x00ff_00ff),
                K::Seb => set!(t!() as i8 as u32),
                K::Seh => set!(t!() as i16 as u32),
                K::Break => break Stop::Break(o.imm),
                K::Halt => break Stop::Returned(r[2]),
                K::Unknown => break Stop::Unknown(o.imm),
            }
        };
        self.steps += steps;
        stop
    }
}
