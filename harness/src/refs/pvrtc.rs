//! PVRTC1, 2 and 4 bits per pixel: whole-image model.  A texel is a modulated mix of two
//! low-resolution images that are bilinearly enlarged, block centre to block centre, on a torus.

/// position of block (bx,by) in the stream: bits of y and x interleaved (y lowest) as far as the
/// smaller grid dimension goes, the remaining bits of the larger one above them
pub fn order(bx: usize, by: usize, nx: usize, ny: usize) -> usize {
    let n = nx.min(ny).trailing_zeros();
    let mut o = 0;
    for b in 0..n {
        o |= (by >> b & 1) << (2 * b) | (bx >> b & 1) << (2 * b + 1);
    }
    o | (if nx > ny { bx } else { by } >> n) << (2 * n)
}

#[derive(Clone, Copy)]
struct Blk {
    modulation: u32,
    word: u32,
}
impl Blk {
    fn mode(&self) -> bool {
        self.word & 1 != 0
    }
    /// colour A (low half) or B (high half) as R5 G5 B5 A4
    fn colour(&self, b: bool) -> [i32; 4] {
        let w = if b { self.word >> 16 } else { self.word & 0xffff } as i32;
        let f = |lo: i32, n: i32| w >> lo & ((1 << n) - 1);
        let up = |v: i32, n: i32| v << (5 - n) | v >> (2 * n - 5);
        match (f(15, 1) == 1, b) {
            (true, true) => [f(10, 5), f(5, 5), f(0, 5), 15],
            (true, false) => [f(10, 5), f(5, 5), up(f(1, 4), 4), 15],
            (false, true) => [up(f(8, 4), 4), up(f(4, 4), 4), up(f(0, 4), 4), f(12, 3) * 2],
            (false, false) => [up(f(8, 4), 4), up(f(4, 4), 4), up(f(1, 3), 3), f(12, 3) * 2],
        }
    }
}

pub struct Grid {
    nx: usize,
    ny: usize,
    two: bool,
    blocks: Vec<Blk>, // row-major
}
impl Grid {
    /// None when a block count is not a power of two
    pub fn new(data: &[u8], w: usize, h: usize, two: bool) -> Option<Grid> {
        let bw = if two { 8 } else { 4 };
        let (nx, ny) = (w.div_ceil(bw), h.div_ceil(4));
        if nx == 0 || ny == 0 {
            return Some(Grid { nx, ny, two, blocks: vec![] });
        }
        if !nx.is_power_of_two() || !ny.is_power_of_two() {
            return None;
        }
        let blocks = (0..nx * ny)
            .map(|i| {
                let o = order(i % nx, i / nx, nx, ny) * 8;
                let word = |p: usize| u32::from_le_bytes([data[p], data[p + 1], data[p + 2], data[p + 3]]);
                Blk { modulation: word(o), word: word(o + 4) }
            })
            .collect();
        Some(Grid { nx, ny, two, blocks })
    }
    fn blk(&self, bx: i64, by: i64) -> &Blk {
        let x = bx.rem_euclid(self.nx as i64) as usize;
        let y = by.rem_euclid(self.ny as i64) as usize;
        &self.blocks[y * self.nx + x]
    }
    /// modulation value 0..8 of a texel that stores one (2bpp), coordinates on the torus
    fn stored(&self, px: i64, py: i64) -> i32 {
        let b = self.blk(px.div_euclid(8), py.div_euclid(4));
        let (x, y) = (px.rem_euclid(8) as u32, py.rem_euclid(4) as u32);
        if !b.mode() {
            return if b.modulation >> (y * 8 + x) & 1 != 0 { 8 } else { 0 };
        }
        let k = y * 4 + x / 2;
        let v = b.modulation >> (2 * k) & 3;
        // two of the stored texels lend their low bit to the interpolation selector
        let msb_only = k == 0 || (k == 10 && b.modulation & 1 != 0);
        if msb_only {
            if v & 2 != 0 { 8 } else { 0 }
        } else {
            [0, 3, 5, 8][v as usize]
        }
    }
    pub fn texel(&self, px: usize, py: usize) -> u32 {
        let bw = if self.two { 8i64 } else { 4 };
        let (x, y) = (px as i64, py as i64);
        let own = self.blk(x / bw, y / 4);
        // bilinear: the texel's offset from the centre of the block to its upper left
        let (sx, sy) = (x - bw / 2, y - 2);
        let (bx, by) = (sx.div_euclid(bw), sy.div_euclid(4));
        let (fx, fy) = (sx.rem_euclid(bw) as i32, sy.rem_euclid(4) as i32);
        let mut col = [[0i32; 4]; 2];
        for (j, c) in col.iter_mut().enumerate() {
            for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                let wt = if dx == 1 { fx } else { bw as i32 - fx } * if dy == 1 { fy } else { 4 - fy };
                let q = self.blk(bx + dx, by + dy).colour(j == 1);
                for k in 0..4 {
                    c[k] += wt * q[k];
                }
            }
            // scaled by 16 (4bpp) or 32 (2bpp); five or four bits up to eight
            let s = if self.two { 1 } else { 0 };
            for k in 0..3 {
                c[k] = (c[k] >> (1 + s)) + (c[k] >> (6 + s));
            }
            c[3] = (c[3] >> s) + (c[3] >> (4 + s));
        }
        let (lx, ly) = ((x % bw) as u32, (y % 4) as u32);
        let mut punch = false;
        let m = if !self.two {
            let v = own.modulation >> (2 * (ly * 4 + lx)) & 3;
            if own.mode() {
                punch = v == 2;
                [0, 4, 4, 8][v as usize]
            } else {
                [0, 3, 5, 8][v as usize]
            }
        } else if !own.mode() || (lx ^ ly) & 1 == 0 {
            self.stored(x, y)
        } else {
            let hor = (self.stored(x - 1, y), self.stored(x + 1, y));
            let ver = (self.stored(x, y - 1), self.stored(x, y + 1));
            if own.modulation & 1 == 0 {
                (hor.0 + hor.1 + ver.0 + ver.1 + 2) / 4
            } else if own.modulation >> 20 & 1 != 0 {
                (ver.0 + ver.1 + 1) / 2
            } else {
                (hor.0 + hor.1 + 1) / 2
            }
        };
        let f = |k: usize| (col[0][k] * (8 - m) + col[1][k] * m) / 8;
        super::px(f(0), f(1), f(2), if punch { 0 } else { f(3) })
    }
}
