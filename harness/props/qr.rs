//! Reference QR encoder written from ISO/IEC 18004, independent of rqrr.
//! Straight-line in the data: no branch depends on a payload bit.
#![allow(dead_code)]

/// Error correction level as the two raw format bits: 0=M 1=L 2=H 3=Q.
const ECW: [[u8; 41]; 4] = [
    // M
    [0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    // L
    [0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    // H
    [0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    // Q
    [0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const NBLK: [[u8; 41]; 4] = [
    [0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
    [0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
];

pub fn ecw(v: usize, lv: usize) -> usize {
    ECW[lv][v] as usize
}
pub fn nblk(v: usize, lv: usize) -> usize {
    NBLK[lv][v] as usize
}
pub fn raw_modules(v: usize) -> usize {
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let n = v / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r
}
pub fn total_cw(v: usize) -> usize {
    raw_modules(v) / 8
}
pub fn data_cw(v: usize, lv: usize) -> usize {
    total_cw(v) - ecw(v, lv) * nblk(v, lv)
}
pub fn size_of(v: usize) -> usize {
    17 + 4 * v
}
pub fn align_pos(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = (v * 8 + n * 3 + 5) / (n * 4 - 4) * 2;
    let mut r = vec![6; n];
    let mut p = size_of(v) - 7;
    for i in (1..n).rev() {
        r[i] = p;
        p = p.wrapping_sub(step);
    }
    r
}

pub fn gmul(x: u8, y: u8) -> u8 {
    let mut z: u8 = 0;
    for i in (0..8).rev() {
        z = (z << 1) ^ (0x1d & 0u8.wrapping_sub(z >> 7));
        z ^= x & 0u8.wrapping_sub((y >> i) & 1);
    }
    z
}
/// Generator polynomial, highest coefficient (1) dropped.
#[inline(never)]
pub fn rs_gen(deg: usize) -> Vec<u8> {
    let mut r = vec![0u8; deg];
    r[deg - 1] = 1;
    let mut root = 1u8;
    for _ in 0..deg {
        for j in 0..deg {
            r[j] = gmul(r[j], root);
            if j + 1 < deg {
                r[j] ^= r[j + 1];
            }
        }
        root = gmul(root, 2);
    }
    r
}
/// Remainder of data·x^deg modulo the generator.
#[inline(never)]
pub fn rs_rem(data: &[u8], gen: &[u8]) -> Vec<u8> {
    let d = gen.len();
    // g2[b][j] = gen[j]·α^b : concrete
    let mut g2 = vec![0u8; 8 * d];
    for b in 0..8 {
        for j in 0..d {
            g2[b * d + j] = gmul(gen[j], 1 << b);
        }
    }
    let mut rem = vec![0u8; d];
    for &x in data {
        let f = x ^ rem[0];
        for j in 0..d {
            let mut n = if j + 1 < d { rem[j + 1] } else { 0 };
            for b in 0..8 {
                n ^= g2[b * d + j] & 0u8.wrapping_sub((f >> b) & 1);
            }
            rem[j] = n;
        }
    }
    rem
}

/// Lengths of the data part of each block.
pub fn block_lens(v: usize, lv: usize) -> Vec<usize> {
    let nb = nblk(v, lv);
    let tot = total_cw(v);
    let short = nb - tot % nb;
    let sl = tot / nb - ecw(v, lv);
    (0..nb).map(|i| if i < short { sl } else { sl + 1 }).collect()
}
/// Position, in the interleaved codeword sequence, of codeword `k` of block `b`.
pub fn interleaved_pos(v: usize, lv: usize, b: usize, k: usize) -> usize {
    let lens = block_lens(v, lv);
    let nb = lens.len();
    let maxl = lens[nb - 1];
    if k < lens[b] {
        let mut p = 0;
        for col in 0..k {
            for l in &lens {
                if col < *l {
                    p += 1;
                }
            }
        }
        for l in &lens[..b] {
            if k < *l {
                p += 1;
            }
        }
        let _ = maxl;
        p
    } else {
        data_cw(v, lv) + (k - lens[b]) * nb + b
    }
}
/// Data codewords → interleaved sequence with error correction codewords.
#[inline(never)]
pub fn codewords(v: usize, lv: usize, data: &[u8]) -> Vec<u8> {
    let lens = block_lens(v, lv);
    let g = rs_gen(ecw(v, lv));
    let mut blocks: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut p = 0;
    for l in &lens {
        let d = data[p..p + l].to_vec();
        p += l;
        let e = rs_rem(&d, &g);
        blocks.push((d, e));
    }
    let mut out = Vec::with_capacity(total_cw(v));
    let maxl = lens[lens.len() - 1];
    for k in 0..maxl {
        for (d, _) in &blocks {
            if k < d.len() {
                out.push(d[k]);
            }
        }
    }
    for k in 0..g.len() {
        for (_, e) in &blocks {
            out.push(e[k]);
        }
    }
    out
}

/// 15 format bits for 5 data bits, masked.
pub fn format_word(data: u32) -> u32 {
    let mut rem = data;
    for _ in 0..10 {
        rem = (rem << 1) ^ (0x537 & 0u32.wrapping_sub((rem >> 9) & 1));
    }
    ((data << 10) | (rem & 0x3ff)) ^ 0x5412
}

#[derive(Clone)]
pub struct Mat {
    pub size: usize,
    /// one byte per module, row-major: 0 or 1
    pub m: Vec<u8>,
    /// function-module map
    pub f: Vec<u8>,
}
impl rqrr::BitGrid for Mat {
    fn size(&self) -> usize {
        self.size
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        // out-of-range reads are a caller error
        assert!(y < self.size && x < self.size);
        self.m[y * self.size + x] & 1 != 0
    }
}
impl Mat {
    fn fset(&mut self, x: usize, y: usize, b: bool) {
        self.m[y * self.size + x] = b as u8;
        self.f[y * self.size + x] = 1;
    }
    pub fn get(&self, x: usize, y: usize) -> u8 {
        self.m[y * self.size + x]
    }
    /// Function patterns of a version (format area reserved, zero).
    #[inline(never)]
    pub fn blank(v: usize) -> Mat {
        let n = size_of(v);
        let mut q = Mat { size: n, m: vec![0; n * n], f: vec![0; n * n] };
        for i in 0..n {
            q.fset(6, i, i % 2 == 0);
            q.fset(i, 6, i % 2 == 0);
        }
        for &(cx, cy) in &[(3i32, 3i32), (n as i32 - 4, 3), (3, n as i32 - 4)] {
            for dy in -4i32..=4 {
                for dx in -4i32..=4 {
                    let (x, y) = (cx + dx, cy + dy);
                    if x < 0 || y < 0 || x >= n as i32 || y >= n as i32 {
                        continue;
                    }
                    let d = dx.abs().max(dy.abs());
                    q.fset(x as usize, y as usize, d != 2 && d != 4);
                }
            }
        }
        let a = align_pos(v);
        let k = a.len();
        for i in 0..k {
            for j in 0..k {
                if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) {
                    continue;
                }
                for dy in 0..5 {
                    for dx in 0..5 {
                        let d = (dx as i32 - 2).abs().max((dy as i32 - 2).abs());
                        q.fset(a[i] + dx - 2, a[j] + dy - 2, d != 1);
                    }
                }
            }
        }
        if v >= 7 {
            let mut rem = v as u32;
            for _ in 0..12 {
                rem = (rem << 1) ^ ((rem >> 11) * 0x1f25);
            }
            let w = (v as u32) << 12 | (rem & 0xfff);
            for i in 0..18 {
                let b = (w >> i) & 1 != 0;
                let x = n - 11 + i % 3;
                let y = i / 3;
                q.fset(x, y, b);
                q.fset(y, x, b);
            }
        }
        for i in 0..15 {
            let (x, y) = Mat::fmt1(i);
            q.fset(x, y, false);
            let (x, y) = Mat::fmt2(n, i);
            q.fset(x, y, false);
        }
        q.fset(8, n - 8, true);
        q
    }
    /// (x,y) of format bit i (0 = least significant), copy around the top-left finder.
    pub fn fmt1(i: usize) -> (usize, usize) {
        match i {
            0..=5 => (8, i),
            6 => (8, 7),
            7 => (8, 8),
            8 => (7, 8),
            _ => (14 - i, 8),
        }
    }
    /// Split copy.
    pub fn fmt2(n: usize, i: usize) -> (usize, usize) {
        if i < 8 {
            (n - 1 - i, 8)
        } else {
            (8, n - 15 + i)
        }
    }
    #[inline(never)]
    pub fn put_format(&mut self, w1: u32, w2: u32) {
        let n = self.size;
        for i in 0..15 {
            let (x, y) = Mat::fmt1(i);
            self.m[y * n + x] = ((w1 >> i) & 1) as u8;
            let (x, y) = Mat::fmt2(n, i);
            self.m[y * n + x] = ((w2 >> i) & 1) as u8;
        }
    }
    /// Data module coordinates (x,y) in placement order.
    #[inline(never)]
    pub fn data_order(&self) -> Vec<(usize, usize)> {
        let n = self.size;
        let mut r = Vec::with_capacity(n * n);
        let mut right = n as i32 - 1;
        while right >= 1 {
            if right == 6 {
                right = 5;
            }
            for vert in 0..n {
                for j in 0..2 {
                    let x = (right - j) as usize;
                    let up = ((right + 1) & 2) == 0;
                    let y = if up { n - 1 - vert } else { vert };
                    if self.f[y * n + x] == 0 {
                        r.push((x, y));
                    }
                }
            }
            right -= 2;
        }
        r
    }
    /// Place codewords (remainder modules get `rest`) and apply the mask.
    #[inline(never)]
    pub fn place(&mut self, cw: &[u8], rest: &[u8], mask: usize) {
        let n = self.size;
        let ord = self.data_order();
        for (i, &(x, y)) in ord.iter().enumerate() {
            let b = if i < cw.len() * 8 {
                (cw[i / 8] >> (7 - i % 8)) & 1
            } else if rest.is_empty() {
                0
            } else {
                rest[i - cw.len() * 8]
            };
            self.m[y * n + x] = b ^ (mask_bit(mask, x, y) as u8);
        }
    }
    pub fn transposed(&self) -> Mat {
        let n = self.size;
        let mut q = self.clone();
        for y in 0..n {
            for x in 0..n {
                q.m[x * n + y] = self.m[y * n + x];
            }
        }
        q
    }
}
pub fn mask_bit(mask: usize, x: usize, y: usize) -> bool {
    match mask {
        0 => (x + y) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (x + y) % 3 == 0,
        4 => (x / 3 + y / 2) % 2 == 0,
        5 => x * y % 2 + x * y % 3 == 0,
        6 => (x * y % 2 + x * y % 3) % 2 == 0,
        _ => ((x + y) % 2 + x * y % 3) % 2 == 0,
    }
}

/// Bit buffer, one byte per bit.
#[derive(Clone, Default)]
pub struct Bits(pub Vec<u8>);
impl Bits {
    pub fn new() -> Bits {
        Bits(Vec::new())
    }
    pub fn push(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            self.0.push(((v >> i) & 1) as u8);
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    /// Pack into `n` bytes; missing bits are zero.
    #[inline(never)]
    pub fn pack(&self, n: usize) -> Vec<u8> {
        let mut r = vec![0u8; n];
        for i in 0..n * 8 {
            if i < self.0.len() {
                r[i / 8] |= self.0[i] << (7 - i % 8);
            }
        }
        r
    }
}
/// Width of the character count field for a mode (1,2,4,8).
pub fn count_bits(v: usize, mode: usize) -> usize {
    let k = if v <= 9 { 0 } else if v <= 26 { 1 } else { 2 };
    match mode {
        1 => [10, 12, 14][k],
        2 => [9, 11, 13][k],
        4 => [8, 16, 16][k],
        _ => [8, 10, 12][k],
    }
}
/// Complete symbol from data codewords.
#[inline(never)]
pub fn symbol(v: usize, lv: usize, mask: usize, data: &[u8]) -> Mat {
    let mut q = Mat::blank(v);
    let cw = codewords(v, lv, data);
    q.place(&cw, &[], mask);
    let w = format_word((lv << 3 | mask) as u32);
    q.put_format(w, w);
    q
}
