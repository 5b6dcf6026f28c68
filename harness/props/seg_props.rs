//! Payload segments: C05 (well-formed), C06 (malformed), C08 (failing writers), C09 (text view).
use crate::decode_props::{err_code, Lcg};
use crate::qr::*;
use crate::sym;
use rqrr::{DeQRError, Grid, MetaData};
use std::io::{self, Write};

#[inline(never)]
fn run_to<W: Write>(g: Mat, w: W) -> Result<MetaData, DeQRError> {
    Grid::new(g).decode_to(w)
}
pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

/// `n`-bit value below `lim`, symbolic or pseudo-random.
#[inline(never)]
fn unit(n: u64, lim: u64, symbolic: bool, r: &mut Lcg) -> u64 {
    if symbolic {
        let g = sym::group(n);
        sym::assume(g < lim);
        g
    } else {
        r.next() % lim
    }
}
/// Appends one segment with `n` characters of type `ty`, the units with index in
/// [s0, s0+ns) symbolic, and appends the text it stands for to `exp`.
#[inline(never)]
fn segment(b: &mut Bits, exp: &mut Vec<u8>, v: usize, ty: usize, n: usize, s0: usize, ns: usize, r: &mut Lcg) {
    let sy = |i: usize| i >= s0 && i < s0 + ns;
    match ty {
        1 => {
            b.push(1, 4);
            b.push(n as u64, count_bits(v, 1));
            let mut left = n;
            let mut i = 0;
            while left > 0 {
                let d = if left >= 3 { 3 } else { left };
                let (nb, lim) = match d {
                    3 => (10, 1000),
                    2 => (7, 100),
                    _ => (4, 10),
                };
                let x = unit(nb, lim, sy(i), r);
                b.push(x, nb as usize);
                if d >= 3 {
                    exp.push(b'0' + (x / 100) as u8);
                }
                if d >= 2 {
                    exp.push(b'0' + (x / 10 % 10) as u8);
                }
                exp.push(b'0' + (x % 10) as u8);
                left -= d;
                i += 1;
            }
        }
        2 => {
            b.push(2, 4);
            b.push(n as u64, count_bits(v, 2));
            let mut left = n;
            let mut i = 0;
            while left > 0 {
                if left >= 2 {
                    let x = unit(11, 2025, sy(i), r);
                    b.push(x, 11);
                    exp.push(ALNUM[(x / 45) as usize]);
                    exp.push(ALNUM[(x % 45) as usize]);
                    left -= 2;
                } else {
                    let x = unit(6, 45, sy(i), r);
                    b.push(x, 6);
                    exp.push(ALNUM[x as usize]);
                    left -= 1;
                }
                i += 1;
            }
        }
        3 => {
            b.push(4, 4);
            b.push(n as u64, count_bits(v, 4));
            for i in 0..n {
                let x = if sy(i) { sym::bits(8) } else { r.next() & 255 };
                b.push(x, 8);
                exp.push(x as u8);
            }
        }
        4 => {
            b.push(8, 4);
            b.push(n as u64, count_bits(v, 8));
            for i in 0..n {
                // a double-byte Shift JIS character
                let (hi, lo) = if sy(i) {
                    let g = sym::group(16);
                    let (hi, lo) = (g >> 8, g & 255);
                    sym::assume((hi >= 0x81 && hi <= 0x9f) || (hi >= 0xe0 && hi <= 0xeb));
                    sym::assume(lo >= 0x40 && lo <= 0xfc && lo != 0x7f && (hi != 0xeb || lo <= 0xbf));
                    (hi, lo)
                } else {
                    let hi = [0x81, 0x88, 0x9f, 0xe0, 0xea][r.below(5)];
                    (hi, [0x40, 0x7e, 0x80, 0xfc][r.below(4)])
                };
                let w = (hi << 8 | lo) - if hi < 0xe0 { 0x8140 } else { 0xc140 };
                b.push((w >> 8) * 0xc0 + (w & 255), 13);
                exp.push(hi as u8);
                exp.push(lo as u8);
            }
        }
        // extended channel interpretation, one to three bytes: no output of its own
        5 => {
            b.push(7, 4);
            b.push(sym::bits(7), 8);
        }
        6 => {
            b.push(7, 4);
            b.push(2, 2);
            b.push(sym::bits(14), 14);
        }
        _ => {
            b.push(7, 4);
            b.push(6, 3);
            b.push(sym::bits(21), 21);
        }
    }
}
fn seg_bits(v: usize, ty: usize, n: usize) -> usize {
    match ty {
        1 => 4 + count_bits(v, 1) + n / 3 * 10 + [0, 4, 7][n % 3],
        2 => 4 + count_bits(v, 2) + n / 2 * 11 + n % 2 * 6,
        3 => 4 + count_bits(v, 4) + n * 8,
        4 => 4 + count_bits(v, 8) + n * 13,
        5 => 12,
        6 => 20,
        _ => 28,
    }
}
/// The message of one job: segments given by the decimal digits of `code` (first
/// digit first), each `n` characters (n = 0: the last one fills the symbol).
#[inline(never)]
fn message(v: usize, lv: usize, code: usize, n: usize, ns: usize, tail: usize, seed: u64) -> (Vec<u8>, Vec<u8>) {
    let cap = data_cw(v, lv) * 8;
    let mut tys = vec![];
    let mut c = code;
    while c > 0 {
        tys.insert(0, c % 10);
        c /= 10;
    }
    let mut b = Bits::new();
    let mut exp = vec![];
    let mut r = Lcg(seed * 31 + 11);
    let k = tys.len();
    for (i, ty) in tys.iter().enumerate() {
        let mut m = n;
        if n == 0 {
            m = 5;
            if i + 1 == k {
                m = 0;
                while b.len() + seg_bits(v, *ty, m + 1) <= cap {
                    m += 1;
                }
            }
        }
        // symbolic units: the last ones of a segment (and with it the odd tail)
        let units = match ty {
            1 => m.div_ceil(3),
            2 => m.div_ceil(2),
            _ => m,
        };
        let s0 = units - ns.min(units);
        segment(&mut b, &mut exp, v, *ty, m, s0, ns, &mut r);
    }
    let left = cap - b.len();
    if tail == 1 && left >= 4 {
        // terminator, then arbitrary bits: the padding carries no meaning
        b.push(0, 4);
        while b.len() < cap {
            b.push(sym::bits(1), 1);
        }
    } else if tail == 2 && left < 4 {
        // too short for another segment: whatever is left is ignored
        while b.len() < cap {
            b.push(sym::bits(1), 1);
        }
    } else if left >= 4 {
        b.push(0, 4);
    }
    (exp, b.pack(cap / 8))
}
#[inline(never)]
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// C05: params version, level, code, n, ns, tail.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_seg() {
    let (v, lv, code, n, ns, tail) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4), sym::param(5));
    let mask = (v + code) % 8;
    let (exp, data) = message(v, lv, code, n, ns, tail, (v * 8 + lv) as u64);
    let q = symbol(v, lv, mask, &data);
    let mut o = Vec::new();
    match run_to(q, &mut o) {
        Ok(m) => {
            sym::note(1);
            sym::check(m.version.0 == v && m.ecc_level as usize == lv && m.mask as usize == mask, 1);
            sym::check(o.len() == exp.len(), 2);
            sym::check(same(&o, &exp), 3);
            sym::out(o.len() as u64);
            if !o.is_empty() {
                sym::out(o[o.len() - 1] as u64);
            }
        }
        Err(e) => {
            sym::out(100 + err_code(e));
            sym::check(false, 4);
        }
    }
}

/// What a stream means: 0 = complete message, 2 = ends inside a segment, 4 = unknown
/// mode, 99 = content the standard does not define.
#[inline(never)]
fn reference(v: usize, data: &[u8], out: &mut Vec<u8>) -> u64 {
    let total = data.len() * 8;
    let mut p = 0usize;
    let get = |p: &mut usize, n: usize| -> u64 {
        let mut r = 0u64;
        for _ in 0..n {
            r = r << 1 | (data[*p / 8] >> (7 - *p % 8) & 1) as u64;
            *p += 1;
        }
        r
    };
    while total - p >= 4 {
        let ty = get(&mut p, 4);
        match ty {
            0 => return 0,
            1 | 2 | 4 | 8 => {
                let cb = count_bits(v, ty as usize);
                if total - p < cb {
                    return 99;
                }
                let mut left = get(&mut p, cb) as usize;
                while left > 0 {
                    let (k, nb, lim) = match ty {
                        1 if left >= 3 => (3, 10, 1000),
                        1 if left == 2 => (2, 7, 100),
                        1 => (1, 4, 10),
                        2 if left >= 2 => (2, 11, 2025),
                        2 => (1, 6, 45),
                        4 => (1, 8, 256),
                        _ => (1, 13, 8192),
                    };
                    if total - p < nb {
                        return 2;
                    }
                    let x = get(&mut p, nb);
                    if x >= lim || (ty == 8 && x % 0xc0 > 0xbc) {
                        return 99;
                    }
                    match (ty, k) {
                        (1, 3) => {
                            out.push(b'0' + (x / 100) as u8);
                            out.push(b'0' + (x / 10 % 10) as u8);
                            out.push(b'0' + (x % 10) as u8);
                        }
                        (1, 2) => {
                            out.push(b'0' + (x / 10) as u8);
                            out.push(b'0' + (x % 10) as u8);
                        }
                        (1, _) => out.push(b'0' + x as u8),
                        (2, 2) => {
                            out.push(ALNUM[(x / 45) as usize]);
                            out.push(ALNUM[(x % 45) as usize]);
                        }
                        (2, _) => out.push(ALNUM[x as usize]),
                        (4, _) => out.push(x as u8),
                        _ => {
                            let w = x / 0xc0 * 256 + x % 0xc0;
                            let s = if w <= 0x1ebc { w + 0x8140 } else { w + 0xc140 };
                            out.push((s >> 8) as u8);
                            out.push(s as u8);
                        }
                    }
                    left -= k;
                }
            }
            7 => {
                if total - p < 8 {
                    return 2;
                }
                let a = get(&mut p, 8);
                let more = if a < 0x80 {
                    0
                } else if a < 0xc0 {
                    8
                } else if a < 0xe0 {
                    16
                } else {
                    return 99;
                };
                if total - p < more {
                    return 2;
                }
                get(&mut p, more);
            }
            _ => return 4,
        }
    }
    0
}

/// C06: arbitrary data codewords.  params version, level, prefix code, prefix n,
/// window start (bits), window length, fill (0 pseudo-random, 1 zero, 2 ones, 3 all symbolic), seed.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_stream() {
    let (v, lv, code, n) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let (w0, wl, fill, seed) = (sym::param(4), sym::param(5), sym::param(6), sym::param(7) as u64);
    let cap = data_cw(v, lv) * 8;
    let mut b = Bits::new();
    let mut r = Lcg(seed * 13 + 1);
    if code > 0 {
        let mut dummy = vec![];
        segment(&mut b, &mut dummy, v, code, n, 0, 0, &mut r);
    }
    let mut g = 0;
    while b.len() < cap {
        let i = b.len();
        if i == w0 && wl > 0 && wl <= cap - i {
            g = sym::group(wl as u64);
            b.push(g, wl);
            continue;
        }
        let x = match fill {
            0 => r.next() & 1,
            1 => 0,
            2 => 1,
            _ => sym::bits(1),
        };
        b.push(x, 1);
    }
    let data = b.pack(cap / 8);
    let mut exp = vec![];
    let want = reference(v, &data, &mut exp);
    let q = symbol(v, lv, (seed as usize) % 8, &data);
    let mut o = Vec::new();
    let got = match run_to(q, &mut o) {
        Ok(_) => 0,
        Err(e) => err_code(e),
    };
    sym::out(g);
    sym::out(got);
    sym::out(o.len() as u64);
    if want == 99 {
        sym::note(3);
        sym::check(got == 0 || got == 2 || got == 4, 1);
    } else if want == 0 {
        sym::note(1);
        sym::check(got == 0, 2);
        sym::check(o.len() == exp.len(), 3);
        sym::check(same(&o, &exp), 4);
    } else {
        sym::note(2);
        sym::check(got == want, 5);
    }
}

/// Accepts at most `step` bytes per call and `limit` bytes in all.
struct Bad<'a> {
    got: &'a mut Vec<u8>,
    limit: usize,
    step: usize,
    kind: usize,
    tick: bool,
    failed: &'a mut bool,
}
impl Write for Bad<'_> {
    #[inline(never)]
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.got.len() >= self.limit && !b.is_empty() {
            *self.failed = true;
            return match self.kind {
                0 => Err(io::ErrorKind::Other.into()),
                1 => Ok(0),
                _ => Err(io::ErrorKind::BrokenPipe.into()),
            };
        }
        if self.kind == 3 {
            // every other call is interrupted and has to be repeated
            self.tick = !self.tick;
            if self.tick {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let n = b.len().min(self.step).min(self.limit - self.got.len());
        for i in 0..n {
            self.got.push(b[i]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// C08: params version, level, code, n, kind, step; the point of failure is symbolic.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_writer() {
    let (v, lv, code, n, kind, step) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4), sym::param(5));
    let (exp, data) = message(v, lv, code, n, 1, 0, (v + code) as u64);
    let q = symbol(v, lv, (v + kind) % 8, &data);
    let limit = sym::group(7) as usize;
    let mut got = Vec::new();
    let mut failed = false;
    let r = run_to(q, Bad { got: &mut got, limit, step, kind, tick: false, failed: &mut failed });
    match r {
        Ok(m) => {
            sym::note(1);
            sym::check(!failed, 1);
            sym::check(limit >= exp.len(), 2);
            sym::check(m.version.0 == v && m.ecc_level as usize == lv, 3);
            sym::check(got.len() == exp.len(), 4);
            sym::check(same(&got, &exp), 5);
        }
        Err(e) => {
            sym::note(2);
            sym::check(e == DeQRError::IoError, 6);
            sym::check(failed, 7);
            sym::check(limit < exp.len(), 8);
            sym::check(got.len() == limit, 9);
            sym::check(same(&got, &exp[..got.len()]), 10);
        }
    }
    sym::out(limit as u64);
    sym::out(got.len() as u64);
}

/// Well-formed UTF-8, from the table of the Unicode standard.
#[inline(never)]
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let (n, lo, hi) = if x < 0x80 {
            (0, 0, 0)
        } else if x >= 0xc2 && x <= 0xdf {
            (1, 0x80, 0xbf)
        } else if x == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if x == 0xed {
            (2, 0x80, 0x9f)
        } else if x >= 0xe1 && x <= 0xef {
            (2, 0x80, 0xbf)
        } else if x == 0xf0 {
            (3, 0x90, 0xbf)
        } else if x >= 0xf1 && x <= 0xf3 {
            (3, 0x80, 0xbf)
        } else if x == 0xf4 {
            (3, 0x80, 0x8f)
        } else {
            return false;
        };
        if n > 0 {
            if i + n >= b.len() {
                return false;
            }
            if b[i + 1] < lo || b[i + 1] > hi {
                return false;
            }
            for k in 2..=n {
                if b[i + k] < 0x80 || b[i + k] > 0xbf {
                    return false;
                }
            }
        }
        i += n + 1;
    }
    true
}
/// C09: params version, level, first symbolic byte, number of symbolic bytes, tail length.
/// The message is `n0` ASCII bytes, the symbolic ones, then ASCII.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_text() {
    let (v, lv, n0, ns, n1) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let mut r = Lcg(5);
    let mut pay = vec![];
    for _ in 0..n0 {
        pay.push((r.next() % 95 + 32) as u8);
    }
    for _ in 0..ns {
        pay.push(sym::group(8) as u8);
    }
    for _ in 0..n1 {
        pay.push((r.next() % 95 + 32) as u8);
    }
    let mut b = Bits::new();
    b.push(4, 4);
    b.push(pay.len() as u64, count_bits(v, 4));
    for x in &pay {
        b.push(*x as u64, 8);
    }
    let q = symbol(v, lv, 2, &b.pack(data_cw(v, lv)));
    let good = utf8(&pay);
    match Grid::new(q).decode() {
        Ok((m, s)) => {
            sym::note(1);
            sym::check(good, 1);
            sym::check(m.version.0 == v && m.ecc_level as usize == lv && m.mask == 2, 2);
            sym::check(s.len() == pay.len(), 3);
            sym::check(same(s.as_bytes(), &pay), 4);
            sym::out(1);
        }
        Err(e) => {
            sym::note(2);
            sym::out(100 + err_code(e));
            sym::check(e == DeQRError::EncodingError, 5);
            sym::check(!good, 6);
        }
    }
}
