//! C07 (mirrored symbols), C10 (arbitrary grids), C12 (in-memory grids and small public helpers).
use crate::decode_props::{err_code, Lcg};
use crate::qr::*;
use crate::sym;
use rqrr::{BitGrid, DeQRError, Grid, RawData, SimpleGrid, Version};

/// C07: two readings, both unreadable: the error is the one of the upright reading.
/// params version, seed, format word of the first copy, symbolic bits.  The second copy is
/// unusable both ways and the data modules are noise.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_mirror_err() {
    let (v, seed, w, wl) = (sym::param(0), sym::param(1) as u64, sym::param(2) as u32, sym::param(3));
    let mut q = Mat::blank(v);
    let mut r = Lcg(seed);
    let n = q.size;
    let ord = q.data_order();
    for (x, y) in &ord {
        q.m[y * n + x] = (r.next() >> 7 & 1) as u8;
    }
    let g = sym::group(wl as u64);
    for i in 0..wl {
        let (x, y) = ord[(i * 37 + seed as usize) % ord.len()];
        q.m[y * n + x] ^= (g >> i & 1) as u8;
    }
    // a word that is unusable in both readings
    let mut junk = 0u32;
    loop {
        let mut t = Mat::blank(v);
        t.put_format(junk, junk);
        let bad = Grid::new(t.transposed()).get_raw_data().is_err();
        if bad && Grid::new(t).get_raw_data().is_err() {
            break;
        }
        junk += 1;
    }
    q.put_format(w, junk);
    // what the two readings say about the format
    let up = Grid::new(q.clone()).get_raw_data().map(|m| m.0);
    let dn = Grid::new(q.transposed()).get_raw_data().map(|m| m.0);
    sym::note(10 + 2 * up.is_ok() as u64 + dn.is_ok() as u64);
    let mut o = Vec::new();
    match Grid::new(q).decode_to(&mut o) {
        // no assignment of the window turns this noise into a codeword
        Ok(_) => sym::check(false, 1),
        Err(e) => {
            sym::out(err_code(e));
            sym::note(1);
            match up {
                Ok(_) => sym::check(e == DeQRError::DataEcc, 2),
                Err(u) => {
                    sym::check(u == DeQRError::FormatEcc, 3);
                    sym::check(e == u, 4);
                }
            }
        }
    }
    sym::check(o.is_empty(), 5);
}

/// A grid that checks that only modules inside it are asked for.
struct Guard {
    n: usize,
    m: Vec<u8>,
}
impl BitGrid for Guard {
    fn size(&self) -> usize {
        self.n
    }
    #[inline(never)]
    fn bit(&self, y: usize, x: usize) -> bool {
        sym::check(x < self.n && y < self.n, 90);
        if self.m.is_empty() {
            return (x ^ y) & 1 == 1;
        }
        self.m[y * self.n + x] == 1
    }
}
/// C10: params size, kind, seed, window bits.
/// kind 0: every module symbolic, raw data and its metadata only
/// kind 1: noise with a format word of which `window` bits are symbolic, full decode
/// kind 2: noise with a valid format word and a symbolic window among the data, full decode
/// kind 3: no storage behind the grid (huge sizes)
/// kind 4: the same with any size that no version has
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_any() {
    let (mut n, mut kind, seed, wl) = (sym::param(0), sym::param(1), sym::param(2) as u64, sym::param(3));
    if kind == 4 {
        n = sym::bits(64) as usize;
        sym::assume(n < 21 || n > 180);
        kind = 3;
    }
    let mut g = Guard { n, m: vec![] };
    let mut r = Lcg(seed * 3 + 1);
    if kind != 3 {
        g.m = vec![0; n * n];
        for i in 0..n * n {
            g.m[i] = if kind == 0 { sym::bits(1) as u8 } else { (r.next() >> 9 & 1) as u8 };
        }
    }
    if kind != 3 && n >= 17 {
        // the format words: arbitrary, a valid one with a few symbolic flips, a valid one
        let (w1, w2) = match kind {
            0 => (sym::group(15) as u32, sym::group(15) as u32),
            1 => {
                let mut w = format_word((seed % 32) as u32);
                let f = sym::group(wl as u64) as u32;
                for i in 0..wl {
                    w ^= (f >> i & 1) << ((seed as usize + i * 4) % 15);
                }
                (w, w)
            }
            _ => (format_word((seed % 32) as u32), format_word((seed % 32) as u32)),
        };
        for i in 0..15 {
            let (x, y) = Mat::fmt1(i);
            g.m[y * n + x] = (w1 >> i & 1) as u8;
            let (x, y) = Mat::fmt2(n, i);
            g.m[y * n + x] = (w2 >> i & 1) as u8;
        }
    }
    if kind == 2 && wl > 0 && n > 10 {
        let w = sym::group(wl as u64);
        for i in 0..wl {
            let p = n * 9 + 9 + (seed as usize * 7 + i * 5) % (n * n - n * 10);
            g.m[p] ^= (w >> i & 1) as u8;
        }
    }
    let ver = Version::from_size(n);
    if kind == 0 {
        match Grid::new(g).get_raw_data() {
            Ok((m, raw)) => {
                sym::note(1);
                sym::check(m.ecc_level < 4 && m.mask < 8, 1);
                sym::check(m.version.0 >= 1 && m.version.0 <= 40, 2);
                sym::check(raw.len <= n * n, 3);
                sym::check(ver.is_ok(), 4);
            }
            Err(e) => {
                sym::note(2);
                sym::check(e == DeQRError::FormatEcc || e == DeQRError::InvalidVersion || e == DeQRError::InvalidGridSize, 5);
                sym::check(n >= 21 || e != DeQRError::FormatEcc, 6);
            }
        }
        return;
    }
    let mut o = Vec::new();
    match Grid::new(g).decode_to(&mut o) {
        Ok(m) => {
            sym::note(1);
            sym::check(m.version.0 >= 1 && m.version.0 <= 40 && m.ecc_level < 4 && m.mask < 8, 7);
            sym::check(n >= 21, 8);
            sym::out(1);
        }
        Err(e) => {
            sym::note(2);
            sym::out(100 + err_code(e));
            if n < 21 || n > 180 {
                sym::note(3);
                sym::check(e == DeQRError::InvalidVersion || e == DeQRError::InvalidGridSize, 9);
            }
        }
    }
}

/// C12: SimpleGrid holds exactly the modules its fill function returned.  params size.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_simple() {
    let n = sym::param(0);
    let mut want = vec![0u8; n * n];
    for i in 0..n * n {
        want[i] = sym::bits(1) as u8;
    }
    let s = SimpleGrid::from_func(n, |x, y| {
        sym::check(x < n && y < n, 90);
        want[y * n + x] == 1
    });
    sym::check(s.size() == n, 1);
    let c = s.clone();
    let g = Grid::new(s);
    sym::check(g.bounds.iter().all(|p| p.x == 0 && p.y == 0), 2);
    let mut d = 0u8;
    for y in 0..n {
        for x in 0..n {
            d |= g.grid.bit(y, x) as u8 ^ want[y * n + x];
            d |= c.bit(y, x) as u8 ^ want[y * n + x];
        }
    }
    sym::check(d == 0, 3);
    sym::note(1);
}

/// C12: Version <-> size, for every size.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_version() {
    let b = sym::bits(64) as usize;
    match Version::from_size(b) {
        Ok(v) => {
            sym::note(1);
            sym::check(v.0 >= 1 && v.0 <= 40, 1);
            sym::check(v.to_size() <= b && b < v.to_size() + 4, 2);
        }
        Err(e) => {
            sym::note(2);
            sym::check(e == DeQRError::InvalidVersion || e == DeQRError::InvalidGridSize, 3);
            sym::check(b < 21 || b > 180, 4);
        }
    }
    let v = sym::group(6) as usize;
    if v >= 1 && v <= 40 {
        sym::check(Version(v).to_size() == 17 + 4 * v, 5);
        match Version::from_size(17 + 4 * v) {
            Ok(x) => sym::check(x.0 == v, 6),
            Err(_) => sym::check(false, 7),
        }
    }
}

/// C12: RawData::push appends bits, most significant first.  params count.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_push() {
    let n = sym::param(0);
    let mut r = RawData { data: [0; rqrr::MAX_PAYLOAD_SIZE], len: 0 };
    let mut want = vec![];
    for _ in 0..n {
        let b = sym::bits(1) as u8;
        want.push(b);
        r.push(b == 1);
    }
    sym::check(r.len == n, 1);
    let mut d = 0u8;
    for i in 0..n {
        d |= (r.data[i / 8] >> (7 - i % 8) & 1) ^ want[i];
    }
    for i in n.div_ceil(8)..rqrr::MAX_PAYLOAD_SIZE {
        d |= r.data[i];
    }
    if n % 8 != 0 {
        d |= r.data[n / 8] << (n % 8);
    }
    sym::check(d == 0, 2);
    sym::note(1);
}

/// C07: a symbol that carries two messages?  No: upright reading wins whenever it is
/// readable, even if the payload is malformed.  params version, level, mask, window.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_mirror_payload() {
    let (v, lv, mask, mirrored) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    // first nibble symbolic: unknown modes, empty message, or a segment that does not fit
    let cap = data_cw(v, lv);
    let g = sym::group(4);
    let mut b = Bits::new();
    b.push(g, 4);
    while b.len() < cap * 8 {
        b.push(1, 1);
    }
    let mut q = symbol(v, lv, mask, &b.pack(cap));
    if mirrored == 1 {
        q = q.transposed();
    }
    let mut o = Vec::new();
    let got = match Grid::new(q).decode_to(&mut o) {
        Ok(_) => 0,
        Err(e) => err_code(e),
    };
    sym::out(got);
    let want = match g {
        0 => 0,
        1 | 2 | 4 | 8 => 2,
        7 => 99,
        _ => 4,
    };
    sym::note(1);
    sym::check(want == 99 || got == want, 1);
}
