//! Harnesses over Grid::decode / decode_to / get_raw_data (public API only).
use crate::qr::*;
use crate::sym;
use rqrr::{BitGrid, DeQRError, Grid, MetaData};

/// Deterministic concrete filler.
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

pub fn err_code(e: DeQRError) -> u64 {
    match e {
        DeQRError::IoError => 1,
        DeQRError::DataUnderflow => 2,
        DeQRError::DataOverflow => 3,
        DeQRError::UnknownDataType => 4,
        DeQRError::DataEcc => 5,
        DeQRError::FormatEcc => 6,
        DeQRError::InvalidVersion => 7,
        DeQRError::InvalidGridSize => 8,
        DeQRError::EncodingError => 9,
    }
}

#[inline(never)]
fn run<G: BitGrid>(g: G, o: &mut Vec<u8>) -> Result<MetaData, DeQRError> {
    Grid::new(g).decode_to(o)
}
#[inline(never)]
fn diff(a: &[u8], b: &[u8]) -> u8 {
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d
}

/// A byte-mode payload filling the symbol.  `k` = 0: every byte symbolic;
/// otherwise pseudo-random bytes with `k` (≤16) symbolic bits spread over them;
/// from 100 on: uniform content.
#[inline(never)]
pub fn full_payload(v: usize, lv: usize, k: usize, seed: u64) -> (Vec<u8>, Vec<u8>) {
    let cap = data_cw(v, lv);
    let cb = count_bits(v, 4);
    let n = (cap * 8 - 4 - cb) / 8;
    let mut b = Bits::new();
    b.push(4, 4);
    b.push(n as u64, cb);
    let mut pay = vec![0u8; n];
    if k == 0 {
        for i in 0..n {
            pay[i] = sym::bits(8) as u8;
        }
    } else {
        let mut r = Lcg(seed);
        for i in 0..n {
            pay[i] = match k {
                // nibbles of the padding codewords, in step with the codewords or out of it
                // (the data starts half-way into a codeword)
                100 => [0x1E, 0xC1][i % 2],
                101 => [0xC1, 0x1E][i % 2],
                102 => 0,
                103 => 0xff,
                104 => b"0123456789 ABC abc\n"[(r.next() % 19) as usize],
                _ => r.next() as u8,
            };
        }
        if k <= 16 {
            let g = sym::group(k as u64);
            for j in 0..k {
                let bit = (j * (n * 8 - 1)) / k + j % 3;
                pay[bit / 8] ^= (((g >> j) & 1) as u8) << (bit % 8);
            }
        }
    }
    for i in 0..n {
        b.push(pay[i] as u64, 8);
    }
    (pay, b.pack(cap))
}
#[inline(never)]
fn expect(r: Result<MetaData, DeQRError>, o: &[u8], v: usize, lv: usize, mask: usize, pay: &[u8]) {
    match r {
        Ok(m) => {
            sym::note(1);
            sym::check(m.version.0 == v, 1);
            sym::check(m.ecc_level as usize == lv, 2);
            sym::check(m.mask as usize == mask, 3);
            sym::check(o.len() == pay.len(), 4);
            sym::check(diff(o, pay) == 0, 5);
            if !o.is_empty() {
                sym::out(o[o.len() - 1] as u64);
            }
        }
        Err(e) => {
            sym::out(100 + err_code(e));
            sym::check(false, 6)
        }
    }
}

/// C01: params version, level, mask, k, flags.
/// flags bit0: present the symbol mirrored (C07); bit1: remainder modules symbolic.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_roundtrip() {
    let (v, lv, mask, k, fl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let (pay, data) = full_payload(v, lv, k, 7 + v as u64);
    let mut q = Mat::blank(v);
    let cw = codewords(v, lv, &data);
    let rest = raw_modules(v) - 8 * total_cw(v);
    let mut rm = vec![0u8; rest];
    if fl & 2 != 0 {
        for i in 0..rest {
            rm[i] = sym::bits(1) as u8;
        }
    }
    q.place(&cw, &rm, mask);
    let w = format_word((lv << 3 | mask) as u32);
    q.put_format(w, w);
    if fl & 1 != 0 {
        q = q.transposed();
    }
    let mut o = Vec::new();
    let r = run(q, &mut o);
    expect(r, &o, v, lv, mask, &pay);
}

/// 15-bit pattern of at most three flips, every such pattern reachable.
#[inline(never)]
fn flips3() -> u32 {
    let g = sym::group(12) as u32;
    let mut e = 0u32;
    for i in 0..15u32 {
        let mut b = 0u32;
        for k in 0..3 {
            b |= ((g >> (4 * k)) & 15 == i) as u32;
        }
        e |= b << i;
    }
    e
}
/// Any number below `n`, each on a path of its own.
#[inline(never)]
pub fn pick(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    let mut b = 1;
    while (1usize << b) < n {
        b += 1;
    }
    let g = sym::group(b);
    sym::assume(g < n as u64);
    sym::pick(g) as usize
}
/// Number of bits in which the read word differs from the codeword of `d`.
#[inline(never)]
fn fdist(w: u32, d: u32) -> u32 {
    let x = w ^ format_word(d);
    let mut c = 0u32;
    for i in 0..15 {
        c += (x >> i) & 1;
    }
    c
}
/// Metadata read when the two copies hold `w1` and `w2`: Ok(level*8+mask).
#[inline(never)]
fn read_meta(v: usize, w1: u32, w2: u32) -> Result<u32, DeQRError> {
    let mut q = Mat::blank(v);
    q.put_format(w1, w2);
    match Grid::new(q).get_raw_data() {
        Ok((m, _)) => {
            sym::check(m.version.0 == v, 1);
            sym::check(m.ecc_level < 4 && m.mask < 8, 2);
            Ok((m.ecc_level as u32) * 8 + m.mask as u32)
        }
        Err(e) => {
            sym::check(e == DeQRError::FormatEcc, 3);
            Err(e)
        }
    }
}

/// A damage of at most three bits, chosen by five bits and a seed.
fn fdamage(g: u32, seed: u32) -> u32 {
    let at = |i: u32| (seed + i * 4) % 15;
    (g & 1) << at(0) | (g >> 1 & 1) << at(1) | (g >> 2 & 1) << at(2)
}

/// C02: params version, kind.
/// 0: first copy ≤3 errors, second copy arbitrary.
/// 1: first copy arbitrary, second copy ≤3 errors: either the first copy is good enough on
///    its own - then a nearest codeword is reported - or the second one is used.
/// 2: two arbitrary copies, each unusable on its own.
/// 3, 4: as 2 and 1 with fewer symbolic bits, the others from the third parameter.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_format() {
    let (v, kind) = (sym::param(0), sym::param(1));
    match kind {
        0 => {
            let d = sym::bits(5) as u32;
            let w1 = format_word(d) ^ flips3();
            let w2 = sym::bits(15) as u32;
            match read_meta(v, w1, w2) {
                Ok(m) => {
                    sym::note(1);
                    sym::check(m == d, 4);
                    sym::out(m as u64);
                }
                Err(_) => sym::check(false, 5),
            }
        }
        1 | 4 => {
            let (d, w1, w2);
            if kind == 1 {
                d = sym::bits(5) as u32;
                w1 = sym::group(15) as u32;
                w2 = format_word(d) ^ flips3();
            } else {
                let mut r = Lcg(sym::param(2) as u64 * 977 + 7);
                let g = sym::group(10) as u32;
                d = sym::param(2) as u32 % 32;
                w1 = r.next() as u32 & 0x7fff ^ (g & 31) * 0x21 << r.below(5);
                w2 = format_word(d) ^ fdamage(g >> 5, sym::param(2) as u32);
            }
            match read_meta(v, w1, w1) {
                Ok(m) => {
                    sym::note(1);
                    sym::out(m as u64);
                    // m is a nearest codeword: no other one is strictly closer
                    let mut mine = 0u32;
                    let mut best = 99u32;
                    for x in 0..32u32 {
                        let k = fdist(w1, x);
                        mine |= k & 0u32.wrapping_sub((x == m) as u32);
                        best = if k < best { k } else { best };
                    }
                    sym::check(mine == best, 6);
                    match read_meta(v, w1, w2) {
                        Ok(m2) => sym::check(m2 == m, 7),
                        Err(_) => sym::check(false, 8),
                    }
                }
                Err(_) => {
                    sym::note(2);
                    match read_meta(v, w1, w2) {
                        Ok(m) => {
                            sym::check(m == d, 9);
                            sym::out(m as u64);
                        }
                        Err(_) => sym::check(false, 10),
                    }
                }
            }
        }
        _ => {
            let (w1, w2) = if kind == 2 {
                (sym::group(15) as u32, sym::group(15) as u32)
            } else {
                let mut r = Lcg(sym::param(2) as u64 * 977 + 3);
                let g = sym::group(10) as u32;
                (r.next() as u32 & 0x7fff ^ (g & 31) * 0x21 << r.below(5), r.next() as u32 & 0x7fff ^ (g >> 5) * 0x21 << r.below(5))
            };
            if read_meta(v, w1, w1).is_err() && read_meta(v, w2, w2).is_err() {
                sym::note(1);
                sym::check(read_meta(v, w1, w2).is_err(), 11);
            }
        }
    }
}

/// C02: whole decode with damaged format information.  params version, data5, which copy
/// carries the information (0 first, 1 second with the first one destroyed).
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_format_decode() {
    let (v, d, which) = (sym::param(0), sym::param(1), sym::param(2));
    let (lv, mask) = (d >> 3, d & 7);
    let (pay, data) = full_payload(v, lv, 99, 3);
    let mut q = symbol(v, lv, mask, &data);
    if which >= 2 {
        // mirrored (C07), both copies alike with two symbolic flips, one path per pattern
        let i = pick(15);
        let j = if which == 3 { pick(i + 1) } else { i };
        let w = format_word(d as u32) ^ (1 << i) ^ if j < i { 1 << j } else { 0 };
        q.put_format(w, w);
        let mut o = Vec::new();
        let r = run(q.transposed(), &mut o);
        expect(r, &o, v, lv, mask, &pay);
        return;
    }
    let w = format_word(d as u32) ^ flips3();
    if which == 0 {
        q.put_format(w, sym::bits(15) as u32);
    } else {
        // a word that is unusable on its own
        let mut junk = 0x1d;
        while read_meta(v, junk, junk).is_ok() {
            junk += 1;
        }
        q.put_format(junk, w);
    }
    let mut o = Vec::new();
    let r = run(q, &mut o);
    expect(r, &o, v, lv, mask, &pay);
}

/// Error pattern on block `b` of an interleaved codeword sequence.
#[inline(never)]
fn damage(cw: &mut [u8], v: usize, lv: usize, b: usize, kind: usize, nerr: usize, seed: u64, gbits: usize) {
    let len = block_lens(v, lv)[b] + ecw(v, lv);
    match kind {
        // one error: any position, any value
        0 => {
            let mut pb = 1;
            while (1usize << pb) < len {
                pb += 1;
            }
            let g = sym::group(8 + pb as u64);
            let val = (g & 255) as u8;
            let pos = (g >> 8) as usize;
            for k in 0..len {
                let hit = 0u8.wrapping_sub((pos == k) as u8);
                cw[interleaved_pos(v, lv, b, k)] ^= val & hit;
            }
        }
        // damage that a subset of the syndromes cannot see: a multiple of the polynomial
        // with the roots a^lo .. a^(lo+nerr-1) (a^seed left out), times a symbolic scalar
        7 | 8 => {
            let lo = if kind == 7 { 0 } else { ecw(v, lv) - nerr };
            let skip = if seed < 64 { seed as usize } else { 99 };
            let mut g = vec![1u8];
            let mut root = 1u8;
            for i in 0..lo + nerr {
                if i >= lo && i != skip {
                    // g * (x + root), highest coefficient first
                    let mut n = g.clone();
                    n.push(0);
                    for j in 0..g.len() {
                        n[j + 1] ^= gmul(g[j], root);
                    }
                    g = n;
                }
                root = gmul(root, 2);
            }
            let val = sym::group(8) as u8;
            let room = len - g.len();
            let at = if seed < 64 { room.min(3) } else { (seed as usize * 7) % (room + 1) };
            for (j, c) in g.iter().enumerate() {
                cw[interleaved_pos(v, lv, b, at + j)] ^= gmul(*c, val);
            }
        }
        // errors at fixed positions; the symbolic bits are spread over their values
        _ => {
            let mut pos: Vec<usize> = vec![];
            let mut r = Lcg(seed.wrapping_mul(77) + 5);
            for i in 0..nerr {
                let p = match kind {
                    1 => i,                    // burst at the start
                    2 => len - 1 - i,          // burst at the end (parity)
                    3 => i * len / nerr,       // spread
                    6 => {
                        // anywhere but in the segment header
                        let mut p = 3 + r.below(len - 3);
                        while pos.contains(&p) {
                            p = 3 + r.below(len - 3);
                        }
                        p
                    }
                    5 => {
                        // the pair/tuple numbered by seed
                        (seed as usize + i * (1 + seed as usize / len)) % len
                    }
                    _ => {
                        let mut p = r.below(len);
                        while pos.contains(&p) {
                            p = r.below(len);
                        }
                        p
                    }
                };
                if !pos.contains(&p) {
                    pos.push(p);
                }
            }
            let g = sym::group(gbits as u64);
            let per = gbits / pos.len();
            let extra = gbits % pos.len();
            let mut at = 0;
            for (i, p) in pos.iter().enumerate() {
                let nb = (if i < extra { per + 1 } else { per }).min(8);
                let base = if nb >= 8 { 0 } else { (r.next() as u8) | 0x80 };
                let val = base ^ ((g >> at) & ((1u64 << nb) - 1)) as u8;
                at += nb;
                cw[interleaved_pos(v, lv, b, *p)] ^= val;
            }
        }
    }
}

/// C03: params version, level, block (or 999 = all blocks), kind, nerr, seed, gbits, payload k.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_ecc() {
    let (v, lv, b, kind) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let (nerr, seed, gbits, k) = (sym::param(4), sym::param(5) as u64, sym::param(6), sym::param(7));
    let mask = (v + lv) % 8;
    let (pay, data) = full_payload(v, lv, k, seed);
    let mut q = Mat::blank(v);
    let mut cw = codewords(v, lv, &data);
    if b == 999 {
        for bb in 0..nblk(v, lv) {
            damage(&mut cw, v, lv, bb, kind, nerr, seed + bb as u64, gbits);
        }
    } else {
        damage(&mut cw, v, lv, b, kind, nerr, seed, gbits);
    }
    q.place(&cw, &[], mask);
    let w = format_word((lv << 3 | mask) as u32);
    q.put_format(w, w);
    let mut o = Vec::new();
    let r = run(q, &mut o);
    expect(r, &o, v, lv, mask, &pay);
}

/// C04: more errors than a block can correct.  Same params as h_ecc.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_ecc_beyond() {
    let (v, lv, b, kind) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let (nerr, seed, gbits, k) = (sym::param(4), sym::param(5) as u64, sym::param(6), sym::param(7));
    let mask = (v + lv) % 8;
    let (pay, data) = full_payload(v, lv, k, seed);
    let mut q = Mat::blank(v);
    let mut cw = codewords(v, lv, &data);
    damage(&mut cw, v, lv, b, kind, nerr, seed, gbits);
    q.place(&cw, &[], mask);
    let w = format_word((lv << 3 | mask) as u32);
    q.put_format(w, w);
    let mut o = Vec::new();
    match run(q, &mut o) {
        Ok(m) => {
            sym::note(2);
            sym::out(1);
            sym::check(m.version.0 == v && m.ecc_level as usize == lv && m.mask as usize == mask, 1);
            // The decoder claims to have found a codeword.  If the data it returned is
            // a byte segment of the original shape, re-encode it: the claimed symbol may
            // differ from the one read in at most half as many positions as there is parity.
            if o.len() == pay.len() {
                let cb = count_bits(v, 4);
                let mut bb = Bits::new();
                bb.push(4, 4);
                bb.push(pay.len() as u64, cb);
                for x in &o {
                    bb.push(*x as u64, 8);
                }
                let cw2 = codewords(v, lv, &bb.pack(data_cw(v, lv)));
                let len = block_lens(v, lv)[b] + ecw(v, lv);
                let mut dist = 0usize;
                for kk in 0..len {
                    let p = interleaved_pos(v, lv, b, kk);
                    dist += (cw2[p] != cw[p]) as usize;
                }
                // (with an odd number of parity codewords one error more than the
                // capacity is occasionally repaired, then to the original)
                if dist > (ecw(v, lv) + 1) / 2 && diff(&o, &pay) != 0 {
                    // the bits after the payload are not part of the output: try them all
                    let left = data_cw(v, lv) * 8 - 4 - cb - 8 * pay.len();
                    let mut best = dist;
                    for nib in 1..1u64 << left {
                        let mut b2 = Bits(bb.0.clone());
                        b2.push(nib, left);
                        let cw2 = codewords(v, lv, &b2.pack(data_cw(v, lv)));
                        let mut dist = 0usize;
                        for kk in 0..len {
                            let p = interleaved_pos(v, lv, b, kk);
                            dist += (cw2[p] != cw[p]) as usize;
                        }
                        best = if dist < best { dist } else { best };
                    }
                    sym::check(best <= (ecw(v, lv) + 1) / 2, 2);
                }
            }
        }
        Err(e) => {
            sym::note(1);
            sym::out(100 + err_code(e));
            // a corrected-but-different codeword may also hold malformed segments
            sym::check(
                e == DeQRError::DataEcc || e == DeQRError::DataUnderflow || e == DeQRError::UnknownDataType,
                3,
            );
        }
    }
}

/// C11: raw bit stream.  params version, level, mask.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_raw() {
    let (v, lv, mask) = (sym::param(0), sym::param(1), sym::param(2));
    let mut q = Mat::blank(v);
    let ord = q.data_order();
    let n = q.size;
    let mut bits = vec![0u8; ord.len()];
    for i in 0..ord.len() {
        bits[i] = sym::bits(1) as u8;
        q.m[ord[i].1 * n + ord[i].0] = bits[i];
    }
    let w = format_word((lv << 3 | mask) as u32);
    q.put_format(w, w);
    match Grid::new(q).get_raw_data() {
        Ok((m, raw)) => {
            sym::note(1);
            sym::check(m.version.0 == v && m.ecc_level as usize == lv && m.mask as usize == mask, 1);
            sym::check(raw.len == ord.len(), 2);
            let mut d = 0u8;
            for i in 0..ord.len() {
                d |= ((raw.data[i / 8] >> (7 - i % 8)) & 1) ^ bits[i];
            }
            sym::check(d == 0, 3);
            let mut z = 0u8;
            for i in ord.len()..rqrr::MAX_PAYLOAD_SIZE * 8 {
                if i % 8 == 0 {
                    z |= raw.data[i / 8];
                } else if i / 8 == ord.len() / 8 {
                    z |= (raw.data[i / 8] >> (7 - i % 8)) & 1;
                }
            }
            sym::check(z == 0, 4);
            sym::out(raw.len as u64);
        }
        Err(_) => sym::check(false, 5),
    }
}
