//! Harnesses over the image side: PreparedImage and detect_grids (public API only).
use crate::decode_props::{err_code, full_payload, Lcg};
use crate::qr::*;
use crate::sym;
use rqrr::{BitGrid, PreparedImage};

// (macros, because the buffer type of a PreparedImage cannot be named)
macro_rules! same_whiteness {
    ($img:expr, $p:expr, $w:expr, $h:expr, $id:expr) => {{
        let (img, p, w) = ($img, $p, $w);
        let mut bad = false;
        for y in 0..$h {
            for x in 0..w {
                bad |= (img.get_pixel_at(x, y) == 0u8) == (p[y * w + x] != 0);
            }
        }
        sym::check(!bad, $id);
    }};
}
macro_rules! same_pixels {
    ($img:expr, $p:expr, $w:expr, $h:expr) => {{
        let (img, p, w, h) = ($img, $p, $w, $h);
        sym::check(img.width() == w && img.height() == h, 3);
        let mut bad = false;
        for y in 0..h {
            for x in 0..w {
                let black = p[y * w + x] != 0;
                bad |= (img.get_pixel_at(x, y) == 1u8) != black;
                bad |= (img.get_pixel_at(x, y) == 0u8) == black;
            }
        }
        sym::check(!bad, 4);
        // points outside take the colour of the nearest pixel
        if w > 0 && h > 0 {
        let (wi, hi) = (w as i32, h as i32);
        let xs = [i32::MIN, -1, 0, 1.min(wi - 1), wi / 2, wi - 1, wi, wi + 1, i32::MAX];
        let ys = [i32::MIN, -1, 0, 1.min(hi - 1), hi / 2, hi - 1, hi, hi + 1, i32::MAX];
        let mut bad = false;
        for y in ys {
            for x in xs {
                let q = p[y.clamp(0, hi - 1) as usize * w + x.clamp(0, wi - 1) as usize];
                bad |= (img.get_pixel_at_point(rqrr::Point { x, y }) == 0u8) == (q != 0);
            }
        }
        sym::check(!bad, 5);
        }
    }};
}

macro_rules! one_symbol {
    ($img:expr, $one:expr) => {{
        let mut img = $img;
        let grids = img.detect_grids();
        sym::check(grids.len() == 1, 1);
        $one.check(&grids[0]);
    }};
}

#[rustfmt::skip]
const SIN: [i64; 91] = [0, 286, 572, 857, 1143, 1428, 1713, 1997, 2280, 2563, 2845, 3126, 3406, 3686, 3964, 4240, 4516, 4790, 5063, 5334, 5604, 5872, 6138, 6402, 6664, 6924, 7182, 7438, 7692, 7943, 8192, 8438, 8682, 8923, 9162, 9397, 9630, 9860, 10087, 10311, 10531, 10749, 10963, 11174, 11381, 11585, 11786, 11982, 12176, 12365, 12551, 12733, 12911, 13085, 13255, 13421, 13583, 13741, 13894, 14044, 14189, 14330, 14466, 14598, 14726, 14849, 14968, 15082, 15191, 15296, 15396, 15491, 15582, 15668, 15749, 15826, 15897, 15964, 16026, 16083, 16135, 16182, 16225, 16262, 16294, 16322, 16344, 16362, 16374, 16382, 16384];
fn sin(d: i64) -> i64 {
    let d = d.rem_euclid(360);
    match d {
        0..=90 => SIN[d as usize],
        91..=180 => SIN[180 - d as usize],
        181..=270 => -SIN[d as usize - 180],
        _ => -SIN[360 - d as usize],
    }
}

/// Where a symbol lies in the picture: a homography in 16.16 fixed point that maps module
/// coordinates (u, v) to pixels.
#[derive(Clone, Copy)]
pub struct Place {
    pub h: [i64; 9],
    pub inv: [i64; 9],
}
impl Place {
    /// `s16` sixteenths of a pixel per module, turned by `rot` degrees, `flip` swaps the two
    /// directions (a mirrored symbol), foreshortened by `gx`, `gy` percent over the symbol,
    /// the second direction slanted by `sl` degrees; module (0,0) at pixel (x0, y0)/16.
    pub fn new(size: usize, s16: i64, rot: i64, flip: bool, gx: i64, gy: i64, sl: i64, x0: i64, y0: i64) -> Place {
        // 16.16 from s16/16 * sin/2^14
        let f = |d: i64| s16 * sin(d + 90) / 4;
        let g = |d: i64| s16 * sin(d) / 4;
        let mut a = (f(rot), g(rot));
        let mut b = (f(rot + 90 + sl), g(rot + 90 + sl));
        if flip {
            std::mem::swap(&mut a, &mut b);
        }
        let n = size as i64;
        let (p, q) = (gx * 65536 / (100 * n), gy * 65536 / (100 * n));
        // x = (a u + b v + x0) / (1 + p u + q v), kept upright by adding the origin's share
        let (ox, oy) = (x0 * 4096, y0 * 4096);
        let h = [
            a.0 + p * (x0 / 16), b.0 + q * (x0 / 16), ox,
            a.1 + p * (y0 / 16), b.1 + q * (y0 / 16), oy,
            p, q, 65536,
        ];
        let i = |a: usize, b: usize, c: usize, d: usize| (h[a] * h[d] - h[b] * h[c]) >> 12;
        let mut inv = [
            i(4, 5, 7, 8), -i(1, 2, 7, 8), i(1, 2, 4, 5),
            -i(3, 5, 6, 8), i(0, 2, 6, 8), -i(0, 2, 3, 5),
            i(3, 4, 6, 7), -i(0, 1, 6, 7), i(0, 1, 3, 4),
        ];
        if flip {
            // the adjugate of an orientation-reversing map is negative
            for c in inv.iter_mut() {
                *c = -*c;
            }
        }
        Place { h, inv }
    }
    /// Pixel position (in 1/16) of the module coordinate (u, v)/2.
    pub fn at(&self, u2: i64, v2: i64) -> (i64, i64) {
        let h = &self.h;
        let w = h[6] * u2 + h[7] * v2 + 2 * h[8];
        let x = h[0] * u2 + h[1] * v2 + 2 * h[2];
        let y = h[3] * u2 + h[4] * v2 + 2 * h[5];
        (x * 16 / w, y * 16 / w)
    }
    /// The same place moved so that everything (with `q` modules of margin) has positive
    /// coordinates; also the size of the picture that holds it.
    pub fn fit(size: usize, q: i64, ox: usize, oy: usize, mk: &dyn Fn(i64, i64) -> Place) -> (Place, usize, usize) {
        let n = 2 * size as i64;
        let ext = |p: &Place| {
            let c = [p.at(-2 * q, -2 * q), p.at(n + 2 * q, -2 * q), p.at(n + 2 * q, n + 2 * q), p.at(-2 * q, n + 2 * q)];
            let mut e = (c[0].0, c[0].1, c[0].0, c[0].1);
            for k in c {
                e = (e.0.min(k.0), e.1.min(k.1), e.2.max(k.0), e.3.max(k.1));
            }
            e
        };
        let e = ext(&mk(0, 0));
        let p = mk((ox as i64 - e.0.div_euclid(16)) * 16, (oy as i64 - e.1.div_euclid(16)) * 16);
        let e = ext(&p);
        (p, ((e.2 + 15) / 16) as usize, ((e.3 + 15) / 16) as usize)
    }
}

/// A black-and-white picture; one byte (0/1) per pixel, possibly symbolic.
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub p: Vec<u8>,
}
impl Pic {
    pub fn new(w: usize, h: usize) -> Pic {
        Pic { w, h, p: vec![0u8; w * h] }
    }
    /// Module a pixel belongs to.
    fn module(&self, pl: &Place, x: usize, y: usize, size: usize) -> Option<(usize, usize)> {
        let t = &pl.inv;
        let (xx, yy) = (2 * x as i64 + 1, 2 * y as i64 + 1);
        let w = t[6] * xx + t[7] * yy + 2 * t[8];
        let u = t[0] * xx + t[1] * yy + 2 * t[2];
        let v = t[3] * xx + t[4] * yy + 2 * t[5];
        if w <= 0 || u < 0 || v < 0 {
            return None;
        }
        let (mu, mv) = ((u / w) as usize, (v / w) as usize);
        if mu < size && mv < size {
            Some((mu, mv))
        } else {
            None
        }
    }
    #[inline(never)]
    pub fn draw(&mut self, q: &Mat, pl: &Place) {
        for y in 0..self.h {
            for x in 0..self.w {
                if let Some((u, v)) = self.module(pl, x, y, q.size) {
                    self.p[y * self.w + x] = q.m[v * q.size + u];
                }
            }
        }
    }
}

/// Flip up to `k` symbolic modules inside `t` codewords of the symbol.
#[inline(never)]
fn flip_modules(q: &mut Mat, t: usize, k: usize, seed: u64) {
    if k == 0 || t == 0 {
        return;
    }
    let g = sym::group(k as u64);
    let ord = q.data_order();
    let ncw = ord.len() / 8;
    let mut r = Lcg(seed.wrapping_mul(0x9e37) + 11);
    let t = t.min(ncw);
    let mut cws: Vec<usize> = vec![];
    while cws.len() < t.min(k) {
        let c = r.below(ncw);
        if !cws.contains(&c) {
            cws.push(c);
        }
    }
    let mut used: Vec<usize> = vec![];
    for i in 0..k {
        let mut m = cws[i % cws.len()] * 8 + r.below(8);
        while used.contains(&m) {
            m = cws[i % cws.len()] * 8 + r.below(8);
        }
        used.push(m);
        let (x, y) = ord[m];
        let s = q.size;
        q.m[y * s + x] ^= ((g >> i) & 1) as u8;
    }
}

/// Everything that must hold for a grid found for symbol `q` (already carrying its damage).
#[inline(never)]
fn check_grid<G: BitGrid>(gr: &rqrr::Grid<G>, q: &Mat, pl: &Place, flip: bool, base: u64, s16: i64, modules: bool, bounds: bool) {
    sym::check(gr.grid.size() == q.size, base);
    let n = q.size;
    let mut bad = 0u8;
    for y in 0..n {
        for x in 0..n {
            // a mirrored symbol is read transposed
            let m = if flip { q.m[x * n + y] } else { q.m[y * n + x] };
            bad |= gr.grid.bit(y, x) as u8 ^ m;
        }
    }
    if modules {
        sym::check(bad == 0, base + 1);
    }
    if !bounds {
        return;
    }
    let e = 2 * n as i64;
    let mut c = [pl.at(0, 0), pl.at(e, 0), pl.at(e, e), pl.at(0, e)];
    if flip {
        c.swap(1, 3);
    }
    // the reported corners may be off by a little more than one module
    let tol = s16 * 7 / 4 + 24;
    for i in 0..4 {
        let (dx, dy) = (gr.bounds[i].x as i64 * 16 + 8 - c[i].0, gr.bounds[i].y as i64 * 16 + 8 - c[i].1);
        sym::check(dx.abs() <= tol && dy.abs() <= tol, base + 2);
    }
}
#[inline(never)]
fn check_decode<G: BitGrid>(gr: &rqrr::Grid<G>, v: usize, lv: usize, mask: usize, pay: &[u8], base: u64) {
    let mut o = Vec::new();
    match gr.decode_to(&mut o) {
        Ok(m) => {
            sym::check(m.version.0 == v && m.ecc_level as usize == lv && m.mask as usize == mask, base);
            sym::check(o.len() == pay.len(), base + 1);
            let mut d = 0u8;
            for i in 0..o.len() {
                d |= o[i] ^ pay[i];
            }
            sym::check(d == 0, base + 2);
        }
        Err(e) => {
            sym::out(100 + err_code(e));
            sym::check(false, base + 3);
        }
    }
}

/// C17, C19: one symbol in a picture.
/// params: version, level, mask, s16, rot, flip, gx, gy, slant, margin, k, seed,
///         what (+1 no module check, +2 no bounds check, +4 no decoding), how (0 bitmap, 1 grey levels,
///         2 grey image, 3 black-and-white image), dark, light, ramp, symbolic pixels,
///         white pixels added to the left, above, to the right and below
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_detect() {
    let (v, lv, mask, s16) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) as i64);
    let (rot, flip, gx, gy, sl) = (sym::param(4) as i64, sym::param(5) != 0, sym::param(6) as i64, sym::param(7) as i64, sym::param(8) as i64);
    let (margin, k, seed) = (sym::param(9) as i64, sym::param(10), sym::param(11) as u64);
    let (what, how, np) = (sym::param(12), sym::param(13), sym::param(17));
    let (pay, data) = full_payload(v, lv, 99, seed + 1);
    let mut q = symbol(v, lv, mask, &data);
    flip_modules(&mut q, ecw(v, lv) / 2, k, seed);
    let (pl, w, h) = Place::fit(q.size, margin, sym::param(18), sym::param(19), &|x, y| Place::new(q.size, s16, rot, flip, gx, gy, sl, x, y));
    let (w, h) = (w + sym::param(20), h + sym::param(21));
    let mut p = Pic::new(w, h);
    p.draw(&q, &pl);
    if np > 0 {
        p.specks(&q, &pl, np, seed);
    }
    let one = One { q: &q, pl: &pl, flip, s16, what, v, lv, mask, pay: &pay };
    match how {
        0 => one_symbol!(PreparedImage::prepare_from_bitmap(w, h, |x, y| p.p[y * w + x] != 0), one),
        1 => {
            let g = p.shades(sym::param(14), sym::param(15), sym::param(16), seed);
            one_symbol!(PreparedImage::prepare_from_greyscale(w, h, |x, y| g[y * w + x]), one)
        }
        2 => {
            let g = p.shades(sym::param(14), sym::param(15), sym::param(16), seed);
            one_symbol!(PreparedImage::prepare(image::GrayImage::from_raw(w as u32, h as u32, g).unwrap()), one)
        }
        _ => one_symbol!(PreparedImage::without_preparation(image::GrayImage::from_raw(w as u32, h as u32, p.p.clone()).unwrap()), one),
    }
    sym::note(1);
}
/// What is expected of the only grid of a picture.
struct One<'a> {
    q: &'a Mat,
    pl: &'a Place,
    flip: bool,
    s16: i64,
    what: usize,
    v: usize,
    lv: usize,
    mask: usize,
    pay: &'a [u8],
}
impl One<'_> {
    #[inline(never)]
    fn check<G: BitGrid>(&self, g: &rqrr::Grid<G>) {
        check_grid(g, self.q, self.pl, self.flip, 2, self.s16, self.what & 1 == 0, self.what & 2 == 0);
        if self.what & 4 == 0 {
            check_decode(g, self.v, self.lv, self.mask, self.pay, 5);
        }
    }
}
impl Pic {
    /// Grey levels: dark and light modules, lit unevenly, with slight noise.
    #[inline(never)]
    fn shades(&self, dark: usize, light: usize, ramp: usize, seed: u64) -> Vec<u8> {
        let mut r = Lcg(seed + 99);
        let mut g = vec![0u8; self.w * self.h];
        for y in 0..self.h {
            for x in 0..self.w {
                let i = y * self.w + x;
                let lit = 100 - ramp * (x + y) / (self.w + self.h);
                let n = r.below(5);
                let (a, b) = ((dark * lit / 100 + n).min(255) as u8, (light * lit / 100 + n).min(255) as u8);
                g[i] = if self.p[i] == 0 { b } else { a };
            }
        }
        g
    }
    /// Flip `n` symbolic pixels that lie inside data modules of half the correction capacity.
    #[inline(never)]
    fn specks(&mut self, q: &Mat, pl: &Place, n: usize, seed: u64) {
        let ord = q.data_order();
        let g = sym::group(n as u64);
        let mut r = Lcg(seed * 5 + 2);
        let mut used: Vec<usize> = vec![];
        // all in the same three codewords
        let cw = [r.below(ord.len() / 8), r.below(ord.len() / 8), r.below(ord.len() / 8)];
        for i in 0..n {
            for _ in 0..100 {
                let (u, v) = ord[cw[i % 3] * 8 + r.below(8)];
                let (x, y) = pl.at(2 * u as i64 + 1, 2 * v as i64 + 1);
                let (x, y) = ((x / 16) as usize + r.below(3) - 1, (y / 16) as usize + r.below(3) - 1);
                let at = y * self.w + x;
                if !used.contains(&at) {
                    used.push(at);
                    self.p[at] ^= ((g >> i) & 1) as u8;
                    break;
                }
            }
        }
    }
}

/// C18: several symbols in one picture.
/// params: n symbols, seed, s16, angles (0 none, 1 quarter turns, 2 any), largest version, k, gap, mirrored too, columns (0: about as many as rows)
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_multi() {
    let (n, seed, s16, ang, vmax) = (sym::param(0), sym::param(1) as u64, sym::param(2) as i64, sym::param(3), sym::param(4));
    let (k, gap, mir) = (sym::param(5), sym::param(6), sym::param(7) != 0);
    let mut r = Lcg(seed.wrapping_mul(7177) + 31);
    let mut syms: Vec<(usize, usize, usize, Vec<u8>, Mat, i64, bool)> = vec![];
    for i in 0..n {
        let (v, lv, mask) = (1 + r.below(vmax), r.below(4), r.below(8));
        let (pay, data) = full_payload(v, lv, 99, seed * 16 + i as u64 + 1);
        let mut q = symbol(v, lv, mask, &data);
        if i == seed as usize % n {
            flip_modules(&mut q, ecw(v, lv) / 2, k, seed);
        }
        let rot = match ang {
            0 => 0,
            1 => 90 * r.below(4) as i64,
            _ => r.below(360) as i64,
        };
        let f = mir && r.below(2) == 0;
        syms.push((v, lv, mask, pay, q, rot, f));
    }
    // left to right, top to bottom
    let cols = match sym::param(8) {
        0 => (1..=n).find(|c| c * c >= n).unwrap(),
        c => c,
    };
    let (mut x, mut y, mut low, mut wide) = (0usize, 0usize, 0usize, 0usize);
    let mut places = vec![];
    for (i, (_, _, _, _, q, rot, f)) in syms.iter().enumerate() {
        if i % cols == 0 && i > 0 {
            x = 0;
            y = low;
        }
        let (jx, jy) = if gap > 0 { (r.below(gap), r.below(gap)) } else { (0, 0) };
        let (pl, w, h) = Place::fit(q.size, 4, x + jx, y + jy, &|x, y| Place::new(q.size, s16, *rot, *f, 0, 0, 0, x, y));
        places.push(pl);
        x = w;
        low = low.max(h);
        wide = wide.max(w);
    }
    let mut p = Pic::new(wide, low);
    for (i, s) in syms.iter().enumerate() {
        p.draw(&s.4, &places[i]);
    }
    let (w, h) = (p.w, p.h);
    let mut img = PreparedImage::prepare_from_bitmap(w, h, |x, y| p.p[y * w + x] != 0);
    let grids = img.detect_grids();
    sym::check(grids.len() == n, 1);
    for (i, (v, lv, mask, pay, q, _, f)) in syms.iter().enumerate() {
        let e = q.size as i64;
        let c = places[i].at(e, e);
        let mut hit = 0;
        for g in grids.iter() {
            // the centre of the grid, roughly
            let (mx, my) = (g.bounds.iter().map(|b| b.x as i64).sum::<i64>() * 4, g.bounds.iter().map(|b| b.y as i64).sum::<i64>() * 4);
            if (mx - c.0).abs() < s16 * 5 && (my - c.1).abs() < s16 * 5 {
                hit += 1;
                check_grid(g, q, &places[i], *f, 2, s16, false, false);
                check_decode(g, *v, *lv, *mask, pay, 5);
            }
        }
        sym::check(hit == 1, 9);
    }
    sym::note(1);
}

/// C18: a symbol among many small patterns that are candidates only.
/// params: version, px per module, dots across, dot rows, where (0 above, 1 below, 2 left, 3 right), k, seed
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_crowd() {
    let (v, s, a, b, at, k, seed) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4), sym::param(5), sym::param(6) as u64);
    let (pay, data) = full_payload(v, 1, 99, seed + 1);
    let mut q = symbol(v, 1, seed as usize % 8, &data);
    flip_modules(&mut q, ecw(v, 1) / 2, k, seed);
    let n = (q.size + 8) * s;
    let (dw, dh) = (9 * a, 2 * b + 1);
    let mut d = Pic::new(dw, dh);
    d.dots(a, b);
    let (w, h, dx, dy, sx, sy) = match at {
        0 => (dw.max(n), dh + n, 0, 0, 0, dh),
        1 => (dw.max(n), dh + n, 0, n, 0, 0),
        2 => (dw + n, dh.max(n), 0, 0, dw, 0),
        _ => (dw + n, dh.max(n), n, 0, 0, 0),
    };
    let mut p = Pic::new(w, h);
    for y in 0..dh {
        for x in 0..dw {
            p.set(dx + x, dy + y, d.p[y * dw + x]);
        }
    }
    p.blit(&q, sx + 4 * s, sy + 4 * s, s);
    let o = |x: i64, y: i64| Place::new(q.size, 16 * s as i64, 0, false, 0, 0, 0, x, y);
    let pl = o(16 * (sx + 4 * s) as i64, 16 * (sy + 4 * s) as i64);
    let one = One { q: &q, pl: &pl, flip: false, s16: 16 * s as i64, what: 0, v, lv: 1, mask: seed as usize % 8, pay: &pay };
    let mut img = PreparedImage::prepare_from_bitmap(w, h, |x, y| p.p[y * w + x] != 0);
    {
        let grids = img.detect_grids();
        sym::check(grids.len() == 1, 1);
        one.check(&grids[0]);
    }
    same_whiteness!(&img, &p.p, w, h, 10);
    sym::note(1);
}

// ------------------------------------------------------------------ pixels
/// `k` symbolic input bits scattered over `p` (values 0/1), the rest pseudo-random.
#[inline(never)]
fn noise(p: &mut [u8], k: usize, seed: u64) {
    let mut r = Lcg(seed.wrapping_mul(77) + 5);
    for b in p.iter_mut() {
        *b = (r.next() & 1) as u8;
    }
    if p.is_empty() {
        return;
    }
    let k = k.min(p.len());
    let g = if k == 0 || k > 16 { 0 } else { sym::group(k as u64) };
    for i in 0..k {
        let at = (i * p.len() / k + r.below((p.len() / k).max(1))).min(p.len() - 1);
        p[at] = if k > 16 { sym::bits(1) as u8 } else { ((g >> i) & 1) as u8 };
    }
}

/// C14: prepare_from_bitmap / without_preparation hold exactly the given pixels.
/// params: w, h, k symbolic pixels, seed, how (0 bitmap, 1 image without preparation)
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_bitmap() {
    let (w, h, k, seed, how) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) as u64, sym::param(4));
    let mut p = vec![0u8; w * h];
    noise(&mut p, k, seed);
    if how == 0 {
        let mut asked = vec![0u8; w * h];
        let img = PreparedImage::prepare_from_bitmap(w, h, |x, y| {
            sym::check(x < w && y < h, 1);
            asked[y * w + x] += 1;
            p[y * w + x] != 0
        });
        for n in asked {
            sym::check(n == 1, 2);
        }
        same_pixels!(&img, &p, w, h);
    } else {
        let raw: Vec<u8> = p.clone();
        let img = image::GrayImage::from_raw(w as u32, h as u32, raw).unwrap();
        same_pixels!(&PreparedImage::without_preparation(img), &p, w, h);
    }
    sym::note(1);
}


/// Grey levels for the binarisation harness; `k` symbolic bits in the low or high bits of
/// scattered pixels.
#[inline(never)]
fn greys(w: usize, h: usize, kind: usize, k: usize, seed: u64) -> Vec<u8> {
    let mut r = Lcg(seed.wrapping_mul(131) + 7);
    let mut p = vec![0u8; w * h];
    let (lo, hi) = (r.below(120), 130 + r.below(120));
    for y in 0..h {
        for x in 0..w {
            p[y * w + x] = match kind {
                0 => r.below(256),
                // a dark and a light level with a little noise
                1 => if r.below(2) == 0 { lo + r.below(6) } else { hi + r.below(6) },
                // a brightness ramp with dark spots
                2 => (x * 200 / w + 30) / (1 + 2 * (r.below(3) == 0) as usize),
                3 => if y % 2 == 0 { x * 255 / w } else { 255 - x * 255 / w },
                4 => 255,
                5 => 0,
                _ => if (x / 3 + y / 3) % 2 == 0 { lo } else { hi },
            } as u8;
        }
    }
    // one to four bytes with symbolic bits
    let mut left = k;
    while left > 0 {
        let n = left.min(8);
        left -= n;
        let at = r.below(w * h);
        let g = sym::group(n as u64) as u8;
        p[at] = if n == 8 { g } else { p[at] ^ (g << (8 - n)) };
    }
    p
}
/// The documented rule: black iff darker than 95% of half the sum of two running averages,
/// one along the direction of the scan and one against it.
#[inline(never)]
fn threshold(p: &[u8], w: usize, h: usize) -> Vec<u8> {
    let t = (w / 8).max(1) as u64;
    let mut out = vec![0u8; w * h];
    let (mut a, mut b) = (0u64, 0u64);
    for y in 0..h {
        let mut sum = vec![0u64; w];
        for i in 0..w {
            let j = w - 1 - i;
            let (f, g) = if y % 2 == 1 { (i, j) } else { (j, i) };
            a = a * (t - 1) / t + p[y * w + f] as u64;
            b = b * (t - 1) / t + p[y * w + g] as u64;
            sum[f] += a;
            sum[g] += b;
        }
        for x in 0..w {
            out[y * w + x] = ((p[y * w + x] as u64) < sum[x] * 95 / (200 * t)) as u8;
        }
    }
    out
}

/// C13: binarisation. params: w, h, kind, k, seed, how (0 greyscale closure, 1 image)
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_grey() {
    let (w, h, kind, k, seed, how) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4) as u64, sym::param(5));
    let p = greys(w, h, kind, k, seed);
    let want = threshold(&p, w, h);
    if how == 0 {
        let img = PreparedImage::prepare_from_greyscale(w, h, |x, y| {
            sym::check(x < w && y < h, 1);
            p[y * w + x]
        });
        same_pixels!(&img, &want, w, h);
    } else {
        let img = image::GrayImage::from_raw(w as u32, h as u32, p).unwrap();
        same_pixels!(&PreparedImage::prepare(img), &want, w, h);
    }
    sym::note(1);
}

// --------------------------------------------------------------- templates
#[rustfmt::skip]
fn cap_module(x: i64, y: i64) -> bool {
    (0..7).contains(&x) && (0..7).contains(&y) && (x == 0 || x == 6 || y == 0 || y == 6 || ((2..=4).contains(&x) && (2..=4).contains(&y)))
}
impl Pic {
    fn set(&mut self, x: usize, y: usize, v: u8) {
        if x < self.w && y < self.h {
            self.p[y * self.w + x] = v;
        }
    }
    /// A locator pattern with `sx` x `sy` pixels per module.
    #[inline(never)]
    fn cap(&mut self, x0: usize, y0: usize, sx: usize, sy: usize) {
        for y in 0..7 * sy {
            for x in 0..7 * sx {
                self.set(x0 + x, y0 + y, cap_module((x / sx) as i64, (y / sy) as i64) as u8);
            }
        }
    }
    /// A locator pattern under a homography.
    #[inline(never)]
    fn cap_at(&mut self, pl: &Place, u0: i64, v0: i64) {
        let n = (u0.max(v0) + 7) as usize;
        for y in 0..self.h {
            for x in 0..self.w {
                if let Some((u, v)) = self.module(pl, x, y, n) {
                    let (u, v) = (u as i64 - u0, v as i64 - v0);
                    if (0..7).contains(&u) && (0..7).contains(&v) {
                        self.p[y * self.w + x] = cap_module(u, v) as u8;
                    }
                }
            }
        }
    }
    #[inline(never)]
    fn blit(&mut self, q: &Mat, x0: usize, y0: usize, s: usize) {
        for y in 0..q.size * s {
            for x in 0..q.size * s {
                self.set(x0 + x, y0 + y, q.m[(y / s) * q.size + x / s]);
            }
        }
    }
}
struct Xs(u64);
impl Xs {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0 >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
/// Pictures around the places where detection can go wrong.
#[inline(never)]
fn template(kind: usize, a: usize, b: usize, seed: u64) -> Pic {
    let mut r = Lcg(seed.wrapping_mul(977) + 3);
    match kind {
        // noise
        0 => {
            let mut p = Pic::new(a, b);
            for x in p.p.iter_mut() {
                *x = (r.below(8) < 1 + seed as usize % 7) as u8;
            }
            p
        }
        // one locator pattern, `b` pixels away from every border
        1 => {
            let mut p = Pic::new(7 * a + 2 * b, 7 * a + 2 * b);
            p.cap(b, b, a, a);
            p
        }
        // three locator patterns `b` modules apart, with noise, stripes or nothing between
        2 => {
            let n = (b + 7) * a + 2;
            let mut p = Pic::new(n, n);
            for y in 0..n {
                for x in 0..n {
                    p.p[y * n + x] = match seed % 4 {
                        0 => 0,
                        1 => (r.below(4) == 0) as u8,
                        2 => ((x ^ y) & 1) as u8,
                        _ => (x / a % 2 == 1 || y / a % 2 == 1) as u8,
                    };
                }
            }
            for (x, y) in [(0, 0), (b, 0), (0, b)] {
                for i in 0..8 * a {
                    for j in 0..8 * a {
                        let (u, v) = ((x * a + i + 1).saturating_sub(if x > 0 { a } else { 0 }), (y * a + j + 1).saturating_sub(if y > 0 { a } else { 0 }));
                        p.set(u, v, 0);
                    }
                }
                p.cap(x * a + 1, y * a + 1, a, a);
            }
            p
        }
        // a symbol of version `b`
        3 => {
            let (_, data) = full_payload(b, 1, 99, seed);
            let q = symbol(b, 1, seed as usize % 8, &data);
            let n = (q.size + 4) * a;
            let mut p = Pic::new(n, n);
            p.blit(&q, 2 * a, 2 * a, a);
            p
        }
        // a x b small one-line patterns
        4 => {
            let mut p = Pic::new(9 * a, 2 * b + 40);
            p.dots(a, b);
            p
        }
        // stretched locator pattern
        5 => {
            let mut p = Pic::new(7 * a + 1, 7 * b + 1);
            p.cap(0, 0, a, b);
            p
        }
        // a locator pattern with dents
        6 => {
            let mut p = Pic::new(7 * a + 4, 7 * a + 4);
            p.cap(2, 2, a, a);
            for _ in 0..b {
                let (x, y, s) = (r.below(p.w), r.below(p.h), 1 + r.below(2 * a));
                let v = r.below(2) as u8;
                for j in 0..s {
                    for i in 0..s {
                        p.set(x + i, y + j, v);
                    }
                }
            }
            p
        }
        // locator patterns in strong perspective
        7 => {
            let mut p = Pic::new(a, b);
            for _ in 0..4 {
                let (s, rot, g, h) = (24 + 8 * r.below(6) as i64, r.below(360) as i64, r.below(80) as i64, r.below(80) as i64);
                let (x, y) = (16 * r.below(a) as i64, 16 * r.below(b) as i64);
                let pl = Place::new(21, s, rot, r.below(2) == 0, g, h, r.below(60) as i64 - 30, x, y);
                p.cap_at(&pl, 0, 0);
            }
            p
        }
        // three locator patterns with dents, as corners of something
        8 => {
            let n = (b + 7) * a + 2;
            let mut p = Pic::new(n, n);
            for (x, y) in [(0, 0), (b, 0), (0, b)] {
                p.cap(x * a + 1, y * a + 1, a, a);
            }
            for i in 0..b * a {
                let t = ((i / a) % 2 == 0) as u8;
                for j in 0..a {
                    if i >= 8 * a && i < (b - 1) * a {
                        p.set(1 + i, 1 + 6 * a + j, t);
                        p.set(1 + 6 * a + j, 1 + i, t);
                    }
                }
            }
            for _ in 0..2 + r.below(6) {
                let (x, y, s) = (r.below(p.w), r.below(p.h), 1 + r.below(2 * a));
                let v = (r.below(3) != 0) as u8;
                for j in 0..s {
                    for i in 0..s {
                        p.set(x + i, y + j, v);
                    }
                }
            }
            p
        }
        // slanted locator patterns on noise, with lines and boxes over them
        10 => {
            let mut r = Xs(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
            for _ in 0..5 {
                r.next();
            }
            let (w, h) = (20 + r.below(70), 20 + r.below(70));
            let mut p = Pic::new(w, h);
            let dens = r.below(12);
            for i in 0..w * h {
                p.p[i] = (dens > 4 && r.below(100) < dens * 4 - 16) as u8;
            }
            let ncap = 1 + r.below(6);
            let s0 = 1 + r.below(3);
            let (cx0, cy0) = (r.below(w) as i64, r.below(h) as i64);
            let dist = ((7 + r.below(20)) * s0) as i64;
            for c in 0..ncap {
                let s = if r.below(4) == 0 { 1 + r.below(4) } else { s0 } as i64;
                let (mut x0, mut y0) = if c < 3 { (cx0 + [0, dist, 0][c], cy0 + [0, 0, dist][c]) } else { (r.below(w) as i64, r.below(h) as i64) };
                x0 += r.below(3) as i64 - 1;
                y0 += r.below(3) as i64 - 1;
                let sh = r.below(7) as i64 - 3;
                let shx = r.below(7) as i64 - 3;
                for y in 0..7 * s {
                    for x in 0..7 * s {
                        let px = x0 + x + if r.0 & 1 == 0 { 0 } else { y * shx / 8 };
                        let py = y0 + y + x * sh / 8;
                        if px >= 0 && py >= 0 {
                            p.set(px as usize, py as usize, cap_module(x / s, y / s) as u8);
                        }
                    }
                }
            }
            for _ in 0..r.below(6) {
                let (x0, y0) = (r.below(w), r.below(h));
                let (lw, lh) = match r.below(3) {
                    0 => (1 + r.below(30), 1),
                    1 => (1, 1 + r.below(30)),
                    _ => (1 + r.below(12), 1 + r.below(12)),
                };
                let v = (r.below(2) == 0) as u8;
                for y in y0..y0 + lh {
                    for x in x0..x0 + lw {
                        p.set(x, y, v);
                    }
                }
            }
            p
        }
        // everything one colour
        _ => {
            let mut p = Pic::new(a, b);
            for x in p.p.iter_mut() {
                *x = (seed & 1) as u8;
            }
            p
        }
    }
}
impl Pic {
    #[inline(never)]
    fn dots(&mut self, a: usize, b: usize) {
        for y in 0..b {
            for x in 0..a {
                for (i, v) in [1, 0, 1, 1, 1, 0, 1].iter().enumerate() {
                    self.set(9 * x + 1 + i, 2 * y + 1, *v);
                }
            }
        }
    }
    /// `k` symbolic pixels: half of them next to black-white transitions.
    #[inline(never)]
    fn shake(&mut self, k: usize, seed: u64) {
        if k == 0 || self.p.is_empty() {
            return;
        }
        let mut r = Lcg(seed.wrapping_mul(31337) + 1);
        let g = sym::group(k as u64);
        let old = self.p.clone();
        let mut used: Vec<usize> = vec![];
        for i in 0..k.min(self.p.len()) {
            let mut at = r.below(old.len());
            for _ in 0..50 {
                if !used.contains(&at) && (i % 2 == 0 || at == 0 || old[at] != old[at - 1]) {
                    break;
                }
                at = r.below(old.len());
            }
            used.push(at);
            self.p[at] ^= ((g >> i) & 1) as u8;
        }
    }
}

/// C15, C16: detection on arbitrary pictures. It terminates without panic, every grid can be
/// read, the black and white of the picture stays what it was, clones are independent and
/// the result is a function of the picture.
/// params: kind, a, b, seed, k, full
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn h_total() {
    let (kind, a, b, seed, k, full) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) as u64, sym::param(4), sym::param(5));
    let mut p = template(kind, a, b, seed);
    p.shake(k, seed);
    let (w, h) = (p.w, p.h);
    let mut img = PreparedImage::prepare_from_bitmap(w, h, |x, y| p.p[y * w + x] != 0);
    let mut copy = img.clone();
    let n;
    {
        let grids = img.detect_grids();
        n = grids.len();
        sym::out(n as u64);
        if full != 0 {
            same_whiteness!(&copy, &p.p, w, h, 10);
            let again = copy.detect_grids();
            sym::check(again.len() == n, 11);
            for i in 0..n {
                sym::check(again[i].grid.size() == grids[i].grid.size() && again[i].bounds == grids[i].bounds, 12);
            }
        }
        for g in grids.iter() {
            let mut o = Vec::new();
            sym::out(match g.decode_to(&mut o) {
                Ok(_) => 50,
                Err(e) => err_code(e),
            });
            let _ = g.get_raw_data();
        }
    }
    sym::check(img.width() == w && img.height() == h, 13);
    same_whiteness!(&img, &p.p, w, h, 14);
    if full != 0 {
        let mut third = img.clone();
        // a second pass over the (by now recoloured) picture
        let m = img.detect_grids().len();
        same_whiteness!(&img, &p.p, w, h, 15);
        sym::check(third.detect_grids().len() == m, 16);
    }
    sym::note(1);
}
