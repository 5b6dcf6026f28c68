//! Values and bit-vector arithmetic over symbolic bits.
use crate::bits::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete integer/pointer/float of at most 64 bits, zero-extended
    C(u64),
    /// integer with at least one symbolic bit, or wider than 64 bits (LSB first)
    S(Rc<Vec<Bit>>),
    /// aggregate or vector
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn zero(w: u32) -> Val {
        if w <= 64 {
            Val::C(0)
        } else {
            Val::S(Rc::new(vec![B0; w as usize]))
        }
    }
    pub fn bits(&self, w: u32) -> Vec<Bit> {
        match self {
            Val::C(x) => (0..w).map(|i| Bit::C(i < 64 && x >> i & 1 == 1)).collect(),
            Val::S(b) => (**b).clone(),
            Val::A(_) => panic!("bits of aggregate"),
        }
    }
    pub fn from_bits(b: Vec<Bit>) -> Val {
        if b.len() <= 64 && b.iter().all(|x| x.is_c()) {
            return Val::C(cbits(&b));
        }
        Val::S(Rc::new(b))
    }
}
pub fn cbits(b: &[Bit]) -> u64 {
    let mut r = 0;
    for (i, x) in b.iter().enumerate() {
        if let Bit::C(true) = x {
            r |= 1u64 << i;
        }
    }
    r
}
pub fn konst(x: u64, w: usize) -> Vec<Bit> {
    (0..w).map(|i| Bit::C(i < 64 && x >> i & 1 == 1)).collect()
}
/// a + b + cin; returns sum and carry out
pub fn add(cx: &mut Ctx, a: &[Bit], b: &[Bit], cin: Bit) -> (Vec<Bit>, Bit) {
    let mut c = cin;
    let mut r = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let ac = a[i].xor(&c);
        let bc = b[i].xor(&c);
        r.push(ac.xor(&b[i]));
        let m = cx.and(&ac, &bc);
        c = c.xor(&m);
    }
    (r, c)
}
pub fn not(a: &[Bit]) -> Vec<Bit> {
    a.iter().map(|x| x.not()).collect()
}
pub fn sub(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> (Vec<Bit>, Bit) {
    // carry out = 1 means no borrow
    add(cx, a, &not(b), B1)
}
/// a < b unsigned
pub fn ult(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> Bit {
    let mut c = B1;
    for i in 0..a.len() {
        let nb = b[i].not();
        let ac = a[i].xor(&c);
        let bc = nb.xor(&c);
        let m = cx.and(&ac, &bc);
        c = c.xor(&m);
    }
    c.not()
}
pub fn slt(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> Bit {
    let n = a.len();
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x[n - 1] = x[n - 1].not();
    y[n - 1] = y[n - 1].not();
    ult(cx, &x, &y)
}
pub fn eq(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> Bit {
    let mut ds: Vec<Bit> = Vec::new();
    for i in 0..a.len() {
        let d = a[i].xor(&b[i]).not();
        match d {
            Bit::C(false) => return B0,
            Bit::C(true) => {}
            d => ds.push(d),
        }
    }
    let mut r = B1;
    for d in ds {
        r = cx.and(&r, &d);
    }
    r
}
pub fn ite(cx: &mut Ctx, c: &Bit, t: &[Bit], e: &[Bit]) -> Vec<Bit> {
    t.iter().zip(e.iter()).map(|(x, y)| cx.ite(c, x, y)).collect()
}
pub fn mul(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> Vec<Bit> {
    let n = a.len();
    // use the operand with fewer non-zero bits as multiplier
    let nz = |v: &[Bit]| v.iter().filter(|x| !matches!(x, Bit::C(false))).count();
    let (a, b) = if nz(a) < nz(b) { (b, a) } else { (a, b) };
    let mut r = konst(0, n);
    for i in 0..n {
        if let Bit::C(false) = b[i] {
            continue;
        }
        let mut row = konst(0, n);
        for j in 0..n - i {
            row[i + j] = cx.and(&a[j], &b[i]);
        }
        r = add(cx, &r, &row, B0).0;
    }
    r
}
fn eff(a: &[Bit]) -> usize {
    let mut n = a.len();
    while n > 1 && matches!(a[n - 1], Bit::C(false)) {
        n -= 1;
    }
    n
}
/// unsigned division; divisor assumed non-zero
pub fn udivrem(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> (Vec<Bit>, Vec<Bit>) {
    let n = a.len();
    if b.iter().all(|x| x.is_c()) {
        let k: Vec<usize> = (0..n).filter(|&i| b[i] == B1).collect();
        if k.len() == 1 {
            let s = k[0];
            let mut q = a[s..].to_vec();
            q.resize(n, B0);
            let mut r = a[..s].to_vec();
            r.resize(n, B0);
            return (q, r);
        }
    }
    let na = eff(a);
    let nb = eff(b);
    let w = nb + 1;
    let mut q = konst(0, n);
    let mut r: Vec<Bit> = konst(0, w);
    let mut bb = b[..nb].to_vec();
    bb.push(B0);
    for i in (0..na).rev() {
        // r = r << 1 | a[i]
        let mut s = vec![a[i].clone()];
        s.extend_from_slice(&r[..w - 1]);
        let (d, nb_) = sub(cx, &s, &bb);
        q[i] = nb_.clone();
        r = ite(cx, &nb_, &d, &s);
    }
    let mut rr = r;
    rr.truncate(n);
    rr.resize(n, B0);
    (q, rr)
}
pub fn neg(cx: &mut Ctx, a: &[Bit]) -> Vec<Bit> {
    add(cx, &not(a), &konst(0, a.len()), B1).0
}
pub fn sdivrem(cx: &mut Ctx, a: &[Bit], b: &[Bit]) -> (Vec<Bit>, Vec<Bit>) {
    let n = a.len();
    let (sa, sb) = (a[n - 1].clone(), b[n - 1].clone());
    let na = neg(cx, a);
    let nb = neg(cx, b);
    let ua = ite(cx, &sa, &na, a);
    let ub = ite(cx, &sb, &nb, b);
    let (q, r) = udivrem(cx, &ua, &ub);
    let nq = neg(cx, &q);
    let nr = neg(cx, &r);
    let sq = sa.xor(&sb);
    (ite(cx, &sq, &nq, &q), ite(cx, &sa, &nr, &r))
}
#[derive(Clone, Copy, PartialEq)]
pub enum Sh {
    L,
    R,
    A,
}
pub fn shift_c(a: &[Bit], k: usize, s: Sh) -> Vec<Bit> {
    let n = a.len();
    let fill = if s == Sh::A { a[n - 1].clone() } else { B0 };
    (0..n)
        .map(|i| match s {
            Sh::L => {
                if i >= k {
                    a[i - k].clone()
                } else {
                    B0
                }
            }
            _ => {
                if i + k < n {
                    a[i + k].clone()
                } else {
                    fill.clone()
                }
            }
        })
        .collect()
}
pub fn shift(cx: &mut Ctx, a: &[Bit], k: &[Bit], s: Sh) -> Vec<Bit> {
    let n = a.len();
    let mut r = a.to_vec();
    for i in 0..k.len() {
        if let Bit::C(false) = k[i] {
            continue;
        }
        let amt = if i >= 20 { n } else { (1usize << i).min(n) };
        let t = shift_c(&r, amt, s);
        r = ite(cx, &k[i], &t, &r);
    }
    r
}
