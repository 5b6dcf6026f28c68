//! Bit-level symbolic terms.
//!
//! Every symbolic bit is an affine form over GF(2): an XOR of "atoms" plus a
//! constant.  An atom is either an input variable or a (hash-consed) AND of two
//! affine forms.  XOR is therefore canonical by construction, which is what makes
//! the linear algebra of Reed-Solomon codes disappear before any solver runs.
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Debug)]
pub struct Form {
    pub ch: Box<[(u32, u64)]>,
    pub h: u64,
}
#[inline]
fn mixh(c: u32, m: u64) -> u64 {
    let mut x = m ^ ((c as u64).wrapping_mul(0x9E3779B97F4A7C15)).rotate_left(17);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8FEB86659FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8FEB86659FD93);
    x ^ (x >> 32)
}
impl PartialEq for Form {
    fn eq(&self, o: &Form) -> bool {
        self.h == o.h && self.ch == o.ch
    }
}
impl Eq for Form {}
impl Hash for Form {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.h)
    }
}
#[derive(Default, Clone, Copy)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
#[derive(Default, Clone, Copy)]
pub struct BIdH;
impl std::hash::BuildHasher for BIdH {
    type Hasher = IdH;
    fn build_hasher(&self) -> IdH {
        IdH(0)
    }
}

impl Form {
    pub fn from_chunks(ch: Vec<(u32, u64)>) -> Form {
        let mut h = 0u64;
        for &(c, m) in &ch {
            h ^= mixh(c, m);
        }
        Form { ch: ch.into_boxed_slice(), h }
    }
    pub fn atom(a: u32) -> Form {
        Form::from_chunks(vec![(a >> 6, 1u64 << (a & 63))])
    }
    pub fn is_empty(&self) -> bool {
        self.ch.is_empty()
    }
    pub fn top(&self) -> u32 {
        let (c, m) = self.ch[self.ch.len() - 1];
        c * 64 + 63 - m.leading_zeros()
    }
    pub fn single(&self) -> Option<u32> {
        if self.ch.len() == 1 && self.ch[0].1.count_ones() == 1 {
            Some(self.top())
        } else {
            None
        }
    }
    pub fn atoms(&self) -> impl Iterator<Item = u32> + '_ {
        self.ch.iter().flat_map(|&(c, m)| BitIter(m).map(move |b| c * 64 + b))
    }
    pub fn count(&self) -> u32 {
        self.ch.iter().map(|x| x.1.count_ones()).sum()
    }
    pub fn xor(a: &Form, b: &Form) -> Form {
        let (x, y) = (&a.ch, &b.ch);
        let mut r = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            if x[i].0 == y[j].0 {
                let m = x[i].1 ^ y[j].1;
                if m != 0 {
                    r.push((x[i].0, m));
                }
                i += 1;
                j += 1;
            } else if x[i].0 < y[j].0 {
                r.push(x[i]);
                i += 1;
            } else {
                r.push(y[j]);
                j += 1;
            }
        }
        r.extend_from_slice(&x[i..]);
        r.extend_from_slice(&y[j..]);
        Form::from_chunks(r)
    }
}
pub struct BitIter(pub u64);
impl Iterator for BitIter {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.0 == 0 {
            None
        } else {
            let t = self.0.trailing_zeros();
            self.0 &= self.0 - 1;
            Some(t)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bit {
    C(bool),
    F(Rc<Form>, bool),
}
pub const B0: Bit = Bit::C(false);
pub const B1: Bit = Bit::C(true);

impl Bit {
    pub fn not(&self) -> Bit {
        match self {
            Bit::C(b) => Bit::C(!b),
            Bit::F(f, n) => Bit::F(f.clone(), !n),
        }
    }
    pub fn is_c(&self) -> bool {
        matches!(self, Bit::C(_))
    }
    pub fn xor(&self, o: &Bit) -> Bit {
        match (self, o) {
            (Bit::C(a), Bit::C(b)) => Bit::C(a ^ b),
            (Bit::C(a), Bit::F(f, n)) | (Bit::F(f, n), Bit::C(a)) => Bit::F(f.clone(), a ^ n),
            (Bit::F(f, n), Bit::F(g, m)) => {
                if Rc::ptr_eq(f, g) {
                    return Bit::C(n ^ m);
                }
                let r = Form::xor(f, g);
                if r.is_empty() {
                    Bit::C(n ^ m)
                } else {
                    Bit::F(Rc::new(r), n ^ m)
                }
            }
        }
    }
}

#[derive(Clone)]
pub enum Atom {
    Input(u32),
    And(Rc<Form>, Rc<Form>),
    /// product of the inputs selected by `mask` in group `g` (mask has >= 2 bits)
    Mono(u32, u32),
    Pad,
}
/// A group of at most 16 input bits whose monomials all have preallocated,
/// contiguous atoms: functions of these bits only are kept in algebraic normal
/// form, i.e. canonical.
#[derive(Clone, Copy)]
pub struct Group {
    pub base: u32, // atom of monomial mask 0 (unused); multiple of 64
    pub n: u32,
    pub first_input: u32,
}
pub type TT = Vec<u64>;
/// in-place Moebius transform (ANF <-> truth table) over n variables
pub fn moebius(t: &mut [u64], n: u32) {
    const M: [u64; 6] = [
        0x5555555555555555,
        0x3333333333333333,
        0x0F0F0F0F0F0F0F0F,
        0x00FF00FF00FF00FF,
        0x0000FFFF0000FFFF,
        0x00000000FFFFFFFF,
    ];
    for i in 0..n.min(6) {
        for w in t.iter_mut() {
            *w ^= (*w & M[i as usize]) << (1 << i);
        }
    }
    for i in 6..n {
        let s = 1usize << (i - 6);
        let mut b = 0;
        while b < t.len() {
            for k in 0..s {
                t[b + s + k] ^= t[b + k];
            }
            b += 2 * s;
        }
    }
}

pub struct Ctx {
    pub atoms: Vec<Atom>,
    pub inputs: Vec<u32>, // input index -> atom
    and_tab: HashMap<(Rc<Form>, Rc<Form>), u32, BIdH>,
    pub groups: Vec<Group>,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx { atoms: vec![], inputs: vec![], and_tab: HashMap::with_hasher(BIdH), groups: vec![] }
    }
    /// allocate a group of n (<= 16) inputs
    pub fn new_group(&mut self, n: u32) -> Vec<Bit> {
        assert!(n >= 1 && n <= 16);
        while self.atoms.len() % 64 != 0 {
            self.atoms.push(Atom::Pad);
        }
        let base = self.atoms.len() as u32;
        let g = self.groups.len() as u32;
        let first_input = self.inputs.len() as u32;
        self.groups.push(Group { base, n, first_input });
        for m in 0..(1u32 << n).max(64) {
            if m == 0 || m >= 1 << n {
                self.atoms.push(Atom::Pad);
            } else if m.count_ones() == 1 {
                let i = first_input + m.trailing_zeros();
                self.atoms.push(Atom::Input(i));
            } else {
                self.atoms.push(Atom::Mono(g, m));
            }
        }
        let mut r = vec![];
        for i in 0..n {
            self.inputs.push(base + (1 << i));
            r.push(Bit::F(Rc::new(Form::atom(base + (1 << i))), false));
        }
        r
    }
    /// the group all atoms of `f` belong to
    pub fn group_of(&self, f: &Form) -> Option<usize> {
        if self.groups.is_empty() {
            return None;
        }
        let lo = f.ch[0].0 * 64;
        let hi = f.ch[f.ch.len() - 1].0 * 64;
        for (i, g) in self.groups.iter().enumerate() {
            let e = g.base + (1u32 << g.n).max(64);
            if lo >= g.base && hi < e {
                return Some(i);
            }
        }
        None
    }
    pub fn tt_of(&self, f: &Form, neg: bool, gi: usize) -> TT {
        let g = self.groups[gi];
        let words = ((1usize << g.n) / 64).max(1);
        let mut t = vec![0u64; words];
        for &(c, m) in f.ch.iter() {
            t[(c - g.base / 64) as usize] = m;
        }
        if neg {
            t[0] ^= 1;
        }
        moebius(&mut t, g.n);
        if g.n < 6 {
            t[0] &= (1u64 << (1 << g.n)) - 1;
        }
        t
    }
    pub fn tt_const(&self, v: bool, gi: usize) -> TT {
        let g = self.groups[gi];
        let words = ((1usize << g.n) / 64).max(1);
        let full = if g.n < 6 { (1u64 << (1 << g.n)) - 1 } else { !0 };
        vec![if v { full } else { 0 }; words]
    }
    pub fn tt_bit(&self, b: &Bit, gi: usize) -> TT {
        match b {
            Bit::C(v) => self.tt_const(*v, gi),
            Bit::F(f, n) => self.tt_of(f, *n, gi),
        }
    }
    pub fn from_tt(&self, mut t: TT, gi: usize) -> Bit {
        let g = self.groups[gi];
        moebius(&mut t, g.n);
        if g.n < 6 {
            t[0] &= (1u64 << (1 << g.n)) - 1;
        }
        let neg = t[0] & 1 == 1;
        t[0] &= !1;
        let b = g.base / 64;
        let ch: Vec<(u32, u64)> = t.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, m)| (b + i as u32, *m)).collect();
        if ch.is_empty() {
            Bit::C(neg)
        } else {
            Bit::F(Rc::new(Form::from_chunks(ch)), neg)
        }
    }
    /// common group of some bits (constants fit any group)
    pub fn common_group<'a>(&self, bits: impl Iterator<Item = &'a Bit>) -> Option<usize> {
        let mut r = None;
        for b in bits {
            if let Bit::F(f, _) = b {
                let g = self.group_of(f)?;
                if r.is_some() && r != Some(g) {
                    return None;
                }
                r = Some(g);
            }
        }
        r
    }
    pub fn new_input(&mut self) -> (u32, Bit) {
        let i = self.inputs.len() as u32;
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom::Input(i));
        self.inputs.push(a);
        (i, Bit::F(Rc::new(Form::atom(a)), false))
    }
    pub fn and(&mut self, x: &Bit, y: &Bit) -> Bit {
        match (x, y) {
            (Bit::C(false), _) | (_, Bit::C(false)) => B0,
            (Bit::C(true), b) => b.clone(),
            (a, Bit::C(true)) => a.clone(),
            (Bit::F(f, n), Bit::F(g, m)) => {
                if f == g {
                    return if n == m { x.clone() } else { B0 };
                }
                // (f^n)(g^m) = fg ^ m f ^ n g ^ nm
                let p = self.and_pos(f, g);
                let mut r = p;
                if *m {
                    r = r.xor(&Bit::F(f.clone(), false));
                }
                if *n {
                    r = r.xor(&Bit::F(g.clone(), false));
                }
                if *n && *m {
                    r = r.not();
                }
                r
            }
        }
    }
    fn and_pos(&mut self, f: &Rc<Form>, g: &Rc<Form>) -> Bit {
        if !self.groups.is_empty() {
            if let (Some(a), Some(b)) = (self.group_of(f), self.group_of(g)) {
                if a == b {
                    let mut t = self.tt_of(f, false, a);
                    let u = self.tt_of(g, false, a);
                    for (x, y) in t.iter_mut().zip(u.iter()) {
                        *x &= *y;
                    }
                    return self.from_tt(t, a);
                }
            }
        }
        // absorption: a & (a & b) = a & b
        if let Some(a) = g.single() {
            if let Atom::And(p, q) = &self.atoms[a as usize] {
                if p == f || q == f {
                    return Bit::F(g.clone(), false);
                }
            }
        }
        if let Some(a) = f.single() {
            if let Atom::And(p, q) = &self.atoms[a as usize] {
                if p == g || q == g {
                    return Bit::F(f.clone(), false);
                }
            }
        }
        let key = if (f.h, f.ch.len()) <= (g.h, g.ch.len()) {
            (f.clone(), g.clone())
        } else {
            (g.clone(), f.clone())
        };
        if let Some(a) = self.and_tab.get(&key) {
            return Bit::F(Rc::new(Form::atom(*a)), false);
        }
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom::And(key.0.clone(), key.1.clone()));
        self.and_tab.insert(key, a);
        Bit::F(Rc::new(Form::atom(a)), false)
    }
    pub fn or(&mut self, x: &Bit, y: &Bit) -> Bit {
        self.and(&x.not(), &y.not()).not()
    }
    pub fn ite(&mut self, c: &Bit, t: &Bit, e: &Bit) -> Bit {
        match c {
            Bit::C(true) => t.clone(),
            Bit::C(false) => e.clone(),
            _ => {
                let d = t.xor(e);
                if let Bit::C(false) = d {
                    return t.clone();
                }
                e.xor(&self.and(c, &d))
            }
        }
    }
}

/// An assignment to inputs, lazily extended to all atoms.
pub struct Model {
    pub inp: Vec<bool>,
    known: std::cell::RefCell<(Vec<u64>, Vec<u64>)>, // per chunk: known mask, value mask
}
impl Model {
    pub fn new(inp: Vec<bool>) -> Model {
        Model { inp, known: Default::default() }
    }
    fn atom(&self, cx: &Ctx, a: u32) -> bool {
        let (c, b) = ((a >> 6) as usize, a & 63);
        {
            let mut k = self.known.borrow_mut();
            if k.0.len() <= c {
                let n = (cx.atoms.len() >> 6) + 1;
                let n = n.max(c + 1);
                k.0.resize(n, 0);
                k.1.resize(n, 0);
            }
            if k.0[c] >> b & 1 == 1 {
                return k.1[c] >> b & 1 == 1;
            }
        }
        // iterative evaluation
        let mut stack = vec![a];
        while let Some(&t) = stack.last() {
            if self.get(t).is_some() {
                stack.pop();
                continue;
            }
            match &cx.atoms[t as usize] {
                Atom::Input(i) => {
                    let v = self.inp.get(*i as usize).copied().unwrap_or(false);
                    self.set(t, v);
                    stack.pop();
                }
                Atom::Pad => panic!("pad atom"),
                Atom::Mono(g, m) => {
                    let gr = cx.groups[*g as usize];
                    let mut v = true;
                    for i in BitIter(*m as u64) {
                        v &= self.inp.get((gr.first_input + i) as usize).copied().unwrap_or(false);
                    }
                    self.set(t, v);
                    stack.pop();
                }
                Atom::And(f, g) => {
                    let mut missing = false;
                    for x in f.atoms().chain(g.atoms()) {
                        if self.get(x).is_none() {
                            stack.push(x);
                            missing = true;
                        }
                    }
                    if !missing {
                        let v = self.formv(f) && self.formv(g);
                        self.set(t, v);
                        stack.pop();
                    }
                }
            }
        }
        self.get(a).unwrap()
    }
    fn get(&self, a: u32) -> Option<bool> {
        let k = self.known.borrow();
        let (c, b) = ((a >> 6) as usize, a & 63);
        if k.0.len() > c && k.0[c] >> b & 1 == 1 {
            Some(k.1[c] >> b & 1 == 1)
        } else {
            None
        }
    }
    fn set(&self, a: u32, v: bool) {
        let mut k = self.known.borrow_mut();
        let (c, b) = ((a >> 6) as usize, a & 63);
        if k.0.len() <= c {
            k.0.resize(c + 1, 0);
            k.1.resize(c + 1, 0);
        }
        k.0[c] |= 1 << b;
        if v {
            k.1[c] |= 1 << b;
        }
    }
    fn formv(&self, f: &Form) -> bool {
        let k = self.known.borrow();
        let mut p = 0u32;
        for &(c, m) in f.ch.iter() {
            p ^= (k.1[c as usize] & m).count_ones();
        }
        p & 1 == 1
    }
    pub fn form(&self, cx: &Ctx, f: &Form) -> bool {
        let mut p = false;
        for &(c, m) in f.ch.iter() {
            let done = {
                let k = self.known.borrow();
                if k.0.len() > c as usize && k.0[c as usize] & m == m {
                    p ^= (k.1[c as usize] & m).count_ones() & 1 == 1;
                    true
                } else {
                    false
                }
            };
            if !done {
                for b in BitIter(m) {
                    p ^= self.atom(cx, c * 64 + b);
                }
            }
        }
        p
    }
    pub fn bit(&self, cx: &Ctx, b: &Bit) -> bool {
        match b {
            Bit::C(v) => *v,
            Bit::F(f, n) => self.form(cx, f) ^ n,
        }
    }
}

/// Triangular system of linear constraints: each row is `form ^ c = 0` with its
/// highest atom as pivot.
#[derive(Clone, Default)]
pub struct Sigma {
    pub rows: Rc<HashMap<u32, (Rc<Form>, bool), BIdH>>,
    pub mask: Rc<HashMap<u32, u64, BIdH>>,
}
impl Sigma {
    pub fn reduce(&self, b: &Bit) -> Bit {
        if self.rows.is_empty() {
            return b.clone();
        }
        let (f, n) = match b {
            Bit::C(_) => return b.clone(),
            Bit::F(f, n) => (f, *n),
        };
        if !f.ch.iter().any(|(c, m)| self.mask.get(c).map_or(false, |k| k & m != 0)) {
            return b.clone();
        }
        let mut cur: Form = Form { ch: f.ch.clone(), h: f.h };
        let mut n = n;
        // process from the highest atom down
        let mut ci = cur.ch.len();
        while ci > 0 {
            ci -= 1;
            if ci >= cur.ch.len() {
                ci = cur.ch.len();
                continue;
            }
            let (c, m) = cur.ch[ci];
            if let Some(k) = self.mask.get(&c) {
                let hit = m & k;
                if hit != 0 {
                    let a = c * 64 + 63 - hit.leading_zeros();
                    let (r, rc) = &self.rows[&a];
                    cur = Form::xor(&cur, r);
                    n ^= rc;
                    if cur.is_empty() {
                        return Bit::C(n);
                    }
                    // restart from the chunk position >= c
                    ci = cur.ch.partition_point(|x| x.0 <= c);
                }
            }
        }
        Bit::F(Rc::new(cur), n)
    }
    /// add constraint b = 1; returns false if contradictory
    pub fn add(&mut self, b: &Bit) -> bool {
        match self.reduce(b) {
            Bit::C(v) => v,
            Bit::F(f, n) => {
                // f ^ n = 1  -> f ^ (n^1) = 0 -> pivot = rest ^ (n^1)
                let p = f.top();
                Rc::make_mut(&mut self.rows).insert(p, (f.clone(), !n));
                *Rc::make_mut(&mut self.mask).entry(p >> 6).or_insert(0) |= 1 << (p & 63);
                true
            }
        }
    }
}
