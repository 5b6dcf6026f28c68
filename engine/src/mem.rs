//! Byte-addressed object memory with copy-on-write pages.
use crate::bits::*;
use crate::bv::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const PS: usize = 128;
pub const HEAP0: u32 = 1 << 20;
pub type SB = Rc<[Bit; 8]>;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PS],
    pub t: [u8; PS], // width of the last store covering the byte
    pub s: Option<Box<[Option<SB>; PS]>>,
}
impl Page {
    pub fn zero() -> Page {
        Page { b: [0; PS], t: [1; PS], s: None }
    }
}
#[derive(Clone)]
pub struct Obj {
    pub pages: Vec<Rc<Page>>,
    pub size: u64,
    pub konst: bool,
}
#[derive(Clone)]
pub struct Mem {
    pub objs: Vec<Option<Rc<Obj>>>, // index + HEAP0 = id
    pub free: Vec<u32>,
    pub gl: HashMap<u32, Rc<Obj>, BIdH>,
}
#[derive(Clone)]
pub enum SByte {
    C(u8),
    S(SB),
}
pub struct Shared {
    pub zero: Rc<Page>,
}

impl Obj {
    pub fn new(size: u64, z: &Rc<Page>) -> Obj {
        let n = (size as usize + PS - 1) / PS;
        Obj { pages: vec![z.clone(); n], size, konst: false }
    }
    pub fn from_bytes(v: &[u8], konst: bool) -> Obj {
        let mut pages = vec![];
        for c in v.chunks(PS) {
            let mut p = Page::zero();
            p.b[..c.len()].copy_from_slice(c);
            pages.push(Rc::new(p));
        }
        Obj { pages, size: v.len() as u64, konst }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> SByte {
        let p = &self.pages[o / PS];
        if let Some(s) = &p.s {
            if let Some(x) = &s[o % PS] {
                return SByte::S(x.clone());
            }
        }
        SByte::C(p.b[o % PS])
    }
    pub fn set_byte(&mut self, o: usize, v: SByte, tag: u8) {
        let p = Rc::make_mut(&mut self.pages[o / PS]);
        p.t[o % PS] = tag;
        match v {
            SByte::C(x) => {
                p.b[o % PS] = x;
                if let Some(s) = &mut p.s {
                    s[o % PS] = None;
                }
            }
            SByte::S(x) => {
                p.b[o % PS] = 0;
                if p.s.is_none() {
                    p.s = Some(Box::new(std::array::from_fn(|_| None)));
                }
                p.s.as_mut().unwrap()[o % PS] = Some(x);
            }
        }
    }
}
pub fn sb_from_bits(b: &[Bit]) -> SByte {
    if b.iter().all(|x| x.is_c()) {
        SByte::C(cbits(b) as u8)
    } else {
        let mut it = b.iter().cloned();
        SByte::S(Rc::new(std::array::from_fn(|_| it.next().unwrap_or(B0))))
    }
}
pub fn sb_bits(b: &SByte) -> [Bit; 8] {
    match b {
        SByte::C(x) => std::array::from_fn(|i| Bit::C(x >> i & 1 == 1)),
        SByte::S(s) => (**s).clone(),
    }
}
impl Mem {
    pub fn new() -> Mem {
        Mem { objs: vec![], free: vec![], gl: HashMap::with_hasher(BIdH) }
    }
    pub fn alloc(&mut self, size: u64, z: &Rc<Page>) -> u32 {
        let o = Rc::new(Obj::new(size, z));
        if let Some(i) = self.free.pop() {
            self.objs[i as usize] = Some(o);
            i + HEAP0
        } else {
            self.objs.push(Some(o));
            self.objs.len() as u32 - 1 + HEAP0
        }
    }
    pub fn free(&mut self, id: u32) -> bool {
        if id < HEAP0 {
            return false;
        }
        let i = (id - HEAP0) as usize;
        if i < self.objs.len() && self.objs[i].is_some() {
            self.objs[i] = None;
            self.free.push(i as u32);
            true
        } else {
            false
        }
    }
}
