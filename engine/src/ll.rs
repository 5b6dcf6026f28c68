//! Parser for textual LLVM IR as emitted by rustc, and its decoded form.
use crate::bits::*;
use crate::bv::Val;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(..) => self.alloc_size(),
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.alloc_size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => {
                let a = self.align();
                (self.size() + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.alloc_size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => i as u64 * t.alloc_size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Int(w) => Val::zero(*w),
            Ty::Ptr | Ty::F64 | Ty::F32 => Val::C(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    PtrToInt,
    IntToPtr,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ind(Op),
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Op, Op, u32),
    FNeg(Ty, Op, u32),
    Icmp(Pred, Ty, Op, Op, u32),
    Fcmp(u8, Ty, Op, Op, u32), // bit0 lt, bit1 eq, bit2 gt, bit3 uno
    Cast(Cast, Ty, Ty, Op, u32),
    Select(Op, Ty, Op, Op, u32, bool), // last: vector condition
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, u64)>, u32),
    Alloca(u64, Op, u32),
    Call(Callee, Vec<(Ty, Op)>, Ty, Option<u32>, Option<u32>), // dst, invoke normal dest
    ExtractValue(Op, Vec<usize>, u32),
    InsertValue(Op, Op, Vec<usize>, u32),
    ExtractElement(Op, Op, u32),
    InsertElement(Op, Op, Op, u32),
    Shuffle(Op, Op, Vec<i64>, u64, u32),
    Freeze(Op, u32),
    AtomicRmw(Rc<str>, Ty, Op, Op, u32),
    CmpXchg(Ty, Op, Op, Op, u32),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Resume,
    Landingpad(u32),
    Phi, // phis live in Block::phis
    Unsupported(Rc<str>),
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Op)>,
}
#[derive(Debug)]
pub struct Block {
    pub name: Rc<str>,
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    /// immediate postdominator (alive blocks only; u32::MAX = none/exit)
    pub ipdom: Vec<u32>,
    /// may a symbolic branch ending this block be merged at its ipdom
    pub mergeable: Vec<bool>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Loc(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
}
fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut r = Vec::new();
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let g = c == b'@';
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1
                    }
                    name = s[st..i].to_string();
                }
                r.push(if g { Tok::Glob(name) } else { Tok::Loc(name) });
            }
            b'!' | b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && (isid(b[i])) {
                    i += 1
                }
                r.push(Tok::Id(s[st..i].to_string()));
            }
            b'"' => {
                let (v, e) = lex_str(b, i);
                i = e;
                r.push(Tok::Str(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, e) = lex_str(b, i + 1);
                i = e;
                r.push(Tok::Str(v));
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'.'
                        || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e') && b[st..i].contains(&b'.')))
                {
                    i += 1
                }
                r.push(Tok::Num(s[st..i].to_string()));
            }
            _ if isid(c) => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1
                }
                r.push(Tok::Id(s[st..i].to_string()));
            }
            _ => {
                r.push(Tok::P(c as char));
                i += 1
            }
        }
    }
    r
}
fn lex_str(b: &[u8], i: usize) -> (Vec<u8>, usize) {
    let mut i = i + 1;
    let mut v = Vec::new();
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("eof in {:?}", self.t));
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(d)) if *d == c)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(d)) if d == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {} at {} in {:?}", c, self.i, self.t)
        }
    }
    fn id(&mut self) -> String {
        match self.next() {
            Tok::Id(s) => s,
            t => panic!("expected id got {:?} in {:?}", t, self.t),
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn ty_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "x86_fp80" | "token")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(c)) => matches!(c, '{' | '<' | '['),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        while !self.ty_start() {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if matches!(s.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "splat" | "asm") {
                        return;
                    }
                    self.i += 1;
                    if (s == "align" || s == "cc") && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    }
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "half" | "fp128" | "x86_fp80" | "token" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", s, self.t))),
                _ => panic!("type {} in {:?}", s, self.t),
            },
            Tok::P('[') => {
                let n = self.num();
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.exp_p(']');
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    let t = self.ty();
                    self.exp_p('>');
                    if let Ty::Struct(f, _) = t {
                        return Ty::Struct(f, true);
                    }
                    panic!()
                }
                let n = self.num();
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.exp_p('>');
                Ty::Vec(n as u64, Rc::new(t))
            }
            Tok::P('{') => {
                let mut f = Vec::new();
                if !self.eat_p('}') {
                    loop {
                        f.push(self.ty());
                        if self.eat_p('}') {
                            break;
                        }
                        self.exp_p(',');
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            t => panic!("type token {:?} in {:?}", t, self.t),
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
            t => panic!("num {:?} in {:?}", t, self.t),
        }
    }
}

pub struct Module {
    src: String,
    gsrc: HashMap<String, (usize, usize)>,
    fsrc: HashMap<String, (usize, usize)>, // define .. closing brace (byte range)
    decl: HashMap<String, ()>,
    pub gid: HashMap<String, u32>, // name -> object id
    pub gnames: Vec<String>,       // object id -> name (id 0 = null)
    pub rel: Vec<u64>,
    funcs: HashMap<String, Rc<Func>>,
    nfuncs: u32,
}
pub const NREAL: u32 = 0;

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read_to_string(path).expect("read ll");
        let mut gsrc = HashMap::new();
        let mut fsrc = HashMap::new();
        let mut decl = HashMap::new();
        let mut pos = 0;
        let b = src.as_bytes();
        let mut cur: Option<(String, usize)> = None;
        while pos < b.len() {
            let end = src[pos..].find('\n').map(|k| pos + k).unwrap_or(b.len());
            let line = &src[pos..end];
            if cur.is_some() {
                if line == "}" {
                    let (n, s) = cur.take().unwrap();
                    fsrc.insert(n, (s, end));
                }
            } else if line.starts_with("define ") {
                let n = gname(line);
                cur = Some((n, pos));
            } else if line.starts_with("declare ") {
                decl.insert(gname(line), ());
            } else if line.starts_with('@') {
                gsrc.insert(gname(line), (pos, end));
            }
            pos = end + 1;
        }
        Module { src, gsrc, fsrc, decl, gid: HashMap::new(), gnames: vec!["null".into()], rel: vec![], funcs: HashMap::new(), nfuncs: 0 }
    }
    pub fn has_func(&self, n: &str) -> bool {
        self.fsrc.contains_key(n)
    }
    pub fn known(&self, n: &str) -> bool {
        self.fsrc.contains_key(n) || self.decl.contains_key(n)
    }
    pub fn id_of(&mut self, n: &str) -> u32 {
        if let Some(i) = self.gid.get(n) {
            return *i;
        }
        let i = self.gnames.len() as u32;
        self.gnames.push(n.to_string());
        self.gid.insert(n.to_string(), i);
        i
    }
    /// initial contents of a global variable; None for functions / external symbols
    pub fn global_init(&mut self, id: u32) -> Option<(Vec<u8>, bool)> {
        let name = self.gnames[id as usize].clone();
        let (s, e) = *self.gsrc.get(&name)?;
        let line = self.src[s..e].to_string();
        let toks = tokenize(&line);
        let mut p = P { t: &toks, i: 2 };
        let konst;
        loop {
            match p.next() {
                Tok::Id(s) if s == "global" => {
                    konst = false;
                    break;
                }
                Tok::Id(s) if s == "constant" => {
                    konst = true;
                    break;
                }
                Tok::Id(s) if s == "external" => return None,
                Tok::Id(s) if s == "alias" => panic!("alias {}", name),
                Tok::P('(') => {
                    p.i -= 1;
                    p.skip_parens();
                }
                _ => {}
            }
        }
        let ty = p.ty();
        let v = self.konst(&mut p, &ty);
        let mut out = vec![0u8; ty.alloc_size() as usize];
        put(&mut out, 0, &ty, &v);
        Some((out, konst))
    }
    fn gptr(&mut self, n: &str) -> Val {
        Val::C((self.id_of(n) as u64) << 32)
    }
    fn konst(&mut self, p: &mut P, ty: &Ty) -> Val {
        match p.next() {
            Tok::Num(s) => match ty {
                Ty::Int(w) => parse_int(&s, *w),
                Ty::F64 | Ty::F32 => {
                    let f: f64 = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        s.parse().unwrap()
                    };
                    if *ty == Ty::F64 {
                        Val::C(f.to_bits())
                    } else {
                        Val::C((f as f32).to_bits() as u64)
                    }
                }
                _ => panic!("num const of type {:?}", ty),
            },
            Tok::Glob(n) => self.gptr(&n),
            Tok::Str(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Tok::P('[') => self.klist(p, ty, ']'),
            Tok::P('{') => self.klist(p, ty, '}'),
            Tok::P('<') => {
                if p.eat_p('{') {
                    let v = self.klist(p, ty, '}');
                    p.exp_p('>');
                    v
                } else {
                    self.klist(p, ty, '>')
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Val::C(1),
                "false" | "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => ty.zero(),
                "splat" => {
                    p.exp_p('(');
                    let t = p.ty();
                    let v = self.konst(p, &t);
                    p.exp_p(')');
                    match ty {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                        _ => panic!(),
                    }
                }
                "getelementptr" => {
                    while !p.is_p('(') {
                        p.i += 1;
                        if p.is_p('(') && matches!(p.t[p.i - 1], Tok::Id(ref s) if s == "inrange") {
                            p.skip_parens();
                        }
                    }
                    p.exp_p('(');
                    let t = p.ty();
                    p.exp_p(',');
                    p.skip_attrs();
                    let bt = p.ty();
                    let base = match self.konst(p, &bt) {
                        Val::C(x) => x,
                        _ => panic!(),
                    };
                    let mut off: i64 = 0;
                    let mut cur = t;
                    let mut first = true;
                    while p.eat_p(',') {
                        p.skip_attrs();
                        let it = p.ty();
                        let v = match self.konst(p, &it) {
                            Val::C(x) => sx(x, it.width()),
                            _ => panic!(),
                        };
                        if first {
                            off += v * cur.alloc_size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(v as usize) as i64;
                            cur = cur.elem(v as usize);
                        }
                    }
                    p.exp_p(')');
                    Val::C(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" => {
                    p.exp_p('(');
                    let t = p.ty();
                    // relative lookup table entry?
                    if s == "trunc" && p.is_id("sub") {
                        p.i += 1;
                        while !p.is_p('(') {
                            p.i += 1
                        }
                        p.exp_p('(');
                        let t1 = p.ty();
                        let a = self.konst(p, &t1);
                        p.exp_p(',');
                        let t2 = p.ty();
                        let _b = self.konst(p, &t2);
                        p.exp_p(')');
                        assert!(p.eat_id("to"));
                        p.ty();
                        p.exp_p(')');
                        if let Val::C(a) = a {
                            self.rel.push(a);
                            return Val::C(0x8000_0000 | (self.rel.len() as u64 - 1));
                        }
                        panic!()
                    }
                    let v = self.konst(p, &t);
                    assert!(p.eat_id("to"));
                    let t2 = p.ty();
                    p.exp_p(')');
                    match (v, &t2) {
                        (Val::C(x), Ty::Int(w)) => Val::C(msk(x, *w)),
                        (v, _) => v,
                    }
                }
                "add" | "sub" | "xor" => {
                    while !p.is_p('(') {
                        p.i += 1
                    }
                    p.exp_p('(');
                    let t = p.ty();
                    let a = self.konst(p, &t);
                    p.exp_p(',');
                    let t2 = p.ty();
                    let b = self.konst(p, &t2);
                    p.exp_p(')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Val::C(msk(
                            match s.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            },
                            t.width(),
                        )),
                        _ => panic!(),
                    }
                }
                _ if s.starts_with("f0x") => Val::C(u64::from_str_radix(&s[3..], 16).unwrap()),
                _ => panic!("const {} in {:?}", s, &p.t[..p.t.len().min(40)]),
            },
            t => panic!("const token {:?} in {:?}", t, p.t),
        }
    }
    fn klist(&mut self, p: &mut P, _ty: &Ty, close: char) -> Val {
        let mut v = Vec::new();
        if !p.eat_p(close) {
            loop {
                let t = p.ty();
                v.push(self.konst(p, &t));
                if p.eat_p(close) {
                    break;
                }
                p.exp_p(',');
            }
        }
        Val::A(Rc::new(v))
    }

    pub fn func(&mut self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Some(f.clone());
        }
        let (s, e) = *self.fsrc.get(name)?;
        let text = self.src[s..e].to_string();
        let f = Rc::new(self.parse_func(name, &text));
        self.funcs.insert(name.to_string(), f.clone());
        Some(f)
    }

    fn parse_func(&mut self, name: &str, text: &str) -> Func {
        let mut lines = text.lines();
        let hdr = lines.next().unwrap();
        let toks = tokenize(hdr);
        let mut p = P { t: &toks, i: 1 };
        p.skip_attrs();
        let ret = p.ty();
        match p.next() {
            Tok::Glob(_) => {}
            t => panic!("func name {:?}", t),
        }
        p.exp_p('(');
        let mut fx = FnCx { regs: HashMap::new(), blocks: HashMap::new() };
        let mut params = Vec::new();
        let mut argn = 0;
        if !p.eat_p(')') {
            loop {
                if p.eat_p('.') {
                    while p.eat_p('.') {}
                    p.exp_p(')');
                    break;
                }
                if let Some(Tok::Id(s)) = p.peek() {
                    if s == "..." {
                        p.i += 1;
                        p.exp_p(')');
                        break;
                    }
                }
                p.skip_attrs();
                let t = p.ty();
                p.skip_attrs_arg();
                let r = match p.peek() {
                    Some(Tok::Loc(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        fx.reg(&n)
                    }
                    _ => fx.reg(&format!("{}", argn)),
                };
                argn += 1;
                params.push((r, t));
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',');
            }
        }
        // first pass: blocks
        let body: Vec<&str> = lines.collect();
        let mut raw: Vec<(String, Vec<String>)> = Vec::new();
        let mut k = 0;
        while k < body.len() {
            let l = body[k];
            if l.is_empty() || l.starts_with(';') {
                k += 1;
                continue;
            }
            if l.starts_with('}') {
                break;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    l[1..1 + e].to_string()
                } else {
                    let e = l.find(':').unwrap_or_else(|| panic!("label {:?}", l));
                    l[..e].to_string()
                };
                raw.push((lab, vec![]));
                k += 1;
                continue;
            }
            if raw.is_empty() {
                raw.push((format!("{}", argn), vec![]));
            }
            let mut s = l.to_string();
            let tl = l.trim_start();
            if tl.starts_with("switch ") {
                while !body[k].trim_start().starts_with(']') && !body[k].trim_end().ends_with(']') {
                    k += 1;
                    s.push(' ');
                    s.push_str(body[k]);
                    if body[k].trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                k += 1;
                s.push(' ');
                s.push_str(body[k]);
            } else if tl.contains("= landingpad ") {
                while k + 1 < body.len() {
                    let n = body[k + 1].trim_start();
                    if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                        k += 1;
                    } else {
                        break;
                    }
                }
            }
            raw.last_mut().unwrap().1.push(s);
            k += 1;
        }
        for (i, (n, _)) in raw.iter().enumerate() {
            fx.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = Vec::new();
        for (n, ls) in &raw {
            let mut bl = Block { name: n.as_str().into(), phis: vec![], ins: vec![] };
            for l in ls {
                let toks = tokenize(l);
                if toks.is_empty() {
                    continue;
                }
                self.parse_ins(&toks, &mut fx, &mut bl);
            }
            blocks.push(bl);
        }
        let (ipdom, mergeable) = analyse(&blocks);
        let id = self.nfuncs;
        self.nfuncs += 1;
        Func { name: name.into(), id, nregs: fx.regs.len() as u32, params, ret, blocks, ipdom, mergeable }
    }

    fn op(&mut self, p: &mut P, ty: &Ty, fx: &mut FnCx) -> Op {
        if let Some(Tok::Loc(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Op::R(fx.reg(&n));
        }
        if *ty == Ty::Other {
            // metadata operand: skip to ',' or ')'
            let mut d = 0;
            loop {
                match p.peek() {
                    Some(Tok::P('(')) => d += 1,
                    Some(Tok::P(')')) => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Some(Tok::P(',')) if d == 0 => break,
                    None => break,
                    _ => {}
                }
                p.i += 1;
            }
            return Op::K(Val::C(0));
        }
        Op::K(self.konst(p, ty))
    }
    fn tyop(&mut self, p: &mut P, fx: &mut FnCx) -> (Ty, Op) {
        let t = p.ty();
        let o = self.op(p, &t, fx);
        (t, o)
    }

    fn parse_ins(&mut self, toks: &[Tok], fx: &mut FnCx, bl: &mut Block) {
        let mut p = P { t: toks, i: 0 };
        let mut dst: Option<u32> = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (toks.get(0), toks.get(1)) {
            dst = Some(fx.reg(n));
            p.i = 2;
        }
        let opn = p.id();
        let d = dst.unwrap_or(0);
        use BinOp::*;
        let bin = match opn.as_str() {
            "add" => Some(Add),
            "sub" => Some(Sub),
            "mul" => Some(Mul),
            "udiv" => Some(UDiv),
            "sdiv" => Some(SDiv),
            "urem" => Some(URem),
            "srem" => Some(SRem),
            "and" => Some(And),
            "or" => Some(Or),
            "xor" => Some(Xor),
            "shl" => Some(Shl),
            "lshr" => Some(LShr),
            "ashr" => Some(AShr),
            "fadd" => Some(FAdd),
            "fsub" => Some(FSub),
            "fmul" => Some(FMul),
            "fdiv" => Some(FDiv),
            "frem" => Some(FRem),
            _ => None,
        };
        if let Some(b) = bin {
            p.skip_attrs();
            let t = p.ty();
            let a = self.op(&mut p, &t, fx);
            p.exp_p(',');
            let c = self.op(&mut p, &t, fx);
            bl.ins.push(I::Bin(b, t, a, c, d));
            return;
        }
        let ins = match opn.as_str() {
            "fneg" => {
                p.skip_attrs();
                let (t, a) = self.tyop(&mut p, fx);
                I::FNeg(t, a, d)
            }
            "icmp" => {
                p.eat_id("samesign");
                let pr = match p.id().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let t = p.ty();
                let a = self.op(&mut p, &t, fx);
                p.exp_p(',');
                let b = self.op(&mut p, &t, fx);
                I::Icmp(pr, t, a, b, d)
            }
            "fcmp" => {
                let mut code = None;
                while !p.ty_start() {
                    let s = p.id();
                    code = match s.as_str() {
                        "false" => Some(0),
                        "olt" => Some(1),
                        "oeq" => Some(2),
                        "ole" => Some(3),
                        "ogt" => Some(4),
                        "one" => Some(5),
                        "oge" => Some(6),
                        "ord" => Some(7),
                        "uno" => Some(8),
                        "ult" => Some(9),
                        "ueq" => Some(10),
                        "ule" => Some(11),
                        "ugt" => Some(12),
                        "une" => Some(13),
                        "uge" => Some(14),
                        "true" => Some(15),
                        _ => code,
                    };
                }
                let t = p.ty();
                let a = self.op(&mut p, &t, fx);
                p.exp_p(',');
                let b = self.op(&mut p, &t, fx);
                I::Fcmp(code.unwrap(), t, a, b, d)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                let c = match opn.as_str() {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bitcast,
                    "ptrtoint" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "uitofp" => Cast::UIToFP,
                    "sitofp" => Cast::SIToFP,
                    "fptoui" => Cast::FPToUI,
                    "fptosi" => Cast::FPToSI,
                    "fpext" => Cast::FPExt,
                    _ => Cast::FPTrunc,
                };
                p.skip_attrs();
                let (t, a) = self.tyop(&mut p, fx);
                assert!(p.eat_id("to"));
                let t2 = p.ty();
                I::Cast(c, t, t2, a, d)
            }
            "select" => {
                p.skip_attrs();
                let (ct, c) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (t, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, b) = self.tyop(&mut p, fx);
                I::Select(c, t, a, b, d, matches!(ct, Ty::Vec(..)))
            }
            "load" => {
                p.eat_id("atomic");
                p.eat_id("volatile");
                let t = p.ty();
                p.exp_p(',');
                let (_, a) = self.tyop(&mut p, fx);
                I::Load(t, a, d)
            }
            "store" => {
                p.eat_id("atomic");
                p.eat_id("volatile");
                let (t, v) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, a) = self.tyop(&mut p, fx);
                I::Store(t, v, a)
            }
            "getelementptr" => {
                p.skip_attrs();
                let t = p.ty();
                p.exp_p(',');
                let (_, base) = self.tyop(&mut p, fx);
                let mut off = 0i64;
                let mut var = Vec::new();
                let mut cur = t;
                let mut first = true;
                while p.eat_p(',') {
                    if !p.ty_start() {
                        break;
                    }
                    let (it, o) = self.tyop(&mut p, fx);
                    let scale = if first {
                        cur.alloc_size()
                    } else {
                        match &cur {
                            Ty::Arr(_, t) => t.alloc_size(),
                            _ => 0,
                        }
                    };
                    match o {
                        Op::K(Val::C(v)) => {
                            let v = sx(v, it.width());
                            if first {
                                off += v * scale as i64;
                            } else {
                                off += cur.field_off(v as usize) as i64;
                                cur = cur.elem(v as usize);
                            }
                        }
                        o => {
                            if !first {
                                assert!(matches!(cur, Ty::Arr(..)), "gep {:?}", toks);
                                cur = cur.elem(0);
                            }
                            var.push((o, it.width(), scale));
                        }
                    }
                    first = false;
                }
                I::Gep(base, off, var, d)
            }
            "alloca" => {
                p.eat_id("inalloca");
                let t = p.ty();
                let mut n = Op::K(Val::C(1));
                if p.eat_p(',') && p.ty_start() {
                    let (_, o) = self.tyop(&mut p, fx);
                    n = o;
                }
                I::Alloca(t.alloc_size(), n, d)
            }
            "phi" => {
                p.skip_attrs();
                let ty = p.ty();
                let mut inc = Vec::new();
                loop {
                    p.exp_p('[');
                    let v = self.op(&mut p, &ty, fx);
                    p.exp_p(',');
                    let b = match p.next() {
                        Tok::Loc(n) => fx.block(&n),
                        t => panic!("{:?}", t),
                    };
                    p.exp_p(']');
                    inc.push((b, v));
                    if !(p.eat_p(',') && p.is_p('[')) {
                        break;
                    }
                }
                bl.phis.push(Phi { dst: d, ty, inc });
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if opn != "call" && opn != "invoke" {
                    p.eat_id("call");
                }
                p.skip_attrs();
                let rt = p.ty();
                if p.is_p('(') {
                    p.skip_parens();
                }
                let callee = match p.next() {
                    Tok::Glob(n) => Callee::Name(n.as_str().into()),
                    Tok::Loc(n) => Callee::Ind(Op::R(fx.reg(&n))),
                    Tok::Id(s) if s == "asm" => Callee::Name("asm".into()),
                    t => panic!("callee {:?} in {:?}", t, toks),
                };
                if let Callee::Name(n) = &callee {
                    if &**n == "asm" {
                        bl.ins.push(I::Unsupported("inline asm".into()));
                        return;
                    }
                }
                p.exp_p('(');
                let mut args = Vec::new();
                if !p.eat_p(')') {
                    loop {
                        p.skip_attrs();
                        let t = p.ty();
                        p.skip_attrs_arg();
                        let o = self.op(&mut p, &t, fx);
                        args.push((t, o));
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp_p(',');
                    }
                }
                let mut normal = None;
                if opn == "invoke" {
                    while !p.eat_id("to") {
                        if p.is_p('[') {
                            // operand bundles
                        }
                        p.i += 1;
                    }
                    assert!(p.eat_id("label"));
                    match p.next() {
                        Tok::Loc(n) => normal = Some(fx.block(&n)),
                        _ => panic!(),
                    }
                }
                I::Call(callee, args, rt, dst, normal)
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut p, fx);
                let mut ix = vec![];
                while p.eat_p(',') && matches!(p.peek(), Some(Tok::Num(_))) {
                    ix.push(p.num() as usize);
                }
                I::ExtractValue(a, ix, d)
            }
            "insertvalue" => {
                let (_, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, v) = self.tyop(&mut p, fx);
                let mut ix = vec![];
                while p.eat_p(',') && matches!(p.peek(), Some(Tok::Num(_))) {
                    ix.push(p.num() as usize);
                }
                I::InsertValue(a, v, ix, d)
            }
            "extractelement" => {
                let (_, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, i) = self.tyop(&mut p, fx);
                I::ExtractElement(a, i, d)
            }
            "insertelement" => {
                let (_, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, v) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, i) = self.tyop(&mut p, fx);
                I::InsertElement(a, v, i, d)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, b) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let mt = p.ty();
                let m = self.konst(&mut p, &mt);
                let n = match t {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                let mv = match m {
                    Val::A(v) => v.iter().map(|x| if let Val::C(c) = x { sx(*c, 32) } else { 0 }).collect(),
                    _ => panic!(),
                };
                I::Shuffle(a, b, mv, n, d)
            }
            "freeze" => {
                let (_, a) = self.tyop(&mut p, fx);
                I::Freeze(a, d)
            }
            "atomicrmw" => {
                p.eat_id("volatile");
                let o = p.id();
                let (_, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (t, v) = self.tyop(&mut p, fx);
                I::AtomicRmw(o.as_str().into(), t, a, v, d)
            }
            "cmpxchg" => {
                p.eat_id("weak");
                p.eat_id("volatile");
                let (_, a) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (t, c) = self.tyop(&mut p, fx);
                p.exp_p(',');
                let (_, n) = self.tyop(&mut p, fx);
                I::CmpXchg(t, a, c, n, d)
            }
            "fence" => I::Nop,
            "br" => {
                if p.eat_id("label") {
                    match p.next() {
                        Tok::Loc(n) => I::Br(fx.block(&n)),
                        _ => panic!(),
                    }
                } else {
                    let (_, c) = self.tyop(&mut p, fx);
                    p.exp_p(',');
                    p.eat_id("label");
                    let a = match p.next() {
                        Tok::Loc(n) => fx.block(&n),
                        _ => panic!(),
                    };
                    p.exp_p(',');
                    p.eat_id("label");
                    let b = match p.next() {
                        Tok::Loc(n) => fx.block(&n),
                        _ => panic!(),
                    };
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(&mut p, fx);
                p.exp_p(',');
                p.eat_id("label");
                let def = match p.next() {
                    Tok::Loc(n) => fx.block(&n),
                    _ => panic!(),
                };
                p.exp_p('[');
                let mut cs = vec![];
                while !p.eat_p(']') {
                    let t = p.ty();
                    let k = match self.konst(&mut p, &t) {
                        Val::C(x) => x,
                        _ => panic!("switch const"),
                    };
                    p.exp_p(',');
                    p.eat_id("label");
                    match p.next() {
                        Tok::Loc(n) => cs.push((k, fx.block(&n))),
                        _ => panic!(),
                    }
                }
                I::Switch(t.width(), v, def, cs)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = self.op(&mut p, &t, fx);
                    I::Ret(Some((t, o)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "landingpad" => I::Landingpad(d),
            s if s.starts_with("#dbg") => return,
            s => I::Unsupported(s.into()),
        };
        bl.ins.push(ins);
    }
}
impl<'a> P<'a> {
    fn skip_attrs_arg(&mut self) {
        // attributes between the type and the value of an argument
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if matches!(s.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "splat") || s.starts_with('!') {
                        return;
                    }
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    }
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Str(_)) if matches!(self.t.get(self.i + 1), Some(Tok::P('='))) => {
                    self.i += 3;
                }
                _ => return,
            }
        }
    }
}

struct FnCx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&self, n: &str) -> u32 {
        self.blocks.get(n).copied().unwrap_or(0)
    }
}

fn gname(line: &str) -> String {
    let i = line.find('@').unwrap();
    let r = &line[i + 1..];
    if r.starts_with('"') {
        let e = r[1..].find('"').unwrap();
        r[1..1 + e].to_string()
    } else {
        let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
        r[..e].to_string()
    }
}

pub fn msk(x: u64, w: u32) -> u64 {
    if w >= 64 {
        x
    } else {
        x & ((1u64 << w) - 1)
    }
}
pub fn sx(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}
fn parse_int(s: &str, w: u32) -> Val {
    if w <= 64 {
        if let Ok(v) = s.parse::<i128>() {
            return Val::C(msk(v as u64, w));
        }
    }
    // big decimal -> bits
    let neg = s.starts_with('-');
    let ds = s.trim_start_matches('-');
    let mut limbs: Vec<u32> = vec![0; (w as usize + 31) / 32 + 1];
    for c in ds.bytes() {
        let mut carry = (c - b'0') as u64;
        for l in limbs.iter_mut() {
            let v = *l as u64 * 10 + carry;
            *l = v as u32;
            carry = v >> 32;
        }
    }
    if neg {
        let mut carry = 1u64;
        for l in limbs.iter_mut() {
            let v = (!*l) as u64 + carry;
            *l = v as u32;
            carry = v >> 32;
        }
    }
    let bits: Vec<Bit> = (0..w as usize).map(|i| Bit::C(limbs[i / 32] >> (i % 32) & 1 == 1)).collect();
    Val::S(Rc::new(bits))
}
fn put(out: &mut [u8], off: usize, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Arr(_, t), Val::A(xs)) | (Ty::Vec(_, t), Val::A(xs)) => {
            let s = t.alloc_size() as usize;
            for (i, x) in xs.iter().enumerate() {
                put(out, off + i * s, t, x);
            }
        }
        (Ty::Struct(f, _), Val::A(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                put(out, off + ty.field_off(i) as usize, &f[i], x);
            }
        }
        (_, Val::C(x)) => {
            for i in 0..ty.size() as usize {
                out[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
            }
        }
        (_, Val::S(b)) => {
            for (i, x) in b.iter().enumerate() {
                if let Bit::C(true) = x {
                    out[off + i / 8] |= 1 << (i % 8);
                }
            }
        }
        _ => panic!("put {:?} {:?}", ty, v),
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(I::Br(x)) => vec![*x],
        Some(I::CondBr(_, x, y)) => vec![*x, *y],
        Some(I::Switch(_, _, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|c| c.1));
            v
        }
        Some(I::Call(_, _, _, _, Some(n))) => vec![*n],
        _ => vec![],
    }
}
fn analyse(blocks: &[Block]) -> (Vec<u32>, Vec<bool>) {
    let n = blocks.len();
    let su: Vec<Vec<u32>> = blocks.iter().map(succs).collect();
    let mut pred: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in su.iter().enumerate() {
        for t in s {
            pred[*t as usize].push(i as u32);
        }
    }
    // alive: reaches a ret
    let mut alive = vec![false; n];
    let mut st: Vec<usize> = (0..n).filter(|&i| matches!(blocks[i].ins.last(), Some(I::Ret(_)))).collect();
    let rets = st.clone();
    for &i in &st {
        alive[i] = true;
    }
    while let Some(i) = st.pop() {
        for &p in &pred[i] {
            if !alive[p as usize] {
                alive[p as usize] = true;
                st.push(p as usize);
            }
        }
    }
    // reverse postorder of reverse graph from virtual exit (index n)
    let exit = n;
    let mut order = Vec::new();
    let mut seen = vec![false; n + 1];
    let mut stack: Vec<(usize, usize)> = vec![(exit, 0)];
    seen[exit] = true;
    let rsucc = |i: usize| -> Vec<usize> {
        if i == exit {
            rets.clone()
        } else {
            pred[i].iter().map(|x| *x as usize).filter(|x| alive[*x]).collect()
        }
    };
    let mut cache: Vec<Option<Vec<usize>>> = vec![None; n + 1];
    while let Some((i, k)) = stack.pop() {
        if cache[i].is_none() {
            cache[i] = Some(rsucc(i));
        }
        let c = cache[i].as_ref().unwrap();
        if k < c.len() {
            let t = c[k];
            stack.push((i, k + 1));
            if !seen[t] {
                seen[t] = true;
                stack.push((t, 0));
            }
        } else {
            order.push(i);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (k, i) in order.iter().enumerate() {
        num[*i] = k;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().rev() {
            if b == exit {
                continue;
            }
            let mut ps: Vec<usize> = su[b].iter().map(|x| *x as usize).filter(|x| alive[*x]).collect();
            if matches!(blocks[b].ins.last(), Some(I::Ret(_))) {
                ps.push(exit);
            }
            let mut nw = usize::MAX;
            for p in ps {
                if idom[p] == usize::MAX {
                    continue;
                }
                if nw == usize::MAX {
                    nw = p;
                } else {
                    let (mut a, mut c) = (nw, p);
                    while a != c {
                        while num[a] < num[c] {
                            a = idom[a];
                        }
                        while num[c] < num[a] {
                            c = idom[c];
                        }
                    }
                    nw = a;
                }
            }
            if nw != usize::MAX && idom[b] != nw {
                idom[b] = nw;
                changed = true;
            }
        }
    }
    let mut ip = vec![u32::MAX; n];
    let mut mg = vec![false; n];
    for b in 0..n {
        if alive[b] && idom[b] < n {
            ip[b] = idom[b] as u32;
            if su[b].len() >= 2 {
                // region must not contain b
                let j = idom[b];
                let mut seen = vec![false; n];
                let mut st: Vec<usize> = su[b].iter().map(|x| *x as usize).filter(|&x| x != j && alive[x]).collect();
                let mut ok = true;
                while let Some(x) = st.pop() {
                    if seen[x] {
                        continue;
                    }
                    seen[x] = true;
                    if x == b {
                        ok = false;
                        break;
                    }
                    for &y in &su[x] {
                        let y = y as usize;
                        if y != j && alive[y] && !seen[y] {
                            st.push(y);
                        }
                    }
                }
                mg[b] = ok;
            }
        }
    }
    (ip, mg)
}
