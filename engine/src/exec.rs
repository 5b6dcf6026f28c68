//! Symbolic executor for decoded LLVM IR.
use crate::bits::*;
use crate::bv::{self, Sh, Val};
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Res, Smt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub enum Stop {
    /// split the state on this bit and re-execute the instruction
    Fork(Bit),
    /// n-way branch: (condition, target block)
    Branch(Vec<(Bit, u32)>),
    Panic(String),
    Done,
    Dead,
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub idx: u32,
    pub prev: u32,
    pub phis_done: bool,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub below: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub pc: Vec<Bit>,
    pub sigma: Sigma,
    pub gpc: Vec<Option<Rc<TT>>>,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<u32>>, // input indices in creation order
    pub outs: Rc<Vec<(Val, u32)>>,
    pub steps: u64,
    pub forks: u32,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub what: String,
    pub bits: String,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub bits: String,
    pub outs: Vec<u64>,
    pub panic: bool,
}
pub struct Conf {
    pub merge: bool,
    pub merge_pop: u32,
    /// small integers in 8-byte fields may be merged, too
    pub merge_words: bool,
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_total: u64,
    pub max_secs: f64,
    pub region_budget: u64,
    pub concrete: Option<Vec<bool>>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub trace: bool,
    pub audit: u64,
    pub plain: bool,
}
#[derive(Default)]
pub struct Counters {
    pub paths: u64,
    pub panics: u64,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_refused: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_tt: u64,
    pub checks_smt: u64,
    pub branch_sym: u64,
    pub tt_dec: u64,
    pub lin_dec: u64,
    pub audited: u64,
    pub audit_unknown: u64,
    pub assumes: u64,
    pub conc: u64,
    pub dead: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Nop,
    Memcpy,
    Memset,
    Min,
    Max,
    SMin,
    SMax,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    USubSat,
    UAddSat,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    Fl1(u8),
    /// libm function of one or two arguments, on concrete values
    Lm(u8),
    Powi,
    Fma,
    Fmin,
    Fmax,
    Copysign,
    FpToUiSat,
    FpToSiSat,
    Ident,
    LoadRel,
    LifetimeEnd,
    False,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    Bcmp,
    Memcmp,
    Strlen,
    GetRandom,
    Errno,
    VecReduce(u8),
    SymBytes,
    SymBits,
    SymGroup,
    Assume,
    Check,
    Note,
    Out,
    Param,
    Pick,
    Panic,
    Unsup,
}
#[derive(Clone)]
enum Target {
    Fn(Rc<Func>),
    B(B, Rc<str>),
}
#[derive(Clone)]
pub struct StopAt {
    depth: usize,
    blk: u32,
}

pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub smt: Smt,
    pub conf: Conf,
    pub params: Vec<u64>,
    pub ct: Counters,
    pub viol: Option<Violation>,
    pub error: Option<String>,
    pub notes: BTreeMap<u64, u64>,
    pub check_ids: BTreeMap<u64, u64>,
    pub funcs: BTreeSet<String>,
    pub samples: Vec<Sample>,
    pub profile: BTreeMap<String, u64>,
    gcache: HashMap<u32, Option<Rc<Obj>>, BIdH>,
    tcache: HashMap<usize, Target, BIdH>,
    sup: HashMap<Rc<Form>, Rc<Vec<u64>>, BIdH>,
    asup: HashMap<u32, Rc<Vec<u64>>, BIdH>,
    anf: HashMap<(u32, u64, u64, u32), Rc<Vec<(u32, u64)>>>,
    zero: Rc<Page>,
    audit_time: f64,
    t0: Instant,
}

fn is_c(v: &Val) -> bool {
    matches!(v, Val::C(_))
}

impl Exec {
    pub fn new(m: Module, conf: Conf, params: Vec<u64>, timeout_ms: u32) -> Exec {
        Exec {
            m,
            cx: Ctx::new(),
            smt: Smt::new(timeout_ms),
            conf,
            params,
            ct: Counters::default(),
            viol: None,
            error: None,
            notes: BTreeMap::new(),
            check_ids: BTreeMap::new(),
            funcs: BTreeSet::new(),
            samples: vec![],
            profile: BTreeMap::new(),
            gcache: HashMap::with_hasher(BIdH),
            tcache: HashMap::with_hasher(BIdH),
            sup: HashMap::with_hasher(BIdH),
            asup: HashMap::with_hasher(BIdH),
            anf: HashMap::new(),
            zero: Rc::new(Page::zero()),
            audit_time: 0.0,
            t0: Instant::now(),
        }
    }
    pub fn start(&mut self, entry: &str) {
        let f = match self.m.func(entry) {
            Some(f) => f,
            None => {
                self.error = Some(format!("no such entry {}", entry));
                return;
            }
        };
        self.funcs.insert(f.name.to_string());
        let top = Frame { regs: vec![Val::C(0); f.nregs as usize], f, blk: 0, idx: 0, prev: 0, phis_done: true, allocas: vec![], dst: None, normal: None };
        let st = State {
            below: vec![],
            top,
            mem: Mem::new(),
            pc: vec![],
            sigma: Sigma::default(),
            gpc: vec![],
            model: Rc::new(Model::new(self.conf.concrete.clone().unwrap_or_default())),
            inputs: Rc::new(vec![]),
            outs: Rc::new(vec![]),
            steps: 0,
            forks: 0,
        };
        let (r, s) = self.run(vec![st], None, u64::MAX);
        if self.error.is_none() && self.viol.is_none() && (!r.is_empty() || !s.is_empty()) {
            self.error = Some("internal: states left over".into());
        }
    }
    fn halted(&self) -> bool {
        self.viol.is_some() || self.error.is_some()
    }

    // ---------------------------------------------------------------- driver
    fn run(&mut self, mut work: Vec<State>, stop: Option<StopAt>, budget: u64) -> (Vec<State>, Vec<State>) {
        let mut reached = vec![];
        let mut spilled = vec![];
        let mut used = 0u64;
        'outer: while let Some(mut st) = work.pop() {
            if self.halted() {
                return (vec![], vec![]);
            }
            loop {
                if let Some(s) = &stop {
                    if st.top.blk == s.blk && st.top.idx == 0 && st.below.len() == s.depth {
                        reached.push(st);
                        continue 'outer;
                    }
                    if used > budget || work.len() + reached.len() > 64 {
                        spilled.push(st);
                        spilled.append(&mut work);
                        continue 'outer;
                    }
                }
                let s0 = st.steps;
                let r = self.step_many(&mut st, &stop);
                used += st.steps - s0;
                self.ct.steps += st.steps - s0;
                if self.ct.steps > self.conf.max_total {
                    self.error = Some("inconclusive: total step limit".into());
                }
                if st.steps > self.conf.max_steps {
                    self.error = Some(format!("inconclusive: path step limit in {}", st.top.f.name));
                }
                if self.t0.elapsed().as_secs_f64() > self.conf.max_secs {
                    self.error = Some("inconclusive: time limit".into());
                }
                if self.halted() {
                    return (vec![], vec![]);
                }
                match r {
                    Ok(()) => {}
                    Err(Stop::Done) => {
                        self.finish(&st, None);
                        continue 'outer;
                    }
                    Err(Stop::Dead) => {
                        self.ct.dead += 1;
                        continue 'outer;
                    }
                    Err(Stop::Panic(msg)) => {
                        self.finish(&st, Some(msg));
                        continue 'outer;
                    }
                    Err(Stop::Err(e)) => {
                        self.error = Some(format!("{} in {} block {} [stack: {}]", e, st.top.f.name, st.top.f.blocks[st.top.blk as usize].name, self.stack(&st).join(" < ")));
                        return (vec![], vec![]);
                    }
                    Err(Stop::Fork(b)) => match self.split(&mut st, &b) {
                        Err(e) => {
                            self.error = Some(e);
                            return (vec![], vec![]);
                        }
                        Ok(None) => {}
                        Ok(Some(other)) => {
                            self.prof(&st, "fork");
                            work.push(other);
                        }
                    },
                    Err(Stop::Branch(arms)) => {
                        let blk = st.top.blk;
                        let mergeable = self.conf.merge && st.top.f.mergeable[blk as usize];
                        let join = st.top.f.ipdom[blk as usize];
                        // feasible arms
                        let base_len = st.pc.len();
                        let base_sigma = st.sigma.clone();
                        let mut alive: Vec<State> = vec![];
                        let mut rest = Some(st);
                        let n = arms.len();
                        for (k, (c, t)) in arms.into_iter().enumerate() {
                            let mut cur = match rest.take() {
                                Some(s) => s,
                                None => break,
                            };
                            if k + 1 == n {
                                // all remaining
                                Self::jump(&mut cur, t);
                                alive.push(cur);
                                break;
                            }
                            let c = self.reduce(&cur, &c);
                            match c {
                                Bit::C(true) => {
                                    Self::jump(&mut cur, t);
                                    alive.push(cur);
                                    break;
                                }
                                Bit::C(false) => rest = Some(cur),
                                c => match self.split(&mut cur, &c) {
                                    Err(e) => {
                                        self.error = Some(e);
                                        return (vec![], vec![]);
                                    }
                                    Ok(None) => {
                                        // only one side feasible
                                        if cur.model.bit(&self.cx, &c) {
                                            Self::jump(&mut cur, t);
                                            alive.push(cur);
                                            break;
                                        } else {
                                            rest = Some(cur);
                                        }
                                    }
                                    Ok(Some(o)) => {
                                        let (mut yes, no) = if cur.model.bit(&self.cx, &c) { (cur, o) } else { (o, cur) };
                                        Self::jump(&mut yes, t);
                                        alive.push(yes);
                                        rest = Some(no);
                                    }
                                },
                            }
                        }
                        if alive.len() == 1 {
                            st = alive.pop().unwrap();
                            continue;
                        }
                        self.prof(&alive[0], "branch");
                        if !mergeable {
                            alive.reverse();
                            st = alive.pop().unwrap();
                            work.append(&mut alive);
                            continue;
                        }
                        let depth = alive[0].below.len();
                        let mut got: Vec<State> = vec![];
                        let share = self.conf.region_budget.min(budget.saturating_sub(used).max(2000));
                        for a in alive {
                            let b0 = self.ct.steps;
                            let (r, s) = self.run(vec![a], Some(StopAt { depth, blk: join }), share);
                            used += self.ct.steps - b0;
                            if self.halted() {
                                return (vec![], vec![]);
                            }
                            work.extend(s);
                            for x in r {
                                let mut x = Some(x);
                                for g in got.iter_mut() {
                                    if let Some(m) = self.merge(g, x.as_ref().unwrap(), base_len, &base_sigma) {
                                        *g = m;
                                        x = None;
                                        break;
                                    }
                                }
                                if let Some(x) = x {
                                    got.push(x);
                                }
                            }
                        }
                        got.reverse();
                        match got.pop() {
                            None => continue 'outer,
                            Some(s) => st = s,
                        }
                        work.append(&mut got);
                    }
                }
            }
        }
        (reached, spilled)
    }
    fn prof(&mut self, st: &State, k: &str) {
        if self.conf.trace {
            let f = st.below.len();
            let key = format!("{} {} {} d{}", k, st.top.f.name, st.top.f.blocks[st.top.blk as usize].name, f);
            *self.profile.entry(key).or_insert(0) += 1;
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.top.f.name.to_string()];
        for f in st.below.iter().rev() {
            v.push(f.f.name.to_string());
        }
        v
    }
    fn jump(st: &mut State, t: u32) {
        st.top.prev = st.top.blk;
        st.top.blk = t;
        st.top.idx = 0;
        st.top.phis_done = false;
    }
    fn model_bits(&self, st: &State, m: &Model) -> String {
        st.inputs.iter().map(|i| if m.inp.get(*i as usize).copied().unwrap_or(false) { '1' } else { '0' }).collect()
    }
    fn finish(&mut self, st: &State, panic: Option<String>) {
        self.ct.paths += 1;
        if self.ct.paths > self.conf.max_paths {
            self.error = Some("inconclusive: path limit".into());
            return;
        }
        if let Some(msg) = panic {
            self.ct.panics += 1;
            if self.conf.concrete.is_none() {
                self.viol = Some(Violation { kind: "panic".into(), what: msg, bits: self.model_bits(st, &st.model), stack: self.stack(st) });
                return;
            }
            self.sample(st, true);
            return;
        }
        if self.samples.len() < self.conf.max_samples && (self.ct.paths - 1) % self.conf.sample_every == 0 {
            self.sample(st, false);
        }
    }
    fn sample(&mut self, st: &State, panic: bool) {
        let outs = st
            .outs
            .iter()
            .map(|(v, w)| {
                let b = v.bits(*w);
                let mut r = 0u64;
                for (i, x) in b.iter().enumerate() {
                    if st.model.bit(&self.cx, x) {
                        r |= 1 << i;
                    }
                }
                r
            })
            .collect();
        self.samples.push(Sample { bits: self.model_bits(st, &st.model), outs, panic });
    }

    // ------------------------------------------------------- path conditions
    fn reduce(&self, st: &State, b: &Bit) -> Bit {
        if let Bit::F(f, n) = b {
            if let Some(g) = self.cx.group_of(f) {
                if let Some(Some(p)) = st.gpc.get(g) {
                    let t = self.cx.tt_of(f, *n, g);
                    let (mut any0, mut any1) = (false, false);
                    for (x, y) in t.iter().zip(p.iter()) {
                        any1 |= x & y != 0;
                        any0 |= !x & y != 0;
                    }
                    if !any1 {
                        return B0;
                    }
                    if !any0 {
                        return B1;
                    }
                }
                return b.clone();
            }
        }
        st.sigma.reduce(b)
    }
    /// Adds the (known satisfiable or implied) fact `b` to the simplifier.
    fn learn(&mut self, st: &mut State, b: &Bit) {
        let mut todo = vec![b.clone()];
        let mut n = 0;
        while let Some(b) = todo.pop() {
            n += 1;
            if n > 400 {
                break;
            }
            let b = match &b {
                Bit::F(f, neg) => {
                    if let Some(g) = self.cx.group_of(f) {
                        let t = self.cx.tt_of(f, *neg, g);
                        while st.gpc.len() <= g {
                            st.gpc.push(None);
                        }
                        let nt = match &st.gpc[g] {
                            None => t,
                            Some(p) => p.iter().zip(t.iter()).map(|(a, b)| a & b).collect(),
                        };
                        st.gpc[g] = Some(Rc::new(nt));
                        continue;
                    }
                    b
                }
                _ => continue,
            };
            // decompose products
            if let Bit::F(f, neg) = &b {
                if let Atom::And(x, y) = &self.cx.atoms[f.top() as usize] {
                    let (x, y) = (Bit::F(x.clone(), false), Bit::F(y.clone(), false));
                    let mut done = false;
                    for (p, q) in [(false, false), (true, false), (false, true), (true, true)] {
                        let xx = if p { x.not() } else { x.clone() };
                        let yy = if q { y.not() } else { y.clone() };
                        if self.cx.and(&xx, &yy) == Bit::F(f.clone(), *neg) {
                            todo.push(xx);
                            todo.push(yy);
                            done = true;
                            break;
                        }
                    }
                    if done {
                        continue;
                    }
                }
            }
            st.sigma.add(&b);
        }
    }
    fn assert_bit(&mut self, st: &mut State, b: &Bit) {
        st.pc.push(b.clone());
        self.learn(st, b);
    }
    fn atom_sup(&mut self, a: u32) -> Rc<Vec<u64>> {
        if let Some(s) = self.asup.get(&a) {
            return s.clone();
        }
        // iterative
        let mut stack = vec![a];
        while let Some(&t) = stack.last() {
            if self.asup.contains_key(&t) {
                stack.pop();
                continue;
            }
            let mut set: Vec<u64> = vec![];
            match &self.cx.atoms[t as usize] {
                Atom::Input(i) => {
                    set.resize(*i as usize / 64 + 1, 0);
                    set[*i as usize / 64] |= 1 << (i % 64);
                }
                Atom::Mono(g, m) => {
                    let gr = self.cx.groups[*g as usize];
                    for k in BitIter(*m as u64) {
                        let i = (gr.first_input + k) as usize;
                        if set.len() <= i / 64 {
                            set.resize(i / 64 + 1, 0);
                        }
                        set[i / 64] |= 1 << (i % 64);
                    }
                }
                Atom::And(f, g) => {
                    let mut miss = false;
                    for x in f.atoms().chain(g.atoms()) {
                        match self.asup.get(&x) {
                            None => {
                                stack.push(x);
                                miss = true;
                            }
                            Some(s) if !miss => or_into(&mut set, s),
                            _ => {}
                        }
                    }
                    if miss {
                        continue;
                    }
                }
                Atom::Pad => {}
            }
            self.asup.insert(t, Rc::new(set));
            stack.pop();
        }
        self.asup[&a].clone()
    }
    fn support(&mut self, f: &Rc<Form>) -> Rc<Vec<u64>> {
        if let Some(s) = self.sup.get(f) {
            return s.clone();
        }
        let mut set = vec![];
        let atoms: Vec<u32> = f.atoms().collect();
        for a in atoms {
            let s = self.atom_sup(a);
            or_into(&mut set, &s);
        }
        let r = Rc::new(set);
        self.sup.insert(f.clone(), r.clone());
        r
    }
    /// Is pc && b satisfiable?  Some(model) if so.
    fn feasible(&mut self, st: &State, b: &Bit) -> Result<Option<Rc<Model>>, String> {
        let before = self.ct.tt_dec + self.ct.lin_dec;
        let r = self.feasible_inner(st, b)?;
        let now = self.ct.tt_dec + self.ct.lin_dec;
        // Cross-check: every n-th verdict of the truth-table / linear procedures is asked of Z3 too.
        if now != before && self.conf.audit > 0 && now % self.conf.audit == 0 && self.audit_time < 1.5 {
            let t0 = Instant::now();
            let mut cs: Vec<Bit> = st.pc.clone();
            cs.push(b.clone());
            let size: u64 = cs.iter().map(|c| if let Bit::F(f, _) = c { f.count() as u64 } else { 0 }).sum();
            if size <= 400 {
                let z = self.smt.check(&self.cx, &cs);
                match (z, &r) {
                    (Res::Sat(_), Some(_)) | (Res::Unsat, None) => self.ct.audited += 1,
                    (Res::Unknown, _) => self.ct.audit_unknown += 1,
                    _ => return Err("internal: Z3 disagrees with the built-in decision procedure".into()),
                }
            }
            self.audit_time += t0.elapsed().as_secs_f64();
        }
        Ok(r)
    }
    fn feasible_inner(&mut self, st: &State, b: &Bit) -> Result<Option<Rc<Model>>, String> {
        let (f, neg) = match b {
            Bit::C(false) => return Ok(None),
            Bit::C(true) => return Ok(Some(st.model.clone())),
            Bit::F(f, n) => (f.clone(), *n),
        };
        if st.model.bit(&self.cx, b) {
            return Ok(Some(st.model.clone()));
        }
        if self.conf.concrete.is_some() {
            return Ok(None);
        }
        // relevant constraints
        let mut set = (*self.support(&f)).clone();
        let mut sel = vec![false; st.pc.len()];
        let sups: Vec<Rc<Vec<u64>>> = st
            .pc
            .iter()
            .map(|c| match c {
                Bit::F(f, _) => self.support(f),
                _ => Rc::new(vec![]),
            })
            .collect();
        loop {
            let mut ch = false;
            for i in 0..sel.len() {
                if !sel[i] && sups[i].iter().zip(set.iter()).any(|(a, b)| a & b != 0) {
                    sel[i] = true;
                    or_into(&mut set, &sups[i]);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<Bit> = (0..sel.len()).filter(|i| sel[*i]).map(|i| st.pc[i].clone()).collect();
        // truth-table decision inside one group
        if let Some(g) = self.cx.group_of(&f) {
            if cs.iter().all(|c| match c {
                Bit::F(f, _) => self.cx.group_of(f) == Some(g),
                _ => true,
            }) {
                self.ct.tt_dec += 1;
                let mut t = self.cx.tt_of(&f, neg, g);
                if let Some(Some(p)) = st.gpc.get(g) {
                    for (x, y) in t.iter_mut().zip(p.iter()) {
                        *x &= *y;
                    }
                }
                for (i, w) in t.iter().enumerate() {
                    if *w != 0 {
                        let a = i * 64 + w.trailing_zeros() as usize;
                        let gr = self.cx.groups[g];
                        let mut inp = st.model.inp.clone();
                        inp.resize(self.cx.inputs.len(), false);
                        for k in 0..gr.n {
                            inp[(gr.first_input + k) as usize] = a >> k & 1 == 1;
                        }
                        return Ok(Some(Rc::new(Model::new(inp))));
                    }
                }
                return Ok(None);
            }
        }
        // Linear elimination of inputs that occur in no nonlinear term of the slice:
        // such an input can always be chosen to satisfy the row it is the pivot of.
        let mut nl: Vec<u64> = vec![];
        {
            let mut seen: Vec<u32> = vec![];
            for c in cs.iter().chain(std::iter::once(b)) {
                if let Bit::F(f, _) = c {
                    for a in f.atoms() {
                        if !matches!(self.cx.atoms[a as usize], Atom::Input(_)) {
                            seen.push(a);
                        }
                    }
                }
            }
            seen.sort_unstable();
            seen.dedup();
            for a in seen {
                let sp = self.atom_sup(a);
                or_into(&mut nl, &sp);
            }
        }
        let free_top = |cx: &Ctx, f: &Form| -> Option<u32> {
            let mut best = None;
            for a in f.atoms() {
                if let Atom::Input(i) = cx.atoms[a as usize] {
                    let i = i as usize;
                    if i / 64 >= nl.len() || nl[i / 64] >> (i % 64) & 1 == 0 {
                        best = Some(a);
                    }
                }
            }
            best
        };
        let mut piv: BTreeMap<u32, Bit> = BTreeMap::new();
        let mut resid: Vec<Bit> = vec![];
        let mut bres: Option<Bit> = None;
        let nrows = cs.len();
        for (k, c) in cs.iter().chain(std::iter::once(b)).enumerate() {
            let mut row = c.clone();
            loop {
                let t = match &row {
                    Bit::F(f, _) => free_top(&self.cx, f),
                    _ => None,
                };
                match t {
                    Some(t) => match piv.get(&t) {
                        // rows are equations row = 1: adding two of them flips the constant
                        Some(p) => row = row.xor(p).not(),
                        None => {
                            piv.insert(t, row);
                            break;
                        }
                    },
                    None => {
                        if k == nrows {
                            bres = Some(row);
                        } else if row != B1 {
                            resid.push(row);
                        }
                        break;
                    }
                }
            }
        }
        let solve_pivots = |cx: &Ctx, inp: Vec<bool>| -> Rc<Model> {
            let mut inp = inp;
            // ascending: the other free inputs of a row are below its pivot
            let mut m = Model::new(inp.clone());
            for (a, row) in &piv {
                if !m.bit(cx, row) {
                    if let Atom::Input(i) = cx.atoms[*a as usize] {
                        inp[i as usize] = !inp[i as usize];
                        m = Model::new(inp.clone());
                    }
                }
            }
            Rc::new(m)
        };
        let mut base = st.model.inp.clone();
        base.resize(self.cx.inputs.len(), false);
        match bres {
            None | Some(Bit::C(true)) => {
                self.ct.lin_dec += 1;
                let m = solve_pivots(&self.cx, base);
                for c in cs.iter().chain(std::iter::once(b)) {
                    if !m.bit(&self.cx, c) {
                        return Err("internal: linear model does not satisfy the query".into());
                    }
                }
                return Ok(Some(m));
            }
            Some(Bit::C(false)) => {
                self.ct.lin_dec += 1;
                return Ok(None);
            }
            Some(r) if !piv.is_empty() => {
                let mut q = resid.clone();
                q.push(r);
                return match self.smt.check(&self.cx, &q) {
                    Res::Unsat => Ok(None),
                    Res::Unknown => Err("inconclusive: solver gave up".into()),
                    Res::Sat(vals) => {
                        for (i, v) in vals {
                            base[i as usize] = v;
                        }
                        let m = solve_pivots(&self.cx, base);
                        for c in cs.iter().chain(std::iter::once(b)) {
                            if !m.bit(&self.cx, c) {
                                return Err("internal: solver model does not satisfy the query".into());
                            }
                        }
                        Ok(Some(m))
                    }
                };
            }
            Some(_) => {}
        }
        cs.push(b.clone());
        match self.smt.check(&self.cx, &cs) {
            Res::Unsat => Ok(None),
            Res::Unknown => Err("inconclusive: solver gave up".into()),
            Res::Sat(vals) => {
                let mut inp = st.model.inp.clone();
                inp.resize(self.cx.inputs.len(), false);
                for (i, v) in vals {
                    inp[i as usize] = v;
                }
                let m = Model::new(inp);
                for c in &cs {
                    if !m.bit(&self.cx, c) {
                        return Err("internal: solver model does not satisfy the query".into());
                    }
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }
    /// Split on a symbolic bit: `st` keeps the side its model takes; the other
    /// side is returned if feasible.
    fn split(&mut self, st: &mut State, b: &Bit) -> Result<Option<State>, String> {
        let r = self.split_inner(st, b);
        r.map_err(|e| format!("{} at {} block {}", e, st.top.f.name, st.top.f.blocks[st.top.blk as usize].name))
    }
    fn split_inner(&mut self, st: &mut State, b: &Bit) -> Result<Option<State>, String> {
        let v = st.model.bit(&self.cx, b);
        let (yes, no) = if v { (b.clone(), b.not()) } else { (b.not(), b.clone()) };
        if self.conf.concrete.is_some() {
            self.assert_bit(st, &yes);
            return Ok(None);
        }
        self.ct.branch_sym += 1;
        match self.feasible(st, &no)? {
            None => {
                self.learn(st, &yes);
                Ok(None)
            }
            Some(m) => {
                self.ct.forks += 1;
                st.forks += 1;
                let mut o = st.clone();
                o.model = m;
                self.assert_bit(&mut o, &no);
                self.assert_bit(st, &yes);
                Ok(Some(o))
            }
        }
    }

    // ------------------------------------------------------------- merging
    fn enter_phis(&mut self, st: &mut State) -> R<()> {
        if st.top.phis_done {
            return Ok(());
        }
        let f = st.top.f.clone();
        let b = &f.blocks[st.top.blk as usize];
        if !b.phis.is_empty() {
            let prev = st.top.prev;
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let mut found = None;
                for (pb, o) in &p.inc {
                    if *pb == prev {
                        found = Some(o);
                        break;
                    }
                }
                match found {
                    Some(o) => vals.push(self.get(st, o)),
                    None => return Err(Stop::Err("phi without incoming edge".into())),
                }
            }
            for (p, v) in b.phis.iter().zip(vals) {
                st.top.regs[p.dst as usize] = v;
            }
        }
        st.top.phis_done = true;
        Ok(())
    }
    fn merge(&mut self, a: &State, b: &State, base_len: usize, base_sigma: &Sigma) -> Option<State> {
        let r = self.merge_inner(a, b, base_len, base_sigma);
        if r.is_some() {
            self.ct.merges += 1;
        } else {
            self.ct.merge_refused += 1;
        }
        r
    }
    fn merge_inner(&mut self, a: &State, b: &State, base_len: usize, base_sigma: &Sigma) -> Option<State> {
        if a.inputs.len() != b.inputs.len() || a.outs.len() != b.outs.len() || a.below.len() != b.below.len() {
            return None;
        }
        if a.inputs.iter().zip(b.inputs.iter()).any(|(x, y)| x != y) {
            return None;
        }
        if !Rc::ptr_eq(&a.outs, &b.outs) {
            return None;
        }
        if !Rc::ptr_eq(&a.top.f, &b.top.f) || a.top.allocas != b.top.allocas {
            return None;
        }
        if a.below.iter().zip(b.below.iter()).any(|(x, y)| !Rc::ptr_eq(x, y)) {
            return None;
        }
        let mut a = a.clone();
        let mut b = b.clone();
        if self.enter_phis(&mut a).is_err() || self.enter_phis(&mut b).is_err() {
            return None;
        }
        // object tables
        let n = a.mem.objs.len().max(b.mem.objs.len());
        let mut objdiff: Vec<usize> = vec![];
        for i in 0..n {
            match (a.mem.objs.get(i).and_then(|x| x.as_ref()), b.mem.objs.get(i).and_then(|x| x.as_ref())) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if !Rc::ptr_eq(x, y) {
                        if x.size != y.size {
                            return None;
                        }
                        objdiff.push(i);
                    }
                }
                _ => return None,
            }
        }
        for (k, v) in a.mem.gl.iter() {
            match b.mem.gl.get(k) {
                Some(w) if Rc::ptr_eq(v, w) => {}
                _ => return None,
            }
        }
        if a.mem.gl.len() != b.mem.gl.len() {
            return None;
        }
        // memory differences
        let mut diffs: Vec<(usize, usize)> = vec![];
        for &i in &objdiff {
            let (x, y) = (a.mem.objs[i].as_ref().unwrap(), b.mem.objs[i].as_ref().unwrap());
            for p in 0..x.pages.len() {
                let (u, v) = (&x.pages[p], &y.pages[p]);
                if Rc::ptr_eq(u, v) {
                    continue;
                }
                for o in 0..PS {
                    let us = u.s.as_ref().and_then(|s| s[o].as_ref());
                    let vs = v.s.as_ref().and_then(|s| s[o].as_ref());
                    match (us, vs) {
                        (None, None) => {
                            if u.b[o] != v.b[o] {
                                let t = u.t[o].max(v.t[o]);
                                let small = |q: &Page| {
                                    let e = (o & !7) + 4;
                                    self.conf.merge_words && e + 4 <= PS && (e..e + 4).all(|k| q.b[k] == 0 && q.s.as_ref().map_or(true, |s| s[k].is_none()))
                                };
                                if t >= 8 && !(small(u) && small(v)) || (t >= 2 && t < 8 && (u.b[o] ^ v.b[o]).count_ones() > self.conf.merge_pop) {
                                    return None;
                                }
                                diffs.push((i, p * PS + o));
                            }
                        }
                        (Some(s), Some(t)) => {
                            if !Rc::ptr_eq(s, t) && s != t {
                                diffs.push((i, p * PS + o));
                            }
                        }
                        _ => diffs.push((i, p * PS + o)),
                    }
                    if diffs.len() > 4096 {
                        return None;
                    }
                }
            }
        }
        let f = a.top.f.clone();
        let blk = &f.blocks[a.top.blk as usize];
        for p in &blk.phis {
            if !self.mergeable_vals(&a.top.regs[p.dst as usize], &b.top.regs[p.dst as usize], &p.ty) {
                return None;
            }
        }
        // path conditions
        let mut k = base_len.min(a.pc.len()).min(b.pc.len());
        while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] {
            k += 1;
        }
        if k >= a.pc.len() || k >= b.pc.len() {
            return None; // not exclusive: should not happen
        }
        let ca = self.conj(&a.pc[k..]);
        let cb = self.conj(&b.pc[k..]);
        let sel = if a.pc[k] == b.pc[k].not() { a.pc[k].clone() } else { ca.clone() };
        let union = ca.xor(&cb);
        // build
        let mut r = a.clone();
        r.pc.truncate(k);
        r.sigma = base_sigma.clone();
        r.gpc = vec![];
        for g in 0..a.gpc.len().max(b.gpc.len()) {
            r.gpc.push(match (a.gpc.get(g), b.gpc.get(g)) {
                (Some(Some(x)), Some(Some(y))) => Some(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| p | q).collect())),
                _ => None,
            });
        }
        for i in base_len..k {
            let c = r.pc[i].clone();
            self.learn(&mut r, &c);
        }
        match &union {
            Bit::C(true) => {}
            Bit::C(false) => return None,
            u => {
                let u = u.clone();
                self.assert_bit(&mut r, &u);
            }
        }
        for p in &blk.phis {
            let v = self.ite_val(&sel, &a.top.regs[p.dst as usize], &b.top.regs[p.dst as usize], &p.ty);
            r.top.regs[p.dst as usize] = v;
        }
        for (i, o) in diffs {
            let x = a.mem.objs[i].as_ref().unwrap();
            let y = b.mem.objs[i].as_ref().unwrap();
            let xb = sb_bits(&x.byte(o));
            let yb = sb_bits(&y.byte(o));
            let t = x.pages[o / PS].t[o % PS].max(y.pages[o / PS].t[o % PS]);
            let z: Vec<Bit> = (0..8).map(|q| self.cx.ite(&sel, &xb[q], &yb[q])).collect();
            let ob = Rc::make_mut(r.mem.objs[i].as_mut().unwrap());
            ob.set_byte(o, sb_from_bits(&z), t);
        }
        // free list: indices that are free in both tables
        r.mem.objs.resize(n, None);
        r.mem.free = (0..n as u32).rev().filter(|i| r.mem.objs[*i as usize].is_none()).collect();
        r.steps = a.steps.max(b.steps);
        Some(r)
    }
    fn conj(&mut self, cs: &[Bit]) -> Bit {
        let mut r = B1;
        for c in cs {
            r = self.cx.and(&r, c);
        }
        r
    }
    fn mergeable_vals(&self, a: &Val, b: &Val, ty: &Ty) -> bool {
        match (a, b) {
            (Val::C(x), Val::C(y)) => {
                x == y
                    || match ty {
                        Ty::Int(w) => *w <= 8 || (x ^ y).count_ones() <= self.conf.merge_pop,
                        _ => false,
                    }
            }
            (Val::A(x), Val::A(y)) => {
                x.len() == y.len()
                    && (0..x.len()).all(|i| {
                        let t = ty.elem(i);
                        self.mergeable_vals(&x[i], &y[i], &t)
                    })
            }
            (Val::A(_), _) | (_, Val::A(_)) => false,
            _ => matches!(ty, Ty::Int(_)),
        }
    }
    fn ite_val(&mut self, c: &Bit, a: &Val, b: &Val, ty: &Ty) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) if x == y => a.clone(),
            (Val::A(x), Val::A(y)) => Val::A(Rc::new(
                (0..x.len())
                    .map(|i| {
                        let t = ty.elem(i);
                        self.ite_val(c, &x[i], &y[i], &t)
                    })
                    .collect(),
            )),
            _ => {
                let w = ty.width();
                let x = a.bits(w);
                let y = b.bits(w);
                Val::from_bits(bv::ite(&mut self.cx, c, &x, &y))
            }
        }
    }

    // -------------------------------------------------------------- values
    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.top.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    /// concrete value of an integer, splitting the state if it is symbolic
    fn conc(&mut self, st: &State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::A(_) => Err(Stop::Err("aggregate where integer expected".into())),
            Val::S(b) => {
                let b: Vec<Bit> = b.iter().map(|x| self.reduce(st, x)).collect();
                if b.iter().all(|x| x.is_c()) {
                    return Ok(bv::cbits(&b));
                }
                let vals: Vec<Bit> = b.iter().map(|x| Bit::C(st.model.bit(&self.cx, x))).collect();
                self.ct.conc += 1;
                let _ = w;
                let e = bv::eq(&mut self.cx, &b, &vals);
                Err(Stop::Fork(e))
            }
        }
    }
    fn conc_bit(&mut self, st: &State, b: &Bit) -> R<bool> {
        match self.reduce(st, b) {
            Bit::C(v) => Ok(v),
            b => Err(Stop::Fork(b)),
        }
    }

    // -------------------------------------------------------------- memory
    fn gobj(&mut self, id: u32) -> Option<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return o.clone();
        }
        let o = if (id as usize) < self.m.gnames.len() && id != 0 {
            self.m.global_init(id).map(|(b, k)| Rc::new(Obj::from_bytes(&b, k)))
        } else {
            None
        };
        self.gcache.insert(id, o.clone());
        o
    }
    fn obj(&mut self, st: &State, id: u32) -> R<Rc<Obj>> {
        if id >= HEAP0 {
            match st.mem.objs.get((id - HEAP0) as usize) {
                Some(Some(o)) => return Ok(o.clone()),
                _ => return Err(Stop::Err(format!("access to dead object {}", id))),
            }
        }
        if let Some(o) = st.mem.gl.get(&id) {
            return Ok(o.clone());
        }
        match self.gobj(id) {
            Some(o) => Ok(o),
            None => Err(Stop::Err(format!("access to invalid address (object {} {})", id, self.m.gnames.get(id as usize).cloned().unwrap_or_default()))),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if id >= HEAP0 {
            return match st.mem.objs.get_mut((id - HEAP0) as usize) {
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => Err(Stop::Err(format!("store to dead object {}", id))),
            };
        }
        if !st.mem.gl.contains_key(&id) {
            match self.gobj(id) {
                Some(o) => {
                    st.mem.gl.insert(id, o);
                }
                None => return Err(Stop::Err(format!("store to invalid object {}", id))),
            }
        }
        let o = Rc::make_mut(st.mem.gl.get_mut(&id).unwrap());
        if o.konst {
            return Err(Stop::Err("store to constant".into()));
        }
        Ok(o)
    }
    fn check_range(o: &Obj, off: u64, n: u64, what: &str) -> R<()> {
        if off + n > o.size {
            return Err(Stop::Err(format!("{} out of bounds: offset {} + {} > {}", what, off as i64, n, o.size)));
        }
        Ok(())
    }
    fn ld_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Val> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        if id >= HEAP0 {
            // fast path
            if let Some(Some(o)) = st.mem.objs.get((id - HEAP0) as usize) {
                return Self::ld_obj(o, off, n);
            }
        }
        let o = self.obj(st, id)?;
        Self::ld_obj(&o, off, n)
    }
    fn ld_obj(o: &Obj, off: u64, n: usize) -> R<Val> {
        Self::check_range(o, off, n as u64, "load")?;
        let off = off as usize;
        let p = &o.pages[off / PS];
        let i = off % PS;
        if i + n <= PS && n <= 8 && p.s.is_none() {
            let mut r = 0u64;
            for k in 0..n {
                r |= (p.b[i + k] as u64) << (8 * k);
            }
            return Ok(Val::C(r));
        }
        let mut bs = Vec::with_capacity(n);
        let mut allc = true;
        for k in 0..n {
            let b = o.byte(off + k);
            if let SByte::S(_) = b {
                allc = false;
            }
            bs.push(b);
        }
        if allc && n <= 8 {
            let mut r = 0u64;
            for (k, b) in bs.iter().enumerate() {
                if let SByte::C(x) = b {
                    r |= (*x as u64) << (8 * k);
                }
            }
            return Ok(Val::C(r));
        }
        let mut v = Vec::with_capacity(8 * n);
        for b in &bs {
            v.extend(sb_bits(b));
        }
        Ok(Val::S(Rc::new(v)))
    }
    fn st_bytes(&mut self, st: &mut State, addr: u64, v: &Val, n: usize) -> R<()> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let o = self.obj_mut(st, id)?;
        Self::check_range(o, off, n as u64, "store")?;
        let off = off as usize;
        match v {
            Val::C(x) => {
                let i = off % PS;
                if i + n <= PS {
                    let p = Rc::make_mut(&mut o.pages[off / PS]);
                    for k in 0..n {
                        p.b[i + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
                        p.t[i + k] = n.min(16) as u8;
                    }
                    if let Some(s) = &mut p.s {
                        for k in 0..n {
                            s[i + k] = None;
                        }
                    }
                } else {
                    for k in 0..n {
                        o.set_byte(off + k, SByte::C(if k < 8 { (x >> (8 * k)) as u8 } else { 0 }), n as u8);
                    }
                }
            }
            Val::S(b) => {
                for k in 0..n {
                    let lo = 8 * k;
                    let hi = (8 * k + 8).min(b.len());
                    let sb = if lo >= hi { SByte::C(0) } else { sb_from_bits(&b[lo..hi]) };
                    o.set_byte(off + k, sb, n.min(16) as u8);
                }
            }
            Val::A(_) => return Err(Stop::Err("store of aggregate bytes".into())),
        }
        Ok(())
    }
    /// resolve a pointer: concrete address, or (base, variable bit positions, bits)
    fn addr(&mut self, st: &State, v: &Val, lim: usize) -> R<Addr> {
        match v {
            Val::C(x) => Ok(Addr::C(*x)),
            Val::A(_) => Err(Stop::Err("aggregate pointer".into())),
            Val::S(b) => {
                let b: Vec<Bit> = b.iter().map(|x| self.reduce(st, x)).collect();
                if b.iter().all(|x| x.is_c()) {
                    return Ok(Addr::C(bv::cbits(&b)));
                }
                let var: Vec<(u32, Bit)> = b.iter().enumerate().filter(|(_, x)| !x.is_c()).map(|(i, x)| (i as u32, x.clone())).collect();
                if var.len() > lim || var.iter().any(|x| x.0 >= 32) {
                    let v = Val::S(Rc::new(b));
                    self.conc(st, &v, 64)?;
                    unreachable!()
                }
                Ok(Addr::S(bv::cbits(&b), var))
            }
        }
    }
    fn load(&mut self, st: &State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let n = ty.size() as usize;
                let w = ty.width();
                let v = match self.addr(st, p, 16)? {
                    Addr::C(a) => self.ld_bytes(st, a, n)?,
                    Addr::S(base, var) => self.ld_sym(st, base, &var, n)?,
                };
                Ok(match v {
                    Val::C(x) => Val::C(msk(x, w)),
                    Val::S(b) => {
                        if b.len() == w as usize {
                            if w <= 64 && b.iter().all(|x| x.is_c()) {
                                Val::C(bv::cbits(&b))
                            } else {
                                Val::S(b)
                            }
                        } else {
                            Val::from_bits(b[..w as usize].to_vec())
                        }
                    }
                    v => v,
                })
            }
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    return Err(Stop::Err("load of <n x i1>".into()));
                }
                let s = t.size();
                let mut r = vec![];
                for i in 0..*n {
                    let q = self.ptr_add(p, i * s);
                    r.push(self.load(st, &q, t)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Arr(n, t) => {
                let s = t.alloc_size();
                let mut r = vec![];
                for i in 0..*n {
                    let q = self.ptr_add(p, i * s);
                    r.push(self.load(st, &q, t)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Struct(f, _) => {
                let mut r = vec![];
                for (i, t) in f.iter().enumerate() {
                    let q = self.ptr_add(p, ty.field_off(i));
                    r.push(self.load(st, &q, t)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => Err(Stop::Err(format!("load of {:?}", ty))),
        }
    }
    fn ptr_add(&mut self, p: &Val, k: u64) -> Val {
        match p {
            Val::C(x) => Val::C(x.wrapping_add(k)),
            _ => {
                let a = p.bits(64);
                let b = bv::konst(k, 64);
                Val::from_bits(bv::add(&mut self.cx, &a, &b, B0).0)
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, v: &Val, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let n = ty.size() as usize;
                match self.addr(st, p, 10)? {
                    Addr::C(a) => self.st_bytes(st, a, v, n),
                    Addr::S(base, var) => self.st_sym(st, base, &var, v, n),
                }
            }
            Ty::Vec(_, t) => {
                let s = t.size();
                let xs = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Err("vector store".into())),
                };
                for (i, x) in xs.iter().enumerate() {
                    let q = self.ptr_add(p, i as u64 * s);
                    self.store(st, &q, x, t)?;
                }
                Ok(())
            }
            Ty::Arr(_, t) => {
                let s = t.alloc_size();
                let xs = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Err("array store".into())),
                };
                for (i, x) in xs.iter().enumerate() {
                    let q = self.ptr_add(p, i as u64 * s);
                    self.store(st, &q, x, t)?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let xs = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Err("struct store".into())),
                };
                for (i, t) in f.iter().enumerate() {
                    let q = self.ptr_add(p, ty.field_off(i));
                    self.store(st, &q, &xs[i], t)?;
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store of {:?}", ty))),
        }
    }
    fn cand(base: u64, var: &[(u32, Bit)], j: usize) -> u64 {
        let mut a = base;
        for (k, (p, _)) in var.iter().enumerate() {
            if j >> k & 1 == 1 {
                a |= 1 << p;
            }
        }
        a
    }
    fn ld_sym(&mut self, st: &State, base: u64, var: &[(u32, Bit)], n: usize) -> R<Val> {
        let id = (base >> 32) as u32;
        let o = self.obj(st, id)?;
        let k = var.len();
        let cnt = 1usize << k;
        let inb = |a: u64| (a & 0xffff_ffff) + n as u64 <= o.size;
        let mask: u64 = var.iter().map(|v| 1u64 << v.0).sum();
        // contents
        let mut allc = n <= 8;
        let mut tab: Vec<u64> = vec![];
        let key = (id, base & 0xffff_ffff, mask, n as u32);
        let cached = if o.konst { self.anf.get(&key).cloned() } else { None };
        if cached.is_none() && allc {
            tab = vec![0; cnt];
            for j in 0..cnt {
                let a = Self::cand(base, var, j);
                if inb(a) {
                    match Self::ld_obj(&o, a & 0xffff_ffff, n)? {
                        Val::C(x) => tab[j] = x,
                        _ => {
                            allc = false;
                            break;
                        }
                    }
                }
            }
        }
        let g = self.cx.common_group(var.iter().map(|v| &v.1));
        if let (Some(g), true) = (g, allc) {
            if tab.is_empty() {
                tab = vec![0; cnt];
                for j in 0..cnt {
                    let a = Self::cand(base, var, j);
                    if inb(a) {
                        if let Val::C(x) = Self::ld_obj(&o, a & 0xffff_ffff, n)? {
                            tab[j] = x
                        }
                    }
                }
            }
            let tts: Vec<TT> = var.iter().map(|v| self.cx.tt_bit(&v.1, g)).collect();
            let gn = self.cx.groups[g].n;
            let words = tts[0].len();
            let mut out: Vec<TT> = vec![vec![0; words]; n * 8];
            for x in 0..1usize << gn {
                let mut j = 0;
                for (q, t) in tts.iter().enumerate() {
                    j |= ((t[x / 64] >> (x % 64) & 1) as usize) << q;
                }
                let v = tab[j];
                let mut vv = v;
                while vv != 0 {
                    let b = vv.trailing_zeros() as usize;
                    vv &= vv - 1;
                    out[b][x / 64] |= 1 << (x % 64);
                }
            }
            let bits: Vec<Bit> = out.into_iter().map(|t| self.cx.from_tt(t, g)).collect();
            return Ok(Val::from_bits(bits));
        }
        if allc {
            let coef = match cached {
                Some(c) => c,
                None => {
                    for i in 0..k {
                        for j in 0..cnt {
                            if j >> i & 1 == 1 {
                                tab[j] ^= tab[j ^ (1 << i)];
                            }
                        }
                    }
                    let c: Rc<Vec<(u32, u64)>> = Rc::new((0..cnt).filter(|j| tab[*j] != 0).map(|j| (j as u32, tab[j])).collect());
                    if o.konst {
                        self.anf.insert(key, c.clone());
                    }
                    c
                }
            };
            if coef.len() > 6000 {
                // dense table over many bits: split instead
                let b = var[0].1.clone();
                return Err(Stop::Fork(b));
            }
            let mut memo: HashMap<u32, Bit, BIdH> = HashMap::with_hasher(BIdH);
            let mut out = vec![B0; n * 8];
            for &(j, v) in coef.iter() {
                let m = self.mono(j, var, &mut memo);
                for b in BitIter(v) {
                    out[b as usize] = out[b as usize].xor(&m);
                }
            }
            return Ok(Val::from_bits(out));
        }
        if k > 11 {
            let b = var[k - 1].1.clone();
            return Err(Stop::Fork(b));
        }
        let mut leaves: Vec<Vec<Bit>> = vec![];
        for j in 0..cnt {
            let a = Self::cand(base, var, j);
            if inb(a) {
                leaves.push(Self::ld_obj(&o, a & 0xffff_ffff, n)?.bits(8 * n as u32));
            } else {
                leaves.push(bv::konst(0, 8 * n));
            }
        }
        for q in 0..k {
            let mut nl = vec![];
            for p in leaves.chunks(2) {
                nl.push(bv::ite(&mut self.cx, &var[q].1, &p[1], &p[0]));
            }
            leaves = nl;
        }
        Ok(Val::from_bits(leaves.pop().unwrap()))
    }
    fn mono(&mut self, j: u32, var: &[(u32, Bit)], memo: &mut HashMap<u32, Bit, BIdH>) -> Bit {
        if j == 0 {
            return B1;
        }
        if let Some(b) = memo.get(&j) {
            return b.clone();
        }
        let lo = j.trailing_zeros();
        let rest = self.mono(j & (j - 1), var, memo);
        let b = self.cx.and(&rest, &var[lo as usize].1);
        memo.insert(j, b.clone());
        b
    }
    fn st_sym(&mut self, st: &mut State, base: u64, var: &[(u32, Bit)], v: &Val, n: usize) -> R<()> {
        let id = (base >> 32) as u32;
        let size = self.obj(st, id)?.size;
        let nb = v.bits(8 * n as u32);
        let nb: Vec<Bit> = (0..8 * n).map(|i| nb.get(i).cloned().unwrap_or(B0)).collect();
        for j in 0..1usize << var.len() {
            let a = Self::cand(base, var, j);
            let off = a & 0xffff_ffff;
            if off + n as u64 > size {
                continue;
            }
            let mut c = B1;
            for (k, (_, b)) in var.iter().enumerate() {
                let l = if j >> k & 1 == 1 { b.clone() } else { b.not() };
                c = self.cx.and(&c, &l);
            }
            if c == B0 {
                continue;
            }
            let old = self.ld_bytes(st, a, n)?.bits(8 * n as u32);
            let nv = bv::ite(&mut self.cx, &c, &nb, &old);
            let val = Val::from_bits(nv);
            self.st_bytes(st, a, &val, n)?;
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(st, (s >> 32) as u32)?;
        let soff = (s & 0xffff_ffff) as usize;
        Self::check_range(&so, soff as u64, n, "memcpy read")?;
        let doff = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        let dob = self.obj_mut(st, (d >> 32) as u32)?;
        Self::check_range(dob, doff as u64, n as u64, "memcpy write")?;
        let mut i = 0;
        let aligned = soff % PS == doff % PS;
        while i < n {
            if aligned && (soff + i) % PS == 0 && i + PS <= n {
                dob.pages[(doff + i) / PS] = so.pages[(soff + i) / PS].clone();
                i += PS;
                continue;
            }
            let sp = &so.pages[(soff + i) / PS];
            let si = (soff + i) % PS;
            let di = (doff + i) % PS;
            let m = (PS - si).min(PS - di).min(n - i);
            let dp = Rc::make_mut(&mut dob.pages[(doff + i) / PS]);
            dp.b[di..di + m].copy_from_slice(&sp.b[si..si + m]);
            dp.t[di..di + m].copy_from_slice(&sp.t[si..si + m]);
            match (&sp.s, &mut dp.s) {
                (None, None) => {}
                (None, Some(t)) => {
                    for k in 0..m {
                        t[di + k] = None;
                    }
                }
                (Some(s), t) => {
                    if t.is_none() {
                        *t = Some(Box::new(std::array::from_fn(|_| None)));
                    }
                    let t = t.as_mut().unwrap();
                    for k in 0..m {
                        t[di + k] = s[si + k].clone();
                    }
                }
            }
            i += m;
        }
        Ok(())
    }

    // ------------------------------------------------------------- stepping
    /// run until something other than straight-line execution happens, or a block boundary with an
    /// active stop location
    fn step_many(&mut self, st: &mut State, stop: &Option<StopAt>) -> R<()> {
        for _ in 0..100_000 {
            if st.top.idx == 0 {
                if let Some(s) = stop {
                    if st.top.blk == s.blk && st.below.len() == s.depth {
                        return Ok(());
                    }
                }
                if !st.top.phis_done {
                    self.enter_phis(st)?;
                }
            }
            self.step(st)?;
            st.steps += 1;
        }
        Ok(())
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) {
        st.top.regs[d as usize] = v;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let f = st.top.f.clone();
        let blk = &f.blocks[st.top.blk as usize];
        let Some(ins) = blk.ins.get(st.top.idx as usize) else {
            return Err(Stop::Err(format!("fell off block {} of {} ({:?})", blk.name, f.name, blk.ins.last())));
        };
        match ins {
            I::Bin(op, ty, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = self.bin(st, *op, ty, &x, &y)?;
                Self::set(st, *d, v);
            }
            I::Icmp(p, ty, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = self.icmp(*p, ty, &x, &y)?;
                Self::set(st, *d, v);
            }
            I::Load(ty, p, d) => {
                let p = self.get(st, p);
                let v = self.load(st, &p, ty)?;
                Self::set(st, *d, v);
            }
            I::Store(ty, v, p) => {
                let v = self.get(st, v);
                let p = self.get(st, p);
                self.store(st, &p, &v, ty)?;
            }
            I::Gep(base, off, var, d) => {
                let b = self.get(st, base);
                let v = self.gep(st, &b, *off, var)?;
                Self::set(st, *d, v);
            }
            I::Br(t) => {
                Self::jump(st, *t);
                return Ok(());
            }
            I::CondBr(c, a, b) => match self.get(st, c) {
                Val::C(x) => {
                    Self::jump(st, if x & 1 == 1 { *a } else { *b });
                    return Ok(());
                }
                v => {
                    let bit = v.bits(1)[0].clone();
                    match self.reduce(st, &bit) {
                        Bit::C(x) => {
                            Self::jump(st, if x { *a } else { *b });
                            return Ok(());
                        }
                        bit => {
                            let nb = bit.not();
                            return Err(Stop::Branch(vec![(bit, *a), (nb, *b)]));
                        }
                    }
                }
            },
            I::Switch(w, v, def, cs) => {
                let v = self.get(st, v);
                let v = match v {
                    Val::S(b) => {
                        let b: Vec<Bit> = b.iter().map(|x| self.reduce(st, x)).collect();
                        Val::from_bits(b)
                    }
                    v => v,
                };
                match v {
                    Val::C(x) => {
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                        Self::jump(st, t);
                        return Ok(());
                    }
                    Val::S(b) => {
                        let mut arms: Vec<(Bit, u32)> = vec![];
                        for (k, t) in cs {
                            let e = bv::eq(&mut self.cx, &b, &bv::konst(*k, *w as usize));
                            if let Some(x) = arms.iter_mut().find(|x| x.1 == *t) {
                                let o = self.cx.or(&x.0, &e);
                                x.0 = o;
                            } else {
                                arms.push((e, *t));
                            }
                        }
                        arms.push((B1, *def));
                        return Err(Stop::Branch(arms));
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            I::Select(c, ty, a, b, d, isvec) => {
                let c = self.get(st, c);
                let x = self.get(st, a);
                let y = self.get(st, b);
                if *isvec {
                    return Err(Stop::Err("vector select".into()));
                }
                let v = match c {
                    Val::C(k) => {
                        if k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    c => {
                        let bit = c.bits(1)[0].clone();
                        match self.reduce(st, &bit) {
                            Bit::C(true) => x,
                            Bit::C(false) => y,
                            bit => match (&x, &y, ty) {
                                (Val::C(p), Val::C(q), _) if p == q => x,
                                (_, _, Ty::Int(_)) => self.ite_val(&bit, &x, &y, ty),
                                _ => return Err(Stop::Fork(bit)),
                            },
                        }
                    }
                };
                Self::set(st, *d, v);
            }
            I::Cast(c, t1, t2, a, d) => {
                let x = self.get(st, a);
                let v = self.cast(st, *c, t1, t2, &x)?;
                Self::set(st, *d, v);
            }
            I::Alloca(sz, n, d) => {
                let n = self.get(st, n);
                let n = self.conc(st, &n, 64)?;
                let id = st.mem.alloc(sz * n, &self.zero);
                st.top.allocas.push(id);
                Self::set(st, *d, Val::C((id as u64) << 32));
            }
            I::Call(c, args, rt, d, normal) => {
                return self.call(st, c, args, rt, *d, *normal);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.get(st, o));
                for a in std::mem::take(&mut st.top.allocas) {
                    st.mem.free(a);
                }
                match st.below.pop() {
                    None => return Err(Stop::Done),
                    Some(fr) => {
                        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        let old = std::mem::replace(&mut st.top, fr);
                        if let (Some(d), Some(v)) = (old.dst, v) {
                            Self::set(st, d, v);
                        }
                        match old.normal {
                            Some(t) => Self::jump(st, t),
                            None => st.top.idx += 1,
                        }
                        return Ok(());
                    }
                }
            }
            I::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            I::Resume => return Err(Stop::Err("resume".into())),
            I::Landingpad(_) => return Err(Stop::Err("landingpad".into())),
            I::ExtractValue(a, ix, d) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match v {
                        Val::A(x) => x[*i].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                Self::set(st, *d, v);
            }
            I::InsertValue(a, v, ix, d) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let r = insert(&a, &v, ix).ok_or_else(|| Stop::Err("insertvalue".into()))?;
                Self::set(st, *d, r);
            }
            I::ExtractElement(a, i, d) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.conc(st, &i, 64)?;
                match a {
                    Val::A(x) => Self::set(st, *d, x[i as usize].clone()),
                    _ => return Err(Stop::Err("extractelement".into())),
                }
            }
            I::InsertElement(a, v, i, d) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let i = self.get(st, i);
                let i = self.conc(st, &i, 64)? as usize;
                let r = insert(&a, &v, &[i]).ok_or_else(|| Stop::Err("insertelement".into()))?;
                Self::set(st, *d, r);
            }
            I::Shuffle(a, b, m, n, d) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let r = m
                            .iter()
                            .map(|&k| {
                                let k = if k < 0 { 0 } else { k as usize };
                                if k < *n as usize {
                                    x[k].clone()
                                } else {
                                    y[k - *n as usize].clone()
                                }
                            })
                            .collect();
                        Self::set(st, *d, Val::A(Rc::new(r)));
                    }
                    _ => return Err(Stop::Err("shuffle".into())),
                }
            }
            I::Freeze(a, d) => {
                let v = self.get(st, a);
                Self::set(st, *d, v);
            }
            I::AtomicRmw(op, ty, p, v, d) => {
                let p = self.get(st, p);
                let v = self.get(st, v);
                let old = self.load(st, &p, ty)?;
                let nv = match &**op {
                    "xchg" => v,
                    "add" => self.bin(st, BinOp::Add, ty, &old, &v)?,
                    "sub" => self.bin(st, BinOp::Sub, ty, &old, &v)?,
                    "and" => self.bin(st, BinOp::And, ty, &old, &v)?,
                    "or" => self.bin(st, BinOp::Or, ty, &old, &v)?,
                    "xor" => self.bin(st, BinOp::Xor, ty, &old, &v)?,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store(st, &p, &nv, ty)?;
                Self::set(st, *d, old);
            }
            I::CmpXchg(ty, p, c, n, d) => {
                let p = self.get(st, p);
                let c = self.get(st, c);
                let n = self.get(st, n);
                let old = self.load(st, &p, ty)?;
                let e = self.icmp(Pred::Eq, ty, &old, &c)?;
                let e = self.conc(st, &e, 1)?;
                if e == 1 {
                    self.store(st, &p, &n, ty)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(e)])));
            }
            I::Fcmp(code, ty, a, b, d) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let (x, y) = (self.fl(st, &a, ty)?, self.fl(st, &b, ty)?);
                let m = if x.is_nan() || y.is_nan() {
                    8
                } else if x < y {
                    1
                } else if x == y {
                    2
                } else {
                    4
                };
                Self::set(st, *d, Val::C((code & m != 0) as u64));
            }
            I::FNeg(ty, a, d) => {
                let a = self.get(st, a);
                let a = self.conc(st, &a, ty.width())?;
                Self::set(st, *d, Val::C(a ^ 1 << (ty.width() - 1)));
            }
            I::Nop => {}
            I::Phi => {}
            I::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
        }
        st.top.idx += 1;
        Ok(())
    }
    fn fl(&mut self, st: &State, v: &Val, ty: &Ty) -> R<f64> {
        let x = self.conc(st, v, ty.width())?;
        Ok(match ty {
            Ty::F64 => f64::from_bits(x),
            Ty::F32 => f32::from_bits(x as u32) as f64,
            _ => return Err(Stop::Err("vector float".into())),
        })
    }
    fn gep(&mut self, _st: &State, base: &Val, off: i64, var: &[(Op, u32, u64)]) -> R<Val> {
        let mut acc = match base {
            Val::C(x) => Val::C(x.wrapping_add(off as u64)),
            b => {
                if off == 0 {
                    b.clone()
                } else {
                    self.ptr_add(b, off as u64)
                }
            }
        };
        for (o, w, s) in var {
            let i = self.get(_st, o);
            match (&acc, &i) {
                (Val::C(a), Val::C(x)) => acc = Val::C(a.wrapping_add((sx(*x, *w) as u64).wrapping_mul(*s))),
                _ => {
                    let mut ib = i.bits(*w);
                    let sign = ib[ib.len() - 1].clone();
                    ib.resize(64, sign);
                    let sb = if s.is_power_of_two() { bv::shift_c(&ib, s.trailing_zeros() as usize, Sh::L) } else { bv::mul(&mut self.cx, &ib, &bv::konst(*s, 64)) };
                    let a = acc.bits(64);
                    acc = Val::from_bits(bv::add(&mut self.cx, &a, &sb, B0).0);
                }
            }
        }
        Ok(acc)
    }
    fn map2(&mut self, st: &State, x: &Val, y: &Val, f: &mut dyn FnMut(&mut Exec, &State, &Val, &Val) -> R<Val>) -> R<Val> {
        match (x, y) {
            (Val::A(a), Val::A(b)) => {
                let mut r = vec![];
                for i in 0..a.len() {
                    r.push(f(self, st, &a[i], &b[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => Err(Stop::Err("vector op".into())),
        }
    }
    fn bin(&mut self, st: &State, op: BinOp, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        use BinOp::*;
        if let Ty::Vec(_, t) = ty {
            let t = t.clone();
            return self.map2(st, x, y, &mut |e, st, a, b| e.bin(st, op, &t, a, b));
        }
        if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
            let (a, b) = (self.fl(st, x, ty)?, self.fl(st, y, ty)?);
            let is32 = *ty == Ty::F32;
            if is32 {
                let (a, b) = (a as f32, b as f32);
                let r = match op {
                    FAdd => a + b,
                    FSub => a - b,
                    FMul => a * b,
                    FDiv => a / b,
                    _ => a % b,
                };
                return Ok(Val::C(r.to_bits() as u64));
            }
            let r = match op {
                FAdd => a + b,
                FSub => a - b,
                FMul => a * b,
                FDiv => a / b,
                _ => a % b,
            };
            return Ok(Val::C(r.to_bits()));
        }
        let w = ty.width();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match op {
                Add => a.wrapping_add(b),
                Sub => a.wrapping_sub(b),
                Mul => a.wrapping_mul(b),
                And => a & b,
                Or => a | b,
                Xor => a ^ b,
                Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                AShr => (sx(a, w) >> b.min(63)) as u64,
                UDiv | URem => {
                    if b == 0 {
                        return Err(Stop::Err("division by zero".into()));
                    }
                    if op == UDiv {
                        a / b
                    } else {
                        a % b
                    }
                }
                SDiv | SRem => {
                    if b == 0 {
                        return Err(Stop::Err("division by zero".into()));
                    }
                    let (p, q) = (sx(a, w), sx(b, w));
                    (if op == SDiv { p.wrapping_div(q) } else { p.wrapping_rem(q) }) as u64
                }
                _ => unreachable!(),
            };
            return Ok(Val::C(msk(r, w)));
        }
        let a = x.bits(w);
        let b = y.bits(w);
        let cx = &mut self.cx;
        let r = match op {
            Add => bv::add(cx, &a, &b, B0).0,
            Sub => bv::sub(cx, &a, &b).0,
            Mul => bv::mul(cx, &a, &b),
            And => (0..a.len()).map(|i| cx.and(&a[i], &b[i])).collect(),
            Or => (0..a.len()).map(|i| cx.or(&a[i], &b[i])).collect(),
            Xor => (0..a.len()).map(|i| a[i].xor(&b[i])).collect(),
            Shl => bv::shift(cx, &a, &b, Sh::L),
            LShr => bv::shift(cx, &a, &b, Sh::R),
            AShr => bv::shift(cx, &a, &b, Sh::A),
            UDiv => bv::udivrem(cx, &a, &b).0,
            URem => bv::udivrem(cx, &a, &b).1,
            SDiv => bv::sdivrem(cx, &a, &b).0,
            SRem => bv::sdivrem(cx, &a, &b).1,
            _ => unreachable!(),
        };
        Ok(Val::from_bits(r))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(_, t) = ty {
            return match (x, y) {
                (Val::A(a), Val::A(b)) => {
                    let mut r = vec![];
                    for i in 0..a.len() {
                        r.push(self.icmp(p, t, &a[i], &b[i])?);
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                _ => Err(Stop::Err("vector icmp".into())),
            };
        }
        let w = ty.width();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (s, t) = (sx(a, w), sx(b, w));
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
            };
            return Ok(Val::C(r as u64));
        }
        let a = x.bits(w);
        let b = y.bits(w);
        let cx = &mut self.cx;
        let r = match p {
            Pred::Eq => bv::eq(cx, &a, &b),
            Pred::Ne => bv::eq(cx, &a, &b).not(),
            Pred::Ult => bv::ult(cx, &a, &b),
            Pred::Ugt => bv::ult(cx, &b, &a),
            Pred::Uge => bv::ult(cx, &a, &b).not(),
            Pred::Ule => bv::ult(cx, &b, &a).not(),
            Pred::Slt => bv::slt(cx, &a, &b),
            Pred::Sgt => bv::slt(cx, &b, &a),
            Pred::Sge => bv::slt(cx, &a, &b).not(),
            Pred::Sle => bv::slt(cx, &b, &a).not(),
        };
        Ok(Val::from_bits(vec![r]))
    }
    fn cast(&mut self, st: &State, c: Cast, t1: &Ty, t2: &Ty, x: &Val) -> R<Val> {
        match c {
            Cast::Zext | Cast::Sext | Cast::Trunc => {
                if let (Ty::Vec(_, a), Ty::Vec(_, b), Val::A(v)) = (t1, t2, x) {
                    let mut r = vec![];
                    for e in v.iter() {
                        r.push(self.cast(st, c, a, b, e)?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                let (w1, w2) = (t1.width(), t2.width());
                if let Val::C(v) = x {
                    if w2 <= 64 {
                        return Ok(Val::C(match c {
                            Cast::Sext => msk(sx(*v, w1) as u64, w2),
                            _ => msk(*v, w2),
                        }));
                    }
                }
                let mut b = x.bits(w1);
                if w2 < w1 {
                    b.truncate(w2 as usize);
                } else {
                    let fill = if c == Cast::Sext { b[b.len() - 1].clone() } else { B0 };
                    b.resize(w2 as usize, fill);
                }
                Ok(Val::from_bits(b))
            }
            Cast::PtrToInt | Cast::IntToPtr => {
                let (w1, w2) = (t1.width(), t2.width());
                match x {
                    Val::C(v) => Ok(Val::C(msk(*v, w2))),
                    _ => {
                        let mut b = x.bits(w1);
                        b.resize(w2 as usize, B0);
                        Ok(Val::from_bits(b))
                    }
                }
            }
            Cast::Bitcast => match (t1, t2) {
                (Ty::Vec(_, e), Ty::Int(_)) => {
                    let mut b = vec![];
                    if let Val::A(v) = x {
                        for k in v.iter() {
                            b.extend(k.bits(e.width()));
                        }
                    }
                    Ok(Val::from_bits(b))
                }
                (Ty::Int(w), Ty::Vec(_, e)) => {
                    let b = x.bits(*w);
                    Ok(Val::A(Rc::new(b.chunks(e.width() as usize).map(|c| Val::from_bits(c.to_vec())).collect())))
                }
                (Ty::Vec(_, e), Ty::Vec(_, e2)) => {
                    let mut b = vec![];
                    if let Val::A(v) = x {
                        for k in v.iter() {
                            b.extend(k.bits(e.width()));
                        }
                    }
                    Ok(Val::A(Rc::new(b.chunks(e2.width() as usize).map(|c| Val::from_bits(c.to_vec())).collect())))
                }
                _ => Ok(x.clone()),
            },
            Cast::UIToFP | Cast::SIToFP => {
                let v = self.conc(st, x, t1.width())?;
                if t1.width() > 64 {
                    return Err(Stop::Err("wide int to fp".into()));
                }
                let s = sx(v, t1.width());
                Ok(Val::C(match (c, t2) {
                    (Cast::UIToFP, Ty::F64) => (v as f64).to_bits(),
                    (Cast::UIToFP, _) => (v as f32).to_bits() as u64,
                    (_, Ty::F64) => (s as f64).to_bits(),
                    _ => (s as f32).to_bits() as u64,
                }))
            }
            Cast::FPToUI | Cast::FPToSI => {
                let v = self.fl(st, x, t1)?;
                let w = t2.width();
                Ok(Val::C(msk(if c == Cast::FPToUI { v as u64 } else { v as i64 as u64 }, w)))
            }
            Cast::FPExt => {
                let v = self.fl(st, x, t1)?;
                Ok(Val::C(v.to_bits()))
            }
            Cast::FPTrunc => {
                let v = self.fl(st, x, t1)?;
                Ok(Val::C((v as f32).to_bits() as u64))
            }
        }
    }

    // ---------------------------------------------------------------- calls
    fn resolve(&mut self, name: &str) -> Target {
        if let Some(b) = builtin(name) {
            return Target::B(b, name.into());
        }
        match self.m.func(name) {
            Some(f) => {
                self.funcs.insert(name.to_string());
                Target::Fn(f)
            }
            None => Target::B(B::Unsup, name.into()),
        }
    }
    fn call(&mut self, st: &mut State, c: &Callee, args: &[(Ty, Op)], rt: &Ty, d: Option<u32>, normal: Option<u32>) -> R<()> {
        let target = match c {
            Callee::Name(n) => {
                let key = n.as_ptr() as usize;
                match self.tcache.get(&key) {
                    Some(t) => t.clone(),
                    None => {
                        let t = self.resolve(n);
                        self.tcache.insert(key, t.clone());
                        t
                    }
                }
            }
            Callee::Ind(o) => {
                let p = self.get(st, o);
                let p = self.conc(st, &p, 64)?;
                let id = (p >> 32) as usize;
                if id == 0 || id >= self.m.gnames.len() || p & 0xffff_ffff != 0 {
                    return Err(Stop::Err("bad indirect call".into()));
                }
                let n = self.m.gnames[id].clone();
                self.resolve(&n)
            }
        };
        match target {
            Target::Fn(f) => {
                if st.below.len() > 400 {
                    return Err(Stop::Err("call depth".into()));
                }
                let mut regs = vec![Val::C(0); f.nregs as usize];
                for (i, (r, _)) in f.params.iter().enumerate() {
                    if i < args.len() {
                        regs[*r as usize] = self.get(st, &args[i].1);
                    }
                }
                let nf = Frame { f, regs, blk: 0, idx: 0, prev: 0, phis_done: true, allocas: vec![], dst: d, normal };
                let old = std::mem::replace(&mut st.top, nf);
                st.below.push(Rc::new(old));
                Ok(())
            }
            Target::B(b, name) => {
                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.get(st, o));
                }
                let v = self.builtin(st, b, &name, &av, args, rt)?;
                if let (Some(d), Some(v)) = (d, v) {
                    Self::set(st, d, v);
                }
                match normal {
                    Some(t) => Self::jump(st, t),
                    None => st.top.idx += 1,
                }
                Ok(())
            }
        }
    }
    fn fresh_inputs(&mut self, st: &mut State, n: usize) -> Vec<Bit> {
        let mut r = vec![];
        let ins = Rc::make_mut(&mut st.inputs);
        for _ in 0..n {
            if let Some(c) = &self.conf.concrete {
                let k = ins.len();
                ins.push(k as u32);
                r.push(Bit::C(c.get(k).copied().unwrap_or(false)));
                continue;
            }
            let (i, b) = self.cx.new_input();
            ins.push(i);
            r.push(b);
        }
        r
    }
    fn builtin(&mut self, st: &mut State, b: B, name: &str, a: &[Val], args: &[(Ty, Op)], rt: &Ty) -> R<Option<Val>> {
        let w = || args[0].0.width();
        Ok(match b {
            B::Nop => match rt {
                Ty::Void => None,
                t => Some(t.zero()),
            },
            B::Panic => {
                return Err(Stop::Panic(name.to_string()));
            }
            B::Unsup => return Err(Stop::Err(format!("call to unsupported external {}", name))),
            B::Ident => Some(a[0].clone()),
            B::False => Some(Val::C(0)),
            B::Memcpy => {
                let n = self.conc(st, &a[2], 64)?;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64)?;
                    let s = self.conc(st, &a[1], 64)?;
                    self.memcpy(st, d, s, n)?;
                }
                match rt {
                    Ty::Void => None,
                    _ => Some(a[0].clone()),
                }
            }
            B::Memset => {
                let n = self.conc(st, &a[2], 64)?;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64)?;
                    let v = match &a[1] {
                        Val::C(x) => SByte::C(*x as u8),
                        v => sb_from_bits(&v.bits(args[1].0.width())[..8]),
                    };
                    let z = self.zero.clone();
                    let o = self.obj_mut(st, (d >> 32) as u32)?;
                    let off = (d & 0xffff_ffff) as usize;
                    Self::check_range(o, off as u64, n, "memset")?;
                    let mut i = 0;
                    let n = n as usize;
                    while i < n {
                        if let SByte::C(0) = v {
                            if (off + i) % PS == 0 && i + PS <= n {
                                o.pages[(off + i) / PS] = z.clone();
                                i += PS;
                                continue;
                            }
                        }
                        o.set_byte(off + i, v.clone(), 1);
                        i += 1;
                    }
                }
                match rt {
                    Ty::Void => None,
                    _ => Some(a[0].clone()),
                }
            }
            B::Min | B::Max | B::SMin | B::SMax => {
                if let Ty::Vec(..) = args[0].0 {
                    return Err(Stop::Err("vector min/max".into()));
                }
                let p = match b {
                    B::Min => Pred::Ult,
                    B::Max => Pred::Ugt,
                    B::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, &args[0].0, &a[0], &a[1])?;
                Some(match c {
                    Val::C(1) => a[0].clone(),
                    Val::C(_) => a[1].clone(),
                    c => {
                        let bit = c.bits(1)[0].clone();
                        self.ite_val(&bit, &a[0], &a[1], &args[0].0)
                    }
                })
            }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = w();
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let (r, o) = match b {
                        B::UAddO => {
                            let t = x as u128 + y as u128;
                            (t as u64, t >> w != 0)
                        }
                        B::USubO => (x.wrapping_sub(y), x < y),
                        B::UMulO => {
                            let t = x as u128 * y as u128;
                            (t as u64, t >> w != 0)
                        }
                        _ => {
                            let (p, q) = (sx(x, w) as i128, sx(y, w) as i128);
                            let t = match b {
                                B::SAddO => p + q,
                                B::SSubO => p - q,
                                _ => p * q,
                            };
                            (t as u64, t != sx(msk(t as u64, w), w) as i128)
                        }
                    };
                    return Ok(Some(Val::A(Rc::new(vec![Val::C(msk(r, w)), Val::C(o as u64)]))));
                }
                let x = a[0].bits(w);
                let y = a[1].bits(w);
                let n = w as usize;
                let cx = &mut self.cx;
                let (r, o) = match b {
                    B::UAddO => bv::add(cx, &x, &y, B0),
                    B::USubO => {
                        let (r, c) = bv::sub(cx, &x, &y);
                        (r, c.not())
                    }
                    B::UMulO => {
                        let mut xx = x.clone();
                        xx.resize(2 * n, B0);
                        let mut yy = y.clone();
                        yy.resize(2 * n, B0);
                        let r = bv::mul(cx, &xx, &yy);
                        let mut o = B0;
                        for q in n..2 * n {
                            o = cx.or(&o, &r[q]);
                        }
                        (r[..n].to_vec(), o)
                    }
                    B::SAddO => {
                        let r = bv::add(cx, &x, &y, B0).0;
                        let p = x[n - 1].xor(&r[n - 1]);
                        let q = y[n - 1].xor(&r[n - 1]);
                        let o = cx.and(&p, &q);
                        (r, o)
                    }
                    B::SSubO => {
                        let r = bv::sub(cx, &x, &y).0;
                        let p = x[n - 1].xor(&y[n - 1]);
                        let q = x[n - 1].xor(&r[n - 1]);
                        let o = cx.and(&p, &q);
                        (r, o)
                    }
                    _ => {
                        let mut xx = x.clone();
                        xx.resize(2 * n, x[n - 1].clone());
                        let mut yy = y.clone();
                        yy.resize(2 * n, y[n - 1].clone());
                        let r = bv::mul(cx, &xx, &yy);
                        let mut o = B0;
                        for q in n..2 * n {
                            let e = r[q].xor(&r[n - 1]);
                            o = cx.or(&o, &e);
                        }
                        (r[..n].to_vec(), o)
                    }
                };
                Some(Val::A(Rc::new(vec![Val::from_bits(r), Val::from_bits(vec![o])])))
            }
            B::USubSat | B::UAddSat => {
                let w = w();
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    return Ok(Some(Val::C(if b == B::USubSat {
                        x.saturating_sub(*y)
                    } else {
                        let t = *x as u128 + *y as u128;
                        if t >> w != 0 {
                            msk(!0, w)
                        } else {
                            t as u64
                        }
                    })));
                }
                let x = a[0].bits(w);
                let y = a[1].bits(w);
                let cx = &mut self.cx;
                let r = if b == B::USubSat {
                    let (r, c) = bv::sub(cx, &x, &y);
                    bv::ite(cx, &c, &r, &bv::konst(0, w as usize))
                } else {
                    let (r, c) = bv::add(cx, &x, &y, B0);
                    bv::ite(cx, &c, &bv::konst(!0, w as usize), &r)
                };
                Some(Val::from_bits(r))
            }
            B::Ctpop | B::Ctlz | B::Cttz | B::Bswap | B::Bitrev | B::Abs => {
                if let Ty::Vec(..) = args[0].0 {
                    return Err(Stop::Err("vector bit intrinsic".into()));
                }
                let w = w();
                let n = w as usize;
                if let Val::C(x) = &a[0] {
                    let x = *x;
                    let r = match b {
                        B::Ctpop => x.count_ones() as u64,
                        B::Ctlz => {
                            if x == 0 {
                                w as u64
                            } else {
                                (x.leading_zeros() - (64 - w)) as u64
                            }
                        }
                        B::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        B::Bswap => x.swap_bytes() >> (64 - w),
                        B::Bitrev => x.reverse_bits() >> (64 - w),
                        _ => msk(sx(x, w).wrapping_abs() as u64, w),
                    };
                    return Ok(Some(Val::C(r)));
                }
                let x = a[0].bits(w);
                let cx = &mut self.cx;
                let r = match b {
                    B::Bswap => {
                        let mut r = vec![];
                        for c in x.chunks(8).rev() {
                            r.extend_from_slice(c);
                        }
                        r
                    }
                    B::Bitrev => x.iter().rev().cloned().collect(),
                    B::Ctpop => {
                        let mut r = bv::konst(0, n);
                        for q in &x {
                            let z = bv::konst(0, n);
                            r = bv::add(cx, &r, &z, q.clone()).0;
                        }
                        r
                    }
                    B::Ctlz => {
                        let mut r = bv::konst(w as u64, n);
                        for i in 0..n {
                            r = bv::ite(cx, &x[i], &bv::konst((n - 1 - i) as u64, n), &r);
                        }
                        r
                    }
                    B::Cttz => {
                        let mut r = bv::konst(w as u64, n);
                        for i in (0..n).rev() {
                            r = bv::ite(cx, &x[i], &bv::konst(i as u64, n), &r);
                        }
                        r
                    }
                    _ => {
                        let m = bv::neg(cx, &x);
                        let s = x[n - 1].clone();
                        bv::ite(cx, &s, &m, &x)
                    }
                };
                Some(Val::from_bits(r))
            }
            B::Fshl | B::Fshr => {
                let w = w();
                let n = w as usize;
                let k = (self.conc(st, &a[2], w)? % w as u64) as usize;
                let x = a[0].bits(w);
                let y = a[1].bits(w);
                let mut cat = y;
                cat.extend(x); // low = y, high = x
                let r = if b == B::Fshl { cat[n - k..2 * n - k].to_vec() } else { cat[k..n + k].to_vec() };
                Some(Val::from_bits(r))
            }
            B::Ucmp | B::Scmp => {
                let lt = self.icmp(if b == B::Ucmp { Pred::Ult } else { Pred::Slt }, &args[0].0, &a[0], &a[1])?;
                let gt = self.icmp(if b == B::Ucmp { Pred::Ugt } else { Pred::Sgt }, &args[0].0, &a[0], &a[1])?;
                let rw = rt.width() as usize;
                let (l, g) = (lt.bits(1)[0].clone(), gt.bits(1)[0].clone());
                let mut r = vec![self.cx.or(&l, &g)];
                r.resize(rw, l);
                Some(Val::from_bits(r))
            }
            B::Fl1(k) => {
                let v = self.fl(st, &a[0], &args[0].0)?;
                let r = match k {
                    0 => v.floor(),
                    1 => v.ceil(),
                    2 => v.trunc(),
                    3 => v.round(),
                    4 => v.sqrt(),
                    5 => v.abs(),
                    6 => v.round_ties_even(),
                    _ => return Err(Stop::Err("float fn".into())),
                };
                Some(Val::C(if args[0].0 == Ty::F64 { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            B::Lm(k) => {
                let d = args[0].0 == Ty::F64;
                let x = self.fl(st, &a[0], &args[0].0)?;
                let y = if LM[k as usize].2 { self.fl(st, &a[1], &args[1].0)? } else { 0.0 };
                Some(Val::C(if d { LM[k as usize].1(x, y).to_bits() } else { LM[k as usize].3(x as f32, y as f32).to_bits() as u64 }))
            }
            B::Powi => {
                let x = self.fl(st, &a[0], &args[0].0)?;
                let e = self.conc(st, &a[1], 32)? as u32 as i32;
                Some(Val::C(if args[0].0 == Ty::F64 { x.powi(e).to_bits() } else { (x as f32).powi(e).to_bits() as u64 }))
            }
            B::Fma => {
                let (x, y, z) = (self.fl(st, &a[0], &args[0].0)?, self.fl(st, &a[1], &args[0].0)?, self.fl(st, &a[2], &args[0].0)?);
                if args[0].0 != Ty::F64 {
                    let (x, y, z) = (x as f32, y as f32, z as f32);
                    return Ok(Some(Val::C(if name.contains("muladd") { x * y + z } else { x.mul_add(y, z) }.to_bits() as u64)));
                }
                Some(Val::C(if name.contains("muladd") { x * y + z } else { x.mul_add(y, z) }.to_bits()))
            }
            B::Fmin | B::Fmax | B::Copysign => {
                let (x, y) = (self.fl(st, &a[0], &args[0].0)?, self.fl(st, &a[1], &args[0].0)?);
                let r = match b {
                    B::Fmin => x.min(y),
                    B::Fmax => x.max(y),
                    _ => x.copysign(y),
                };
                Some(Val::C(if args[0].0 == Ty::F64 { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            B::FpToUiSat | B::FpToSiSat => {
                let v = self.fl(st, &a[0], &args[0].0)?;
                let w = rt.width();
                let r = if b == B::FpToUiSat {
                    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                    (v as u64).min(m)
                } else {
                    let mx = if w >= 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 };
                    let mn = if w >= 64 { i64::MIN } else { -(1i64 << (w - 1)) };
                    msk((v as i64).clamp(mn, mx) as u64, w)
                };
                Some(Val::C(r))
            }
            B::LoadRel => {
                let p = self.conc(st, &a[0], 64)?;
                let o = self.conc(st, &a[1], 64)?;
                match self.ld_bytes(st, p.wrapping_add(o), 4)? {
                    Val::C(x) if x & 0x8000_0000 != 0 => Some(Val::C(self.m.rel[(x & 0x7fff_ffff) as usize])),
                    _ => return Err(Stop::Err("load.relative".into())),
                }
            }
            B::LifetimeEnd => {
                let p = match &a[a.len() - 1] {
                    Val::C(p) => *p,
                    _ => 0,
                };
                let id = (p >> 32) as u32;
                if id >= HEAP0 && p & 0xffff_ffff == 0 {
                    let z = self.zero.clone();
                    if let Some(Some(o)) = st.mem.objs.get_mut((id - HEAP0) as usize) {
                        let size = o.size;
                        *o = Rc::new(Obj::new(size, &z));
                    }
                }
                None
            }
            B::Malloc => {
                let n = self.conc(st, &a[0], 64)?;
                Some(Val::C((st.mem.alloc(n, &self.zero) as u64) << 32))
            }
            B::Calloc => {
                let n = self.conc(st, &a[0], 64)?;
                let m = self.conc(st, &a[1], 64)?;
                Some(Val::C((st.mem.alloc(n * m, &self.zero) as u64) << 32))
            }
            B::PosixMemalign => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let v = (st.mem.alloc(n, &self.zero) as u64) << 32;
                self.st_bytes(st, p, &Val::C(v), 8)?;
                Some(Val::C(0))
            }
            B::Realloc => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let id = (p >> 32) as u32;
                if p == 0 {
                    Some(Val::C((st.mem.alloc(n, &self.zero) as u64) << 32))
                } else {
                    let old = self.obj(st, id)?.size;
                    let nid = st.mem.alloc(n, &self.zero);
                    let np = (nid as u64) << 32;
                    self.memcpy(st, np, p, old.min(n))?;
                    st.mem.free(id);
                    Some(Val::C(np))
                }
            }
            B::Free => {
                let p = self.conc(st, &a[0], 64)?;
                if p != 0 && !st.mem.free((p >> 32) as u32) {
                    return Err(Stop::Err("bad free".into()));
                }
                None
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let rw = rt.width() as usize;
                let mut res: Vec<Bit> = bv::konst(0, rw);
                let mut e = B1;
                for i in (0..n).rev() {
                    let x = self.ld_bytes(st, p + i, 1)?;
                    let y = self.ld_bytes(st, q + i, 1)?;
                    let (xb, yb) = (x.bits(8), y.bits(8));
                    let q = bv::eq(&mut self.cx, &xb, &yb);
                    if b == B::Bcmp {
                        e = self.cx.and(&e, &q);
                    } else {
                        let lt = bv::ult(&mut self.cx, &xb, &yb);
                        let mut v = vec![B1];
                        v.resize(rw, lt);
                        res = bv::ite(&mut self.cx, &q, &res, &v);
                    }
                }
                if b == B::Bcmp {
                    res = bv::konst(0, rw);
                    res[0] = e.not();
                }
                Some(Val::from_bits(res))
            }
            B::Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let v = self.ld_bytes(st, p + n, 1)?;
                    if self.conc(st, &v, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            B::GetRandom => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                for i in 0..n {
                    self.st_bytes(st, p + i, &Val::C((0x5a + 7 * i) & 0xff), 1)?;
                }
                Some(Val::C(n))
            }
            B::Errno => {
                let id = self.m.id_of("__errno_slot");
                if !st.mem.gl.contains_key(&id) {
                    st.mem.gl.insert(id, Rc::new(Obj::new(8, &self.zero)));
                }
                Some(Val::C((id as u64) << 32))
            }
            B::VecReduce(k) => {
                let (e, v) = match (&args[0].0, &a[0]) {
                    (Ty::Vec(_, e), Val::A(v)) => (e.clone(), v.clone()),
                    _ => return Err(Stop::Err("vector.reduce".into())),
                };
                let mut acc = v[0].clone();
                for x in v[1..].iter() {
                    acc = self.bin(st, [BinOp::Or, BinOp::And, BinOp::Add, BinOp::Xor][k as usize], &e, &acc, x)?;
                }
                Some(acc)
            }
            // ---- harness intrinsics
            B::SymBytes => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let bits = self.fresh_inputs(st, 8 * n as usize);
                for i in 0..n as usize {
                    let v = Val::from_bits(bits[8 * i..8 * i + 8].to_vec());
                    self.st_bytes(st, p + i as u64, &v, 1)?;
                }
                None
            }
            B::SymBits => {
                let n = self.conc(st, &a[0], 64)? as usize;
                let mut bits = self.fresh_inputs(st, n);
                bits.resize(rt.width() as usize, B0);
                Some(Val::from_bits(bits))
            }
            B::SymGroup => {
                let n = self.conc(st, &a[0], 64)? as usize;
                let mut bits = if self.conf.concrete.is_some() || self.conf.plain {
                    self.fresh_inputs(st, n)
                } else {
                    let f = self.cx.inputs.len() as u32;
                    let b = self.cx.new_group(n as u32);
                    Rc::make_mut(&mut st.inputs).extend(f..f + n as u32);
                    b
                };
                bits.resize(rt.width() as usize, B0);
                Some(Val::from_bits(bits))
            }
            B::Assume => {
                let bit = a[0].bits(args[0].0.width())[0].clone();
                self.ct.assumes += 1;
                let bit = self.reduce(st, &bit);
                match self.feasible(st, &bit).map_err(Stop::Err)? {
                    None => return Err(Stop::Dead),
                    Some(m) => {
                        st.model = m;
                        if !bit.is_c() {
                            self.assert_bit(st, &bit);
                        }
                        None
                    }
                }
            }
            B::Check => {
                let id = self.conc(st, &a[1], 64)?;
                *self.check_ids.entry(id).or_insert(0) += 1;
                self.ct.checks += 1;
                let bit0 = a[0].bits(args[0].0.width())[0].clone();
                let bit = self.reduce(st, &bit0);
                match &bit {
                    Bit::C(true) => self.ct.checks_const += 1,
                    _ => {
                        let q0 = self.smt.st.queries;
                        match self.feasible(st, &bit.not()).map_err(Stop::Err)? {
                            None => {
                                if self.smt.st.queries > q0 {
                                    self.ct.checks_smt += 1;
                                } else {
                                    self.ct.checks_tt += 1;
                                }
                                self.learn(st, &bit);
                            }
                            Some(m) => {
                                self.viol = Some(Violation { kind: "check".into(), what: format!("check {}", id), bits: self.model_bits(st, &m), stack: self.stack(st) });
                                return Err(Stop::Dead);
                            }
                        }
                    }
                }
                None
            }
            B::Note => {
                let id = self.conc(st, &a[0], 64)?;
                *self.notes.entry(id).or_insert(0) += 1;
                None
            }
            B::Out => {
                let w = args[0].0.width();
                Rc::make_mut(&mut st.outs).push((a[0].clone(), w));
                None
            }
            B::Pick => Some(Val::C(self.conc(st, &a[0], 64)?)),
            B::Param => {
                let i = self.conc(st, &a[0], 64)? as usize;
                Some(Val::C(self.params.get(i).copied().unwrap_or(0)))
            }
        })
    }
}
enum Addr {
    C(u64),
    S(u64, Vec<(u32, Bit)>),
}
fn or_into(a: &mut Vec<u64>, b: &[u64]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b.iter()) {
        *x |= *y;
    }
}
fn insert(a: &Val, v: &Val, ix: &[usize]) -> Option<Val> {
    if ix.is_empty() {
        return Some(v.clone());
    }
    match a {
        Val::A(x) => {
            let mut x = (**x).clone();
            let n = insert(&x[ix[0]], v, &ix[1..])?;
            x[ix[0]] = n;
            Some(Val::A(Rc::new(x)))
        }
        _ => None,
    }
}
type Lm = (&'static str, fn(f64, f64) -> f64, bool, fn(f32, f32) -> f32);
const LM: [Lm; 22] = [
    ("hypot", f64::hypot, true, f32::hypot),
    ("pow", f64::powf, true, f32::powf),
    ("atan2", f64::atan2, true, f32::atan2),
    ("fmod", |x, y| x % y, true, |x, y| x % y),
    ("fdim", |x, y| if x > y { x - y } else { 0.0 }, true, |x, y| if x > y { x - y } else { 0.0 }),
    ("exp", |x, _| x.exp(), false, |x, _| x.exp()),
    ("exp2", |x, _| x.exp2(), false, |x, _| x.exp2()),
    ("expm1", |x, _| x.exp_m1(), false, |x, _| x.exp_m1()),
    ("log", |x, _| x.ln(), false, |x, _| x.ln()),
    ("log2", |x, _| x.log2(), false, |x, _| x.log2()),
    ("log10", |x, _| x.log10(), false, |x, _| x.log10()),
    ("log1p", |x, _| x.ln_1p(), false, |x, _| x.ln_1p()),
    ("sin", |x, _| x.sin(), false, |x, _| x.sin()),
    ("cos", |x, _| x.cos(), false, |x, _| x.cos()),
    ("tan", |x, _| x.tan(), false, |x, _| x.tan()),
    ("asin", |x, _| x.asin(), false, |x, _| x.asin()),
    ("acos", |x, _| x.acos(), false, |x, _| x.acos()),
    ("atan", |x, _| x.atan(), false, |x, _| x.atan()),
    ("sinh", |x, _| x.sinh(), false, |x, _| x.sinh()),
    ("cosh", |x, _| x.cosh(), false, |x, _| x.cosh()),
    ("tanh", |x, _| x.tanh(), false, |x, _| x.tanh()),
    ("cbrt", |x, _| x.cbrt(), false, |x, _| x.cbrt()),
];
fn libm(n: &str) -> Option<B> {
    let b = n.strip_suffix('f').filter(|b| LM.iter().any(|l| l.0 == *b)).unwrap_or(n);
    LM.iter().position(|l| l.0 == b).map(|i| B::Lm(i as u8))
}
fn builtin(n: &str) -> Option<B> {
    if let Some(b) = libm(n) {
        return Some(b);
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        if r.starts_with("powi.") {
            return Some(B::Powi);
        }
        if let Some(b) = r.split_once('.').and_then(|(f, t)| if t == "f64" || t == "f32" { libm(f) } else { None }) {
            return Some(b);
        }
    }
    Some(match n {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "posix_memalign" => B::PosixMemalign,
        "free" => B::Free,
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "getrandom" => B::GetRandom,
        "__errno_location" => B::Errno,
        "abort" | "llvm.trap" | "rust_begin_unwind" => B::Panic,
        "floor" | "floorf" => B::Fl1(0),
        "ceil" | "ceilf" => B::Fl1(1),
        "trunc" | "truncf" => B::Fl1(2),
        "round" | "roundf" => B::Fl1(3),
        "sqrt" | "sqrtf" => B::Fl1(4),
        "fabs" | "fabsf" => B::Fl1(5),
        "rint" | "rintf" | "nearbyint" | "nearbyintf" | "roundeven" | "roundevenf" => B::Fl1(6),
        "fmin" | "fminf" => B::Fmin,
        "fmax" | "fmaxf" => B::Fmax,
        "copysign" | "copysignf" => B::Copysign,
        "fma" | "fmaf" => B::Fma,
        "__sym_bytes" => B::SymBytes,
        "__sym_bits" => B::SymBits,
        "__sym_group" => B::SymGroup,
        "__sym_assume" => B::Assume,
        "__sym_check" => B::Check,
        "__sym_note" => B::Note,
        "__sym_out" => B::Out,
        "__sym_param" => B::Param,
        "__sym_pick" => B::Pick,
        _ => {
            if let Some(r) = n.strip_prefix("llvm.") {
                let st = |p: &str| r.starts_with(p);
                if st("memcpy.") || st("memmove.") {
                    B::Memcpy
                } else if st("memset.") {
                    B::Memset
                } else if st("umin.") {
                    B::Min
                } else if st("umax.") {
                    B::Max
                } else if st("smin.") {
                    B::SMin
                } else if st("smax.") {
                    B::SMax
                } else if st("uadd.with") {
                    B::UAddO
                } else if st("usub.with") {
                    B::USubO
                } else if st("umul.with") {
                    B::UMulO
                } else if st("sadd.with") {
                    B::SAddO
                } else if st("ssub.with") {
                    B::SSubO
                } else if st("smul.with") {
                    B::SMulO
                } else if st("usub.sat") {
                    B::USubSat
                } else if st("uadd.sat") {
                    B::UAddSat
                } else if st("ctpop") {
                    B::Ctpop
                } else if st("ctlz") {
                    B::Ctlz
                } else if st("cttz") {
                    B::Cttz
                } else if st("bswap") {
                    B::Bswap
                } else if st("bitreverse") {
                    B::Bitrev
                } else if st("fshl") {
                    B::Fshl
                } else if st("fshr") {
                    B::Fshr
                } else if st("ucmp") {
                    B::Ucmp
                } else if st("scmp") {
                    B::Scmp
                } else if st("abs.") {
                    B::Abs
                } else if st("floor.") {
                    B::Fl1(0)
                } else if st("ceil.") {
                    B::Fl1(1)
                } else if st("trunc.") {
                    B::Fl1(2)
                } else if st("round.") {
                    B::Fl1(3)
                } else if st("roundeven.") || st("rint.") || st("nearbyint.") {
                    B::Fl1(6)
                } else if st("sqrt.") {
                    B::Fl1(4)
                } else if st("fabs.") {
                    B::Fl1(5)
                } else if st("fma.") || st("fmuladd.") {
                    B::Fma
                } else if st("minnum.") || st("minimumnum.") {
                    B::Fmin
                } else if st("maxnum.") || st("maximumnum.") {
                    B::Fmax
                } else if st("copysign.") {
                    B::Copysign
                } else if st("fptoui.sat") {
                    B::FpToUiSat
                } else if st("fptosi.sat") {
                    B::FpToSiSat
                } else if st("threadlocal.address") || st("expect.") || st("launder") || st("strip.invariant") || st("ssa.copy") {
                    B::Ident
                } else if st("load.relative") {
                    B::LoadRel
                } else if st("lifetime.end") {
                    B::LifetimeEnd
                } else if st("is.constant") {
                    B::False
                } else if st("vector.reduce.or") {
                    B::VecReduce(0)
                } else if st("vector.reduce.and") {
                    B::VecReduce(1)
                } else if st("vector.reduce.add") {
                    B::VecReduce(2)
                } else if st("vector.reduce.xor") {
                    B::VecReduce(3)
                } else if st("lifetime.start") || st("assume") || st("experimental.noalias") || st("dbg.") || st("invariant") || st("x86.sse2.pause") || st("stack") || st("donothing") || st("prefetch") || st("var.annotation") {
                    B::Nop
                } else {
                    B::Unsup
                }
            } else if (n.contains("9panicking") && !n.contains("11panic_count")) || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("rust_alloc_error_handler") {
                B::Panic
            } else {
                return None;
            }
        }
    })
}
#[allow(dead_code)]
fn _u(v: &Val) -> bool {
    is_c(v)
}
