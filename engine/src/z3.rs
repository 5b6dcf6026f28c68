//! Decision procedure: z3 through its C API.
use crate::bits::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(4);
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub max_cone: u64,
    pub vars: u64,
}
pub enum Res {
    Sat(Vec<(u32, bool)>), // values of inputs in the cone
    Unsat,
    Unknown,
}
pub struct Smt {
    c: P,
    s: P,
    atom: Vec<P>,
    defd: Vec<bool>,
    forms: HashMap<Rc<Form>, P, BIdH>,
    lits: HashMap<Rc<Form>, P, BIdH>,
    ndefs: usize,
    bsort: P,
    timeout_ms: u32,
    gen: u32,
    mark: Vec<u32>,
    pub st: Stats,
    pub dump: Option<String>,
}
impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        let mut s = Smt {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            atom: vec![],
            defd: vec![],
            forms: HashMap::with_hasher(BIdH),
            lits: HashMap::with_hasher(BIdH),
            ndefs: 0,
            bsort: std::ptr::null_mut(),
            timeout_ms,
            gen: 0,
            mark: vec![],
            st: Stats::default(),
            dump: None,
        };
        s.fresh();
        s
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_del_context(self.c);
            }
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            let l = Z3_mk_string_symbol(self.c, b"QF_FD\0".as_ptr() as *const c_char);
            self.s = Z3_mk_solver_for_logic(self.c, l);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"timeout\0".as_ptr() as *const c_char), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
            self.bsort = Z3_mk_bool_sort(self.c);
            let _ = Z3_get_error_code(self.c);
        }
        self.atom.clear();
        self.defd.clear();
        self.forms.clear();
        self.lits.clear();
        self.ndefs = 0;
    }
    fn atom_ast(&mut self, a: u32) -> P {
        let i = a as usize;
        if self.atom.len() <= i {
            self.atom.resize(i + 1, std::ptr::null_mut());
            self.defd.resize(i + 1, false);
        }
        if self.atom[i].is_null() {
            unsafe {
                self.atom[i] = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, a as c_int), self.bsort);
            }
            self.st.vars += 1;
        }
        self.atom[i]
    }
    fn form_ast(&mut self, f: &Rc<Form>) -> P {
        if let Some(p) = self.forms.get(f) {
            return *p;
        }
        let atoms: Vec<u32> = f.atoms().collect();
        let mut v: Vec<P> = atoms.iter().map(|a| self.atom_ast(*a)).collect();
        while v.len() > 1 {
            let mut w = Vec::with_capacity(v.len() / 2 + 1);
            for p in v.chunks(2) {
                if p.len() == 2 {
                    w.push(unsafe { Z3_mk_xor(self.c, p[0], p[1]) });
                } else {
                    w.push(p[0]);
                }
            }
            v = w;
        }
        self.forms.insert(f.clone(), v[0]);
        v[0]
    }
    /// is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, cx: &Ctx, cs: &[Bit]) -> Res {
        let t0 = Instant::now();
        // cone
        self.gen += 1;
        let gen = self.gen;
        if self.mark.len() < cx.atoms.len() {
            self.mark.resize(cx.atoms.len(), 0);
        }
        let mut stack: Vec<u32> = vec![];
        for b in cs {
            if let Bit::F(f, _) = b {
                stack.extend(f.atoms());
            }
        }
        let mut cone: Vec<u32> = vec![];
        let mut inputs: Vec<(u32, u32)> = vec![];
        while let Some(a) = stack.pop() {
            if self.mark[a as usize] == gen {
                continue;
            }
            self.mark[a as usize] = gen;
            cone.push(a);
            match &cx.atoms[a as usize] {
                Atom::Input(i) => inputs.push((*i, a)),
                Atom::And(f, g) => {
                    for x in f.atoms().chain(g.atoms()) {
                        if self.mark[x as usize] != gen {
                            stack.push(x);
                        }
                    }
                }
                Atom::Mono(g, m) => {
                    let gr = cx.groups[*g as usize];
                    for i in BitIter(*m as u64) {
                        stack.push(gr.base + (1 << i));
                    }
                }
                Atom::Pad => panic!(),
            }
        }
        self.st.max_cone = self.st.max_cone.max(cone.len() as u64);
        if self.ndefs > 30000 && self.ndefs > 3 * cone.len() {
            self.fresh();
        }
        for &a in &cone {
            let x = self.atom_ast(a);
            if self.defd[a as usize] {
                continue;
            }
            self.defd[a as usize] = true;
            match &cx.atoms[a as usize] {
                Atom::Input(_) => {}
                Atom::And(f, g) => {
                    let (f, g) = (f.clone(), g.clone());
                    let args = [self.form_ast(&f), self.form_ast(&g)];
                    unsafe {
                        let r = Z3_mk_and(self.c, 2, args.as_ptr());
                        Z3_solver_assert(self.c, self.s, Z3_mk_iff(self.c, x, r));
                    }
                    self.ndefs += 1;
                }
                Atom::Mono(g, m) => {
                    let gr = cx.groups[*g as usize];
                    let args: Vec<P> = BitIter(*m as u64).map(|i| self.atom_ast(gr.base + (1 << i))).collect();
                    unsafe {
                        let r = Z3_mk_and(self.c, args.len() as c_uint, args.as_ptr());
                        Z3_solver_assert(self.c, self.s, Z3_mk_iff(self.c, x, r));
                    }
                    self.ndefs += 1;
                }
                Atom::Pad => {}
            }
        }
        let mut asm: Vec<P> = vec![];
        for b in cs {
            unsafe {
                asm.push(match b {
                    Bit::C(true) => continue,
                    Bit::C(false) => Z3_mk_false(self.c),
                    Bit::F(f, n) => {
                        let p = self.form_ast(f);
                        // assumptions must be literals
                        let lit = if f.single().is_some() {
                            p
                        } else {
                            self.lit_for(f, p)
                        };
                        if *n {
                            Z3_mk_not(self.c, lit)
                        } else {
                            lit
                        }
                    }
                });
            }
        }
        if asm.is_empty() {
            asm.push(unsafe { Z3_mk_true(self.c) });
        }
        let r = unsafe { Z3_solver_check_assumptions(self.c, self.s, asm.len() as c_uint, asm.as_ptr()) };
        let res = match r {
            1 => unsafe {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for (i, a) in inputs {
                    let mut v: P = std::ptr::null_mut();
                    let t = self.atom_ast(a);
                    if !Z3_model_eval(self.c, m, t, true, &mut v) {
                        eprintln!("z3 model eval failed");
                        std::process::exit(4);
                    }
                    out.push((i, Z3_get_bool_value(self.c, v) == 1));
                }
                Z3_model_dec_ref(self.c, m);
                self.st.sat += 1;
                Res::Sat(out)
            },
            -1 => {
                self.st.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.st.unknown += 1;
                Res::Unknown
            }
        };
        self.st.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        res
    }
    fn lit_for(&mut self, f: &Rc<Form>, p: P) -> P {
        if let Some(l) = self.lits.get(f) {
            return *l;
        }
        unsafe {
            let name = format!("f{:x}_{}\0", f.h, self.lits.len());
            let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, name.as_ptr() as *const c_char), self.bsort);
            Z3_solver_assert(self.c, self.s, Z3_mk_iff(self.c, l, p));
            self.lits.insert(f.clone(), l);
            l
        }
    }
}
