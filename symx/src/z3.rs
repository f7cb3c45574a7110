//! Solver front end: Z3 through its C API.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut u8;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, v: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    fps: P, // general solver, used for queries with floating point
    ast: Vec<P>,
    proxy: FxMap<E, P>,
    proxy_fp: FxMap<E, P>,
    has_fp: FxMap<E, bool>,
    nproxy: usize,
    next_model: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub pool_hits: u64,
    pub dd_sat: u64,
    pub dd_unsat: u64,
    pub max_us: u64,
    pool: Vec<Rc<Model>>,
    timeout_ms: u32,
    reset_at: usize,
    uf: FxMap<u64, P>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                fps: std::ptr::null_mut(),
                ast: vec![],
                proxy: Default::default(),
                proxy_fp: Default::default(),
                has_fp: Default::default(),
                nproxy: 0,
                next_model: 1,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time_us: 0,
                pool_hits: 0,
                dd_sat: 0,
                dd_unsat: 0,
                max_us: 0,
                pool: vec![],
                timeout_ms,
                reset_at: std::env::var("SYMX_RESET").ok().and_then(|s| s.parse().ok()).unwrap_or(50),
                uf: Default::default(),
            };
            s.reset();
            s
        }
    }
    fn sym(&self, s: &str) -> P {
        let k = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, k.as_ptr()) }
    }
    fn params(&self) -> P {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.sym("timeout"), self.timeout_ms);
            p
        }
    }
    fn reset(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let lg = self.sym(&std::env::var("SYMX_LOGIC").unwrap_or("QF_FD".into()));
            self.s = Z3_mk_solver_for_logic(self.c, lg);
            Z3_solver_inc_ref(self.c, self.s);
            Z3_solver_set_params(self.c, self.s, self.params());
        }
        self.proxy.clear();
        self.nproxy = 0;
    }
    fn fp_solver(&mut self) -> P {
        unsafe {
            if self.fps.is_null() {
                self.fps = Z3_mk_solver(self.c);
                Z3_solver_inc_ref(self.c, self.fps);
                Z3_solver_set_params(self.c, self.fps, self.params());
            }
            self.fps
        }
    }
    fn fp(&mut self, e: E) -> bool {
        if let Some(b) = self.has_fp.get(&e) {
            return *b;
        }
        let n = cx().n[e as usize];
        let r = match n.op {
            O::F1 | O::F2 | O::FCmp => true,
            O::Const | O::Var => false,
            O::Ite => self.fp(n.a) || self.fp(n.b) || self.fp(n.c),
            O::Not | O::Zext | O::Sext | O::Extract => self.fp(n.a),
            _ => self.fp(n.a) || self.fp(n.b),
        };
        self.has_fp.insert(e, r);
        r
    }
    fn tr(&mut self, e: E) -> P {
        let i = e as usize;
        if self.ast.len() <= i {
            self.ast.resize(cx().n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let n = cx().n[i];
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                O::Const =>
                    if w == 1 {
                        if n.k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, w))
                    },
                O::Var => {
                    let s = self.sym(&format!("v{}", n.k));
                    let ty = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                    Z3_mk_const(c, s, ty)
                },
                O::Not => {
                    let a = self.tr(n.a);
                    Z3_mk_not(c, a)
                },
                O::Ite => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    let d = self.tr(n.c);
                    Z3_mk_ite(c, a, b, d)
                },
                O::Zext => {
                    let iw = cx().w(n.a);
                    let a = self.tr(n.a);
                    Z3_mk_zero_ext(c, w - iw, a)
                },
                O::Sext => {
                    let iw = cx().w(n.a);
                    let a = self.tr(n.a);
                    Z3_mk_sign_ext(c, w - iw, a)
                },
                O::Extract => {
                    let a = self.tr(n.a);
                    let x = Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a);
                    if w == 1 {
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        x
                    }
                },
                O::Concat => {
                    let a = self.trbv(n.a);
                    let b = self.trbv(n.b);
                    Z3_mk_concat(c, a, b)
                },
                O::F1 | O::F2 | O::FCmp => self.trf(&n),
                op => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    let aw = cx().w(n.a);
                    if aw == 1 {
                        let v = [a, b];
                        match op {
                            O::And => Z3_mk_and(c, 2, v.as_ptr()),
                            O::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            O::Xor => Z3_mk_xor(c, a, b),
                            O::Eq => Z3_mk_iff(c, a, b),
                            _ => panic!("bool op {op:?}"),
                        }
                    } else {
                        match op {
                            O::And => Z3_mk_bvand(c, a, b),
                            O::Or => Z3_mk_bvor(c, a, b),
                            O::Xor => Z3_mk_bvxor(c, a, b),
                            O::Add => Z3_mk_bvadd(c, a, b),
                            O::Sub => Z3_mk_bvsub(c, a, b),
                            O::Mul => Z3_mk_bvmul(c, a, b),
                            O::UDiv => Z3_mk_bvudiv(c, a, b),
                            O::URem => Z3_mk_bvurem(c, a, b),
                            O::SDiv => Z3_mk_bvsdiv(c, a, b),
                            O::SRem => Z3_mk_bvsrem(c, a, b),
                            O::Shl => Z3_mk_bvshl(c, a, b),
                            O::LShr => Z3_mk_bvlshr(c, a, b),
                            O::AShr => Z3_mk_bvashr(c, a, b),
                            O::Eq => Z3_mk_eq(c, a, b),
                            O::Ult => Z3_mk_bvult(c, a, b),
                            O::Ule => Z3_mk_bvule(c, a, b),
                            O::Slt => Z3_mk_bvslt(c, a, b),
                            O::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                },
            }
        };
        self.ast[i] = r;
        r
    }
    fn trbv(&mut self, e: E) -> P {
        let a = self.tr(e);
        unsafe {
            if cx().w(e) == 1 {
                let s = Z3_mk_bv_sort(self.c, 1);
                Z3_mk_ite(
                    self.c,
                    a,
                    Z3_mk_unsigned_int64(self.c, 1, s),
                    Z3_mk_unsigned_int64(self.c, 0, s),
                )
            } else {
                a
            }
        }
    }
    fn trf(&mut self, n: &Node) -> P {
        let c = self.c;
        unsafe {
            let s = Z3_mk_fpa_sort_64(c);
            let rne = Z3_mk_fpa_rne(c);
            let abv = self.tr(n.a);
            if n.op == O::F1 {
                let bits = |x: P| Z3_mk_fpa_to_ieee_bv(c, x);
                return match n.k {
                    fop::UITOFP => bits(Z3_mk_fpa_to_fp_unsigned(c, rne, abv, s)),
                    fop::SITOFP => bits(Z3_mk_fpa_to_fp_signed(c, rne, abv, s)),
                    fop::NEG => bits(Z3_mk_fpa_neg(c, Z3_mk_fpa_to_fp_bv(c, abv, s))),
                    fop::ABS => bits(Z3_mk_fpa_abs(c, Z3_mk_fpa_to_fp_bv(c, abv, s))),
                    fop::FPTOUI_SAT =>
                        Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), Z3_mk_fpa_to_fp_bv(c, abv, s), 64),
                    fop::FPTOSI_SAT =>
                        Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), Z3_mk_fpa_to_fp_bv(c, abv, s), 64),
                    k => {
                        let f = self.ufd(k, 1);
                        Z3_mk_app(c, f, 1, [abv].as_ptr())
                    },
                };
            }
            let bbv = self.tr(n.b);
            if n.k == fop::POWI || n.k == fop::POW || n.k == fop::REM {
                let f = self.ufd(n.k, 2);
                return Z3_mk_app(c, f, 2, [abv, bbv].as_ptr());
            }
            let a = Z3_mk_fpa_to_fp_bv(c, abv, s);
            let b = Z3_mk_fpa_to_fp_bv(c, bbv, s);
            let bits = |x: P| Z3_mk_fpa_to_ieee_bv(c, x);
            match n.k {
                fop::ADD => bits(Z3_mk_fpa_add(c, rne, a, b)),
                fop::SUB => bits(Z3_mk_fpa_sub(c, rne, a, b)),
                fop::MUL => bits(Z3_mk_fpa_mul(c, rne, a, b)),
                fop::DIV => bits(Z3_mk_fpa_div(c, rne, a, b)),
                fop::MAXNUM => bits(Z3_mk_fpa_max(c, a, b)),
                fop::MINNUM => bits(Z3_mk_fpa_min(c, a, b)),
                fop::OEQ => Z3_mk_fpa_eq(c, a, b),
                fop::OLT => Z3_mk_fpa_lt(c, a, b),
                fop::OLE => Z3_mk_fpa_leq(c, a, b),
                fop::UNO => {
                    let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                },
                k => panic!("fp op {k}"),
            }
        }
    }
    fn ufd(&mut self, k: u64, n: u32) -> P {
        if let Some(f) = self.uf.get(&k) {
            return *f;
        }
        let s = self.sym(&format!("uf{k}"));
        let f = unsafe {
            let bv = Z3_mk_bv_sort(self.c, 64);
            Z3_mk_func_decl(self.c, s, n, [bv, bv].as_ptr(), bv)
        };
        self.uf.insert(k, f);
        f
    }
    fn lit(&mut self, e: E, fp: bool) -> P {
        let m = if fp { &self.proxy_fp } else { &self.proxy };
        if let Some(p) = m.get(&e) {
            return *p;
        }
        let n = cx().n[e as usize];
        let direct = n.op == O::Var
            || (n.op == O::Not && cx().n[n.a as usize].op == O::Var);
        let a = self.tr(e);
        let p = if direct {
            a
        } else {
            unsafe {
                let s = self.sym(&format!("p{e}"));
                let p = Z3_mk_const(self.c, s, Z3_mk_bool_sort(self.c));
                let sv = if fp { self.fp_solver() } else { self.s };
                Z3_solver_assert(self.c, sv, Z3_mk_implies(self.c, p, a));
                p
            }
        };
        self.nproxy += 1;
        if fp { &mut self.proxy_fp } else { &mut self.proxy }.insert(e, p);
        p
    }
    pub fn new_model(&mut self, v: Vec<u64>) -> Rc<Model> {
        self.next_model += 1;
        Rc::new(Model { id: self.next_model, v })
    }
    /// satisfiable: pc and all of qs
    ///
    /// Branch feasibility is read off the decision diagrams where all that matters is one;
    /// `force` (assertions) always asks Z3.
    pub fn check(&mut self, pc: &[E], qs: &[E]) -> (Res, Option<Rc<Model>>) {
        self.check_with(pc, qs, false)
    }
    pub fn check_with(&mut self, pc: &[E], qs: &[E], force: bool) -> (Res, Option<Rc<Model>>) {
        let c = cx();
        for q in qs {
            if c.is_const(*q) == Some(0) {
                return (Res::Unsat, None);
            }
        }
        if !force && c.dd_on {
            let mut all = c.t;
            let mut rest = false;
            for e in pc.iter().chain(qs.iter()) {
                if c.n[*e as usize].dd {
                    all = c.and(all, *e);
                    if !c.n[all as usize].dd {
                        rest = true;
                        break;
                    }
                    if all == c.f {
                        self.dd_unsat += 1;
                        return (Res::Unsat, None);
                    }
                } else {
                    rest = true;
                }
            }
            if !rest {
                self.dd_sat += 1;
                let like = self.pool.last().map(|m| m.v.clone()).unwrap_or_default();
                let v = c.dd_model(all, &like);
                return (Res::Sat, Some(self.new_model(v)));
            }
        }
        // the path condition as one diagram
        let mut one: Vec<E> = vec![];
        if c.dd_on {
            let mut all = c.t;
            for e in pc {
                let n = c.and(all, *e);
                if c.n[n as usize].dd {
                    all = n;
                } else {
                    one.push(*e);
                }
            }
            one.push(all);
        } else {
            one.extend_from_slice(pc);
        }
        let pc = &one[..];
        // model pool
        for i in (0..self.pool.len()).rev() {
            let m = self.pool[i].clone();
            if qs.iter().all(|q| c.eval(*q, &m) != 0) && pc.iter().rev().all(|q| c.eval(*q, &m) != 0) {
                self.pool_hits += 1;
                if i + 1 < self.pool.len() {
                    let m = self.pool.remove(i);
                    self.pool.push(m);
                }
                return (Res::Sat, Some(m));
            }
        }
        if self.nproxy > self.reset_at {
            self.reset();
        }
        let fp = pc.iter().chain(qs.iter()).any(|e| self.fp(*e));
        let mut a: Vec<P> = Vec::with_capacity(pc.len() + qs.len());
        for e in pc.iter().chain(qs.iter()) {
            if c.is_const(*e) == Some(1) {
                continue;
            }
            let l = self.lit(*e, fp);
            a.push(l);
        }
        let t0 = Instant::now();
        let sv = if fp { self.fp_solver() } else { self.s };
        let mut out = (Res::Unknown, None);
        for _round in 0..64 {
            let r = unsafe { Z3_solver_check_assumptions(self.c, sv, a.len() as u32, a.as_ptr()) };
            match r {
                1 => {
                    let m = self.model(sv);
                    let ok = pc.iter().chain(qs.iter()).all(|e| c.eval(*e, &m) != 0);
                    if ok {
                        self.pool.push(m.clone());
                        if self.pool.len() > 24 {
                            self.pool.remove(0);
                        }
                        out = (Res::Sat, Some(m));
                        break;
                    }
                    if !fp {
                        eprintln!("INTERNAL: z3 model does not satisfy the query under the evaluator");
                        std::process::exit(3);
                    }
                    // refine uninterpreted functions at the model's points
                    if !self.refine(pc, qs, &m) {
                        break;
                    }
                },
                -1 => {
                    out = (Res::Unsat, None);
                    break;
                },
                _ => break,
            }
        }
        let us = t0.elapsed().as_micros() as u64;
        self.time_us += us;
        if us > 20000 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow: {us} us {:?} fp {fp}", out.0);
            for e in pc.iter().chain(qs.iter()) {
                eprintln!("   {}", c.show(*e, 6));
            }
        }
        self.max_us = self.max_us.max(us);
        self.queries += 1;
        match out.0 {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        out
    }
    fn refine(&mut self, pc: &[E], qs: &[E], m: &Rc<Model>) -> bool {
        let c = cx();
        let mut seen: FxSet<E> = Default::default();
        let mut st: Vec<E> = pc.iter().chain(qs.iter()).copied().collect();
        let mut any = false;
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = c.n[e as usize];
            match n.op {
                O::Const | O::Var => {},
                O::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c)
                },
                O::Not | O::Zext | O::Sext | O::Extract => st.push(n.a),
                O::F1 => {
                    st.push(n.a);
                    if matches!(n.k, fop::EXP | fop::FLOOR | fop::SQRT | fop::CEIL | fop::ROUND | fop::TRUNC) {
                        let v = c.eval(n.a, m);
                        let k = c.k(v, 64);
                        let pre = c.eq(n.a, k);
                        let kv = c.k(cf1(n.k, v), 64);
                        let (p, a, b) = (self.tr(pre), self.tr(e), self.tr(kv));
                        let sv = self.fp_solver();
                        unsafe {
                            Z3_solver_assert(
                                self.c,
                                sv,
                                Z3_mk_implies(self.c, p, Z3_mk_eq(self.c, a, b)),
                            )
                        }
                        any = true;
                    }
                },
                O::F2 => {
                    st.push(n.a);
                    st.push(n.b);
                    if matches!(n.k, fop::POWI | fop::POW | fop::REM) {
                        let (v, u) = (c.eval(n.a, m), c.eval(n.b, m));
                        let k = c.k(v, 64);
                        let pre = c.eq(n.a, k);
                        let k = c.k(u, 64);
                        let pre2 = c.eq(n.b, k);
                        let pre = c.and(pre, pre2);
                        let kv = c.k(cf2(n.k, v, u), 64);
                        let (p, a, b) = (self.tr(pre), self.tr(e), self.tr(kv));
                        let sv = self.fp_solver();
                        unsafe {
                            Z3_solver_assert(
                                self.c,
                                sv,
                                Z3_mk_implies(self.c, p, Z3_mk_eq(self.c, a, b)),
                            )
                        }
                        any = true;
                    }
                },
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                },
            }
        }
        any
    }
    fn model(&mut self, sv: P) -> Rc<Model> {
        let c = cx();
        let mut v = vec![];
        unsafe {
            let m = Z3_solver_get_model(self.c, sv);
            Z3_model_inc_ref(self.c, m);
            for i in 0..c.vars.len() {
                let e = c.vars[i].2;
                let a = self.tr(e);
                let mut r: P = std::ptr::null_mut();
                if !Z3_model_eval(self.c, m, a, true, &mut r) {
                    v.push(0);
                    continue;
                }
                if c.vars[i].1 == 1 {
                    v.push((Z3_get_bool_value(self.c, r) == 1) as u64);
                } else {
                    let mut u = 0;
                    Z3_get_numeral_uint64(self.c, r, &mut u);
                    v.push(u);
                }
            }
            Z3_model_dec_ref(self.c, m);
        }
        self.new_model(v)
    }
}
