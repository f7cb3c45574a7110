//! Hash-consed bit-vector expressions (width <= 64), with a simplifier that keeps trees of
//! constants ("leafy" nodes) as decision DAGs, unsigned intervals, and evaluation under a model.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        (self.0 ^ self.0 >> 32).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Not, // boolean
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract,
    Concat,
    // floating point (64 bit patterns); k selects the operation
    F1,
    F2,
    FCmp,
}

/// floating point operation codes for F1/F2/FCmp
pub mod fop {
    pub const UITOFP: u64 = 1;
    pub const SITOFP: u64 = 2;
    pub const FPTOUI_SAT: u64 = 3;
    pub const FPTOSI_SAT: u64 = 4;
    pub const NEG: u64 = 5;
    pub const EXP: u64 = 6;
    pub const ABS: u64 = 7;
    pub const FLOOR: u64 = 8;
    pub const SQRT: u64 = 9;
    pub const CEIL: u64 = 10;
    pub const ROUND: u64 = 11;
    pub const TRUNC: u64 = 12;
    pub const ADD: u64 = 20;
    pub const SUB: u64 = 21;
    pub const MUL: u64 = 22;
    pub const DIV: u64 = 23;
    pub const REM: u64 = 24;
    pub const MAXNUM: u64 = 25;
    pub const MINNUM: u64 = 26;
    pub const POWI: u64 = 27;
    pub const POW: u64 = 28;
    pub const OEQ: u64 = 40;
    pub const OLT: u64 = 41;
    pub const OLE: u64 = 42;
    pub const UNO: u64 = 43;
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub leafy: bool,
    /// reduced ordered decision diagram over 1-bit variables with constant leaves
    pub dd: bool,
    pub top: u32,
    pub nl: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
    pub lo: u64,
    pub hi: u64,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Key(O, u8, E, E, E, u64);

pub struct Model {
    pub id: u64,
    pub v: Vec<u64>,
}

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    pub vars: Vec<(String, u8, E)>,
    varmap: HashMap<String, E>,
    ev: Vec<(u64, u64)>,
    memo: FxMap<(u64, E), E>,
    memo2: FxMap<(u64, E, E), E>,
    memo3: FxMap<(E, E, E), E>,
    dd_budget: u32,
    pub dd_on: bool,
    pub dd_over: u64,
    pub t: E,
    pub f: E,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            let mut c = Ctx {
                n: vec![],
                map: Default::default(),
                vars: vec![],
                varmap: Default::default(),
                ev: vec![],
                memo: Default::default(),
                memo2: Default::default(),
                memo3: Default::default(),
                dd_budget: 0,
                dd_on: std::env::var("SYMX_NODD").is_err(),
                dd_over: 0,
                t: 0,
                f: 0,
            };
            c.f = c.k(0, 1);
            c.t = c.k(1, 1);
            CTX = Box::into_raw(Box::new(c));
        }
        &mut *CTX
    }
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn cbin(op: O, a: u64, b: u64, w: u32) -> u64 {
    let m = mask(w);
    (match op {
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
        O::Add => a.wrapping_add(b),
        O::Sub => a.wrapping_sub(b),
        O::Mul => a.wrapping_mul(b),
        O::UDiv =>
            if b == 0 {
                m
            } else {
                a / b
            },
        O::URem =>
            if b == 0 {
                a
            } else {
                a % b
            },
        O::SDiv =>
            if b == 0 {
                if sx(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u64
            },
        O::SRem =>
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u64
            },
        O::Shl =>
            if b >= w as u64 {
                0
            } else {
                a << b
            },
        O::LShr =>
            if b >= w as u64 {
                0
            } else {
                a >> b
            },
        O::AShr => {
            let s = sx(a, w);
            (if b >= w as u64 { s >> 63 } else { s >> b }) as u64
        },
        O::Eq => (a == b) as u64,
        O::Ult => (a < b) as u64,
        O::Ule => (a <= b) as u64,
        O::Slt => (sx(a, w) < sx(b, w)) as u64,
        O::Sle => (sx(a, w) <= sx(b, w)) as u64,
        _ => panic!("cbin"),
    }) & m
}

pub fn cf1(k: u64, a: u64) -> u64 {
    let f = f64::from_bits(a);
    match k {
        fop::UITOFP => (a as f64).to_bits(),
        fop::SITOFP => (a as i64 as f64).to_bits(),
        fop::FPTOUI_SAT => f as u64,
        fop::FPTOSI_SAT => f as i64 as u64,
        fop::NEG => (-f).to_bits(),
        fop::EXP => f.exp().to_bits(),
        fop::ABS => f.abs().to_bits(),
        fop::FLOOR => f.floor().to_bits(),
        fop::SQRT => f.sqrt().to_bits(),
        fop::CEIL => f.ceil().to_bits(),
        fop::ROUND => f.round().to_bits(),
        fop::TRUNC => f.trunc().to_bits(),
        _ => panic!("cf1"),
    }
}
pub fn cf2(k: u64, a: u64, b: u64) -> u64 {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    match k {
        fop::ADD => (x + y).to_bits(),
        fop::SUB => (x - y).to_bits(),
        fop::MUL => (x * y).to_bits(),
        fop::DIV => (x / y).to_bits(),
        fop::REM => (x % y).to_bits(),
        fop::MAXNUM => x.max(y).to_bits(),
        fop::MINNUM => x.min(y).to_bits(),
        fop::POWI => x.powi(b as u32 as i32).to_bits(),
        fop::POW => x.powf(y).to_bits(),
        fop::OEQ => (x == y) as u64,
        fop::OLT => (x < y) as u64,
        fop::OLE => (x <= y) as u64,
        fop::UNO => (x.is_nan() || y.is_nan()) as u64,
        _ => panic!("cf2"),
    }
}

fn is_cmp(op: O) -> bool {
    matches!(op, O::Eq | O::Ult | O::Ule | O::Slt | O::Sle)
}

impl Ctx {
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u64> {
        let n = &self.n[e as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u64) -> E {
        let key = Key(op, w as u8, a, b, c, k);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let m = mask(w);
        let (lo, hi) = self.interval(op, w, a, b, c, k);
        let (leafy, nl) = match op {
            O::Const => (true, 1),
            O::Var => (w == 1, 2),
            O::Ite => {
                let (x, y) = (&self.n[b as usize], &self.n[c as usize]);
                (x.leafy && y.leafy, x.nl.saturating_add(y.nl))
            },
            _ => (false, 1),
        };
        let (dd, top) = match op {
            O::Const => (self.dd_on, u32::MAX),
            O::Var => (self.dd_on && w == 1, k as u32),
            O::Ite => {
                let v = &self.n[a as usize];
                let (x, y) = (&self.n[b as usize], &self.n[c as usize]);
                let t = v.top;
                (v.op == O::Var && v.dd && x.dd && y.dd && x.top > t && y.top > t, t)
            },
            _ => (false, u32::MAX),
        };
        let id = self.n.len() as E;
        self.n.push(Node { op, w: w as u8, leafy, dd, top, nl, a, b, c, k, lo: lo & m, hi: hi & m });
        self.ev.push((0, 0));
        self.map.insert(key, id);
        id
    }
    fn interval(&self, op: O, w: u32, a: E, b: E, c: E, k: u64) -> (u64, u64) {
        let m = mask(w);
        let n = |e: E| &self.n[e as usize];
        match op {
            O::Const => (k, k),
            O::Ite => (n(b).lo.min(n(c).lo), n(b).hi.max(n(c).hi)),
            O::Zext => (n(a).lo, n(a).hi),
            O::Add => {
                let (x, y) = (n(a), n(b));
                if let Some(s) = x.hi.checked_add(y.hi) {
                    if s <= m {
                        return (x.lo + y.lo, s);
                    }
                }
                if y.op == O::Const {
                    let d = (m - y.k).wrapping_add(1);
                    if x.lo >= d {
                        return (x.lo - d, x.hi - d);
                    }
                }
                (0, m)
            },
            O::Sub => {
                let (x, y) = (n(a), n(b));
                if x.lo >= y.hi {
                    (x.lo - y.hi, x.hi - y.lo)
                } else {
                    (0, m)
                }
            },
            O::Mul => {
                let (x, y) = (n(a), n(b));
                match x.hi.checked_mul(y.hi) {
                    Some(s) if s <= m => (x.lo * y.lo, s),
                    _ => (0, m),
                }
            },
            O::And => (0, n(a).hi.min(n(b).hi)),
            O::Or | O::Xor => {
                let h = n(a).hi | n(b).hi;
                let h = if h == 0 { 0 } else { u64::MAX >> h.leading_zeros() };
                (if op == O::Or { n(a).lo.max(n(b).lo) } else { 0 }, h & m)
            },
            O::Shl => {
                if n(b).op == O::Const && n(b).k < 64 {
                    let s = n(b).k;
                    if n(a).hi <= (m >> s) {
                        return (n(a).lo << s, n(a).hi << s);
                    }
                }
                (0, m)
            },
            O::LShr => {
                if n(b).op == O::Const && n(b).k < 64 {
                    return (n(a).lo >> n(b).k, n(a).hi >> n(b).k);
                }
                (0, n(a).hi)
            },
            O::UDiv =>
                if n(b).op == O::Const && n(b).k > 0 {
                    (n(a).lo / n(b).k, n(a).hi / n(b).k)
                } else {
                    (0, m)
                },
            O::URem =>
                if n(b).op == O::Const && n(b).k > 0 {
                    (0, n(a).hi.min(n(b).k - 1))
                } else {
                    (0, m)
                },
            O::Extract => {
                if k == 0 && n(a).hi <= m {
                    (n(a).lo, n(a).hi)
                } else {
                    (0, m)
                }
            },
            _ => (0, m),
        }
    }
    pub fn k(&mut self, k: u64, w: u32) -> E {
        self.mk(O::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            self.t
        } else {
            self.f
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        if let Some(e) = self.varmap.get(name) {
            assert_eq!(self.w(*e), w, "symbol {name} used with two widths");
            return *e;
        }
        let i = self.vars.len() as u64;
        let e = self.mk(O::Var, w, 0, 0, 0, i);
        self.vars.push((name.to_string(), w as u8, e));
        self.varmap.insert(name.to_string(), e);
        e
    }
    // ---------------------------------------------------------- decision diagrams
    fn dd_mk(&mut self, v: E, x: E, y: E) -> E {
        if x == y {
            return x;
        }
        if x == self.t && y == self.f {
            return v;
        }
        let w = self.w(x);
        self.mk(O::Ite, w, v, x, y, 0)
    }
    fn dd_var(&self, top: u32) -> E {
        self.vars[top as usize].2
    }
    fn dd_co(&self, e: E, top: u32) -> (E, E) {
        let n = &self.n[e as usize];
        if n.top != top {
            (e, e)
        } else if n.op == O::Var {
            (self.t, self.f)
        } else {
            (n.b, n.c)
        }
    }
    fn dd2(&mut self, key: u64, rw: u32, a: E, b: E, f: &dyn Fn(u64, u64) -> u64) -> Option<E> {
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        if an.op == O::Const && bn.op == O::Const {
            return Some(self.k(f(an.k, bn.k), rw));
        }
        if let Some(r) = self.memo2.get(&(key, a, b)) {
            return Some(*r);
        }
        if self.dd_budget == 0 {
            return None;
        }
        self.dd_budget -= 1;
        let top = an.top.min(bn.top);
        let (a1, a0) = self.dd_co(a, top);
        let (b1, b0) = self.dd_co(b, top);
        let x = self.dd2(key, rw, a1, b1, f)?;
        let y = self.dd2(key, rw, a0, b0, f)?;
        let v = self.dd_var(top);
        let r = self.dd_mk(v, x, y);
        self.memo2.insert((key, a, b), r);
        Some(r)
    }
    fn dd3(&mut self, c: E, a: E, b: E) -> Option<E> {
        if c == self.t || a == b {
            return Some(a);
        }
        if c == self.f {
            return Some(b);
        }
        if let Some(r) = self.memo3.get(&(c, a, b)) {
            return Some(*r);
        }
        if self.dd_budget == 0 {
            return None;
        }
        self.dd_budget -= 1;
        let top = self.n[c as usize].top.min(self.n[a as usize].top).min(self.n[b as usize].top);
        let (c1, c0) = self.dd_co(c, top);
        let (a1, a0) = self.dd_co(a, top);
        let (b1, b0) = self.dd_co(b, top);
        let x = self.dd3(c1, a1, b1)?;
        let y = self.dd3(c0, a0, b0)?;
        let v = self.dd_var(top);
        let r = self.dd_mk(v, x, y);
        self.memo3.insert((c, a, b), r);
        Some(r)
    }
    fn dd_start(&mut self) {
        self.dd_budget = 100_000;
        if self.memo2.len() > 6_000_000 {
            self.memo2.clear();
        }
        if self.memo3.len() > 6_000_000 {
            self.memo3.clear();
        }
        if self.memo.len() > 6_000_000 {
            self.memo.clear();
        }
    }
    fn dd_bin(&mut self, op: O, a: E, b: E) -> Option<E> {
        self.dd_start();
        let w = self.w(a);
        let rw = if is_cmp(op) { 1 } else { w };
        let key = op as u64 * 128 + w as u64;
        let r = self.dd2(key, rw, a, b, &move |x, y| cbin(op, x, y, w));
        if r.is_none() {
            self.dd_over += 1;
        }
        r
    }
    /// a satisfying assignment of a diagram: values of the variables on one path,
    /// preferring those of `like`
    pub fn dd_model(&self, e: E, like: &[u64]) -> Vec<u64> {
        let mut v = like.to_vec();
        v.resize(self.vars.len(), 0);
        let mut e = e;
        while self.n[e as usize].op != O::Const {
            let top = self.n[e as usize].top;
            let (x, y) = self.dd_co(e, top);
            let want = v[top as usize] & 1;
            let (first, second) = if want == 1 { (x, y) } else { (y, x) };
            if first == self.f {
                v[top as usize] = 1 - want;
                e = second;
            } else {
                e = first;
            }
        }
        v
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let n = self.n[a as usize];
        if n.dd {
            let t = self.t;
            if let Some(r) = self.dd_bin(O::Xor, a, t) {
                return r;
            }
        }
        match n.op {
            O::Const => self.b(n.k == 0),
            O::Not => n.a,
            O::Ult => self.mk2(O::Ule, 1, n.b, n.a),
            O::Ule => self.mk2(O::Ult, 1, n.b, n.a),
            _ => self.mk(O::Not, 1, a, 0, 0, 0),
        }
    }
    fn mk2(&mut self, op: O, w: u32, a: E, b: E) -> E {
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(O::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(O::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(O::Eq, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    /// turn a leafy 0/1 valued node into a boolean
    fn as_bool(&mut self, e: E) -> Option<E> {
        let n = self.n[e as usize];
        if !n.leafy || n.hi > 1 {
            return None;
        }
        if n.w == 1 {
            return Some(e);
        }
        Some(self.map_leaves(e, u64::MAX - 1, 1, &mut |_, k| k))
    }
    /// apply f to each constant leaf; the key makes the memo entry unique per (key, width)
    fn map_leaves(&mut self, e: E, key: u64, w: u32, f: &mut dyn FnMut(&mut Ctx, u64) -> u64) -> E {
        let n = self.n[e as usize];
        if n.op == O::Const {
            let v = f(self, n.k);
            return self.k(v, w);
        }
        debug_assert!(n.leafy);
        if let Some(r) = self.memo.get(&(key, e)) {
            return *r;
        }
        let (g, b, c) = if n.op == O::Var { (e, self.t, self.f) } else { (n.a, n.b, n.c) };
        let x = self.map_leaves(b, key, w, f);
        let y = self.map_leaves(c, key, w, f);
        let r = self.ite(g, x, y);
        self.memo.insert((key, e), r);
        r
    }
    /// general leaf mapping to expressions (not memoised across calls)
    pub fn map_leaf_exprs(
        &mut self,
        e: E,
        memo: &mut FxMap<E, E>,
        f: &mut dyn FnMut(&mut Ctx, u64) -> E,
    ) -> E {
        let n = self.n[e as usize];
        if n.op == O::Const {
            if let Some(r) = memo.get(&e) {
                return *r;
            }
            let r = f(self, n.k);
            memo.insert(e, r);
            return r;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let (g, b, c) = if n.op == O::Var { (e, self.t, self.f) } else { (n.a, n.b, n.c) };
        let x = self.map_leaf_exprs(b, memo, f);
        let y = self.map_leaf_exprs(c, memo, f);
        let r = self.ite(g, x, y);
        memo.insert(e, r);
        r
    }
    pub fn leaves(&self, e: E, limit: usize) -> Option<Vec<u64>> {
        if !self.n[e as usize].leafy {
            return None;
        }
        let mut seen: FxSet<E> = Default::default();
        let mut st = vec![e];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = &self.n[x as usize];
            if n.op == O::Const {
                out.push(n.k);
                if out.len() > limit {
                    return None;
                }
            } else if n.op == O::Var {
                st.push(self.f);
                st.push(self.t);
            } else {
                st.push(n.c);
                st.push(n.b);
            }
        }
        out.sort();
        Some(out)
    }
    fn opkey(op: O, side: u64, k: u64, w: u32) -> u64 {
        let mut h = Fx(0x1234567);
        h.write_u64(op as u64 * 4 + side);
        h.write_u64(k);
        h.write_u64(w as u64);
        h.finish() | 1 << 63
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let cn = self.n[c as usize];
        if cn.dd && self.n[a as usize].dd && self.n[b as usize].dd {
            self.dd_start();
            if let Some(r) = self.dd3(c, a, b) {
                return r;
            }
            self.dd_over += 1;
        }
        match cn.op {
            O::Const => return if cn.k != 0 { a } else { b },
            O::Not => return self.ite(cn.a, b, a),
            _ => {},
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        if an.op == O::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == O::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        if w == 1 {
            if an.op == O::Const {
                return if an.k != 0 {
                    self.or(c, b)
                } else {
                    let nc = self.not(c);
                    self.and(nc, b)
                };
            }
            if bn.op == O::Const {
                return if bn.k != 0 {
                    let nc = self.not(c);
                    self.or(nc, a)
                } else {
                    self.and(c, a)
                };
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        } else {
            // ite(c, x + l, x) = x + ite(c, l, 0)
            if an.op == O::Add {
                let z = self.k(0, w);
                if an.a == b {
                    let t = self.ite(c, an.b, z);
                    return self.bin(O::Add, b, t);
                }
                if an.b == b {
                    let t = self.ite(c, an.a, z);
                    return self.bin(O::Add, b, t);
                }
                if bn.op == O::Add && an.a == bn.a {
                    let t = self.ite(c, an.b, bn.b);
                    return self.bin(O::Add, an.a, t);
                }
            }
            if bn.op == O::Add {
                let z = self.k(0, w);
                if bn.a == a {
                    let t = self.ite(c, z, bn.b);
                    return self.bin(O::Add, a, t);
                }
                if bn.b == a {
                    let t = self.ite(c, z, bn.a);
                    return self.bin(O::Add, a, t);
                }
            }
            // factor equal sub-branches: ite(c, ite(d, x, y), x) = ite(c & !d, y, x)
            if an.op == O::Ite {
                if an.b == b {
                    let nd = self.not(an.a);
                    let cc = self.and(c, nd);
                    return self.ite(cc, an.c, b);
                }
                if an.c == b {
                    let cc = self.and(c, an.a);
                    return self.ite(cc, an.b, b);
                }
            }
            if bn.op == O::Ite {
                if bn.b == a {
                    let cc = self.or(c, bn.a);
                    return self.ite(cc, a, bn.c);
                }
                if bn.c == a {
                    let nd = self.not(bn.a);
                    let cc = self.or(c, nd);
                    return self.ite(cc, a, bn.b);
                }
            }
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }

    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        let w = an.w as u32;
        debug_assert_eq!(an.w, bn.w, "width mismatch {op:?}");
        let rw = if is_cmp(op) { 1 } else { w };
        if an.op == O::Const && bn.op == O::Const {
            let v = cbin(op, an.k, bn.k, w);
            return self.k(v, rw);
        }
        if an.dd && bn.dd {
            if let Some(r) = self.dd_bin(op, a, b) {
                return r;
            }
        }
        // commutative: constants to the right, otherwise ordered
        if matches!(op, O::And | O::Or | O::Xor | O::Add | O::Mul | O::Eq) {
            if an.op == O::Const {
                return self.bin(op, b, a);
            }
            if bn.op != O::Const && a > b {
                return self.bin(op, b, a);
            }
        }
        let m = mask(w);
        if w == 1 {
            match op {
                O::And => {
                    if bn.op == O::Const {
                        return if bn.k == 1 { a } else { self.f };
                    }
                    if a == b {
                        return a;
                    }
                    if self.not(a) == b {
                        return self.f;
                    }
                    // a & (a | x) = a ; a & (!a | x) = a & x ; a & (a & x) = a & x
                    if let Some(r) = self.absorb(op, a, b) {
                        return r;
                    }
                    return self.mk2(op, 1, a, b);
                },
                O::Or => {
                    if bn.op == O::Const {
                        return if bn.k == 1 { self.t } else { a };
                    }
                    if a == b {
                        return a;
                    }
                    if self.not(a) == b {
                        return self.t;
                    }
                    if let Some(r) = self.absorb(op, a, b) {
                        return r;
                    }
                    return self.mk2(op, 1, a, b);
                },
                O::Xor => {
                    if bn.op == O::Const {
                        return if bn.k == 1 { self.not(a) } else { a };
                    }
                    if a == b {
                        return self.f;
                    }
                    return self.mk2(op, 1, a, b);
                },
                O::Eq => {
                    if bn.op == O::Const {
                        return if bn.k == 1 { a } else { self.not(a) };
                    }
                    if a == b {
                        return self.t;
                    }
                    return self.mk2(op, 1, a, b);
                },
                O::Ult => {
                    let na = self.not(a);
                    return self.and(na, b);
                },
                O::Ule => {
                    let na = self.not(a);
                    return self.or(na, b);
                },
                O::Slt => {
                    let nb = self.not(b);
                    return self.and(a, nb);
                },
                O::Sle => {
                    let nb = self.not(b);
                    return self.or(a, nb);
                },
                O::Add | O::Sub => return self.bin(O::Xor, a, b),
                O::Mul => return self.and(a, b),
                _ => return self.mk2(op, 1, a, b),
            }
        }
        // intervals decide comparisons
        match op {
            O::Eq => {
                if a == b {
                    return self.t;
                }
                if an.hi < bn.lo || bn.hi < an.lo {
                    return self.f;
                }
            },
            O::Ult => {
                if a == b || an.lo >= bn.hi {
                    return self.f;
                }
                if an.hi < bn.lo {
                    return self.t;
                }
            },
            O::Ule => {
                if a == b || an.hi <= bn.lo {
                    return self.t;
                }
                if an.lo > bn.hi {
                    return self.f;
                }
            },
            O::Slt | O::Sle => {
                if a == b {
                    return self.b(op == O::Sle);
                }
                let s = 1u64 << (w - 1);
                if an.hi < s && bn.hi < s || (an.lo >= s && bn.lo >= s) {
                    return self.bin(if op == O::Slt { O::Ult } else { O::Ule }, a, b);
                }
                if an.lo >= s && bn.hi < s {
                    return self.t;
                }
                if an.hi < s && bn.lo >= s {
                    return self.f;
                }
            },
            _ => {},
        }
        // leafy op const
        if an.leafy && bn.op == O::Const {
            let key = Self::opkey(op, 0, bn.k, w);
            let kb = bn.k;
            return self.map_leaves(a, key, rw, &mut |_, x| cbin(op, x, kb, w));
        }
        if bn.leafy && an.op == O::Const {
            let key = Self::opkey(op, 1, an.k, w);
            let ka = an.k;
            return self.map_leaves(b, key, rw, &mut |_, x| cbin(op, ka, x, w));
        }
        // same top condition
        if an.op == O::Ite && bn.op == O::Ite && an.a == bn.a {
            let x = self.bin(op, an.b, bn.b);
            let y = self.bin(op, an.c, bn.c);
            return self.ite(an.a, x, y);
        }
        // boolean-valued words
        if matches!(op, O::And | O::Or | O::Xor) {
            if let (Some(x), Some(y)) = (self.as_bool(a), self.as_bool(b)) {
                let r = self.bin(op, x, y);
                return self.zext(r, w);
            }
        }
        if an.leafy && bn.leafy && (an.nl as u32) * (bn.nl as u32) <= 16 && is_cmp(op) {
            // distribute a over b
            let mut memo = Default::default();
            return self.map_leaf_exprs(a, &mut memo, &mut |cx, x| {
                let kx = cx.k(x, w);
                cx.bin(op, kx, b)
            });
        }
        match op {
            O::And => {
                if a == b {
                    return a;
                }
                if bn.op == O::Const {
                    if bn.k == 0 {
                        return b;
                    }
                    if bn.k == m {
                        return a;
                    }
                    // a within the mask?
                    let p = possible(&an);
                    if p & !bn.k == 0 {
                        return a;
                    }
                    if p & bn.k == 0 {
                        return self.k(0, w);
                    }
                    match an.op {
                        O::Or | O::Xor => {
                            let x = self.bin(O::And, an.a, b);
                            let y = self.bin(O::And, an.b, b);
                            return self.bin(an.op, x, y);
                        },
                        O::And if self.is_const(an.b).is_some() => {
                            let k2 = self.is_const(an.b).unwrap() & bn.k;
                            let k2 = self.k(k2, w);
                            return self.bin(O::And, an.a, k2);
                        },
                        O::Ite => {
                            let x = self.bin(O::And, an.b, b);
                            let y = self.bin(O::And, an.c, b);
                            return self.ite(an.a, x, y);
                        },
                        O::Zext => {
                            let iw = self.w(an.a);
                            let kk = self.k(bn.k, iw);
                            let x = self.bin(O::And, an.a, kk);
                            return self.zext(x, w);
                        },
                        _ => {},
                    }
                }
            },
            O::Or => {
                if a == b {
                    return a;
                }
                if bn.op == O::Const {
                    if bn.k == 0 {
                        return a;
                    }
                    if bn.k == m {
                        return b;
                    }
                }
            },
            O::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if bn.op == O::Const && bn.k == 0 {
                    return a;
                }
            },
            O::Add => {
                if bn.op == O::Const {
                    if bn.k == 0 {
                        return a;
                    }
                    if an.op == O::Add {
                        if let Some(k1) = self.is_const(an.b) {
                            let kk = self.k(k1.wrapping_add(bn.k), w);
                            return self.bin(O::Add, an.a, kk);
                        }
                    }
                } else {
                    // float constants outwards: (x + k) + y = (x + y) + k
                    if an.op == O::Add && self.is_const(an.b).is_some() {
                        let s = self.bin(O::Add, an.a, b);
                        return self.bin(O::Add, s, an.b);
                    }
                    if bn.op == O::Add && self.is_const(bn.b).is_some() {
                        let s = self.bin(O::Add, a, bn.a);
                        return self.bin(O::Add, s, bn.b);
                    }
                }
            },
            O::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if bn.op == O::Const {
                    let kk = self.k(bn.k.wrapping_neg(), w);
                    return self.bin(O::Add, a, kk);
                }
                if an.op == O::Add {
                    if an.a == b {
                        return an.b;
                    }
                    if an.b == b {
                        return an.a;
                    }
                }
            },
            O::Mul =>
                if bn.op == O::Const {
                    if bn.k == 0 {
                        return b;
                    }
                    if bn.k == 1 {
                        return a;
                    }
                    if bn.k.is_power_of_two() {
                        let kk = self.k(bn.k.trailing_zeros() as u64, w);
                        return self.bin(O::Shl, a, kk);
                    }
                },
            O::Shl | O::LShr =>
                if bn.op == O::Const {
                    if bn.k == 0 {
                        return a;
                    }
                    if bn.k >= w as u64 {
                        return self.k(0, w);
                    }
                    if matches!(an.op, O::Or | O::And | O::Xor) {
                        let x = self.bin(op, an.a, b);
                        let y = self.bin(op, an.b, b);
                        return self.bin(an.op, x, y);
                    }
                    if an.op == O::Ite {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                    if an.op == op {
                        if let Some(k1) = self.is_const(an.b) {
                            let kk = self.k(k1 + bn.k, w);
                            return self.bin(op, an.a, kk);
                        }
                    }
                    if op == O::LShr {
                        // shifting out everything
                        if an.hi >> bn.k == 0 {
                            return self.k(0, w);
                        }
                        if an.op == O::Shl && self.is_const(an.b) == Some(bn.k) {
                            let x = self.n[an.a as usize];
                            if x.hi <= m >> bn.k {
                                return an.a;
                            }
                        }
                    }
                },
            O::UDiv =>
                if bn.op == O::Const && bn.k.is_power_of_two() {
                    let kk = self.k(bn.k.trailing_zeros() as u64, w);
                    return self.bin(O::LShr, a, kk);
                },
            O::URem =>
                if bn.op == O::Const && bn.k.is_power_of_two() {
                    let kk = self.k(bn.k - 1, w);
                    return self.bin(O::And, a, kk);
                } else if bn.op == O::Const && an.hi < bn.k {
                    return a;
                },
            O::Eq | O::Ult | O::Ule => {
                // constants across a non-wrapping addition
                if an.op == O::Add && bn.op == O::Const {
                    if let Some(k1) = self.is_const(an.b) {
                        if op == O::Eq {
                            let kk = self.k(bn.k.wrapping_sub(k1), w);
                            return self.bin(O::Eq, an.a, kk);
                        }
                        let x = self.n[an.a as usize];
                        let neg = m.wrapping_sub(k1).wrapping_add(1) & m;
                        if x.hi.checked_add(k1).is_some_and(|s| s <= m) {
                            if bn.k >= k1 {
                                let kk = self.k(bn.k - k1, w);
                                return self.bin(op, an.a, kk);
                            }
                            return self.f;
                        } else if x.lo >= neg && bn.k.checked_add(neg).is_some_and(|s| s <= m) {
                            let kk = self.k(bn.k + neg, w);
                            return self.bin(op, an.a, kk);
                        }
                    }
                }
                if bn.op == O::Add && an.op == O::Const && op != O::Eq {
                    if let Some(k1) = self.is_const(bn.b) {
                        let x = self.n[bn.a as usize];
                        let neg = m.wrapping_sub(k1).wrapping_add(1) & m;
                        if x.hi.checked_add(k1).is_some_and(|s| s <= m) {
                            if an.k >= k1 {
                                let kk = self.k(an.k - k1, w);
                                return self.bin(op, kk, bn.a);
                            }
                            return self.t;
                        } else if x.lo >= neg && an.k.checked_add(neg).is_some_and(|s| s <= m) {
                            let kk = self.k(an.k + neg, w);
                            return self.bin(op, kk, bn.a);
                        }
                    }
                }
                if an.op == O::Zext && bn.op == O::Const {
                    let iw = self.w(an.a);
                    if bn.k <= mask(iw) {
                        let kk = self.k(bn.k, iw);
                        return self.bin(op, an.a, kk);
                    }
                }
                if an.op == O::Const && bn.op == O::Zext {
                    let iw = self.w(bn.a);
                    if an.k <= mask(iw) {
                        let kk = self.k(an.k, iw);
                        return self.bin(op, kk, bn.a);
                    }
                }
                if an.op == O::Zext && bn.op == O::Zext && self.w(an.a) == self.w(bn.a) {
                    return self.bin(op, an.a, bn.a);
                }
                // x < 1  =>  x == 0
                if op == O::Ult && bn.op == O::Const && bn.k == 1 {
                    let z = self.k(0, w);
                    return self.bin(O::Eq, a, z);
                }
                if op == O::Ule && bn.op == O::Const && bn.k == 0 {
                    return self.bin(O::Eq, a, b);
                }
                if bn.op == O::Const && an.op == O::Ite && !an.leafy {
                    let (x, y) = (self.n[an.b as usize], self.n[an.c as usize]);
                    if x.op == O::Const || y.op == O::Const {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
            },
            _ => {},
        }
        self.mk2(op, rw, a, b)
    }

    fn absorb(&mut self, op: O, a: E, b: E) -> Option<E> {
        let dual = if op == O::And { O::Or } else { O::And };
        for (x, y) in [(a, b), (b, a)] {
            let yn = self.n[y as usize];
            if yn.w != 1 {
                continue;
            }
            if yn.op == dual {
                if yn.a == x || yn.b == x {
                    return Some(x);
                }
                let nx = self.not(x);
                if yn.a == nx {
                    return Some(self.bin(op, x, yn.b));
                }
                if yn.b == nx {
                    return Some(self.bin(op, x, yn.a));
                }
            }
            if yn.op == op {
                if yn.a == x || yn.b == x {
                    return Some(y);
                }
                let nx = self.not(x);
                if yn.a == nx || yn.b == nx {
                    return Some(if op == O::And { self.f } else { self.t });
                }
            }
        }
        None
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        if n.op == O::Const {
            return self.k(n.k, w);
        }
        if n.w == 1 {
            let o = self.k(1, w);
            let z = self.k(0, w);
            return self.ite(a, o, z);
        }
        if n.leafy {
            return self.map_leaves(a, Self::opkey(O::Zext, 0, n.w as u64, w), w, &mut |_, x| x);
        }
        if n.op == O::Zext {
            return self.zext(n.a, w);
        }
        if n.op == O::Ite {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(O::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        let fw = n.w as u32;
        if fw == w {
            return a;
        }
        if n.op == O::Const {
            return self.k(sx(n.k, fw) as u64, w);
        }
        if fw == 1 {
            let o = self.k(u64::MAX, w);
            let z = self.k(0, w);
            return self.ite(a, o, z);
        }
        if n.hi < 1 << (fw - 1) {
            return self.zext(a, w);
        }
        if n.leafy {
            return self.map_leaves(a, Self::opkey(O::Sext, 0, fw as u64, w), w, &mut |_, x| {
                sx(x, fw) as u64
            });
        }
        self.mk(O::Sext, w, a, 0, 0, 0)
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        let fw = n.w as u32;
        if lo == 0 && fw == w {
            return a;
        }
        if n.op == O::Const {
            return self.k(n.k >> lo, w);
        }
        if lo > 0 && n.hi >> lo == 0 {
            return self.k(0, w);
        }
        match n.op {
            O::Zext | O::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if n.op == O::Zext {
                    if lo >= iw {
                        return self.k(0, w);
                    }
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.zext(x, w);
                }
            },
            O::Extract => return self.extract(n.a, lo + n.k as u32, w),
            O::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
            },
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            },
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            },
            O::Ite => {
                if n.leafy {
                    let key = Self::opkey(O::Extract, lo as u64, fw as u64, w);
                    return self.map_leaves(a, key, w, &mut |_, x| x >> lo);
                }
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            },
            _ => {},
        }
        self.mk(O::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n[hi as usize], self.n[lo as usize]);
        let w = h.w as u32 + l.w as u32;
        if h.op == O::Const && l.op == O::Const {
            return self.k(h.k << l.w | l.k, w);
        }
        if h.op == O::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        // adjacent extracts
        if h.op == O::Extract && l.op == O::Extract && h.a == l.a && h.k == l.k + l.w as u64 {
            return self.extract(h.a, l.k as u32, w);
        }
        if h.op == O::Extract && h.a == lo && h.k == l.w as u64 {
            return self.extract(lo, 0, w);
        }
        if h.op == O::Extract && l.op == O::Concat {
            // (extract, (concat extract ..)): try to fuse the neighbours
            let f = self.concat(hi, l.a);
            if self.n[f as usize].op != O::Concat {
                return self.concat(f, l.b);
            }
        }
        if h.leafy && l.leafy && (h.dd && l.dd || h.nl as u32 * l.nl as u32 <= 64 || h.op == O::Const || l.op == O::Const)
        {
            let zh = self.zext(hi, w);
            let s = self.k(l.w as u64, w);
            let sh = self.bin(O::Shl, zh, s);
            let zl = self.zext(lo, w);
            return self.bin(O::Or, sh, zl);
        }
        self.mk(O::Concat, w, hi, lo, 0, 0)
    }
    pub fn f1(&mut self, k: u64, a: E) -> E {
        let n = self.n[a as usize];
        if n.op == O::Const {
            return self.k(cf1(k, n.k), 64);
        }
        if n.leafy {
            return self.map_leaves(a, Self::opkey(O::F1, 0, k, 64), 64, &mut |_, x| cf1(k, x));
        }
        if k == fop::FPTOUI_SAT && n.op == O::F1 && n.k == fop::UITOFP {
            // exact below 2^53
            if self.n[n.a as usize].hi < 1 << 53 {
                return n.a;
            }
        }
        self.mk(O::F1, 64, a, 0, 0, k)
    }
    pub fn f2(&mut self, k: u64, a: E, b: E) -> E {
        // the order does not matter for these
        let (a, b) = if matches!(k, fop::ADD | fop::MUL | fop::OEQ | fop::UNO) && a > b { (b, a) } else { (a, b) };
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        if let (O::Const, O::Const) = (an.op, bn.op) {
            return self.k(cf2(k, an.k, bn.k), if k >= 40 { 1 } else { 64 });
        }
        let rw = if k >= 40 { 1 } else { 64 };
        if an.dd && bn.dd {
            self.dd_start();
            let key = 1 << 40 | k;
            if let Some(r) = self.dd2(key, rw, a, b, &move |x, y| cf2(k, x, y)) {
                return r;
            }
            self.dd_over += 1;
        }
        if an.leafy && bn.op == O::Const {
            let kb = bn.k;
            let key = Self::opkey(O::F2, 0, kb ^ k.rotate_left(40), rw);
            return self.map_leaves(a, key, rw, &mut |_, x| cf2(k, x, kb));
        }
        if bn.leafy && an.op == O::Const {
            let ka = an.k;
            let key = Self::opkey(O::F2, 1, ka ^ k.rotate_left(40), rw);
            return self.map_leaves(b, key, rw, &mut |_, x| cf2(k, ka, x));
        }
        if an.leafy && bn.leafy && an.nl as u32 * bn.nl as u32 <= 256 {
            let mut memo = Default::default();
            return self.map_leaf_exprs(a, &mut memo, &mut |cx, x| {
                let kx = cx.k(x, 64);
                cx.f2(k, kx, b)
            });
        }
        if k >= 40 {
            if let Some(r) = self.compare_multiple(k, a, b) {
                return r;
            }
        }
        self.mk(if k >= 40 { O::FCmp } else { O::F2 }, rw, a, b, 0, k)
    }
    /// `e` as a natural number below 2^53 (64 bits) times 2^-s: what random number
    /// generators make of their values
    fn multiple(&mut self, e: E) -> Option<(E, u32)> {
        const ONE: u64 = 0x3ff << 52;
        let n = self.n[e as usize];
        if n.op == O::F1 && n.k == fop::UITOFP {
            return (self.n[n.a as usize].hi < 1 << 53).then_some((n.a, 0));
        }
        if n.op != O::F2 {
            return None;
        }
        for (x, y) in [(n.a, n.b), (n.b, n.a)] {
            let (Some(k), xn) = (self.is_const(y), self.n[x as usize]) else { continue };
            let f = f64::from_bits(k);
            match n.k {
                // from [1, 2) to [0, 1)
                fop::SUB | fop::ADD
                    if xn.lo >= ONE
                        && f == if n.k == fop::ADD { -1. } else { 1. }
                        && (n.k == fop::ADD || y == n.b) =>
                {
                    if xn.hi >> 52 != 0x3ff {
                        return None;
                    }
                    let m = self.extract(x, 0, 52);
                    return Some((self.zext(m, 64), 52));
                },
                fop::ADD if f == 0. => return self.multiple(x),
                fop::MUL if k << 12 == 0 && f > 0. && f <= 1. && k >> 52 > 1023 - 100 => {
                    let (m, s) = self.multiple(x)?;
                    return (s < 400).then_some((m, s + 1023 - (k >> 52) as u32));
                },
                _ => {},
            }
        }
        None
    }
    fn compare_multiple(&mut self, op: u64, a: E, b: E) -> Option<E> {
        if self.multiple(a).is_none() && self.multiple(b).is_none() {
            return None;
        }
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            let yn = self.n[y as usize];
            if !yn.leafy || yn.nl > 256 {
                continue;
            }
            let Some((m, s)) = self.multiple(x) else { continue };
            let mut memo = Default::default();
            return Some(self.map_leaf_exprs(y, &mut memo, &mut |c, k| {
                let k = f64::from_bits(k);
                if op == fop::UNO || k.is_nan() {
                    return c.b(op == fop::UNO && k.is_nan());
                }
                // exact: s is not negative
                let k = k * 2f64.powi(s as i32);
                let top = (1u64 << 53) as f64;
                let below = |c: &mut Ctx, or_equal: bool| {
                    if k < 0. || k == 0. && !or_equal {
                        return c.f;
                    }
                    if k >= top {
                        return c.t;
                    }
                    let n = if or_equal { k.floor() as u64 + 1 } else { k.ceil() as u64 };
                    let n = c.k(n, 64);
                    c.bin(O::Ult, m, n)
                };
                match (op, left) {
                    (fop::OLT, true) => below(c, false),
                    (fop::OLE, true) => below(c, true),
                    (fop::OLT, false) => {
                        let e = below(c, true);
                        c.not(e)
                    },
                    (fop::OLE, false) => {
                        let e = below(c, false);
                        c.not(e)
                    },
                    _ if k < 0. || k >= top || k.floor() != k => c.f,
                    _ => {
                        let n = c.k(k as u64, 64);
                        c.eq(m, n)
                    },
                }
            }));
        }
        None
    }

    pub fn eval(&mut self, e: E, m: &Model) -> u64 {
        let n = self.n[e as usize];
        if n.op == O::Const {
            return n.k;
        }
        let (id, v) = self.ev[e as usize];
        if id == m.id {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            O::Const => n.k,
            O::Var => m.v.get(n.k as usize).copied().unwrap_or(0) & mask(w),
            O::Not => 1 - self.eval(n.a, m),
            O::Ite =>
                if self.eval(n.a, m) != 0 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                },
            O::Zext => self.eval(n.a, m),
            O::Sext => {
                let fw = self.w(n.a);
                sx(self.eval(n.a, m), fw) as u64 & mask(w)
            },
            O::Extract => (self.eval(n.a, m) >> n.k) & mask(w),
            O::Concat => {
                let lw = self.w(n.b);
                self.eval(n.a, m) << lw | self.eval(n.b, m)
            },
            O::F1 => cf1(n.k, self.eval(n.a, m)),
            O::F2 | O::FCmp => cf2(n.k, self.eval(n.a, m), self.eval(n.b, m)),
            op => {
                let fw = self.w(n.a);
                cbin(op, self.eval(n.a, m), self.eval(n.b, m), fw)
            },
        };
        self.ev[e as usize] = (m.id, v);
        v
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = &self.n[e as usize];
        if d == 0 {
            return format!("#{e}");
        }
        match n.op {
            O::Const => format!("{}", n.k),
            O::Var => self.vars[n.k as usize].0.clone(),
            O::Not => format!("!{}", self.show(n.a, d - 1)),
            O::Ite => format!(
                "({} ? {} : {})",
                self.show(n.a, d - 1),
                self.show(n.b, d - 1),
                self.show(n.c, d - 1)
            ),
            O::Zext | O::Sext | O::F1 => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            O::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

/// bits that may be set, from the interval
fn possible(n: &Node) -> u64 {
    if n.hi == 0 {
        0
    } else {
        u64::MAX >> n.hi.leading_zeros()
    }
}
