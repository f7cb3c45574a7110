//! The symbolic executor.
use crate::expr::*;
use crate::ir::{self, func_addr, global_addr, BinOp, Callee, CastOp, Func, Module, Op, Pred, RmwOp, Ty, TyId, I, K};
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

pub type R<T> = Result<T, Stop>;

/// why a path cannot continue
#[derive(Debug)]
pub enum Stop {
    Viol(String, String),   // kind, message
    Infeasible,             // assumption failed
    Unsupported(String),    // engine limit
    Done,
    Blocked,                // the thread gave up the processor; the state was rescheduled
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub ret: u32,
    pub normal: u32,
    pub stack: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Status {
    Run,
    Futex(u64, Option<u64>), // address, deadline
    Join(usize),
    JoinAll,
    JoinPool,
    Done,
}

/// after that much waiting in a loop, another thread runs
const SPINS: u32 = 250;
/// the address a sleeping thread waits at
const SLEEP: u64 = 1;

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub top: Option<Frame>,
    pub status: Status,
    pub tls: FxMap<u32, u64>,
    /// started through symx_spawn
    pub pool: bool,
    pub resumed: bool,
    /// how long it has been waiting in a loop (`pause`, `sched_yield`) since it got to run
    pub spins: u32,
    pub errno: u64,
    pub wake_result: Option<u64>, // pending result of a blocking call (register gets it on resume)
}

#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: FxMap<u64, Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub regions: Vec<u32>,
    pub at_entry: bool,
    pub at_ret: usize,
    pub ninstr: u64,
    pub merge: bool,
    pub preempts: u32,
    /// the thread to switch to at the next scheduling point (--spawn-first)
    pub pending: Option<usize>,
    pub npoints: u64,
    pub switch_id: u64,
    pub sched: Vec<(u64, u32)>,
    pub obs: Vec<(u64, V)>,
    /// when the process may end by itself
    pub may_exit: V,
    pub clock: u64,
    pub rnd: u64,
    pub depth: u32,
    pub files: BTreeMap<String, Rc<Vec<u8>>>,
    pub fds: BTreeMap<u64, (String, u64)>,
    pub nalloc: u64,
    pub live_heap: i64,
}

pub struct Region {
    live: i64,
    arrived: Vec<State>,
    depth: usize,
    tid: usize,
    join: u32,
    cancelled: bool,
    outer: Option<u32>,
    start: u64,
}

#[derive(Clone, Copy)]
pub struct TI {
    w: u32,    // scalar width; 0 for aggregates / vectors / wide
    size: u32, // bytes
}

pub struct Opts {
    pub params: Vec<u64>,
    pub max_instr: u64,
    pub max_time: f64,
    pub preempts: u32,
    /// timeouts may fire (at the cost of a preemption) while other threads can run
    pub fire: bool,
    /// a thread started with pthread_create runs first
    pub spawn_first: bool,
    pub max_viol: usize,
    pub samples: usize,
    pub verbose: bool,
    pub seed: u64,
    pub prefix: Vec<bool>,
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub model: Vec<(String, u64)>,
    pub sched: Vec<(u64, u32)>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub instr: u64,
    pub pruned: u64,
    pub asserts: u64,
    pub asserts_by: BTreeMap<u64, u64>,
    pub reach: BTreeMap<u64, u64>,
    pub switches: u64,
    pub max_depth: u32,
    pub unsupported: BTreeMap<String, u64>,
    pub timeout_paths: u64,
    pub complete: bool,
}

pub struct Sample {
    pub model: Vec<(String, u64)>,
    pub obs: Vec<(u64, u64)>,
    pub sched: Vec<(u64, u32)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    None,
    Bits,
    Assume,
    Assert,
    Reach,
    Param,
    Out,
    Concretize,
    Merge,
    IteF,
    Args,
    MayExit,
    Exit,
    Spawn,
    JoinAll,
    JoinPool,
    Mkdir,
    Stat,
    Yield,
    Malloc,
    Calloc,
    Realloc,
    Free,
    MemAlign,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    Abort,
    Panic,
    KeyCreate,
    SetSpecific,
    GetSpecific,
    Nop0,   // returns 0
    Ignore, // no result
    Errno,
    Getrandom,
    Syscall,
    ClockGettime,
    PthreadCreate,
    PthreadJoin,
    SchedYield,
    Pause,
    Nanosleep,
    ThreadLocal,
    IsConst0,
    MinMax(u8),
    SatOp(u8),
    WithOv(u8),
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fsh(bool),
    Abs,
    Cmp3(bool),
    LoadRel,
    Trap,
    Expect,
    Fun1(u64),
    Fun2(u64),
    Getenv,
    Open,
    Read,
    Write,
    Close,
    Fstat,
    VecReduce(u8),
    OutF,
    FpToIntSat(bool),
    FmulAdd,
    Heap,
    PtrMask,
    Unknown,
}

pub struct Engine {
    pub m: Module,
    pub sol: Solver,
    pub o: Opts,
    pub ti: Vec<TI>,
    pub consts: Vec<V>,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub ext: Vec<Ext>,
    pub work: Vec<State>,
    pub regions: FxMap<u32, Region>,
    next_region: u32,
    next_obj: u64,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub samples: Vec<Sample>,
    pub called: FxMap<u32, u64>,
    start: Instant,
    pub stop: bool,
    allow_multi: bool,
}

const MAX_OBJ: u64 = 1 << 24;

impl Engine {
    pub fn new(m: Module, sol: Solver, o: Opts) -> Engine {
        let mut globals = vec![];
        for g in &m.globals {
            let kind = if g.constant { Kind::Const } else { Kind::Global };
            globals.push(Some(Rc::new(Obj {
                size: g.init.len() as u64,
                kind,
                data: g.init.clone(),
                sym: vec![],
            })));
        }
        let ext = m.funcs.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        Engine {
            m,
            sol,
            o,
            ti: vec![],
            consts: vec![],
            globals,
            ext,
            work: vec![],
            regions: Default::default(),
            next_region: 0,
            next_obj: ir::HEAP_OBJ0,
            stats: Stats::default(),
            viols: vec![],
            samples: vec![],
            called: Default::default(),
            start: Instant::now(),
            stop: false,
            allow_multi: true,
        }
    }
    fn refresh(&mut self) {
        let n = self.m.tys.borrow().len();
        while self.ti.len() < n {
            let t = self.ti.len() as TyId;
            let ty = self.m.get(t);
            let w = match ty {
                Ty::Int(w) if w <= 64 => w,
                Ty::Ptr | Ty::F64 => 64,
                Ty::F32 => 32,
                _ => 0,
            };
            let size = match ty {
                Ty::Int(w) if w <= 64 => w.div_ceil(8),
                _ => self.m.size(t) as u32,
            };
            self.ti.push(TI { w, size });
        }
        let n = self.m.consts.borrow().len();
        while self.consts.len() < n {
            let k = self.m.consts.borrow()[self.consts.len()].clone();
            self.consts.push(conv(&k));
        }
    }
    fn fnc(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = *self.m.funcs[id as usize].func.borrow() {
            return Some(f);
        }
        let f = self.m.func(id)?;
        self.refresh();
        Some(f)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    fn new_frame(&mut self, st: &mut State, f: &'static Func, ret: u32, normal: u32) -> Frame {
        let stack = if f.frame_size > 0 {
            let id = self.next_obj;
            self.next_obj += 1;
            st.mem.insert(id, Rc::new(Obj::new(f.frame_size, Kind::Stack)));
            id
        } else {
            0
        };
        *self.called.entry(f.id).or_insert(0) += 1;
        Frame {
            f,
            regs: vec![V::C(0); f.nregs as usize],
            block: 0,
            ip: 0,
            prev: 0,
            ret,
            normal,
            stack,
        }
    }

    pub fn run_entry(&mut self, name: &str) {
        let id = *self.m.fmap.get(name).unwrap_or_else(|| {
            eprintln!("no entry function {name}");
            std::process::exit(3)
        });
        let f = self.fnc(id).expect("entry has a body");
        let model = self.sol.new_model(vec![]);
        let dummy = Frame { f, regs: vec![], block: 0, ip: 0, prev: 0, ret: 0, normal: 0, stack: 0 };
        let mut st = State {
            threads: vec![Thread {
                frames: vec![],
                top: None,
                status: Status::Run,
                tls: Default::default(),
                resumed: false,
                spins: 0,
                errno: 0,
                wake_result: None,
                pool: false,
            }],
            cur: 0,
            frames: vec![],
            top: dummy,
            mem: Default::default(),
            pc: vec![],
            model,
            regions: vec![],
            at_entry: false,
            at_ret: usize::MAX,
            ninstr: 0,
            merge: true,
            preempts: self.o.preempts,
            pending: None,
            npoints: 0,
            switch_id: 0,
            sched: vec![],
            obs: vec![],
            may_exit: V::C(0),
            clock: 1_000_000_000,
            rnd: self.o.seed,
            depth: 0,
            files: Default::default(),
            fds: Default::default(),
            nalloc: 0,
            live_heap: 0,
        };
        st.top = self.new_frame(&mut st, f, u32::MAX, u32::MAX);
        self.work.push(st);
        self.stats.complete = true;
        while let Some(st) = self.work.pop() {
            if self.stop {
                self.stats.complete = false;
                break;
            }
            if self.elapsed() > self.o.max_time {
                self.stats.complete = false;
                break;
            }
            self.run(st);
        }
    }

    fn run(&mut self, mut st: State) {
        loop {
            if st.at_entry || st.at_ret != usize::MAX {
                if !st.regions.is_empty() {
                    let id = *st.regions.last().unwrap();
                    let r = self.regions.get_mut(&id).unwrap();
                    let here = st.cur == r.tid
                        && ((st.at_entry && r.join == st.top.block && r.depth == st.frames.len())
                            || (st.at_ret == r.depth && r.join == ir::EXIT_PD));
                    if here {
                        if st.ninstr - r.start > 100_000 {
                            r.cancelled = true;
                        }
                        r.arrived.push(st);
                        r.live -= 1;
                        if r.live == 0 {
                            self.complete(id);
                        }
                        return;
                    }
                }
                st.at_entry = false;
                st.at_ret = usize::MAX;
            }
            if st.ninstr > self.o.max_instr {
                self.stats.timeout_paths += 1;
                let m = format!("path exceeds {} instructions in {}", self.o.max_instr, st.top.f.name);
                self.end(st, Stop::Viol("nontermination".into(), m));
                return;
            }
            match self.block(&mut st) {
                Ok(()) => {
                    if (st.ninstr & 0xfff) < 64 && self.elapsed() > self.o.max_time {
                        self.stats.complete = false;
                        self.stop = true;
                        return;
                    }
                },
                Err(s) => {
                    self.end(st, s);
                    return;
                },
            }
            if self.stop {
                return;
            }
        }
    }

    /// an assertion: reported if it can be false; the path goes on where it holds
    fn must(&mut self, st: &mut State, v: V, kind: String, why: &str) -> R<()> {
        let cxx = cx();
        match v {
            V::C(0) => return Err(Stop::Viol(kind, why.into())),
            V::C(_) => {},
            V::S(e) => {
                let e = nz(fit(e, 64));
                let ne = cxx.not(e);
                if let Some(k) = cxx.is_const(e) {
                    if k == 0 {
                        return Err(Stop::Viol(kind, why.into()));
                    }
                } else {
                    let bad = if cxx.eval(ne, &st.model) != 0 {
                        Some(st.model.clone())
                    } else {
                        match self.sol.check_with(&st.pc, &[ne], true) {
                            (Res::Sat, m) => m,
                            (Res::Unsat, _) => None,
                            _ => return Err(Stop::Unsupported("solver returned unknown".into())),
                        }
                    };
                    if let Some(m) = bad {
                        self.report(st, m, kind, why.into());
                        // continue where it holds
                        match self.sol.check(&st.pc, &[e]) {
                            (Res::Sat, m) => {
                                st.model = m.unwrap();
                                st.pc.push(e);
                            },
                            _ => return Err(Stop::Infeasible),
                        }
                    }
                }
            },
            _ => unreachable!(),
        }
        Ok(())
    }
    fn end(&mut self, st: State, why: Stop) {
        self.stats.instr += st.ninstr;
        self.stats.max_depth = self.stats.max_depth.max(st.depth);
        match why {
            Stop::Blocked => {
                // replaced by rescheduled copies
                self.stats.instr -= st.ninstr;
            },
            Stop::Done => {
                self.stats.paths += 1;
                let p = self.stats.paths;
                if self.samples.len() < self.o.samples
                    && (p <= 4 || p.is_power_of_two() || p % 97 == 0)
                {
                    let s = self.sample(&st);
                    self.samples.push(s);
                }
            },
            Stop::Infeasible => self.stats.pruned += 1,
            Stop::Unsupported(s) => {
                if self.o.verbose {
                    eprintln!("unsupported: {s} in {} ({})", st.top.f.name, self.trace(&st).join(" < "));
                }
                *self.stats.unsupported.entry(s).or_insert(0) += 1;
            },
            Stop::Viol(k, m) => {
                self.stats.paths += 1;
                self.report(&st, st.model.clone(), k, m);
            },
        }
        self.leave(&st);
    }
    /// the state is gone: update its innermost region
    fn leave(&mut self, st: &State) {
        if let Some(id) = st.regions.last() {
            let r = self.regions.get_mut(id).unwrap();
            r.live -= 1;
            if r.live == 0 {
                self.complete(*id);
            }
        }
    }
    fn sample(&mut self, st: &State) -> Sample {
        let c = cx();
        let model = (0..c.vars.len())
            .map(|i| (c.vars[i].0.clone(), st.model.v.get(i).copied().unwrap_or(0)))
            .collect();
        let obs = st
            .obs
            .iter()
            .map(|(t, v)| {
                (*t, match v {
                    V::C(x) => *x,
                    V::S(e) => c.eval(*e, &st.model),
                    V::X(_) => 0,
                })
            })
            .collect();
        Sample { model, obs, sched: st.sched.clone() }
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.funcs[st.top.f.id as usize].pretty.clone()];
        for f in st.frames.iter().rev() {
            v.push(self.m.funcs[f.f.id as usize].pretty.clone());
        }
        v
    }
    fn report(&mut self, st: &State, model: Rc<Model>, kind: String, msg: String) {
        let c = cx();
        if self.viols.iter().filter(|v| v.kind == kind && v.msg == msg).count() >= 1 {
            return;
        }
        let mv = (0..c.vars.len())
            .map(|i| (c.vars[i].0.clone(), model.v.get(i).copied().unwrap_or(0)))
            .collect();
        let trace = self.trace(st);
        if self.o.verbose {
            eprintln!("VIOL {kind}: {msg}\n   {}", trace.join("\n   "));
        }
        self.viols.push(Viol { kind, msg, model: mv, sched: st.sched.clone(), trace });
        if self.viols.len() >= self.o.max_viol {
            self.stop = true;
        }
    }

    // ------------------------------------------------------------------ merging
    fn complete(&mut self, id: u32) {
        let mut r = self.regions.remove(&id).unwrap();
        let arrived = std::mem::take(&mut r.arrived);
        let mut out: Vec<State> = vec![];
        if r.cancelled {
            out = arrived;
        } else {
            'next: for s in arrived {
                for k in 0..out.len() {
                    if let Some(m) = self.try_merge(&out[k], &s, r.join) {
                        out[k] = m;
                        self.stats.merges += 1;
                        continue 'next;
                    }
                    self.stats.merge_fail += 1;
                }
                out.push(s);
            }
        }
        let k = out.len() as i64;
        for s in &mut out {
            let top = s.regions.pop();
            debug_assert_eq!(top, Some(id));
        }
        if let Some(o) = r.outer {
            let or = self.regions.get_mut(&o).unwrap();
            or.live += k - 1;
            if or.live == 0 {
                self.complete(o);
            }
        }
        self.work.extend(out.into_iter().rev());
    }

    fn try_merge(&mut self, a: &State, b: &State, join: u32) -> Option<State> {
        let c = cx();
        if a.cur != b.cur
            || a.threads.len() != b.threads.len()
            || a.frames.len() != b.frames.len()
            || a.obs.len() != b.obs.len()
            || !same(&a.may_exit, &b.may_exit)
            || a.top.block != b.top.block
            || a.top.ip != b.top.ip
            || a.top.f.id != b.top.f.id
            || a.top.stack != b.top.stack
            || a.nalloc != b.nalloc
            || a.mem.len() != b.mem.len()
            || a.sched != b.sched
            || a.merge != b.merge
            || a.preempts != b.preempts
            || a.pending != b.pending
            || a.rnd != b.rnd
            || a.npoints != b.npoints
            || a.clock != b.clock
            || a.switch_id != b.switch_id
            || a.files.len() != b.files.len()
            || a.fds.len() != b.fds.len()
        {
            return None;
        }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if !Rc::ptr_eq(x, y) {
                return None;
            }
        }
        for (i, (x, y)) in a.threads.iter().zip(b.threads.iter()).enumerate() {
            if x.status != y.status || x.errno != y.errno || x.resumed != y.resumed || x.spins != y.spins || x.tls.len() != y.tls.len() {
                return None;
            }
            if i != a.cur {
                if x.frames.len() != y.frames.len() {
                    return None;
                }
                if !x.frames.iter().zip(y.frames.iter()).all(|(p, q)| Rc::ptr_eq(p, q)) {
                    return None;
                }
                // (equal switch_ids: no switch since the two states parted, so that the
                // suspended threads are in the same place)
            }
        }
        let mut n = 0;
        while n < a.pc.len() && n < b.pc.len() && a.pc[n] == b.pc[n] {
            n += 1;
        }
        let mut ca = c.t;
        for e in &a.pc[n..] {
            ca = c.and(ca, *e);
        }
        let mut cb = c.t;
        for e in &b.pc[n..] {
            cb = c.and(cb, *e);
        }
        // discriminating guard
        let g = if n < a.pc.len() && n < b.pc.len() && c.not(a.pc[n]) == b.pc[n] {
            a.pc[n]
        } else {
            ca
        };
        if c.is_const(g).is_some() {
            return None;
        }
        let either = c.or(ca, cb);
        // registers
        let f = a.top.f;
        let live: Option<&Vec<u64>> =
            if join == ir::EXIT_PD { None } else { Some(&f.live_in[a.top.block as usize]) };
        let mut regs = a.top.regs.clone();
        for i in 0..regs.len() {
            if let Some(l) = live {
                if l[i / 64] >> (i % 64) & 1 == 0 {
                    continue;
                }
            }
            let (x, y) = (&a.top.regs[i], &b.top.regs[i]);
            if same(x, y) {
                continue;
            }
            regs[i] = self.merge_v(g, x, y)?;
        }
        let mut obs = a.obs.clone();
        for i in 0..obs.len() {
            if a.obs[i].0 != b.obs[i].0 {
                return None;
            }
            if !same(&a.obs[i].1, &b.obs[i].1) {
                obs[i].1 = self.merge_v(g, &a.obs[i].1, &b.obs[i].1)?;
            }
        }
        let mut mem = a.mem.clone();
        let mut changed = vec![];
        for (id, oa) in &a.mem {
            let ob = b.mem.get(id)?;
            if Rc::ptr_eq(oa, ob) {
                continue;
            }
            if oa.size != ob.size {
                return None;
            }
            changed.push((*id, self.merge_obj(g, oa, ob)?));
        }
        for (id, o) in changed {
            if let Some(o) = o {
                mem.insert(id, Rc::new(o));
            }
        }
        let mut s = a.clone();
        s.mem = mem;
        s.top.regs = regs;
        s.obs = obs;
        s.pc.truncate(n);
        if c.is_const(either) != Some(1) {
            s.pc.push(either);
        }
        s.ninstr = a.ninstr.max(b.ninstr);
        s.depth = a.depth.max(b.depth);
        s.clock = a.clock.max(b.clock);
        Some(s)
    }
    fn merge_v(&mut self, g: E, x: &V, y: &V) -> Option<V> {
        let c = cx();
        match (x, y) {
            (V::C(p), V::C(q)) => {
                if ptrish(*p) || ptrish(*q) {
                    if p >> 24 != q >> 24 {
                        return None;
                    }
                }
                let w = 64;
                let (kp, kq) = (c.k(*p, w), c.k(*q, w));
                Some(norm(c.ite(g, kp, kq)))
            },
            (V::C(p), V::S(e)) => {
                if ptrish(*p) && c.leaves(*e, 64).is_none_or(|l| l.iter().any(|q| q >> 24 != p >> 24)) {
                    return None;
                }
                let w = c.w(*e);
                let kp = c.k(*p, w);
                Some(norm(c.ite(g, kp, *e)))
            },
            (V::S(e), V::C(p)) => {
                if ptrish(*p) && c.leaves(*e, 64).is_none_or(|l| l.iter().any(|q| q >> 24 != p >> 24)) {
                    return None;
                }
                let w = c.w(*e);
                let kp = c.k(*p, w);
                Some(norm(c.ite(g, *e, kp)))
            },
            (V::S(e), V::S(f)) => {
                // registers hold values at their own width or zero-extended to 64
                let (we, wf) = (c.w(*e), c.w(*f));
                let w = we.max(wf);
                let e2 = c.zext(*e, w);
                let f2 = c.zext(*f, w);
                Some(norm(c.ite(g, e2, f2)))
            },
            (V::X(p), V::X(q)) => match (&**p, &**q) {
                (X::Agg(p), X::Agg(q)) if p.len() == q.len() => {
                    let mut v = vec![];
                    for (i, j) in p.iter().zip(q.iter()) {
                        v.push(if same(i, j) { i.clone() } else { self.merge_v(g, i, j)? });
                    }
                    Some(V::X(Rc::new(X::Agg(v))))
                },
                (X::Wide(p), X::Wide(q)) if p == q => Some(x.clone()),
                _ => None,
            },
            _ => None,
        }
    }
    fn merge_obj(&mut self, g: E, a: &Obj, b: &Obj) -> Option<Option<Obj>> {
        let c = cx();
        let mut words: Vec<u32> = vec![];
        let n = a.size as usize;
        let mut i = 0;
        while i < n {
            let e = (i + 8).min(n);
            if a.data[i..e] != b.data[i..e] {
                words.push((i / 8) as u32);
            }
            i += 8;
        }
        for (o, l, e) in &a.sym {
            if b.sym.binary_search_by(|x| x.0.cmp(o)).is_ok_and(|k| b.sym[k].1 == *l && b.sym[k].2 == *e) {
                continue;
            }
            for k in 0..*l as u32 {
                words.push((o + k) / 8);
            }
        }
        for (o, l, e) in &b.sym {
            if a.sym.binary_search_by(|x| x.0.cmp(o)).is_ok_and(|k| a.sym[k].1 == *l && a.sym[k].2 == *e) {
                continue;
            }
            for k in 0..*l as u32 {
                words.push((o + k) / 8);
            }
        }
        words.sort();
        words.dedup();
        if words.is_empty() {
            return Some(None);
        }
        let mut r = a.clone();
        for w in words {
            let off = w as u64 * 8;
            let len = 8.min(a.size - off);
            // bytes that may differ
            let (mut lo, mut hi) = (None, 0);
            let aligned = |o: &Obj| o.sym.iter().all(|x| {
                x.0 as u64 + x.1 as u64 <= off || x.0 as u64 >= off + len || (x.0 as u64 >= off && x.0 as u64 + x.1 as u64 <= off + len)
            });
            if len == 8 && aligned(a) && aligned(b) {
                let x = a.load(off, 8);
                let y = b.load(off, 8);
                // whole words first
                for k in 0..8 {
                    let p = a.byte((off + k) as u32);
                    let q = b.byte((off + k) as u32);
                    if !same(&p, &q) {
                        if lo.is_none() {
                            lo = Some(k);
                        }
                        hi = k;
                    }
                }
                let Some(l) = lo else { continue };
                if l == hi {
                    let p = a.byte((off + l) as u32);
                    let q = b.byte((off + l) as u32);
                    let p = ev(&p, 8);
                    let q = ev(&q, 8);
                    let e = c.ite(g, p, q);
                    r.store_e(off + l, 1, e);
                } else {
                    let m = self.merge_v(g, &x, &y)?;
                    match m {
                        V::C(k) => r.store_c(off, 8, k),
                        V::S(e) => r.store_e(off, 8, e),
                        _ => return None,
                    }
                }
            } else {
                for k in 0..len {
                    let p = a.byte((off + k) as u32);
                    let q = b.byte((off + k) as u32);
                    if !same(&p, &q) {
                        let p = ev(&p, 8);
                        let q = ev(&q, 8);
                        let e = c.ite(g, p, q);
                        r.store_e(off + k, 1, e);
                    }
                }
            }
        }
        Some(Some(r))
    }

    fn cancel_regions(&mut self, st: &State) {
        for id in &st.regions {
            self.regions.get_mut(id).unwrap().cancelled = true;
        }
    }

    // ------------------------------------------------------------------ deciding
    /// (feasible true, feasible false)
    fn decide(&mut self, st: &mut State, e: E) -> R<(bool, bool, Option<Rc<Model>>)> {
        let c = cx();
        if let Some(k) = c.is_const(e) {
            return Ok((k != 0, k == 0, None));
        }
        let ne = c.not(e);
        for p in st.pc.iter().rev() {
            if *p == e {
                return Ok((true, false, None));
            }
            if *p == ne {
                return Ok((false, true, None));
            }
        }
        let side = c.eval(e, &st.model) != 0;
        let other = if side { ne } else { e };
        match self.sol.check(&st.pc, &[other]) {
            (Res::Sat, m) => Ok((true, true, m)),
            (Res::Unsat, _) => Ok((side, !side, None)),
            _ => Err(Stop::Unsupported("solver returned unknown".into())),
        }
    }
    /// fork off the state in which `e` has the value its model does not give it
    fn fork(&mut self, st: &mut State, e: E, m: Rc<Model>) -> (State, bool) {
        let c = cx();
        let side = c.eval(e, &st.model) != 0;
        let ne = c.not(e);
        let mut o = st.clone();
        o.model = m;
        if side {
            st.pc.push(e);
            o.pc.push(ne);
        } else {
            st.pc.push(ne);
            o.pc.push(e);
        }
        st.depth += 1;
        o.depth += 1;
        self.stats.forks += 1;
        (o, side)
    }
    /// ordinary fork bookkeeping for the regions
    fn push_forked(&mut self, o: State) {
        if let Some(id) = o.regions.last() {
            self.regions.get_mut(id).unwrap().live += 1;
        }
        self.work.push(o);
    }

    /// Branch on a symbolic condition: st follows one side, the other is queued.
    fn sym_branch(&mut self, st: &mut State, e: E, t: u32, f: u32) -> R<()> {
        let (ft, ff, m) = self.decide(st, e)?;
        if !(ft && ff) {
            self.goto(st, if ft { t } else { f })?;
            return Ok(());
        }
        let pd = st.top.f.ipdom[st.top.block as usize];
        let use_region = st.merge && pd != ir::NO_PD;
        if use_region {
            self.open_region(st, pd, 2);
        }
        let (mut o, side) = self.fork(st, e, m.unwrap());
        let (x, y) = if side { (t, f) } else { (f, t) };
        self.goto(&mut o, y)?;
        if use_region {
            self.work.push(o);
        } else {
            self.push_forked(o);
        }
        self.goto(st, x)
    }
    fn open_region(&mut self, st: &mut State, pd: u32, live: i64) {
        let id = self.next_region;
        self.next_region += 1;
        self.regions.insert(id, Region {
            live,
            arrived: vec![],
            depth: st.frames.len(),
            tid: st.cur,
            join: pd,
            cancelled: false,
            outer: st.regions.last().copied(),
            start: st.ninstr,
        });
        st.regions.push(id);
    }

    /// Make a symbolic value concrete by forking over all its feasible values; the instruction
    /// being executed is repeated in the forked states (so it must not have had effects yet).
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        let c = cx();
        loop {
            let v = c.eval(e, &st.model);
            let w = c.w(e);
            let k = c.k(v, w);
            let is = c.eq(e, k);
            let (t, f, m) = self.decide(st, is)?;
            debug_assert!(t);
            if !f {
                return Ok(v);
            }
            let (o, side) = self.fork(st, is, m.unwrap());
            debug_assert!(side);
            self.cancel_regions(st);
            self.push_forked(o);
            return Ok(v);
        }
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => self.concretize(st, *e),
            V::X(_) => Err(Stop::Unsupported("concretize aggregate".into())),
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let fr = &mut st.top;
        let prev = fr.block;
        fr.prev = prev;
        fr.block = b;
        fr.ip = 0;
        st.at_entry = true;
        let blk = &fr.f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let p = &blk.phis[0];
                let o = p.1.iter().find(|x| x.0 == prev).expect("phi edge").1;
                let v = rdf(fr, o, &self.consts);
                fr.regs[p.0 as usize] = v;
            } else {
                let mut tmp: [V; 16] = std::array::from_fn(|_| V::C(0));
                if blk.phis.len() <= 16 {
                    for (i, p) in blk.phis.iter().enumerate() {
                        let o = p.1.iter().find(|x| x.0 == prev).expect("phi edge").1;
                        tmp[i] = rdf(fr, o, &self.consts);
                    }
                    for (i, p) in blk.phis.iter().enumerate() {
                        fr.regs[p.0 as usize] = std::mem::replace(&mut tmp[i], V::C(0));
                    }
                } else {
                    let vs: Vec<V> = blk
                        .phis
                        .iter()
                        .map(|p| {
                            let o = p.1.iter().find(|x| x.0 == prev).expect("phi edge").1;
                            rdf(fr, o, &self.consts)
                        })
                        .collect();
                    for (p, v) in blk.phis.iter().zip(vs) {
                        fr.regs[p.0 as usize] = v;
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind) -> u64 {
        if size >= MAX_OBJ {
            return 0;
        }
        let id = self.next_obj;
        self.next_obj += 1;
        st.mem.insert(id, Rc::new(Obj::new(size, kind)));
        st.nalloc += 1;
        st.live_heap += 1;
        self.cancel_regions(st);
        id << 24
    }
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> R<&'a Rc<Obj>> {
        let id = addr >> 24;
        let off = addr & 0xff_ffff;
        let o = match st.mem.get(&id) {
            Some(o) => o,
            None => {
                if id >= ir::GLOBAL_OBJ0 && id < ir::GLOBAL_OBJ0 + self.globals.len() as u64 {
                    self.globals[(id - ir::GLOBAL_OBJ0) as usize].as_ref().unwrap()
                } else {
                    return Err(Stop::Viol("memory".into(), bad_addr(addr)));
                }
            },
        };
        if off + n > o.size {
            return Err(Stop::Viol("memory".into(), "access out of the bounds of its object".into()));
        }
        Ok(o)
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<&'a mut Obj> {
        let id = addr >> 24;
        let off = addr & 0xff_ffff;
        if !st.mem.contains_key(&id) {
            if id >= ir::GLOBAL_OBJ0 && id < ir::GLOBAL_OBJ0 + self.globals.len() as u64 {
                let g = self.globals[(id - ir::GLOBAL_OBJ0) as usize].clone().unwrap();
                if g.kind == Kind::Const {
                    return Err(Stop::Viol("memory".into(), "write to a constant".into()));
                }
                st.mem.insert(id, g);
            } else {
                return Err(Stop::Viol("memory".into(), bad_addr(addr)));
            }
        }
        let o = Rc::make_mut(st.mem.get_mut(&id).unwrap());
        if off + n > o.size {
            return Err(Stop::Viol("memory".into(), "access out of the bounds of its object".into()));
        }
        Ok(o)
    }
    #[inline]
    fn load_n(&self, st: &State, addr: u64, n: u64) -> R<V> {
        let o = self.obj(st, addr, n)?;
        Ok(o.load(addr & 0xff_ffff, n))
    }
    fn store_n(&self, st: &mut State, addr: u64, n: u64, v: &V) -> R<()> {
        let o = self.obj_mut(st, addr, n)?;
        match v {
            V::C(x) => o.store_c(addr & 0xff_ffff, n, *x),
            V::S(e) => o.store_e(addr & 0xff_ffff, n, *e),
            V::X(_) => return Err(Stop::Unsupported("store agg".into())),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, addr: u64, t: TyId) -> R<V> {
        let ti = self.ti[t as usize];
        if ti.w != 0 {
            let v = self.load_n(st, addr, ti.size as u64)?;
            return Ok(trunc_v(v, ti.w));
        }
        match self.m.get(t) {
            Ty::Int(_) => {
                let lo = self.load_n(st, addr, 8)?;
                let rest = (ti.size as u64 - 8).min(8);
                let hi = self.load_n(st, addr + 8, rest)?;
                // no symbolic 128-bit arithmetic: one path per value (the states of random
                // number generators, after two paths were merged)
                let (l, h) = (self.conc(st, &lo)?, self.conc(st, &hi)?);
                Ok(V::X(Rc::new(X::Wide(l as u128 | (h as u128) << 64))))
            },
            Ty::Vec(n, e) if self.m.bits(e) % 8 != 0 => {
                // packed, least significant bit first
                let w = self.m.bits(e);
                if w > 8 || 8 % w != 0 {
                    return Err(Stop::Unsupported(format!("load of a vector of i{w}")));
                }
                let per = 8 / w;
                let mut v = vec![];
                let mut byte = V::C(0);
                for i in 0..n {
                    if i % per == 0 {
                        byte = self.load_n(st, addr + (i / per) as u64, 1)?;
                    }
                    let sh = i % per * w;
                    v.push(match &byte {
                        V::C(k) => V::C(k >> sh & mask(w)),
                        b => {
                            let b = ev(b, 8);
                            norm(cx().extract(b, sh, w))
                        },
                    });
                }
                Ok(V::X(Rc::new(X::Agg(v))))
            },
            Ty::Vec(n, e) => {
                let s = self.m.bits(e) / 8;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, addr + (i * s) as u64, e)?);
                }
                Ok(V::X(Rc::new(X::Agg(v))))
            },
            Ty::Arr(n, e) => {
                let s = self.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, addr + i * s, e)?);
                }
                Ok(V::X(Rc::new(X::Agg(v))))
            },
            Ty::Struct(f, p) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let o = self.m.field_off(&f, p, i);
                    v.push(self.load_ty(st, addr + o, f[i])?);
                }
                Ok(V::X(Rc::new(X::Agg(v))))
            },
            t => Err(Stop::Unsupported(format!("load {t:?}"))),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, t: TyId, v: &V) -> R<()> {
        let ti = self.ti[t as usize];
        if ti.w != 0 {
            return self.store_n(st, addr, ti.size as u64, v);
        }
        let V::X(x) = v else {
            return Err(Stop::Unsupported("store scalar as aggregate".into()));
        };
        match (self.m.get(t), &**x) {
            (Ty::Int(_), X::Wide(w)) => {
                self.store_n(st, addr, 8, &V::C(*w as u64))?;
                let rest = (ti.size as u64 - 8).min(8);
                self.store_n(st, addr + 8, rest, &V::C((*w >> 64) as u64))
            },
            (Ty::Vec(_, e), X::Agg(v)) => {
                let w = self.m.bits(e);
                if w % 8 != 0 {
                    if w > 8 || 8 % w != 0 {
                        return Err(Stop::Unsupported(format!("store of a vector of i{w}")));
                    }
                    for (i, part) in v.chunks(8 / w as usize).enumerate() {
                        let c = cx();
                        let mut r = c.k(0, 8);
                        for (k, x) in part.iter().enumerate() {
                            let x = ev(x, w);
                            let x = c.zext(x, 8);
                            let sh = c.k(k as u64 * w as u64, 8);
                            let x = c.bin(O::Shl, x, sh);
                            r = c.bin(O::Or, r, x);
                        }
                        self.store_n(st, addr + i as u64, 1, &norm(r))?;
                    }
                    return Ok(());
                }
                let s = w / 8;
                for (i, x) in v.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * s as u64, e, x)?;
                }
                Ok(())
            },
            (Ty::Arr(_, e), X::Agg(v)) => {
                let s = self.m.size(e);
                for (i, x) in v.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * s, e, x)?;
                }
                Ok(())
            },
            (Ty::Struct(f, p), X::Agg(v)) => {
                for (i, x) in v.iter().enumerate() {
                    let o = self.m.field_off(&f, p, i);
                    self.store_ty(st, addr + o, f[i], x)?;
                }
                Ok(())
            },
            (t, _) => Err(Stop::Unsupported(format!("store {t:?}"))),
        }
    }
    /// feasible concrete addresses of a symbolic pointer, each with its guard
    fn resolve(&mut self, st: &mut State, e: E, n: u64) -> R<Vec<(u64, E)>> {
        let c = cx();
        let mut out = vec![];
        if let Some(ls) = c.leaves(e, 512) {
            for a in ls {
                let k = c.k(a, 64);
                let g = c.eq(e, k);
                if self.obj(st, a, n).is_err() {
                    // only an error if this address is feasible
                    match self.sol.check(&st.pc, &[g]) {
                        (Res::Unsat, _) => continue,
                        (Res::Sat, m) => {
                            st.model = m.unwrap();
                            return Err(Stop::Viol("memory".into(), bad_addr(a)));
                        },
                        _ => return Err(Stop::Unsupported("solver returned unknown".into())),
                    }
                }
                out.push((a, g));
            }
            if out.is_empty() {
                return Err(Stop::Infeasible);
            }
            return Ok(out);
        }
        // enumerate the feasible values
        let mut qs: Vec<E> = vec![];
        let mut m = st.model.clone();
        loop {
            let a = c.eval(e, &m);
            let k = c.k(a, 64);
            let g = c.eq(e, k);
            if self.obj(st, a, n).is_err() {
                st.model = m;
                return Err(Stop::Viol("memory".into(), bad_addr(a)));
            }
            out.push((a, g));
            if out.len() > 300 {
                return Err(Stop::Unsupported("symbolic pointer with too many targets".into()));
            }
            let ng = c.not(g);
            qs.push(ng);
            match self.sol.check(&st.pc, &qs) {
                (Res::Sat, mm) => m = mm.unwrap(),
                (Res::Unsat, _) => break,
                _ => return Err(Stop::Unsupported("solver returned unknown".into())),
            }
        }
        Ok(out)
    }
    fn load_sym(&mut self, st: &mut State, e: E, t: TyId) -> R<V> {
        let ti = self.ti[t as usize];
        if ti.w == 0 {
            let a = self.concretize(st, e)?;
            return self.load_ty(st, a, t);
        }
        let c = cx();
        let n = ti.size as u64;
        let rs = self.resolve(st, e, n)?;
        if c.n[e as usize].leafy {
            let mut vals: FxMap<u64, E> = Default::default();
            for (a, _) in &rs {
                let v = self.load_ty(st, *a, t)?;
                vals.insert(*a, ev(&v, ti.w));
            }
            let dflt = vals[&rs[0].0];
            let mut memo = Default::default();
            let r = c.map_leaf_exprs(e, &mut memo, &mut |_, a| vals.get(&a).copied().unwrap_or(dflt));
            return Ok(norm(r));
        }
        let mut r: Option<E> = None;
        for (a, g) in rs.iter().rev() {
            let v = self.load_ty(st, *a, t)?;
            let v = ev(&v, ti.w);
            r = Some(match r {
                None => v,
                Some(p) => c.ite(*g, v, p),
            });
        }
        Ok(norm(r.unwrap()))
    }
    fn store_sym(&mut self, st: &mut State, e: E, t: TyId, v: &V) -> R<()> {
        let ti = self.ti[t as usize];
        if ti.w == 0 {
            let a = self.concretize(st, e)?;
            return self.store_ty(st, a, t, v);
        }
        let c = cx();
        let rs = self.resolve(st, e, ti.size as u64)?;
        let nv = ev(v, ti.w);
        for (a, g) in rs {
            let old = self.load_ty(st, a, t)?;
            let old = ev(&old, ti.w);
            let r = c.ite(g, nv, old);
            self.store_n(st, a, ti.size as u64, &norm(r))?;
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.obj(st, s, n)?;
        let (data, sym) = o.copy_out(s & 0xff_ffff, n);
        let o = self.obj_mut(st, d, n)?;
        o.copy_in(d & 0xff_ffff, &data, &sym);
        Ok(())
    }
    fn cstr(&self, st: &State, addr: u64) -> R<String> {
        let mut s = vec![];
        let mut a = addr;
        loop {
            match self.load_n(st, a, 1)? {
                V::C(0) => break,
                V::C(b) => s.push(b as u8),
                _ => return Err(Stop::Unsupported("symbolic string".into())),
            }
            a += 1;
        }
        Ok(String::from_utf8_lossy(&s).to_string())
    }

    // ------------------------------------------------------------------ interpreter
    #[inline]
    fn rd(&self, st: &State, o: Op) -> V {
        rdf(&st.top, o, &self.consts)
    }

    /// execute up to the end of the current block or a transfer of control
    fn block(&mut self, st: &mut State) -> R<()> {
        let f = st.top.f;
        let code = &f.blocks[st.top.block as usize].code;
        let mut n = 0u64;
        loop {
            let ip = st.top.ip as usize;
            let ins = &code[ip];
            n += 1;
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.top.regs[$d as usize] = v;
                    st.top.ip += 1;
                }};
            }
            match ins {
                I::Bin(op, t, d, a, b) => {
                    let ti = self.ti[*t as usize];
                    let (x, y) = (self.rd(st, *a), self.rd(st, *b));
                    let v = self.bin(*op, ti.w, *t, x, y, st)?;
                    set!(*d, v);
                },
                I::Icmp(p, t, d, a, b) => {
                    let w = self.ti[*t as usize].w;
                    let (x, y) = (self.rd(st, *a), self.rd(st, *b));
                    let v = if let (V::C(x), V::C(y)) = (&x, &y) {
                        V::C(icmp_c(*p, w, *x, *y) as u64)
                    } else {
                        self.icmp(*p, w, *t, x, y)?
                    };
                    set!(*d, v);
                },
                I::Gep(d, base, off, idx) => {
                    let b = self.rd(st, *base);
                    let v = match b {
                        V::C(b) => {
                            let mut a = b.wrapping_add(*off);
                            let mut s: Option<E> = None;
                            for (o, scale, w) in idx.iter() {
                                match self.rd(st, *o) {
                                    V::C(i) =>
                                        a = a.wrapping_add(ir::sext64(i, *w).wrapping_mul(*scale)),
                                    V::S(e) => {
                                        let c = cx();
                                        let e = fit(e, *w);
                                        let e = c.sext(e, 64);
                                        let k = c.k(*scale, 64);
                                        let e = c.bin(O::Mul, e, k);
                                        s = Some(match s {
                                            None => e,
                                            Some(p) => c.bin(O::Add, p, e),
                                        });
                                    },
                                    _ => return Err(Stop::Unsupported("gep idx".into())),
                                }
                            }
                            match s {
                                None => V::C(a),
                                Some(s) => {
                                    let k = cx().k(a, 64);
                                    norm(cx().bin(O::Add, s, k))
                                },
                            }
                        },
                        V::S(mut e) => {
                            let c = cx();
                            e = fit(e, 64);
                            let mut a = *off;
                            for (o, scale, w) in idx.iter() {
                                match self.rd(st, *o) {
                                    V::C(i) =>
                                        a = a.wrapping_add(ir::sext64(i, *w).wrapping_mul(*scale)),
                                    V::S(x) => {
                                        let x = fit(x, *w);
                                        let x = c.sext(x, 64);
                                        let k = c.k(*scale, 64);
                                        let x = c.bin(O::Mul, x, k);
                                        e = c.bin(O::Add, e, x);
                                    },
                                    _ => return Err(Stop::Unsupported("gep idx".into())),
                                }
                            }
                            let k = c.k(a, 64);
                            norm(c.bin(O::Add, e, k))
                        },
                        _ => return Err(Stop::Unsupported("gep base".into())),
                    };
                    set!(*d, v);
                },
                I::Load(d, p, t, atomic) => {
                    if *atomic && st.threads.len() > 1 {
                        st.ninstr += n;
                        n = 0;
                        self.sched_point(st)?;
                    }
                    let v = match self.rd(st, *p) {
                        V::C(a) => self.load_ty(st, a, *t)?,
                        V::S(e) => {
                            let e = fit(e, 64);
                            self.load_sym(st, e, *t)?
                        },
                        _ => return Err(Stop::Unsupported("load ptr".into())),
                    };
                    set!(*d, v);
                },
                I::Store(v, p, t, atomic) => {
                    if *atomic && st.threads.len() > 1 {
                        st.ninstr += n;
                        n = 0;
                        self.sched_point(st)?;
                    }
                    let x = self.rd(st, *v);
                    match self.rd(st, *p) {
                        V::C(a) => self.store_ty(st, a, *t, &x)?,
                        V::S(e) => {
                            let e = fit(e, 64);
                            self.store_sym(st, e, *t, &x)?
                        },
                        _ => return Err(Stop::Unsupported("store ptr".into())),
                    };
                    st.top.ip += 1;
                },
                I::Br(b) => {
                    st.ninstr += n;
                    return self.goto(st, *b);
                },
                I::CondBr(c, a, b) => {
                    st.ninstr += n;
                    return match self.rd(st, *c) {
                        V::C(x) => self.goto(st, if x & 1 != 0 { *a } else { *b }),
                        V::S(e) => {
                            let e = fit(e, 1);
                            self.sym_branch(st, e, *a, *b)
                        },
                        _ => Err(Stop::Unsupported("br".into())),
                    };
                },
                I::Switch(o, w, def, cases) => {
                    st.ninstr += n;
                    return match self.rd(st, *o) {
                        V::C(x) => {
                            let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                            self.goto(st, t)
                        },
                        V::S(e) => {
                            let e = fit(e, *w);
                            self.sym_switch(st, e, *w, *def, cases)
                        },
                        _ => Err(Stop::Unsupported("switch".into())),
                    };
                },
                I::Select(d, t, cnd, a, b, ct) => {
                    let v = match self.rd(st, *cnd) {
                        V::C(x) => self.rd(st, if x & 1 != 0 { *a } else { *b }),
                        V::S(e) => {
                            let e = fit(e, 1);
                            let (x, y) = (self.rd(st, *a), self.rd(st, *b));
                            let w = self.ti[*t as usize].w;
                            if w == 0 {
                                let k = self.concretize(st, e)?;
                                if k != 0 {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let (x, y) = (ev(&x, w), ev(&y, w));
                                norm(cx().ite(e, x, y))
                            }
                        },
                        V::X(x) => {
                            let _ = ct;
                            let X::Agg(cs) = &*x else {
                                return Err(Stop::Unsupported("select".into()));
                            };
                            let (V::X(x), V::X(y)) = (self.rd(st, *a), self.rd(st, *b)) else {
                                return Err(Stop::Unsupported("select".into()));
                            };
                            let (X::Agg(x), X::Agg(y)) = (&*x, &*y) else {
                                return Err(Stop::Unsupported("select".into()));
                            };
                            let mut v = vec![];
                            for i in 0..cs.len() {
                                match &cs[i] {
                                    V::C(k) => v.push(if *k != 0 { x[i].clone() } else { y[i].clone() }),
                                    _ => return Err(Stop::Unsupported("vector select".into())),
                                }
                            }
                            V::X(Rc::new(X::Agg(v)))
                        },
                    };
                    set!(*d, v);
                },
                I::Cast(op, ft, tt, d, a) => {
                    let x = self.rd(st, *a);
                    let v = self.cast(*op, *ft, *tt, x, st)?;
                    set!(*d, v);
                },
                I::Alloca(d, off) => {
                    let a = (st.top.stack << 24) + off;
                    set!(*d, V::C(a));
                },
                I::Call(c) => {
                    st.ninstr += n;
                    n = 0;
                    if self.call(st, c)? {
                        // control transferred (new frame or block)
                        return Ok(());
                    }
                },
                I::Ret(o) => {
                    st.ninstr += n;
                    let v = o.map(|o| self.rd(st, o));
                    return self.ret(st, v);
                },
                I::Unreachable => {
                    st.ninstr += n;
                    return Err(Stop::Viol("unreachable".into(), format!("unreachable code reached in {}", st.top.f.name)));
                },
                I::ExtractValue(d, a, ix) => {
                    let mut v = self.rd(st, *a);
                    for i in ix.iter() {
                        v = match &v {
                            V::X(x) => match &**x {
                                X::Agg(f) => f[*i as usize].clone(),
                                _ => return Err(Stop::Unsupported("extractvalue".into())),
                            },
                            _ => return Err(Stop::Unsupported("extractvalue of scalar".into())),
                        };
                    }
                    set!(*d, v);
                },
                I::InsertValue(d, a, b, ix) => {
                    let v = self.rd(st, *a);
                    let x = self.rd(st, *b);
                    let r = insert(&v, ix, x)?;
                    set!(*d, r);
                },
                I::ExtractElement(d, a, i) => {
                    let v = self.rd(st, *a);
                    let V::C(i) = self.rd(st, *i) else {
                        return Err(Stop::Unsupported("extractelement".into()));
                    };
                    let V::X(x) = v else { return Err(Stop::Unsupported("extractelement".into())) };
                    let X::Agg(f) = &*x else { return Err(Stop::Unsupported("extractelement".into())) };
                    set!(*d, f[i as usize].clone());
                },
                I::InsertElement(d, a, b, i) => {
                    let v = self.rd(st, *a);
                    let x = self.rd(st, *b);
                    let V::C(i) = self.rd(st, *i) else {
                        return Err(Stop::Unsupported("insertelement".into()));
                    };
                    let r = insert(&v, &[i as u32], x)?;
                    set!(*d, r);
                },
                I::Shuffle(d, a, b, ix) => {
                    let (V::X(x), V::X(y)) = (self.rd(st, *a), self.rd(st, *b)) else {
                        return Err(Stop::Unsupported("shuffle".into()));
                    };
                    let (X::Agg(x), X::Agg(y)) = (&*x, &*y) else {
                        return Err(Stop::Unsupported("shuffle".into()));
                    };
                    let v = ix
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < x.len() {
                                x[i].clone()
                            } else {
                                y[i - x.len()].clone()
                            }
                        })
                        .collect();
                    set!(*d, V::X(Rc::new(X::Agg(v))));
                },
                I::Copy(d, a) => {
                    let v = self.rd(st, *a);
                    set!(*d, v);
                },
                I::Nop => st.top.ip += 1,
                I::Rmw(op, d, p, v, t, point) => {
                    if *point && st.threads.len() > 1 {
                        st.ninstr += n;
                        n = 0;
                        self.sched_point(st)?;
                    }
                    let w = self.ti[*t as usize].w;
                    let pa = self.rd(st, *p);
                    let pa = self.conc(st, &pa)?;
                    let old = self.load_ty(st, pa, *t)?;
                    let x = self.rd(st, *v);
                    let nv = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.bin(BinOp::Add, w, *t, old.clone(), x, st)?,
                        RmwOp::Sub => self.bin(BinOp::Sub, w, *t, old.clone(), x, st)?,
                        RmwOp::And => self.bin(BinOp::And, w, *t, old.clone(), x, st)?,
                        RmwOp::Or => self.bin(BinOp::Or, w, *t, old.clone(), x, st)?,
                        RmwOp::Xor => self.bin(BinOp::Xor, w, *t, old.clone(), x, st)?,
                        RmwOp::UMax | RmwOp::UMin => {
                            let (V::C(a), V::C(b)) = (&old, &x) else {
                                return Err(Stop::Unsupported("rmw".into()));
                            };
                            V::C(if *op == RmwOp::UMax { *a.max(b) } else { *a.min(b) })
                        },
                        _ => return Err(Stop::Unsupported("rmw".into())),
                    };
                    self.store_ty(st, pa, *t, &nv)?;
                    set!(*d, old);
                },
                I::CmpXchg(d, p, a, b, t) => {
                    if st.threads.len() > 1 {
                        st.ninstr += n;
                        n = 0;
                        self.sched_point(st)?;
                    }
                    let w = self.ti[*t as usize].w;
                    let pa = self.rd(st, *p);
                    let pa = self.conc(st, &pa)?;
                    let old = self.load_ty(st, pa, *t)?;
                    let cmp = self.rd(st, *a);
                    let new = self.rd(st, *b);
                    let (x, y) = (ev(&old, w), ev(&cmp, w));
                    let e = cx().eq(x, y);
                    let eqv = match cx().is_const(e) {
                        Some(k) => k != 0,
                        None => self.concretize(st, e)? != 0,
                    };
                    if eqv {
                        self.store_ty(st, pa, *t, &new)?;
                    }
                    set!(*d, V::X(Rc::new(X::Agg(vec![old, V::C(eqv as u64)]))));
                },
                I::Fcmp(p, t, d, a, b) => {
                    let (x, y) = (self.rd(st, *a), self.rd(st, *b));
                    if self.ti[*t as usize].w != 64 {
                        return Err(Stop::Unsupported("f32".into()));
                    }
                    let v = fcmp(p, x, y)?;
                    set!(*d, v);
                },
                I::FNeg(t, d, a) => {
                    if self.ti[*t as usize].w != 64 {
                        return Err(Stop::Unsupported("f32".into()));
                    }
                    let x = self.rd(st, *a);
                    let e = ev(&x, 64);
                    set!(*d, norm(cx().f1(fop::NEG, e)));
                },
                I::Unsupported(s) => {
                    return Err(Stop::Unsupported(s.chars().take(60).collect()));
                },
            }
        }
    }

    fn sym_switch(&mut self, st: &mut State, e: E, w: u32, def: u32, cases: &[(u64, u32)]) -> R<()> {
        let c = cx();
        // group the conditions by target
        let mut groups: Vec<(u32, E)> = vec![];
        let mut any = c.f;
        for (k, t) in cases {
            let kk = c.k(*k, w);
            let g = c.eq(e, kk);
            any = c.or(any, g);
            if let Some(x) = groups.iter_mut().find(|x| x.0 == *t) {
                x.1 = c.or(x.1, g);
            } else {
                groups.push((*t, g));
            }
        }
        let nd = c.not(any);
        if let Some(x) = groups.iter_mut().find(|x| x.0 == def) {
            x.1 = c.or(x.1, nd);
        } else {
            groups.push((def, nd));
        }
        let mut feas: Vec<(u32, E, Rc<Model>)> = vec![];
        for (t, g) in &groups {
            if c.is_const(*g) == Some(0) {
                continue;
            }
            if c.eval(*g, &st.model) != 0 {
                feas.push((*t, *g, st.model.clone()));
                continue;
            }
            match self.sol.check(&st.pc, &[*g]) {
                (Res::Sat, m) => feas.push((*t, *g, m.unwrap())),
                (Res::Unsat, _) => {},
                _ => return Err(Stop::Unsupported("solver returned unknown".into())),
            }
        }
        if feas.len() == 1 {
            return self.goto(st, feas[0].0);
        }
        let pd = st.top.f.ipdom[st.top.block as usize];
        let use_region = st.merge && pd != ir::NO_PD;
        if use_region {
            self.open_region(st, pd, feas.len() as i64);
        }
        st.depth += 1;
        for (t, g, m) in feas.iter().skip(1) {
            let mut o = st.clone();
            o.pc.push(*g);
            o.model = m.clone();
            self.stats.forks += 1;
            self.goto(&mut o, *t)?;
            if use_region {
                self.work.push(o);
            } else {
                self.push_forked(o);
            }
        }
        let (t, g, m) = feas[0].clone();
        st.pc.push(g);
        st.model = m;
        self.goto(st, t)
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        if st.top.stack != 0 {
            st.mem.remove(&st.top.stack);
        }
        let d = st.frames.len();
        let Some(p) = st.frames.pop() else {
            // thread finished
            return self.thread_exit(st, v);
        };
        let (ret, normal) = (st.top.ret, st.top.normal);
        st.top = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
        if ret != u32::MAX {
            st.top.regs[ret as usize] = v.unwrap_or(V::C(0));
        }
        if normal != u32::MAX {
            self.goto(st, normal)?;
        } else {
            st.top.ip += 1;
        }
        st.at_ret = d;
        Ok(())
    }

    fn bin(&mut self, op: BinOp, w: u32, t: TyId, x: V, y: V, st: &mut State) -> R<V> {
        if let (V::C(a), V::C(b)) = (&x, &y) {
            let (a, b) = (*a, *b);
            let m = mask(w);
            return Ok(V::C(match op {
                BinOp::Add => a.wrapping_add(b) & m,
                BinOp::Sub => a.wrapping_sub(b) & m,
                BinOp::Mul => a.wrapping_mul(b) & m,
                BinOp::And => a & b,
                BinOp::Or => a | b,
                BinOp::Xor => a ^ b,
                BinOp::Shl => cbin(O::Shl, a, b, w),
                BinOp::LShr => cbin(O::LShr, a, b, w),
                BinOp::AShr => cbin(O::AShr, a, b, w),
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if b == 0 {
                        return Err(Stop::Viol("ub".into(), "division by zero".into()));
                    }
                    let o = match op {
                        BinOp::UDiv => O::UDiv,
                        BinOp::URem => O::URem,
                        BinOp::SDiv => O::SDiv,
                        _ => O::SRem,
                    };
                    cbin(o, a, b, w)
                },
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    if w == 32 {
                        let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        let r = match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        };
                        return Ok(V::C(r.to_bits() as u64));
                    }
                    cf2(fk(op), a, b)
                },
            }));
        }
        if w != 0 {
            let (a, b) = (ev(&x, w), ev(&y, w));
            let c = cx();
            let o = match op {
                BinOp::Add => O::Add,
                BinOp::Sub => O::Sub,
                BinOp::Mul => O::Mul,
                BinOp::UDiv => O::UDiv,
                BinOp::SDiv => O::SDiv,
                BinOp::URem => O::URem,
                BinOp::SRem => O::SRem,
                BinOp::Shl => O::Shl,
                BinOp::LShr => O::LShr,
                BinOp::AShr => O::AShr,
                BinOp::And => O::And,
                BinOp::Or => O::Or,
                BinOp::Xor => O::Xor,
                _ => {
                    if w == 32 {
                        return Err(Stop::Unsupported("symbolic f32".into()));
                    }
                    return Ok(norm(c.f2(fk(op), a, b)));
                },
            };
            if matches!(o, O::UDiv | O::URem | O::SDiv | O::SRem) {
                let z = c.k(0, w);
                let iz = c.eq(b, z);
                let (t, _, _) = self.decide(st, iz)?;
                if t {
                    return Err(Stop::Viol("ub".into(), "division by zero".into()));
                }
            }
            return Ok(norm(c.bin(o, a, b)));
        }
        // wide integers and vectors
        match (&x, &y) {
            (V::X(p), V::X(q)) => match (&**p, &**q) {
                (X::Wide(a), X::Wide(b)) => {
                    let bits = self.m.bits(t);
                    let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                    let r = match op {
                        BinOp::Add => a.wrapping_add(*b),
                        BinOp::Sub => a.wrapping_sub(*b),
                        BinOp::Mul => a.wrapping_mul(*b),
                        BinOp::And => a & b,
                        BinOp::Or => a | b,
                        BinOp::Xor => a ^ b,
                        BinOp::Shl =>
                            if *b >= bits as u128 {
                                0
                            } else {
                                a << b
                            },
                        BinOp::LShr =>
                            if *b >= bits as u128 {
                                0
                            } else {
                                a >> b
                            },
                        BinOp::UDiv if *b != 0 => a / b,
                        BinOp::URem if *b != 0 => a % b,
                        _ => return Err(Stop::Unsupported(format!("wide {op:?}"))),
                    };
                    Ok(V::X(Rc::new(X::Wide(r & m))))
                },
                (X::Agg(a), X::Agg(b)) => {
                    let Ty::Vec(_, et) = self.m.get(t) else {
                        return Err(Stop::Unsupported("bin on aggregate".into()));
                    };
                    let ew = self.ti[et as usize].w;
                    let mut v = vec![];
                    for (i, j) in a.iter().zip(b.iter()) {
                        v.push(self.bin(op, ew, et, i.clone(), j.clone(), st)?);
                    }
                    Ok(V::X(Rc::new(X::Agg(v))))
                },
                _ => Err(Stop::Unsupported("bin".into())),
            },
            _ => Err(Stop::Unsupported("symbolic wide integer".into())),
        }
    }

    fn icmp(&mut self, p: Pred, w: u32, t: TyId, x: V, y: V) -> R<V> {
        let c = cx();
        if w != 0 {
            let (a, b) = (ev(&x, w), ev(&y, w));
            let r = match p {
                Pred::Eq => c.eq(a, b),
                Pred::Ne => c.ne(a, b),
                Pred::Ult => c.bin(O::Ult, a, b),
                Pred::Ule => c.bin(O::Ule, a, b),
                Pred::Ugt => c.bin(O::Ult, b, a),
                Pred::Uge => c.bin(O::Ule, b, a),
                Pred::Slt => c.bin(O::Slt, a, b),
                Pred::Sle => c.bin(O::Sle, a, b),
                Pred::Sgt => c.bin(O::Slt, b, a),
                Pred::Sge => c.bin(O::Sle, b, a),
            };
            return Ok(norm(r));
        }
        match (&x, &y) {
            (V::X(a), V::X(b)) => match (&**a, &**b) {
                (X::Wide(a), X::Wide(b)) => {
                    let bits = self.m.bits(t);
                    let s = |v: u128| ((v << (128 - bits)) as i128) >> (128 - bits);
                    let (sa, sb) = (s(*a), s(*b));
                    Ok(V::C(match p {
                        Pred::Eq => a == b,
                        Pred::Ne => a != b,
                        Pred::Ult => a < b,
                        Pred::Ule => a <= b,
                        Pred::Ugt => a > b,
                        Pred::Uge => a >= b,
                        Pred::Slt => sa < sb,
                        Pred::Sle => sa <= sb,
                        Pred::Sgt => sa > sb,
                        Pred::Sge => sa >= sb,
                    } as u64))
                },
                (X::Agg(a), X::Agg(b)) => {
                    let Ty::Vec(_, et) = self.m.get(t) else {
                        return Err(Stop::Unsupported("icmp on aggregate".into()));
                    };
                    let ew = self.ti[et as usize].w;
                    let mut v = vec![];
                    for (i, j) in a.iter().zip(b.iter()) {
                        v.push(match (i, j) {
                            (V::C(i), V::C(j)) => V::C(icmp_c(p, ew, *i, *j) as u64),
                            _ => self.icmp(p, ew, et, i.clone(), j.clone())?,
                        });
                    }
                    Ok(V::X(Rc::new(X::Agg(v))))
                },
                _ => Err(Stop::Unsupported("icmp".into())),
            },
            _ => Err(Stop::Unsupported("icmp wide".into())),
        }
    }

    fn cast(&mut self, op: CastOp, ft: TyId, tt: TyId, x: V, st: &mut State) -> R<V> {
        let c = cx();
        let (fw, tw) = (self.ti[ft as usize].w, self.ti[tt as usize].w);
        if fw != 0 && tw != 0 {
            return Ok(match op {
                CastOp::Trunc => match x {
                    V::C(k) => V::C(k & mask(tw)),
                    V::S(e) => {
                        let e = fit(e, fw);
                        norm(c.extract(e, 0, tw))
                    },
                    _ => unreachable!(),
                },
                CastOp::Zext => match x {
                    V::C(k) => V::C(k),
                    V::S(e) => {
                        let e = fit(e, fw);
                        norm(c.zext(e, tw))
                    },
                    _ => unreachable!(),
                },
                CastOp::Sext => match x {
                    V::C(k) => V::C(ir::sext64(k, fw) & mask(tw)),
                    V::S(e) => {
                        let e = fit(e, fw);
                        norm(c.sext(e, tw))
                    },
                    _ => unreachable!(),
                },
                CastOp::Bitcast => x,
                CastOp::UiToFp | CastOp::SiToFp => {
                    let e = ev(&x, fw);
                    if tw == 32 {
                        match x {
                            V::C(k) => {
                                let f = if op == CastOp::UiToFp { k as f32 } else { ir::sext64(k, fw) as i64 as f32 };
                                return Ok(V::C(f.to_bits() as u64));
                            },
                            _ => return Err(Stop::Unsupported("f32".into())),
                        }
                    }
                    let e = if op == CastOp::UiToFp { c.zext(e, 64) } else { c.sext(e, 64) };
                    norm(c.f1(if op == CastOp::UiToFp { fop::UITOFP } else { fop::SITOFP }, e))
                },
                CastOp::FpToUi | CastOp::FpToSi => {
                    if fw == 32 {
                        return Err(Stop::Unsupported("f32".into()));
                    }
                    let e = ev(&x, 64);
                    let r = c.f1(if op == CastOp::FpToUi { fop::FPTOUI_SAT } else { fop::FPTOSI_SAT }, e);
                    norm(c.extract(r, 0, tw))
                },
                CastOp::FpExt => match x {
                    V::C(k) => V::C((f32::from_bits(k as u32) as f64).to_bits()),
                    _ => return Err(Stop::Unsupported("f32".into())),
                },
                CastOp::FpTrunc => match x {
                    V::C(k) => V::C((f64::from_bits(k) as f32).to_bits() as u64),
                    _ => return Err(Stop::Unsupported("f32".into())),
                },
            });
        }
        // involving wide integers or vectors
        let (fty, tty) = (self.m.get(ft), self.m.get(tt));
        match (&fty, &tty, op) {
            (Ty::Int(_), Ty::Int(n), CastOp::Zext | CastOp::Sext) if *n > 64 => {
                let bits = *n;
                let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                match &x {
                    V::C(k) => {
                        let v = if op == CastOp::Zext { *k as u128 } else { ir::sext64(*k, fw) as i64 as i128 as u128 };
                        Ok(V::X(Rc::new(X::Wide(v & m))))
                    },
                    V::X(w) => match &**w {
                        X::Wide(k) if op == CastOp::Zext => Ok(V::X(Rc::new(X::Wide(*k)))),
                        _ => Err(Stop::Unsupported("wide sext".into())),
                    },
                    V::S(_) => {
                        let k = self.conc(st, &x)?;
                        let v = if op == CastOp::Zext { k as u128 } else { ir::sext64(k, fw) as i64 as i128 as u128 };
                        Ok(V::X(Rc::new(X::Wide(v & m))))
                    },
                }
            },
            (Ty::Int(_), Ty::Int(n), CastOp::Trunc) => match &x {
                V::X(w) => match &**w {
                    X::Wide(k) => {
                        if *n <= 64 {
                            Ok(V::C(*k as u64 & mask(*n)))
                        } else {
                            let m = if *n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                            Ok(V::X(Rc::new(X::Wide(k & m))))
                        }
                    },
                    _ => Err(Stop::Unsupported("trunc".into())),
                },
                _ => Err(Stop::Unsupported("trunc".into())),
            },
            (Ty::Vec(_, fe), Ty::Vec(_, te), CastOp::Zext | CastOp::Sext | CastOp::Trunc) => {
                let V::X(w) = &x else { return Err(Stop::Unsupported("vcast".into())) };
                let X::Agg(v) = &**w else { return Err(Stop::Unsupported("vcast".into())) };
                let mut r = vec![];
                for e in v {
                    r.push(self.cast(op, *fe, *te, e.clone(), st)?);
                }
                Ok(V::X(Rc::new(X::Agg(r))))
            },
            (_, _, CastOp::Bitcast) => self.bitcast(&fty, &tty, ft, tt, x),
            _ => Err(Stop::Unsupported(format!("cast {op:?} {fty:?} {tty:?}"))),
        }
    }
    fn bitcast(&mut self, fty: &Ty, tty: &Ty, ft: TyId, tt: TyId, x: V) -> R<V> {
        let bits = self.m.bits(ft);
        debug_assert_eq!(bits, self.m.bits(tt));
        // to a list of (value, width), least significant first
        let mut parts: Vec<(V, u32)> = vec![];
        match (fty, &x) {
            (Ty::Vec(_, e), V::X(a)) => {
                let w = self.ti[*e as usize].w;
                let X::Agg(v) = &**a else { return Err(Stop::Unsupported("bitcast".into())) };
                for i in v {
                    parts.push((i.clone(), w));
                }
            },
            (_, V::X(a)) => match &**a {
                X::Wide(k) => {
                    parts.push((V::C(*k as u64), 64));
                    parts.push((V::C((*k >> 64) as u64), bits - 64));
                },
                _ => return Err(Stop::Unsupported("bitcast".into())),
            },
            (_, v) => parts.push((v.clone(), bits)),
        }
        let all_c = parts.iter().all(|p| matches!(p.0, V::C(_)));
        let (tn, tw) = match tty {
            Ty::Vec(n, e) => (*n, self.ti[*e as usize].w),
            _ => (1, bits),
        };
        if all_c {
            let mut k: u128 = 0;
            let mut sh = 0;
            for (v, w) in &parts {
                let V::C(v) = v else { unreachable!() };
                k |= ((*v & mask(*w)) as u128) << sh;
                sh += w;
            }
            if let Ty::Vec(..) = tty {
                let v = (0..tn).map(|i| V::C((k >> (i * tw)) as u64 & mask(tw))).collect();
                return Ok(V::X(Rc::new(X::Agg(v))));
            }
            if tw > 64 {
                return Ok(V::X(Rc::new(X::Wide(k))));
            }
            return Ok(V::C(k as u64));
        }
        if tn == 1 && tw <= 64 {
            let c = cx();
            let mut r = c.k(0, tw);
            let mut sh = 0;
            for (v, w) in &parts {
                let e = ev(v, *w);
                let e = c.zext(e, tw);
                let s = c.k(sh, tw);
                let e = c.bin(O::Shl, e, s);
                r = c.bin(O::Or, r, e);
                sh += *w as u64;
            }
            return Ok(norm(r));
        }
        if let (Ty::Vec(_, _), true) = (tty, parts.iter().all(|p| p.1 % tw == 0)) {
            let c = cx();
            let mut out = vec![];
            for (v, w) in &parts {
                let e = ev(v, *w);
                for i in 0..w / tw {
                    out.push(norm(c.extract(e, i * tw, tw)));
                }
            }
            return Ok(V::X(Rc::new(X::Agg(out))));
        }
        Err(Stop::Unsupported("symbolic bitcast".into()))
    }

    // ------------------------------------------------------------------ calls
    /// returns true if control was transferred
    fn call(&mut self, st: &mut State, c: &'static ir::CallI) -> R<bool> {
        let id = match c.callee {
            Callee::Direct(i) => i,
            Callee::Indirect(o) => {
                let v = self.rd(st, o);
                let a = self.conc(st, &v)?;
                if a & 0xff_ffff != 0 || a >> 24 < ir::FUNC_OBJ0 || a >> 24 >= ir::FUNC_OBJ0 + self.m.funcs.len() as u64 {
                    return Err(Stop::Viol("memory".into(), "call through an invalid function pointer".into()));
                }
                (a >> 24) as u32 - ir::FUNC_OBJ0 as u32
            },
        };
        let x = self.ext[id as usize];
        if x != Ext::None {
            let v = self.external(st, x, id, c)?;
            if c.d != u32::MAX {
                st.top.regs[c.d as usize] = v;
            }
            if c.normal != u32::MAX {
                self.goto(st, c.normal)?;
                return Ok(true);
            }
            st.top.ip += 1;
            return Ok(st.at_entry);
        }
        let Some(f) = self.fnc(id) else {
            return Err(Stop::Unsupported(format!("external {}", self.m.funcs[id as usize].name)));
        };
        if st.frames.len() > 2000 {
            return Err(Stop::Viol("stack".into(), "call depth exceeds 2000".into()));
        }
        let mut nf = self.new_frame(st, f, c.d, c.normal);
        for (i, p) in f.params.iter().enumerate() {
            if let Some(a) = c.args.get(i) {
                nf.regs[*p as usize] = self.rd(st, a.1);
            }
        }
        let old = std::mem::replace(&mut st.top, nf);
        st.frames.push(Rc::new(old));
        Ok(true)
    }

    fn arg(&self, st: &State, c: &ir::CallI, i: usize) -> V {
        self.rd(st, c.args[i].1)
    }
    fn argc(&mut self, st: &mut State, c: &ir::CallI, i: usize) -> R<u64> {
        let v = self.arg(st, c, i);
        self.conc(st, &v)
    }
    fn argw(&self, c: &ir::CallI, i: usize) -> u32 {
        self.ti[c.args[i].0 as usize].w
    }
    fn arge(&self, st: &State, c: &ir::CallI, i: usize) -> E {
        let w = self.argw(c, i);
        ev(&self.arg(st, c, i), w)
    }

    fn external(&mut self, st: &mut State, x: Ext, id: u32, c: &'static ir::CallI) -> R<V> {
        let cxx = cx();
        Ok(match x {
            Ext::None => unreachable!(),
            Ext::Bits => {
                let (t, i, w) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let e = cxx.var(&format!("{t}_{i}"), w as u32);
                norm(cxx.zext(e, 64))
            },
            Ext::Assume => {
                match self.arg(st, c, 0) {
                    V::C(0) => return Err(Stop::Infeasible),
                    V::C(_) => {},
                    V::S(e) => {
                        let e = nz(fit(e, 64));
                        if let Some(k) = cxx.is_const(e) {
                            if k == 0 {
                                return Err(Stop::Infeasible);
                            }
                        } else {
                            if cxx.eval(e, &st.model) == 0 {
                                match self.sol.check(&st.pc, &[e]) {
                                    (Res::Sat, m) => st.model = m.unwrap(),
                                    (Res::Unsat, _) => return Err(Stop::Infeasible),
                                    _ => return Err(Stop::Unsupported("solver returned unknown".into())),
                                }
                            }
                            st.pc.push(e);
                        }
                    },
                    _ => unreachable!(),
                }
                V::C(0)
            },
            Ext::Assert => {
                let aid = self.argc(st, c, 1)?;
                self.stats.asserts += 1;
                *self.stats.asserts_by.entry(aid).or_insert(0) += 1;
                let v = self.arg(st, c, 0);
                self.must(st, v, format!("assert:{aid}"), "assertion does not hold")?;
                V::C(0)
            },
            Ext::MayExit => {
                st.may_exit = self.arg(st, c, 0);
                V::C(0)
            },
            Ext::Exit => {
                let code = self.argc(st, c, 0)?;
                st.obs.push((99, V::C(code & 0xff)));
                let v = st.may_exit.clone();
                self.must(st, v, "exit".into(), "the process exits")?;
                return Err(Stop::Done);
            },
            Ext::Args => {
                let (n, v) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                for (name, x) in [("3imp4ARGC", n), ("3imp4ARGV", v)] {
                    let g = self.m.globals.iter().position(|g| g.name.split('.').next().unwrap().ends_with(name));
                    let Some(g) = g else { return Err(Stop::Unsupported("no arguments".into())) };
                    self.store_n(st, ir::global_addr(g as u32), 8, &V::C(x))?;
                }
                V::C(0)
            },
            Ext::Reach => {
                let k = self.argc(st, c, 0)?;
                *self.stats.reach.entry(k).or_insert(0) += 1;
                V::C(0)
            },
            Ext::Param => {
                let k = self.argc(st, c, 0)?;
                V::C(self.o.params.get(k as usize).copied().unwrap_or(0))
            },
            Ext::Out => {
                let k = self.argc(st, c, 0)?;
                let v = self.arg(st, c, 1);
                st.obs.push((k, v));
                V::C(0)
            },
            Ext::OutF => {
                let k = self.argc(st, c, 0)?;
                let v = self.arg(st, c, 1);
                st.obs.push((k, v));
                V::C(0)
            },
            Ext::Concretize => V::C(self.argc(st, c, 0)?),
            Ext::Merge => {
                let k = self.argc(st, c, 0)?;
                st.merge = k != 0;
                V::C(0)
            },
            Ext::Heap => V::C(st.live_heap as u64),
            Ext::IteF => {
                let e = self.arge(st, c, 0);
                let e = nz(e);
                let (a, b) = (self.arge(st, c, 1), self.arge(st, c, 2));
                norm(cxx.ite(e, a, b))
            },
            Ext::Spawn => {
                let (f, d) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                let t = self.spawn(st, f, d)?;
                st.threads[t].pool = true;
                V::C(t as u64)
            },
            Ext::JoinPool => {
                if st.threads.iter().any(|t| t.pool && t.status != Status::Done) {
                    self.block_on(st, Status::JoinPool, c)?;
                }
                V::C(0)
            },
            Ext::JoinAll => {
                if st.threads.iter().enumerate().any(|(i, t)| i != st.cur && t.status != Status::Done) {
                    self.block_on(st, Status::JoinAll, c)?;
                }
                V::C(0)
            },
            Ext::Yield => {
                self.sched_point(st)?;
                V::C(0)
            },
            Ext::Malloc => {
                let n = self.argc(st, c, 0)?;
                V::C(self.alloc(st, n, Kind::Heap))
            },
            Ext::Calloc => {
                let (a, b) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                V::C(self.alloc(st, a.saturating_mul(b), Kind::Heap))
            },
            Ext::Realloc => {
                let (p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                if p == 0 {
                    V::C(self.alloc(st, n, Kind::Heap))
                } else {
                    let old = self.obj(st, p, 0)?.clone();
                    if p & 0xff_ffff != 0 || old.kind != Kind::Heap {
                        return Err(Stop::Viol("memory".into(), "realloc of a non-heap pointer".into()));
                    }
                    let q = self.alloc(st, n, Kind::Heap);
                    if q != 0 {
                        let k = old.size.min(n);
                        let (d, s) = old.copy_out(0, k);
                        let o = self.obj_mut(st, q, k)?;
                        o.copy_in(0, &d, &s);
                        st.mem.remove(&(p >> 24));
                        st.live_heap -= 1;
                    }
                    V::C(q)
                }
            },
            Ext::Free => {
                let p = self.argc(st, c, 0)?;
                if p != 0 {
                    let ok = p & 0xff_ffff == 0
                        && st.mem.get(&(p >> 24)).is_some_and(|o| o.kind == Kind::Heap);
                    if !ok {
                        return Err(Stop::Viol("memory".into(), "free of an invalid pointer".into()));
                    }
                    st.mem.remove(&(p >> 24));
                    st.live_heap -= 1;
                    self.cancel_regions(st);
                }
                V::C(0)
            },
            Ext::MemAlign => {
                let (p, _a, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let q = self.alloc(st, n, Kind::Heap);
                if q == 0 {
                    V::C(12)
                } else {
                    self.store_n(st, p, 8, &V::C(q))?;
                    V::C(0)
                }
            },
            Ext::Memcmp => {
                let (p, q, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let mut r: Option<E> = None;
                let mut acc: Vec<(E, E)> = vec![];
                let mut done = V::C(0);
                let mut sym = false;
                for i in 0..n {
                    let a = self.load_n(st, p + i, 1)?;
                    let b = self.load_n(st, q + i, 1)?;
                    if let (V::C(x), V::C(y)) = (&a, &b) {
                        if x != y {
                            let v = if x < y { u32::MAX as u64 } else { 1 };
                            if !sym {
                                done = V::C(v);
                            } else {
                                let k = cxx.k(v, 32);
                                r = Some(k);
                            }
                            break;
                        }
                    } else {
                        sym = true;
                        acc.push((ev(&a, 8), ev(&b, 8)));
                    }
                }
                if !sym {
                    done
                } else {
                    let mut e = match r {
                        Some(e) => e,
                        None => cxx.k(0, 32),
                    };
                    for (a, b) in acc.into_iter().rev() {
                        let lt = cxx.bin(O::Ult, a, b);
                        let eq = cxx.eq(a, b);
                        let m = cxx.k(u32::MAX as u64, 32);
                        let o = cxx.k(1, 32);
                        let d = cxx.ite(lt, m, o);
                        e = cxx.ite(eq, e, d);
                    }
                    norm(e)
                }
            },
            Ext::Strlen => {
                let a = self.argc(st, c, 0)?;
                let mut n = 0;
                loop {
                    let b = match self.load_n(st, a + n, 1)? {
                        V::S(e) => self.conc(st, &norm(cxx.zext(nz(e), 64)))?,
                        b => self.conc(st, &b)?,
                    };
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                V::C(n)
            },
            Ext::Memcpy => {
                let (d, s, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                self.memcpy(st, d, s, n)?;
                V::C(d)
            },
            Ext::Memset => {
                let (d, n) = (self.argc(st, c, 0)?, self.argc(st, c, 2)?);
                let b = self.arg(st, c, 1);
                if n > 0 {
                    match b {
                        V::C(b) => {
                            let o = self.obj_mut(st, d, n)?;
                            let v = vec![b as u8; n as usize];
                            o.copy_in(d & 0xff_ffff, &v, &[]);
                        },
                        b =>
                            for i in 0..n {
                                self.store_n(st, d + i, 1, &b)?;
                            },
                    }
                }
                V::C(d)
            },
            Ext::Abort => return Err(Stop::Viol("abort".into(), "process abort".into())),
            Ext::Trap => return Err(Stop::Viol("abort".into(), "trap".into())),
            Ext::Panic => {
                let msg = self.panic_msg(st, c, id);
                return Err(Stop::Viol("panic".into(), msg));
            },
            Ext::Nop0 | Ext::Ignore | Ext::Expect => {
                if x == Ext::Expect {
                    self.arg(st, c, 0)
                } else {
                    V::C(0)
                }
            },
            Ext::IsConst0 => V::C(0),
            Ext::Errno => {
                // one cell per thread
                let key = u32::MAX;
                let a = match st.threads[st.cur].tls.get(&key) {
                    Some(a) => *a,
                    None => {
                        let id = self.next_obj;
                        self.next_obj += 1;
                        st.mem.insert(id, Rc::new(Obj::new(8, Kind::Global)));
                        let cur = st.cur;
                        st.threads[cur].tls.insert(key, id << 24);
                        id << 24
                    },
                };
                let e = st.threads[st.cur].errno;
                self.store_n(st, a, 4, &V::C(e))?;
                V::C(a)
            },
            Ext::Getrandom => {
                let (p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                self.fill_random(st, p, n)?;
                V::C(n)
            },
            Ext::Syscall => self.syscall(st, c)?,
            Ext::Nanosleep => {
                let (abs, tp) = (self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let (V::C(s), V::C(ns)) = (self.load_n(st, tp, 8)?, self.load_n(st, tp + 8, 8)?) else {
                    return Err(Stop::Unsupported("symbolic sleep".into()));
                };
                let mut d = s.saturating_mul(1_000_000_000).saturating_add(ns);
                if abs & 1 == 0 {
                    d = d.saturating_add(st.clock);
                }
                if d > st.clock {
                    self.block_on(st, Status::Futex(SLEEP, Some(d)), c)?;
                }
                V::C(0)
            },
            Ext::ClockGettime => {
                let p = self.argc(st, c, 1)?;
                let t = st.clock;
                self.store_n(st, p, 8, &V::C(t / 1_000_000_000))?;
                self.store_n(st, p + 8, 8, &V::C(t % 1_000_000_000))?;
                V::C(0)
            },
            Ext::PthreadCreate => {
                let (p, f, d) = (self.argc(st, c, 0)?, self.argc(st, c, 2)?, self.argc(st, c, 3)?);
                let t = self.spawn(st, f, d)?;
                self.store_n(st, p, 8, &V::C(t as u64))?;
                if self.o.spawn_first {
                    st.pending = Some(t);
                }
                V::C(0)
            },
            Ext::PthreadJoin => {
                let t = self.argc(st, c, 0)? as usize;
                if t >= st.threads.len() {
                    return Err(Stop::Unsupported("join of unknown thread".into()));
                }
                if st.threads[t].status != Status::Done {
                    self.block_on(st, Status::Join(t), c)?;
                }
                V::C(0)
            },
            Ext::KeyCreate => {
                // destructors are not run
                let p = self.argc(st, c, 0)?;
                let k = st.threads[0].tls.get(&(u32::MAX - 1)).copied().unwrap_or(0) + 1;
                st.threads[0].tls.insert(u32::MAX - 1, k);
                self.store_n(st, p, 4, &V::C(k))?;
                self.cancel_regions(st);
                V::C(0)
            },
            Ext::SetSpecific => {
                let (k, v) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                let cur = st.cur;
                st.threads[cur].tls.insert(1 << 31 | k as u32, v);
                self.cancel_regions(st);
                V::C(0)
            },
            Ext::GetSpecific => {
                let k = self.argc(st, c, 0)?;
                V::C(st.threads[st.cur].tls.get(&(1 << 31 | k as u32)).copied().unwrap_or(0))
            },
            ext @ (Ext::SchedYield | Ext::Pause) => {
                let cur = st.cur;
                if st.threads.len() > 1 {
                    let pause = matches!(ext, Ext::Pause);
                    if !st.threads[cur].resumed {
                        st.threads[cur].spins += if pause { 1 } else { 60 };
                    }
                    if !pause || st.threads[cur].spins > SPINS || st.threads[cur].resumed {
                        self.sched_point(st)?;
                    }
                }
                V::C(0)
            },
            Ext::ThreadLocal => {
                let a = self.argc(st, c, 0)?;
                let g = (a >> 24) as u32 - ir::GLOBAL_OBJ0 as u32;
                let cur = st.cur;
                match st.threads[cur].tls.get(&g) {
                    Some(a) => V::C(*a),
                    None => {
                        let base = self.globals[g as usize].as_ref().unwrap();
                        let mut o = (**base).clone();
                        o.kind = Kind::Global;
                        let id = self.next_obj;
                        self.next_obj += 1;
                        st.mem.insert(id, Rc::new(o));
                        st.threads[cur].tls.insert(g, id << 24);
                        // the set of objects changes: keep merges away from it
                        self.cancel_regions(st);
                        V::C(id << 24)
                    },
                }
            },
            Ext::MinMax(k) => {
                let w = self.argw(c, 0);
                if w == 0 {
                    return Err(Stop::Unsupported("vector min/max".into()));
                }
                let (a, b) = (self.arge(st, c, 0), self.arge(st, c, 1));
                let cond = match k {
                    0 => cxx.bin(O::Ult, a, b), // umin
                    1 => cxx.bin(O::Ult, b, a), // umax
                    2 => cxx.bin(O::Slt, a, b),
                    _ => cxx.bin(O::Slt, b, a),
                };
                norm(cxx.ite(cond, a, b))
            },
            Ext::SatOp(k) => {
                let w = self.argw(c, 0);
                if w == 0 {
                    return Err(Stop::Unsupported("vector sat".into()));
                }
                let (a, b) = (self.arge(st, c, 0), self.arge(st, c, 1));
                match k {
                    0 => {
                        // usub.sat
                        let lt = cxx.bin(O::Ult, a, b);
                        let z = cxx.k(0, w);
                        let s = cxx.bin(O::Sub, a, b);
                        norm(cxx.ite(lt, z, s))
                    },
                    1 => {
                        let s = cxx.bin(O::Add, a, b);
                        let lt = cxx.bin(O::Ult, s, a);
                        let m = cxx.k(mask(w), w);
                        norm(cxx.ite(lt, m, s))
                    },
                    _ => return Err(Stop::Unsupported("signed saturating".into())),
                }
            },
            Ext::WithOv(k) => {
                let w = self.argw(c, 0);
                if w == 0 {
                    return Err(Stop::Unsupported("wide with.overflow".into()));
                }
                let (a, b) = (self.arge(st, c, 0), self.arge(st, c, 1));
                let (r, o) = match k {
                    0 => {
                        let s = cxx.bin(O::Add, a, b);
                        let o = cxx.bin(O::Ult, s, a);
                        // intervals may settle it
                        let (x, y) = (cxx.n[a as usize], cxx.n[b as usize]);
                        let o = if x.hi.checked_add(y.hi).is_some_and(|t| t <= mask(w)) { cxx.f } else { o };
                        (s, o)
                    },
                    1 => {
                        let s = cxx.bin(O::Sub, a, b);
                        let o = cxx.bin(O::Ult, a, b);
                        (s, o)
                    },
                    2 => {
                        let (x, y) = (cxx.n[a as usize], cxx.n[b as usize]);
                        let s = cxx.bin(O::Mul, a, b);
                        if let (Some(p), Some(q)) = (cxx.is_const(a), cxx.is_const(b)) {
                            let o = (p as u128 * q as u128) > mask(w) as u128;
                            (s, cxx.b(o))
                        } else if x.hi.checked_mul(y.hi).is_some_and(|t| t <= mask(w)) {
                            (s, cxx.f)
                        } else if let Some(q) = cxx.is_const(b).or(cxx.is_const(a)) {
                            let v = if cxx.is_const(b).is_some() { a } else { b };
                            if q == 0 {
                                (s, cxx.f)
                            } else {
                                let lim = cxx.k(mask(w) / q, w);
                                (s, cxx.bin(O::Ult, lim, v))
                            }
                        } else {
                            return Err(Stop::Unsupported("symbolic umul.with.overflow".into()));
                        }
                    },
                    3 => {
                        // sadd
                        let s = cxx.bin(O::Add, a, b);
                        let z = cxx.k(0, w);
                        let (an, bn, sn) = (cxx.bin(O::Slt, a, z), cxx.bin(O::Slt, b, z), cxx.bin(O::Slt, s, z));
                        let same = cxx.eq(an, bn);
                        let diff = cxx.bin(O::Xor, an, sn);
                        (s, cxx.and(same, diff))
                    },
                    4 => {
                        let s = cxx.bin(O::Sub, a, b);
                        let z = cxx.k(0, w);
                        let (an, bn, sn) = (cxx.bin(O::Slt, a, z), cxx.bin(O::Slt, b, z), cxx.bin(O::Slt, s, z));
                        let same = cxx.bin(O::Xor, an, bn);
                        let diff = cxx.bin(O::Xor, an, sn);
                        (s, cxx.and(same, diff))
                    },
                    _ => {
                        let (Some(p), Some(q)) = (cxx.is_const(a), cxx.is_const(b)) else {
                            return Err(Stop::Unsupported("symbolic smul.with.overflow".into()));
                        };
                        let t = sx(p, w) as i128 * sx(q, w) as i128;
                        let r = (t as u64) & mask(w);
                        let o = sx(r, w) as i128 != t;
                        (cxx.k(r, w), cxx.b(o))
                    },
                };
                V::X(Rc::new(X::Agg(vec![norm(r), norm(o)])))
            },
            Ext::Ctpop => {
                let w = self.argw(c, 0);
                match self.arg(st, c, 0) {
                    V::C(k) => V::C(k.count_ones() as u64),
                    V::S(e) => {
                        let e = fit(e, w);
                        let mut r = cxx.k(0, w);
                        for i in 0..w {
                            let b = cxx.extract(e, i, 1);
                            let b = bit(b);
                            let z = cxx.zext(b, w);
                            r = cxx.bin(O::Add, r, z);
                        }
                        norm(r)
                    },
                    _ => return Err(Stop::Unsupported("ctpop".into())),
                }
            },
            Ext::Ctlz | Ext::Cttz => {
                let w = self.argw(c, 0);
                match self.arg(st, c, 0) {
                    V::C(k) => V::C(if x == Ext::Ctlz {
                        if k == 0 {
                            w as u64
                        } else {
                            (k.leading_zeros() - (64 - w)) as u64
                        }
                    } else if k == 0 {
                        w as u64
                    } else {
                        k.trailing_zeros() as u64
                    }),
                    V::S(e) => {
                        let e = fit(e, w);
                        let mut r = cxx.k(w as u64, w);
                        for j in 0..w {
                            // the last assignment wins
                            let i = if x == Ext::Ctlz { j } else { w - 1 - j };
                            let b = cxx.extract(e, i, 1);
                            let b = bit(b);
                            let k = cxx.k(if x == Ext::Ctlz { w - 1 - i } else { i } as u64, w);
                            r = cxx.ite(b, k, r);
                        }
                        norm(r)
                    },
                    _ => return Err(Stop::Unsupported("ctlz".into())),
                }
            },
            Ext::Bswap => {
                let w = self.argw(c, 0);
                let V::C(k) = self.arg(st, c, 0) else {
                    return Err(Stop::Unsupported("symbolic bswap".into()));
                };
                V::C(k.swap_bytes() >> (64 - w))
            },
            Ext::Bitrev => {
                let w = self.argw(c, 0);
                let V::C(k) = self.arg(st, c, 0) else {
                    return Err(Stop::Unsupported("symbolic bitreverse".into()));
                };
                V::C(k.reverse_bits() >> (64 - w))
            },
            Ext::Fsh(left) => {
                let w = self.argw(c, 0);
                if w == 0 {
                    return Err(Stop::Unsupported("wide funnel shift".into()));
                }
                let s = self.argc(st, c, 2)? % w as u64;
                let (a, b) = (self.arge(st, c, 0), self.arge(st, c, 1));
                if s == 0 {
                    norm(if left { a } else { b })
                } else {
                    let (ls, rs) = if left { (s, w as u64 - s) } else { (w as u64 - s, s) };
                    let kl = cxx.k(ls, w);
                    let kr = cxx.k(rs, w);
                    let x = cxx.bin(O::Shl, a, kl);
                    let y = cxx.bin(O::LShr, b, kr);
                    norm(cxx.bin(O::Or, x, y))
                }
            },
            Ext::Abs => {
                let w = self.argw(c, 0);
                let a = self.arge(st, c, 0);
                let z = cxx.k(0, w);
                let neg = cxx.bin(O::Slt, a, z);
                let m = cxx.bin(O::Sub, z, a);
                norm(cxx.ite(neg, m, a))
            },
            Ext::Cmp3(signed) => {
                let (a, b) = (self.arge(st, c, 0), self.arge(st, c, 1));
                let rw = self.ti[c.rty as usize].w;
                let lt = cxx.bin(if signed { O::Slt } else { O::Ult }, a, b);
                let eq = cxx.eq(a, b);
                let (m, z, o) = (cxx.k(u64::MAX, rw), cxx.k(0, rw), cxx.k(1, rw));
                let r = cxx.ite(eq, z, o);
                norm(cxx.ite(lt, m, r))
            },
            Ext::LoadRel => {
                let (p, o) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                match self.m.relative.get(&p.wrapping_add(o)) {
                    Some(d) => V::C(p.wrapping_add(*d)),
                    None => return Err(Stop::Unsupported("load.relative".into())),
                }
            },
            Ext::PtrMask => {
                let (a, b) = (self.arge(st, c, 0), self.arge(st, c, 1));
                norm(cxx.bin(O::And, a, b))
            },
            Ext::Fun1(k) => {
                let a = self.arge(st, c, 0);
                norm(cxx.f1(k, a))
            },
            Ext::Fun2(k) => {
                let a = self.arge(st, c, 0);
                let b = self.arge(st, c, 1);
                if k == fop::POWI {
                    // keep the exponent as a 64 bit operand; small constant exponents multiply out
                    // exactly as compiler-rt's __powidf2 does
                    let e = cxx.sext(b, 64);
                    match cxx.is_const(e) {
                        Some(n) => norm(powi(a, n as i64)),
                        None => norm(cxx.f2(fop::POWI, a, e)),
                    }
                } else {
                    norm(cxx.f2(k, a, b))
                }
            },
            Ext::FmulAdd => {
                let (a, b, d) = (self.arge(st, c, 0), self.arge(st, c, 1), self.arge(st, c, 2));
                let m = cxx.f2(fop::MUL, a, b);
                norm(cxx.f2(fop::ADD, m, d))
            },
            Ext::FpToIntSat(u) => {
                let a = self.arge(st, c, 0);
                let rw = self.ti[c.rty as usize].w;
                let r = cxx.f1(if u { fop::FPTOUI_SAT } else { fop::FPTOSI_SAT }, a);
                if rw != 64 {
                    return Err(Stop::Unsupported("narrow fptoint.sat".into()));
                }
                norm(r)
            },
            Ext::Getenv => V::C(0),
            Ext::Open | Ext::Read | Ext::Write | Ext::Close | Ext::Fstat | Ext::Mkdir | Ext::Stat => self.file_op(st, x, c)?,
            Ext::VecReduce(_) => {
                let k = match x {
                    Ext::VecReduce(k) => k,
                    _ => 0,
                };
                let V::X(v) = self.arg(st, c, 0) else {
                    return Err(Stop::Unsupported("vector reduce".into()));
                };
                let X::Agg(v) = &*v else { return Err(Stop::Unsupported("vector reduce".into())) };
                let rw = self.ti[c.rty as usize].w;
                let mut r = ev(&v[0], rw);
                for y in &v[1..] {
                    let y = ev(y, rw);
                    r = cxx.bin([O::Or, O::And, O::Xor, O::Add][k as usize], r, y);
                }
                norm(r)
            },
            Ext::Unknown => {
                return Err(Stop::Unsupported(format!("external {}", self.m.funcs[id as usize].name)));
            },
        })
    }

    fn fill_random(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = st.rnd >> 56;
            self.store_n(st, p + i, 1, &V::C(b))?;
        }
        Ok(())
    }

    fn panic_msg(&mut self, st: &State, c: &ir::CallI, id: u32) -> String {
        // the last pointer argument is the &Location; otherwise report the callee
        let mut loc = String::new();
        for a in c.args.iter().rev() {
            if let V::C(p) = self.rd(st, a.1) {
                if let Ok(o) = self.obj(st, p, 24) {
                    if o.kind == Kind::Const {
                        let off = p & 0xff_ffff;
                        let fp = o.conc(off, 8);
                        let fl = o.conc(off + 8, 8);
                        let line = o.conc(off + 16, 4);
                        if fl < 200 {
                            if let Ok(s) = self.obj(st, fp, fl) {
                                let so = (fp & 0xff_ffff) as usize;
                                let b = &s.data[so..so + fl as usize];
                                if b.is_ascii() {
                                    loc = format!("{}:{}", String::from_utf8_lossy(b), line);
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        let _ = id;
        let n = st.frames.len();
        let mut via = String::new();
        for f in std::iter::once(&st.top).chain(st.frames.iter().rev().map(|f| &**f)).take(n.min(3)) {
            via.push_str(&self.m.funcs[f.f.id as usize].pretty);
            via.push_str(" < ");
        }
        format!("panic at {loc} ({})", via.trim_end_matches(" < "))
    }

    // ------------------------------------------------------------------ threads
    fn spawn(&mut self, st: &mut State, f: u64, d: u64) -> R<usize> {
        self.cancel_regions(st);
        let fid = (f >> 24) as u32 - ir::FUNC_OBJ0 as u32;
        let Some(f) = self.fnc(fid) else { return Err(Stop::Unsupported("spawn".into())) };
        let mut fr = self.new_frame(st, f, u32::MAX, u32::MAX);
        if let Some(p) = f.params.first() {
            fr.regs[*p as usize] = V::C(d);
        }
        st.threads.push(Thread {
            frames: vec![],
            top: Some(fr),
            status: Status::Run,
            tls: Default::default(),
            resumed: true,
            spins: 0,
            errno: 0,
            wake_result: None,
            pool: false,
        });
        Ok(st.threads.len() - 1)
    }
    fn switch_to(&mut self, st: &mut State, t: usize) {
        st.threads[t].spins = 0;
        if t == st.cur {
            st.threads[t].resumed = true;
            return;
        }
        self.stats.switches += 1;
        st.switch_id = self.stats.switches;
        let cur = st.cur;
        let nt = st.threads[t].top.take().expect("suspended thread");
        let old = std::mem::replace(&mut st.top, nt);
        st.threads[cur].top = Some(old);
        st.threads[cur].frames = std::mem::take(&mut st.frames);
        st.frames = std::mem::take(&mut st.threads[t].frames);
        st.cur = t;
        st.threads[t].resumed = true;
    }
    /// runnable threads other than the current one; and timed waiters
    fn others(&self, st: &State) -> (Vec<usize>, Vec<usize>) {
        let mut r = vec![];
        let mut t = vec![];
        for (i, th) in st.threads.iter().enumerate() {
            if i == st.cur {
                continue;
            }
            match &th.status {
                Status::Run => r.push(i),
                Status::Futex(_, Some(_)) => t.push(i),
                Status::Join(j) if st.threads[*j].status == Status::Done => r.push(i),
                Status::JoinAll
                    if st.threads.iter().enumerate().all(|(k, x)| k == i || x.status == Status::Done) =>
                    r.push(i),
                Status::JoinPool if st.threads.iter().all(|x| !x.pool || x.status == Status::Done) => r.push(i),
                _ => {},
            }
        }
        (r, t)
    }
    /// wake a thread that is about to be switched to
    fn activate(&mut self, st: &mut State, t: usize) {
        match st.threads[t].status.clone() {
            Status::Futex(SLEEP, Some(d)) => {
                st.clock = st.clock.max(d);
                st.threads[t].status = Status::Run;
                self.finish_block(st, t, 0);
            },
            Status::Futex(_, Some(d)) => {
                // timed out
                st.clock = st.clock.max(d + 1);
                st.threads[t].status = Status::Run;
                st.threads[t].errno = 110;
                self.finish_block(st, t, u64::MAX);
            },
            Status::Join(_) | Status::JoinAll | Status::JoinPool => {
                st.threads[t].status = Status::Run;
                self.finish_block(st, t, 0);
            },
            _ => {},
        }
    }
    /// complete the blocking call of a suspended thread
    fn finish_block(&mut self, st: &mut State, t: usize, v: u64) {
        let top = if t == st.cur { &mut st.top } else { st.threads[t].top.as_mut().unwrap() };
        let f = top.f;
        let I::Call(c) = &f.blocks[top.block as usize].code[top.ip as usize] else {
            panic!("blocked thread is not at a call")
        };
        if c.d != u32::MAX {
            top.regs[c.d as usize] = V::C(v);
        }
        assert!(c.normal == u32::MAX, "blocking invoke");
        top.ip += 1;
    }
    fn sched_point(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        if st.threads[cur].resumed {
            st.threads[cur].resumed = false;
            return Ok(());
        }
        if st.threads.len() < 2 {
            return Ok(());
        }
        st.npoints += 1;
        if let Some(t) = st.pending.take() {
            if st.threads[t].status == Status::Run {
                self.cancel_regions(st);
                let mut o = st.clone();
                o.sched.push((o.npoints, t as u32));
                self.switch_to(&mut o, t);
                o.threads[cur].resumed = true;
                self.push_forked(o);
                return Err(Stop::Blocked);
            }
        }
        let spinning = st.threads[cur].spins > SPINS;
        if st.preempts == 0 && !spinning {
            return Ok(());
        }
        let (r, t) = self.others(st);
        let t = if self.o.fire { t } else { vec![] };
        if spinning {
            // it waits for another thread: the next one runs, which costs nothing
            let all = if r.is_empty() { &t } else { &r };
            let Some(i) = all.iter().find(|i| **i > cur).or(all.first()).copied() else { return Ok(()) };
            self.cancel_regions(st);
            let mut o = st.clone();
            o.sched.push((o.npoints, i as u32));
            self.switch_to(&mut o, i);
            self.activate(&mut o, i);
            o.threads[cur].resumed = true;
            self.push_forked(o);
            return Err(Stop::Blocked);
        }
        if r.is_empty() && t.is_empty() {
            return Ok(());
        }
        self.cancel_regions(st);
        for i in r.into_iter().chain(t) {
            let mut o = st.clone();
            o.preempts -= 1;
            o.sched.push((o.npoints, i as u32));
            o.depth += 1;
            self.stats.forks += 1;
            self.switch_to(&mut o, i);
            self.activate(&mut o, i);
            o.threads[cur].resumed = true; // re-executes its instruction without a new point
            self.push_forked(o);
        }
        Ok(())
    }
    /// the current thread blocks at its current call instruction
    fn block_on(&mut self, st: &mut State, s: Status, _c: &ir::CallI) -> R<()> {
        let cur = st.cur;
        st.threads[cur].status = s;
        self.reschedule(st)
    }
    fn reschedule(&mut self, st: &mut State) -> R<()> {
        self.cancel_regions(st);
        let (mut r, t) = self.others(st);
        // the current thread may itself be a timed waiter
        let self_timed = matches!(st.threads[st.cur].status, Status::Futex(_, Some(_)));
        st.npoints += 1;
        let mut cands: Vec<(usize, bool)> = r.drain(..).map(|x| (x, false)).collect();
        let timed_cost = !cands.is_empty();
        for x in t {
            if !timed_cost || (st.preempts > 0 && self.o.fire) {
                cands.push((x, timed_cost));
            }
        }
        if self_timed && (!timed_cost || (st.preempts > 0 && self.o.fire)) {
            cands.push((st.cur, timed_cost));
        }
        if cands.is_empty() {
            return Err(Stop::Viol("deadlock".into(), "no thread can run".into()));
        }
        let n = cands.len();
        for (k, (i, cost)) in cands.into_iter().enumerate() {
            let mut o = st.clone();
            if cost {
                o.preempts -= 1;
            }
            if n > 1 {
                o.sched.push((o.npoints, i as u32));
            }
            if k > 0 {
                self.stats.forks += 1;
            }
            self.switch_to(&mut o, i);
            self.activate(&mut o, i);
            self.push_forked(o);
        }
        Err(Stop::Blocked)
    }
    fn thread_exit(&mut self, st: &mut State, _v: Option<V>) -> R<()> {
        if st.cur == 0 {
            return Err(Stop::Done);
        }
        let cur = st.cur;
        st.threads[cur].status = Status::Done;
        self.reschedule(st)
    }
    fn syscall(&mut self, st: &mut State, c: &'static ir::CallI) -> R<V> {
        let n = self.argc(st, c, 0)?;
        match n {
            202 => {
                let (addr, op, val) = (self.argc(st, c, 1)?, self.argc(st, c, 2)?, self.argc(st, c, 3)?);
                match op & 0x7f {
                    0 | 9 => {
                        let cur = match self.load_n(st, addr, 4)? {
                            V::C(k) => k,
                            _ => return Err(Stop::Unsupported("symbolic futex".into())),
                        };
                        if cur != val & 0xffff_ffff {
                            let t = st.cur;
                            st.threads[t].errno = 11;
                            return Ok(V::C(u64::MAX));
                        }
                        let tp = self.argc(st, c, 4)?;
                        let deadline = if tp != 0 {
                            let (V::C(s), V::C(ns)) = (self.load_n(st, tp, 8)?, self.load_n(st, tp + 8, 8)?) else {
                                return Err(Stop::Unsupported("symbolic deadline".into()));
                            };
                            Some(s.saturating_mul(1_000_000_000).saturating_add(ns))
                        } else {
                            None
                        };
                        if deadline.is_some_and(|d| d <= st.clock) {
                            st.clock = st.clock.max(deadline.unwrap() + 1);
                            let t = st.cur;
                            st.threads[t].errno = 110;
                            return Ok(V::C(u64::MAX));
                        }
                        self.block_on(st, Status::Futex(addr, deadline), c)?;
                        Ok(V::C(0))
                    },
                    1 | 10 => {
                        let mut woken = 0;
                        let waiters: Vec<usize> = (0..st.threads.len())
                            .filter(|i| matches!(st.threads[*i].status, Status::Futex(a, _) if a == addr))
                            .collect();
                        for i in waiters {
                            if woken >= val {
                                break;
                            }
                            st.threads[i].status = Status::Run;
                            self.finish_block(st, i, 0);
                            woken += 1;
                        }
                        Ok(V::C(woken))
                    },
                    _ => Err(Stop::Unsupported(format!("futex op {op}"))),
                }
            },
            318 => {
                let (p, n) = (self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                self.fill_random(st, p, n)?;
                Ok(V::C(n))
            },
            186 => Ok(V::C(1000 + st.cur as u64)),
            332 => {
                let t = st.cur;
                st.threads[t].errno = 38;
                Ok(V::C(u64::MAX))
            },
            _ => Err(Stop::Unsupported(format!("syscall {n}"))),
        }
    }
    fn parent_exists(&self, st: &State, name: &str) -> bool {
        match name.trim_end_matches('/').rfind('/') {
            Some(i) => is_dir(st, &name[..i]),
            None => true,
        }
    }
    fn file_op(&mut self, st: &mut State, x: Ext, c: &'static ir::CallI) -> R<V> {
        match x {
            Ext::Open => {
                let p = self.argc(st, c, 0)?;
                let fl = self.argc(st, c, 1)?;
                let name = self.cstr(st, p)?;
                let cur = st.cur;
                if !st.files.contains_key(&name) {
                    if fl & 0o100 == 0 || !self.parent_exists(st, &name) {
                        st.threads[cur].errno = 2;
                        return Ok(V::C(u32::MAX as u64));
                    }
                    st.files.insert(name.clone(), Rc::new(vec![]));
                }
                if fl & 0o1000 != 0 {
                    st.files.insert(name.clone(), Rc::new(vec![]));
                }
                let fd = 3 + st.fds.len() as u64;
                st.fds.insert(fd, (name, 0));
                Ok(V::C(fd))
            },
            Ext::Mkdir => {
                let p = self.argc(st, c, 0)?;
                let name = self.cstr(st, p)?;
                let cur = st.cur;
                let e = if is_dir(st, &name) || st.files.contains_key(&name) {
                    17
                } else if !self.parent_exists(st, &name) {
                    2
                } else {
                    0
                };
                if e != 0 {
                    st.threads[cur].errno = e;
                    return Ok(V::C(u32::MAX as u64));
                }
                st.files.insert(format!("{name}/"), Rc::new(vec![]));
                Ok(V::C(0))
            },
            Ext::Stat => {
                let (p, b) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?);
                let name = self.cstr(st, p)?;
                let cur = st.cur;
                let (mode, size) = if is_dir(st, &name) {
                    (0o40755u64, 0)
                } else if let Some(f) = st.files.get(&name) {
                    (0o100644, f.len() as u64)
                } else {
                    st.threads[cur].errno = 2;
                    return Ok(V::C(u32::MAX as u64));
                };
                for i in 0..18 {
                    self.store_n(st, b + 8 * i, 8, &V::C(0))?;
                }
                self.store_n(st, b + 24, 4, &V::C(mode))?;
                self.store_n(st, b + 48, 8, &V::C(size))?;
                Ok(V::C(0))
            },
            Ext::Read => {
                let (fd, p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let Some((name, pos)) = st.fds.get(&fd).cloned() else {
                    return Err(Stop::Unsupported("read of unknown fd".into()));
                };
                let data = st.files[&name].clone();
                let k = n.min(data.len() as u64 - pos.min(data.len() as u64));
                for i in 0..k {
                    self.store_n(st, p + i, 1, &V::C(data[(pos + i) as usize] as u64))?;
                }
                st.fds.insert(fd, (name, pos + k));
                Ok(V::C(k))
            },
            Ext::Write => {
                let (fd, p, n) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                if fd == 1 || fd == 2 {
                    return Ok(V::C(n));
                }
                let Some((name, pos)) = st.fds.get(&fd).cloned() else {
                    return Err(Stop::Unsupported("write to unknown fd".into()));
                };
                let mut data = (*st.files[&name]).clone();
                for i in 0..n {
                    let v = self.load_n(st, p + i, 1)?;
                    let b = self.conc(st, &v)? as u8;
                    let at = (pos + i) as usize;
                    if at < data.len() {
                        data[at] = b;
                    } else {
                        data.push(b);
                    }
                }
                st.files.insert(name.clone(), Rc::new(data));
                st.fds.insert(fd, (name, pos + n));
                Ok(V::C(n))
            },
            Ext::Close => Ok(V::C(0)),
            _ => {
                let cur = st.cur;
                st.threads[cur].errno = 38;
                Ok(V::C(u32::MAX as u64))
            },
        }
    }
}

fn is_dir(st: &State, name: &str) -> bool {
    let n = name.trim_end_matches('/');
    n.is_empty() || n == "." || n == "/tmp" || st.files.contains_key(&format!("{n}/"))
}

fn powi(a: E, n: i64) -> E {
    // compiler-rt: r = 1; loop { if b & 1 { r *= a } b /= 2; if b == 0 break; a *= a }; recip ? 1/r : r
    let c = cx();
    let recip = n < 0;
    let mut b = n;
    let mut a = a;
    let one = c.k(1f64.to_bits(), 64);
    let mut r: Option<E> = None;
    loop {
        if b & 1 != 0 {
            r = Some(match r {
                None => a,
                Some(r) => c.f2(fop::MUL, r, a),
            });
        }
        b /= 2;
        if b == 0 {
            break;
        }
        a = c.f2(fop::MUL, a, a);
    }
    let r = r.unwrap_or(one);
    if recip {
        c.f2(fop::DIV, one, r)
    } else {
        r
    }
}

fn bit(e: E) -> E {
    e
}

/// nonzero as a boolean
fn nz(e: E) -> E {
    let c = cx();
    let w = c.w(e);
    if w == 1 {
        return e;
    }
    let z = c.k(0, w);
    c.ne(e, z)
}

fn fk(op: BinOp) -> u64 {
    match op {
        BinOp::FAdd => fop::ADD,
        BinOp::FSub => fop::SUB,
        BinOp::FMul => fop::MUL,
        BinOp::FDiv => fop::DIV,
        _ => fop::REM,
    }
}

fn fcmp(p: &str, x: V, y: V) -> R<V> {
    let c = cx();
    let (a, b) = (ev(&x, 64), ev(&y, 64));
    let r = match p {
        "oeq" => c.f2(fop::OEQ, a, b),
        "olt" => c.f2(fop::OLT, a, b),
        "ole" => c.f2(fop::OLE, a, b),
        "ogt" => c.f2(fop::OLT, b, a),
        "oge" => c.f2(fop::OLE, b, a),
        "une" => {
            let e = c.f2(fop::OEQ, a, b);
            c.not(e)
        },
        "uno" => c.f2(fop::UNO, a, b),
        "ord" => {
            let e = c.f2(fop::UNO, a, b);
            c.not(e)
        },
        "ult" => {
            let e = c.f2(fop::OLE, b, a);
            c.not(e)
        },
        "ule" => {
            let e = c.f2(fop::OLT, b, a);
            c.not(e)
        },
        "ugt" => {
            let e = c.f2(fop::OLE, a, b);
            c.not(e)
        },
        "uge" => {
            let e = c.f2(fop::OLT, a, b);
            c.not(e)
        },
        "one" => {
            let e = c.f2(fop::OLT, a, b);
            let f = c.f2(fop::OLT, b, a);
            c.or(e, f)
        },
        "ueq" => {
            let e = c.f2(fop::OEQ, a, b);
            let f = c.f2(fop::UNO, a, b);
            c.or(e, f)
        },
        _ => return Err(Stop::Unsupported(format!("fcmp {p}"))),
    };
    Ok(norm(r))
}

fn conv(k: &K) -> V {
    match k {
        K::I(x) => V::C(*x),
        K::Wide(w) => V::X(Rc::new(X::Wide(*w))),
        K::Agg(v) => V::X(Rc::new(X::Agg(v.iter().map(conv).collect()))),
    }
}

#[inline]
fn rdf(fr: &Frame, o: Op, consts: &[V]) -> V {
    match o {
        Op::R(r) => fr.regs[r as usize].clone(),
        Op::C(k) => V::C(k),
        Op::K(i) => consts[i as usize].clone(),
    }
}

/// expression of a scalar value at width w
pub fn ev(v: &V, w: u32) -> E {
    match v {
        V::C(k) => cx().k(*k, w),
        V::S(e) => fit(*e, w),
        V::X(_) => panic!("ev of aggregate"),
    }
}
/// adjust an expression to the width its type has (merging widens to 64)
pub fn fit(e: E, w: u32) -> E {
    let c = cx();
    let ew = c.w(e);
    if ew == w {
        e
    } else if ew > w {
        c.extract(e, 0, w)
    } else {
        c.zext(e, w)
    }
}
fn trunc_v(v: V, w: u32) -> V {
    match v {
        V::C(k) => V::C(k & mask(w)),
        V::S(e) =>
            if cx().w(e) == w {
                V::S(e)
            } else {
                norm(fit(e, w))
            },
        x => x,
    }
}
fn icmp_c(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::X(x), V::X(y)) =>
            Rc::ptr_eq(x, y)
                || match (&**x, &**y) {
                    (X::Wide(p), X::Wide(q)) => p == q,
                    (X::Agg(p), X::Agg(q)) => p.len() == q.len() && p.iter().zip(q.iter()).all(|(i, j)| same(i, j)),
                    _ => false,
                },
        _ => false,
    }
}
fn ptrish(k: u64) -> bool {
    let id = k >> 24;
    id >= ir::GLOBAL_OBJ0 && id < 1 << 38
}
fn insert(v: &V, ix: &[u32], x: V) -> R<V> {
    let V::X(a) = v else { return Err(Stop::Unsupported("insertvalue".into())) };
    let X::Agg(f) = &**a else { return Err(Stop::Unsupported("insertvalue".into())) };
    let mut f = f.clone();
    let i = ix[0] as usize;
    f[i] = if ix.len() == 1 { x } else { insert(&f[i], &ix[1..], x)? };
    Ok(V::X(Rc::new(X::Agg(f))))
}
fn bad_addr(a: u64) -> String {
    if a >> 24 < ir::GLOBAL_OBJ0 {
        "access through a null or dangling pointer".into()
    } else {
        "access to freed memory or outside of any object".into()
    }
}

fn classify(n: &str, has_body: bool) -> Ext {
    if has_body {
        // panics end the path at their entry point
        if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("5alloc5alloc18handle_alloc_error")
        {
            if n.contains("panic_count") || n.contains("update_hook") || n.contains("3std9panicking3try") || n.contains("catch_unwind") {
                return Ext::None;
            }
            if n.contains("9panicking9panic_fmt")
                || n.contains("9panicking18panic_nounwind_fmt")
                || n.contains("9panicking14panic_nounwind")
                || n.contains("begin_panic")
                || n.contains("9panicking5panic")
                || n.contains("panic_bounds_check")
                || n.contains("panic_const")
                || n.contains("panic_in_cleanup")
                || n.contains("panic_cannot_unwind")
                || n.contains("handle_alloc_error")
                || n.contains("assert_failed")
                || n.contains("panic_display")
                || n.contains("panic_explicit")
            {
                return Ext::Panic;
            }
        }
        if n.contains("rust_oom") || n.contains("5alloc7raw_vec12handle_error") || n.contains("capacity_overflow") {
            return Ext::Panic;
        }
        return Ext::None;
    }
    match n {
        "symx_bits" => Ext::Bits,
        "symx_assume" => Ext::Assume,
        "symx_assert" => Ext::Assert,
        "symx_reach" => Ext::Reach,
        "symx_param" => Ext::Param,
        "symx_out" => Ext::Out,
        "symx_concretize" => Ext::Concretize,
        "symx_merge" => Ext::Merge,
        "symx_ite" => Ext::IteF,
        "symx_args" => Ext::Args,
        "symx_may_exit" => Ext::MayExit,
        "exit" | "_exit" => Ext::Exit,
        "symx_spawn" => Ext::Spawn,
        "symx_join_all" => Ext::JoinAll,
        "symx_join_pool" => Ext::JoinPool,
        "mkdir" => Ext::Mkdir,
        "stat64" | "stat" => Ext::Stat,
        "symx_yield" => Ext::Yield,
        "symx_live_heap" => Ext::Heap,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::MemAlign,
        "bcmp" | "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "abort" => Ext::Abort,
        "__errno_location" => Ext::Errno,
        "getrandom" => Ext::Getrandom,
        "syscall" => Ext::Syscall,
        "clock_gettime" => Ext::ClockGettime,
        "clock_nanosleep" => Ext::Nanosleep,
        "pthread_create" => Ext::PthreadCreate,
        "pthread_join" => Ext::PthreadJoin,
        "sched_yield" => Ext::SchedYield,
        "pthread_key_create" => Ext::KeyCreate,
        "pthread_setspecific" => Ext::SetSpecific,
        "pthread_getspecific" => Ext::GetSpecific,
        "getenv" => Ext::Getenv,
        "open64" | "open" => Ext::Open,
        "read" => Ext::Read,
        "write" => Ext::Write,
        "close" => Ext::Close,
        "fstat64" | "statx" | "lseek64" => Ext::Fstat,
        "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_self"
        | "pthread_detach" | "sigaltstack" | "prctl" | "pthread_setname_np" | "__cxa_thread_atexit_impl"
        | "pthread_key_delete" | "gettid" | "munmap"
        | "mprotect" | "pthread_sigmask" | "sigaction" | "dlsym" | "fcntl" | "isatty" => Ext::Nop0,
        "exp" => Ext::Fun1(fop::EXP),
        "sqrt" => Ext::Fun1(fop::SQRT),
        "ceil" => Ext::Fun1(fop::CEIL),
        "floor" => Ext::Fun1(fop::FLOOR),
        "round" => Ext::Fun1(fop::ROUND),
        "trunc" => Ext::Fun1(fop::TRUNC),
        "pow" => Ext::Fun2(fop::POW),
        "__powidf2" => Ext::Fun2(fop::POWI),
        "fmax" => Ext::Fun2(fop::MAXNUM),
        "fmin" => Ext::Fun2(fop::MINNUM),
        _ => {
            let Some(r) = n.strip_prefix("llvm.") else { return Ext::Unknown };
            let p = |x: &str| r.starts_with(x);
            if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("prefetch") || p("donothing") || p("invariant") {
                Ext::Ignore
            } else if p("x86.sse2.pause") {
                Ext::Pause
            } else if p("memcpy") || p("memmove") {
                Ext::Memcpy
            } else if p("memset") {
                Ext::Memset
            } else if p("umin") {
                Ext::MinMax(0)
            } else if p("umax") {
                Ext::MinMax(1)
            } else if p("smin") {
                Ext::MinMax(2)
            } else if p("smax") {
                Ext::MinMax(3)
            } else if p("usub.sat") {
                Ext::SatOp(0)
            } else if p("uadd.sat") {
                Ext::SatOp(1)
            } else if p("uadd.with.overflow") {
                Ext::WithOv(0)
            } else if p("usub.with.overflow") {
                Ext::WithOv(1)
            } else if p("umul.with.overflow") {
                Ext::WithOv(2)
            } else if p("sadd.with.overflow") {
                Ext::WithOv(3)
            } else if p("ssub.with.overflow") {
                Ext::WithOv(4)
            } else if p("smul.with.overflow") {
                Ext::WithOv(5)
            } else if p("ctpop") {
                Ext::Ctpop
            } else if p("ctlz") {
                Ext::Ctlz
            } else if p("cttz") {
                Ext::Cttz
            } else if p("bswap") {
                Ext::Bswap
            } else if p("bitreverse") {
                Ext::Bitrev
            } else if p("fshl") {
                Ext::Fsh(true)
            } else if p("fshr") {
                Ext::Fsh(false)
            } else if p("abs") {
                Ext::Abs
            } else if p("ucmp") {
                Ext::Cmp3(false)
            } else if p("scmp") {
                Ext::Cmp3(true)
            } else if p("is.constant") {
                Ext::IsConst0
            } else if p("expect") {
                Ext::Expect
            } else if p("load.relative") {
                Ext::LoadRel
            } else if p("trap") || p("ubsantrap") || p("debugtrap") {
                Ext::Trap
            } else if p("threadlocal.address") {
                Ext::ThreadLocal
            } else if p("ptrmask") {
                Ext::PtrMask
            } else if r == "exp.f64" {
                Ext::Fun1(fop::EXP)
            } else if r == "fabs.f64" {
                Ext::Fun1(fop::ABS)
            } else if r == "floor.f64" {
                Ext::Fun1(fop::FLOOR)
            } else if r == "sqrt.f64" {
                Ext::Fun1(fop::SQRT)
            } else if r == "ceil.f64" {
                Ext::Fun1(fop::CEIL)
            } else if r == "round.f64" {
                Ext::Fun1(fop::ROUND)
            } else if r == "trunc.f64" {
                Ext::Fun1(fop::TRUNC)
            } else if r.starts_with("powi.f64") {
                Ext::Fun2(fop::POWI)
            } else if r == "pow.f64" {
                Ext::Fun2(fop::POW)
            } else if r == "maxnum.f64" || r == "maximumnum.f64" {
                Ext::Fun2(fop::MAXNUM)
            } else if r == "minnum.f64" || r == "minimumnum.f64" {
                Ext::Fun2(fop::MINNUM)
            } else if r == "fmuladd.f64" {
                Ext::FmulAdd
            } else if p("fptoui.sat.i64.f64") {
                Ext::FpToIntSat(true)
            } else if p("fptosi.sat.i64.f64") {
                Ext::FpToIntSat(false)
            } else if p("vector.reduce.or") {
                Ext::VecReduce(0)
            } else if p("vector.reduce.and") {
                Ext::VecReduce(1)
            } else if p("vector.reduce.xor") {
                Ext::VecReduce(2)
            } else if p("vector.reduce.add") {
                Ext::VecReduce(3)
            } else {
                Ext::Unknown
            }
        },
    }
}

#[allow(dead_code)]
fn _unused() {
    let _ = (func_addr(0), global_addr(0));
}
