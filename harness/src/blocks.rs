//! The building blocks: sweeping, focusing, memory accounting, buffers, accept functions.
use hashbrown::HashMap;
use mbqc_scheduling::{
    probabilistic::*,
    scheduler::{
        space::{AlreadyMeasured, Graph, GraphBuffer, State},
        time::{DependencyBuffer, Partitioner, PathGenerator},
        tree::{Focus, Step},
        InstructionError, Scheduler,
    },
};
use std::{collections::BTreeSet, sync::Mutex};

use crate::{gen::*, job, oracle::*, rt::*, run_with};

fn avail(p: &Prob, done: u64) -> u64 {
    let mut r = 0;
    for v in 0..p.n {
        if done >> v & 1 == 0 && p.dep[v] & !done == 0 {
            r |= 1 << v;
        }
    }
    r
}

/// the set of the nodes, unless one is repeated or does not exist
fn set_of(n: usize, v: &[usize]) -> Option<u64> {
    let mut m = 0u64;
    for x in v {
        if *x >= n || m >> x & 1 == 1 {
            return None;
        }
        m |= 1 << x;
    }
    Some(m)
}

/// `num` of the schedules that begin with the steps in `prefix`
fn count_schedules(p: &Prob, done: u64, memo: &mut Vec<u64>) -> u64 {
    if done == p.full {
        return 1;
    }
    if memo[done as usize] != 0 {
        return memo[done as usize];
    }
    let a = avail(p, done);
    let mut r = 0;
    let mut s = a;
    while s != 0 {
        r += count_schedules(p, done | s, memo);
        s = (s - 1) & a;
    }
    memo[done as usize] = r;
    r
}

/// Sweeping: every allowed schedule exactly once, with its memory; `skip_current` leaves
/// out exactly the subtree.  17: number of free skip decisions, 18: 1 without the graph,
/// 19: k + 1: skip all at depth k + 1
#[no_mangle]
pub extern "C" fn h_sweep() {
    let p = job();
    let free = param(17) as usize;
    let mut buffer = DependencyBuffer::new(p.n);
    let time =
        PathGenerator::<Partitioner>::from_dependency_graph(&p.order, &mut buffer, None);
    if param(18) == 1 {
        let mut s = time.into_iter();
        let mut w = Walk::new(&p);
        let mut next = s.next();
        while let Some(step) = next {
            match step {
                Step::Forward(set) => {
                    if w.forward(&set, free) {
                        check(s.skip_current().is_ok(), 5);
                        w.skip();
                    }
                },
                Step::Backward(leaf) => w.backward(leaf.is_some()),
            }
            check(s.stack().len() == w.path.len(), 6);
            next = s.next();
        }
        w.end();
        return;
    }
    let mut s = Scheduler::<Partitioner>::new(time, Graph::new(&p.space)).into_iter();
    let mut w = Walk::new(&p);
    while let Some(step) = s.next() {
        match step {
            Step::Forward(set) => {
                if w.forward(&set, free) {
                    check(s.skip_current().is_ok(), 5);
                    w.skip();
                }
            },
            Step::Backward(leaf) => {
                if let Some(mem) = leaf {
                    let mut all = All::new(3);
                    all.add(mem as u64 == w.space());
                    all.done();
                }
                w.backward(leaf.is_some());
            },
        }
        check(s.stack().len() == w.path.len(), 6);
        if w.path.len() > 0 {
            let mut all = All::new(4);
            let g = s.current().space();
            all.add(g.current_memory() as u64 == held(&p, w.done()));
            all.add(g.max_memory() as u64 == w.space());
            all.done();
        }
    }
    w.end();
}

/// What a sweep has to do.
struct Walk<'l> {
    p: &'l Prob,
    path: Vec<u64>,
    /// the schedules as numbers: four bits for the step of each node
    seen: BTreeSet<u64>,
    skipped: Vec<Vec<u64>>,
    codes: BTreeSet<u64>,
    calls: usize,
}

fn code(n: usize, path: &[u64]) -> u64 {
    let mut r = 0;
    for (i, s) in path.iter().enumerate() {
        for v in 0..n {
            r |= (s >> v & 1) * (i as u64 + 1) << (4 * v);
        }
    }
    r
}

impl<'l> Walk<'l> {
    fn new(p: &'l Prob) -> Self {
        Walk {
            p,
            path: vec![],
            seen: BTreeSet::new(),
            skipped: vec![],
            codes: BTreeSet::new(),
            calls: 0,
        }
    }
    fn done(&self) -> u64 {
        self.path.iter().fold(0, |a, b| a | b)
    }
    fn space(&self) -> u64 {
        let mut done = 0;
        let mut r = 0;
        for s in self.path.iter() {
            r = max(r, peak(self.p, done, *s));
            done |= s;
        }
        r
    }
    /// whether to skip
    fn forward(&mut self, set: &[usize], free: usize) -> bool {
        let s = match set_of(self.p.n, set) {
            Some(s) => s,
            None => {
                check(false, 1);
                0
            },
        };
        let a = avail(self.p, self.done());
        // something that can be measured now
        check(s != 0 && s & !a == 0, 1);
        // the more time optimal ones first
        self.path.push(s);
        self.calls += 1;
        self.path.len() as u64 == param(19) || self.calls <= free && bit(T_ACC, self.calls)
    }
    fn skip(&mut self) {
        check(self.codes.insert(code(self.p.n, &self.path)), 7);
        self.skipped.push(self.path.clone());
        self.path.pop();
    }
    fn backward(&mut self, leaf: bool) {
        // a leaf when, and only when, all is measured
        check(leaf == (self.done() == self.p.full), 2);
        if leaf {
            check(self.seen.insert(code(self.p.n, &self.path)), 7);
            let cut = self.skipped.iter().any(|x| self.path.starts_with(x));
            check(!cut, 10);
        }
        self.path.pop();
    }
    fn end(self) {
        check(self.path.is_empty(), 8);
        let mut memo = vec![0; 1 << self.p.n];
        let mut n = count_schedules(self.p, 0, &mut memo);
        for s in self.skipped.iter() {
            let done = s.iter().fold(0, |a, b| a | b);
            n -= count_schedules(self.p, done, &mut memo);
        }
        check(self.seen.len() as u64 == n, 9);
        out(1, self.seen.len() as u64);
        reach(1);
    }
}

fn state(g: &Graph, v: usize) -> u64 {
    g.nodes()[v].0 as u64
}

fn check_states(p: &Prob, g: &Graph, done: u64, id: u64) {
    let mut all = All::new(id);
    let c = closed(p, done);
    for v in 0..p.n {
        let want = ite(
            done >> v & 1 == 1,
            State::Measured as u64,
            ite(c >> v & 1 == 1, State::InMemory as u64, State::Sleeping as u64),
        );
        all.add(state(g, v) == want);
    }
    all.done();
}

/// a free list of at most `max` nodes (not necessarily existing or different ones)
fn free_list(at: &mut usize, max: u64, width: u64) -> Vec<usize> {
    let len = concretize(bits(T_MISC, *at, 2));
    assume(len <= max);
    let mut r = Vec::new();
    for k in 0..len as usize {
        r.push(concretize(bits(T_MISC, 100 + *at * 4 + k, width)) as usize);
    }
    *at += 1;
    r
}

/// Choosing the steps by hand.  17 steps, 18 nodes in an instruction at most, 19 bits of a
/// node index
#[no_mangle]
pub extern "C" fn h_focus() {
    let p = job();
    let mut buffer = DependencyBuffer::new(p.n);
    let mut s = Scheduler::<Vec<usize>>::new(
        PathGenerator::from_dependency_graph(&p.order, &mut buffer, None),
        Graph::new(&p.space),
    );
    let mut done = 0u64;
    let mut space = 0u64;
    let mut at = 0;
    for _ in 0..param(17) {
        let set = free_list(&mut at, param(18), param(19));
        let a = avail(&p, done);
        let ok = match set_of(p.n, &set) {
            Some(m) => m & !a == 0,
            None => false,
        };
        let time_before = s.time().clone();
        let r = s.focus(&set);
        // the scheduler that was asked does not change
        check(*s.time() == time_before, 1);
        check_states(&p, s.space(), done, 1);
        let mut t = s.clone();
        let r2 = t.focus_inplace(&set);
        // accepted when, and only when, it is allowed
        check(r.is_ok() == ok, 2);
        check(r2.is_ok() == ok, 3);
        match r {
            Ok(new) => {
                let m = set_of(p.n, &set).unwrap_or(0);
                space = max(space, peak(&p, done, m));
                done |= m;
                for x in [&new, &t] {
                    check(set_of(p.n, x.time().measurable()) == Some(avail(&p, done)), 4);
                    let left = p.full & !done;
                    check(x.time().has_unmeasureable() == (left & !avail(&p, done) != 0), 5);
                    check(x.time().num_remaining_nodes() as u64 == count(p.n, left), 6);
                    let mut all = All::new(7);
                    all.add(x.space().current_memory() as u64 == held(&p, done));
                    all.add(x.space().max_memory() as u64 == space);
                    all.done();
                    check_states(&p, x.space(), done, 8);
                }
                s = new;
            },
            Err(e) => {
                // in place: nothing changes
                check(*t.time() == time_before, 9);
                check_states(&p, t.space(), done, 9);
                let mut all = All::new(9);
                all.add(t.space().current_memory() as u64 == held(&p, done));
                all.add(t.space().max_memory() as u64 == space);
                all.done();
                if r2.is_ok() {
                    return;
                }
                match e {
                    InstructionError::NotMeasurable(bad) => {
                        // names what cannot be measured
                        check(!bad.0.is_empty(), 10);
                        check(bad.0.iter().all(|b| set.contains(b)), 10);
                        for b in set.iter() {
                            let can = *b < p.n && a >> b & 1 == 1;
                            check(can || bad.0.contains(b), 10);
                        }
                    },
                    InstructionError::AlreadyMeasured(b) => check(set.contains(&b.0), 10),
                }
                out(1, 0);
                reach(2);
                return;
            },
        }
    }
    out(1, done);
    reach(1);
}

/// The graph alone.  17 steps, 18: 1 in the other order, 2: something allowed is measured
/// before the last step
#[no_mangle]
pub extern "C" fn h_graph() {
    let p = job();
    let mut g = Graph::new(&p.space);
    let mut done = 0u64;
    let mut space = 0u64;
    check(g.current_memory() == 0 && g.max_memory() == 0, 1);
    check_states(&p, &g, 0, 1);
    for k in 0..param(17) as usize {
        let m = concretize(bits(T_MISC, k, p.n as u64));
        if param(18) & 2 != 0 && k + 1 < param(17) as usize {
            assume(m != 0 && m & done == 0);
        }
        let mut set: Vec<usize> = (0..p.n).filter(|v| m >> v & 1 == 1).collect();
        if param(18) & 1 != 0 {
            set.reverse();
        }
        let again = m & done;
        let r = g.focus(&set);
        check(r.is_ok() == (again == 0), 2);
        // unchanged
        let mut all = All::new(3);
        all.add(g.current_memory() as u64 == held(&p, done));
        all.add(g.max_memory() as u64 == space);
        all.done();
        check_states(&p, &g, done, 3);
        match r {
            Ok(new) => {
                let mut h = g.clone();
                check(h.focus_inplace(&set).is_ok(), 4);
                space = max(space, peak(&p, done, m));
                done |= m;
                for x in [&h, &new] {
                    let mut all = All::new(5);
                    all.add(x.current_memory() as u64 == held(&p, done));
                    all.add(x.max_memory() as u64 == space);
                    all.done();
                    check_states(&p, x, done, 6);
                }
                g = h;
            },
            Err(AlreadyMeasured(b)) => {
                check(b < p.n && again >> b & 1 == 1, 7);
                let mut h = g.clone();
                check(h.focus_inplace(&set) == Err(AlreadyMeasured(b)), 8);
                reach(2);
                return;
            },
        }
        if m != 0 {
            // repeating a node within a step
            let v = set[0];
            check(g.clone().focus(&[v]) == Err(AlreadyMeasured(v)), 9);
        }
    }
    out(1, done);
    reach(1);
}

/// Buffers from edge lists.  0 n, 17 edges, 18: 0 plain, 1 mapped, 2 partly mapped,
/// 19: 1 without checking (then only valid lists), 20: edges before them, chosen by 16
#[no_mangle]
pub extern "C" fn h_buffer() {
    let n = param(0) as usize;
    let unchecked = param(19) == 1;
    let width = if n > 8 { 4 } else if n > 4 { 3 } else if n > 2 { 2 } else { 1 };
    let mut edges = Vec::new();
    let mut adj = vec![0u64; n];
    let name = |v: usize| match param(18) {
        1 => 100 + (n - 1 - v) * 7,
        2 if v % 2 == 0 => 50 + v,
        // the names of other nodes
        3 => (v + 1) % n,
        4 => v ^ (v ^ 1 < n) as usize,
        _ => v,
    };
    let mut map = HashMap::new();
    for v in 0..n {
        if name(v) != v {
            map.insert(name(v), v);
        }
    }
    let mut r = Lcg(param(16));
    let fixed = param(20) as usize;
    for k in 0..fixed + param(17) as usize {
        let (a, b) = if k < fixed {
            // some nodes have many edges
            let a = r.next(n as u64).min(r.next(n as u64)) as usize;
            (a, r.next(n as u64) as usize)
        } else {
            (
                concretize(bits(T_MISC, 2 * k, width)) as usize,
                concretize(bits(T_MISC, 2 * k + 1, width)) as usize,
            )
        };
        if k < fixed && unchecked && (a == b || adj[a] >> b & 1 == 1) {
            continue;
        }
        assume(a < n && b < n);
        if unchecked {
            assume(a != b && adj[a] >> b & 1 == 0);
        }
        edges.push((name(a), name(b)));
        if a != b {
            adj[a] |= 1 << b;
            adj[b] |= 1 << a;
        }
    }
    let m = if param(18) == 0 { None } else { Some(&map) };
    let g = GraphBuffer::new(&edges, n, m, !unchecked);
    let b = g.as_buffer();
    check(b.len() == n, 1);
    for v in 0..n {
        // exactly the neighbours, each one once
        check(set_of(n, &b[v]) == Some(adj[v]), 2);
    }
    let again = GraphBuffer::from_sparse(b.to_vec());
    check(again == g && again.as_buffer() == b, 3);
    out(1, b.iter().map(|x| x.len() as u64).sum());
    reach(1);
}

/// Renaming while reading the dependency graph; reusing the buffer.
/// 17: number of the renaming, 18: 1 only some nodes are renamed, 2 among themselves
#[no_mangle]
pub extern "C" fn h_deps() {
    let p = job();
    let to = permutation(p.n, param(17));
    // names under which the nodes are given
    let name = |v: usize| match param(18) {
        1 if v % 2 == 0 => v,
        // the names of other nodes
        2 => to[v],
        _ => 1000 + 3 * to[v],
    };
    let mut map = HashMap::new();
    for v in 0..p.n {
        if name(v) != v {
            map.insert(name(v), v);
        }
    }
    let named: Vec<Vec<(usize, Vec<usize>)>> = p
        .order
        .iter()
        .map(|l| {
            l.iter().map(|(b, d)| (name(*b), d.iter().map(|x| name(*x)).collect())).collect()
        })
        .collect();
    let mut b1 = DependencyBuffer::new(p.n);
    let plain = PathGenerator::<Vec<usize>>::from_dependency_graph(&p.order, &mut b1, None);
    let mut b2 = DependencyBuffer::new(p.n + 2);
    check(b2.num_bits() == p.n + 2, 1);
    // a used buffer
    {
        let other: Vec<Vec<(usize, Vec<usize>)>> = (0..p.n)
            .map(|v| vec![(p.n - 1 - v, if v == 0 { vec![] } else { vec![p.n - v] })])
            .collect();
        let mut o = PathGenerator::<Vec<usize>>::from_dependency_graph(&other, &mut b2, None);
        for v in 0..p.n {
            check(o.focus_inplace(&[p.n - 1 - v]).is_ok(), 2);
        }
    }
    let mapped =
        PathGenerator::<Vec<usize>>::from_dependency_graph(&named, &mut b2, Some(&map));
    follow(&p, plain, mapped);
    let mut b3 = DependencyBuffer::new(p.n);
    let x = PathGenerator::<Vec<usize>>::from_dependency_graph(&p.order, &mut b3, None);
    let left = x.num_remaining_nodes();
    check(left == p.n, 6);
    // the given graph without a mapping that matters
    let empty = HashMap::new();
    let mut b4 = DependencyBuffer::new(p.n);
    let y = PathGenerator::<Vec<usize>>::from_dependency_graph(&p.order, &mut b4, Some(&empty));
    check(x == y, 5);
    out(1, p.n as u64);
    reach(1);
}

/// both allow exactly what `p` allows, along every path
fn follow(p: &Prob, a: PathGenerator<Vec<usize>>, b: PathGenerator<Vec<usize>>) {
    let mut work = vec![(0u64, a, b)];
    let mut seen = vec![false; 1 << p.n];
    while let Some((done, mut a, mut b)) = work.pop() {
        let want = avail(p, done);
        check(set_of(p.n, a.measurable()) == Some(want), 3);
        check(set_of(p.n, b.measurable()) == Some(want), 4);
        for v in 0..p.n {
            if want >> v & 1 == 0 {
                check(a.focus(&[v]).is_err(), 3);
                check(b.focus(&[v]).is_err(), 4);
                continue;
            }
            let to = done | 1 << v;
            match (a.focus(&[v]), b.focus(&[v])) {
                (Ok(x), Ok(y)) => {
                    if !seen[to as usize] {
                        seen[to as usize] = true;
                        work.push((to, x, y));
                    }
                },
                _ => check(false, 4),
            }
        }
    }
}

fn builtin_params() -> HeavysideParameters {
    HeavysideParameters {
        cutoff: 0.,
        lin_num_total_nodes_exp: 2,
        exp_num_total_nodes_exp: 1,
        exp_num_remaining_nodes_exp: 1,
        exp_diff_exp: 3,
        exp_num_measured_nodes_exp: 1,
    }
}

/// as documented
fn formula(q: &HeavysideParameters, a: &[f64; 7]) -> f64 {
    let (minimal_mem, last_max_mem, cur_mem) = (a[1], a[2], a[4]);
    let (num_remaining_nodes, num_total_nodes) = (a[5], a[6]);
    let diff = minimal_mem - f64::max(cur_mem, last_max_mem);
    if diff < q.cutoff {
        0.
    } else {
        num_total_nodes.powi(q.lin_num_total_nodes_exp)
            * (-(num_total_nodes.powi(q.exp_num_total_nodes_exp)
                * num_remaining_nodes.powi(q.exp_num_remaining_nodes_exp)
                / diff.powi(q.exp_diff_exp)
                / (num_total_nodes - num_remaining_nodes).powi(q.exp_num_measured_nodes_exp)))
            .exp()
    }
}

fn is_same(a: f64, b: f64) -> bool {
    or(a == b, and(a != a, b != b))
}

/// The accept functions.  17: 0 builtin, 1 parametrized like the builtin, 2 other
/// parameters (18 chooses), 3 custom; 2: 0 all floating point values, 1 the values of small
/// problems with 19 nodes; 1: 1 nothing found yet
#[no_mangle]
pub extern "C" fn h_formula() {
    let total = param(19);
    let real = param(2) == 0;
    let value = |i: usize| {
        if real {
            f64::from_bits(bits(T_MISC, i, 64))
        } else {
            concretize(bits(T_MISC, i, 2)) as f64
        }
    };
    let mut a = [0f64; 7];
    a[0] = value(0);
    a[1] = if param(1) == 1 { usize::MAX as f64 } else { value(1) };
    a[2] = value(2);
    a[3] = if real { value(3) } else { 1. };
    a[4] = value(4);
    if real {
        a[5] = value(5);
        a[6] = value(6);
    } else {
        a[0] = a[1];
        let left = concretize(bits(T_MISC, 5, 4));
        assume(left < total);
        a[5] = left as f64;
        a[6] = total as f64;
    }
    let mut r = Lcg(param(18));
    let mut e = || r.next(5) as i32 - 1;
    let other = HeavysideParameters {
        lin_num_total_nodes_exp: e(),
        exp_num_total_nodes_exp: e(),
        exp_num_remaining_nodes_exp: e(),
        exp_diff_exp: e(),
        exp_num_measured_nodes_exp: e(),
        cutoff: e() as f64,
    };
    let (f, q) = match param(17) {
        0 => (AcceptFunc::default(), builtin_params()),
        1 => (AcceptFunc::ParametrizedHeavyside { param: builtin_params() }, builtin_params()),
        2 => (AcceptFunc::ParametrizedHeavyside { param: other }, other),
        _ => {
            // every argument arrives where it belongs
            for j in 0..7 {
                let g = AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
                    [a, b, c, d, e, f, g][j]
                }));
                let v = (g.get_accept_func())(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
                check(is_same(v, a[j]), 3);
            }
            reach(1);
            return;
        },
    };
    let v = (f.get_accept_func())(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    let w = formula(&q, &a);
    // the same, but for rounding
    let close = (v - w).abs() <= w.abs() * 1e-9;
    check(or(is_same(v, w), close), 1);
    if real {
        reach(1);
        return;
    }
    // "semi-positive"
    check(!(v < 0.), 2);
    if param(17) < 2 && param(1) == 1 {
        // nothing found yet: always accepted
        check(v >= 1., 4);
    }
    reach(1);
}

static SEEN: Mutex<Vec<([f64; 7], bool)>> = Mutex::new(Vec::new());

/// The accept function is asked about the current state of the search.  12 free decisions,
/// 17: 1 the problem is a chain
#[no_mangle]
pub extern "C" fn h_asked() {
    let p = job();
    let n = p.n;
    let k = param(12);
    SEEN.lock().unwrap().clear();
    let r = run_with(
        &p,
        Some(AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
            let mut s = SEEN.lock().unwrap();
            let i = s.len();
            let yes = if (i as u64) < k { bit(T_ACC, i) } else { true };
            s.push(([a, b, c, d, e, f, g], yes));
            if yes {
                1.
            } else {
                0.
            }
        }))),
    );
    merge(false);
    let seen = SEEN.lock().unwrap();
    let threads = param(8) > 1;
    let mut before = usize::MAX as f64;
    for (i, (a, _)) in seen.iter().enumerate() {
        let mut all = All::new(1);
        all.add(a[6] == n as f64);
        if threads {
            before = usize::MAX as f64;
        }
        // the best so far: only ever better, and never better than what is returned
        all.add(a[1] <= before);
        all.add(a[0] >= a[1]);
        if i == 0 && !threads {
            all.add(a[1] == usize::MAX as f64);
        }
        // a task knows its own results at least
        if let Some(last) = r.last() {
            all.add(a[1] >= last.space as f64);
        } else {
            all.add(a[1] == usize::MAX as f64);
        }
        before = a[1];
        all.done();
        // a step of some schedule
        let mut some = false;
        let mut m = 0u64;
        while m <= p.full {
            if closed_down(&p, m) {
                let av = avail(&p, m);
                let mut s = av;
                while s != 0 {
                    let to = m | s;
                    let mut here = (n as u64 - count(n, to)) as f64 == a[5];
                    here = and(here, a[4] == held(&p, to) as f64);
                    here = and(here, a[3] == held(&p, m) as f64);
                    here = and(here, a[2] >= a[3]);
                    // what is asked about could still be an improvement
                    here = and(here, a[0] > max(peak(&p, m, s), 0) as f64);
                    here = and(here, (a[2] == 0.) == (m == 0));
                    if param(17) == 1 {
                        // only one way to get there
                        let mut d = 0u64;
                        let mut top = 0u64;
                        for (b, _) in p.order.iter().flatten() {
                            if m >> b & 1 == 1 {
                                top = max(top, peak(&p, d, 1 << b));
                                d |= 1 << b;
                            }
                        }
                        here = and(here, a[2] == top as f64);
                    }
                    some = or(some, here);
                    s = (s - 1) & av;
                }
            }
            m += 1;
        }
        check(some, 2);
    }
    if !threads {
        follow_questions(&p, &seen);
    }
    out(1, seen.len() as u64);
    reach(1);
}

/// The number of steps that are needed at least to measure all but `done`.
fn at_least(p: &Prob, mut done: u64) -> usize {
    let mut r = 0;
    while done != p.full {
        done |= avail(p, done);
        r += 1;
    }
    r
}

/// Goes through the schedules in the order of the sweep, and takes the decisions that have
/// been taken: every step that could be an improvement has been asked about, with the right
/// arguments, and no other.
fn follow_questions(p: &Prob, seen: &[([f64; 7], bool)]) {
    let n = p.n;
    let none = usize::MAX as u64;
    let mut buffer = DependencyBuffer::new(n);
    let time = PathGenerator::<Partitioner>::from_dependency_graph(&p.order, &mut buffer, None);
    let mut sweep = time.into_iter();
    let mut path: Vec<u64> = vec![];
    // the peak so far, for each step of the path
    let mut peaks: Vec<u64> = vec![];
    let mut best = vec![none; n + 1];
    let mut at = 0;
    while let Some(step) = sweep.next() {
        match step {
            Step::Forward(set) => {
                let s = set_of(n, &set).unwrap();
                let done = path.iter().fold(0, |a, b| a | b);
                let to = done | s;
                let before = peaks.last().copied().unwrap_or(0);
                let top = max(before, peak(p, done, s));
                let depth = path.len() + 1;
                let rest = at_least(p, to);
                let mut yes = false;
                let mut improves = true;
                let mut asked = false;
                if depth + rest <= n {
                    improves = top < best[depth + rest];
                    // the bound that is known to be used
                    asked = top < best[depth + rest.min(2)];
                }
                if at < seen.len() && asked {
                    let (a, y) = &seen[at];
                    let mut here = a[2] == before as f64;
                    here = and(here, a[3] == held(p, done) as f64);
                    here = and(here, a[4] == held(p, to) as f64);
                    here = and(here, a[5] == (n as u64 - count(n, to)) as f64);
                    if here {
                        let mut some = false;
                        for t in depth..=depth + rest {
                            some = or(some, a[0] == best[t] as f64);
                        }
                        check(and(some, a[1] == best[n] as f64), 3);
                        at += 1;
                        yes = *y;
                    } else {
                        asked = false;
                    }
                } else {
                    asked = false;
                }
                check(asked || !improves, 4);
                if yes {
                    path.push(s);
                    peaks.push(top);
                } else {
                    check(sweep.skip_current().is_ok(), 5);
                }
            },
            Step::Backward(leaf) => {
                if leaf.is_some() {
                    let top = *peaks.last().unwrap();
                    for b in best[path.len()..].iter_mut() {
                        *b = min(*b, top);
                    }
                }
                path.pop();
                peaks.pop();
            },
        }
    }
    check(at == seen.len(), 6);
}

fn closed_down(p: &Prob, m: u64) -> bool {
    (0..p.n).all(|v| m >> v & 1 == 0 || p.dep[v] & !m == 0)
}
