//! C22: the benchmark program, /repo/results/src.  This module is added to a copy of its plots.rs.  The library's
//! `interface::run` gives what the harness says and keeps what it was given (shim/facade).
#![allow(static_mut_refs, dead_code)]
#[path = "../../harness/src/rt.rs"]
pub mod rt;
// what is private in the program: without it, only the whole program is checked
#[cfg(feature = "inner")]
use super::{do_it, get_graph, get_order, ConstantDensity, Density, DensityEnum, ReziprocalLinearDensity};
use crate::NUM_AVERAGE;
use mbqc_scheduling::{
    interface::{Call, Path, ANSWER, CALLS},
    probabilistic::AcceptFunc,
    search::SpacialGraph,
};
use pauli_tracker::tracker::frames::induced_order::PartialOrderGraph;
use rand::RngCore;
use rt::*;
use std::time::{Duration, Instant};

/// The random numbers.
pub struct Draws {
    pub n: usize,
    /// 0 any numbers, 1 one of these two, 2 below the first, 3 from the second, 4 a fixed sequence, 5 one of these two
    /// after a pattern
    kind: u64,
    few: bool,
    /// how many there may be
    most: usize,
    low: u64,
    high: u64,
    /// how many were `low`
    pub lows: u64,
    pattern: u64,
}
impl Draws {
    /// about the density
    fn new(kind: u64, density: f64) -> Self {
        let below = |d: f64| (d * 18446744073709551616.0) as u64;
        // (a generator makes 52 or 53 bits of them)
        let low = below((density - 1e-9).max(0.));
        let high = below((density + 1e-9).min(1.));
        Draws { n: 0, kind, few: false, most: if param(9) > 0 { param(9) as usize } else { usize::MAX }, low, high, lows: 0, pattern: 0 }
    }
}
impl RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    #[inline(never)]
    fn next_u64(&mut self) -> u64 {
        let i = self.n;
        self.n += 1;
        // (more are rejected ones)
        assume(i < self.most);
        match self.kind {
            1 => {
                let b = bits(1, i, 1);
                self.lows += b;
                ite(b != 0, self.low, self.high)
            },
            // (a node is chosen by 128 bit arithmetic, where numbers are taken one by one: few of them)
            2 if self.few => self.low - 1 - bits(1, i, 2) * (self.low >> 2),
            3 if self.few => self.high + bits(1, i, 2) * ((u64::MAX - self.high) >> 2),
            0 if self.few => bits(1, i, 2) * (u64::MAX / 3),
            0 => bits(1, i, 64),
            2 => {
                let v = bits(1, i, 64);
                assume(v < self.low);
                v
            },
            3 => {
                let v = bits(1, i, 64);
                assume(v >= self.high);
                v
            },
            5 => if self.pattern >> (i % 64) & 1 != 0 { self.low } else { self.high },
            _ => (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = (self.next_u64() >> 56) as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

const TYPES: [&str; 3] = ["constant", "reziprocal_linear", "reziprocal_square_root"];

/// the density that is meant
pub fn meant(kind: u64, factor: f64, n: usize) -> f64 {
    let m = n as f64 - 1.;
    match kind {
        0 => factor,
        1 => factor / m,
        _ => factor / m.sqrt(),
    }
}

/// neighbours are nodes, others than the node, once, on both sides; the number of edges
pub fn check_graph(g: &SpacialGraph, n: usize, id: u64) -> usize {
    check(g.len() == n, id);
    let mut has = vec![vec![0u64; n]; n];
    let mut k = 0;
    for (i, l) in g.iter().enumerate() {
        for &j in l {
            check(j < n && j != i, id + 1);
            has[i][j] += 1;
            k += 1;
        }
    }
    for i in 0..n {
        for j in 0..n {
            check(has[i][j] <= 1 && has[i][j] == has[j][i], id + 2);
        }
    }
    k / 2
}

/// every node once, depending on nodes of earlier layers, one of them in the last one; the number of pairs of which one
/// comes first
pub fn check_order(o: &PartialOrderGraph, n: usize, id: u64) -> usize {
    let mut before = vec![0u64; n];
    let mut layer = vec![usize::MAX; n];
    for (l, nodes) in o.iter().enumerate() {
        check(!nodes.is_empty(), id);
        for (v, deps) in nodes {
            check(*v < n && layer[*v] == usize::MAX, id + 1);
            layer[*v] = l;
            let mut last = l == 0;
            for d in deps {
                check(*d < n && layer[*d] < l, id + 2);
                last |= layer[*d] + 1 == l;
                before[*v] |= before[*d] | 1 << *d;
            }
            check(last, id + 3);
        }
    }
    check(layer.iter().all(|l| *l != usize::MAX), id + 4);
    before.iter().map(|b| b.count_ones() as usize).sum()
}

/// 1 nodes, 2 density type, 3 its factor times 64, 4 kind of the random numbers, 5: 1 the order, 0 the graph, 9 how many random numbers
/// there may be (0: any)
#[cfg(feature = "inner")]
pub fn sampled() {
    let (n, kind, factor) = (param(1) as usize, param(2), param(3) as f64 / 64.);
    let density = DensityEnum::new(TYPES[kind as usize], factor);
    let want = if n > 1 { meant(kind, factor, n) } else { factor };
    let mut rng = Draws::new(param(4), want);
    let pairs = n * n.saturating_sub(1) / 2;
    let k = if param(5) == 0 {
        let g = get_graph(density, n, &mut rng);
        let e = check_graph(&g, n, 1);
        // every pair is for itself: one number is one edge
        if param(4) == 1 && rng.n == pairs {
            check(e as u64 == rng.lows, 5);
        }
        for l in &g {
            out(1, l.len() as u64);
        }
        e
    } else {
        rng.few = true;
        let o = get_order(density, n, &mut rng);
        let k = check_order(&o, n, 10);
        if param(4) == 1 && rng.n == pairs + n {
            // (the others chose a node)
            check(k as u64 + n as u64 >= rng.lows, 15);
            check(k == 0 || rng.lows > 0, 16);
        }
        for l in &o {
            out(2, l.len() as u64);
        }
        k
    };
    if param(4) == 2 || want >= 1. {
        check(k == pairs, 6);
    }
    if param(4) == 3 || want == 0. {
        check(k == 0, 7);
    }
    reach(1);
}

/// Every pair has a random number that decides it, and nothing else: 1 nodes, 2 density type, 3 its factor times 64,
/// 4 how many numbers are free
#[cfg(feature = "inner")]
pub fn for_itself() {
    let (n, kind, factor) = (param(1) as usize, param(2), param(3) as f64 / 64.);
    let density = DensityEnum::new(TYPES[kind as usize], factor);
    let sample = |pattern| {
        let mut rng = Draws::new(5, meant(kind, factor, n));
        rng.pattern = pattern;
        let g = get_graph(density, n, &mut rng);
        check_graph(&g, n, 1);
        let m: u64 = g.iter().enumerate().flat_map(|(i, l)| l.iter().map(move |j| 1 << (i * n + j))).sum();
        (m, rng.n)
    };
    let free = concretize(bits(1, 0, param(4)));
    let pattern = (free >> 1).wrapping_mul(0x9e3779b97f4a7c15) ^ (free & 1).wrapping_neg();
    let (g, draws) = sample(pattern);
    check(draws <= 64, 8);
    let others: Vec<u64> = (0..draws).map(|t| sample(pattern ^ 1 << t).0).collect();
    for i in 0..n {
        for j in 0..i {
            check(others.contains(&(g ^ (1 << (i * n + j) | 1 << (j * n + i)))), 9);
        }
    }
    out(1, g);
    reach(1);
}

/// The densities, of 2 to 1 nodes.
#[cfg(feature = "inner")]
pub fn densities() {
    let factor = concretize(bits(2, 0, 6)) as f64 / 63.;
    for kind in 0..3 {
        let d = DensityEnum::new(TYPES[kind], factor);
        for n in 2..param(1) as usize {
            check((d.get(n) - meant(kind as u64, factor, n)).abs() < 1e-12, 20);
        }
    }
    let c = ConstantDensity::new(factor);
    check(c.get(0) == factor && c.get(1) == factor, 21);
    reach(1);
    out(1, 1);
}

/// Which of the three searches.
#[derive(PartialEq, Clone, Copy)]
pub enum Role {
    Time,
    Approximate,
    Exact,
}
pub fn role(c: &Call) -> Role {
    match (c.do_search, &c.probabilistic) {
        (false, _) => Role::Time,
        (_, Some(_)) => Role::Approximate,
        _ => Role::Exact,
    }
}
/// the how manieth call of its kind this is
pub fn number(i: usize) -> usize {
    unsafe { CALLS[..i].iter().filter(|c| role(c) == role(&CALLS[i])).count() }
}
pub fn made(costs: &[(usize, usize)]) -> Vec<Path> {
    costs.iter().map(|&(time, space)| Path { time, space, steps: vec![] }).collect()
}
const FIRST: [&[(usize, usize)]; 4] = [&[(3, 5)], &[(7, 2)], &[(1, 1)], &[(4, 4)]];
const SOME: [&[(usize, usize)]; 4] = [&[(2, 9), (3, 4)], &[], &[(5, 6)], &[(1, 8), (4, 7), (6, 3)]];
/// any of these
fn costs(r: Role, k: usize) -> Vec<(usize, usize)> {
    let idx = 3 * k + r as usize;
    let free = param(7) >> idx & 1 != 0;
    let c = if free { concretize(bits(3, idx, 2)) } else { 3 - idx as u64 % 4 } as usize;
    if r == Role::Time { FIRST[c] } else { SOME[c] }.to_vec()
}
fn answer(i: usize) -> Vec<Path> {
    let r = role(unsafe { &CALLS[i] });
    std::thread::sleep(Duration::from_millis(1 + r as u64));
    made(&costs(r, number(i)))
}

/// mean and standard deviation
pub fn statistics(x: &[usize]) -> (f64, f64) {
    let n = x.len() as f64;
    let mean = x.iter().sum::<usize>() as f64 / n;
    (mean, (x.iter().map(|v| (*v as f64 - mean) * (*v as f64 - mean)).sum::<f64>() / n).sqrt())
}
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() < 1e-9 * (1. + b.abs())
}

/// what the library has to be asked for a problem
pub fn check_calls(calls: &[Call], n: usize, timeout: Option<Duration>, exact: bool, id: u64) {
    let each = 2 + exact as usize;
    check(calls.len() == each * NUM_AVERAGE, id);
    for c in calls.chunks(each) {
        for r in [Role::Time, Role::Approximate, Role::Exact] {
            check(c.iter().filter(|c| role(c) == r).count() == (exact || r != Role::Exact) as usize, id + 1);
        }
        for x in c {
            check(x.spacial == c[0].spacial && x.order == c[0].order, id + 2);
            match role(x) {
                Role::Approximate => {
                    check(timeout.is_none() || x.timeout == timeout, id + 3);
                    check(matches!(&x.probabilistic, Some((AcceptFunc::BuiltinHeavyside, _))), id + 3);
                },
                Role::Exact => check(x.timeout.is_none() && x.task_bound.is_none(), id + 4),
                _ => (),
            }
        }
        check_graph(&c[0].spacial, n, id + 5);
        check_order(&c[0].order, n, id + 10);
    }
}

/// Does this seed give the problems of the first point of the sweep, as they were?
#[cfg(feature = "inner")]
pub fn check_seed(seed: u64, n: usize, edge: (u64, f64), correction: (u64, f64), id: u64) {
    use rand::SeedableRng;
    let all = unsafe { CALLS.len() };
    let d = |x: (u64, f64)| DensityEnum::new(TYPES[x.0 as usize], x.1);
    let mut rng = rand_pcg::Pcg64::seed_from_u64(seed);
    do_it(n, d(edge), d(correction), Duration::from_secs(1), &mut rng, false);
    let (old, new) = unsafe { (&CALLS[..all], &CALLS[all..]) };
    for (a, b) in old.iter().filter(|c| role(c) == Role::Time).zip(new.iter().filter(|c| role(c) == Role::Time)) {
        check(a.spacial == b.spacial && a.order == b.order, id);
    }
    unsafe { CALLS.truncate(all) };
}

/// 1 nodes, 6: 1 also exactly, 7: which of the answers are free
#[cfg(feature = "inner")]
pub fn one_point() {
    let (n, full) = (param(1) as usize, param(6) == 1);
    unsafe {
        CALLS.clear();
        ANSWER = Some(answer);
    }
    let mut rng = Draws::new(4, 0.5);
    let timeout = Duration::new(bits(2, 0, 20), bits(2, 1, 20) as u32);
    let begin = Instant::now();
    let (ret, times) =
        do_it(n, ConstantDensity::new(0.5), ReziprocalLinearDensity::new(0.75), timeout, &mut rng, full);
    let total = begin.elapsed();
    check_calls(unsafe { &CALLS }, n, Some(timeout), full, 30);
    check(ret.len() == if full { 8 } else { 4 }, 50);
    // times and spaces of the first and of the last paths
    let all = |r: Role, last: bool, space: bool| -> Vec<usize> {
        (0..NUM_AVERAGE)
            .filter_map(|k| {
                let c = costs(r, k);
                let p = if last { c.last().copied() } else { c.first().copied() };
                p.map(|p| if space { p.1 } else { p.0 })
            })
            .collect()
    };
    let columns = [(Role::Time, false), (Role::Approximate, true), (Role::Exact, false), (Role::Exact, true)];
    for (i, got) in ret.iter().enumerate() {
        let (r, last) = columns[i / 2];
        let x = all(r, last, i % 2 == 1);
        if !x.is_empty() {
            let (mean, deviation) = statistics(&x);
            check(close(got.0, mean), 51);
            check(close(got.1, deviation), 52);
            out(1, (mean * 1000.) as u64);
        }
    }
    // the time that each of them took
    check(times.time_optimal >= Duration::from_millis(1), 53);
    check(times.space_optimal_approximated >= Duration::from_millis(2), 54);
    check(times.full.is_some() == full && times.full.map_or(true, |t| t >= Duration::from_millis(3)), 55);
    let sum = times.time_optimal + times.space_optimal_approximated + times.full.unwrap_or_default();
    check(sum * NUM_AVERAGE as u32 <= total, 56);
    reach(1);
}
