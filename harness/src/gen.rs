//! Symbolic problems.
use crate::rt::*;

pub const T_DEP: u64 = 1;
pub const T_EDGE: u64 = 2;
pub const T_ACC: u64 = 3;
pub const T_MISC: u64 = 4;

pub struct Prob {
    pub n: usize,
    pub space: Vec<Vec<usize>>,
    pub order: Vec<Vec<(usize, Vec<usize>)>>,
    /// neighbours as bit masks (may be symbolic)
    pub nb: Vec<u64>,
    /// direct dependencies as bit masks (concrete)
    pub dep: Vec<u64>,
    pub full: u64,
}

/// Deterministic choice of test shapes (not part of what is proved: it selects which
/// part of the input space a job covers).
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self, m: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % m
    }
}

/// The `k`th permutation of 0..n (factorial number system).
pub fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut r = Vec::new();
    for i in (1..=n as u64).rev() {
        r.push(rest.remove((k % i) as usize));
        k /= i;
    }
    r
}

/// How the input is presented.  None of it changes the problem.
#[derive(Clone, Copy)]
pub struct Form {
    /// labels along the time ordering
    pub perm: u64,
    /// 0: each node in the earliest possible layer, 1: one new layer for each node with
    /// dependencies
    pub layering: u64,
    /// order in the lists: bit 0 layers descending, bit 1 dependencies descending, bit 2
    /// neighbours descending
    pub rev: u64,
}

/// Which problems a job covers.
#[derive(Clone, Copy)]
pub struct Shape {
    /// 0: every dependency relation, except that the first `cube_bits` dependency bits
    /// are those of `cube`; otherwise a fixed one, see `depends`
    pub dag: u64,
    pub cube_bits: u64,
    pub cube: u64,
    /// 0: every graph; k + 1: k symbolic edges on top of a graph chosen by `seed`
    pub graph: u64,
    pub seed: u64,
}

/// Does the `b`th node depend on the `a`th one, a < b?
fn depends(s: &Shape, r: &mut Lcg, n: usize, a: usize, b: usize) -> bool {
    match s.dag {
        1 => a + 1 == b,
        2 => true,
        3 => a + 2 == b,
        4 => a / 2 + 1 == b / 2,
        5 => false,
        6 => a == 0,
        7 => b + 1 == n,
        8 => a / 3 + 1 == b / 3,
        9 => r.next(2) == 0,
        10 => r.next(3) == 0,
        11 => r.next(4) != 0,
        12 => a + 3 == b,
        // a chain, and the last one or two nodes for themselves
        13 => a + 1 == b && b + 1 < n,
        14 => a + 1 == b && b + 2 < n,
        15 => r.next(5) == 0,
        _ => b == 1 && a == 0,
    }
}

pub fn problem(n: usize, f: Form, s: Shape) -> Prob {
    let label = permutation(n, f.perm);
    let mut dep = vec![0u64; n];
    let mut k = 0;
    let mut order: Vec<Vec<(usize, Vec<usize>)>> = Vec::new();
    let mut level = vec![0usize; n];
    let mut r = Lcg(s.seed);
    for b in 0..n {
        let mut deps = Vec::new();
        let mut lv = 0;
        for a in 0..b {
            let d = if s.dag != 0 {
                depends(&s, &mut r, n, a, b)
            } else if k < s.cube_bits {
                s.cube >> k & 1 == 1
            } else {
                concretize(bits(T_DEP, k as usize, 1)) == 1
            };
            k += 1;
            if d {
                deps.push(label[a]);
                dep[label[b]] |= 1 << label[a];
                if level[a] + 1 > lv {
                    lv = level[a] + 1;
                }
            }
        }
        if f.layering == 1 && lv > 0 {
            lv = order.len();
        }
        level[b] = lv;
        if order.len() <= lv {
            order.push(Vec::new());
        }
        if f.rev & 2 != 0 {
            deps.reverse();
        }
        order[lv].push((label[b], deps));
    }
    for layer in order.iter_mut() {
        if f.rev & 1 != 0 {
            layer.reverse();
        }
    }
    let (space, nb) = graph(n, f.rev & 4 != 0, &s);
    Prob { n, space, order, nb, dep, full: (1 << n) - 1 }
}

/// The adjacency matrix of the job: 0 no edge, 1 an edge, 2 symbolic.
fn plan(n: usize, s: &Shape) -> Vec<u8> {
    if s.graph == 0 {
        return vec![2; n * n];
    }
    let mut r = Lcg(s.seed ^ 0x9e3779b97f4a7c15);
    let mut m = vec![0u8; n * n];
    // from sparse to nearly complete
    let dense = 2 + r.next(3);
    let inverse = r.next(2) == 0;
    let dense = if inverse { dense * dense } else { dense };
    for i in 0..n {
        for j in i + 1..n {
            m[i * n + j] = ((r.next(dense) == 0) != inverse) as u8;
        }
    }
    let mut left = s.graph - 1;
    let mut tries = 0;
    while left > 0 && tries < 1000 {
        tries += 1;
        let i = r.next(n as u64) as usize;
        let j = r.next(n as u64) as usize;
        if i < j && m[i * n + j] != 2 {
            m[i * n + j] = 2;
            left -= 1;
        }
    }
    m
}

fn edge(n: usize, m: &[u8], i: usize, j: usize) -> u64 {
    let (a, b) = if i < j { (i, j) } else { (j, i) };
    match m[a * n + b] {
        2 => bits(T_EDGE, a * n + b, 1),
        k => k as u64,
    }
}

/// Graphs as adjacency lists of symbolic length and content.
pub fn graph(n: usize, descending: bool, s: &Shape) -> (Vec<Vec<usize>>, Vec<u64>) {
    let m = plan(n, s);
    let mut nb = vec![0u64; n];
    let mut space = Vec::with_capacity(n);
    for i in 0..n {
        let mut slot = vec![0u64; n];
        let mut len = 0u64;
        let mut at = 0;
        for jj in 0..n {
            let j = if descending { n - 1 - jj } else { jj };
            if j == i {
                continue;
            }
            let e = edge(n, &m, i, j);
            nb[i] |= e << j;
            for k in 0..=at {
                let here = and(e == 1, len == k as u64);
                slot[k] = ite(here, j as u64, slot[k]);
            }
            len += e;
            at += 1;
        }
        space.push(list(&slot[..at], len));
    }
    (space, nb)
}

/// A vector of the first `len` of the values; `len` may be symbolic.
pub fn list(v: &[u64], len: u64) -> Vec<usize> {
    let mut r: Vec<usize> = Vec::with_capacity(v.len().max(1));
    unsafe {
        for (k, x) in v.iter().enumerate() {
            *r.as_mut_ptr().add(k) = *x as usize;
        }
        r.set_len(len as usize);
    }
    r
}

/// A problem without any symbolic choice: the same for everything that runs twice.
pub fn concrete_graph(p: &mut Prob) {
    for i in 0..p.n {
        let mut v = Vec::new();
        let mut m = 0u64;
        for j in 0..p.n {
            if j != i && concretize(p.nb[i] >> j & 1) == 1 {
                v.push(j);
                m |= 1 << j;
            }
        }
        p.space[i] = v;
        p.nb[i] = m;
    }
}
