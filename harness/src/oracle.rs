//! What the answers have to be, written from the documentation alone: bit masks and a
//! dynamic program over the sets of measured nodes; no branches on symbolic values.
use crate::{gen::Prob, rt::*};
use mbqc_scheduling::interface::Path;

pub const INF: u64 = 200;

/// Collects conditions; asserted once (one query) by `done`.
pub struct All {
    ok: bool,
    id: u64,
}
impl All {
    pub fn new(id: u64) -> Self {
        All { ok: true, id }
    }
    pub fn add(&mut self, c: bool) {
        self.ok = and(self.ok, c);
    }
    pub fn done(self) {
        if self.id != 0 {
            check(self.ok, self.id)
        }
    }
}

pub fn closed(p: &Prob, m: u64) -> u64 {
    let mut r = m;
    for v in 0..p.n {
        if m >> v & 1 == 1 {
            r |= p.nb[v];
        }
    }
    r
}

pub fn count(n: usize, x: u64) -> u64 {
    let mut r = 0;
    for v in 0..n {
        r += x >> v & 1;
    }
    r
}

/// The number of qubits in memory while `s` is measured, when `m` has been measured
/// before: everything initialised so far, without `m`.
pub fn peak(p: &Prob, m: u64, s: u64) -> u64 {
    count(p.n, closed(p, m | s) & !m)
}

/// The number of qubits in memory after `m` has been measured.
pub fn held(p: &Prob, m: u64) -> u64 {
    count(p.n, closed(p, m) & !m)
}

/// A valid schedule: every node measured exactly once, in non-empty steps, after all it
/// depends on.
pub fn check_valid(p: &Prob, steps: &[Vec<usize>], id: u64) {
    let mut a = All::new(id);
    let mut done = 0u64;
    for step in steps.iter() {
        a.add(!step.is_empty());
        let mut s = 0u64;
        for v in step.iter() {
            let v = concretize(*v as u64) as usize;
            if v >= p.n {
                a.add(false);
                continue;
            }
            // not twice
            a.add((done | s) >> v & 1 == 0);
            // dependencies in strictly earlier steps
            a.add(p.dep[v] & !done == 0);
            s |= 1 << v;
        }
        done |= s;
    }
    a.add(done == p.full);
    a.done();
}

/// The space that the steps need.
pub fn space_of(p: &Prob, steps: &[Vec<usize>]) -> u64 {
    let mut done = 0u64;
    let mut space = 0u64;
    for step in steps.iter() {
        let mut s = 0u64;
        for v in step.iter() {
            let v = concretize(*v as u64) as usize;
            if v < p.n {
                s |= 1 << v;
            }
        }
        space = max(space, peak(p, done, s));
        done |= s;
    }
    space
}

/// The costs are those of the steps.
pub fn check_costs(p: &Prob, path: &Path, id: u64) {
    check(and(path.time == path.steps.len(), path.space as u64 == space_of(p, &path.steps)), id);
}

/// `r[t]`: the minimal space of the schedules with exactly `t` steps.
pub fn front(p: &Prob) -> [u64; 17] {
    let n = p.n;
    let size = 1usize << n;
    // cost[m][t]: all of m measured in exactly t steps
    let mut cost = vec![[INF; 17]; size];
    // concrete: is there such a schedule?
    let mut some = vec![0u32; size];
    cost[0][0] = 0;
    some[0] = 1;
    for m in 0..size as u64 {
        if some[m as usize] == 0 {
            continue;
        }
        let mut avail = 0u64;
        for v in 0..n {
            if m >> v & 1 == 0 && p.dep[v] & !m == 0 {
                avail |= 1 << v;
            }
        }
        let mut s = avail;
        while s != 0 {
            let pk = peak(p, m, s);
            for t in 0..n {
                if some[m as usize] >> t & 1 == 0 {
                    continue;
                }
                let c = max(cost[m as usize][t], pk);
                let to = (m | s) as usize;
                cost[to][t + 1] = min(cost[to][t + 1], c);
                some[to] |= 2 << t;
            }
            s = (s - 1) & avail;
        }
    }
    cost[size - 1]
}

/// `paths` is the Pareto front: sorted by time, strictly decreasing space, all best.
pub fn check_front(p: &Prob, paths: &[Path], id: u64) {
    let f = front(p);
    let mut a = All::new(id);
    let mut i = 0;
    let mut best = INF;
    for t in 0..=p.n {
        let better = f[t] < best;
        if i < paths.len() && paths[i].time == t {
            a.add(better);
            a.add(paths[i].space as u64 == f[t]);
            i += 1;
        } else {
            a.add(!better);
        }
        best = min(best, f[t]);
    }
    a.add(i == paths.len());
    a.done();
}

/// Sorted by time, and nothing is dominated by anything else.
pub fn check_nondominated(paths: &[Path], id: u64) {
    let mut a = All::new(id);
    for i in 1..paths.len() {
        a.add(paths[i - 1].time < paths[i].time);
        a.add(paths[i - 1].space > paths[i].space);
    }
    a.done();
}

/// The number of nodes on the longest chain of dependencies.
pub fn critical(p: &Prob) -> usize {
    let mut len = [0usize; 16];
    for _ in 0..p.n {
        for v in 0..p.n {
            let mut l = 0;
            for u in 0..p.n {
                if p.dep[v] >> u & 1 == 1 && len[u] > l {
                    l = len[u];
                }
            }
            len[v] = l + 1;
        }
    }
    (0..p.n).map(|v| len[v]).max().unwrap_or(0)
}
