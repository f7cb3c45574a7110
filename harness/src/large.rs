//! Large problems: fixed shapes with few symbolic edges; sets as vectors.
use crate::{gen::*, oracle::All, rt::*, run_with};
use mbqc_scheduling::interface::Path;

pub struct Large {
    n: usize,
    /// adjacency matrix, 0 or 1, may be symbolic
    adj: Vec<u64>,
    /// direct dependencies
    dep: Vec<Vec<usize>>,
    level: Vec<usize>,
    p: Prob,
}

/// 0 n, 3 label seed, 4 layering, 14 dag, 15 symbolic edges, 16 seed, 17 bit 0: a hub, bit 1:
/// a node that depends on all others
fn build() -> Large {
    let n = param(0) as usize;
    let mut r = Lcg(param(16));
    let mut label: Vec<usize> = (0..n).collect();
    if param(3) != 0 {
        let mut q = Lcg(param(3));
        for i in (1..n).rev() {
            label.swap(i, q.next(i as u64 + 1) as usize);
        }
    }
    let mut dep = vec![Vec::new(); n];
    let mut level = vec![0; n];
    let mut order: Vec<Vec<(usize, Vec<usize>)>> = Vec::new();
    for b in 0..n {
        let mut d = Vec::new();
        for a in 0..b {
            let yes = match param(14) {
                1 => a + 1 == b,
                2 => a + 1 == b || (a + 9 > b && r.next(3) == 0),
                3 => a + 2 == b,
                4 => a / 4 + 1 == b / 4 && r.next(2) == 0,
                5 => false,
                6 => a == (b - 1) / 2,
                _ => r.next(n as u64) < 2,
            };
            if yes || (param(17) & 2 != 0 && b + 1 == n) {
                d.push(label[a]);
            }
        }
        let l = d.iter().map(|a| level[*a] + 1).max().unwrap_or(0);
        level[label[b]] = l;
        dep[label[b]] = d.clone();
        let at = if param(4) == 1 && l > 0 { order.len() } else { l };
        while order.len() <= at {
            order.push(Vec::new());
        }
        order[at].push((label[b], d));
    }
    let mut plan = vec![0u8; n * n];
    for i in 0..n {
        // a path, and some more
        if i + 1 < n {
            plan[i * n + i + 1] = 1;
        }
        if param(17) & 1 != 0 {
            let (a, b) = (i.min(label[0]), i.max(label[0]));
            plan[a * n + b] = (a != b) as u8;
        }
        if r.next(2) == 0 {
            let j = r.next(n as u64) as usize;
            if i < j {
                plan[i * n + j] = 1;
            }
        }
    }
    for _ in 0..param(15) {
        let mut i = r.next(n as u64) as usize;
        let mut j = r.next(n as u64) as usize;
        if param(17) & 1 != 0 && r.next(2) == 0 {
            (i, j) = (i.min(label[0]), i.max(label[0]));
        }
        if i < j {
            plan[i * n + j] = 2;
        }
    }
    let mut adj = vec![0u64; n * n];
    for i in 0..n {
        for j in i + 1..n {
            let e = match plan[i * n + j] {
                2 => bits(T_EDGE, i * n + j, 1),
                k => k as u64,
            };
            adj[i * n + j] = e;
            adj[j * n + i] = e;
        }
    }
    let mut space = Vec::new();
    for i in 0..n {
        let mut slot: Vec<u64> = Vec::new();
        let mut len = 0u64;
        for j in 0..n {
            let e = adj[i * n + j];
            let sym = plan[i.min(j) * n + i.max(j)] == 2;
            if !sym {
                if e == 1 {
                    slot.push(0);
                    put(&mut slot, len, j as u64, true);
                    len += 1;
                }
            } else {
                slot.push(0);
                put(&mut slot, len, j as u64, e == 1);
                len += e;
            }
        }
        space.push(list(&slot, len));
    }
    let p = Prob { n, space, order, nb: vec![], dep: vec![], full: 0 };
    Large { n, adj, dep, level, p }
}

fn put(slot: &mut [u64], at: u64, v: u64, yes: bool) {
    for (k, s) in slot.iter_mut().enumerate() {
        *s = ite(and(yes, at == k as u64), v, *s);
    }
}

/// valid, and costs what it says
fn good(l: &Large, path: &Path, valid: u64, costs: u64) {
    let n = l.n;
    let mut done = vec![0u64; n];
    let mut init = vec![0u64; n];
    let mut space = 0u64;
    let mut left = n;
    let mut a = All::new(valid);
    for step in path.steps.iter() {
        a.add(!step.is_empty());
        for v in step.iter() {
            let v = *v;
            if v >= n || done[v] != 0 {
                a.add(false);
                continue;
            }
            // 2: in this step
            done[v] = 2;
            left -= 1;
            for d in l.dep[v].iter() {
                a.add(done[*d] == 1);
            }
            init[v] = 1;
            for u in 0..n {
                let e = l.adj[v * n + u];
                if init[u] != 1 {
                    init[u] |= e;
                }
            }
        }
        let mut mem = 0;
        for u in 0..n {
            if done[u] != 1 {
                mem += init[u];
            }
            if done[u] == 2 {
                done[u] = 1;
            }
        }
        space = max(space, mem);
    }
    a.add(left == 0);
    a.done();
    let mut c = All::new(costs);
    c.add(path.time == path.steps.len());
    c.add(path.space as u64 == space);
    c.done();
}

/// 6: 1 valid, 2 costs, 4 not dominated, 16 the minimal number of steps, 32 some result,
/// 8 only one schedule, which is returned, 64 nothing
#[no_mangle]
pub extern "C" fn h_large() {
    crate::randomness();
    let l = build();
    let what = param(6);
    let r = run_with(&l.p, crate::accept(param(11), param(12)));
    merge(false);
    for path in r.iter() {
        good(&l, path, if what & 1 != 0 { 1 } else { 0 }, if what & 2 != 0 { 2 } else { 0 });
    }
    if what & 4 != 0 {
        crate::oracle::check_nondominated(&r, 3);
    }
    if what & 8 != 0 {
        check(r.len() == 1 && r[0].time == l.n, 4);
    }
    if what & 16 != 0 {
        let critical = l.level.iter().max().unwrap() + 1;
        check(r.len() == 1 && r[0].time == critical, 5);
    }
    if what & 32 != 0 {
        check(!r.is_empty(), 7);
    }
    if what & 64 != 0 {
        check(r.is_empty(), 8);
    }
    crate::observe(&r);
    reach(1);
}
