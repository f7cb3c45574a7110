//! The entry points: each one builds symbolic inputs, calls the real code of /repo and
//! asserts one property.  `h_run` covers `interface::run`; the other modules cover the
//! building blocks.
mod blocks;
#[cfg(feature = "cli")]
mod cli;
mod gen;
mod large;
mod oracle;
mod rt;
mod serial;
mod timing;

use std::{sync::atomic::*, time::Duration};

use gen::*;
use mbqc_scheduling::{interface, probabilistic::*};
use oracle::*;
use rt::*;

pub fn observe(paths: &[interface::Path]) {
    out(1, paths.len() as u64);
    for p in paths {
        out(2, p.time as u64);
        out(3, p.space as u64);
        for s in p.steps.iter() {
            out(4, s.len() as u64);
            for v in s.iter() {
                out(5, *v as u64);
            }
        }
    }
}

// what to assert
const VALID: u64 = 1;
const COSTS: u64 = 2;
const NONDOM: u64 = 4;
const FRONT: u64 = 8;
const MINTIME: u64 = 16;
const SOME: u64 = 32;
const FAST: u64 = 128;
const EMPTY: u64 = 64;
const TOLD: u64 = 256;

pub fn judge(p: &Prob, r: &[interface::Path], what: u64) {
    merge(false);
    for path in r.iter() {
        if what & VALID != 0 {
            check_valid(p, &path.steps, 1);
        }
        if what & COSTS != 0 {
            check_costs(p, path, 2);
        }
    }
    if what & NONDOM != 0 {
        check_nondominated(r, 3);
    }
    if what & FRONT != 0 {
        check_front(p, r, 4);
    }
    if what & MINTIME != 0 {
        check(r.len() == 1, 5);
        check(r[0].time == critical(p) && r[0].steps.len() == r[0].time, 6);
    }
    if what & SOME != 0 {
        check(!r.is_empty(), 7);
    }
    if what & FAST != 0 {
        // there is a path with the minimal number of steps
        check(!r.is_empty() && r[0].time == critical(p), 9);
    }
    if what & EMPTY != 0 {
        check(r.is_empty(), 8);
    }
    if what & TOLD != 0 {
        check_told(r, 11);
    }
    observe(r);
    reach(1);
}

static CALLS: AtomicUsize = AtomicUsize::new(0);

/// The lowest memory of a complete path that an accept function has been told of.
/// (Not an atomic: it is no point where threads are switched.)
struct Lowest(std::cell::UnsafeCell<u64>);
unsafe impl Sync for Lowest {}
impl Lowest {
    fn get(&self) -> u64 {
        unsafe { *self.0.get() }
    }
    fn set(&self, v: u64) {
        unsafe { *self.0.get() = v }
    }
}
static LOWEST: Lowest = Lowest(std::cell::UnsafeCell::new(u64::MAX));

fn told(memory: f64) {
    let m = memory as u64;
    LOWEST.set(min(m, LOWEST.get()));
}

/// There is a path that is not worse than what the accept function has been told of.
fn check_told(r: &[interface::Path], id: u64) {
    let low = LOWEST.get();
    let mut some = low == u64::MAX;
    for p in r {
        some = or(some, p.space as u64 <= low);
    }
    check(some, id);
}

/// The accept functions: 1 all decisions free (the first `k` calls; then accept), 2 the
/// same, then reject, 3 always, 4 never, 5 builtin, 6 parametrized with the builtin's
/// parameters, 7 a free function of the memory held and of the nodes left, 8 accept with
/// probability 0.5, 9 not a number, 10 accept with infinite / reject with negative
/// infinite probability, 11, 12 different probabilities for the first `k` calls, then 1 / 0.
pub fn accept(kind: u64, k: u64) -> Option<AcceptFunc> {
    CALLS.store(0, Ordering::Relaxed);
    LOWEST.set(u64::MAX);
    match kind {
        0 => None,
        1 | 2 => Some(AcceptFunc::Custom(Box::new(move |_, best, _, _, _, _, _| {
            told(best);
            let i = CALLS.fetch_add(1, Ordering::Relaxed);
            let yes = if (i as u64) < k { bit(T_ACC, i) } else { kind == 1 };
            if yes {
                2.
            } else {
                -1.
            }
        }))),
        3 => Some(AcceptFunc::Custom(Box::new(|_, _, _, _, _, _, _| 1.))),
        4 => Some(AcceptFunc::Custom(Box::new(|_, _, _, _, _, _, _| 0.))),
        5 => Some(AcceptFunc::BuiltinHeavyside),
        6 => Some(AcceptFunc::ParametrizedHeavyside {
            param: HeavysideParameters {
                cutoff: 0.,
                lin_num_total_nodes_exp: 2,
                exp_num_total_nodes_exp: 1,
                exp_num_remaining_nodes_exp: 1,
                exp_diff_exp: 3,
                exp_num_measured_nodes_exp: 1,
            },
        }),
        8 => Some(AcceptFunc::Custom(Box::new(|_, _, _, _, _, _, _| 0.5))),
        9 => Some(AcceptFunc::Custom(Box::new(|_, _, _, _, _, _, _| f64::NAN))),
        10 => Some(AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
            let i = CALLS.fetch_add(1, Ordering::Relaxed);
            if (i as u64) < k && bit(T_ACC, i) {
                f64::NEG_INFINITY
            } else {
                f64::INFINITY
            }
        }))),
        11 | 12 => Some(AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
            let i = CALLS.fetch_add(1, Ordering::Relaxed) as u64;
            if i >= k {
                (kind == 11) as u64 as f64
            } else {
                [0.5, 1e-9, 0.999999999, f64::EPSILON][i as usize % 4]
            }
        }))),
        _ => Some(AcceptFunc::Custom(Box::new(move |_, _, _, _, cur, left, _| {
            let key = left as u64 * 8 + cur as u64;
            let mut r = 0u64;
            for i in 0..k {
                r |= and(key == i, bits(T_ACC, i as usize, 1) != 0) as u64;
            }
            if r != 0 {
                2.
            } else {
                -1.
            }
        }))),
    }
}

/// 21: 1: the random numbers are any numbers, but the same ones for the same seed, 2: any
fn randomness() {
    rand_pcg::free::free(param(21));
}

/// The problem of a job: 0 n, 1 cube_bits, 2 cube, 3 perm, 4 layering, 5 rev,
/// 14 dag, 15 graph, 16 seed of the shape
pub fn job() -> Prob {
    let f = Form { perm: param(3), layering: param(4), rev: param(5) };
    let s = Shape {
        dag: param(14),
        cube_bits: param(1),
        cube: param(2),
        graph: param(15),
        seed: param(16),
    };
    problem(param(0) as usize, f, s)
}

/// interface::run on every problem of the job.
///
/// 6 what, 7 search, 8 nthreads, 9 task_bound + 1 (0: none), 10 timeout in ms + 1
/// (0: none), 11 accept kind, 12 free decisions, 13 seed + 1 (0: none), 22 any seed, 21 see
/// there
#[no_mangle]
pub extern "C" fn h_run() {
    randomness();
    let p = job();
    scoped_threadpool::EXECUTED.store(0, Ordering::Relaxed);
    let r = run(&p);
    if param(9) != 0 {
        // the tasks that were asked for, and the one that does the rest
        check(scoped_threadpool::EXECUTED.load(Ordering::Relaxed) <= param(9), 10);
    }
    judge(&p, &r, param(6));
}

/// The same call, twice: the same answer.
#[no_mangle]
pub extern "C" fn h_twice() {
    randomness();
    let p = job();
    let a = run(&p);
    let b = run(&p);
    merge(false);
    same(&a, &b, 1);
    observe(&a);
    reach(1);
}

pub fn same(a: &[interface::Path], b: &[interface::Path], id: u64) {
    let mut all = All::new(id);
    all.add(a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) {
        all.add(x.time == y.time);
        all.add(x.space == y.space);
        all.add(x.steps.len() == y.steps.len());
        for (s, t) in x.steps.iter().zip(y.steps.iter()) {
            all.add(s.len() == t.len());
            for (u, v) in s.iter().zip(t.iter()) {
                all.add(u == v);
            }
        }
    }
    all.done();
}

pub fn run(p: &Prob) -> Vec<interface::Path> {
    run_with(p, accept(param(11), param(12)))
}

pub fn run_with(p: &Prob, accept: Option<AcceptFunc>) -> Vec<interface::Path> {
    let opt = |i: usize| if param(i) == 0 { None } else { Some(param(i) - 1) };
    let seed = if param(22) == 1 { Some(bits(T_MISC, 600, 64)) } else { opt(13) };
    interface::run(
        &p.space,
        &p.order,
        param(7) != 0,
        opt(10).map(Duration::from_millis),
        param(8) as u16,
        opt(9).map(|b| b as u32),
        accept.map(|a| (a, seed)),
    )
}
