//! C21: the Python wrapper, /repo/python_lib/rust/src.  This module is added to a copy of its sources; Python is a
//! stand-in (shim/pyo3), and the library's `interface::run` gives what the harness says and keeps what it was given
//! (shim/facade).
#![allow(static_mut_refs, dead_code)]
#[path = "../../harness/src/rt.rs"]
mod rt;
use crate::{
    probabilistic::{AcceptFunc, HeavysideParameters},
    Path, Paths, SpacialGraph,
};
use lib::{
    interface::{self, ANSWER, CALLS},
    probabilistic::AcceptFunc as Real,
};
use pauli_tracker_pyo3::frames::PartialOrderGraph;
use pyo3::{PyAny, PyErr, PyObject, Value};
use rt::*;
use std::{
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

type Order = Vec<Vec<(usize, Vec<usize>)>>;

fn word(tag: u64, i: usize) -> usize {
    bits(tag, i, 64) as usize
}

/// lists of these lengths, of any numbers
fn lists(tag: u64, lens: &[usize]) -> Vec<Vec<usize>> {
    let mut k = 0;
    lens.iter()
        .map(|&l| {
            (0..l)
                .map(|_| {
                    k += 1;
                    word(tag, k)
                })
                .collect()
        })
        .collect()
}
fn same_lists(a: &[Vec<usize>], b: &[Vec<usize>]) -> bool {
    let mut same = a.len() == b.len();
    for (x, y) in a.iter().zip(b.iter()) {
        same = and(same, x.len() == y.len());
        for (x, y) in x.iter().zip(y.iter()) {
            same = and(same, x == y);
        }
    }
    same
}
fn order(tag: u64, lens: &[&[usize]]) -> Order {
    let mut k = 2000;
    lens.iter()
        .enumerate()
        .map(|(i, l)| {
            l.iter()
                .enumerate()
                .map(|(j, &len)| {
                    k += 10;
                    (word(tag, 1000 + 10 * i + j), (0..len).map(|d| word(tag, k + d)).collect())
                })
                .collect()
        })
        .collect()
}
fn same_order(a: &Order, b: &Order) -> bool {
    let mut same = a.len() == b.len();
    for (x, y) in a.iter().zip(b.iter()) {
        same = and(same, x.len() == y.len());
        for (x, y) in x.iter().zip(y.iter()) {
            same = and(same, and(x.0 == y.0, same_lists(&[x.1.clone()], &[y.1.clone()])));
        }
    }
    same
}

const LONG: &[usize] = &[2, 2, 3, 0, 1, 2, 2, 2];
const LENS: [&[usize]; 5] = [&[], &[0, 1], &[2, 0, 3], &[1, 1, 1, 4], &[3; 80]];
const ORDERS: [&[&[usize]]; 5] = [&[], &[&[0]], &[&[0, 0], &[1]], &[&[0], &[1, 2], &[0, 3]], &[LONG; 9]];
/// of the steps of each path
const PATHS: [&[&[usize]]; 5] =
    [&[], &[&[1, 2]], &[&[1, 1, 1], &[2]], &[&[], &[0, 2], &[3]], &[&[5, 1], &[2; 40], &[1; 99], &[7; 30], &[200]]];

/// which of these
static FORM: AtomicUsize = AtomicUsize::new(0);
fn form(i: usize) -> usize {
    FORM.load(Ordering::Relaxed) / [0, 1, 5, 25][i] % 5
}

fn path(i: usize) -> interface::Path {
    let lens = PATHS[form(3)][i];
    interface::Path { time: word(30, i), space: word(31, i), steps: lists(40 + i as u64, lens) }
}
fn paths(_: usize) -> Vec<interface::Path> {
    (0..PATHS[form(3)].len()).map(path).collect()
}
fn same_path(a: &interface::Path, time: usize, space: usize, steps: &[Vec<usize>]) -> bool {
    and(and(a.time == time, a.space == space), same_lists(&a.steps, steps))
}
fn check_paths(got: &[Path], id: u64) {
    let want = paths(0);
    check(got.len() == want.len(), id);
    for (g, w) in got.iter().zip(want.iter()) {
        check(same_path(w, g.time, g.space, &g.steps), id);
    }
}

/// any of the choices, or none
fn option<T>(idx: usize, f: impl FnOnce() -> T) -> Option<T> {
    bit(1, idx).then(f)
}
fn real(i: usize) -> f64 {
    f64::from_bits(bits(6, i, 64))
}

static ARGS: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![]);

fn callback() -> PyObject {
    PyObject::of(Value::Function(Arc::new(|a| {
        ARGS.lock().unwrap().push(a.iter().map(|x| x.to_bits()).collect());
        Ok(Value::Float(real(10)))
    })))
}
fn parameters() -> HeavysideParameters {
    let e = |i| bits(5, i, 32) as i32;
    HeavysideParameters::__new__(f64::from_bits(bits(5, 0, 64)), e(1), e(2), e(3), e(4), e(5))
}
fn check_parameters(f: &Real, id: u64) {
    let e = |i| bits(5, i, 32) as i32;
    match f {
        Real::ParametrizedHeavyside { param: p } => {
            check(p.cutoff.to_bits() == bits(5, 0, 64), id);
            check(p.lin_num_total_nodes_exp == e(1), id);
            check(p.exp_num_total_nodes_exp == e(2), id);
            check(p.exp_num_remaining_nodes_exp == e(3), id);
            check(p.exp_diff_exp == e(4), id);
            check(p.exp_num_measured_nodes_exp == e(5), id);
        },
        _ => check(false, id),
    }
}
fn check_callback(f: &Real, id: u64) {
    match f {
        Real::Custom(f) => {
            let a: Vec<f64> = (0..7).map(real).collect();
            let n = ARGS.lock().unwrap().len();
            let r = f(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            let calls = ARGS.lock().unwrap();
            check(calls.len() == n + 1 && calls[n].len() == 7, id);
            for i in 0..7 {
                check(calls[n][i] == bits(6, i, 64), id);
            }
            check(r.to_bits() == bits(6, 10, 64), id);
        },
        _ => check(false, id),
    }
}
fn made<T>(r: Result<T, PyErr>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(_) => None,
    }
}
fn accept(kind: u64) -> Option<AcceptFunc> {
    let name = match kind {
        0 => return None,
        1 => AcceptFunc::__new____kind().unwrap_or("".into()),
        2 => "ParametrizedHeavyside".to_string(),
        3 => "Custom".to_string(),
        _ => "BuiltinHeavyside".to_string(),
    };
    // what is not needed is allowed, but ignored
    let p = (kind == 2 || param(5) == 1).then(parameters);
    let f = (kind == 3 || param(5) == 1).then(callback);
    let r = made(AcceptFunc::__new__(name, p, f));
    check(r.is_some(), 20);
    r
}

fn clear() {
    unsafe {
        CALLS.clear();
        ANSWER = Some(paths);
        pyo3::WARNINGS.clear();
        pyo3::STRICT = false;
    }
    ARGS.lock().unwrap().clear();
}

/// For the forms from 1 to 2 of graph, order and paths: 4 accept function (0 none, 1 default, 2 with
/// parameters, 3 function, 4 builtin), 5: 1 with what is not needed, 6 where the order comes from (0 this library, 1 a
/// foreign class, 2 a class without a graph, 3 whose method fails, 4 a graph of the wrong type, 5 warnings are errors)
fn run_from_python() {
    let g = lists(2, LENS[form(1)]);
    let o = order(3, ORDERS[form(2)]);
    let graph = SpacialGraph::__new__(g.clone());
    let foreign = |r| PyAny(Value::Method("into_py_graph", r));
    let from = match param(6) {
        0 => PyAny(Value::Instance(Arc::new(PartialOrderGraph(o.clone())))),
        1 | 5 => foreign(Ok(Box::new(Value::Graph(o.clone())))),
        2 => PyAny(Value::None),
        3 => foreign(Err(PyErr { kind: "PyRuntimeError", msg: "".into() })),
        _ => foreign(Ok(Box::new(Value::Float(1.)))),
    };
    unsafe { pyo3::STRICT = param(6) == 5 };
    let search = bit(1, 0);
    let secs = option(1, || bits(4, 1, 32) as u32);
    let threads = bits(4, 2, 16) as u16;
    let bound = option(3, || bits(4, 3, 32) as u32);
    let func = accept(param(4));
    let seed = option(4, || bits(4, 4, 64));
    let with = func.map(|f| (f, seed));
    let r = crate::run(&graph, &from, search, secs, threads, with, bound);
    let calls = unsafe { &CALLS };
    check(same_lists(&graph.0, &g), 1);
    let refused = param(4) == 3 && threads > 1;
    if refused || param(6) > 1 {
        check(r.is_err() && calls.is_empty(), 2);
        if refused && param(6) == 0 {
            check(matches!(&r, Err(e) if e.kind == "PyValueError"), 3);
        }
        reach(2);
        return;
    }
    check(unsafe { pyo3::WARNINGS.len() } == (param(6) == 1) as usize, 4);
    let Some(p) = made(r) else { return check(false, 5) };
    check(calls.len() == 1, 6);
    let c = &calls[0];
    check(same_lists(&c.spacial, &g), 7);
    check(same_order(&c.order, &o), 8);
    check(c.do_search == search, 9);
    // only a search uses the rest
    if search {
        match (c.timeout, secs) {
            (None, None) => (),
            (Some(t), Some(s)) => check(t == Duration::new(s as u64, 0), 10),
            _ => check(false, 10),
        }
        // none is one
        check(max(c.nthreads as u64, 1) == max(threads as u64, 1), 11);
        match (c.task_bound, bound) {
            (None, None) => (),
            (Some(a), Some(b)) => check(a == b, 12),
            _ => check(false, 12),
        }
        match (&c.probabilistic, param(4)) {
            (None, 0) => (),
            (Some((f, s)), k @ 1..) => {
                match (s, seed) {
                    (None, None) => (),
                    (Some(a), Some(b)) => check(*a == b, 13),
                    _ => check(false, 13),
                }
                match k {
                    2 => check_parameters(f, 14),
                    3 => check_callback(f, 15),
                    _ => check(matches!(f, Real::BuiltinHeavyside), 16),
                }
            },
            _ => check(false, 17),
        }
    }
    // and what it gives is what Python gets
    converted(p);
    reach(1);
}

/// The paths that `paths` gives.
fn converted(mut p: Paths) {
    check(p.0.len() == paths(0).len(), 30);
    for (g, w) in p.0.iter().zip(paths(0).iter()) {
        check(same_path(w, g.time, g.space, &g.steps), 30);
    }
    check_paths(&p.into_py_paths(), 31);
    check_paths(&p.into_py_paths(), 32);
    check_paths(&p.take_into_py_paths(), 33);
    check(p.0.is_empty() && p.into_py_paths().is_empty(), 34);
    out(1, paths(0).len() as u64);
}

/// Objects made in Python.
fn conversions() {
    let g = lists(2, LENS[form(1)]);
    let mut graph = SpacialGraph::__new__(g.clone());
    graph.__init__(g.clone());
    check(same_lists(&graph.into_py_graph(), &g), 40);
    check(same_lists(&graph.into_py_graph(), &g), 40);
    check(same_lists(&graph.take_into_py_graph(), &g), 41);
    check(graph.into_py_graph().is_empty(), 42);
    let ps: Vec<Path> = paths(0)
        .into_iter()
        .map(|p| {
            let q = Path::__new__(p.time, p.space, p.steps.clone());
            q.__init__(p.time, p.space, p.steps.clone());
            check(same_path(&p, q.time, q.space, &q.steps), 43);
            q
        })
        .collect();
    let p = Paths::__new__(ps.clone());
    p.__init__(ps);
    converted(p.clone());
    converted(p);
    reach(1);
}

/// The accept functions that there are, and are not.
fn constructors() {
    let new = |k: &str, p: bool, f: bool| {
        AcceptFunc::__new__(k.to_string(), p.then(parameters), f.then(callback))
    };
    for k in 0..4 {
        let (p, f) = (k & 1 != 0, k & 2 != 0);
        match new("BuiltinHeavyside", p, f) {
            Ok(a) => {
                a.__init__("BuiltinHeavyside".into(), None, None);
                check(matches!(a.to_real(), Real::BuiltinHeavyside), 50);
            },
            Err(_) => check(false, 50),
        }
        match new("ParametrizedHeavyside", p, f) {
            Ok(a) if p => {
                check_parameters(&a.to_real(), 51);
                check_parameters(&a.clone().to_real(), 51);
            },
            Err(e) if !p => check(e.kind == "PyValueError", 52),
            _ => check(false, 51),
        }
        match new("Custom", p, f) {
            Ok(a) if f => {
                check_callback(&a.to_real(), 53);
                check_callback(&a.to_real(), 53);
            },
            Err(e) if !f => check(e.kind == "PyValueError", 52),
            _ => check(false, 53),
        }
        for wrong in ["", "builtinheavyside", "Heavyside", "custom", "BuiltinHeavyside ", "Parametrized"] {
            check(matches!(new(wrong, p, f), Err(e) if e.kind == "PyValueError"), 54);
        }
    }
    out(1, 1);
    reach(1);
}

/// What Python sees, and the default values of the arguments.
fn surface() {
    use crate::*;
    let Some(m) = made(_lib__module()) else { return check(false, 60) };
    let names = m.members.borrow();
    for n in [
        "SpacialGraph",
        "PartialOrderGraph",
        "Paths",
        "Path",
        "run",
        "probabilistic.AcceptFunc",
        "probabilistic.HeavysideParameters",
    ] {
        check(names.iter().any(|x| x == n), 61);
    }
    check(run__do_search() == Some(false), 62);
    check(run__timeout() == Some(None), 63);
    check(run__nthreads() == Some(1), 64);
    check(matches!(run__probabilistic(), Some(None)), 65);
    check(run__task_bound() == Some(None), 66);
    check(AcceptFunc::__new____kind().as_deref() == Some("BuiltinHeavyside"), 67);
    check(matches!(AcceptFunc::__new____heavyside_parameters(), Some(None)), 68);
    check(matches!(AcceptFunc::__new____custom_func(), Some(None)), 69);
    out(1, names.len() as u64);
    reach(1);
}

fn forms(f: impl Fn()) {
    for k in param(1)..param(2) {
        clear();
        FORM.store(k as usize, Ordering::Relaxed);
        f();
    }
}

/// 0 what to do, with which forms
#[no_mangle]
pub extern "C" fn h_wrapper() {
    clear();
    match param(0) {
        0 => forms(run_from_python),
        1 => forms(conversions),
        2 => constructors(),
        _ => surface(),
    }
}
