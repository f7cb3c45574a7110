//! The program itself: /repo's main.rs, whose calls of the library go through `recorder`.
use crate::{gen::*, job, oracle::*, rt::*};
use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use std::{
    sync::{atomic::*, Mutex},
    time::Duration,
};

/// What the program passes on.
pub struct Call {
    files: [String; 3],
    formats: [String; 3],
    search: bool,
    timeout: Option<Duration>,
    nthreads: u16,
    task_bound: Option<u32>,
    accept: Option<[f64; 2]>,
}

static CALLS: Mutex<Vec<Call>> = Mutex::new(vec![]);
static FORWARD: AtomicBool = AtomicBool::new(true);

/// The library, with a look at the calls of `run_serialized`.
pub mod recorder {
    pub use ::mbqc_scheduling::*;
    pub mod interface {
        use ::mbqc_scheduling::{interface as real, probabilistic::AcceptFunc};
        #[allow(unused_imports)]
        pub use real::*;
        use std::{path::Path, time::Duration};
        pub fn run_serialized(
            spacial_graph: (impl AsRef<Path>, &str),
            dependency_graph: (impl AsRef<Path>, &str),
            do_search: bool,
            timeout: Option<Duration>,
            nthreads: u16,
            task_bound: Option<u32>,
            probablistic: Option<AcceptFunc>,
            paths: (impl AsRef<Path>, &str),
        ) -> Result<(), Box<dyn std::error::Error>> {
            let name = |p: &Path| p.to_str().unwrap_or("?").to_string();
            super::super::CALLS.lock().unwrap().push(super::super::Call {
                files: [name(spacial_graph.0.as_ref()), name(dependency_graph.0.as_ref()), name(paths.0.as_ref())],
                formats: [spacial_graph.1.into(), dependency_graph.1.into(), paths.1.into()],
                search: do_search,
                timeout,
                nthreads,
                task_bound,
                accept: probablistic.as_ref().map(super::super::values),
            });
            if super::super::FORWARD.load(std::sync::atomic::Ordering::Relaxed) {
                real::run_serialized(
                    spacial_graph,
                    dependency_graph,
                    do_search,
                    timeout,
                    nthreads,
                    task_bound,
                    probablistic,
                    paths,
                )
                .map_err(|e| e.into())
            } else {
                Ok(())
            }
        }
    }
}

mod program {
    use super::recorder as mbqc_scheduling;
    include!("/repo/mbqc_scheduling/src/main.rs");
    pub fn go() {
        main()
    }
}

extern "C" {
    fn symx_args(argc: u64, argv: *const *const u8);
    fn symx_may_exit(on: u64);
}

/// The accept function at two points.
fn values(f: &AcceptFunc) -> [f64; 2] {
    let f = match f {
        // (not the function itself: it would be asked too often)
        AcceptFunc::Custom(_) => return [-1., -1.],
        AcceptFunc::BuiltinHeavyside => AcceptFunc::BuiltinHeavyside,
        AcceptFunc::ParametrizedHeavyside { param } => AcceptFunc::ParametrizedHeavyside { param: *param },
    };
    let f = f.get_accept_func();
    [f(5., 5., 2., 2., 3., 4., 9.), f(7., 6., 1., 2., 2., 1., 5.)]
}

/// An argument list, for as long as the program runs.
struct Argv(Vec<*const u8>);

impl Argv {
    fn add(&mut self, mut s: Vec<u8>) {
        s.push(0);
        self.0.push(Box::leak(s.into_boxed_slice()).as_ptr());
    }
    /// An option with a value; 0 `-n 3`, 1 `-n3`, 2 `--nthreads 3`, 3 `--nthreads=3`, 4 `-n=3`
    fn option(&mut self, short: &str, long: &str, how: u64, value: &[u8]) {
        let with = |a: &str, b: &str| [a.as_bytes(), b.as_bytes(), value].concat();
        match how {
            0 | 2 => {
                self.add(if how == 0 { short } else { long }.into());
                self.add(value.to_vec());
            },
            1 => self.add(with(short, "")),
            3 => self.add(with(long, "=")),
            _ => self.add(with(short, "=")),
        }
    }
    fn flag(&mut self, short: &str, long: &str, how: u64) {
        self.add(if how & 1 == 0 { short } else { long }.into());
    }
    fn set(mut self) {
        let n = self.0.len() as u64;
        self.0.push(std::ptr::null());
        unsafe { symx_args(n, Box::leak(self.0.into_boxed_slice()).as_ptr()) }
    }
}

/// A number of `k` free digits, after what 5 says: its text and its value
fn number(at: usize, k: u64) -> (Vec<u8>, u64) {
    let mut v = param(5);
    let mut s = if v == 0 { vec![] } else { v.to_string().into_bytes() };
    for i in 0..k as usize {
        let d = bits(T_MISC, at + i, 4);
        assume(d < 10);
        let c = b'0' + d as u8;
        s.push(c);
        // (from the text, as one reads it)
        v = v * 10 + (c as u32).wrapping_sub('0' as u32) as u64;
    }
    (s, v)
}

/// What is given, and where: options before, between or after the positional arguments
struct Given {
    search: bool,
    probabilistic: bool,
    timeout: Option<(Vec<u8>, u64)>,
    nthreads: Option<(Vec<u8>, u64)>,
    task_bound: Option<(Vec<u8>, u64)>,
}

fn arguments(names: &[Vec<u8>; 6], g: &Given, how: u64, place: u64) {
    let mut a = Argv(vec![]);
    a.add(b"mbqc_scheduling".to_vec());
    let form = |i: u32| how / 5u64.pow(i) % 5;
    let at = |i: u32| place / 7u64.pow(i) % 7;
    for i in 0..=6 {
        // backwards, to have other orders too
        for o in if how & 1 == 0 { [0, 1, 2, 3, 4] } else { [4, 3, 2, 1, 0] } {
            if at(o) != i {
                continue;
            }
            match o {
                0 if g.search => a.flag("-s", "--search", form(0)),
                1 if g.probabilistic => a.flag("-p", "--probablistic", form(1)),
                2 => {
                    if let Some((s, _)) = &g.timeout {
                        a.option("-t", "--timeout", form(2), s)
                    }
                },
                3 => {
                    if let Some((s, _)) = &g.nthreads {
                        a.option("-n", "--nthreads", form(3), s)
                    }
                },
                4 => {
                    if let Some((s, _)) = &g.task_bound {
                        a.option("-b", "--task-bound", form(4), s)
                    }
                },
                _ => {},
            }
        }
        if i < 6 {
            a.add(names[i as usize].clone());
        }
    }
    a.set();
}

/// What the program passes on to the library.  17: how the options are written, 18 where,
/// 1, 2, 3: the number of digits of the timeout, of the number of threads and of the task
/// bound (0: never given), 5: what the numbers
/// begin with, 4: which options are free to be given (bits; the others are not
/// given if their number of digits is 0, and given otherwise)
#[no_mangle]
pub extern "C" fn h_args() {
    FORWARD.store(false, Ordering::Relaxed);
    CALLS.lock().unwrap().clear();
    let given = |i: usize, default: bool| {
        if param(4) >> i & 1 == 1 {
            bit(T_MISC, i)
        } else {
            default
        }
    };
    let value = |i: usize, k: u64| (k > 0 && given(i, true)).then(|| number(10 * i, k));
    let g = Given {
        search: given(0, false),
        probabilistic: given(1, false),
        timeout: value(2, param(1)),
        nthreads: value(3, param(2)),
        task_bound: value(4, param(3)),
    };
    // names: two bytes each, one of them free
    let mut names: [Vec<u8>; 6] = Default::default();
    for (i, n) in names.iter_mut().enumerate() {
        let free = bits(T_MISC, 60 + i, 5);
        *n = vec![b'a' + i as u8, b'@' + free as u8];
    }
    let limit = |v: &Option<(Vec<u8>, u64)>, max: u64| match v {
        Some((_, v)) => *v <= max,
        None => true,
    };
    let fits = and(
        and(limit(&g.timeout, u32::MAX as u64), limit(&g.nthreads, u16::MAX as u64)),
        limit(&g.task_bound, u32::MAX as u64),
    );
    arguments(&names, &g, param(17), param(18));
    unsafe { symx_may_exit(!fits as u64) };
    program::go();
    unsafe { symx_may_exit(0) };
    check(fits, 1);
    let calls = CALLS.lock().unwrap();
    check(calls.len() == 1, 2);
    let c = &calls[0];
    let mut all = All::new(3);
    for (i, s) in [&c.files[0], &c.formats[0], &c.files[1], &c.formats[1], &c.files[2], &c.formats[2]]
        .into_iter()
        .enumerate()
    {
        let s = s.as_bytes();
        all.add(s.len() == 2);
        all.add(and(s[0] == names[i][0], s[1] == names[i][1]));
    }
    all.done();
    check(c.search == g.search, 4);
    check(
        match (&c.timeout, &g.timeout) {
            (Some(d), Some((_, v))) => and(d.as_secs() == *v, d.subsec_nanos() == 0),
            (None, None) => true,
            _ => false,
        },
        5,
    );
    check(c.nthreads as u64 == g.nthreads.as_ref().map_or(1, |x| x.1), 6);
    check(
        match (c.task_bound, &g.task_bound) {
            (Some(b), Some((_, v))) => b as u64 == *v,
            (None, None) => true,
            _ => false,
        },
        7,
    );
    check(
        match (c.accept, g.probabilistic) {
            (Some(v), true) => v == values(&AcceptFunc::default()),
            (None, false) => true,
            _ => false,
        },
        8,
    );
    out(1, c.nthreads as u64);
    reach(1);
}

/// From the command line to the file that is written.  17, 18 as above, 19: the formats
/// (bits), 6: what is asserted of a probabilistic result; which options are given is free
#[no_mangle]
pub extern "C" fn h_cli() {
    FORWARD.store(true, Ordering::Relaxed);
    CALLS.lock().unwrap().clear();
    let mut p = job();
    concrete_graph(&mut p);
    let f = param(19);
    let names = ["serde_json", "bincode"];
    let format = |i: u32| f >> i & 1;
    crate::serial::mkdir("scratch");
    crate::serial::write("scratch/graph", format(0), &p.space);
    crate::serial::write("scratch/deps", format(1), &p.order);
    let file = "scratch/new/paths";
    let v = |i: usize, n: u64| bit(T_MISC, i).then(|| (n.to_string().into_bytes(), n));
    let g = Given {
        search: bit(T_MISC, 0),
        probabilistic: bit(T_MISC, 1),
        timeout: v(2, 1000),
        nthreads: v(3, 2),
        task_bound: v(4, 2),
    };
    arguments(
        &[
            "scratch/graph".into(),
            names[format(0) as usize].into(),
            "scratch/deps".into(),
            names[format(1) as usize].into(),
            file.into(),
            names[format(2) as usize].into(),
        ],
        &g,
        param(17),
        param(18),
    );
    program::go();
    let Some(got) = crate::serial::read(file, format(2)) else {
        check(false, 1);
        return;
    };
    if g.probabilistic && g.search {
        crate::judge(&p, &got, param(6));
    } else {
        let want: Vec<Path> = interface::run(&p.space, &p.order, g.search, None, 1, None, None);
        let steps = |r: &[Path]| r.iter().map(|p| (p.time, p.space)).collect::<Vec<_>>();
        check(steps(&got) == steps(&want), 2);
        crate::judge(&p, &got, 7);
    }
}
