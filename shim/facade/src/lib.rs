//! The library for what calls it: the calls of `interface::run` go to the harness, which answers.
#![allow(static_mut_refs)]
pub use ::mbqc_scheduling::*;

/// The benchmark program is pinned to a version of the library that has this name here.
pub mod search {
    pub use ::mbqc_scheduling::{scheduler::space::SpacialGraph, search::*};
}

pub mod interface {
    use ::mbqc_scheduling::interface as real;
    use ::mbqc_scheduling::probabilistic::AcceptFunc;
    #[allow(unused_imports)]
    pub use real::*;
    use std::time::Duration;

    pub struct Call {
        pub spacial: Vec<Vec<usize>>,
        pub order: Vec<Vec<(usize, Vec<usize>)>>,
        pub do_search: bool,
        pub timeout: Option<Duration>,
        pub nthreads: u16,
        pub task_bound: Option<u32>,
        pub probabilistic: Option<(AcceptFunc, Option<u64>)>,
    }

    pub static mut CALLS: Vec<Call> = vec![];
    /// what the library returns for its nth call
    pub static mut ANSWER: Option<fn(usize) -> Vec<Path>> = None;

    pub fn run(
        spacial_graph: RefSpacialGraph,
        time_ordering: RefPartialOrderGraph,
        do_search: bool,
        timeout: Option<Duration>,
        nthreads: u16,
        task_bound: Option<u32>,
        probabilistic: Option<(AcceptFunc, Option<u64>)>,
    ) -> Vec<Path> {
        unsafe {
            CALLS.push(Call {
                spacial: spacial_graph.to_vec(),
                order: time_ordering.to_vec(),
                do_search,
                timeout,
                nthreads,
                task_bound,
                probabilistic,
            });
            match ANSWER {
                Some(f) => f(CALLS.len() - 1),
                None => vec![],
            }
        }
    }
}
