//! Stand-in for the `scoped_threadpool` crate with the same observable contract (a pool
//! of `n` workers takes the jobs in the order in which they were handed in; `scoped`
//! returns when all of them ran), whose threads are started through the symbolic
//! executor (or, in a native replay, through the replay runtime) so that it controls the
//! interleaving.  The queue itself is not a synchronisation point: a context switch
//! happens only where the code under test synchronises.
use std::{cell::UnsafeCell, collections::VecDeque, marker::PhantomData, mem, sync::atomic::*};

extern "C" {
    fn symx_spawn(f: unsafe extern "C" fn(u64) -> u64, data: u64) -> u64;
    fn symx_join_pool();
}

type Job = Box<dyn FnOnce() + Send + 'static>;

/// How many jobs have been handed in.
pub static EXECUTED: AtomicU64 = AtomicU64::new(0);

struct Inner {
    jobs: VecDeque<Job>,
    active: u32,
}

pub struct Pool {
    threads: u32,
    inner: Box<UnsafeCell<Inner>>,
}

unsafe extern "C" fn worker(data: u64) -> u64 {
    let inner = data as usize as *mut Inner;
    while let Some(job) = (*inner).jobs.pop_front() {
        job();
    }
    (*inner).active -= 1;
    0
}

impl Pool {
    pub fn new(n: u32) -> Pool {
        assert!(n >= 1);
        Pool {
            threads: n,
            inner: Box::new(UnsafeCell::new(Inner { jobs: VecDeque::new(), active: 0 })),
        }
    }

    pub fn scoped<'pool, 'scope, F, R>(&'pool mut self, f: F) -> R
    where
        F: FnOnce(&Scope<'pool, 'scope>) -> R,
    {
        let scope = Scope { pool: self, _marker: PhantomData };
        f(&scope)
    }

    pub fn thread_count(&self) -> u32 {
        self.threads
    }
}

pub struct Scope<'pool, 'scope> {
    pool: &'pool mut Pool,
    _marker: PhantomData<std::cell::Cell<&'scope mut ()>>,
}

impl<'pool, 'scope> Scope<'pool, 'scope> {
    pub fn execute<F>(&self, f: F)
    where
        F: FnOnce() + Send + 'scope,
    {
        let b: Box<dyn FnOnce() + Send + 'scope> = Box::new(f);
        let job: Job = unsafe { mem::transmute(b) };
        EXECUTED.fetch_add(1, Ordering::Relaxed);
        let inner = self.pool.inner.get();
        unsafe {
            (*inner).jobs.push_back(job);
            if (*inner).active < self.pool.threads {
                (*inner).active += 1;
                symx_spawn(worker, inner as usize as u64);
            }
        }
    }

    pub fn join_all(&self) {
        unsafe { symx_join_pool() }
    }
}

impl<'pool, 'scope> Drop for Scope<'pool, 'scope> {
    fn drop(&mut self) {
        self.join_all();
    }
}
