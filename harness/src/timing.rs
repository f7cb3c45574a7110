//! The timer, and the search under a timeout.
use crate::{job, oracle::*, rt::*, run, run_with};
use mbqc_scheduling::{probabilistic::AcceptFunc, timer::Timer};
use std::{
    sync::atomic::*,
    time::{Duration, Instant},
};

fn duration() -> Duration {
    match param(1) {
        u64::MAX => Duration::MAX,
        ms => Duration::from_millis(ms) + Duration::from_nanos(param(4)),
    }
}

static POLLED: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicBool = AtomicBool::new(false);

unsafe extern "C" fn poller(data: u64) -> u64 {
    let (timer, start) = &*(data as usize as *const (Timer, Instant));
    let mut last = false;
    for _ in 0..param(2) {
        let f = timer.finished();
        if f {
            check(start.elapsed() >= duration(), 1);
        }
        check(f || !last, 2);
        last = f;
    }
    POLLED.fetch_add(1, Ordering::Relaxed);
    0
}

/// until all threads are done and the time is over
fn wait(start: Instant, d: Duration) {
    join_all();
    let left = d.saturating_sub(start.elapsed());
    if !left.is_zero() {
        std::thread::sleep(left);
    }
}

/// 0 mode, 1 milliseconds, 4 nanoseconds, 2 polls, 3: 1 nothing may take time
#[no_mangle]
pub extern "C" fn h_timer() {
    POLLED.store(0, Ordering::Relaxed);
    STOP.store(false, Ordering::Relaxed);
    let d = duration();
    let start = Instant::now();
    let watch = |t: &Timer, k: u64| {
        let mut last = false;
        for _ in 0..k {
            let f = t.finished();
            if f {
                check(start.elapsed() >= d, 1);
            }
            check(f || !last, 2);
            last = f;
            yield_now();
        }
    };
    match param(0) {
        // never started
        0 => {
            let t = if param(2) == 1 { Timer::default() } else { Timer::new() };
            check(!t.finished(), 3);
            drop(t);
        },
        // waiting long enough
        1 => {
            let mut t = Timer::new();
            check(!t.finished(), 3);
            t.start(d);
            watch(&t, param(2));
            wait(start, d);
            check(t.finished(), 5);
            check(t.finished(), 5);
        },
        // dropping it at any time
        2 => {
            let mut t = Timer::new();
            t.start(d);
            watch(&t, param(2));
            drop(t);
        },
        // watching it from elsewhere
        3 => {
            let mut t = Timer::new();
            t.start(d);
            let shared = (t, start);
            let data = &shared as *const (Timer, Instant) as usize as u64;
            unsafe {
                spawn(poller, data);
                spawn(poller, data);
            }
            watch(&shared.0, param(2));
            wait(start, d);
            check(POLLED.load(Ordering::Relaxed) == 2, 6);
            check(shared.0.finished(), 5);
        },
        // two are independent
        _ => {
            let mut a = Timer::new();
            let b = Timer::new();
            a.start(d);
            check(!b.finished(), 3);
            drop(b);
            watch(&a, param(2));
            wait(start, d);
            check(a.finished(), 5);
            let c = Timer::new();
            check(!c.finished(), 3);
        },
    }
    if param(3) == 1 {
        check(start.elapsed() == Duration::ZERO, 7);
    }
    out(1, param(0));
    reach(1);
}

/// The search returns as soon as it is done; the timeout does not matter then.
/// (to be run without preemptions)
#[no_mangle]
pub extern "C" fn h_prompt() {
    let p = job();
    let start = Instant::now();
    let r = run(&p);
    let took = start.elapsed();
    check(took == Duration::ZERO, 10);
    crate::judge(&p, &r, param(6));
}

/// Before the timeout, the search does not stop: either the time is over, or everything has
/// been found.  10: milliseconds + 1
#[no_mangle]
pub extern "C" fn h_early() {
    let p = job();
    let timeout = Duration::from_millis(param(10) - 1);
    let start = Instant::now();
    let r = run(&p);
    let took = start.elapsed();
    if took < timeout {
        crate::judge(&p, &r, param(6));
    } else {
        reach(3);
    }
}

static LATE: AtomicUsize = AtomicUsize::new(0);
static ALL: AtomicUsize = AtomicUsize::new(0);

/// After the timeout, the search stops.  17: how many steps later, 18: 1 nothing is accepted,
/// 2 no last step (so that nothing is found and nothing is left out)
#[no_mangle]
pub extern "C" fn h_stop() {
    let p = job();
    LATE.store(0, Ordering::Relaxed);
    ALL.store(0, Ordering::Relaxed);
    let start = Instant::now();
    let timeout = Duration::from_millis(param(10) - 1);
    let nothing = param(18) == 1;
    let unfinished = param(18) == 2;
    let r = run_with(
        &p,
        Some(AcceptFunc::Custom(Box::new(move |_, _, _, _, _, left, _| {
            // (the timeout may fire now)
            yield_now();
            if start.elapsed() >= timeout {
                LATE.fetch_add(1, Ordering::Relaxed);
            }
            ALL.fetch_add(1, Ordering::Relaxed);
            if nothing || (unfinished && left == 0.) {
                0.
            } else {
                2.
            }
        }))),
    );
    // nothing takes time here but waiting for the timeout (which need not be precise)
    check(start.elapsed() <= timeout + timeout / 2 + Duration::from_millis(20), 13);
    let late = LATE.load(Ordering::Relaxed) as u64;
    let all = ALL.load(Ordering::Relaxed) as u64;
    merge(false);
    check(late <= param(17), 11);
    if all > param(17) && late > 0 {
        reach(2);
    }
    let mut a = All::new(12);
    a.add(r.len() <= p.n);
    a.done();
    crate::judge(&p, &r, param(6));
}
