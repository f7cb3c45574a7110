//! The interface to the symbolic executor (or to the native replay runtime).
mod ffi {
    extern "C" {
        pub fn symx_bits(tag: u64, idx: u64, width: u64) -> u64;
        pub fn symx_assume(c: u64);
        pub fn symx_assert(c: u64, id: u64);
        pub fn symx_reach(id: u64);
        pub fn symx_param(i: u64) -> u64;
        pub fn symx_out(tag: u64, v: u64);
        pub fn symx_concretize(v: u64) -> u64;
        pub fn symx_merge(on: u64);
        pub fn symx_ite(c: u64, a: u64, b: u64) -> u64;
    }
}
/// A symbolic value of `width` bits; the same (tag, idx) is the same variable.
#[inline(never)]
pub fn bits(tag: u64, idx: usize, width: u64) -> u64 {
    unsafe { ffi::symx_bits(tag, idx as u64, width) }
}
pub fn bit(tag: u64, idx: usize) -> bool {
    bits(tag, idx, 1) != 0
}
pub fn assume(c: bool) {
    unsafe { ffi::symx_assume(c as u64) }
}
pub fn check(c: bool, id: u64) {
    unsafe { ffi::symx_assert(c as u64, id) }
}
pub fn reach(id: u64) {
    unsafe { ffi::symx_reach(id) }
}
pub fn param(i: usize) -> u64 {
    unsafe { ffi::symx_param(i as u64) }
}
pub fn out(tag: u64, v: u64) {
    unsafe { ffi::symx_out(tag, v) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::symx_concretize(v) }
}
pub fn merge(on: bool) {
    unsafe { ffi::symx_merge(on as u64) }
}
/// `if c { a } else { b }` without a branch.
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { ffi::symx_ite(c as u64, a, b) }
}
pub fn min(a: u64, b: u64) -> u64 {
    ite(a < b, a, b)
}
pub fn max(a: u64, b: u64) -> u64 {
    ite(a > b, a, b)
}
/// Both, without a branch.
pub fn and(a: bool, b: bool) -> bool {
    (a as u8 & b as u8) != 0
}
pub fn or(a: bool, b: bool) -> bool {
    (a as u8 | b as u8) != 0
}
pub fn yield_now() {
    unsafe { ffi2::symx_yield() }
}
pub fn join_all() {
    unsafe { ffi2::symx_join_all() }
}
pub unsafe fn spawn(f: unsafe extern "C" fn(u64) -> u64, data: u64) {
    ffi2::symx_spawn(f, data);
}
mod ffi2 {
    extern "C" {
        pub fn symx_yield();
        pub fn symx_join_all();
        pub fn symx_spawn(f: unsafe extern "C" fn(u64) -> u64, data: u64) -> u64;
    }
}
