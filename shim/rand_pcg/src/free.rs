//! For the checks in /verif: after `free`, a generator's values are any values.  (The generator then keeps its
//! number in `state` and the number of its values in `increment`.)
#![allow(static_mut_refs)]

extern "C" {
    fn symx_bits(tag: u64, idx: u64, width: u64) -> u64;
}

const TAG: u64 = 9;
const MAX: usize = 64;
static mut FREE: u64 = 0;
static mut NUM: usize = 0;
static mut SEEDS: [[u64; 5]; MAX] = [[0; 5]; MAX];

/// Start from no generator at all.  0: as they are, 1: free, but the same for the same seed,
/// 2: free
pub fn free(mode: u64) {
    unsafe {
        FREE = mode;
        NUM = 0;
    }
}

#[inline]
pub(crate) fn is_free() -> bool {
    unsafe { FREE != 0 }
}

/// The number of the generator with this seed.
#[inline(never)]
pub(crate) fn seeded(seed: [u64; 5]) -> u128 {
    unsafe {
        let mut i = if FREE == 2 { NUM } else { 0 };
        while i < NUM {
            let mut diff = 0;
            for k in 0..5 {
                diff |= SEEDS[i][k] ^ seed[k];
            }
            if diff == 0 {
                return i as u128;
            }
            i += 1;
        }
        assert!(i < MAX);
        SEEDS[i] = seed;
        NUM = i + 1;
        i as u128
    }
}

/// A new one.
pub(crate) fn fresh() -> u128 {
    seeded(unsafe { [3, NUM as u64, 0, 0, 0] })
}

#[inline(never)]
pub(crate) fn value(number: u128, k: u128) -> u64 {
    unsafe { symx_bits(TAG, number as u64 * 4096 + k as u64, 64) }
}
