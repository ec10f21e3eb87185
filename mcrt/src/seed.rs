//! Deterministic source for what std's `RandomState` (and anything else) obtains from `getrandom`.
use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(1);

/// Selects the hash seed used by threads that have not yet created a `RandomState`.
pub fn set_hash_seed(seed: u64) {
    SEED.store(seed, Ordering::SeqCst);
}

/// Interposes libc's `getrandom` for the whole process.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.load(Ordering::SeqCst);
    for i in 0..len {
        x = crate::mix(x, i as u64 + 1);
        *buf.add(i) = x as u8;
    }
    len as isize
}
