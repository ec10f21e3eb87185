//! Controlled scheduler (`sched`) and bounded exhaustive explorer (`explore`).
pub mod explore;
pub mod os;
pub mod sched;
pub mod step;
mod seed;

pub use sched::*;
pub use step::{stepped, Step};
pub use seed::set_hash_seed;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    // splitmix-style combination; not cryptographic, 64-bit fingerprints
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, s.len() as u64)
}
