//! tokio under a controlled scheduler. Everything not overridden here is the real tokio.
#![allow(clippy::all)]
pub use tokio_real::*;

pub use crate::task::spawn;

#[doc(hidden)]
pub use tokio_real as __tokio_real;

pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;

#[doc(hidden)]
pub mod __mc {
    /// Start branch of an unbiased `select!`.
    pub fn select_start(n: u32) -> u32 {
        mcrt::choose_dev(n as usize) as u32
    }
}

#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__tokio_real::select!(biased; $($t)*) };
    (else => $($t:tt)*) => { $crate::__tokio_real::select!(else => $($t)*) };
    ($p:pat = $($t:tt)*) => {
        $crate::__tokio_real::select!(@{ start={ $crate::__mc::select_start(BRANCHES) }; () } $p = $($t)*)
    };
}

// operation codes
pub(crate) mod oc {
    pub const SEND: u64 = 1;
    pub const PUBLISH: u64 = 2;
    pub const RECV: u64 = 3;
    pub const CLOSE: u64 = 4;
    pub const RX_DROP: u64 = 5;
    pub const LAST_TX: u64 = 6;
    pub const UPGRADE: u64 = 7;
    pub const COUNT: u64 = 8;
    pub const CLOSED: u64 = 9;
    pub const OS_SEND: u64 = 10;
    pub const OS_RECV: u64 = 11;
    pub const OS_DROP: u64 = 12;
    pub const LOCK: u64 = 13;
    pub const UNLOCK: u64 = 14;
    pub const ACQUIRE: u64 = 15;
    pub const PERMITS: u64 = 16;
    pub const JOIN: u64 = 17;
    pub const IS_CLOSED: u64 = 20;
}
