pub use tokio_real::sync::*;

pub mod mpsc;
pub mod oneshot;

mod mutex;
mod semaphore;
pub use mutex::{Mutex, MutexGuard, OwnedMutexGuard};
pub use semaphore::{OwnedSemaphorePermit, Semaphore, SemaphorePermit};

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A future with a scheduling point before each poll.
pub(crate) struct Pt<F> {
    pub f: F,
    pub obj: u64,
    pub code: u64,
}
impl<F: Future> Future for Pt<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        mcrt::point(this.obj, this.code);
        unsafe { Pin::new_unchecked(&mut this.f) }.poll(cx)
    }
}

/// Blocks the calling task (or, outside of an execution, the thread) on `f`.
#[track_caller]
pub(crate) fn block<F: Future>(f: F) -> F::Output {
    if mcrt::controlled() {
        assert!(
            !crate::task::entered(),
            "Cannot block the current thread from within a runtime. This happens because a function attempted to block the current thread while the thread is being used to drive asynchronous tasks."
        );
        mcrt::block_on(f)
    } else {
        tokio_real::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
    }
}
