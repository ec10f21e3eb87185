pub use tokio_real::runtime::*;
use std::future::Future;

use crate::task::JoinHandle;

/// Handle to the controlled runtime.
#[derive(Clone, Debug)]
pub struct Handle(());

impl Handle {
    pub fn current() -> Handle {
        assert!(mcrt::controlled(), "there is no reactor running, must be called from the context of a Tokio 1.x runtime");
        Handle(())
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        if mcrt::controlled() {
            Ok(Handle(()))
        } else {
            match tokio_real::runtime::Handle::try_current() {
                Ok(_) => Ok(Handle(())),
                Err(e) => Err(e),
            }
        }
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        RuntimeFlavor::MultiThread
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        assert!(!crate::task::entered(), "Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) attempted to block the current thread while the thread is being used to drive asynchronous tasks.");
        mcrt::foreign_enter(move || crate::task::enter(true, || mcrt::block_on(f)))
    }
}

/// A runtime of its own does not exist under the controlled scheduler: everything runs on the one there is.
#[derive(Debug)]
pub struct Runtime(());

impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Ok(Runtime(()))
    }
    pub fn handle(&self) -> &Handle {
        &Handle(())
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        Handle(()).block_on(f)
    }
}
