pub use tokio_real::task::*;
use std::any::Any;
use std::fmt;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use crate::oc;

thread_local! {
    /// whether the thread drives asynchronous tasks at the moment
    static ENTERED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub(crate) fn entered() -> bool {
    ENTERED.with(|e| e.get())
}
/// Runs `f` as part of the runtime (or not), as tokio's `enter_runtime` and `exit_runtime`.
pub(crate) fn enter<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            ENTERED.with(|e| e.set(self.0));
        }
    }
    let _back = Back(ENTERED.with(|e| e.replace(on)));
    f()
}

pub struct JoinError(Repr);
enum Repr {
    Cancelled,
    Panic(Mutex<Option<Box<dyn Any + Send + 'static>>>),
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.0, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.0, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.try_into_panic().expect("JoinError is not a panic")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.0 {
            Repr::Panic(p) => Ok(p.into_inner().unwrap().unwrap()),
            r => Err(JoinError(r)),
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}

struct Shared<T> {
    result: Mutex<Option<Result<T, JoinError>>>,
    join_waker: Mutex<Option<Waker>>,
    ctl: Arc<Ctl>,
}
struct Ctl {
    obj: u64,
    done: AtomicBool,
    abort: AtomicBool,
    task_waker: Mutex<Option<Waker>>,
}
impl Ctl {
    fn abort(&self) {
        mcrt::point(self.obj, oc::JOIN);
        self.abort.store(true, Ordering::SeqCst);
        let w = self.task_waker.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}

pub struct JoinHandle<T>(Arc<Shared<T>>);

impl<T> Unpin for JoinHandle<T> {}

#[derive(Clone)]
pub struct AbortHandle(Arc<Ctl>);
impl AbortHandle {
    pub fn abort(&self) {
        self.0.abort()
    }
    pub fn is_finished(&self) -> bool {
        mcrt::point(self.0.obj, oc::JOIN);
        self.0.done.load(Ordering::SeqCst)
    }
}
impl fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("AbortHandle")
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.0.ctl.abort()
    }
    pub fn is_finished(&self) -> bool {
        mcrt::point(self.0.ctl.obj, oc::JOIN);
        self.0.ctl.done.load(Ordering::SeqCst)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.0.ctl.clone())
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        mcrt::op(self.0.ctl.obj, oc::JOIN);
        if let Some(r) = self.0.result.lock().unwrap().take() {
            return Poll::Ready(r);
        }
        *self.0.join_waker.lock().unwrap() = Some(cx.waker().clone());
        Poll::Pending
    }
}

fn new_shared<T>() -> Arc<Shared<T>> {
    Arc::new(Shared {
        result: Mutex::new(None),
        join_waker: Mutex::new(None),
        ctl: Arc::new(Ctl { obj: mcrt::new_obj(), done: AtomicBool::new(false), abort: AtomicBool::new(false), task_waker: Mutex::new(None) }),
    })
}

fn complete<T>(s: &Shared<T>, r: Result<T, JoinError>) {
    mcrt::op(s.ctl.obj, oc::JOIN);
    *s.result.lock().unwrap() = Some(r);
    s.ctl.done.store(true, Ordering::SeqCst);
    let w = s.join_waker.lock().unwrap().take();
    if let Some(w) = w {
        w.wake();
    }
}

fn text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&'static str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into())
}

fn panicked(p: Box<dyn Any + Send>) -> JoinError {
    mcrt::note_panic(text(&*p));
    JoinError(Repr::Panic(Mutex::new(Some(p))))
}

/// Spawns with a name and a must-finish flag (harness use).
pub fn spawn_opts<F>(o: mcrt::TaskOpts, fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let sh = new_shared::<F::Output>();
    let s2 = sh.clone();
    let fut = Box::pin(fut);
    mcrt::spawn_thread(o, move || {
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            let mut fut = fut;
            let ctl = s2.ctl.clone();
            enter(true, || {
                let r = mcrt::block_on(std::future::poll_fn(|cx| {
                    if ctl.abort.load(Ordering::SeqCst) {
                        return Poll::Ready(None);
                    }
                    *ctl.task_waker.lock().unwrap() = Some(cx.waker().clone());
                    fut.as_mut().poll(cx).map(Some)
                }));
                drop(fut);
                r
            })
        }));
        let r = match r {
            Ok(Some(v)) => Ok(v),
            Ok(None) => Err(JoinError(Repr::Cancelled)),
            Err(p) => Err(panicked(p)),
        };
        complete(&s2, r);
        drop(s2);
    });
    JoinHandle(sh)
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_opts(mcrt::TaskOpts { name: mcrt::next_name(), must_finish: false }, fut)
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_blocking_opts(mcrt::TaskOpts { name: mcrt::next_name(), must_finish: false }, f)
}

pub fn spawn_blocking_opts<F, R>(o: mcrt::TaskOpts, f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let sh = new_shared::<R>();
    let s2 = sh.clone();
    mcrt::spawn_thread(o, move || {
        let r = std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(panicked);
        complete(&s2, r);
        drop(s2);
    });
    JoinHandle(sh)
}

pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(move |cx| {
        if yielded {
            Poll::Ready(())
        } else {
            yielded = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    enter(false, f)
}

/// A set of tasks, as tokio's.
pub struct JoinSet<T> {
    v: Vec<JoinHandle<T>>,
}
impl<T> fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinSet").field("len", &self.v.len()).finish()
    }
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        JoinSet { v: vec![] }
    }
}
impl<T> JoinSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    pub fn spawn_on<F>(&mut self, f: F, _: &crate::runtime::Handle) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        self.spawn(f)
    }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.v.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.v.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                self.v.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(Waker::noop());
        match self.poll_join_next(&mut cx) {
            Poll::Ready(r) => r,
            Poll::Pending => None,
        }
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut out = vec![];
        while let Some(r) = self.join_next().await {
            match r {
                Ok(v) => out.push(v),
                Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
                Err(e) => panic!("{e}"),
            }
        }
        out
    }
    pub fn abort_all(&mut self) {
        self.v.iter().for_each(|h| h.abort());
    }
    pub fn detach_all(&mut self) {
        self.v.clear();
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        self.v.iter().for_each(|h| h.abort());
    }
}
