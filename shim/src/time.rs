pub use tokio_real::time::*;
use std::fmt;
use std::future::{Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

pub mod error {
    pub use super::Elapsed;
    pub use tokio_real::time::error::Error;
}

#[derive(Debug, PartialEq, Eq)]
pub struct Elapsed(());
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}
impl From<Elapsed> for std::io::Error {
    fn from(_: Elapsed) -> std::io::Error {
        std::io::ErrorKind::TimedOut.into()
    }
}

/// Virtual instant.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Instant {
        Instant(mcrt::now_nanos())
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(*self + d)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(nanos(d)).map(Instant)
    }
}
fn nanos(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4).min(u64::MAX / 4)
}
impl fmt::Debug for Instant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Instant({}ns)", self.0)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(nanos(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(nanos(d)))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

pub struct Sleep(mcrt::TimerHandle);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.0.deadline())
    }
    pub fn is_elapsed(&self) -> bool {
        Instant::now().0 >= self.0.deadline()
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        self.0 = mcrt::TimerHandle::new(deadline.0);
    }
}
impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sleep")
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.poll(cx)
    }
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant::now() + d)
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep(mcrt::TimerHandle::new(i.0))
}

pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}
impl<F> fmt::Debug for Timeout<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Timeout")
    }
}
impl<F> Timeout<F> {
    pub fn get_ref(&self) -> &F {
        &self.fut
    }
    pub fn get_mut(&mut self) -> &mut F {
        &mut self.fut
    }
    pub fn into_inner(self) -> F {
        self.fut
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut this.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: f.into_future(), sleep: sleep(d) }
}
pub fn timeout_at<F: IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: f.into_future(), sleep: sleep_until(i) }
}

#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    sleep: Option<Pin<Box<Sleep>>>,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let next = self.next;
        let s = self.sleep.get_or_insert_with(|| Box::pin(sleep_until(next)));
        match s.as_mut().poll(cx) {
            Poll::Ready(()) => {
                self.sleep = None;
                self.next = next + self.period;
                Poll::Ready(next)
            }
            Poll::Pending => Poll::Pending,
        }
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
        self.sleep = None;
    }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { next: start, period, sleep: None }
}

/// Real instants are not virtual ones: conversions go by a fixed base.
static BASE: std::sync::LazyLock<std::time::Instant> = std::sync::LazyLock::new(std::time::Instant::now);
impl Instant {
    pub fn from_std(t: std::time::Instant) -> Instant {
        Instant(nanos(t.saturating_duration_since(*BASE)))
    }
    pub fn into_std(self) -> std::time::Instant {
        *BASE + Duration::from_nanos(self.0)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(t: std::time::Instant) -> Instant {
        Instant::from_std(t)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(t: Instant) -> std::time::Instant {
        t.into_std()
    }
}
