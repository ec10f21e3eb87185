pub use tokio_real::sync::oneshot::error;
use tokio_real::sync::oneshot as real;

use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use self::error::*;
use super::{block, Pt};
use crate::oc;

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let (tx, rx) = real::channel();
    let id = mcrt::new_obj();
    (Sender { r: Some(tx), id }, Receiver { r: rx, id })
}

pub struct Sender<T> {
    r: Option<real::Sender<T>>,
    id: u64,
}
impl<T> Sender<T> {
    pub fn send(mut self, t: T) -> Result<(), T> {
        mcrt::point(self.id, oc::OS_SEND);
        let r = self.r.take().unwrap().send(t);
        mcrt::post_point();
        r
    }
    pub async fn closed(&mut self) {
        let id = self.id;
        Pt { f: self.r.as_mut().unwrap().closed(), obj: id, code: oc::CLOSED }.await
    }
    pub fn is_closed(&self) -> bool {
        mcrt::point(self.id, oc::IS_CLOSED);
        self.r.as_ref().unwrap().is_closed()
    }
    pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        mcrt::point(self.id, oc::CLOSED);
        self.r.as_mut().unwrap().poll_closed(cx)
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if let Some(r) = self.r.take() {
            mcrt::point(self.id, oc::OS_DROP);
            drop(r);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("oneshot::Sender")
    }
}

pub struct Receiver<T> {
    r: real::Receiver<T>,
    id: u64,
}
impl<T> Receiver<T> {
    pub fn close(&mut self) {
        mcrt::point(self.id, oc::CLOSE);
        self.r.close()
    }
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        mcrt::point(self.id, oc::OS_RECV);
        self.r.try_recv()
    }
    #[track_caller]
    pub fn blocking_recv(self) -> Result<T, RecvError> {
        block(self)
    }
    pub fn is_terminated(&self) -> bool {
        self.r.is_terminated()
    }
    pub fn is_empty(&self) -> bool {
        self.r.is_empty()
    }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, RecvError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        mcrt::point(self.id, oc::OS_RECV);
        Pin::new(&mut self.r).poll(cx)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        mcrt::op(self.id, oc::RX_DROP);
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("oneshot::Receiver")
    }
}
