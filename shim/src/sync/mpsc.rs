pub use tokio_real::sync::mpsc::error;
use tokio_real::sync::mpsc as real;

use std::fmt;
use std::task::{Context, Poll};
use std::time::Duration;

use self::error::*;
use super::{block, Pt};
use crate::oc;

pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
    let (tx, rx) = real::channel(buffer);
    let id = mcrt::new_obj();
    (Sender { r: tx, id }, Receiver { r: rx, id })
}
pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let _ = real::UNBOUNDED_SEND_HOOK.set(|| {
        if mcrt::split_send() {
            mcrt::point(0x0B5E7D, oc::PUBLISH);
        }
    });
    let (tx, rx) = real::unbounded_channel();
    let id = mcrt::new_obj();
    (UnboundedSender { r: tx, id }, UnboundedReceiver { r: rx, id })
}

fn publish_point(id: u64) {
    if mcrt::split_send() {
        mcrt::point(id, oc::PUBLISH);
    }
}

pub struct Sender<T> {
    r: real::Sender<T>,
    id: u64,
}

pub struct Permit<'a, T> {
    r: real::Permit<'a, T>,
    id: u64,
}
impl<T> Permit<'_, T> {
    pub fn send(self, value: T) {
        publish_point(self.id);
        self.r.send(value);
        mcrt::post_point();
    }
}
impl<T> fmt::Debug for Permit<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.r.fmt(f)
    }
}
pub struct OwnedPermit<T> {
    r: Option<real::OwnedPermit<T>>,
    id: u64,
}
impl<T> OwnedPermit<T> {
    pub fn send(mut self, value: T) -> Sender<T> {
        publish_point(self.id);
        let s = self.r.take().unwrap().send(value);
        Sender { r: s, id: self.id }
    }
    pub fn release(mut self) -> Sender<T> {
        Sender { r: self.r.take().unwrap().release(), id: self.id }
    }
}

impl<T> Sender<T> {
    pub async fn send(&self, value: T) -> Result<(), SendError<T>> {
        match self.reserve().await {
            Ok(p) => {
                p.send(value);
                Ok(())
            }
            Err(_) => Err(SendError(value)),
        }
    }
    pub async fn closed(&self) {
        Pt { f: self.r.closed(), obj: self.id, code: oc::CLOSED }.await
    }
    pub fn try_send(&self, value: T) -> Result<(), TrySendError<T>> {
        match self.try_reserve() {
            Ok(p) => {
                p.send(value);
                Ok(())
            }
            Err(TrySendError::Full(())) => Err(TrySendError::Full(value)),
            Err(TrySendError::Closed(())) => Err(TrySendError::Closed(value)),
        }
    }
    pub async fn send_timeout(&self, value: T, timeout: Duration) -> Result<(), SendTimeoutError<T>> {
        let permit = match crate::time::timeout(timeout, self.reserve()).await {
            Err(_) => return Err(SendTimeoutError::Timeout(value)),
            Ok(Err(_)) => return Err(SendTimeoutError::Closed(value)),
            Ok(Ok(permit)) => permit,
        };
        permit.send(value);
        Ok(())
    }
    #[track_caller]
    #[track_caller]
    pub fn blocking_send(&self, value: T) -> Result<(), SendError<T>> {
        block(self.send(value))
    }
    pub fn is_closed(&self) -> bool {
        mcrt::point(self.id, oc::IS_CLOSED);
        self.r.is_closed()
    }
    pub async fn reserve(&self) -> Result<Permit<'_, T>, SendError<()>> {
        Pt { f: self.r.reserve(), obj: self.id, code: oc::SEND }.await.map(|r| Permit { r, id: self.id })
    }
    pub fn try_reserve(&self) -> Result<Permit<'_, T>, TrySendError<()>> {
        mcrt::point(self.id, oc::SEND);
        self.r.try_reserve().map(|r| Permit { r, id: self.id })
    }
    pub fn try_reserve_owned(self) -> Result<OwnedPermit<T>, TrySendError<Self>> {
        mcrt::point(self.id, oc::SEND);
        let id = self.id;
        match self.r.clone().try_reserve_owned() {
            Ok(r) => Ok(OwnedPermit { r: Some(r), id }),
            Err(TrySendError::Full(_)) => Err(TrySendError::Full(self)),
            Err(TrySendError::Closed(_)) => Err(TrySendError::Closed(self)),
        }
    }
    pub async fn reserve_owned(self) -> Result<OwnedPermit<T>, SendError<()>> {
        let id = self.id;
        let r = self.r.clone();
        Pt { f: r.reserve_owned(), obj: id, code: oc::SEND }.await.map(|r| OwnedPermit { r: Some(r), id })
    }
    pub fn same_channel(&self, other: &Self) -> bool {
        self.r.same_channel(&other.r)
    }
    pub fn capacity(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.capacity()
    }
    pub fn max_capacity(&self) -> usize {
        self.r.max_capacity()
    }
    pub fn downgrade(&self) -> WeakSender<T> {
        WeakSender { r: self.r.downgrade(), id: self.id }
    }
    pub fn strong_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.weak_count()
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if self.r.strong_count() == 1 {
            mcrt::point(self.id, oc::LAST_TX);
        }
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender { r: self.r.clone(), id: self.id }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.r.fmt(f)
    }
}

pub struct WeakSender<T> {
    r: real::WeakSender<T>,
    id: u64,
}
impl<T> WeakSender<T> {
    pub fn upgrade(&self) -> Option<Sender<T>> {
        mcrt::point(self.id, oc::UPGRADE);
        self.r.upgrade().map(|r| Sender { r, id: self.id })
    }
    pub fn strong_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.weak_count()
    }
}
impl<T> Clone for WeakSender<T> {
    fn clone(&self) -> Self {
        WeakSender { r: self.r.clone(), id: self.id }
    }
}
impl<T> fmt::Debug for WeakSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.r.fmt(f)
    }
}

macro_rules! receiver {
    ($name:ident, $ty:ident) => {
        pub struct $name<T> {
            r: real::$ty<T>,
            id: u64,
        }
        impl<T> $name<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub async fn recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
                std::future::poll_fn(|cx| self.poll_recv_many(cx, buffer, limit)).await
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                mcrt::point(self.id, oc::RECV);
                self.r.try_recv()
            }
            #[track_caller]
            pub fn blocking_recv(&mut self) -> Option<T> {
                block(self.recv())
            }
            #[track_caller]
            pub fn blocking_recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
                block(self.recv_many(buffer, limit))
            }
            pub fn close(&mut self) {
                mcrt::point(self.id, oc::CLOSE);
                self.r.close();
                mcrt::post_point();
            }
            pub fn is_closed(&self) -> bool {
                mcrt::point(self.id, oc::IS_CLOSED);
                self.r.is_closed()
            }
            pub fn is_empty(&self) -> bool {
                mcrt::point(self.id, oc::COUNT);
                self.r.is_empty()
            }
            pub fn len(&self) -> usize {
                mcrt::point(self.id, oc::COUNT);
                self.r.len()
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                mcrt::point(self.id, oc::RECV);
                self.r.poll_recv(cx)
            }
            pub fn poll_recv_many(&mut self, cx: &mut Context<'_>, buffer: &mut Vec<T>, limit: usize) -> Poll<usize> {
                mcrt::point(self.id, oc::RECV);
                self.r.poll_recv_many(cx, buffer, limit)
            }
            pub fn sender_strong_count(&self) -> usize {
                mcrt::point(self.id, oc::COUNT);
                self.r.sender_strong_count()
            }
            pub fn sender_weak_count(&self) -> usize {
                mcrt::point(self.id, oc::COUNT);
                self.r.sender_weak_count()
            }
        }
        impl<T> Drop for $name<T> {
            fn drop(&mut self) {
                mcrt::point(self.id, oc::RX_DROP);
            }
        }
        impl<T> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.r.fmt(f)
            }
        }
    };
}
receiver!(Receiver, Receiver);
receiver!(UnboundedReceiver, UnboundedReceiver);

impl<T> Receiver<T> {
    pub fn max_capacity(&self) -> usize {
        self.r.max_capacity()
    }
    pub fn capacity(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.capacity()
    }
}

pub struct UnboundedSender<T> {
    r: real::UnboundedSender<T>,
    id: u64,
}
impl<T> UnboundedSender<T> {
    pub fn send(&self, value: T) -> Result<(), SendError<T>> {
        mcrt::point(self.id, oc::SEND);
        let r = self.r.send(value);
        if mcrt::split_send() {
            mcrt::op(self.id, oc::PUBLISH);
        }
        mcrt::post_point();
        r
    }
    pub async fn closed(&self) {
        Pt { f: self.r.closed(), obj: self.id, code: oc::CLOSED }.await
    }
    pub fn is_closed(&self) -> bool {
        mcrt::point(self.id, oc::IS_CLOSED);
        self.r.is_closed()
    }
    pub fn same_channel(&self, other: &Self) -> bool {
        self.r.same_channel(&other.r)
    }
    pub fn downgrade(&self) -> WeakUnboundedSender<T> {
        WeakUnboundedSender { r: self.r.downgrade(), id: self.id }
    }
    pub fn strong_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.weak_count()
    }
}
impl<T> Drop for UnboundedSender<T> {
    fn drop(&mut self) {
        if self.r.strong_count() == 1 {
            mcrt::point(self.id, oc::LAST_TX);
        }
    }
}
impl<T> Clone for UnboundedSender<T> {
    fn clone(&self) -> Self {
        UnboundedSender { r: self.r.clone(), id: self.id }
    }
}
impl<T> fmt::Debug for UnboundedSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.r.fmt(f)
    }
}
pub struct WeakUnboundedSender<T> {
    r: real::WeakUnboundedSender<T>,
    id: u64,
}
impl<T> WeakUnboundedSender<T> {
    pub fn upgrade(&self) -> Option<UnboundedSender<T>> {
        mcrt::point(self.id, oc::UPGRADE);
        self.r.upgrade().map(|r| UnboundedSender { r, id: self.id })
    }
    pub fn strong_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.weak_count()
    }
}
impl<T> Clone for WeakUnboundedSender<T> {
    fn clone(&self) -> Self {
        WeakUnboundedSender { r: self.r.clone(), id: self.id }
    }
}
impl<T> fmt::Debug for WeakUnboundedSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.r.fmt(f)
    }
}
