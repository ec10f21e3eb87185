use std::fmt;
use std::sync::Arc;

use tokio_real::sync as real;
use tokio_real::sync::{AcquireError, TryAcquireError};

use super::Pt;
use crate::oc;

pub struct Semaphore {
    r: Arc<real::Semaphore>,
    id: u64,
}
pub struct SemaphorePermit<'a> {
    r: Option<real::SemaphorePermit<'a>>,
    id: u64,
}
pub struct OwnedSemaphorePermit {
    r: Option<real::OwnedSemaphorePermit>,
    id: u64,
}

impl Semaphore {
    pub const MAX_PERMITS: usize = real::Semaphore::MAX_PERMITS;
    pub fn new(permits: usize) -> Self {
        Semaphore { r: Arc::new(real::Semaphore::new(permits)), id: mcrt::new_obj() }
    }
    pub fn available_permits(&self) -> usize {
        mcrt::point(self.id, oc::COUNT);
        self.r.available_permits()
    }
    pub fn add_permits(&self, n: usize) {
        mcrt::point(self.id, oc::PERMITS);
        self.r.add_permits(n);
        mcrt::post_point();
    }
    pub fn forget_permits(&self, n: usize) -> usize {
        mcrt::point(self.id, oc::PERMITS);
        self.r.forget_permits(n)
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.acquire_many(1).await
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
        Pt { f: self.r.acquire_many(n), obj: self.id, code: oc::ACQUIRE }.await.map(|r| SemaphorePermit { r: Some(r), id: self.id })
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        mcrt::point(self.id, oc::ACQUIRE);
        self.r.try_acquire().map(|r| SemaphorePermit { r: Some(r), id: self.id })
    }
    pub fn try_acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        mcrt::point(self.id, oc::ACQUIRE);
        self.r.try_acquire_many(n).map(|r| SemaphorePermit { r: Some(r), id: self.id })
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        Pt { f: self.r.clone().acquire_owned(), obj: self.id, code: oc::ACQUIRE }
            .await
            .map(|r| OwnedSemaphorePermit { r: Some(r), id: self.id })
    }
    pub async fn acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, AcquireError> {
        Pt { f: self.r.clone().acquire_many_owned(n), obj: self.id, code: oc::ACQUIRE }
            .await
            .map(|r| OwnedSemaphorePermit { r: Some(r), id: self.id })
    }
    pub fn try_acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        mcrt::point(self.id, oc::ACQUIRE);
        self.r.clone().try_acquire_many_owned(n).map(|r| OwnedSemaphorePermit { r: Some(r), id: self.id })
    }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        mcrt::point(self.id, oc::ACQUIRE);
        self.r.clone().try_acquire_owned().map(|r| OwnedSemaphorePermit { r: Some(r), id: self.id })
    }
    pub fn close(&self) {
        mcrt::point(self.id, oc::CLOSE);
        self.r.close();
        mcrt::post_point();
    }
    pub fn is_closed(&self) -> bool {
        mcrt::point(self.id, oc::IS_CLOSED);
        self.r.is_closed()
    }
}
impl fmt::Debug for Semaphore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.r.fmt(f)
    }
}
impl SemaphorePermit<'_> {
    pub fn forget(mut self) {
        self.r.take().unwrap().forget()
    }
    pub fn num_permits(&self) -> usize {
        self.r.as_ref().unwrap().num_permits()
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        if self.r.is_some() {
            mcrt::op(self.id, oc::PERMITS);
        }
    }
}
impl fmt::Debug for SemaphorePermit<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SemaphorePermit")
    }
}
impl OwnedSemaphorePermit {
    pub fn forget(mut self) {
        self.r.take().unwrap().forget()
    }
    pub fn num_permits(&self) -> usize {
        self.r.as_ref().unwrap().num_permits()
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        if self.r.is_some() {
            mcrt::op(self.id, oc::PERMITS);
        }
    }
}
impl fmt::Debug for OwnedSemaphorePermit {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OwnedSemaphorePermit")
    }
}
