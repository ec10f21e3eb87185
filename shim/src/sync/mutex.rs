use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use tokio_real::sync as real;
use tokio_real::sync::TryLockError;

use super::{block, Pt};
use crate::oc;

pub struct Mutex<T: ?Sized> {
    // 0 until its first use, when made in a const
    id: AtomicU64,
    inner: real::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    id: u64,
    g: Option<real::MutexGuard<'a, T>>,
}
pub struct OwnedMutexGuard<T: ?Sized + 'static> {
    id: u64,
    // declared before `m`: released first
    g: Option<real::MutexGuard<'static, T>>,
    m: Arc<Mutex<T>>,
}

impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Mutex { id: AtomicU64::new(mcrt::new_obj()), inner: real::Mutex::new(t) }
    }
    pub const fn const_new(t: T) -> Self {
        Mutex { id: AtomicU64::new(0), inner: real::Mutex::const_new(t) }
    }
    pub fn into_inner(self) -> T {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> u64 {
        match self.id.load(Ordering::Relaxed) {
            0 => {
                let id = mcrt::new_obj();
                match self.id.compare_exchange(0, id, Ordering::Relaxed, Ordering::Relaxed) {
                    Ok(_) => id,
                    Err(id) => id,
                }
            }
            id => id,
        }
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        let id = self.id();
        let g = Pt { f: self.inner.lock(), obj: id, code: oc::LOCK }.await;
        MutexGuard { id, g: Some(g) }
    }
    #[track_caller]
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        block(self.lock())
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        mcrt::point(self.id(), oc::LOCK);
        self.inner.try_lock().map(|g| MutexGuard { id: self.id(), g: Some(g) })
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T>
    where
        T: 'static,
    {
        let m = self.clone();
        let id = m.id();
        // the guard borrows from the Arc'd mutex, which the owned guard keeps alive
        let mref: &'static Mutex<T> = unsafe { &*Arc::as_ptr(&m) };
        let g = Pt { f: mref.inner.lock(), obj: id, code: oc::LOCK }.await;
        OwnedMutexGuard { id, g: Some(g), m }
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError>
    where
        T: 'static,
    {
        let m = self.clone();
        mcrt::point(m.id(), oc::LOCK);
        let mref: &'static Mutex<T> = unsafe { &*Arc::as_ptr(&m) };
        mref.inner.try_lock().map(|g| OwnedMutexGuard { id: m.id(), g: Some(g), m })
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        mcrt::op(self.id, oc::UNLOCK);
        self.g.take();
        mcrt::post_point();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + 'static> Deref for OwnedMutexGuard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        let _ = &self.m;
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized + 'static> DerefMut for OwnedMutexGuard<T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + 'static> Drop for OwnedMutexGuard<T> {
    fn drop(&mut self) {
        mcrt::op(self.id, oc::UNLOCK);
        self.g.take();
        mcrt::post_point();
    }
}
