//! `spin::mutex`: a spin lock without poisoning.

use crate::lock_impl::RawLock;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};

/// Spin mutex.
pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    data: UnsafeCell<T>,
}

/// Alias used by some spin users.
pub type SpinMutex<T> = Mutex<T>;
/// Alias used by some spin users.
pub type SpinMutexGuard<'a, T> = MutexGuard<'a, T>;

unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

/// Guard of [`Mutex`].
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
}

unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    /// New mutex.
    pub const fn new(t: T) -> Self {
        Mutex {
            raw: RawLock::new(),
            data: UnsafeCell::new(t),
        }
    }

    /// Unwrap.
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    /// Lock.
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.lock();
        MutexGuard { lock: self }
    }

    /// Try to lock.
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if self.raw.try_lock() {
            Some(MutexGuard { lock: self })
        } else {
            None
        }
    }

    /// Whether it is locked.
    pub fn is_locked(&self) -> bool {
        crate::sim::point();
        self.raw.is_locked()
    }

    /// Raw pointer to the value.
    pub fn as_mut_ptr(&self) -> *mut T {
        self.data.get()
    }

    /// Unlock without a guard.
    pub unsafe fn force_unlock(&self) {
        self.raw.unlock();
    }

    /// Exclusive access.
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}

impl<'a, T: ?Sized> MutexGuard<'a, T> {
    /// Stay locked for good.
    pub fn leak(this: Self) -> &'a mut T {
        let r = unsafe { &mut *this.lock.data.get() };
        ::std::mem::forget(this);
        r
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}

impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.lock.raw.unlock();
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
