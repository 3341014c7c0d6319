//! Simulated blocking locks.

use crate::sim;
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

/// A lock owned by a simulated thread. All simulated threads of a run live on one OS thread, so
/// plain cells suffice.
pub(crate) struct RawLock {
    /// 0: free, otherwise fiber id + 1.
    owner: Cell<u32>,
    waiters: Cell<u128>,
}

unsafe impl Send for RawLock {}
unsafe impl Sync for RawLock {}

impl RawLock {
    pub(crate) const fn new() -> Self {
        RawLock {
            owner: Cell::new(0),
            waiters: Cell::new(0),
        }
    }

    pub(crate) fn is_locked(&self) -> bool {
        self.owner.get() != 0
    }

    pub(crate) fn lock(&self) {
        sim::point();
        let me = sim::current_or_main();
        loop {
            let o = self.owner.get();
            if o == 0 {
                self.owner.set(me + 1);
                return sim::held_point();
            }
            if o == me + 1 {
                sim::fail(
                    "deadlock",
                    &format!("self-deadlock: {} locks a mutex it already holds", sim::name(me)),
                );
            }
            self.waiters.set(self.waiters.get() | (1u128 << me));
            sim::block(sim::Why::Lock);
            self.waiters.set(self.waiters.get() & !(1u128 << me));
        }
    }

    pub(crate) fn try_lock(&self) -> bool {
        sim::point();
        if self.owner.get() == 0 {
            self.owner.set(sim::current_or_main() + 1);
            sim::held_point();
            true
        } else {
            false
        }
    }

    pub(crate) fn unlock(&self) {
        self.owner.set(0);
        sim::unblock_mask(self.waiters.replace(0));
        sim::point();
    }
}

/// Simulated `std::sync::Mutex`.
pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}

unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

/// Guard of [`Mutex`].
#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    was_panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}

unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    /// New mutex.
    pub const fn new(t: T) -> Self {
        Mutex {
            raw: RawLock::new(),
            poisoned: Cell::new(false),
            data: UnsafeCell::new(t),
        }
    }

    /// Unwrap.
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}

impl<T: ?Sized> Mutex<T> {
    /// Forget that it is poisoned.
    pub fn clear_poison(&self) {
        sim::point();
        self.poisoned.set(false);
    }
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard {
            lock: self,
            was_panicking: sim::panicking(),
            _not_send: ::std::marker::PhantomData,
        }
    }

    /// Lock.
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock();
        let g = self.guard();
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }

    /// Try to lock.
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !self.raw.try_lock() {
            return Err(TryLockError::WouldBlock);
        }
        let g = self.guard();
        if self.poisoned.get() {
            Err(TryLockError::Poisoned(PoisonError::new(g)))
        } else {
            Ok(g)
        }
    }

    /// Whether the mutex is poisoned.
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }

    /// Exclusive access.
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}

impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.was_panicking && sim::panicking() {
            self.lock.poisoned.set(true);
        }
        self.lock.raw.unlock();
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}

impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}

/// Simulated `std::sync::RwLock`.
pub struct RwLock<T: ?Sized> {
    /// -1: write locked, n: n readers.
    state: Cell<i64>,
    waiters: Cell<u128>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}

unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

/// Read guard.
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
/// Write guard.
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);

unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    /// New lock.
    pub const fn new(t: T) -> Self {
        RwLock {
            state: Cell::new(0),
            waiters: Cell::new(0),
            poisoned: Cell::new(false),
            data: UnsafeCell::new(t),
        }
    }

    /// Unwrap.
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}

impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}

impl<T: ?Sized> RwLock<T> {
    /// Whether it is poisoned.
    pub fn is_poisoned(&self) -> bool {
        sim::point();
        self.poisoned.get()
    }

    /// Forget that it is poisoned.
    pub fn clear_poison(&self) {
        sim::point();
        self.poisoned.set(false);
    }

    fn wait(&self) {
        let me = sim::current_or_main();
        self.waiters.set(self.waiters.get() | (1u128 << me));
        sim::block(sim::Why::Lock);
        self.waiters.set(self.waiters.get() & !(1u128 << me));
    }

    /// Lock for reading.
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        sim::point();
        while self.state.get() < 0 {
            self.wait();
        }
        self.state.set(self.state.get() + 1);
        sim::held_point();
        if self.poisoned.get() {
            Err(PoisonError::new(RwLockReadGuard(self)))
        } else {
            Ok(RwLockReadGuard(self))
        }
    }

    /// Lock for writing.
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        sim::point();
        while self.state.get() != 0 {
            self.wait();
        }
        self.state.set(-1);
        sim::held_point();
        let g = RwLockWriteGuard(self, sim::panicking());
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }

    /// Try to lock for reading.
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sim::point();
        if self.state.get() < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.set(self.state.get() + 1);
        sim::held_point();
        Ok(RwLockReadGuard(self))
    }

    /// Try to lock for writing.
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sim::point();
        if self.state.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.set(-1);
        sim::held_point();
        Ok(RwLockWriteGuard(self, sim::panicking()))
    }

    /// Exclusive access.
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }

    fn release(&self) {
        sim::unblock_mask(self.waiters.replace(0));
        sim::point();
    }
}

impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}

impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}

impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}

impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.state.set(self.0.state.get() - 1);
        self.0.release();
    }
}

impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && sim::panicking() {
            self.0.poisoned.set(true);
        }
        self.0.state.set(0);
        self.0.release();
    }
}

impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}

impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}

/// Simulated `std::sync::Condvar`.
pub struct Condvar {
    waiters: Cell<u128>,
}

impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

impl Condvar {
    /// New condition variable.
    pub const fn new() -> Self {
        Condvar {
            waiters: Cell::new(0),
        }
    }

    /// Wait for a notification.
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        let me = sim::current_or_main();
        self.waiters.set(self.waiters.get() | (1u128 << me));
        drop(g);
        while self.waiters.get() & (1u128 << me) != 0 {
            sim::block(sim::Why::Lock);
        }
        lock.lock()
    }

    /// Wait while a condition holds.
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }

    /// Wait for a notification or a time, which may be over at once.
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        _: ::std::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        let me = sim::current_or_main();
        self.waiters.set(self.waiters.get() | (1u128 << me));
        drop(g);
        sim::yield_now();
        let timed_out = self.waiters.get() & (1u128 << me) != 0;
        self.waiters.set(self.waiters.get() & !(1u128 << me));
        match lock.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(timed_out))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(timed_out)))),
        }
    }

    /// Wake one waiter.
    pub fn notify_one(&self) {
        let w = self.waiters.get();
        if w != 0 {
            let bit = w & w.wrapping_neg();
            self.waiters.set(w & !bit);
            sim::unblock_mask(bit);
        }
        sim::point();
    }

    /// Wake all waiters.
    pub fn notify_all(&self) {
        sim::unblock_mask(self.waiters.replace(0));
        sim::point();
    }
}

impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}

/// Whether the time was over.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);

impl WaitTimeoutResult {
    /// Whether the time was over.
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

/// Simulated `std::sync::OnceLock`.
pub struct OnceLock<T> {
    busy: Cell<bool>,
    data: UnsafeCell<Option<T>>,
}

unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> ::std::panic::UnwindSafe for OnceLock<T> {}
impl<T> ::std::panic::RefUnwindSafe for OnceLock<T> {}

impl<T> OnceLock<T> {
    /// New and empty.
    pub const fn new() -> Self {
        OnceLock {
            busy: Cell::new(false),
            data: UnsafeCell::new(None),
        }
    }

    /// The value, if there is one.
    pub fn get(&self) -> Option<&T> {
        sim::point();
        unsafe { (*self.data.get()).as_ref() }
    }

    /// Exclusive access.
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.data.get_mut().as_mut()
    }

    /// Set the value, once.
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }

    /// The value, made now if there is none.
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        struct Reset<'a>(&'a Cell<bool>);
        impl Drop for Reset<'_> {
            fn drop(&mut self) {
                self.0.set(false);
            }
        }
        sim::point();
        while self.busy.get() {
            sim::yield_now();
        }
        if unsafe { (*self.data.get()).is_none() } {
            self.busy.set(true);
            let r = Reset(&self.busy);
            let t = f();
            unsafe { *self.data.get() = Some(t) };
            drop(r);
            sim::point();
        }
        unsafe { (*self.data.get()).as_ref().unwrap() }
    }

    /// Take the value.
    pub fn take(&mut self) -> Option<T> {
        self.data.get_mut().take()
    }

    /// Unwrap.
    pub fn into_inner(self) -> Option<T> {
        self.data.into_inner()
    }
}

impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}

impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock {
            busy: Cell::new(false),
            data: UnsafeCell::new(Some(t)),
        }
    }
}

impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceLock { .. }")
    }
}

/// Simulated `std::sync::Once`.
pub struct Once(OnceLock<()>);

impl Once {
    /// New.
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }

    /// Call it once.
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }

    /// Whether it was called.
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
