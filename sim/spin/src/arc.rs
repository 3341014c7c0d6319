//! `std::sync::Arc` and `Weak` whose looks at the reference counts are scheduling points.
//!
//! Only built under `cfg(sim_arc)`, since a smart pointer outside of `std` needs unstable features
//! (`RUSTC_BOOTSTRAP=spin`) in order to be unsized and to be the type of `self`.

use crate::sim;
use ::std::borrow::Borrow;
use ::std::cmp::Ordering;
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::marker::Unsize;
use ::std::ops::{CoerceUnsized, Deref, DispatchFromDyn, Receiver};
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::pin::Pin;
use ::std::sync as real;

#[repr(transparent)]
pub struct Arc<T: ?Sized>(real::Arc<T>);

#[repr(transparent)]
pub struct Weak<T: ?Sized>(real::Weak<T>);

impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Weak<U>> for Weak<T> {}
impl<T: ?Sized> Receiver for Arc<T> {}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized> Unpin for Weak<T> {}
impl<T: RefUnwindSafe + ?Sized> UnwindSafe for Arc<T> {}

impl<T> Arc<T> {
    pub fn new(t: T) -> Arc<T> {
        Arc(real::Arc::new(t))
    }
    pub fn pin(t: T) -> Pin<Arc<T>> {
        unsafe { Pin::new_unchecked(Arc::new(t)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Arc<T> {
        Arc(real::Arc::new_cyclic(|w| {
            let w: *const real::Weak<T> = w;
            f(unsafe { &*(w as *const Weak<T>) })
        }))
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        sim::point();
        real::Arc::try_unwrap(this.0).map_err(Arc)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        sim::point();
        real::Arc::into_inner(this.0)
    }
}

impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        sim::point();
        real::Arc::make_mut(&mut this.0)
    }
    pub fn unwrap_or_clone(this: Self) -> T {
        Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
}

impl<T: ?Sized> Arc<T> {
    pub fn downgrade(this: &Self) -> Weak<T> {
        Weak(real::Arc::downgrade(&this.0))
    }
    pub fn strong_count(this: &Self) -> usize {
        sim::point();
        real::Arc::strong_count(&this.0)
    }
    pub fn weak_count(this: &Self) -> usize {
        sim::point();
        real::Arc::weak_count(&this.0)
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        sim::point();
        real::Arc::get_mut(&mut this.0)
    }
    pub fn ptr_eq(this: &Self, other: &Self) -> bool {
        real::Arc::ptr_eq(&this.0, &other.0)
    }
    pub fn as_ptr(this: &Self) -> *const T {
        real::Arc::as_ptr(&this.0)
    }
    pub fn into_raw(this: Self) -> *const T {
        real::Arc::into_raw(this.0)
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        Arc(real::Arc::from_raw(p))
    }
    pub unsafe fn increment_strong_count(p: *const T) {
        real::Arc::increment_strong_count(p)
    }
    pub unsafe fn decrement_strong_count(p: *const T) {
        real::Arc::decrement_strong_count(p)
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Weak<T> {
        Weak(real::Weak::new())
    }
}

impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        sim::point();
        self.0.upgrade().map(Arc)
    }
    pub fn strong_count(&self) -> usize {
        sim::point();
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        sim::point();
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, other: &Self) -> bool {
        self.0.ptr_eq(&other.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
    pub fn into_raw(self) -> *const T {
        self.0.into_raw()
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        Weak(real::Weak::from_raw(p))
    }
}

impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        Arc(self.0.clone())
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak(self.0.clone())
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.0, f)
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("(Weak)")
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T: ?Sized> From<Box<T>> for Arc<T> {
    fn from(t: Box<T>) -> Self {
        Arc(real::Arc::from(t))
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(t: Vec<T>) -> Self {
        Arc(real::Arc::from(t))
    }
}
impl<T: Clone> From<&[T]> for Arc<[T]> {
    fn from(t: &[T]) -> Self {
        Arc(real::Arc::from(t))
    }
}
impl From<&str> for Arc<str> {
    fn from(t: &str) -> Self {
        Arc(real::Arc::from(t))
    }
}
impl From<String> for Arc<str> {
    fn from(t: String) -> Self {
        Arc(real::Arc::from(t))
    }
}
impl<T> FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Arc(real::Arc::from_iter(i))
    }
}
impl Arc<dyn ::std::any::Any + Send + Sync> {
    pub fn downcast<T: ::std::any::Any + Send + Sync>(self) -> Result<Arc<T>, Self> {
        self.0.downcast::<T>().map(Arc).map_err(Arc)
    }
}

/// `std::task::Wake`, for the `Arc` of this module.
pub trait Wake {
    fn wake(self: Arc<Self>);
    fn wake_by_ref(self: &Arc<Self>) {
        self.clone().wake();
    }
}

struct Bridge<W: ?Sized>(Arc<W>);
impl<W: Wake + Send + Sync + 'static> ::std::task::Wake for Bridge<W> {
    fn wake(self: real::Arc<Self>) {
        self.0.clone().wake()
    }
    fn wake_by_ref(self: &real::Arc<Self>) {
        self.0.wake_by_ref()
    }
}
impl<W: Wake + Send + Sync + 'static> From<Arc<W>> for ::std::task::Waker {
    fn from(w: Arc<W>) -> Self {
        ::std::task::Waker::from(real::Arc::new(Bridge(w)))
    }
}
