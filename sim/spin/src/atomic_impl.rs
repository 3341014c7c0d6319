//! Simulated atomics: every access is a scheduling point; the memory model is sequentially
//! consistent.

use crate::sim;
use ::std::fmt;
use ::std::sync::atomic::{self as real, Ordering};

/// A fence is a scheduling point.
pub fn fence(_: Ordering) {
    sim::point();
}

macro_rules! common {
    ($name:ident, $real:ty, $t:ty, [$($g:tt)*]) => {
        impl<$($g)*> $name<$($g)*> {
            /// New.
            pub const fn new(v: $t) -> Self {
                $name(<$real>::new(v))
            }
            /// Load.
            pub fn load(&self, _: Ordering) -> $t {
                sim::point();
                self.0.load(Ordering::SeqCst)
            }
            /// Store.
            pub fn store(&self, v: $t, _: Ordering) {
                sim::point();
                self.0.store(v, Ordering::SeqCst)
            }
            /// Swap.
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                sim::point();
                self.0.swap(v, Ordering::SeqCst)
            }
            /// Compare and exchange.
            pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                sim::point();
                self.0.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            /// Compare and exchange which may fail spuriously.
            pub fn compare_exchange_weak(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                sim::point();
                if sim::cas_fails() {
                    return Err(self.0.load(Ordering::SeqCst));
                }
                self.0.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            /// Update with a function.
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, a: Ordering, b: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(b);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, a, b) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            /// Exclusive access.
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            /// Raw pointer to the value.
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            /// Compare and swap.
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                match self.compare_exchange(c, n, o, Ordering::SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
            /// Unwrap.
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        impl<$($g)*> fmt::Debug for $name<$($g)*> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.0, f)
            }
        }
    };
}

macro_rules! ints {
    ($($name:ident $t:ty),*) => {$(
        /// Simulated atomic.
        pub struct $name(real::$name);
        common!($name, real::$name, $t, []);
        impl $name {
            /// Add.
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_add(v, Ordering::SeqCst) }
            /// Subtract.
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_sub(v, Ordering::SeqCst) }
            /// And.
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_and(v, Ordering::SeqCst) }
            /// Or.
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_or(v, Ordering::SeqCst) }
            /// Xor.
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_xor(v, Ordering::SeqCst) }
            /// Not-and.
            pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_nand(v, Ordering::SeqCst) }
            /// Max.
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_max(v, Ordering::SeqCst) }
            /// Min.
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { sim::point(); self.0.fetch_min(v, Ordering::SeqCst) }
        }
        impl Default for $name { fn default() -> Self { Self::new(0) } }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
    )*};
}

ints!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicI8 i8, AtomicU16 u16, AtomicI16 i16, AtomicU32 u32, AtomicI32 i32, AtomicU64 u64, AtomicI64 i64);

/// Simulated atomic.
pub struct AtomicBool(real::AtomicBool);
common!(AtomicBool, real::AtomicBool, bool, []);
impl AtomicBool {
    /// And.
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
        sim::point();
        self.0.fetch_and(v, Ordering::SeqCst)
    }
    /// Or.
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
        sim::point();
        self.0.fetch_or(v, Ordering::SeqCst)
    }
    /// Xor.
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
        sim::point();
        self.0.fetch_xor(v, Ordering::SeqCst)
    }
    /// Not-and.
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
        sim::point();
        self.0.fetch_nand(v, Ordering::SeqCst)
    }
}
impl From<bool> for AtomicBool {
    fn from(v: bool) -> Self {
        Self::new(v)
    }
}
impl<T> From<*mut T> for AtomicPtr<T> {
    fn from(v: *mut T) -> Self {
        Self::new(v)
    }
}
impl<T> fmt::Pointer for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.0, f)
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}

/// Simulated atomic.
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
common!(AtomicPtr, real::AtomicPtr<T>, *mut T, [T]);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(::std::ptr::null_mut())
    }
}
