//! Stand-in for the `spin` crate and a facade over `std`, both backed by the deterministic
//! simulator in [`sim`].
//!
//! * `spin::Mutex` is the spin lock that `xtra` and `catty` use; here it blocks the simulated
//!   thread instead of spinning.
//! * Everything else re-exports `std`, with `sync::Mutex`, `RwLock`, `Condvar`, all atomics,
//!   `thread::yield_now` and `hint::spin_loop` replaced. `extern crate spin as std;` at a crate's
//!   root (xtra does so under `cfg(xtra_sim)`, the vendored event-listener always) makes every
//!   `std::` path of that crate resolve here, so that each lock and atomic access is a point at
//!   which the seeded scheduler may run another simulated thread.

#![allow(warnings)]
#![cfg_attr(sim_arc, feature(coerce_unsized, dispatch_from_dyn, receiver_trait, unsize))]

pub use ::std::*;

pub mod sim;

#[cfg(sim_arc)]
mod arc;
mod atomic_impl;
mod lock_impl;
pub mod mutex;
pub mod tasks;

pub use mutex::{Mutex, MutexGuard};

/// `std::sync` with simulated primitives.
pub mod sync {
    pub use crate::lock_impl::{
        Condvar, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
        WaitTimeoutResult,
    };
    #[cfg(sim_arc)]
    pub use crate::arc::{Arc, Weak};
    pub use ::std::sync::*;

    /// `std::sync::atomic` with simulated primitives.
    pub mod atomic {
        pub use crate::atomic_impl::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr,
            AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use ::std::sync::atomic::*;
    }
}

/// `std::task` with a `Wake` for the simulated `Arc`.
#[cfg(sim_arc)]
pub mod task {
    pub use crate::arc::Wake;
    pub use ::std::task::*;
}

/// `std::thread` with simulated yielding and per-fiber panic state.
pub mod thread {
    pub use ::std::thread::*;

    /// Let another simulated thread run.
    pub fn yield_now() {
        crate::sim::yield_now()
    }

    /// Sleeping never blocks the process: it only yields.
    pub fn sleep(_: ::std::time::Duration) {
        crate::sim::yield_now()
    }

    /// Whether the current simulated thread is unwinding.
    pub fn panicking() -> bool {
        crate::sim::panicking()
    }
}

/// `std::hint` with a simulated spin-loop hint.
pub mod hint {
    pub use ::std::hint::*;

    /// Spinning lets another simulated thread run.
    pub fn spin_loop() {
        crate::sim::yield_now()
    }
}
