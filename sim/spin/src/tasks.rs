//! Where the stand-ins of executors (tokio, async-std, smol, wasm-bindgen-futures) hand over what is
//! spawned on them.

use ::std::boxed::Box;
use ::std::cell::Cell;
use ::std::future::Future;
use ::std::pin::Pin;

pub type Task = Pin<Box<dyn Future<Output = ()>>>;

::std::thread_local! {
    /// Starts a task on the executor of this name.
    static SPAWN: Cell<Option<fn(&'static str, Task) -> u32>> = const { Cell::new(None) };
    /// Cancels it.
    static CANCEL: Cell<Option<fn(u32)>> = const { Cell::new(None) };
}

/// Set by the simulator.
pub fn install(spawn: fn(&'static str, Task) -> u32, cancel: fn(u32)) {
    SPAWN.with(|s| s.set(Some(spawn)));
    CANCEL.with(|c| c.set(Some(cancel)));
}

pub fn spawn<F>(executor: &'static str, f: F) -> u32
where
    F: Future + 'static,
    F::Output: 'static,
{
    let f: Task = Box::pin(async move {
        f.await;
    });
    SPAWN.with(|s| s.get()).expect("no simulated executor")(executor, f)
}

pub fn cancel(id: u32) {
    CANCEL.with(|c| c.get()).expect("no simulated executor")(id)
}
