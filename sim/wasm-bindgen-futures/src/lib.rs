//! Stand-in for wasm-bindgen-futures: a task that is spawned goes to the simulated executor.

use std::future::Future;

pub fn spawn_local<F>(f: F)
where
    F: Future<Output = ()> + 'static,
{
    spin::tasks::spawn("wasm_bindgen", f);
}
