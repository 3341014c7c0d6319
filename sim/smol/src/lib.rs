//! Stand-in for smol: a task that is spawned goes to the simulated executor.

use std::future::Future;
use std::marker::PhantomData;

/// Dropping it cancels the task, as in smol.
#[must_use = "tasks get canceled when dropped, use `.detach()` to run them in the background"]
pub struct Task<T>(u32, PhantomData<T>);

impl<T> Task<T> {
    pub fn detach(self) {
        std::mem::forget(self)
    }

    pub async fn cancel(self) -> Option<T> {
        None
    }
}

impl<T> Drop for Task<T> {
    fn drop(&mut self) {
        spin::tasks::cancel(self.0)
    }
}

pub fn spawn<T: Send + 'static>(f: impl Future<Output = T> + Send + 'static) -> Task<T> {
    Task(spin::tasks::spawn("smol", f), PhantomData)
}
