//! Stand-in for async-std: a task that is spawned goes to the simulated executor.

pub mod task {
    use std::future::Future;
    use std::marker::PhantomData;

    /// Dropping it detaches the task, as in async-std.
    pub struct JoinHandle<T>(u32, PhantomData<T>);

    impl<T> JoinHandle<T> {
        pub async fn cancel(self) -> Option<T> {
            spin::tasks::cancel(self.0);
            None
        }
    }

    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        JoinHandle(spin::tasks::spawn("async_std", f), PhantomData)
    }

    /// Only runs while its thread is in `block_on`.
    pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        JoinHandle(spin::tasks::spawn("async_std (local)", f), PhantomData)
    }

    #[derive(Default)]
    pub struct Builder(());

    impl Builder {
        pub fn new() -> Builder {
            Builder(())
        }

        pub fn name(self, _: String) -> Builder {
            self
        }

        pub fn spawn<F>(self, f: F) -> std::io::Result<JoinHandle<F::Output>>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            Ok(spawn(f))
        }

        pub fn local<F>(self, f: F) -> std::io::Result<JoinHandle<F::Output>>
        where
            F: Future + 'static,
            F::Output: 'static,
        {
            Ok(spawn_local(f))
        }
    }
}
