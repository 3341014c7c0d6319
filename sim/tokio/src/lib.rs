//! Stand-in for tokio: a task that is spawned goes to the simulated executor.

pub use task::spawn;

pub mod task {
    use std::future::Future;
    use std::marker::PhantomData;

    /// Dropping it detaches the task, as in tokio.
    pub struct JoinHandle<T>(pub(crate) u32, PhantomData<T>);

    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            spin::tasks::cancel(self.0)
        }
    }

    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        JoinHandle(spin::tasks::spawn("tokio", f), PhantomData)
    }

    /// Only runs on the thread of a `LocalSet`.
    pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        JoinHandle(spin::tasks::spawn("tokio (local)", f), PhantomData)
    }
}

pub mod runtime {
    use std::future::Future;

    #[derive(Clone, Debug)]
    pub struct Handle(());

    impl Handle {
        pub fn current() -> Handle {
            Handle(())
        }

        pub fn try_current() -> Result<Handle, std::convert::Infallible> {
            Ok(Handle(()))
        }

        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}
