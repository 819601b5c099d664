//! Facade of a runtime: tasks run on the simulator.
use std::future::Future;

#[derive(Debug, Default)]
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder(())
    }
    pub fn new_current_thread() -> Self {
        Builder(())
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> std::io::Result<Runtime> {
        Ok(Runtime(Handle(())))
    }
}

#[derive(Debug)]
pub struct Runtime(Handle);
#[derive(Debug, Clone)]
pub struct Handle(());

impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Ok(Runtime(Handle(())))
    }
    pub fn handle(&self) -> &Handle {
        &self.0
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        simcore::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard(())
    }
    pub fn shutdown_timeout(self, _: std::time::Duration) {}
    pub fn shutdown_background(self) {}
}
pub struct EnterGuard(());
impl Drop for Runtime {
    fn drop(&mut self) {
        if simcore::in_coro().is_some() {
            crate::task::cancel_all();
        }
    }
}
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, std::convert::Infallible> {
        Ok(Handle(()))
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        simcore::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard(())
    }
}
