pub use real::task::unconstrained;

use simcore::{JoinCell, JoinErrorKind};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

thread_local! {
    /// (has ended, abort) of every task of this simulation
    #[allow(clippy::type_complexity)]
    static TASKS: RefCell<Vec<(Box<dyn Fn() -> bool>, Box<dyn Fn()>)>> = const { RefCell::new(Vec::new()) };
}

pub struct JoinHandle<T>(Arc<JoinCell<T>>);

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

pub struct JoinError(());
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinError::Cancelled")
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("task was cancelled")
    }
}
impl std::error::Error for JoinError {}

#[derive(Clone)]
pub struct AbortHandle(Arc<dyn AbortAny>);
trait AbortAny: Send + Sync {
    fn abort(&self);
    fn finished(&self) -> bool;
}
impl<T> AbortAny for JoinCell<T> {
    fn abort(&self) {
        JoinCell::abort(self)
    }
    fn finished(&self) -> bool {
        self.0.borrow().finished
    }
}
impl AbortHandle {
    pub fn abort(&self) {
        self.0.abort()
    }
    pub fn is_finished(&self) -> bool {
        self.0.finished()
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.0.abort()
    }
    pub fn is_finished(&self) -> bool {
        self.0 .0.borrow().finished
    }
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: 'static,
    {
        AbortHandle(self.0.clone())
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut st = self.0 .0.borrow_mut();
        match st.result.take() {
            Some(Ok(v)) => Poll::Ready(Ok(v)),
            Some(Err(JoinErrorKind::Cancelled)) => Poll::Ready(Err(JoinError(()))),
            None => {
                st.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_any(fut)
}

pub(crate) fn spawn_any<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let cell = simcore::spawn_task_registered(fut, |cell| {
        let _g = simcore::alloc::harness();
        // weak: the registry must not keep results alive
        let (a, b) = (Arc::downgrade(cell), Arc::downgrade(cell));
        purge();
        TASKS.with(|t| {
            t.borrow_mut().push((
                Box::new(move || a.upgrade().is_none_or(|c| c.0.borrow().finished)),
                Box::new(move || {
                    if let Some(c) = b.upgrade() {
                        c.abort()
                    }
                }),
            ))
        });
    });
    JoinHandle(cell)
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_any(async move {
        yield_now().await;
        f()
    })
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

/// Tasks that are waited for together.
pub struct JoinSet<T: 'static> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> std::fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinSet")
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { handles: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, fut: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(fut);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match self.poll_join_next(&mut cx) {
            Poll::Ready(r) => r,
            Poll::Pending => None,
        }
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.handles.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.handles.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                self.handles.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn abort_all(&mut self) {
        self.handles.iter().for_each(|h| h.abort());
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
}
impl<T: 'static> Drop for JoinSet<T> {
    fn drop(&mut self) {
        self.abort_all();
    }
}

/// Cancels all tasks and waits until they are gone (what dropping a runtime does).
pub fn cancel_all() {
    let n = TASKS.with(|t| t.borrow().len());
    for i in 0..n {
        let f = TASKS.with(|t| t.borrow()[i].1.as_ref() as *const dyn Fn());
        // SAFETY: entries are boxed and only removed below
        unsafe { (*f)() };
    }
    loop {
        let left = TASKS.with(|t| t.borrow().iter().any(|(done, _)| !done()));
        if !left {
            break;
        }
        simcore::sleep_ns(1);
    }
    TASKS.with(|t| t.borrow_mut().clear());
}

/// Drops what is kept about tasks that have ended.
pub fn purge() {
    TASKS.with(|t| t.borrow_mut().retain(|(done, _)| !done()));
}

/// Forgets the tasks of earlier simulations on this OS thread.
pub fn reset() {
    TASKS.with(|t| t.borrow_mut().clear());
}
