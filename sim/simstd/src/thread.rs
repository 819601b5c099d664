pub use ::std::thread::*;

use std::cell::RefCell;
use std::sync::Arc;
use std::time::Duration;

struct Shared<T> {
    result: RefCell<Option<T>>,
    done: std::cell::Cell<bool>,
    waiters: RefCell<Vec<usize>>,
}

pub struct JoinHandle<T>(Arc<Shared<T>>);
// SAFETY: only used on the simulation's OS thread
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        while !self.0.done.get() {
            let t = simcore::cur_tid().expect("join outside of the simulation");
            self.0.waiters.borrow_mut().push(t);
            simcore::block(simcore::Block::Io);
        }
        Ok(self.0.result.borrow_mut().take().unwrap())
    }
    pub fn is_finished(&self) -> bool {
        self.0.done.get()
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let sh = Arc::new(Shared { result: RefCell::new(None), done: false.into(), waiters: RefCell::new(Vec::new()) });
    let sh2 = sh.clone();
    simcore::spawn_thread("thread", move || {
        let r = f();
        *sh2.result.borrow_mut() = Some(r);
        sh2.done.set(true);
        for t in sh2.waiters.borrow_mut().drain(..) {
            simcore::unblock(t);
        }
    });
    JoinHandle(sh)
}

pub fn sleep(d: Duration) {
    if simcore::in_coro().is_some() {
        simcore::sleep_ns(d.as_nanos() as u64)
    } else {
        ::std::thread::sleep(d)
    }
}

pub fn yield_now() {
    simcore::yield_point(simcore::site::YIELD)
}
