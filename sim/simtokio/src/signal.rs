//! Simulated signals.
use std::cell::RefCell;
use std::task::{Poll, Waker};

#[derive(Default)]
struct State {
    /// signals with a handler installed
    handled: Vec<i32>,
    /// one entry per Signal object: (id, signum, pending, waker)
    objs: Vec<(u64, i32, bool, Option<Waker>)>,
    next: u64,
}
thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

/// Delivers a signal. False if no handler is installed (the default action would end the process).
pub fn raise(signum: i32) -> bool {
    let _g = simcore::alloc::harness();
    let wakers: Option<Vec<Waker>> = ST.with(|s| {
        let mut s = s.borrow_mut();
        if !s.handled.contains(&signum) {
            return None;
        }
        let mut v = Vec::new();
        for o in s.objs.iter_mut().filter(|o| o.1 == signum) {
            o.2 = true;
            v.extend(o.3.take());
        }
        Some(v)
    });
    match wakers {
        None => false,
        Some(v) => {
            v.into_iter().for_each(|w| w.wake());
            true
        }
    }
}
pub fn is_handled(signum: i32) -> bool {
    ST.with(|s| s.borrow().handled.contains(&signum))
}
pub fn reset() {
    ST.with(|s| *s.borrow_mut() = State::default());
}

pub async fn ctrl_c() -> std::io::Result<()> {
    unix::signal(unix::SignalKind::interrupt())?.recv().await;
    Ok(())
}

pub mod unix {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            SignalKind(n)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(10)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(12)
        }
    }

    #[derive(Debug)]
    pub struct Signal(u64);
    pub fn signal(kind: SignalKind) -> std::io::Result<Signal> {
        simcore::yield_point(simcore::site::NET);
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.next += 1;
            let id = s.next;
            if !s.handled.contains(&kind.0) {
                s.handled.push(kind.0);
            }
            s.objs.push((id, kind.0, false, None));
            Ok(Signal(id))
        })
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            std::future::poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn poll_recv(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<()>> {
            ST.with(|s| {
                let mut s = s.borrow_mut();
                match s.objs.iter_mut().find(|o| o.0 == self.0) {
                    None => Poll::Ready(None),
                    Some(o) if o.2 => {
                        o.2 = false;
                        Poll::Ready(Some(()))
                    }
                    Some(o) => {
                        o.3 = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
        }
    }
    impl Drop for Signal {
        fn drop(&mut self) {
            let _ = ST.try_with(|s| {
                if let Ok(mut s) = s.try_borrow_mut() {
                    s.objs.retain(|o| o.0 != self.0)
                }
            });
        }
    }
}
