//! `std` as seen by the code under test: the real one, except that locks, atomics and threads belong to the simulator.
pub use ::std::*;

pub mod sync {
    pub use crate::locks::{
        Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
    };
    pub use ::std::sync::*;
    pub use crate::atomics as atomic;
}

pub mod thread;
mod atomics_impl;
pub mod atomics {
    pub use crate::atomics_impl::*;
    pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
}
mod locks;
