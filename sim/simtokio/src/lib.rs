//! `tokio` as seen by the code under test: the real one (I/O traits and helpers, sync), except that executor, sockets, time and
//! signals belong to the simulator.
pub use real::*;

pub mod fs;
pub mod net;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;

pub use task::spawn;

#[doc(hidden)]
pub use real as __real;
/// Branches are polled in the given order: tokio's own random choice cannot be replayed.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__real::select! { biased; $($t)* } };
    ($($t:tt)*) => { $crate::__real::select! { biased; $($t)* } };
}
