//! Timers on the simulated clock.
pub use real::time::{Duration, Instant};

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct Sleep {
    at: u64,
    key: Option<(u64, u64)>,
}
impl Sleep {
    fn new(at: u64) -> Self {
        Sleep { at, key: None }
    }
    pub fn is_elapsed(&self) -> bool {
        simcore::now() >= self.at
    }
    pub fn deadline(&self) -> Instant {
        let now = simcore::now();
        if self.at >= now {
            Instant::now() + Duration::from_nanos(self.at - now)
        } else {
            Instant::now() - Duration::from_nanos(now - self.at)
        }
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        self.cancel();
        self.at = to_sim(deadline);
    }
    fn cancel(&mut self) {
        if let Some(k) = self.key.take() {
            if let Some(s) = simcore::sim() {
                s.cancel_timer(k);
            }
        }
    }
}
fn to_sim(deadline: Instant) -> u64 {
    simcore::now().saturating_add(deadline.saturating_duration_since(Instant::now()).as_nanos() as u64)
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.cancel();
        if simcore::now() >= self.at {
            return Poll::Ready(());
        }
        let s = simcore::in_coro().expect("tokio::time used outside of the simulation");
        let _g = simcore::alloc::harness();
        let at = self.at;
        self.key = Some(s.add_timer(at, simcore::TimerTarget::Waker(cx.waker().clone())));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.cancel()
    }
}

pub fn sleep(d: Duration) -> Sleep {
    // tokio's timers have millisecond granularity and never fire early
    let at = simcore::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 2) as u64);
    Sleep::new(at.div_ceil(1_000_000) * 1_000_000)
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep::new(to_sim(deadline))
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = std::pin::pin!(f);
    let mut s = std::pin::pin!(sleep(d));
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match s.as_mut().poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: u64,
    period: u64,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    Interval { next: simcore::now(), period: period.as_nanos() as u64, missed: MissedTickBehavior::Burst }
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { next: to_sim(start), period: period.as_nanos() as u64, missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b
    }
    pub fn period(&self) -> Duration {
        Duration::from_nanos(self.period)
    }
    pub fn reset(&mut self) {
        self.next = simcore::now() + self.period
    }
    pub async fn tick(&mut self) -> Instant {
        Sleep::new(self.next).await;
        let now = simcore::now();
        self.next = match self.missed {
            _ if now < self.next + 5_000_000 => self.next + self.period,
            MissedTickBehavior::Burst => self.next + self.period,
            MissedTickBehavior::Delay => now + self.period,
            MissedTickBehavior::Skip => self.next + ((now - self.next) / self.period + 1) * self.period,
        };
        Instant::now()
    }
}
