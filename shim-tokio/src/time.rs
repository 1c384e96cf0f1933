//! Virtual time: `world::get().now` milliseconds, advanced only by the harness.
use crate::world;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};

pub use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);

fn ms(d: Duration) -> u64 {
    // whole milliseconds, rounded up, without 128-bit arithmetic
    let n = d.subsec_nanos() as u64;
    d.as_secs().saturating_mul(1000).saturating_add((n + 999_999) / 1_000_000)
}

impl Instant {
    pub fn now() -> Instant {
        Instant(world::get().now)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_millis)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ms(d)).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(ms(d)).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + ms(d))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += ms(d)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(ms(d)))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 = self.0.saturating_sub(ms(d))
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        Duration::from_millis(self.0.saturating_sub(o.0))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

#[derive(Debug)]
pub struct Interval {
    next: u64,
    period: u64,
    missed: MissedTickBehavior,
}

pub fn interval(period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: start.0, period: ms(period), missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub fn tick(&mut self) -> Tick<'_> {
        Tick { i: self }
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let now = world::get().now;
        if now < self.next {
            world::timer(self.next, cx.waker());
            return Poll::Pending;
        }
        let t = self.next;
        self.next = match self.missed {
            MissedTickBehavior::Burst => t + self.period,
            _ if now <= t + 5 => t + self.period,
            MissedTickBehavior::Delay => now + self.period,
            MissedTickBehavior::Skip => {
                let mut n = t;
                while n <= now {
                    n += self.period;
                }
                n
            }
        };
        Poll::Ready(Instant(t))
    }
    pub fn reset(&mut self) {
        self.next = world::get().now + self.period;
    }
    pub fn reset_immediately(&mut self) {
        self.next = world::get().now;
    }
    pub fn reset_after(&mut self, d: Duration) {
        self.next = world::get().now + ms(d);
    }
    pub fn reset_at(&mut self, t: Instant) {
        self.next = t.0;
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn period(&self) -> Duration {
        Duration::from_millis(self.period)
    }
}
pub struct Tick<'a> {
    i: &'a mut Interval,
}
impl Future for Tick<'_> {
    type Output = Instant;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> {
        self.i.poll_tick(cx)
    }
}

#[derive(Debug)]
pub struct Sleep {
    at: u64,
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep { at: (Instant::now() + d).0 }
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep { at: t.0 }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    pub fn is_elapsed(&self) -> bool {
        world::get().now >= self.at
    }
    pub fn reset(mut self: Pin<&mut Self>, t: Instant) {
        self.at = t.0;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if world::get().now >= self.at {
            Poll::Ready(())
        } else {
            world::timer(self.at, cx.waker());
            Poll::Pending
        }
    }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> std::io::Error {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

pin_project_lite::pin_project! {
    pub struct Timeout<F> {
        #[pin]
        f: F,
        at: u64,
    }
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { f, at: (Instant::now() + d).0 }
}
pub fn timeout_at<F: Future>(t: Instant, f: F) -> Timeout<F> {
    Timeout { f, at: t.0 }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let p = self.project();
        if let Poll::Ready(v) = p.f.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        if world::get().now >= *p.at {
            Poll::Ready(Err(error::Elapsed(())))
        } else {
            world::timer(*p.at, cx.waker());
            Poll::Pending
        }
    }
}
