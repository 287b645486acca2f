//! Virtual clock standing in for `web-time` while checking. Time only passes when the
//! explorer says so: every question "how much time has elapsed?" is a scheduling point.
use std::cell::Cell;
pub use std::time::Duration;

thread_local! {
    /// Number of further `elapsed()` questions answered "no time has passed";
    /// negative: time never runs out.
    static COUNTDOWN: Cell<i64> = const { Cell::new(-1) };
    static QUESTIONS: Cell<u64> = const { Cell::new(0) };
}

/// Let `n` questions pass, then report that an hour went by.
pub fn set_countdown(n: i64) {
    COUNTDOWN.with(|c| c.set(n));
}

/// Questions asked so far by this thread.
pub fn questions() -> u64 {
    QUESTIONS.with(|c| c.get())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);

fn ask() -> Duration {
    QUESTIONS.with(|c| c.set(c.get() + 1));
    COUNTDOWN.with(|c| {
        let n = c.get();
        if n < 0 {
            Duration::ZERO
        } else if n == 0 {
            Duration::from_secs(3600)
        } else {
            c.set(n - 1);
            Duration::ZERO
        }
    })
}

impl Instant {
    pub fn now() -> Instant {
        Instant(Duration::ZERO)
    }
    pub fn elapsed(&self) -> Duration {
        ask()
    }
    pub fn duration_since(&self, _earlier: Instant) -> Duration {
        ask()
    }
    pub fn saturating_duration_since(&self, _earlier: Instant) -> Duration {
        ask()
    }
    pub fn checked_duration_since(&self, _earlier: Instant) -> Option<Duration> {
        Some(ask())
    }
}

impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, _o: Instant) -> Duration {
        ask()
    }
}

impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
