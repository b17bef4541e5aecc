//! Clocks: simulated time inside of a simulated thread, real time elsewhere.
use crate::sim;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use ::std::time as real;
use real::{Duration, SystemTimeError};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(real::Instant);

fn base() -> real::Instant {
    static BASE: ::std::sync::OnceLock<real::Instant> = ::std::sync::OnceLock::new();
    *BASE.get_or_init(real::Instant::now)
}

impl Instant {
    pub fn now() -> Instant {
        if sim::active() {
            Instant(base() + Duration::from_micros(sim::clock_us().0))
        } else {
            Instant(real::Instant::now())
        }
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.duration_since(earlier.0)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_duration_since(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_duration_since(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().0.saturating_duration_since(self.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0 - o.0
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(real::SystemTime);

pub const UNIX_EPOCH: SystemTime = SystemTime(real::UNIX_EPOCH);

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> SystemTime {
        if sim::active() {
            let (us, skew) = sim::clock_us();
            // Somewhere in 2024, and now and then set forwards or backwards.
            SystemTime(real::UNIX_EPOCH + Duration::from_secs(1_710_000_000 + skew) + Duration::from_micros(us))
        } else {
            SystemTime(real::SystemTime::now())
        }
    }
    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.duration_since(earlier.0)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().0.duration_since(self.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl AddAssign<Duration> for SystemTime {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl SubAssign<Duration> for SystemTime {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl From<real::SystemTime> for SystemTime {
    fn from(t: real::SystemTime) -> SystemTime {
        SystemTime(t)
    }
}
impl From<SystemTime> for real::SystemTime {
    fn from(t: SystemTime) -> real::SystemTime {
        t.0
    }
}
