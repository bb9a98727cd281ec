//! `Duration` and `Instant` over the ghost clock.  Values are kept in mixed radix
//! (seconds, milliseconds, nanoseconds of the millisecond) so that the arithmetic needs no
//! division; the arithmetic is exact.
use ghost::T;
use std::ops::{Add, AddAssign, Div, Mul, Sub, SubAssign};

pub use std::time::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Duration(pub T);

impl Default for Duration {
    fn default() -> Self {
        Duration::ZERO
    }
}

impl Duration {
    pub const ZERO: Duration = Duration(T::ZERO);
    pub const MAX: Duration = Duration(T::MAX);
    pub const MICROSECOND: Duration = Duration(T { s: 0, m: 0, n: 1000 });
    pub const NANOSECOND: Duration = Duration(T { s: 0, m: 0, n: 1 });
    pub const SECOND: Duration = Duration::from_secs(1);
    pub const MILLISECOND: Duration = Duration(T { s: 0, m: 1, n: 0 });

    pub fn any() -> Duration {
        Duration(T::any())
    }
    pub const fn new(secs: u64, nanos: u32) -> Duration {
        let extra = (nanos / 1_000_000_000) as u64;
        let nanos = nanos % 1_000_000_000;
        match secs.checked_add(extra) {
            Some(s) => Duration(T { s, m: nanos / 1_000_000, n: nanos % 1_000_000 }),
            None => panic!("overflow in Duration::new"),
        }
    }
    #[inline]
    pub const fn from_secs(s: u64) -> Duration {
        Duration(T { s, m: 0, n: 0 })
    }
    #[inline]
    pub fn from_millis(ms: u64) -> Duration {
        Duration(T::from_ms(ms))
    }
    pub fn from_micros(us: u64) -> Duration {
        let (ms, r) = ghost::time::divmod(us, 1000);
        let mut t = T::from_ms(ms);
        t.n = r * 1000;
        Duration(t)
    }
    pub fn from_nanos(ns: u64) -> Duration {
        let (ms, r) = ghost::time::divmod(ns, 1_000_000);
        let mut t = T::from_ms(ms);
        t.n = r;
        Duration(t)
    }
    pub const fn from_millis_const(ms: u64) -> Duration {
        Duration(T { s: ms / 1000, m: (ms % 1000) as u32, n: 0 })
    }
    pub const fn from_micros_const(us: u64) -> Duration {
        Duration(T { s: us / 1_000_000, m: (us / 1000 % 1000) as u32, n: (us % 1000) as u32 * 1000 })
    }
    pub const fn from_nanos_const(ns: u64) -> Duration {
        Duration(T { s: ns / 1_000_000_000, m: (ns / 1_000_000 % 1000) as u32, n: (ns % 1_000_000) as u32 })
    }
    pub const fn from_mins(m: u64) -> Duration {
        Duration::from_secs(m * 60)
    }
    pub const fn from_hours(h: u64) -> Duration {
        Duration::from_secs(h * 3600)
    }
    #[inline]
    pub const fn is_zero(&self) -> bool {
        self.0.s == 0 && self.0.m == 0 && self.0.n == 0
    }
    #[inline]
    pub const fn as_secs(&self) -> u64 {
        self.0.s
    }
    #[inline]
    pub const fn subsec_millis(&self) -> u32 {
        self.0.m
    }
    pub const fn subsec_micros(&self) -> u32 {
        self.0.m * 1000 + self.0.n / 1000
    }
    #[inline]
    pub fn subsec_nanos(&self) -> u32 {
        self.0.subsec_ns()
    }
    #[inline]
    pub fn as_millis(&self) -> u128 {
        self.0.ms()
    }
    pub fn as_micros(&self) -> u128 {
        self.0.ms() * 1000 + (self.0.n / 1000) as u128
    }
    pub fn as_nanos(&self) -> u128 {
        self.0.ms() * 1_000_000 + self.0.n as u128
    }
    pub fn as_secs_f64(&self) -> f64 {
        self.0.s as f64 + self.subsec_nanos() as f64 / 1e9
    }
    pub const fn checked_add(self, o: Duration) -> Option<Duration> {
        match self.0.checked_add(o.0) {
            Some(t) => Some(Duration(t)),
            None => None,
        }
    }
    pub const fn saturating_add(self, o: Duration) -> Duration {
        match self.0.checked_add(o.0) {
            Some(t) => Duration(t),
            None => Duration::MAX,
        }
    }
    pub const fn checked_sub(self, o: Duration) -> Option<Duration> {
        match self.0.checked_sub(o.0) {
            Some(t) => Some(Duration(t)),
            None => None,
        }
    }
    pub const fn saturating_sub(self, o: Duration) -> Duration {
        Duration(self.0.saturating_sub(o.0))
    }
    pub fn checked_mul(self, k: u32) -> Option<Duration> {
        let mut r = Duration::ZERO;
        let mut i = 0;
        while i < k {
            r = r.checked_add(self)?;
            i += 1;
        }
        Some(r)
    }
    pub fn saturating_mul(self, k: u32) -> Duration {
        self.checked_mul(k).unwrap_or(Duration::MAX)
    }
    pub fn checked_div(self, k: u32) -> Option<Duration> {
        if k == 0 {
            None
        } else {
            Some(self / k)
        }
    }
    pub fn as_secs_f32(&self) -> f32 {
        self.as_secs_f64() as f32
    }
    pub fn from_secs_f64(s: f64) -> Duration {
        let d = std::time::Duration::from_secs_f64(s);
        Duration::new(d.as_secs(), d.subsec_nanos())
    }
    pub fn from_secs_f32(s: f32) -> Duration {
        let d = std::time::Duration::from_secs_f32(s);
        Duration::new(d.as_secs(), d.subsec_nanos())
    }
    pub fn mul_f64(self, x: f64) -> Duration {
        Duration::from_secs_f64(self.as_secs_f64() * x)
    }
    pub fn abs_diff(self, o: Duration) -> Duration {
        if self < o {
            Duration(o.0.saturating_sub(self.0))
        } else {
            Duration(self.0.saturating_sub(o.0))
        }
    }
}

impl Add for Duration {
    type Output = Duration;
    fn add(self, o: Duration) -> Duration {
        self.checked_add(o).expect("overflow when adding durations")
    }
}
impl AddAssign for Duration {
    fn add_assign(&mut self, o: Duration) {
        *self = *self + o
    }
}
impl Sub for Duration {
    type Output = Duration;
    fn sub(self, o: Duration) -> Duration {
        self.checked_sub(o).expect("overflow when subtracting durations")
    }
}
impl SubAssign for Duration {
    fn sub_assign(&mut self, o: Duration) {
        *self = *self - o
    }
}
impl Mul<u32> for Duration {
    type Output = Duration;
    fn mul(self, k: u32) -> Duration {
        let mut r = Duration::ZERO;
        let mut i = 0;
        while i < k {
            r = r + self;
            i += 1;
        }
        r
    }
}
impl Div<u32> for Duration {
    type Output = Duration;
    fn div(self, k: u32) -> Duration {
        Duration::from_nanos((self.as_nanos() / k as u128) as u64)
    }
}

impl Mul<Duration> for u32 {
    type Output = Duration;
    fn mul(self, d: Duration) -> Duration {
        d * self
    }
}
impl std::iter::Sum for Duration {
    fn sum<I: Iterator<Item = Duration>>(it: I) -> Duration {
        let mut r = Duration::ZERO;
        for d in it {
            r = r + d;
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(pub T);

impl Instant {
    #[inline]
    pub fn now() -> Instant {
        Instant(ghost::time::read_clock())
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        Duration(self.0.saturating_sub(o.0))
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration)
    }
    /// `None` beyond the range of the clock (i64 seconds).
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        match self.0.checked_add(d.0) {
            Some(t) if t.s <= ghost::time::CLOCK_MAX_S => Some(Instant(t)),
            _ => None,
        }
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d.0).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
