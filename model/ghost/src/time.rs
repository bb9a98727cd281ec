//! Exact time arithmetic without division: seconds, milliseconds of the second, nanoseconds of
//! the millisecond.

use crate::nd;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct T {
    pub s: u64,
    pub m: u32,
    pub n: u32,
}

/// Latest representable point of the clock (as for a Linux `Instant`).
pub const CLOCK_MAX_S: u64 = i64::MAX as u64;

impl T {
    pub const ZERO: T = T { s: 0, m: 0, n: 0 };
    pub const MAX: T = T { s: u64::MAX, m: 999, n: 999_999 };

    pub fn any() -> T {
        let s = nd::u64();
        let m = nd::u16();
        let n = nd::u32();
        nd::assume(m < 1000 && n < 1_000_000);
        T { s, m: m as u32, n }
    }

    pub const fn checked_add(self, o: T) -> Option<T> {
        let mut n = self.n + o.n;
        let mut m = self.m + o.m;
        let mut c = 0;
        if n >= 1_000_000 {
            n -= 1_000_000;
            m += 1;
        }
        if m >= 1000 {
            m -= 1000;
            c = 1;
        }
        let s = match self.s.checked_add(o.s) {
            Some(s) => s,
            None => return None,
        };
        match s.checked_add(c) {
            Some(s) => Some(T { s, m, n }),
            None => None,
        }
    }

    pub const fn lt(self, o: T) -> bool {
        self.s < o.s || (self.s == o.s && (self.m < o.m || (self.m == o.m && self.n < o.n)))
    }

    pub const fn checked_sub(self, o: T) -> Option<T> {
        if self.lt(o) {
            return None;
        }
        let mut s = self.s - o.s;
        let mut m = self.m + 1000 - o.m;
        let mut n = self.n + 1_000_000 - o.n;
        if n >= 1_000_000 {
            n -= 1_000_000;
        } else {
            m -= 1;
        }
        if m >= 1000 {
            m -= 1000;
        } else {
            s -= 1;
        }
        Some(T { s, m, n })
    }

    pub const fn saturating_sub(self, o: T) -> T {
        match self.checked_sub(o) {
            Some(t) => t,
            None => T::ZERO,
        }
    }

    /// Milliseconds, rounded down.
    pub fn ms(self) -> u128 {
        let ms = self.s as u128 * 1000 + self.m as u128;
        unsafe {
            MS[1] = MS[0];
            MS[0] = Ms { s: self.s, m: self.m, ms };
        }
        ms
    }

    /// Nanoseconds of the second.
    pub fn subsec_ns(self) -> u32 {
        let ns = self.m * 1_000_000 + self.n;
        unsafe {
            NS[1] = NS[0];
            NS[0] = Ns { m: self.m, n: self.n, ns };
        }
        ns
    }

    /// The inverse of `subsec_ns`.
    pub fn from_subsec(s: u64, ns: u32) -> T {
        let a = unsafe { &NS };
        if ns == 0 {
            T { s, m: 0, n: 0 }
        } else if ns == a[0].ns {
            T { s, m: a[0].m, n: a[0].n }
        } else if ns == a[1].ns {
            T { s, m: a[1].m, n: a[1].n }
        } else {
            let (m, n) = divmod(ns as u64, 1_000_000);
            T { s, m: m as u32, n }
        }
    }

    /// Adds a whole number of milliseconds.
    pub fn add_ms(self, ms: u32) -> T {
        match self.checked_add(T::from_ms(ms as u64)) {
            Some(t) => t,
            None => T::MAX,
        }
    }

    /// `ms` milliseconds, by the defining relation of division with remainder.
    pub fn from_ms(ms: u64) -> T {
        let a = unsafe { &MS };
        if ms < 1000 {
            T { s: 0, m: ms as u32, n: 0 }
        } else if ms == i32::MAX as u64 {
            T { s: 2_147_483, m: 647, n: 0 }
        } else if ms as u128 == a[0].ms {
            a[0].t()
        } else if ms as u128 == a[0].ms + 1 {
            a[0].next()
        } else if ms as u128 == a[1].ms {
            a[1].t()
        } else if ms as u128 == a[1].ms + 1 {
            a[1].next()
        } else {
            let (s, m) = divmod(ms, 1000);
            T { s, m: m as u32, n: 0 }
        }
    }
}

/// Recent conversions and their results: `ms == s * 1000 + m` and `m < 1000`.  Quotient and
/// remainder are unique, so a division of the same number has these as its result; remembering
/// that spares the solver from proving it.
#[derive(Clone, Copy)]
struct Ms {
    s: u64,
    m: u32,
    ms: u128,
}
impl Ms {
    fn t(self) -> T {
        T { s: self.s, m: self.m, n: 0 }
    }
    fn next(self) -> T {
        if self.m == 999 {
            // (in range: one more than `ms` fits into 64 bits, so `s` is far from its maximum)
            T { s: self.s.wrapping_add(1), m: 0, n: 0 }
        } else {
            T { s: self.s, m: self.m + 1, n: 0 }
        }
    }
}
/// The same for `ns == m * 1_000_000 + n` and `n < 1_000_000`.
#[derive(Clone, Copy)]
struct Ns {
    m: u32,
    n: u32,
    ns: u32,
}
static mut MS: [Ms; 2] = [Ms { s: 0, m: 0, ms: 0 }; 2];
static mut NS: [Ns; 2] = [Ns { m: 0, n: 0, ns: 0 }; 2];

/// Quotient and remainder by a constant, by the defining relation (cheaper than a divider).
pub fn divmod(x: u64, d: u32) -> (u64, u32) {
    #[cfg(feature = "kani")]
    {
        let q = nd::u64();
        let r = nd::u32();
        nd::assume(r < d && q <= u64::MAX / d as u64);
        let p = q * d as u64;
        nd::assume(p <= x && x - p == r as u64);
        (q, r)
    }
    #[cfg(not(feature = "kani"))]
    {
        nd::u64();
        nd::u32();
        (x / d as u64, (x % d as u64) as u32)
    }
}

/// The clock advances by an arbitrary amount.
pub fn flow() {
    let k = crate::k();
    #[cfg(not(feature = "kani"))]
    if nd::is_history() {
        let d = T { s: nd::u64() % 3, m: nd::u32() % 1000, n: nd::u32() % 1_000_000 };
        if let Some(t) = k.now.checked_add(d) {
            k.now = t;
        }
        return;
    }
    let d = T::any();
    nd::assume(d.s < k.flow_max);
    match k.now.checked_add(d) {
        Some(t) => {
            nd::assume(t.s <= 1 << 62);
            k.now = t
        }
        None => nd::assume(false),
    }
}

/// Reading the clock.
pub fn read_clock() -> T {
    if crate::k().time_flows {
        flow();
    }
    crate::k().now
}
