//! Vocabulary of the specifications.
pub use crate::{Event, Events, PollMode, Poller};
pub use ghost::{self, nd, ERR, HUP, IN, OUT, PRI, T};
pub use mstd::time::Duration;
use std::num::NonZeroUsize;

pub const POLL: bool = cfg!(polling_test_poll_backend);
pub const PIPE: bool = cfg!(polling_test_epoll_pipe);
pub const ALL: u16 = IN | PRI | OUT | ERR | HUP;

/// Declares the proof harnesses of a file and a table of them for native replay.
#[macro_export]
macro_rules! proofs {
    ($( $name:ident ($u:literal) $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() { $body; crate::verif_harness::pre::reached(); }
        )*
        pub const LIST: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    }
}

/// Vacuity guard: the end of every harness has to be reachable.
#[inline(always)]
pub fn reached() {
    #[cfg(kani)]
    kani::cover!(true, "end of the harness is reachable");
    #[cfg(not(kani))]
    ghost::nd::covered();
}

/// A case that has to be reachable.
#[macro_export]
macro_rules! cover {
    ($e:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($e, $m);
    };
}

pub struct Src(pub i32);
impl std::os::unix::io::AsRawFd for Src {
    fn as_raw_fd(&self) -> i32 {
        self.0
    }
}
impl std::os::unix::io::AsFd for Src {
    fn as_fd(&self) -> std::os::unix::io::BorrowedFd<'_> {
        unsafe { std::os::unix::io::BorrowedFd::borrow_raw(self.0) }
    }
}

pub const S0: Src = Src(100);
pub const S1: Src = Src(101);
pub const S2: Src = Src(102);

/// A poller that is never dropped, unless its destruction is the point of the harness.
pub type Own = std::mem::ManuallyDrop<Poller>;

/// A new machine and a poller on it.
#[inline(always)]
pub fn mk() -> Own {
    ghost::reset();
    build()
}
/// ... on a system without timerfd.
#[inline(always)]
pub fn mk_notimer() -> Own {
    ghost::reset();
    ghost::k().no_timerfd = true;
    build()
}
#[inline(always)]
pub fn build() -> Own {
    match Poller::new() {
        Ok(p) => Own::new(p),
        Err(_) => panic!("a poller cannot be created although no system call failed"),
    }
}
static mut P: *const Poller = std::ptr::null();
/// Makes a poller reachable for interfering operations.
pub fn share(p: &Poller) {
    unsafe { P = p }
}
pub fn the() -> &'static Poller {
    unsafe { &*P }
}

pub fn list(n: usize) -> Events {
    Events::with_capacity(NonZeroUsize::new(n).unwrap())
}

/// An interest as the specification sees it.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Int {
    pub r: bool,
    pub w: bool,
    pub p: bool,
    pub h: bool,
}
pub const NONE: Int = Int { r: false, w: false, p: false, h: false };
pub const R: Int = Int { r: true, w: false, p: false, h: false };
pub const W: Int = Int { r: false, w: true, p: false, h: false };
pub const RW: Int = Int { r: true, w: true, p: false, h: false };

pub fn any_int() -> Int {
    Int { r: nd::bool(), w: nd::bool(), p: nd::bool(), h: nd::bool() }
}
pub fn any_ready() -> u16 {
    nd::u16() & ALL
}
pub fn any_key() -> usize {
    let k = nd::usize();
    nd::assume(k != usize::MAX);
    k
}

impl Int {
    pub fn ev(self, key: usize) -> Event {
        let mut e = Event::new(key, self.r, self.w);
        if self.p {
            e.set_priority(true);
        }
        if self.h {
            e.set_interrupt(true);
        }
        e
    }
    /// The conditions this interest asks for; errors and hang-ups are always reported.
    pub fn wants(self) -> u16 {
        let mut m = ERR | HUP;
        if self.r {
            m |= IN | PRI;
        }
        if self.w {
            m |= OUT;
        }
        if self.p {
            m |= PRI;
        }
        m
    }
}

pub fn add(p: &Poller, s: &Src, key: usize, i: Int) {
    if unsafe { p.add(s, i.ev(key)) }.is_err() {
        panic!("add fails although it must succeed");
    }
}
pub fn add_mode(p: &Poller, s: &Src, key: usize, i: Int, m: PollMode) {
    if unsafe { p.add_with_mode(s, i.ev(key), m) }.is_err() {
        panic!("add_with_mode fails although it must succeed");
    }
}
pub fn modify(p: &Poller, s: &Src, key: usize, i: Int) {
    if p.modify(s, i.ev(key)).is_err() {
        panic!("modify fails although it must succeed");
    }
}
pub fn modify_mode(p: &Poller, s: &Src, key: usize, i: Int, m: PollMode) {
    if p.modify_with_mode(s, i.ev(key), m).is_err() {
        panic!("modify_with_mode fails although it must succeed");
    }
}
pub fn delete(p: &Poller, s: &Src) {
    if p.delete(s).is_err() {
        panic!("delete fails although it must succeed");
    }
}
pub fn notify(p: &Poller) {
    if p.notify().is_err() {
        panic!("notify fails although it must succeed");
    }
}

/// A wait that has to succeed.
pub fn wait(p: &Poller, evs: &mut Events, t: Option<Duration>) -> usize {
    match p.wait(evs, t) {
        Ok(n) => n,
        Err(_) => panic!("wait fails although no system call failed"),
    }
}
/// A wait that must not block.
pub fn wait0(p: &Poller, evs: &mut Events) -> usize {
    ghost::k().nwait = 0;
    let b = ghost::k().nblock;
    let n = wait(p, evs, Some(Duration::ZERO));
    assert!(ghost::k().nblock == b, "a wait with a zero timeout sleeps");
    n
}

/// The events held by a list, at most three.
pub struct Seen {
    pub n: usize,
    pub a: Option<Event>,
    pub b: Option<Event>,
    pub c: Option<Event>,
}
pub fn look(evs: &Events) -> Seen {
    let mut it = evs.iter();
    let a = it.next();
    let b = if a.is_some() { it.next() } else { None };
    let c = if b.is_some() { it.next() } else { None };
    let n = a.is_some() as usize + b.is_some() as usize + c.is_some() as usize;
    if n == 3 {
        assert!(it.next().is_none(), "more events than sources");
    }
    Seen { n, a, b, c }
}
impl Seen {
    /// The event with this key, if any.
    pub fn key(&self, k: usize) -> Option<Event> {
        if let Some(e) = self.a {
            if e.key == k {
                return Some(e);
            }
        }
        if let Some(e) = self.b {
            if e.key == k {
                return Some(e);
            }
        }
        if let Some(e) = self.c {
            if e.key == k {
                return Some(e);
            }
        }
        None
    }
}

/// wait0 with a list of its own; at most one event is expected.
pub fn poll_one(p: &Poller) -> Option<Event> {
    let mut evs = list(4);
    let n = wait0(p, &mut evs);
    let s = look(&evs);
    assert!(n == s.n, "wait returns another number than the list holds");
    assert!(s.n <= 1, "more events than sources");
    s.a
}
pub fn poll_all(p: &Poller) -> Seen {
    let mut evs = list(4);
    let n = wait0(p, &mut evs);
    let s = look(&evs);
    assert!(n == s.n, "wait returns another number than the list holds");
    s
}

/// A history of any length is summarised by the state it leaves behind: how many wake-ups are undelivered, the
/// timer, and whether a notification is announced.  The invariant is that an announced notification is backed by
/// an undelivered wake-up (on the poll backend the flag alone is enough).  Returns whether one is announced.
pub fn past(p: &Poller) -> bool {
    // (on the poll backend a wait leaves nothing behind that any_past does not set)
    if !POLL && nd::bool() {
        let mut evs = list(2);
        let _ = wait0(p, &mut evs);
    }
    let m = nd::bool();
    if m {
        notify(p);
    }
    ghost::any_past(m && !POLL);
    ghost::k().nwait = 0;
    m
}

/// The specification of the flags of a delivered event, given what the system reported.
pub fn flags_ok(e: &Event, rep: u16) {
    assert!(e.readable == (rep & (IN | PRI | HUP | ERR) != 0), "readable is wrong");
    assert!(e.writable == (rep & (OUT | HUP | ERR) != 0), "writable is wrong");
    assert!(e.is_interrupt() == (rep & HUP != 0), "is_interrupt is wrong");
    assert!(e.is_priority() == (rep & PRI != 0), "is_priority is wrong");
    assert!(e.is_err() == Some(rep & ERR != 0), "is_err is wrong");
}

pub fn raw(e: &mstd::io::Error) -> Option<i32> {
    e.raw_os_error()
}

pub const MODES: [PollMode; 4] =
    [PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot];
pub fn supported(m: PollMode) -> bool {
    !POLL || matches!(m, PollMode::Oneshot | PollMode::Level)
}
