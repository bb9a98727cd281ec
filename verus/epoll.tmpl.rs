// Contracts of the epoll backend and of the operations of lib.rs over it.  The bodies at the //@ markers are cut out of
// /repo/src/epoll.rs and /repo/src/lib.rs by tools/verus.py on every run; everything else is specification or an
// assumed contract of the system.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- assumed contracts: std
pub type RawFd = i32;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub s: u64, pub n: u32 }
impl Duration {
    pub open spec fn ns(self) -> int { self.s * 1_000_000_000 + self.n }
    
    pub open spec fn ok(self) -> bool { self.n < 1_000_000_000 }
    fn from_secs(s: u64) -> (r: Duration) ensures r.s == s, r.n == 0 { Duration { s, n: 0 } }
    #[verifier::external_body]
    fn from_millis(m: u64) -> (r: Duration) ensures r.ns() == m * 1_000_000 { unimplemented!() }
    fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s }
    fn subsec_nanos(&self) -> (r: u32) ensures r == self.n { self.n }
    #[verifier::external_body]
    fn as_millis(&self) -> (r: Millis) ensures r.v == self.ns() / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    fn lt_(&self, o: &Duration) -> (r: bool) ensures r == (self.ns() < o.ns()) { unimplemented!() }
    pub const ZERO: Duration = Duration { s: 0, n: 0 };
    pub const MAX: Duration = Duration { s: u64::MAX, n: 999_999_999 };
    fn subsec_micros(&self) -> (r: u32) ensures r == self.n / 1_000 { self.n / 1_000 }
    fn subsec_millis(&self) -> (r: u32) ensures r == self.n / 1_000_000 { self.n / 1_000_000 }
    #[verifier::external_body]
    fn as_nanos(&self) -> (r: Millis) ensures r.v == self.ns() { unimplemented!() }
    #[verifier::external_body]
    fn as_micros(&self) -> (r: Millis) ensures r.v == self.ns() / 1_000 { unimplemented!() }
    #[verifier::external_body]
    fn is_zero(&self) -> (r: bool) ensures r == (self.ns() == 0) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> {
        Some(if self.ns() < o.ns() { core::cmp::Ordering::Less } else if self.ns() == o.ns() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });
/// The u128 of as_millis and its conversions.
pub struct Millis { pub ghost v: int }
pub struct MillisRes { pub ghost v: int }
impl Millis {
    #[verifier::external_body]
    fn try_into(self) -> (r: MillisRes) ensures r.v == self.v { unimplemented!() }
}
impl MillisRes {
    #[verifier::external_body]
    fn unwrap_or(self, d: i32) -> (r: i32) ensures r == (if i32::MIN <= self.v <= i32::MAX { self.v } else { d as int }) { unimplemented!() }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, InvalidInput, Interrupted, Unsupported, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    pub struct Error { pub kind: ErrorKind, pub ghost errno: int }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, m: &str) -> (r: Error) ensures r.kind == k, r.errno == 0 { unimplemented!() }
        // `?` applies From; for an io::Error it is the identity
        pub fn io_(self) -> (r: Error) ensures r == self { self }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Errno { pub e: u16 }
impl Errno {
    pub const PERM: Errno = Errno { e: 1 };
    pub const NOENT: Errno = Errno { e: 2 };
    pub const INTR: Errno = Errno { e: 4 };
    pub const BADF: Errno = Errno { e: 9 };
    pub const AGAIN: Errno = Errno { e: 11 };
    pub const WOULDBLOCK: Errno = Errno { e: 11 };
    pub const NOMEM: Errno = Errno { e: 12 };
    pub const EXIST: Errno = Errno { e: 17 };
    pub const INVAL: Errno = Errno { e: 22 };
    pub const NFILE: Errno = Errno { e: 23 };
    pub const MFILE: Errno = Errno { e: 24 };
    pub const NOSPC: Errno = Errno { e: 28 };
    pub const NOSYS: Errno = Errno { e: 38 };
    pub const LOOP: Errno = Errno { e: 40 };
    pub const NOTSUP: Errno = Errno { e: 95 };
    pub const OPNOTSUPP: Errno = Errno { e: 95 };
    #[verifier::external_body]
    fn io_(self) -> (r: io::Error) ensures r.errno == self.e { unimplemented!() }
}

pub struct OwnedFd { pub fd: RawFd }
#[derive(Clone, Copy)]
pub struct BorrowedFd { pub fd: RawFd }
impl OwnedFd {
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
    fn as_fd(&self) -> (r: BorrowedFd) ensures r.fd == self.fd { BorrowedFd { fd: self.fd } }
}
impl BorrowedFd {
    unsafe fn borrow_raw(fd: RawFd) -> (r: BorrowedFd) ensures r.fd == fd { BorrowedFd { fd } }
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
}

// ---------------------------------------------------------------- assumed contracts: the kernel
/// One registration of the interest list.
pub ghost struct Ent { pub data: u64, pub flags: epoll::EventFlags, pub armed: bool }
/// A setting of a timer: it_value and it_interval.
pub ghost struct Timer { pub s: int, pub n: int, pub is: int, pub inn: int }
/// One call of epoll_wait: its timeout, interest list and timers when it began, the interest list it left, its events.
pub ghost struct Waited { pub ms: int, pub ent: Map<int, Ent>, pub timer: Map<int, Timer>, pub after: Map<int, Ent>, pub evs: Seq<epoll::RawEvent> }
pub tracked struct Kernel {
    pub ghost epfd: int,
    pub ghost ent: Map<int, Ent>,
    /// counters of eventfds, bytes in pipes (by the read end)
    pub ghost cnt: Map<int, int>,
    /// pipes: write end -> read end
    pub ghost peer: Map<int, int>,
    pub ghost eventfd: Set<int>,
    pub ghost nonblock: Set<int>,
    /// open descriptors, and those that are closed by exec
    pub ghost open: Set<int>,
    pub ghost cloexec: Set<int>,
    pub ghost timer: Map<int, Timer>,
    /// descriptors seen empty since the last epoll_wait
    pub ghost empty: Set<int>,
    pub ghost waits: Seq<Waited>,
    /// how often read(2) was called
    pub ghost reads: nat,
    /// errno of the first system call that failed on behalf of the user
    pub ghost failed: Option<int>,
}
/// Nothing but interference: other threads may notify at any time.
pub open spec fn more(a: Map<int, int>, b: Map<int, int>) -> bool {
    a.dom() =~= b.dom() && forall|f: int| #[trigger] a.contains_key(f) ==> b[f] >= a[f]
}
pub open spec fn fixed(a: Kernel, b: Kernel) -> bool {
    a.epfd == b.epfd && fixed_fds(a, b)
}
pub open spec fn fixed_fds(a: Kernel, b: Kernel) -> bool {
    a.peer == b.peer && a.eventfd == b.eventfd && a.nonblock == b.nonblock && a.open == b.open && a.cloexec == b.cloexec
}
/// The first failure is kept.
pub open spec fn outcome(a: Kernel, b: Kernel, r: Result<(), Errno>) -> bool {
    b.failed == if a.failed is None && r is Err { Some(r->Err_0.e as int) } else { a.failed }
}
pub open spec fn only_ent(a: Kernel, b: Kernel) -> bool {
    fixed(a, b) && more(a.cnt, b.cnt) && a.timer == b.timer && a.empty == b.empty && a.waits == b.waits
}

pub mod epoll {
    use vstd::prelude::*;
    use super::*;
    /// The bits of an event mask: those the contracts speak about, and whether any other bit is set.
    #[derive(Clone, Copy)]
    pub struct EventFlags { pub i: bool, pub pri: bool, pub out: bool, pub err: bool, pub hup: bool, pub et: bool, pub oneshot: bool, pub other: bool }
    pub const Z: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: false };
    impl EventFlags {
        pub const IN: EventFlags = EventFlags { i: true, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: false };
        pub const PRI: EventFlags = EventFlags { i: false, pri: true, out: false, err: false, hup: false, et: false, oneshot: false, other: false };
        pub const OUT: EventFlags = EventFlags { i: false, pri: false, out: true, err: false, hup: false, et: false, oneshot: false, other: false };
        pub const ERR: EventFlags = EventFlags { i: false, pri: false, out: false, err: true, hup: false, et: false, oneshot: false, other: false };
        pub const HUP: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: true, et: false, oneshot: false, other: false };
        pub const ET: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: true, oneshot: false, other: false };
        pub const ONESHOT: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: true, other: false };
        pub const RDHUP: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const RDNORM: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const RDBAND: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const WRNORM: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const WRBAND: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const MSG: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const WAKEUP: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const EXCLUSIVE: EventFlags = EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: true };
        pub const fn empty() -> (r: EventFlags) ensures r.none() { EventFlags { i: false, pri: false, out: false, err: false, hup: false, et: false, oneshot: false, other: false } }
        pub open spec fn none(self) -> bool { !self.i && !self.pri && !self.out && !self.err && !self.hup && !self.et && !self.oneshot && !self.other }
        /// Some bit is common to both; only for masks without other bits.
        pub open spec fn common(self, o: EventFlags) -> bool {
            (self.i && o.i) || (self.pri && o.pri) || (self.out && o.out) || (self.err && o.err) || (self.hup && o.hup) || (self.et && o.et) || (self.oneshot && o.oneshot)
        }
        pub open spec fn all(self, o: EventFlags) -> bool {
            (o.i ==> self.i) && (o.pri ==> self.pri) && (o.out ==> self.out) && (o.err ==> self.err) && (o.hup ==> self.hup) && (o.et ==> self.et) && (o.oneshot ==> self.oneshot)
        }
        #[verifier::external_body]
        pub fn intersects(&self, o: EventFlags) -> (r: bool) ensures !(self.other && o.other) ==> r == self.common(o) { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, o: EventFlags) -> (r: bool) ensures !o.other ==> r == self.all(o) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
        pub open spec fn set_spec(self, o: EventFlags, v: bool) -> EventFlags {
            EventFlags { i: if o.i { v } else { self.i }, pri: if o.pri { v } else { self.pri }, out: if o.out { v } else { self.out },
                err: if o.err { v } else { self.err }, hup: if o.hup { v } else { self.hup }, et: if o.et { v } else { self.et },
                oneshot: if o.oneshot { v } else { self.oneshot }, other: self.other }
        }
        #[verifier::external_body]
        pub fn set(&mut self, o: EventFlags, v: bool) ensures !o.other ==> *final(self) == old(self).set_spec(o, v) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, o: EventFlags) ensures !o.other ==> *final(self) == old(self).set_spec(o, true) { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, o: EventFlags) ensures !o.other ==> *final(self) == old(self).set_spec(o, false) { unimplemented!() }
    }
    impl vstd::std_specs::ops::BitOrSpecImpl for EventFlags {
        open spec fn obeys_bitor_spec() -> bool { true }
        open spec fn bitor_req(self, o: EventFlags) -> bool { true }
        open spec fn bitor_spec(self, o: EventFlags) -> EventFlags {
            EventFlags { i: self.i || o.i, pri: self.pri || o.pri, out: self.out || o.out, err: self.err || o.err, hup: self.hup || o.hup,
                et: self.et || o.et, oneshot: self.oneshot || o.oneshot, other: self.other || o.other }
        }
    }
    impl core::ops::BitOr for EventFlags {
        type Output = EventFlags;
        fn bitor(self, o: EventFlags) -> (r: EventFlags) {
            EventFlags { i: self.i || o.i, pri: self.pri || o.pri, out: self.out || o.out, err: self.err || o.err, hup: self.hup || o.hup,
                et: self.et || o.et, oneshot: self.oneshot || o.oneshot, other: self.other || o.other }
        }
    }
    pub uninterp spec fn both_other(a: EventFlags, b: EventFlags) -> bool;
    impl vstd::std_specs::ops::BitAndSpecImpl for EventFlags {
        open spec fn obeys_bitand_spec() -> bool { true }
        open spec fn bitand_req(self, o: EventFlags) -> bool { true }
        open spec fn bitand_spec(self, o: EventFlags) -> EventFlags {
            EventFlags { i: self.i && o.i, pri: self.pri && o.pri, out: self.out && o.out, err: self.err && o.err, hup: self.hup && o.hup,
                et: self.et && o.et, oneshot: self.oneshot && o.oneshot, other: self.other && o.other && both_other(self, o) }
        }
    }
    impl core::ops::BitAnd for EventFlags {
        type Output = EventFlags;
        #[verifier::external_body]
        fn bitand(self, o: EventFlags) -> (r: EventFlags) { unimplemented!() }
    }

    #[derive(Clone, Copy)]
    pub struct EventData { pub v: u64 }
    impl EventData {
        pub fn new_u64(v: u64) -> (r: EventData) ensures r.v == v { EventData { v } }
        pub fn u64(&self) -> (r: u64) ensures r == self.v { self.v }
    }
    #[derive(Clone, Copy)]
    pub struct RawEvent { pub flags: EventFlags, pub data: EventData }
    #[verifier::external_body] pub struct EventVec { }
    impl EventVec {
        pub uninterp spec fn view(&self) -> Seq<RawEvent>;
        pub uninterp spec fn cap(&self) -> nat;
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn clear(&mut self) ensures final(self)@.len() == 0, final(self).cap() == old(self).cap() { unimplemented!() }
        #[verifier::external_body]
        pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    }

    #[verifier::external_body]
    pub fn add(ep: &OwnedFd, fd: BorrowedFd, data: EventData, flags: EventFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires ep.fd == old(k).epfd,
        ensures
            only_ent(*old(k), *final(k)), outcome(*old(k), *final(k), r),
            r is Ok ==> !old(k).ent.contains_key(fd.fd as int) && final(k).ent == old(k).ent.insert(fd.fd as int, Ent { data: data.v, flags, armed: true }),
            r is Err ==> final(k).ent == old(k).ent,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn modify(ep: &OwnedFd, fd: BorrowedFd, data: EventData, flags: EventFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires ep.fd == old(k).epfd,
        ensures
            only_ent(*old(k), *final(k)), outcome(*old(k), *final(k), r),
            r is Ok ==> old(k).ent.contains_key(fd.fd as int) && final(k).ent == old(k).ent.insert(fd.fd as int, Ent { data: data.v, flags, armed: true }),
            r is Err ==> final(k).ent == old(k).ent,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete(ep: &OwnedFd, fd: BorrowedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires ep.fd == old(k).epfd,
        ensures
            only_ent(*old(k), *final(k)), outcome(*old(k), *final(k), r),
            r is Ok ==> old(k).ent.contains_key(fd.fd as int) && final(k).ent == old(k).ent.remove(fd.fd as int),
            r is Err ==> final(k).ent == old(k).ent,
    { unimplemented!() }
    /// epoll_wait: at most `cap` events; a oneshot entry may be disarmed by its delivery; nothing else changes.
    #[verifier::external_body]
    pub fn wait(ep: &OwnedFd, list: &mut EventVec, ms: i32, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires ep.fd == old(k).epfd,
        ensures
            fixed(*old(k), *final(k)), more(old(k).cnt, final(k).cnt), old(k).timer == final(k).timer,
            final(k).empty == Set::<int>::empty(),
            final(list).cap() == old(list).cap(),
            outcome(*old(k), *final(k), r),
            final(k).waits == old(k).waits.push(Waited { ms: ms as int, ent: old(k).ent, timer: old(k).timer, after: final(k).ent, evs: final(list)@ }),
            final(k).ent.dom() == old(k).ent.dom(),
            forall|f: int| #[trigger] old(k).ent.contains_key(f) ==> {
                let (a, b) = (old(k).ent[f], final(k).ent[f]);
                a.data == b.data && a.flags == b.flags && (b.armed ==> a.armed) && (!b.armed && a.armed ==> a.flags.oneshot && r is Ok) },
            r is Ok ==> final(list)@.len() <= final(list).cap(),
    { unimplemented!() }
}

pub struct Timespec { pub tv_sec: i64, pub tv_nsec: i64 }
pub struct Itimerspec { pub it_interval: Timespec, pub it_value: Timespec }
const TS_ZERO: Timespec = Timespec { tv_sec: 0, tv_nsec: 0 };
pub struct TimerfdTimerFlags { pub v: u32 }
impl TimerfdTimerFlags { fn empty() -> (r: TimerfdTimerFlags) ensures r.v == 0 { TimerfdTimerFlags { v: 0 } } }
#[verifier::external_body]
fn timerfd_settime(fd: &OwnedFd, f: TimerfdTimerFlags, v: &Itimerspec, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
    requires f.v == 0,
    ensures
        fixed(*old(k), *final(k)), more(old(k).cnt, final(k).cnt), old(k).ent == final(k).ent, old(k).empty == final(k).empty,
        old(k).waits == final(k).waits, outcome(*old(k), *final(k), r),
        r is Ok ==> final(k).timer == old(k).timer.insert(fd.fd as int, Timer { s: v.it_value.tv_sec as int, n: v.it_value.tv_nsec as int, is: v.it_interval.tv_sec as int, inn: v.it_interval.tv_nsec as int }),
        r is Err ==> final(k).timer == old(k).timer,
{ unimplemented!() }

pub uninterp spec fn val(b: Seq<u8>) -> u64;
#[verifier::external_body]
fn ne_bytes(v: u64) -> (r: [u8; 8]) ensures val(r@) == v { unimplemented!() }
pub open spec fn rest(a: Kernel, b: Kernel) -> bool {
    fixed(a, b) && a.ent == b.ent && a.timer == b.timer && a.waits == b.waits && a.failed == b.failed && a.cnt.dom() =~= b.cnt.dom()
}
/// read(2) on an eventfd or the read end of a pipe.  It must not block.
#[verifier::external_body]
fn read<const N: usize>(fd: &OwnedFd, buf: &mut [u8; N], Tracked(k): Tracked<&mut Kernel>) -> (r: Result<usize, Errno>)
    requires
        old(k).cnt.contains_key(fd.fd as int),
        old(k).nonblock.contains(fd.fd as int), // [C14]
    ensures
        rest(*old(k), *final(k)),
        forall|f: int| f != fd.fd && #[trigger] old(k).cnt.contains_key(f) ==> final(k).cnt[f] >= old(k).cnt[f],
        forall|f: int| f != fd.fd ==> (#[trigger] final(k).empty.contains(f) <==> old(k).empty.contains(f)),
        final(k).cnt[fd.fd as int] >= 0,
        final(k).reads == old(k).reads + 1,
        // the only failure: there is nothing to read
        r is Err && (N >= 8 || N >= 1 && !old(k).eventfd.contains(fd.fd as int)) ==> final(k).empty.contains(fd.fd as int),
        r is Ok && N >= 8 && old(k).eventfd.contains(fd.fd as int) ==> final(k).empty.contains(fd.fd as int),
{ unimplemented!() }
/// write(2) on an eventfd (never blocks: full means there is something to read) or the write end of a pipe.
#[verifier::external_body]
fn write<const N: usize>(fd: &OwnedFd, buf: &[u8; N], Tracked(k): Tracked<&mut Kernel>) -> (r: Result<usize, Errno>)
    requires old(k).eventfd.contains(fd.fd as int) ==> old(k).cnt.contains_key(fd.fd as int),
    ensures
        rest(*old(k), *final(k)), more(old(k).cnt, final(k).cnt), old(k).empty == final(k).empty,
        old(k).eventfd.contains(fd.fd as int) && N == 8 && val(buf@) > 0 ==> final(k).cnt[fd.fd as int] > 0,
        old(k).peer.contains_key(fd.fd as int) && N > 0 ==> final(k).cnt[old(k).peer[fd.fd as int]] > 0,
{ unimplemented!() }

//@IF epoll-new poll-new
// ---------------------------------------------------------------- assumed contracts: creation of descriptors
/// Nothing about the queue changes; new descriptors appear, what is known of the old ones stays.
pub open spec fn fresh_fds(a: Kernel, b: Kernel) -> bool {
    &&& a.epfd == b.epfd && a.ent == b.ent && a.waits == b.waits && a.open.subset_of(b.open)
    &&& forall|f: int| #![trigger a.open.contains(f)] #![trigger b.cloexec.contains(f)] #![trigger b.nonblock.contains(f)] a.open.contains(f) ==> (b.cloexec.contains(f) <==> a.cloexec.contains(f)) && (b.nonblock.contains(f) <==> a.nonblock.contains(f))
            && (b.eventfd.contains(f) <==> a.eventfd.contains(f)) && (a.cnt.contains_key(f) <==> b.cnt.contains_key(f))
            && (a.peer.contains_key(f) <==> b.peer.contains_key(f)) && (a.peer.contains_key(f) ==> a.peer[f] == b.peer[f])
}
pub open spec fn flag(s: Set<int>, f: int, v: bool) -> Set<int> { if v { s.insert(f) } else { s.remove(f) } }
pub open spec fn tried<T>(a: Kernel, b: Kernel, r: Result<T, Errno>) -> bool {
    r is Err ==> b == (Kernel { failed: b.failed, ..a }) && b.failed == if a.failed is None { Some(r->Err_0.e as int) } else { a.failed }
}
#[derive(Clone, Copy)]
pub struct Flags { pub cloexec: bool, pub nonblock: bool, pub other: u32 }
impl vstd::std_specs::ops::BitOrSpecImpl for Flags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: Flags) -> bool { true }
    open spec fn bitor_spec(self, o: Flags) -> Flags { Flags { cloexec: self.cloexec || o.cloexec, nonblock: self.nonblock || o.nonblock, other: self.other | o.other } }
}
impl core::ops::BitOr for Flags {
    type Output = Flags;
    fn bitor(self, o: Flags) -> (r: Flags) { Flags { cloexec: self.cloexec || o.cloexec, nonblock: self.nonblock || o.nonblock, other: self.other | o.other } }
}
impl vstd::std_specs::ops::BitAndSpecImpl for Flags {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, o: Flags) -> bool { true }
    open spec fn bitand_spec(self, o: Flags) -> Flags { Flags { cloexec: self.cloexec && o.cloexec, nonblock: self.nonblock && o.nonblock, other: self.other & o.other } }
}
impl core::ops::BitAnd for Flags {
    type Output = Flags;
    fn bitand(self, o: Flags) -> (r: Flags) { Flags { cloexec: self.cloexec && o.cloexec, nonblock: self.nonblock && o.nonblock, other: self.other & o.other } }
}
impl Flags {
    pub const CLOEXEC: Flags = Flags { cloexec: true, nonblock: false, other: 0 };
    pub const NONBLOCK: Flags = Flags { cloexec: false, nonblock: true, other: 0 };
    pub const fn empty() -> (r: Flags) ensures !r.cloexec && !r.nonblock && r.other == 0 { Flags { cloexec: false, nonblock: false, other: 0 } }
}
pub type EventfdFlags = Flags;
pub type TimerfdFlags = Flags;
pub type PipeFlags = Flags;
pub type FdFlags = Flags;
pub type OFlags = Flags;
pub enum TimerfdClockId { Monotonic, Realtime, Boottime, RealtimeAlarm, BoottimeAlarm }
#[verifier::external_body] fn cfg_pipe() -> bool { unimplemented!() }
#[verifier::external_body]
fn epoll_create(f: Flags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<OwnedFd, Errno>)
    ensures
        tried(*old(k), *final(k), r),
        r is Ok ==> !old(k).open.contains(r->Ok_0.fd as int) && *final(k) == (Kernel { epfd: r->Ok_0.fd as int, ent: Map::empty(),
            open: old(k).open.insert(r->Ok_0.fd as int), cloexec: flag(old(k).cloexec, r->Ok_0.fd as int, f.cloexec), ..*old(k) }),
{ unimplemented!() }
/// Its failure is not the poller's: there is the pipe.
#[verifier::external_body]
fn eventfd(v: u32, f: EventfdFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<OwnedFd, Errno>)
    ensures
        r is Err ==> *final(k) == *old(k),
        r is Ok ==> !old(k).open.contains(r->Ok_0.fd as int) && *final(k) == (Kernel { cnt: old(k).cnt.insert(r->Ok_0.fd as int, v as int),
            eventfd: old(k).eventfd.insert(r->Ok_0.fd as int),
            open: old(k).open.insert(r->Ok_0.fd as int), cloexec: flag(old(k).cloexec, r->Ok_0.fd as int, f.cloexec),
            nonblock: flag(old(k).nonblock, r->Ok_0.fd as int, f.nonblock), ..*old(k) }),
{ unimplemented!() }
/// Its failure is not the poller's: there is the timeout of epoll_wait.
#[verifier::external_body]
fn timerfd_create(c: TimerfdClockId, f: TimerfdFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<OwnedFd, Errno>)
    requires
        c is Monotonic, // [C05]
    ensures
        r is Err ==> *final(k) == *old(k),
        r is Ok ==> !old(k).open.contains(r->Ok_0.fd as int) && *final(k) == (Kernel { timer: final(k).timer, cnt: final(k).cnt,
            open: old(k).open.insert(r->Ok_0.fd as int), cloexec: flag(old(k).cloexec, r->Ok_0.fd as int, f.cloexec),
            nonblock: flag(old(k).nonblock, r->Ok_0.fd as int, f.nonblock), ..*old(k) }) && more(old(k).cnt, final(k).cnt),
{ unimplemented!() }
pub open spec fn piped(a: Kernel, b: Kernel, p: (OwnedFd, OwnedFd), c: bool, n: bool) -> bool {
    let (r, w) = (p.0.fd as int, p.1.fd as int);
    r != w && !a.open.contains(r) && !a.open.contains(w) && !a.peer.contains_key(r) && !a.eventfd.contains(r) && !a.eventfd.contains(w) && b == (Kernel { cnt: a.cnt.insert(r, 0), peer: a.peer.insert(w, r),
        open: a.open.insert(r).insert(w), cloexec: flag(flag(a.cloexec, r, c), w, c), nonblock: flag(flag(a.nonblock, r, n), w, n), ..a })
}
#[verifier::external_body]
fn pipe_with(f: PipeFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(OwnedFd, OwnedFd), Errno>)
    ensures
        r is Err ==> *final(k) == *old(k),
        r is Ok ==> piped(*old(k), *final(k), r->Ok_0, f.cloexec, f.nonblock),
{ unimplemented!() }
#[verifier::external_body]
fn pipe(Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(OwnedFd, OwnedFd), Errno>)
    ensures
        tried(*old(k), *final(k), r),
        r is Ok ==> piped(*old(k), *final(k), r->Ok_0, false, false),
{ unimplemented!() }
#[verifier::external_body]
fn fcntl_getfd(fd: &OwnedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<FdFlags, Errno>)
    ensures tried(*old(k), *final(k), r), r is Ok ==> *final(k) == *old(k) && r->Ok_0.cloexec == old(k).cloexec.contains(fd.fd as int),
{ unimplemented!() }
#[verifier::external_body]
fn fcntl_setfd(fd: &OwnedFd, f: FdFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
    ensures tried(*old(k), *final(k), r), r is Ok ==> *final(k) == (Kernel { cloexec: flag(old(k).cloexec, fd.fd as int, f.cloexec), ..*old(k) }),
{ unimplemented!() }
#[verifier::external_body]
fn fcntl_getfl(fd: &OwnedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<OFlags, Errno>)
    ensures tried(*old(k), *final(k), r), r is Ok ==> *final(k) == *old(k) && r->Ok_0.nonblock == old(k).nonblock.contains(fd.fd as int),
{ unimplemented!() }
#[verifier::external_body]
fn fcntl_setfl(fd: &OwnedFd, f: OFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
    ensures tried(*old(k), *final(k), r), r is Ok ==> *final(k) == (Kernel { nonblock: flag(old(k).nonblock, fd.fd as int, f.nonblock), ..*old(k) }),
{ unimplemented!() }
//@FI

//@EPOLL
// ---------------------------------------------------------------- the repository's types
//@CONST NOTIFY_KEY
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }
#[derive(Clone, Copy)]
pub struct EventExtra { pub flags: epoll::EventFlags }
#[derive(Clone, Copy)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
impl Event {
//@LIBFN pub const|new(key: usize, readable: bool, writable: bool) -> (r: Event)|ensures r.key == key && r.readable == readable && r.writable == writable && r.extra.flags.none(), // [C15]
//@LIBFN pub const|all(key: usize) -> (r: Event)|ensures r.key == key && r.readable && r.writable && r.extra.flags.none(), // [C15]
//@LIBFN pub const|readable(key: usize) -> (r: Event)|ensures r.key == key && r.readable && !r.writable && r.extra.flags.none(), // [C15]
//@LIBFN pub const|writable(key: usize) -> (r: Event)|ensures r.key == key && !r.readable && r.writable && r.extra.flags.none(), // [C15]
//@LIBFN pub const|none(key: usize) -> (r: Event)|ensures r.key == key && !r.readable && !r.writable && r.extra.flags.none(), // [C15]
//@LIBFN pub|set_interrupt(&mut self, active: bool)|ensures *final(self) == (Event { extra: EventExtra { flags: old(self).extra.flags.set_spec(epoll::EventFlags::HUP, active) }, ..*old(self) }), // [C15]
//@LIBFN pub|with_interrupt(self) -> (r: Event)|ensures r == (Event { extra: EventExtra { flags: self.extra.flags.set_spec(epoll::EventFlags::HUP, true) }, ..self }), // [C15]
//@LIBFN pub|set_priority(&mut self, active: bool)|ensures *final(self) == (Event { extra: EventExtra { flags: old(self).extra.flags.set_spec(epoll::EventFlags::PRI, active) }, ..*old(self) }), // [C15]
//@LIBFN pub|with_priority(self) -> (r: Event)|ensures r == (Event { extra: EventExtra { flags: self.extra.flags.set_spec(epoll::EventFlags::PRI, true) }, ..self }), // [C15]
//@LIBFN pub|is_interrupt(&self) -> (r: bool)|ensures r == self.extra.flags.hup, // [C02 C15]
//@LIBFN pub|is_priority(&self) -> (r: bool)|ensures r == self.extra.flags.pri, // [C02 C15]
//@LIBFN pub|is_err(&self) -> (r: Option<bool>)|ensures r == Some(self.extra.flags.err), // [C02 C15]
//@LIBFN pub|clear_extra(&mut self)|ensures final(self).key == old(self).key && final(self).readable == old(self).readable && final(self).writable == old(self).writable && final(self).extra.flags.none(), // [C15]
//@LIBFN pub|with_no_extra(self) -> (r: Event)|ensures r.key == self.key && r.readable == self.readable && r.writable == self.writable && r.extra.flags.none(), // [C15]
}
impl EventExtra {
//@FN pub const|empty() -> (r: EventExtra)|ensures r.flags.none(), // [C15]
//@FN pub|set_hup(&mut self, active: bool)|ensures final(self).flags == old(self).flags.set_spec(epoll::EventFlags::HUP, active), // [C15]
//@FN pub|set_pri(&mut self, active: bool)|ensures final(self).flags == old(self).flags.set_spec(epoll::EventFlags::PRI, active), // [C15]
//@FN pub|is_hup(&self) -> (r: bool)|ensures r == self.flags.hup, // [C02 C15]
//@FN pub|is_pri(&self) -> (r: bool)|ensures r == self.flags.pri, // [C02 C15]
//@FN pub|is_err(&self) -> (r: Option<bool>)|ensures r == Some(self.flags.err), // [C02 C15]
//@FN pub|is_connect_failed(&self) -> (r: Option<bool>)|ensures r == Some(self.flags.err && self.flags.hup), // [C02 C15]
}
//@TYPES
pub struct Events { pub list: epoll::EventVec }

// ---------------------------------------------------------------- masks
/// What the system is asked for: exactly the interest and the mode; errors and hang-ups are reported in any case.
pub open spec fn asked(ev: Event, mode: PollMode, f: epoll::EventFlags) -> bool {
    &&& f.i == ev.readable
    &&& f.pri == (ev.readable || ev.extra.flags.pri)
    &&& f.out == ev.writable
    &&& f.oneshot == (mode is Oneshot || mode is EdgeOneshot)
    &&& f.et == (mode is Edge || mode is EdgeOneshot)
    &&& !f.other
}
fn read_flags() -> (r: epoll::EventFlags)
    ensures r.i && r.pri && r.hup && r.err && !r.out && !r.et && !r.oneshot && !r.other, // [C01 C02]
{
//@BODY read_flags
}
fn write_flags() -> (r: epoll::EventFlags)
    ensures r.out && r.hup && r.err && !r.i && !r.pri && !r.et && !r.oneshot && !r.other, // [C01 C02]
{
//@BODY write_flags
}
fn epoll_flags(interest: &Event, mode: PollMode) -> (r: epoll::EventFlags)
    ensures asked(*interest, mode, r), // [C01 C03]
{
//@BODY epoll_flags
}
/// The closure of Events::iter.
fn event_of(ev: &epoll::RawEvent) -> (r: Event)
    ensures
        r.key == ev.data.v, // [C01 C02 C12]
        r.readable == (ev.flags.i || ev.flags.pri || ev.flags.hup || ev.flags.err), // [C02]
        r.writable == (ev.flags.out || ev.flags.hup || ev.flags.err), // [C02]
        r.extra.flags == ev.flags, // [C02]
{
//@CLOSURE event_of
}
/// The filter of Events::iter in lib.rs.
fn visible(ev: &Event) -> (r: bool)
    ensures r == (ev.key != usize::MAX), // [C04]
{
//@CLOSURE visible
}

// ---------------------------------------------------------------- the notifier
impl Notifier {
    pub open spec fn fd(&self) -> int {
        match *self { Notifier::EventFd(fd) => fd.fd as int, Notifier::Pipe { read_pipe, write_pipe } => read_pipe.fd as int }
    }
    pub open spec fn inv(&self, k: Kernel) -> bool {
        &&& k.cnt.contains_key(self.fd()) && k.nonblock.contains(self.fd())
        &&& match *self {
            Notifier::EventFd(fd) => k.eventfd.contains(fd.fd as int),
            Notifier::Pipe { read_pipe, write_pipe } => k.peer.contains_key(write_pipe.fd as int) && k.peer[write_pipe.fd as int] == read_pipe.fd && !k.eventfd.contains(write_pipe.fd as int) && !k.eventfd.contains(read_pipe.fd as int),
        }
    }
    pub open spec fn pipe_set(&self) -> Set<int> {
        match *self { Notifier::EventFd(fd) => set![fd.fd as int], Notifier::Pipe { read_pipe, write_pipe } => set![read_pipe.fd as int, write_pipe.fd as int] }
    }
//@FN |as_fd(&self) -> (r: BorrowedFd)|ensures r.fd == self.fd(), // [C07]
//@IF epoll-new
//@NEWFN new() -> (r: io::Result<Notifier>)|requires old(k).failed is None, ensures
        fresh_fds(*old(k), *final(k)), // [C14]
        r is Ok ==> r->Ok_0.inv(*final(k)), // [C07 C14]
        r is Ok ==> r->Ok_0.pipe_set().subset_of(final(k).cloexec), // [C14]
        r is Ok ==> r->Ok_0.pipe_set().subset_of(final(k).open) && r->Ok_0.pipe_set().disjoint(old(k).open) && !old(k).open.contains(r->Ok_0.fd()) && final(k).open.contains(r->Ok_0.fd()), // [C14]
        r is Ok <==> final(k).failed is None, // [C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
//@END
//@FI
//@FN |notify(&self)|requires self.inv(*old(k)), ensures rest(*old(k), *final(k)) && more(old(k).cnt, final(k).cnt) && old(k).empty == final(k).empty, final(k).cnt[self.fd()] > 0, // [C07]
//@FN #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]|clear(&self)|requires self.inv(*old(k)), ensures rest(*old(k), *final(k)), final(k).empty.contains(self.fd()), // [C08]
}

// ---------------------------------------------------------------- the backend
pub open spec fn wakes(k: Kernel, fd: int) -> bool {
    k.ent.contains_key(fd) && k.ent[fd].armed && k.ent[fd].data == usize::MAX && k.ent[fd].flags.i
}
impl Poller {
    /// The queue is the poller's own; the notifier is registered, armed and able to wake a wait.
    pub open spec fn inv(&self, k: Kernel) -> bool {
        &&& self.epoll_fd.fd == k.epfd
        &&& self.notifier.inv(k)
        &&& wakes(k, self.notifier.fd())
        &&& self.timer_fd is Some ==> self.timer_fd->Some_0.fd != self.notifier.fd() && k.ent.contains_key(self.timer_fd->Some_0.fd as int) && k.ent[self.timer_fd->Some_0.fd as int].data == usize::MAX
    }
    pub open spec fn own(&self, fd: int) -> bool { fd == self.notifier.fd() || self.timer_fd is Some && fd == self.timer_fd->Some_0.fd }

//@OP add|unsafe|add(&self, fd: RawFd, ev: Event, mode: PollMode)|fd as int
//@IF epoll
//@OP modify||modify(&self, fd: BorrowedFd, ev: Event, mode: PollMode)|fd.fd as int
//@FI
fn delete(&self, fd: BorrowedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.epoll_fd.fd == old(k).epfd,
    ensures
        only_ent(*old(k), *final(k)),
        r is Ok ==> old(k).ent.contains_key(fd.fd as int), // [C10]
        r is Ok ==> final(k).ent == old(k).ent.remove(fd.fd as int), // [C01 C10 C12]
        r is Err ==> final(k).ent == old(k).ent, // [C11]
        old(k).failed is None ==> (r is Ok <==> final(k).failed is None), // [C10 C17]
        old(k).failed is None && r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
{
//@BODY delete
}

//@IF epoll
/// What epoll_wait has to be asked for.
pub open spec fn sleeps(&self, timeout: Option<Duration>, w: Waited) -> bool {
    match timeout {
        Some(t) if t.ns() == 0 => w.ms == 0,
        Some(t) => match self.timer_fd {
            // no limit of its own: the timer ends it after exactly the timeout, once
            Some(tf) => w.ms == -1 && w.timer.contains_key(tf.fd as int) && w.timer[tf.fd as int] == (Timer { s: t.s as int, n: t.n as int, is: 0, inn: 0 })
                && wakes_in(w.ent, tf.fd as int),
            // whole milliseconds, rounded up
            None => w.ms > 0 && (w.ms * 1_000_000 >= t.ns() || w.ms == i32::MAX) && (w.ms - 1) * 1_000_000 < t.ns(),
        },
        None => w.ms == -1 && match self.timer_fd {
            Some(tf) => w.timer.contains_key(tf.fd as int) && w.timer[tf.fd as int].s == 0 && w.timer[tf.fd as int].n == 0,
            None => true,
        },
    }
}
#[verifier::rlimit(60)]
fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires
        self.inv(*old(k)), old(k).failed is None, timeout is Some ==> timeout->Some_0.s <= i64::MAX && timeout->Some_0.n < 1_000_000_000,
    ensures
        // exactly one sleep, or none if a system call failed before it
        r is Ok ==> final(k).waits.len() == old(k).waits.len() + 1, // [C06]
        final(k).waits.len() <= old(k).waits.len() + 1, // [C06]
        // during which a notification and the deadline can end it
        final(k).waits.len() > old(k).waits.len() ==> wakes_in(final(k).waits.last().ent, self.notifier.fd()), // [C07]
        final(k).waits.len() > old(k).waits.len() ==> self.sleeps(timeout, final(k).waits.last()), // [C05]
        // the notifier is drained after the sleep and armed again
        r is Ok ==> self.inv(*final(k)), // [C07]
        r is Ok ==> final(k).empty.contains(self.notifier.fd()), // [C08]
        // the user's sources: only what the delivery itself changed
        final(k).ent.dom() =~= old(k).ent.dom(), // [C10 C12]
        forall|f: int| !self.own(f) && #[trigger] old(k).ent.contains_key(f) ==> { // [C01 C03 C12]
            let (a, b) = (old(k).ent[f], final(k).ent[f]);
            a == b || final(k).waits.len() > old(k).waits.len() && b == final(k).waits.last().after[f] },
        forall|f: int| !self.own(f) && #[trigger] old(k).ent.contains_key(f) && final(k).waits.len() > old(k).waits.len() ==> final(k).waits.last().ent[f] == old(k).ent[f], // [C01 C12]
        // the events are those of this sleep
        r is Ok ==> final(events).list@ == final(k).waits.last().evs, // [C13]
        final(events).list.cap() == old(events).list.cap(), // [C13]
        // errors
        r is Ok <==> final(k).failed is None, // [C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
{
//@BODY wait
}

fn notify(&self, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)),
    ensures
        r is Ok, // [C07 C08]
        final(k).cnt[self.notifier.fd()] > 0, // [C07]
        self.inv(*final(k)), // [C07]
        rest(*old(k), *final(k)), // [C11 C12]
{
//@BODY notify
}
//@FI
//@IF epoll-new
fn new(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<Poller>)
    requires old(k).failed is None,
    ensures
        // the poller begins with nothing registered but its own notifier and timer, and a notification wakes it
        r is Ok ==> r->Ok_0.inv(*final(k)), // [C04 C07]
        r is Ok ==> final(k).ent.dom() =~= r->Ok_0.own_set(), // [C01 C04 C10]
        r is Ok ==> forall|f: int| #[trigger] final(k).ent.contains_key(f) ==> final(k).ent[f].data == usize::MAX, // [C04]
        // all its descriptors are new and closed by exec
        r is Ok ==> r->Ok_0.own_set().insert(r->Ok_0.epoll_fd.fd as int).union(r->Ok_0.notifier.pipe_set()).subset_of(final(k).cloexec), // [C14]
        r is Ok ==> r->Ok_0.own_set().insert(r->Ok_0.epoll_fd.fd as int).union(r->Ok_0.notifier.pipe_set()).disjoint(old(k).open), // [C14]
        r is Ok ==> !r->Ok_0.own(r->Ok_0.epoll_fd.fd as int), // [C14]
        // other descriptors are left alone
        forall|f: int| #[trigger] old(k).open.contains(f) ==> (final(k).cloexec.contains(f) <==> old(k).cloexec.contains(f)) && (final(k).nonblock.contains(f) <==> old(k).nonblock.contains(f)), // [C14]
        // a failure is reported
        r is Ok <==> final(k).failed is None, // [C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
{
//@BODY new
}
pub open spec fn own_set(&self) -> Set<int> {
    match self.timer_fd { Some(t) => set![self.notifier.fd(), t.fd as int], None => set![self.notifier.fd()] }
}
fn drop(&mut self, Tracked(k): Tracked<&mut Kernel>)
    requires old(self).epoll_fd.fd == old(k).epfd,
    ensures
        // what it had registered is gone, everything else stays
        forall|f: int| !old(self).own(f) ==> (#[trigger] final(k).ent.contains_key(f) <==> old(k).ent.contains_key(f)), // [C12 C14]
        forall|f: int| !old(self).own(f) && #[trigger] old(k).ent.contains_key(f) ==> final(k).ent[f] == old(k).ent[f], // [C12 C14]
        fixed(*old(k), *final(k)), // [C14]
{
//@DROPBODY Poller
}
//@FN pub|supports_level(&self) -> (r: bool)|ensures r, // [C03]
//@FN pub|supports_edge(&self) -> (r: bool)|ensures r, // [C03]
//@TRAITFN AsRawFd|as_raw_fd(&self) -> (r: RawFd)|ensures r == self.epoll_fd.fd, // [C18]
//@TRAITFN AsFd|as_fd(&self) -> (r: BorrowedFd)|ensures r.fd == self.epoll_fd.fd, // [C18]
//@FI
}
pub open spec fn wakes_in(ent: Map<int, Ent>, fd: int) -> bool {
    ent.contains_key(fd) && ent[fd].armed && ent[fd].data == usize::MAX && ent[fd].flags.i
}

//@IF epoll
// ---------------------------------------------------------------- lib.rs
pub struct Source { pub fd: RawFd }
impl Source {
    fn raw(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
    fn source(&self) -> (r: BorrowedFd) ensures r.fd == self.fd { BorrowedFd { fd: self.fd } }
}
pub struct PollerApi { pub poller: Poller }
impl PollerApi {
//@API add_with_mode|unsafe|add_with_mode(&self, source: Source, interest: Event, mode: PollMode)|mode|add
//@API modify_with_mode||modify_with_mode(&self, source: Source, interest: Event, mode: PollMode)|mode|modify
//@API add|unsafe|add(&self, source: Source, interest: Event)|PollMode::Oneshot|add
//@API modify||modify(&self, source: Source, interest: Event)|PollMode::Oneshot|modify
fn delete(&self, source: Source, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.poller.inv(*old(k)), old(k).failed is None, !self.poller.own(source.fd as int),
    ensures
        self.poller.inv(*final(k)), // [C07 C12]
        r is Ok ==> old(k).ent.contains_key(source.fd as int) && final(k).ent == old(k).ent.remove(source.fd as int), // [C01 C10 C12]
        r is Err ==> final(k).ent == old(k).ent && r->Err_0.errno == final(k).failed->Some_0, // [C11 C17]
        r is Ok <==> final(k).failed is None, // [C10 C17]
{
//@LIBBODY delete
}
}
//@FI
//@IF epoll-new
// ---------------------------------------------------------------- lib.rs
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> { fn new(v: T) -> (r: Mutex<T>) ensures r.v == v { Mutex { v } } }
pub struct AtomicBool { pub v: bool }
impl AtomicBool { fn new(v: bool) -> (r: AtomicBool) ensures r.v == v { AtomicBool { v } } }
pub struct PollerApi { pub poller: Poller, pub lock: Mutex<()>, pub notified: AtomicBool }
impl PollerApi {
fn new(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<PollerApi>)
    requires old(k).failed is None,
    ensures
        r is Ok ==> r->Ok_0.poller.inv(*final(k)), // [C04 C07]
        // no notification is announced that has no wake-up
        r is Ok ==> !r->Ok_0.notified.v, // [C07]
        r is Ok ==> final(k).ent.dom() =~= r->Ok_0.poller.own_set(), // [C01 C04 C10]
        r is Ok ==> r->Ok_0.poller.own_set().insert(r->Ok_0.poller.epoll_fd.fd as int).union(r->Ok_0.poller.notifier.pipe_set()).subset_of(final(k).cloexec), // [C14]
        r is Ok <==> final(k).failed is None, // [C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
{
//@LIBNEW
}
//@LIBFN pub|supports_level(&self) -> (r: bool)|ensures r, // [C03]
//@LIBFN pub|supports_edge(&self) -> (r: bool)|ensures r, // [C03]
//@LIBTRAITFN AsRawFd|as_raw_fd(&self) -> (r: RawFd)|ensures r == self.poller.epoll_fd.fd, // [C18]
//@LIBTRAITFN AsFd|as_fd(&self) -> (r: BorrowedFd)|ensures r.fd == self.poller.epoll_fd.fd, // [C18]
}
//@FI
//@LLOPE
//@IF poll-new
// ---------------------------------------------------------------- poll.rs
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for io::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: ErrorKind) -> io::Error { io::Error { kind: k, errno: 0 } }
}
impl From<ErrorKind> for io::Error {
    #[verifier::external_body]
    fn from(k: ErrorKind) -> (r: io::Error) { unimplemented!() }
}
pub struct PollFlags { pub bits: u16 }
impl PollFlags {
    pub const IN: PollFlags = PollFlags { bits: 0x1 };
    pub const PRI: PollFlags = PollFlags { bits: 0x2 };
    pub const OUT: PollFlags = PollFlags { bits: 0x4 };
    pub const RDNORM: PollFlags = PollFlags { bits: 0x40 };
    pub const RDBAND: PollFlags = PollFlags { bits: 0x80 };
    pub const WRNORM: PollFlags = PollFlags { bits: 0x100 };
    /// Data in a pipe is reported.
    pub open spec fn sees_data(self) -> bool { self.bits == 0x1 || self.bits == 0x40 || self.bits == 0x41 }
}
pub struct PollFd { pub fd: RawFd, pub events: PollFlags }
impl PollFd {
    fn from_borrowed_fd(fd: BorrowedFd, events: PollFlags) -> (r: PollFd) ensures r.fd == fd.fd && r.events == events { PollFd { fd: fd.fd, events } }
}
#[verifier::external_body] pub struct HashMap { }
impl HashMap {
    pub uninterp spec fn none(self) -> bool;
    #[verifier::external_body] fn new() -> (r: HashMap) ensures r.none() { unimplemented!() }
}
pub type BTreeMap = HashMap;
pub struct Fds { pub poll_fds: Vec<PollFd>, pub fd_data: HashMap }
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> { fn new(v: T) -> (r: Mutex<T>) ensures r.v == v { Mutex { v } } }
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize { fn new(v: usize) -> (r: AtomicUsize) ensures r.v == v { AtomicUsize { v } } }
pub struct AtomicBool { pub v: bool }
impl AtomicBool { fn new(v: bool) -> (r: AtomicBool) ensures r.v == v { AtomicBool { v } } }
pub struct Condvar { }
impl Condvar { fn new() -> Condvar { Condvar { } } }
#[derive(Clone, Copy)]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }
pub struct Event { pub key: usize }
pub struct Notify { pub read_pipe: OwnedFd, pub write_pipe: OwnedFd }
impl Notify {
    pub open spec fn read_fd(&self) -> int { self.read_pipe.fd as int }
    pub open spec fn both(&self) -> Set<int> { set![self.read_pipe.fd as int, self.write_pipe.fd as int] }
    pub open spec fn own(&self, fd: RawFd) -> bool { fd == self.read_pipe.fd || fd == self.write_pipe.fd }
    pub open spec fn inv(&self, k: Kernel) -> bool {
        &&& k.cnt.contains_key(self.read_fd()) && k.nonblock.contains(self.read_fd())
        &&& k.peer.contains_key(self.write_pipe.fd as int) && k.peer[self.write_pipe.fd as int] == self.read_fd()
        &&& !k.eventfd.contains(self.read_fd()) && !k.eventfd.contains(self.write_pipe.fd as int)
    }
//@NEWFN new() -> (r: io::Result<Notify>)|requires old(k).failed is None, ensures
        fresh_fds(*old(k), *final(k)), // [C14]
        r is Ok ==> r->Ok_0.inv(*final(k)), // [C07 C14 C16]
        r is Ok ==> r->Ok_0.both().subset_of(final(k).cloexec), // [C14]
        r is Ok ==> r->Ok_0.both().subset_of(final(k).open) && r->Ok_0.both().disjoint(old(k).open), // [C14]
        r is Ok <==> final(k).failed is None, // [C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
//@END
//@FN |fd(&self) -> (r: BorrowedFd)|ensures r.fd == self.read_pipe.fd, // [C07 C16]
//@FN |poll_flags(&self) -> (r: PollFlags)|ensures r.sees_data(), // [C07 C16]
//@FN |has_fd(&self, fd: RawFd) -> (r: bool)|ensures r == self.own(fd), // [C04]
//@FN |notify(&self) -> (r: io::Result<()>)|requires self.inv(*old(k)), ensures rest(*old(k), *final(k)) && more(old(k).cnt, final(k).cnt), r is Ok ==> final(k).cnt[self.read_fd()] > 0, // [C07 C16]
//@FN |pop_notification(&self) -> (r: io::Result<()>)|requires self.inv(*old(k)), ensures rest(*old(k), *final(k)), self.inv(*final(k)), others(*old(k), *final(k), self.read_fd()), final(k).reads == old(k).reads + 1, // [C07 C16]
//@FN #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]|pop_all_notifications(&self) -> (r: io::Result<()>)|requires self.inv(*old(k)), ensures r is Ok, rest(*old(k), *final(k)), self.inv(*final(k)), others(*old(k), *final(k), self.read_fd()), final(k).empty.contains(self.read_fd()), // [C08]
}
pub open spec fn others(a: Kernel, b: Kernel, fd: int) -> bool {
    forall|f: int| f != fd && #[trigger] a.cnt.contains_key(f) ==> b.cnt[f] >= a.cnt[f]
}
pub struct Poller { pub fds: Mutex<Fds>, pub notify: Notify, pub waiting_operations: AtomicUsize, pub operations_complete: Condvar, pub notified: AtomicBool }
/// The change of the tables (unit poll-ops).
#[verifier::external_body] pub struct Op { }
impl Op { pub uninterp spec fn res(&self) -> io::Result<()>; }
impl Poller {
fn new(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<Poller>)
    requires old(k).failed is None,
    ensures
        // nothing is registered but the pipe, and data in it wakes a wait
        r is Ok ==> r->Ok_0.fds.v.poll_fds@.len() == 1 && r->Ok_0.fds.v.fd_data.none(), // [C01 C10 C12]
        r is Ok ==> r->Ok_0.fds.v.poll_fds@[0].fd == r->Ok_0.notify.read_fd() && r->Ok_0.fds.v.poll_fds@[0].events.sees_data(), // [C04 C07 C16]
        r is Ok ==> r->Ok_0.notify.inv(*final(k)), // [C07 C16]
        r is Ok ==> !r->Ok_0.notified.v && r->Ok_0.waiting_operations.v == 0, // [C07 C08 C16]
        r is Ok ==> r->Ok_0.notify.both().subset_of(final(k).cloexec), // [C14]
        r is Ok ==> r->Ok_0.notify.both().disjoint(old(k).open), // [C14]
        fresh_fds(*old(k), *final(k)), // [C14]
        r is Ok <==> final(k).failed is None, // [C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
{
//@BODY new
}
//@FN pub|supports_level(&self) -> (r: bool)|ensures r, // [C03]
//@FN pub|supports_edge(&self) -> (r: bool)|ensures !r, // [C03]
/// Changes the tables and reports the outcome (unit poll-notify).
#[verifier::external_body]
fn modify_fds(&self, op: Op, fd: RawFd) -> (r: io::Result<()>)
    requires
        // the poller's own pipe is not the user's to change
        !self.notify.own(fd), // [C04]
    ensures r == op.res(),
{ unimplemented!() }
//@GUARDED add(&self, fd: RawFd, ev: Event, mode: PollMode|fd
//@GUARDED modify(&self, fd: BorrowedFd, ev: Event, mode: PollMode|fd.fd
//@GUARDED delete(&self, fd: BorrowedFd|fd.fd
}
//@FI
} // verus!
fn main() {}

//@SNIPPET op
%(unsafe)s fn %(sig)s
    requires self.epoll_fd.fd == old(k).epfd, old(k).failed is None,
    ensures
        only_ent(*old(k), *final(k)),
        r is Ok ==> (%(op)s <==> !old(k).ent.contains_key(%(fd)s)), // [C10]
        r is Ok ==> final(k).ent.contains_key(%(fd)s) && final(k).ent[%(fd)s].armed && final(k).ent[%(fd)s].data == ev.key, // [C01 C10 C12]
        r is Ok ==> asked(ev, mode, final(k).ent[%(fd)s].flags), // [C01 C03]
        r is Ok ==> final(k).ent =~= old(k).ent.insert(%(fd)s, final(k).ent[%(fd)s]), // [C12]
        r is Err ==> final(k).ent == old(k).ent, // [C11]
        r is Ok <==> final(k).failed is None, // [C10 C17]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
//@END
//@SNIPPET api
%(unsafe)s fn %(sig)s
    requires self.poller.inv(*old(k)), old(k).failed is None, !self.poller.own(source.fd as int),
    ensures
        self.poller.inv(*final(k)), // [C07 C12]
        only_ent(*old(k), *final(k)), // [C12]
        interest.key == usize::MAX ==> r is Err && r->Err_0.kind is InvalidInput && final(k).failed is None && final(k).ent == old(k).ent, // [C04 C11]
        interest.key != usize::MAX ==> (r is Ok <==> final(k).failed is None), // [C04 C10 C17]
        r is Ok ==> (%(op)s <==> !old(k).ent.contains_key(source.fd as int)), // [C10]
        r is Ok ==> final(k).ent.contains_key(source.fd as int) && final(k).ent[source.fd as int].armed && final(k).ent[source.fd as int].data == interest.key, // [C01 C10 C12]
        r is Ok ==> asked(interest, %(mode)s, final(k).ent[source.fd as int].flags), // [C01 C03]
        r is Ok ==> final(k).ent =~= old(k).ent.insert(source.fd as int, final(k).ent[source.fd as int]), // [C12]
        r is Err ==> final(k).ent == old(k).ent, // [C11]
        r is Err && interest.key != usize::MAX ==> r->Err_0.errno == final(k).failed->Some_0, // [C17]
//@END
//@SNIPPET drain
    invariant
        self.inv(*k), rest(*old(k), *k),
    ensures
        rest(*old(k), *k), k.empty.contains(self.fd()), // [C08]
//@END
//@SNIPPET guarded
fn %(sig)s, op_: Op) -> (r: io::Result<()>)
    ensures
        self.notify.own(%(fd)s) ==> r is Err && r->Err_0.kind is InvalidInput, // [C04]
        !self.notify.own(%(fd)s) ==> r == op_.res(), // [C10 C17]
//@END
//@SNIPPET drain_poll
    invariant
        self.inv(*k), rest(*old(k), *k), others(*old(k), *k, self.read_fd()),
    ensures
        self.inv(*k), rest(*old(k), *k), others(*old(k), *k, self.read_fd()), k.empty.contains(self.read_fd()), // [C08]
//@END
