// How long Poller::wait of the poll backend sleeps, over any number of interruptions by operations.  The body is cut
// out of /repo/src/poll.rs by tools/verus.py on every run; everything else is specification or an assumed contract.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- assumed contracts: std
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (r: core::result::Result<T, E>, d: T) -> (o: T)
    where E: core::marker::Destruct, T: core::marker::Destruct
    ensures o == (match r { Ok(v) => v, Err(_) => d });
/// A length of time in nanoseconds.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub ns: u128 }
impl Duration {
    pub const ZERO: Duration = Duration { ns: 0 };
    #[verifier::external_body]
    fn from_millis(m: u64) -> (r: Duration) ensures r.ns == m * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    fn from_secs(m: u64) -> (r: Duration) ensures r.ns == m * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    fn from_micros(m: u64) -> (r: Duration) ensures r.ns == m * 1_000 { unimplemented!() }
    #[verifier::external_body]
    fn from_nanos(m: u64) -> (r: Duration) ensures r.ns == m { unimplemented!() }
    fn as_nanos(&self) -> (r: u128) ensures r == self.ns { self.ns }
    fn as_micros(&self) -> (r: u128) ensures r == self.ns / 1_000 { self.ns / 1_000 }
    fn as_millis(&self) -> (r: u128) ensures r == self.ns / 1_000_000 { self.ns / 1_000_000 }
    #[verifier::external_body]
    fn as_secs(&self) -> (r: u64) ensures r == self.ns / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    fn subsec_nanos(&self) -> (r: u32) ensures r == self.ns % 1_000_000_000 { unimplemented!() }
    fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0) { self.ns == 0 }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> {
        Some(if self.ns < o.ns { core::cmp::Ordering::Less } else if self.ns == o.ns { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
/// A reading of the monotonic clock in nanoseconds.
#[derive(Clone, Copy)]
pub struct Instant { pub ns: u128 }
/// The clock, which never goes back, and the calls of poll(2): when they began and ended (and when the one before ended), what they were asked and answered.
pub ghost struct Call { pub first: bool, pub prev: int, pub at: int, pub ms: int, pub end: int, pub res: Result<usize, Errno> }
pub tracked struct Clock { pub ghost t: int, pub ghost calls: Seq<Call> }
impl Instant {
    #[verifier::external_body]
    fn now(Tracked(c): Tracked<&mut Clock>) -> (r: Instant)
        ensures final(c).t >= old(c).t, final(c).calls == old(c).calls, r.ns == final(c).t, id(final(c).t) == final(c).t
    { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(self, d: Duration) -> (r: Option<Instant>)
        ensures r is Some ==> r->Some_0.ns == self.ns + d.ns, (r is Some) == addable(self.ns as int, d.ns as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn saturating_duration_since(&self, o: Instant) -> (r: Duration)
        ensures r.ns == (if self.ns >= o.ns { self.ns - o.ns } else { 0 })
    { unimplemented!() }
    #[verifier::external_body]
    fn checked_duration_since(&self, o: Instant) -> (r: Option<Duration>)
        ensures r == (if self.ns >= o.ns { Some(Duration { ns: (self.ns - o.ns) as u128 }) } else { None })
    { unimplemented!() }
}
pub uninterp spec fn addable(t: int, d: int) -> bool;

pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
#[verifier::external_body] pub struct AtomicBool { }
impl AtomicBool {
    #[verifier::external_body] fn swap(&self, v: bool, o: Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] fn store(&self, v: bool, o: Ordering) { unimplemented!() }
    #[verifier::external_body] fn load(&self, o: Ordering) -> bool { unimplemented!() }
}
#[verifier::external_body] pub struct AtomicUsize { }
impl AtomicUsize {
    #[verifier::external_body] fn load(&self, o: Ordering) -> usize { unimplemented!() }
}
pub struct Errno { pub e: u16 }
pub mod io {
    pub struct Error { pub e: u16 }
    pub type Result<T> = core::result::Result<T, Error>;
}
impl io::Error { fn io_(self) -> (r: io::Error) ensures r == self { self } }
impl Errno { fn io_(self) -> (r: io::Error) ensures r.e == self.e { io::Error { e: self.e } } }
#[derive(Clone, Copy)]
pub struct PollFlags { pub bits: u16 }
impl PollFlags { fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 } }
pub struct PollFd { pub fd: i32, pub events: u16, pub revents: u16 }
impl PollFd { fn revents(&self) -> (r: PollFlags) ensures r.bits == self.revents { PollFlags { bits: self.revents } } }
pub struct Guard { pub poll_fds: Vec<PollFd> }
#[verifier::external_body] pub struct Mutex { }
pub struct Locked { pub g: Guard }
impl Locked { fn unwrap(self) -> (r: Guard) ensures r == self.g { self.g } }
impl Mutex { #[verifier::external_body] fn lock(&self) -> (r: Locked) ensures r.g.poll_fds.len() >= 1 { unimplemented!() } }
#[verifier::external_body] pub struct Condvar { }
impl Condvar { #[verifier::external_body] fn wait(&self, g: Guard) -> (r: Locked) ensures r.g.poll_fds.len() >= 1 { unimplemented!() } }
#[verifier::external_body] pub struct Notify { }
impl Notify {
    #[verifier::external_body] fn pop_notification(&self) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn pop_all_notifications(&self) -> io::Result<()> { unimplemented!() }
}
/// poll(2): any time may pass.
#[verifier::external_body]
fn poll(fds: &mut Vec<PollFd>, timeout_ms: i32, Tracked(c): Tracked<&mut Clock>) -> (r: Result<usize, Errno>)
    requires old(fds).len() >= 1,
    ensures
        final(fds).len() == old(fds).len(),
        r is Ok && final(fds)@[0].revents != 0 ==> r->Ok_0 >= 1,
        final(c).t >= old(c).t,
        final(c).calls == old(c).calls.push(Call { first: old(c).calls.len() == 0, prev: if old(c).calls.len() > 0 { old(c).calls.last().end } else { 0 }, at: old(c).t, ms: timeout_ms as int, end: final(c).t, res: r }),
{ unimplemented!() }
pub struct Events { pub inner: Inner }
#[verifier::external_body] pub struct Inner { }
impl Inner { #[verifier::external_body] fn clear(&mut self) { unimplemented!() } }
#[verifier::external_body] fn collect(fds: &mut Guard, events: &mut Events, n: usize) { unimplemented!() }

pub struct Poller { pub fds: Mutex, pub notify: Notify, pub waiting_operations: AtomicUsize, pub notified: AtomicBool, pub operations_complete: Condvar }

pub open spec fn id(x: int) -> int { x }
/// Whole milliseconds, rounded up.
pub open spec fn covers(ms: int, left: int) -> bool {
    ms >= 0 && (ms * 1_000_000 >= left || ms == i32::MAX) && (ms - 1) * 1_000_000 < left
}
pub open spec fn deadline_of(start: int, timeout: Option<Duration>) -> Option<int> {
    match timeout { Some(d) => if addable(start, d.ns as int) { Some(start + d.ns) } else { None }, None => None }
}
/// No limit for an unlimited wait; otherwise what is left until the deadline at some moment between the end of the
/// previous sleep (the beginning of the wait) and this one.
pub open spec fn asks(start: int, timeout: Option<Duration>, call: Call) -> bool {
    match deadline_of(start, timeout) {
        None => call.ms == -1,
        Some(d) => exists|read: int| (if call.first { start } else { call.prev }) <= #[trigger] id(read) <= call.at && covers(call.ms, if d >= read { d - read } else { 0 }),
    }
}
pub open spec fn one_deadline(t0: int, timeout: Option<Duration>, calls: Seq<Call>) -> bool {
    exists|start: int| {
        &&& t0 <= #[trigger] id(start)
        &&& calls.len() > 0 ==> start <= calls[0].at
        &&& forall|i: int| 0 <= i < calls.len() ==> asks(start, timeout, #[trigger] calls[i])
    }
}
/// It was woken.
pub open spec fn woken(c: Call) -> bool { c.res is Ok && c.res->Ok_0 >= 1 }

impl Poller {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(c): Tracked<&mut Clock>) -> (r: io::Result<()>)
    requires old(c).calls.len() == 0,
    ensures
        // a sleep that ran into its limit, or failed, ends the wait
        forall|i: int| 0 <= i < final(c).calls.len() - 1 ==> woken(#[trigger] final(c).calls[i]), // [C05 C06]
        final(c).calls.len() > 0 && final(c).calls.last().res is Err ==> r is Err && r->Err_0.e == final(c).calls.last().res->Err_0.e, // [C06 C17]
        // every sleep is limited by exactly what is left of the timeout: the deadline does not move
        one_deadline(old(c).t, timeout, final(c).calls), // [C05 C06]
{
    let ghost t0 = c.t; proof { assert(id(t0) == t0); }
//@BODY wait
}
}
} // verus!
fn main() {}

//@SNIPPET inv
    invariant
        t0 <= start <= c.t, id(start) == start,
        fds.poll_fds.len() >= 1,
        forall|i: int| 0 <= i < c.calls.len() ==> woken(#[trigger] c.calls[i]), // [C05 C06]
        forall|i: int| 0 <= i < c.calls.len() ==> (#[trigger] c.calls[i]).end <= c.t && start <= c.calls[i].at <= c.calls[i].end,
        (deadline is Some) == (deadline_of(start, timeout) is Some), // [C05 C06]
        deadline is Some ==> deadline->Some_0.ns == deadline_of(start, timeout)->Some_0, // [C05 C06]
        forall|i: int| 0 <= i < c.calls.len() ==> asks(start, timeout, #[trigger] c.calls[i]), // [C05 C06]
//@END
//@SNIPPET outer_ens
    ensures
        forall|i: int| 0 <= i < c.calls.len() - 1 ==> woken(#[trigger] c.calls[i]), // [C05 C06]
        c.calls.len() > 0 ==> c.calls.last().res is Ok, // [C06 C17]
        one_deadline(t0, timeout, c.calls), // [C05 C06]
//@END
