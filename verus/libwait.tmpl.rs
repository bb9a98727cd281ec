// Contract of Poller::wait in lib.rs, for any number of interruptions.  The body is cut out of /repo/src/lib.rs by
// tools/verus.py on every run; everything else is specification or an assumed contract.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- assumed contracts: std
/// A length of time in nanoseconds; `MAX` as in std.
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
/// A reading of the monotonic clock in nanoseconds.
#[derive(Clone, Copy)]
pub struct Instant { pub ns: u128 }
/// The clock: it never goes back.
pub tracked struct Clock { pub ghost t: int }
impl Instant {
    #[verifier::external_body]
    fn now(Tracked(c): Tracked<&mut Clock>) -> (r: Instant)
        ensures final(c).t >= old(c).t, r.ns == final(c).t, id(final(c).t) == final(c).t
    { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(self, d: Duration) -> (r: Option<Instant>)
        ensures r is Some ==> r->Some_0.ns == self.ns + d.ns, (r is Some) == addable(self.ns as int, d.ns as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn saturating_duration_since(&self, o: Instant) -> (r: Duration)
        ensures r.ns == (if self.ns >= o.ns { self.ns - o.ns } else { 0 })
    { unimplemented!() }
}
pub uninterp spec fn addable(t: int, d: int) -> bool;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, InvalidInput, Interrupted, WouldBlock, TimedOut, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    pub struct Error { pub kind: ErrorKind, pub id: int }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
    }
}

pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
#[verifier::external_body] pub struct AtomicBool { }
impl AtomicBool {
    #[verifier::external_body] fn swap(&self, v: bool, o: Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] fn store(&self, v: bool, o: Ordering) { unimplemented!() }
}
#[verifier::external_body] pub struct Mutex { }
#[verifier::external_body] pub struct Guard { }
#[verifier::external_body] pub struct Busy { }
impl Mutex {
    #[verifier::external_body] fn try_lock(&self) -> Result<Guard, Busy> { unimplemented!() }
}

// ---------------------------------------------------------------- the backend, by its contract
#[verifier::external_body] pub struct SysEvents { }
impl SysEvents { pub uninterp spec fn view(&self) -> Seq<usize>; }
pub struct Events { pub events: SysEvents }
impl Events {
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self).events@ == Seq::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.events@.len() { unimplemented!() }
}
/// One call of the backend: when it began, what it was asked, what it answered, when it ended.
pub ghost struct Call { pub at: int, pub asked: Option<Duration>, pub end: int, pub res: io::Result<()> , pub evs: Seq<usize> }
pub tracked struct Log { pub ghost calls: Seq<Call> }
#[verifier::external_body] pub struct Sys { }
impl Sys {
    /// Any time may pass and anything may be answered.
    #[verifier::external_body]
    fn wait(&self, events: &mut SysEvents, timeout: Option<Duration>, Tracked(c): Tracked<&mut Clock>, Tracked(l): Tracked<&mut Log>) -> (r: io::Result<()>)
        ensures
            final(c).t >= old(c).t,
            final(l).calls == old(l).calls.push(Call { at: old(c).t, asked: timeout, end: final(c).t, res: r, evs: final(events)@ }),
    { unimplemented!() }
}
pub struct Poller { pub poller: Sys, pub lock: Mutex, pub notified: AtomicBool }

pub open spec fn interrupted(c: Call) -> bool { c.res is Err && c.res->Err_0.kind is Interrupted }
/// What call number i may be asked: nothing for an unlimited wait; otherwise what is left until the deadline at
/// some moment between the end of the previous call (the beginning of the wait) and the call.
pub open spec fn asks(start: int, timeout: Option<Duration>, prev: int, call: Call) -> bool {
    match deadline_of(start, timeout) {
        None => call.asked is None,
        Some(d) => call.asked is Some && exists|read: int| {
            &&& prev <= #[trigger] id(read) <= call.at
            &&& call.asked->Some_0.ns == if d >= read { d - read } else { 0 }
        },
    }
}
/// One deadline, fixed at the beginning, for all calls.
pub open spec fn one_deadline(t0: int, timeout: Option<Duration>, calls: Seq<Call>) -> bool {
    exists|start: int| {
        &&& t0 <= #[trigger] id(start)
        &&& calls.len() > 0 ==> start <= calls[0].at
        &&& forall|i: int| 0 <= i < calls.len() ==> asks(start, timeout, if i == 0 { start } else { calls[i - 1].end }, #[trigger] calls[i])
    }
}
pub open spec fn id(x: int) -> int { x }
pub open spec fn deadline_of(start: int, timeout: Option<Duration>) -> Option<int> {
    match timeout { Some(d) => if addable(start, d.ns as int) { Some(start + d.ns) } else { None }, None => None }
}

impl Poller {
#[verifier::exec_allows_no_decreases_clause]
fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(c): Tracked<&mut Clock>, Tracked(l): Tracked<&mut Log>) -> (r: io::Result<usize>)
    requires old(l).calls.len() == 0,
    ensures
        // a wait that could not start: nothing happened
        final(l).calls.len() == 0 ==> r is Ok && r->Ok_0 == 0 && final(events).events@ == old(events).events@, // [C09]
        // only the last call ended the wait, and every earlier one was interrupted by a signal
        forall|i: int| 0 <= i < final(l).calls.len() - 1 ==> interrupted(#[trigger] final(l).calls[i]), // [C06]
        final(l).calls.len() > 0 ==> !interrupted(final(l).calls.last()), // [C06]
        // its outcome is the outcome of the wait
        final(l).calls.len() > 0 ==> (r is Ok <==> final(l).calls.last().res is Ok), // [C17]
        final(l).calls.len() > 0 && r is Err ==> r->Err_0 == final(l).calls.last().res->Err_0, // [C17]
        final(l).calls.len() > 0 && r is Ok ==> final(events).events@ == final(l).calls.last().evs && r->Ok_0 == final(events).events@.len(), // [C13]
        // every call is asked exactly what is left of the timeout: the deadline does not move
        timeout is None ==> forall|i: int| 0 <= i < final(l).calls.len() ==> (#[trigger] final(l).calls[i]).asked is None, // [C05]
        one_deadline(old(c).t, timeout, final(l).calls), // [C05 C06]
{
//@BODY wait
}
}
} // verus!
fn main() {}

//@SNIPPET loop_inv
    invariant
        t0 <= start <= c.t, id(start) == start,
        t0 == old(c).t, evs0 == old(events).events@,
        l.calls.len() == 0 ==> events.events@ == evs0,
        forall|i: int| 0 <= i < l.calls.len() ==> interrupted(#[trigger] l.calls[i]), // [C06]
        forall|i: int| 0 <= i < l.calls.len() ==> (#[trigger] l.calls[i]).end <= c.t && start <= l.calls[i].at <= l.calls[i].end,
        (deadline is Some) == (deadline_of(start, timeout) is Some), // [C05 C06]
        deadline is Some ==> deadline->Some_0.ns == deadline_of(start, timeout)->Some_0, // [C05 C06]
        timeout is None ==> forall|i: int| 0 <= i < l.calls.len() ==> (#[trigger] l.calls[i]).asked is None, // [C05]
        forall|i: int| 0 <= i < l.calls.len() ==> asks(start, timeout, if i == 0 { start } else { l.calls[i - 1].end }, #[trigger] l.calls[i]), // [C05 C06]
//@END
//@SNIPPET before_call
    let ghost before = l.calls;
    let ghost now0 = c.t;
//@END
