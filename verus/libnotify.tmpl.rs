// No notification is lost: Poller::wait and Poller::notify of lib.rs, for any number of threads and any schedule, by
// rely and guarantee.  The state that the threads share is ghost data; the contract of every operation that reaches it
// begins with any number of steps of the other threads (env_w for the thread that waits, env_n for the others), all of
// which keep the invariant.  The bodies are cut out of /repo/src/lib.rs by tools/verus.py on every run.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub enum Phase { Out, In, Drained }
/// n: the flag `notified`; c: a wake-up is pending in the backend; p: another thread is between setting the flag
/// and sending its wake-up; mine: this thread is; w: how often a wait reset the flag; ph: what the waiting thread does:
/// nobody waits, a wait has not yet drained the backend, it has drained it and has not yet reset the flag; hold: this
/// thread holds the right to wait.
pub tracked struct Shared { pub ghost n: bool, pub ghost c: bool, pub ghost p: bool, pub ghost mine: bool, pub ghost w: nat, pub ghost ph: Phase, pub ghost hold: bool }
impl Shared {
    /// An announced notification is backed by a wake-up, or will be, or the wait it ends is on its way out.
    pub open spec fn inv(self) -> bool { self.n ==> self.c || self.p || self.mine || self.ph is Drained }
    /// The same with nobody waiting.
    pub open spec fn inv_out(self) -> bool { self.n ==> self.c || self.p || self.mine }
    pub open spec fn awake(self) -> bool { self.n || self.c || self.ph is Drained }
}
/// Other threads, while this one waits: they only notify.
pub open spec fn env_w(a: Shared, b: Shared) -> bool {
    b.inv() && b.ph == a.ph && b.w == a.w && b.mine == a.mine && b.hold == a.hold && (a.n ==> b.n) && (a.c ==> b.c)
}
/// Other threads, while this one notifies: they notify, and one waits.
pub open spec fn env_n(a: Shared, b: Shared) -> bool {
    b.inv() && b.mine == a.mine && b.hold == a.hold && b.w >= a.w && (b.w == a.w && a.n ==> b.n) && (b.w == a.w && a.awake() ==> b.awake())
}
pub open spec fn env(waits: bool, a: Shared, b: Shared) -> bool { if waits { env_w(a, b) } else { env_n(a, b) } }
/// The flag is written: setting it is a promise to send a wake-up, and only a wait may reset it.
pub open spec fn put(m: Shared, v: bool) -> Shared {
    if v { Shared { n: true, mine: m.mine || !m.n, ..m } } else { Shared { n: false, w: m.w + 1, ..m } }
}

pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
#[verifier::external_body] pub struct AtomicBool { }
impl AtomicBool {
    #[verifier::external_body]
    fn swap(&self, v: bool, o: Ordering, waits: Ghost<bool>, Tracked(s): Tracked<&mut Shared>) -> (r: bool)
        requires
            old(s).inv(),
            !v ==> waits@, // [C07]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(waits@, *old(s), m) && r == m.n && *final(s) == put(m, v),
    { unimplemented!() }
    #[verifier::external_body]
    fn store(&self, v: bool, o: Ordering, waits: Ghost<bool>, Tracked(s): Tracked<&mut Shared>)
        requires
            old(s).inv(),
            !v ==> waits@, // [C07]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(waits@, *old(s), m) && *final(s) == put(m, v),
    { unimplemented!() }
    #[verifier::external_body]
    fn load(&self, o: Ordering, waits: Ghost<bool>, Tracked(s): Tracked<&mut Shared>) -> (r: bool)
        requires old(s).inv(),
        ensures env(waits@, *old(s), *final(s)), r == final(s).n,
    { unimplemented!() }
    #[verifier::external_body]
    fn compare_exchange(&self, c: bool, v: bool, o: Ordering, o2: Ordering, waits: Ghost<bool>, Tracked(s): Tracked<&mut Shared>) -> (r: Result<bool, bool>)
        requires
            old(s).inv(),
            !v ==> waits@, // [C07]
        ensures
            final(s).inv(),
            exists|m: Shared| #[trigger] env(waits@, *old(s), m) && (r is Ok <==> m.n == c) && *final(s) == if m.n == c { put(m, v) } else { m },
    { unimplemented!() }
}

#[derive(Clone, Copy)] pub struct Duration { pub ns: u128 }
#[derive(Clone, Copy)] pub struct Instant { pub ns: u128 }
impl Instant {
    #[verifier::external_body] fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] fn checked_add(self, d: Duration) -> Option<Instant> { unimplemented!() }
    #[verifier::external_body] fn saturating_duration_since(&self, o: Instant) -> Duration { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, InvalidInput, Interrupted, WouldBlock, TimedOut, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    pub struct Error { pub kind: ErrorKind }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
        pub fn io_(self) -> (r: Error) ensures r == self { self }
    }
}
#[verifier::external_body] pub struct Mutex { }
#[verifier::external_body] pub struct Guard { }
#[verifier::external_body] pub struct Busy { }
impl Mutex {
    /// The right to wait; it is given back when the guard goes out of scope, at the end of wait.
    #[verifier::external_body]
    fn try_lock(&self, Tracked(s): Tracked<&mut Shared>) -> (r: Result<Guard, Busy>)
        requires old(s).inv(), !old(s).mine,
        ensures
            r is Ok ==> final(s).ph is In && final(s).inv() && !final(s).mine && final(s).hold,
            r is Err ==> env_n(*old(s), *final(s)),
    { unimplemented!() }
}
#[verifier::external_body] pub struct SysEvents { }
pub struct Events { pub events: SysEvents }
impl Events {
    #[verifier::external_body] fn clear(&mut self) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> usize { unimplemented!() }
}
#[verifier::external_body] pub struct Sys { }
impl Sys {
    /// A successful wait of the backend drains the wake-ups at some moment (unit epoll: postcondition C08); others may
    /// follow.  A failed one takes nothing.
    #[verifier::external_body]
    fn wait(&self, events: &mut SysEvents, timeout: Option<Duration>, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
        requires old(s).inv(), !(old(s).ph is Out),
        ensures
            r is Ok ==> final(s).ph is Drained && (old(s).n ==> final(s).n) && final(s).w == old(s).w && final(s).mine == old(s).mine && final(s).hold == old(s).hold,
            r is Err ==> env_w(*old(s), *final(s)),
    { unimplemented!() }
    /// Unit epoll: notify never fails and leaves a wake-up pending.
    #[verifier::external_body]
    fn notify(&self, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
        requires old(s).inv(),
        ensures r is Ok, final(s).inv(), exists|m: Shared| #[trigger] env_n(*old(s), m) && *final(s) == (Shared { c: true, mine: false, ..m }),
    { unimplemented!() }
}
pub struct Poller { pub poller: Sys, pub lock: Mutex, pub notified: AtomicBool }

impl Poller {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<usize>)
    requires old(s).inv(), !old(s).mine, !old(s).hold,
    ensures
        // the wait that drained the wake-ups has given up the announcements they stand for: the next notify is sent
        final(s).hold ==> final(s).inv_out(), // [C07]
        final(s).inv() && !final(s).mine, // [C07]
{
//@BODY wait
}
fn notify(&self, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
    requires old(s).inv(), !old(s).mine,
    ensures
        r is Ok, // [C07 C08]
        // this thread owes nothing, so the invariant says: a wake-up is pending, or another thread is about to send
        // one, or a wait is on its way out; unless a wait that ended after the call began has consumed it
        final(s).inv() && !final(s).mine, // [C07]
        final(s).awake() || final(s).w > old(s).w, // [C07]
{
//@BODY notify
}
}
} // verus!
fn main() {}

//@SNIPPET loop_inv
    invariant
        s.inv(), !s.mine, s.ph is In, s.hold, // [C07]
//@END
