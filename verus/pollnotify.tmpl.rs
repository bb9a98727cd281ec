// How wait, notify and the operations of the poll backend wake each other, for any number of threads and any schedule,
// by rely and guarantee.  The shared state is ghost data; the contract of every operation that reaches it begins with
// any number of steps of the other threads (env_locked while this thread holds the lock of the tables, env_free
// otherwise).  The bodies are cut out of /repo/src/poll.rs by tools/verus.py on every run.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

/// n: the flag `notified`; c: the pipe is not empty; p: another thread is between setting the flag and writing to
/// the pipe; ops: operations are announced; polling: another thread is inside poll(2).
/// This thread: mine: is between setting the flag and writing; lock: holds the lock; got: has taken a notification
/// in this wait; fresh: has looked at the flag since its last poll(2); op: has announced an operation; owe: has to wake
/// a wait that sleeps until all operations are complete; told: has written to the pipe since it announced it;
/// quiet: has seen no announced operation since it got the lock and last took from the pipe, so that the byte of every
/// operation announced since is in the pipe or still to come; stuck: has seen an announced operation and kept the lock
/// that operation needs; full: poll(2) said that there is something in the pipe, and it has not been emptied since; idle: poll(2)
/// returned because of the pipe alone.
/// ran: the change of the tables this thread was asked for has been made.
/// w: how often a notification was taken by a wait.
pub tracked struct Shared {
    pub ghost n: bool, pub ghost c: bool, pub ghost p: bool, pub ghost ops: bool, pub ghost polling: bool, pub ghost w: nat,
    pub ghost mine: bool, pub ghost lock: bool, pub ghost got: bool, pub ghost fresh: bool, pub ghost op: bool, pub ghost owe: bool, pub ghost told: bool, pub ghost quiet: bool, pub ghost stuck: bool, pub ghost full: bool, pub ghost idle: bool, pub ghost ran: bool,
}
impl Shared {
    pub open spec fn backed(self) -> bool { self.n ==> self.c || self.p || self.mine }
    /// Who sleeps in poll(2) will be woken by every notification.
    pub open spec fn inv(self) -> bool { (self.polling ==> self.backed() && !self.lock) && (self.op ==> self.ops) }
    pub open spec fn same(self, o: Shared) -> bool {
        self.mine == o.mine && self.lock == o.lock && self.got == o.got && self.fresh == o.fresh && self.op == o.op && self.owe == o.owe && self.told == o.told && self.quiet == o.quiet
        && self.stuck == o.stuck && self.full == o.full && self.idle == o.idle && self.ran == o.ran
    }
}
/// The holder of the lock is the only one who takes from the pipe, resets the flag or completes an operation.
pub open spec fn env_locked(a: Shared, b: Shared) -> bool {
    a.same(b) && b.inv() && b.w == a.w && (a.n ==> b.n) && (a.c ==> b.c) && (a.ops ==> b.ops) && (a.backed() ==> b.backed())
}
pub open spec fn env_free(a: Shared, b: Shared) -> bool {
    a.same(b) && b.inv() && b.w >= a.w && (a.n && b.w == a.w ==> b.n)
}
pub open spec fn env(a: Shared, b: Shared) -> bool { if a.lock { env_locked(a, b) } else { env_free(a, b) } }
pub open spec fn unlocked(a: Shared) -> Shared { Shared { lock: false, quiet: false, stuck: false, ..a } }
pub open spec fn put(m: Shared, v: bool) -> Shared {
    if v { Shared { n: true, mine: m.mine || !m.n, ..m } }
    else { Shared { n: false, got: m.got || m.n, w: if m.n { m.w + 1 } else { m.w }, fresh: true, ..m } }
}

pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
#[verifier::external_body] pub struct AtomicBool { }
impl AtomicBool {
    #[verifier::external_body]
    fn swap(&self, v: bool, o: Ordering, Tracked(s): Tracked<&mut Shared>) -> (r: bool)
        requires
            old(s).inv(),
            !v ==> old(s).lock, // [C07]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && r == m.n && *final(s) == put(m, v),
    { unimplemented!() }
    #[verifier::external_body]
    fn store(&self, v: bool, o: Ordering, Tracked(s): Tracked<&mut Shared>)
        requires
            old(s).inv(),
            !v ==> old(s).lock, // [C07]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == put(m, v),
    { unimplemented!() }
    #[verifier::external_body]
    fn load(&self, o: Ordering, Tracked(s): Tracked<&mut Shared>) -> (r: bool)
        requires old(s).inv(),
        ensures env(*old(s), *final(s)), r == final(s).n,
    { unimplemented!() }
}
#[verifier::external_body] pub struct AtomicUsize { }
impl AtomicUsize {
    #[verifier::external_body]
    fn load(&self, o: Ordering, Tracked(s): Tracked<&mut Shared>) -> (r: usize)
        requires old(s).inv(),
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && (r != 0 <==> m.ops) && *final(s) == (Shared { quiet: m.quiet || m.lock && r == 0, stuck: m.lock && r != 0, ..m }),
    { unimplemented!() }
    #[verifier::external_body]
    fn fetch_add(&self, v: usize, o: Ordering, Tracked(s): Tracked<&mut Shared>) -> (r: usize)
        requires
            old(s).inv(),
            v == 1 && !old(s).op, // [C16]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == (Shared { ops: true, op: true, told: false, ..m }),
    { unimplemented!() }
    /// A wait that has seen the announcement may go to sleep as long as this thread does not hold the lock.
    #[verifier::external_body]
    fn fetch_sub(&self, v: usize, o: Ordering, Tracked(s): Tracked<&mut Shared>) -> (r: usize)
        requires
            old(s).inv(),
            v == 1 && old(s).op, // [C16]
            old(s).lock, // [C16]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == (Shared { ops: r != 1, op: false, owe: m.owe || r == 1, ..m }),
    { unimplemented!() }
}

pub struct Errno { pub e: u16 }
pub mod io {
    pub struct Error { pub e: u16 }
    pub type Result<T> = core::result::Result<T, Error>;
}
impl io::Error { fn io_(self) -> io::Error { self } }
impl Errno { fn io_(self) -> io::Error { io::Error { e: self.e } } }
#[derive(Clone, Copy)]
pub struct PollFlags { pub bits: u16 }
impl PollFlags { fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 } }
pub struct PollFd { pub fd: i32, pub events: u16, pub revents: u16 }
impl PollFd { fn revents(&self) -> (r: PollFlags) ensures r.bits == self.revents { PollFlags { bits: self.revents } } }
/// The locked tables.
pub struct Guard { pub poll_fds: Vec<PollFd> }
#[verifier::external_body] pub struct Mutex { }
pub struct Locked { pub g: Guard }
impl Locked { fn unwrap(self) -> (r: Guard) ensures r == self.g { self.g } }
impl Mutex {
    #[verifier::external_body]
    fn lock(&self, Tracked(s): Tracked<&mut Shared>) -> (r: Locked)
        requires
            old(s).inv(),
            !old(s).lock, // [C16]
            // the thread that sleeps in poll(2) has the lock: it has been told that this operation waits for it
            old(s).op ==> old(s).told, // [C16]
        ensures
            r.g.poll_fds.len() >= 1,
            exists|m: Shared| #[trigger] env_free(*old(s), m) && *final(s) == (Shared { lock: true, polling: false, quiet: false, stuck: false, ..m }),
    { unimplemented!() }
}
/// The end of the guard: drop(g).
#[verifier::external_body]
fn unlock(g: Guard, Tracked(s): Tracked<&mut Shared>)
    requires old(s).inv() && old(s).lock,
    ensures env_free(unlocked(*old(s)), *final(s)),
{ unimplemented!() }
#[verifier::external_body] pub struct Condvar { }
impl Condvar {
    /// Sleeps until woken: only while an operation is announced whose completion will wake it, and not with a
    /// notification in hand.
    #[verifier::external_body]
    fn wait(&self, g: Guard, Tracked(s): Tracked<&mut Shared>) -> (r: Locked)
        requires
            old(s).inv() && old(s).lock,
            old(s).ops, // [C16]
            !old(s).got, // [C07]
        ensures
            r.g.poll_fds.len() >= 1,
            exists|m: Shared| #[trigger] env_free(unlocked(*old(s)), m) && *final(s) == (Shared { lock: true, polling: false, quiet: false, stuck: false, ..m }),
    { unimplemented!() }
    #[verifier::external_body]
    fn notify_one(&self, Tracked(s): Tracked<&mut Shared>)
        requires old(s).inv(),
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == (Shared { owe: false, ..m }),
    { unimplemented!() }
    #[verifier::external_body]
    fn notify_all(&self, Tracked(s): Tracked<&mut Shared>)
        requires old(s).inv(),
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == (Shared { owe: false, ..m }),
    { unimplemented!() }
}
#[verifier::external_body] pub struct Notify { }
impl Notify {
    #[verifier::external_body]
    fn notify(&self, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
        requires old(s).inv(),
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == if r is Ok { Shared { c: true, mine: false, told: true, ..m } } else { Shared { told: true, ..m } },
    { unimplemented!() }
    /// Takes one byte: it may be the one another thread relies on to wake the sleeper, unless there is none.
    #[verifier::external_body]
    fn pop_notification(&self, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
        requires
            old(s).inv(),
            old(s).lock, // [C07 C16]
        ensures final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && (*final(s) == (Shared { c: false, quiet: false, ..m }) || *final(s) == (Shared { c: true, quiet: false, ..m })),
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_all_notifications(&self, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
        requires
            old(s).inv(),
            old(s).lock, // [C07]
        ensures r is Ok, final(s).inv(), exists|m: Shared| #[trigger] env(*old(s), m) && *final(s) == (Shared { c: false, quiet: false, full: false, ..m }), // unit poll-new
    { unimplemented!() }
}
/// poll(2): this thread sleeps; it has to be wakeable by every notification, and must not hold one already.
#[verifier::external_body]
fn poll(fds: &mut Vec<PollFd>, timeout_ms: i32, Tracked(s): Tracked<&mut Shared>) -> (r: Result<usize, Errno>)
    requires
        old(s).inv() && old(s).lock,
        old(s).backed(), // [C07]
        !old(s).got, // [C07]
        !old(s).op && !old(s).owe, // [C16]
        old(s).quiet, // [C16]
        // it would return at once, again and again
        !old(s).full, // [C05 C08]
        old(fds).len() >= 1,
    ensures
        final(fds).len() == old(fds).len(),
        r is Ok && final(fds)@[0].revents != 0 ==> r->Ok_0 >= 1,
        exists|m: Shared| #[trigger] env_locked(*old(s), m) && *final(s) == (Shared { fresh: false, full: final(fds)@[0].revents != 0, idle: r is Ok && r->Ok_0 == 1 && final(fds)@[0].revents != 0, ..m }),
{ unimplemented!() }
#[verifier::external_body] fn some_timeout() -> i32 { unimplemented!() }
pub struct Events { pub inner: Inner }
#[verifier::external_body] pub struct Inner { }
impl Inner { #[verifier::external_body] fn clear(&mut self) { unimplemented!() } }
/// The change of the tables (unit poll-ops).
#[verifier::external_body] pub struct Op { }
impl Op {
    pub uninterp spec fn result(self) -> io::Result<()>;
    #[verifier::external_body]
    fn run(self, fds: &mut Guard, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
        requires
            old(s).lock && old(s).op, // [C16]
        ensures r == self.result(), *final(s) == (Shared { ran: true, ..*old(s) }),
    { unimplemented!() }
}
#[verifier::external_body] fn collect(fds: &mut Guard, events: &mut Events, n: usize) { unimplemented!() }

pub struct Poller { pub fds: Mutex, pub notify: Notify, pub waiting_operations: AtomicUsize, pub notified: AtomicBool, pub operations_complete: Condvar }

impl Poller {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn wait(&self, events: &mut Events, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
    requires old(s).inv(), !old(s).full, !old(s).idle, !old(s).mine, !old(s).lock, !old(s).got, !old(s).op, !old(s).owe,
    ensures
        // a notification that was taken ends this wait
        final(s).got ==> r is Ok, // [C07]
        // what wakes a sleeper for an operation does not end its wait
        r is Ok && !final(s).got ==> !final(s).idle, // [C05]
        // a wait that ends has looked at the flag after its last sleep: it takes the notifications there were
        r is Ok ==> final(s).fresh, // [C08]
        !final(s).mine && !final(s).op && !final(s).owe && final(s).inv(), // [C07 C16]
{
//@BODY wait
}
fn notify(&self, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
    requires old(s).inv(), !old(s).mine, !old(s).lock, !old(s).op, !old(s).owe, !old(s).got,
    ensures
        !final(s).got, // [C07]
        // the flag is up, and the pipe will wake the sleeper, unless a wait has taken the notification
        r is Ok ==> !final(s).mine && (final(s).n || final(s).w > old(s).w), // [C07]
        !final(s).lock && !final(s).owe && final(s).inv(), // [C07]
{
//@BODY notify
}
fn modify_fds(&self, f: Op, Tracked(s): Tracked<&mut Shared>) -> (r: io::Result<()>)
    requires old(s).inv(), !old(s).mine, !old(s).lock, !old(s).op, !old(s).owe, !old(s).ran, !old(s).got,
    ensures
        // it takes no notification
        !final(s).got, // [C07]
        // the change is made, and its result is the result
        final(s).ran && r == f.result(), // [C10 C17]
        // the announcement is withdrawn, and a wait that sleeps because of it is woken
        !final(s).op && !final(s).owe && final(s).inv(), // [C16]
        !final(s).mine, // [C07]
{
//@BODY modify_fds
}
}
} // verus!
fn main() {}

//@SNIPPET loop_inv
    invariant
        !s.stuck, // [C16]
        !s.full, // [C05 C08]
        s.inv() && s.lock && !s.mine && !s.op && !s.owe, // [C07 C16]
        !s.got, // [C07]
        fds.poll_fds.len() >= 1,
//@END
//@SNIPPET outer_ens
    ensures
        s.fresh, // [C08]
        !s.got ==> !s.idle, // [C05]
        s.inv() && s.lock && !s.mine && !s.op && !s.owe, // [C07 C16]
//@END
//@SNIPPET inner_ens
    ensures
        s.inv() && s.lock && !s.mine && !s.op && !s.owe, // [C07 C16]
        !s.got, // [C07]
        s.backed(), // [C07]
        s.quiet, // [C16]
        !s.full, // [C05 C08]
        fds.poll_fds.len() >= 1,
//@END
