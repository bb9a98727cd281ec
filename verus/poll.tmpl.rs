// Contracts for the poll backend. The bodies between the //@ markers are cut out of /repo/src/poll.rs by
// tools/verus.py on every run; everything else in this file is specification or an assumed contract.
use vstd::prelude::*;
use std::time::Duration;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- assumed contracts: std, rustix
pub type RawFd = i32;

#[derive(Clone, Copy)]
pub struct PollFlags { pub bits: u16 }
impl vstd::std_specs::ops::BitOrSpecImpl for PollFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: PollFlags) -> bool { true }
    open spec fn bitor_spec(self, rhs: PollFlags) -> PollFlags { PollFlags { bits: self.bits | rhs.bits } }
}
impl std::ops::BitOr for PollFlags {
    type Output = PollFlags;
    fn bitor(self, o: PollFlags) -> (r: PollFlags) { PollFlags { bits: self.bits | o.bits } }
}
impl PollFlags {
    pub const IN: PollFlags = PollFlags { bits: 0x1 };
    pub const PRI: PollFlags = PollFlags { bits: 0x2 };
    pub const OUT: PollFlags = PollFlags { bits: 0x4 };
    pub const ERR: PollFlags = PollFlags { bits: 0x8 };
    pub const HUP: PollFlags = PollFlags { bits: 0x10 };
    pub const NVAL: PollFlags = PollFlags { bits: 0x20 };
    pub const RDNORM: PollFlags = PollFlags { bits: 0x40 };
    pub const RDBAND: PollFlags = PollFlags { bits: 0x80 };
    pub const WRNORM: PollFlags = PollFlags { bits: 0x100 };
    pub const WRBAND: PollFlags = PollFlags { bits: 0x200 };
    fn bits(&self) -> (r: u16) ensures r == self.bits { self.bits }
    fn contains(&self, o: PollFlags) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { self.bits & o.bits == o.bits }
    fn empty() -> (r: PollFlags) ensures r.bits == 0 { PollFlags { bits: 0 } }
    fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }
    fn intersects(&self, o: PollFlags) -> (r: bool) ensures r == (self.bits & o.bits != 0) { self.bits & o.bits != 0 }
}

#[derive(Clone, Copy)]
pub struct BorrowedFd { pub fd: RawFd }
impl BorrowedFd {
    unsafe fn borrow_raw(fd: RawFd) -> (r: BorrowedFd) ensures r.fd == fd { BorrowedFd { fd } }
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
}
pub struct PollFd { pub fd: RawFd, pub events: u16, pub revents: u16 }
impl PollFd {
    fn from_borrowed_fd(fd: BorrowedFd, events: PollFlags) -> (r: PollFd)
        ensures r.fd == fd.fd, r.events == events.bits, r.revents == 0
    { PollFd { fd: fd.fd, events: events.bits, revents: 0 } }
    fn as_fd(&self) -> (r: BorrowedFd) ensures r.fd == self.fd { BorrowedFd { fd: self.fd } }
    fn revents(&self) -> (r: PollFlags) ensures r.bits == self.revents { PollFlags { bits: self.revents } }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<V> View for HashMap<RawFd, V> { type V = Map<RawFd, V>; uninterp spec fn view(&self) -> Map<RawFd, V>; }
impl<V> HashMap<RawFd, V> {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &RawFd) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: RawFd, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &RawFd) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &RawFd) -> (r: Option<&V>)
        ensures match r { None => !self@.contains_key(*k), Some(v) => self@.contains_key(*k) && *v == self@[*k] } { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &RawFd) -> (r: Option<&mut V>)
        ensures match r {
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        } { unimplemented!() }
    // The order in which `values_mut()` visits the entries: each exactly once, any order.
    #[verifier::external_body]
    fn order(&self) -> (r: Vec<RawFd>) ensures r@.no_duplicates(), r@.to_set() == self@.dom() { unimplemented!() }
}

/// Another map of std is as good: the order of visits is left open.
pub type BTreeMap<K, V> = HashMap<K, V>;

pub mod io {
    use vstd::prelude::*;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum ErrorKind { NotFound, AlreadyExists, InvalidInput, Unsupported, Other }
    pub struct Error { pub kind: ErrorKind, pub errno: int }
    pub type Result<T> = core::result::Result<T, Error>;
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { kind: k, errno: 0 } }
    }
    impl From<ErrorKind> for Error {
        #[verifier::external_body]
        fn from(k: ErrorKind) -> (r: Error) { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<super::Errno> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: super::Errno) -> Error { Error { kind: ErrorKind::Other, errno: k.errno as int } }
    }
    impl From<super::Errno> for Error {
        #[verifier::external_body]
        fn from(k: super::Errno) -> (r: Error) { unimplemented!() }
    }
}
pub struct Errno { pub errno: u16 }

#[verifier::external_body]
pub fn unsupported_error(m: &str) -> (r: io::Error) ensures r.kind is Unsupported { unimplemented!() }

// ---------------------------------------------------------------- the repository's types (ghost mirror)
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }
#[derive(Clone, Copy)]
pub struct EventExtra { pub flags: PollFlags }
#[derive(Clone, Copy)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
//@TYPES

// Contracts of the three mask functions; the unit poll-masks (pollmasks.tmpl.rs) discharges them.
pub uninterp spec fn flags_of(ev: Event) -> u16;
#[verifier::external_body]
fn poll_events(ev: Event) -> (r: PollFlags) ensures r.bits == flags_of(ev) { unimplemented!() }
pub uninterp spec fn read_mask() -> u16;
pub uninterp spec fn write_mask() -> u16;
#[verifier::external_body]
fn read_events() -> (r: PollFlags) ensures r.bits == read_mask() { unimplemented!() }
#[verifier::external_body]
fn write_events() -> (r: PollFlags) ensures r.bits == write_mask() { unimplemented!() }

pub open spec fn supported(m: PollMode) -> bool { m is Oneshot || m is Level }

fn cvt_mode_as_remove(mode: PollMode) -> (r: io::Result<bool>)
    ensures
        r is Ok <==> supported(mode), // [C03]
        r is Ok ==> r->Ok_0 == (mode is Oneshot), // [C03]
        r is Err ==> r->Err_0.kind is Unsupported,
{
//@BODY cvt
}

// ---------------------------------------------------------------- abstract state
pub struct Reg { pub key: usize, pub events: u16, pub oneshot: bool }
impl Fds {
    /// The two tables describe the same set of sources, one entry each; entry 0 is the wake-up descriptor.
    pub open spec fn inv(&self) -> bool {
        &&& self.poll_fds@.len() >= 1
        &&& forall|fd: RawFd| #[trigger] self.fd_data@.contains_key(fd) ==> {
            let i = self.fd_data@[fd].poll_fds_index as int;
            1 <= i < self.poll_fds@.len() && self.poll_fds@[i].fd == fd }
        &&& forall|i: int| 1 <= i < self.poll_fds@.len() ==> {
            let fd = (#[trigger] self.poll_fds@[i]).fd;
            self.fd_data@.contains_key(fd) && self.fd_data@[fd].poll_fds_index == i }
    }
    /// What is registered: fd -> (key, interest given to the system, oneshot).
    pub open spec fn view(&self) -> Map<RawFd, Reg> {
        Map::new(self.fd_data@.dom(), |fd: RawFd| {
            let d = self.fd_data@[fd];
            Reg { key: d.key, events: self.poll_fds@[d.poll_fds_index as int].events, oneshot: d.remove } })
    }
    pub open spec fn wake(&self) -> (RawFd, u16) { (self.poll_fds@[0].fd, self.poll_fds@[0].events) }
    pub open spec fn revents(&self, fd: RawFd) -> u16 { self.poll_fds@[self.fd_data@[fd].poll_fds_index as int].revents }
    pub open spec fn hit(&self) -> spec_fn(RawFd) -> bool { |fd: RawFd| self.revents(fd) != 0 }
}

//@IF poll-ops
// ---------------------------------------------------------------- operations
fn add_locked(fds: &mut Fds, fd: RawFd, ev: Event, mode: PollMode) -> (r: io::Result<()>)
    requires old(fds).inv(),
    ensures
        final(fds).inv(), // [C10 C12]
        final(fds).wake() == old(fds).wake(), // [C04 C12]
        r is Ok <==> !old(fds)@.contains_key(fd) && supported(mode), // [C03 C10]
        r is Ok ==> final(fds)@.contains_key(fd) && final(fds)@[fd].key == ev.key && final(fds)@[fd].events == flags_of(ev), // [C01 C10]
        r is Ok ==> final(fds)@[fd].oneshot == (mode is Oneshot), // [C03]
        r is Ok ==> final(fds)@.remove(fd) =~= old(fds)@.remove(fd), // [C12]
        r is Err ==> final(fds)@ =~= old(fds)@, // [C11]
        old(fds)@.contains_key(fd) ==> r is Err && r->Err_0.kind is AlreadyExists, // [C10]
{
//@BODY add
}

fn modify_locked(fds: &mut Fds, fd: BorrowedFd, ev: Event, mode: PollMode) -> (r: io::Result<()>)
    requires old(fds).inv(),
    ensures
        final(fds).inv(), // [C10 C12]
        final(fds).wake() == old(fds).wake(), // [C04 C12]
        r is Ok <==> old(fds)@.contains_key(fd.fd) && supported(mode), // [C03 C10]
        r is Ok ==> final(fds)@.contains_key(fd.fd) && final(fds)@[fd.fd].key == ev.key && final(fds)@[fd.fd].events == flags_of(ev), // [C01 C10]
        r is Ok ==> final(fds)@[fd.fd].oneshot == (mode is Oneshot), // [C03]
        r is Ok ==> final(fds)@.remove(fd.fd) =~= old(fds)@.remove(fd.fd), // [C12]
        r is Err ==> final(fds)@ =~= old(fds)@, // [C11]
{
//@BODY modify
}

fn delete_locked(fds: &mut Fds, fd: BorrowedFd) -> (r: io::Result<()>)
    requires old(fds).inv(),
    ensures
        final(fds).inv(), // [C10 C12]
        final(fds).wake() == old(fds).wake(), // [C04 C12]
        r is Ok <==> old(fds)@.contains_key(fd.fd), // [C10]
        r is Ok ==> final(fds)@ =~= old(fds)@.remove(fd.fd), // [C10 C12]
        r is Err ==> final(fds)@ =~= old(fds)@, // [C11]
{
//@BODY delete
}

//@FI
//@IF poll-wait
// ---------------------------------------------------------------- collecting events
#[verifier::external_body]
pub struct Deadline { }
pub struct Events { pub inner: Vec<Event> }

pub open spec fn event_of(key: usize, rev: u16) -> Event {
    Event { key, readable: rev & read_mask() != 0, writable: rev & write_mask() != 0,
            extra: EventExtra { flags: PollFlags { bits: rev } } }
}
/// The events are one per source whose revents is not empty, in some order, with its key and its own flags.
pub open spec fn delivered(snap: Fds, evs: Seq<Event>) -> bool {
    exists|order: Seq<RawFd>| {
        &&& #[trigger] order.no_duplicates()
        &&& order.len() == evs.len()
        &&& forall|fd: RawFd| order.contains(fd) <==> snap.fd_data@.contains_key(fd) && snap.revents(fd) != 0
        &&& forall|i: int| 0 <= i < evs.len() ==> #[trigger] evs[i] == event_of(snap.fd_data@[order[i]].key, snap.revents(order[i]))
    }
}
/// After delivery only the interest of delivered oneshot sources is gone.
pub open spec fn disarmed(snap: Fds, after: Fds) -> bool {
    after@ =~= Map::new(snap.fd_data@.dom(), |fd: RawFd| Reg {
        events: if snap.revents(fd) != 0 && snap.fd_data@[fd].remove { 0u16 } else { snap@[fd].events }, ..snap@[fd] })
}
proof fn lemma_full(a: Set<RawFd>, b: Set<RawFd>)
    requires a.subset_of(b), a.len() == b.len(),
    ensures a =~= b,
{
    assert forall|x: RawFd| b.contains(x) implies a.contains(x) by {
        if !a.contains(x) {
            assert(a.subset_of(b.remove(x)));
            vstd::set_lib::lemma_len_subset(a, b.remove(x));
        }
    }
}

/// What poll(2) counts: the entries below `n` whose revents is not empty.
pub open spec fn counted(s: Seq<PollFd>, n: nat) -> nat
    decreases n,
{
    if n == 0 || n > s.len() { 0 } else { counted(s, (n - 1) as nat) + (if s[n - 1].revents != 0 { 1nat } else { 0nat }) }
}
pub open spec fn hits(f: Fds, n: nat) -> Set<RawFd>
    decreases n,
{
    if n <= 1 || n > f.poll_fds@.len() { Set::empty() }
    else if f.poll_fds@[n - 1].revents != 0 { hits(f, (n - 1) as nat).insert(f.poll_fds@[n - 1].fd) }
    else { hits(f, (n - 1) as nat) }
}
proof fn lemma_hits(f: Fds, n: nat)
    requires f.inv(), 1 <= n <= f.poll_fds@.len(),
    ensures
        hits(f, n).len() + (if f.poll_fds@[0].revents != 0 { 1nat } else { 0nat }) == counted(f.poll_fds@, n),
        forall|fd: RawFd| #[trigger] hits(f, n).contains(fd) <==> f.fd_data@.contains_key(fd) && f.fd_data@[fd].poll_fds_index < n && f.revents(fd) != 0,
    decreases n,
{
    if n == 1 {
        assert(counted(f.poll_fds@, 0) == 0);
        assert(counted(f.poll_fds@, 1) == if f.poll_fds@[0].revents != 0 { 1nat } else { 0nat });
    } else {
        lemma_hits(f, (n - 1) as nat);
        let fd0 = f.poll_fds@[n - 1].fd;
        assert(f.fd_data@.contains_key(fd0) && f.fd_data@[fd0].poll_fds_index == n - 1);
        assert(!hits(f, (n - 1) as nat).contains(fd0));
    }
}

// Ghost markers: a state some acquisition of the lock produced, and a state a call of poll(2) produced.
pub uninterp spec fn acquired(f: Fds) -> bool;
pub uninterp spec fn polled(s: Seq<PollFd>) -> bool;

pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
#[verifier::external_body] pub struct AtomicBool { }
impl AtomicBool {
    // Other threads may write at any time: no assumption on the value.
    #[verifier::external_body] fn swap(&self, v: bool, o: Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] fn load(&self, o: Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] fn store(&self, v: bool, o: Ordering) { unimplemented!() }
}
#[verifier::external_body] pub struct AtomicUsize { }
impl AtomicUsize {
    #[verifier::external_body] fn load(&self, o: Ordering) -> usize { unimplemented!() }
}
#[verifier::external_body] pub struct Condvar { }
impl Condvar {
    // Releases the lock (so the invariant must hold) and acquires it again: any state satisfying the invariant.
    #[verifier::external_body]
    fn wait(&self, g: &mut Fds)
        requires old(g).inv(),
        ensures final(g).inv(), acquired(*final(g)),
    { unimplemented!() }
}
#[verifier::external_body] pub struct Notify { }
impl Notify {
    #[verifier::external_body] fn pop_notification(&self) -> io::Result<()> { unimplemented!() }
    #[verifier::external_body] fn pop_all_notifications(&self) -> io::Result<()> { unimplemented!() }
}
pub struct Poller { pub notify: Notify, pub waiting_operations: AtomicUsize, pub notified: AtomicBool, pub operations_complete: Condvar }

/// How many sources the last call of poll(2) found ready.
pub tracked struct Ready { pub ghost n: int }
// poll(2): may write any revents, counts the non-empty ones, touches nothing else.
#[verifier::external_body]
fn poll(fds: &mut Vec<PollFd>, timeout_ms: i32, Tracked(q): Tracked<&mut Ready>) -> (r: Result<usize, Errno>)
    ensures
        final(q).n == if r is Ok { counted(final(fds)@, final(fds)@.len()) - (if final(fds)@[0].revents != 0 { 1int } else { 0 }) } else { 0 },
        final(fds)@.len() == old(fds)@.len(),
        forall|i: int| 0 <= i < old(fds)@.len() ==> (#[trigger] final(fds)@[i]).fd == old(fds)@[i].fd && final(fds)@[i].events == old(fds)@[i].events,
        r is Ok ==> r->Ok_0 == counted(final(fds)@, final(fds)@.len()) && polled(final(fds)@),
{ unimplemented!() }
#[verifier::external_body] fn some_timeout() -> i32 { unimplemented!() }

/// What a successful wait did, seen from the last time it acquired the lock.
pub open spec fn waited(after: Fds, evs: Seq<Event>) -> bool {
    ||| evs.len() == 0 && exists|base: Fds| #[trigger] acquired(base) && after@ =~= base@ && after.wake() == base.wake()
    ||| exists|base: Fds, snap: Fds| {
        &&& #[trigger] acquired(base)
        &&& #[trigger] polled(snap.poll_fds@)
        &&& snap@ =~= base@
        &&& snap.wake() == base.wake() && after.wake() == base.wake()
        &&& delivered(snap, evs)
        &&& disarmed(snap, after)
    }
}

impl Poller {
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(100)]
fn wait_locked(&self, guard: &mut Fds, events: &mut Events, Tracked(q): Tracked<&mut Ready>) -> (r: io::Result<()>)
    requires old(guard).inv(), acquired(*old(guard)), old(q).n == 0,
    ensures
        // every source that was found ready is reported, also when there is a notification
        r is Ok ==> final(events).inner@.len() == final(q).n, // [C01 C13]
        final(guard).inv(), // [C10 C12]
        r is Ok ==> waited(*final(guard), final(events).inner@), // [C01 C03 C12 C13]
        r is Err ==> final(events).inner@.len() == 0 && (exists|base: Fds| #[trigger] acquired(base) && final(guard)@ =~= base@ && final(guard).wake() == base.wake()), // [C11 C13]
{
//@BODY wait
}
}
//@FI
} // verus!
fn main() {}

//@IF poll-wait
//@SNIPPET outer_inv
    invariant
        fds.inv(), acquired(base), // [C10 C12]
        events.inner@.len() == 0, // [C13]
        q.n == 0, // [C01 C13]
        fds@ =~= base@, // [C12]
        fds.wake() == base.wake(), // [C04 C12]
    ensures
        fds.inv(), // [C10 C12]
        waited(*fds, events.inner@), // [C01 C03 C12 C13]
        events.inner@.len() == q.n, // [C01 C13]
//@END
//@SNIPPET inner_inv
    invariant
        fds.inv(), acquired(base), // [C10 C12]
        events.inner@.len() == 0, // [C13]
        q.n == 0, // [C01 C13]
        fds@ =~= base@, // [C12]
        fds.wake() == base.wake(), // [C04 C12]
//@END
//@SNIPPET polled
    proof { lemma_hits(*fds, fds.poll_fds@.len()); }
//@END
//@SNIPPET collect_before
    let ghost hits = hits(*fds, fds.poll_fds@.len());
    let ghost snap = *fds;
    proof {
        assert(snap@ =~= base@);
        assert(polled(snap.poll_fds@));
        if num_fd_events == 0 {
            assert(hits =~= Set::<RawFd>::empty());
            let e = Seq::<RawFd>::empty();
            assert(e.no_duplicates());
            assert forall|fd: RawFd| snap.fd_data@.contains_key(fd) implies snap.revents(fd) == 0 by {
                if snap.revents(fd) != 0 { assert(hits.contains(fd)); }
            }
            assert(delivered(snap, events.inner@));
            assert(disarmed(snap, *fds)); // [C03 C12]
        }
    }
//@END
//@SNIPPET collect_head
    let order_ = fds.fd_data.order();
    let mut it_: usize = 0;
    let ghost mut done: Seq<RawFd> = Seq::empty();
    while it_ < order_.len()
      invariant
        it_ <= order_.len(), // [C13]
        fds.fd_data@ =~= snap.fd_data@, // [C01 C12]
        fds.poll_fds@.len() == snap.poll_fds@.len(), // [C12]
        fds.poll_fds@[0] == snap.poll_fds@[0], // [C04 C12]
        forall|k: int| 0 <= k < order_.len() ==> { // [C03 C12]
            let fd = #[trigger] order_@[k]; let i = snap.fd_data@[fd].poll_fds_index as int;
            fds.poll_fds@[i] == if k < it_ && snap.revents(fd) != 0 && snap.fd_data@[fd].remove { PollFd { fd, events: 0, revents: 0 } } else { snap.poll_fds@[i] } },
        done.no_duplicates(), // [C13]
        forall|k: int| 0 <= k < done.len() ==> order_@.take(it_ as int).contains(#[trigger] done[k]) && snap.revents(done[k]) != 0, // [C13]
        forall|k: int| 0 <= k < it_ && snap.revents(#[trigger] order_@[k]) != 0 ==> done.contains(order_@[k]), // [C13]
        events.inner@.len() == done.len(), // [C01 C13]
        forall|k: int| 0 <= k < done.len() ==> #[trigger] events.inner@[k] == event_of(snap.fd_data@[done[k]].key, snap.revents(done[k])), // [C01 C02]
      ensures it_ >= order_.len() || events.inner@.len() == num_fd_events, // [C13]
      decreases order_.len() - it_,
    {
    proof {
        let fd0 = order_@[it_ as int];
        assert(order_@.to_set().contains(fd0));
        assert(order_@.take(it_ as int + 1) =~= order_@.take(it_ as int).push(fd0));
        assert(forall|x: RawFd| order_@.take(it_ as int).contains(x) ==> order_@.take(it_ as int + 1).contains(x)) by {
            assert forall|x: RawFd| order_@.take(it_ as int).contains(x) implies order_@.take(it_ as int + 1).contains(x) by {
                let j = order_@.take(it_ as int).index_of(x);
                assert(order_@.take(it_ as int + 1)[j] == x);
            }
        }
        assert(order_@.take(it_ as int + 1)[it_ as int] == fd0);
        if snap.revents(fd0) != 0 {
            assert(!done.contains(fd0)) by {
                if done.contains(fd0) {
                    let j = done.index_of(fd0);
                    assert(order_@.take(it_ as int).contains(done[j]));
                    let i = order_@.take(it_ as int).index_of(fd0);
                    assert(order_@[i] == fd0);
                }
            }
            let old_done = done;
            done = done.push(fd0);
            assert(done[done.len() - 1] == fd0);
            assert(forall|x: RawFd| old_done.contains(x) ==> done.contains(x)) by {
                assert forall|x: RawFd| old_done.contains(x) implies done.contains(x) by {
                    let j = old_done.index_of(x); assert(done[j] == x);
                }
            }
        }
        // entries of different sources are different
        assert forall|k: int| 0 <= k < order_.len() && k != it_ implies
            snap.fd_data@[#[trigger] order_@[k]].poll_fds_index != snap.fd_data@[fd0].poll_fds_index by {
            assert(order_@.to_set().contains(order_@[k]));
            assert(order_@[k] != fd0);
        }
    }
    let %s = fds.fd_data.get_mut(&order_[it_]).unwrap();
    it_ = it_ + 1;
//@END
//@SNIPPET collect_after
    proof {
        assert(done.to_set().subset_of(hits)) by {
            assert forall|x: RawFd| done.to_set().contains(x) implies hits.contains(x) by {
                let j = done.index_of(x);
                assert(order_@.take(it_ as int).contains(done[j]));
                let i = order_@.take(it_ as int).index_of(x);
                assert(order_@.to_set().contains(order_@[i]));
            }
        }
        assert(done.to_set() =~= hits) by { // [C01 C13]
            if it_ >= order_.len() {
                assert forall|x: RawFd| hits.contains(x) implies done.to_set().contains(x) by {
                    assert(order_@.to_set().contains(x));
                    let i = order_@.index_of(x);
                    assert(done.contains(order_@[i]));
                }
            } else {
                done.unique_seq_to_set();
                lemma_full(done.to_set(), hits); // [C01 C13]
            }
        }
        done.unique_seq_to_set();
        assert(done.len() == hits.len());
        assert(forall|x: RawFd| done.contains(x) <==> done.to_set().contains(x));
        assert(delivered(snap, events.inner@)) /* [C01 C02 C13] */ by { assert(done.no_duplicates()); }
        assert(forall|fd: RawFd| #[trigger] snap.fd_data@.contains_key(fd) ==> order_@.to_set().contains(fd));
        assert forall|fd: RawFd| #[trigger] snap.fd_data@.contains_key(fd) implies ({ // [C03 C12]
            let i = snap.fd_data@[fd].poll_fds_index as int;
            fds.poll_fds@[i] == if snap.revents(fd) != 0 && snap.fd_data@[fd].remove { PollFd { fd, events: 0, revents: 0 } } else { snap.poll_fds@[i] } }) by {
            let k = order_@.index_of(fd);
            assert(order_@[k] == fd);
            if k >= it_ {
                if hits.contains(fd) {
                    assert(done.contains(fd));
                    let j = done.index_of(fd);
                    assert(order_@.take(it_ as int).contains(done[j]));
                    let i = order_@.take(it_ as int).index_of(fd);
                    assert(order_@[i] == fd);
                }
            }
        }
        assert forall|i: int| 1 <= i < fds.poll_fds@.len() implies (#[trigger] fds.poll_fds@[i]).fd == snap.poll_fds@[i].fd by {
            let fd = snap.poll_fds@[i].fd;
            assert(snap.fd_data@.contains_key(fd));
        }
        assert(disarmed(snap, *fds)); // [C03 C12]
    }
//@END
//@FI
