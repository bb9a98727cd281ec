// The kqueue backend (the BSDs, macOS) and its filters.  The bodies at the //@BODY markers are cut out of
// /repo/src/kqueue.rs and /repo/src/os/kqueue.rs by tools/verus.py on every run; everything else is specification or an
// assumed contract of kevent(2) as rustix wraps it.  There is no such system here: the contracts come from its manual
// pages and rustix's source.  Unit kqueue has the notifier of FreeBSD and macOS (a user event), kqueue-pipe the other.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub const NOTIFY_KEY: usize = usize::MAX;
pub type RawFd = i32;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub s: u64, pub n: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, InvalidInput, Interrupted, Unsupported, WouldBlock, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    pub struct Error { pub kind: ErrorKind, pub ghost errno: int }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn io_(self) -> (r: Error) ensures r == self { self }
        #[verifier::external_body]
        pub fn from(k: ErrorKind) -> (r: Error) ensures r.kind == k, r.errno == -1 { unimplemented!() }
        #[verifier::external_body]
        pub fn from_raw_os_error(e: i64) -> (r: Error) ensures r.errno == e { unimplemented!() }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Errno { pub e: u16 }
impl Errno {
    // the same on all these systems
    pub const PERM: Errno = Errno { e: 1 };
    pub const NOENT: Errno = Errno { e: 2 };
    pub const SRCH: Errno = Errno { e: 3 };
    pub const INTR: Errno = Errno { e: 4 };
    pub const BADF: Errno = Errno { e: 9 };
    pub const NOMEM: Errno = Errno { e: 12 };
    pub const EXIST: Errno = Errno { e: 17 };
    pub const INVAL: Errno = Errno { e: 22 };
    pub const PIPE: Errno = Errno { e: 32 };
    pub const AGAIN: Errno = Errno { e: 35 };
    pub fn raw_os_error(self) -> (r: i64) ensures r == self.e { self.e as i64 }
    #[verifier::external_body]
    fn io_(self) -> (r: io::Error) ensures r.errno == self.e { unimplemented!() }
}
pub struct OwnedFd { pub fd: RawFd }
#[derive(Clone, Copy)]
pub struct BorrowedFd { pub fd: RawFd }
impl OwnedFd {
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
    fn as_fd(&self) -> (r: BorrowedFd) ensures r.fd == self.fd { BorrowedFd { fd: self.fd } }
}
impl BorrowedFd {
    unsafe fn borrow_raw(fd: RawFd) -> (r: BorrowedFd) ensures r.fd == fd { BorrowedFd { fd } }
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
}
#[derive(Clone, Copy)]
pub struct FdFlags { pub cloexec: bool, pub other: u32 }
impl FdFlags {
    pub const CLOEXEC: FdFlags = FdFlags { cloexec: true, other: 0 };
    fn empty() -> (r: FdFlags) ensures !r.cloexec && r.other == 0 { FdFlags { cloexec: false, other: 0 } }
}
pub struct Child { pub id: i32 }
pub struct NonZeroI32 { pub v: i32 }
impl NonZeroI32 { pub fn get(&self) -> (r: i32) ensures r == self.v { self.v } }
pub uninterp spec fn signal(n: int) -> bool;
pub mod process {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct Pid { pub p: i32 }
    impl Pid {
        pub fn from_child(c: &super::Child) -> (r: Pid) ensures r.p == c.id { Pid { p: c.id } }
        pub unsafe fn from_raw_unchecked(p: i32) -> (r: Pid) ensures r.p == p { Pid { p } }
    }
    #[derive(Clone, Copy)]
    pub struct Signal { pub n: i32 }
    impl Signal {
        #[verifier::external_body]
        pub fn from_raw(n: i32) -> (r: Option<Signal>) ensures super::signal(n as int) ==> r == Some(Signal { n }), !super::signal(n as int) ==> r is None { unimplemented!() }
    }
}

// ---------------------------------------------------------------- assumed contracts: kqueue
/// What a filter watches: (which kind, ident).  A kqueue has at most one filter for it.
pub ghost struct Id { pub kind: int, pub n: int }
/// What the last accepted request for a filter asked.
pub ghost struct Entry { pub f: kqueue::EventFilter, pub key: usize, pub oneshot: bool, pub clear: bool, pub disabled: bool, pub pending: bool }
pub tracked struct Kernel {
    pub ghost kq: int,
    pub ghost cloexec: bool,
    pub ghost filters: Map<Id, Entry>,
    /// the receipts of the changes: 0 or the number of the error
    pub ghost rc: Seq<int>,
    pub ghost waits: Seq<Option<Duration>>,
    /// the set of sources the poller keeps
    pub ghost srcs: Set<SourceId>,
    /// result of the system calls made for the user
    pub ghost failed: Option<int>,
    /// the socket pair: its descriptors, those that do not block, the bytes in it, whether a read or a write failed
    pub ghost pair: (int, int),
    pub ghost nb: Set<int>,
    pub ghost bytes: nat,
    pub ghost rwfail: bool,
}
pub open spec fn outcome<T>(a: Kernel, b: Kernel, r: Result<T, Errno>) -> bool {
    b.failed == if a.failed is None && r is Err { Some(r->Err_0.e as int) } else { a.failed }
}
/// Nothing but the filters, the receipts and the result changes.
pub open spec fn frame(a: Kernel, b: Kernel) -> bool {
    a.kq == b.kq && a.cloexec == b.cloexec && a.srcs =~= b.srcs && a.pair == b.pair && a.nb == b.nb && a.bytes == b.bytes && a.rwfail == b.rwfail && a.waits == b.waits
}
pub mod kqueue {
    use vstd::prelude::*;
    use super::{Kernel, Id, Entry, OwnedFd, RawFd, Errno, Duration, outcome, frame, List};
    use super::process::{Pid, Signal};
    #[derive(Clone, Copy)]
    pub struct EventFlags { pub add: bool, pub delete: bool, pub receipt: bool, pub oneshot: bool, pub clear: bool, pub disable: bool, pub enable: bool, pub eof: bool, pub error: bool }
    pub const NONE: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: false, clear: false, disable: false, enable: false, eof: false, error: false };
    impl EventFlags {
        pub const ADD: EventFlags = EventFlags { add: true, delete: false, receipt: false, oneshot: false, clear: false, disable: false, enable: false, eof: false, error: false };
        pub const DELETE: EventFlags = EventFlags { add: false, delete: true, receipt: false, oneshot: false, clear: false, disable: false, enable: false, eof: false, error: false };
        pub const RECEIPT: EventFlags = EventFlags { add: false, delete: false, receipt: true, oneshot: false, clear: false, disable: false, enable: false, eof: false, error: false };
        pub const ONESHOT: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: true, clear: false, disable: false, enable: false, eof: false, error: false };
        pub const CLEAR: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: false, clear: true, disable: false, enable: false, eof: false, error: false };
        pub const DISABLE: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: false, clear: false, disable: true, enable: false, eof: false, error: false };
        pub const ENABLE: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: false, clear: false, disable: false, enable: true, eof: false, error: false };
        pub const EOF: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: false, clear: false, disable: false, enable: false, eof: true, error: false };
        pub const ERROR: EventFlags = EventFlags { add: false, delete: false, receipt: false, oneshot: false, clear: false, disable: false, enable: false, eof: false, error: true };
        pub const fn empty() -> (r: EventFlags) ensures r == NONE { NONE }
        pub open spec fn or(self, o: EventFlags) -> EventFlags {
            EventFlags { add: self.add || o.add, delete: self.delete || o.delete, receipt: self.receipt || o.receipt, oneshot: self.oneshot || o.oneshot, clear: self.clear || o.clear,
                disable: self.disable || o.disable, enable: self.enable || o.enable, eof: self.eof || o.eof, error: self.error || o.error }
        }
        pub open spec fn and(self, o: EventFlags) -> EventFlags {
            EventFlags { add: self.add && o.add, delete: self.delete && o.delete, receipt: self.receipt && o.receipt, oneshot: self.oneshot && o.oneshot, clear: self.clear && o.clear,
                disable: self.disable && o.disable, enable: self.enable && o.enable, eof: self.eof && o.eof, error: self.error && o.error }
        }
        #[verifier::external_body]
        pub fn intersects(&self, o: EventFlags) -> (r: bool) ensures r == (self.and(o) != NONE) { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, o: EventFlags) -> (r: bool) ensures r == (self.and(o) == o) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (*self == NONE) { unimplemented!() }
    }
    impl vstd::std_specs::ops::BitOrSpecImpl for EventFlags {
        open spec fn obeys_bitor_spec() -> bool { true }
        open spec fn bitor_req(self, o: EventFlags) -> bool { true }
        open spec fn bitor_spec(self, o: EventFlags) -> EventFlags { self.or(o) }
    }
    impl core::ops::BitOr for EventFlags {
        type Output = EventFlags;
        fn bitor(self, o: EventFlags) -> (r: EventFlags) {
            EventFlags { add: self.add || o.add, delete: self.delete || o.delete, receipt: self.receipt || o.receipt, oneshot: self.oneshot || o.oneshot, clear: self.clear || o.clear,
                disable: self.disable || o.disable, enable: self.enable || o.enable, eof: self.eof || o.eof, error: self.error || o.error }
        }
    }
    #[derive(Clone, Copy)]
    pub struct VnodeEvents { pub b: u32 }
    #[derive(Clone, Copy)]
    pub struct ProcessEvents { pub exits: bool, pub forks: bool, pub execs: bool }
    impl ProcessEvents {
        pub const EXIT: ProcessEvents = ProcessEvents { exits: true, forks: false, execs: false };
        pub const FORK: ProcessEvents = ProcessEvents { exits: false, forks: true, execs: false };
        pub const EXEC: ProcessEvents = ProcessEvents { exits: false, forks: false, execs: true };
    }
    #[derive(Clone, Copy)]
    pub struct UserFlags { pub trigger: bool }
    impl UserFlags {
        pub const TRIGGER: UserFlags = UserFlags { trigger: true };
        pub fn empty() -> (r: UserFlags) ensures !r.trigger { UserFlags { trigger: false } }
    }
    #[derive(Clone, Copy)]
    pub struct UserDefinedFlags { pub v: u32 }
    impl UserDefinedFlags { pub fn new(v: u32) -> (r: UserDefinedFlags) { UserDefinedFlags { v } } }
    /// rustix reports nothing that it does not know the kind of; ident and times are unsigned here.
    #[derive(Clone, Copy)]
    pub enum EventFilter {
        Read(RawFd), Write(RawFd), Empty(RawFd), Vnode { vnode: RawFd, flags: VnodeEvents }, Proc { pid: Pid, flags: ProcessEvents },
        Signal { signal: Signal, times: usize }, Timer { ident: usize, timer: Option<Duration> },
        User { ident: usize, flags: UserFlags, user_flags: UserDefinedFlags }, Unknown,
    }
    #[derive(Clone, Copy)]
    pub struct Event { pub f: EventFilter, pub flags: EventFlags, pub udata: usize, pub data: i64 }
    impl Event {
        #[verifier::external_body]
        pub fn new(f: EventFilter, flags: EventFlags, udata: usize) -> (r: Event)
            requires !(f is Unknown), // [C19]
            ensures r.f == f, r.flags == flags, r.udata == udata,
        { unimplemented!() }
        pub fn flags(&self) -> (r: EventFlags) ensures r == self.flags { self.flags }
        pub fn udata(&self) -> (r: usize) ensures r == self.udata { self.udata }
        pub fn data(&self) -> (r: i64) ensures r == self.data { self.data }
        pub fn filter(&self) -> (r: EventFilter) ensures r == self.f { self.f }
    }
    pub open spec fn id(f: EventFilter) -> Id {
        match f {
            EventFilter::Read(fd) => Id { kind: 1, n: fd as int },
            EventFilter::Write(fd) => Id { kind: 2, n: fd as int },
            EventFilter::Empty(fd) => Id { kind: 3, n: fd as int },
            EventFilter::Vnode { vnode, .. } => Id { kind: 4, n: vnode as int },
            EventFilter::Proc { pid, .. } => Id { kind: 5, n: pid.p as int },
            EventFilter::Signal { signal, .. } => Id { kind: 6, n: signal.n as int },
            EventFilter::Timer { ident, .. } => Id { kind: 7, n: ident as int },
            EventFilter::User { ident, .. } => Id { kind: 8, n: ident as int },
            EventFilter::Unknown => Id { kind: 0, n: 0 },
        }
    }
    /// The filters after one change with receipt d.
    pub open spec fn after(m: Map<Id, Entry>, c: Event, d: int) -> Map<Id, Entry> {
        if d != 0 { m }
        else if c.flags.delete { m.remove(id(c.f)) }
        else if c.flags.add {
            m.insert(id(c.f), Entry { f: c.f, key: c.udata, oneshot: c.flags.oneshot, clear: c.flags.clear, disabled: c.flags.disable,
                pending: c.f is User && (c.f->User_flags.trigger || m.contains_key(id(c.f)) && m[id(c.f)].pending) })
        }
        else { m }
    }
    /// ENOENT: there is nothing to delete.  EPIPE: the other end of the pipe to be written to is closed.
    pub open spec fn receipt(m: Map<Id, Entry>, c: Event, d: int) -> bool {
        &&& d >= 0
        &&& d == 2 ==> c.flags.delete && !m.contains_key(id(c.f))
        &&& d == 32 ==> !c.flags.delete && c.f is Write
    }
    pub open spec fn applied(m: Map<Id, Entry>, c: Seq<Event>, d: Seq<int>) -> Map<Id, Entry>
        decreases c.len()
    {
        if c.len() == 0 { m } else { after(applied(m, c.drop_last(), d.drop_last()), c.last(), d.last()) }
    }
    pub open spec fn valid(m: Map<Id, Entry>, c: Seq<Event>, d: Seq<int>) -> bool
        decreases c.len()
    {
        c.len() == 0 || valid(m, c.drop_last(), d.drop_last()) && receipt(applied(m, c.drop_last(), d.drop_last()), c.last(), d.last())
    }
    /// The event is one of a filter, with the key of that filter.
    pub open spec fn due(k: Kernel, e: Event) -> bool {
        k.filters.contains_key(id(e.f)) && k.filters[id(e.f)].key == e.udata && (e.f is User ==> k.filters[id(e.f)].pending)
    }
    /// One-shot filters go when their event is delivered, and what was pending is delivered once.
    pub open spec fn delivered(a: Map<Id, Entry>, b: Map<Id, Entry>) -> bool {
        &&& forall|i: Id| #[trigger] b.contains_key(i) ==> a.contains_key(i) && (Entry { pending: b[i].pending, ..a[i] }) == b[i]
        &&& forall|i: Id| #[trigger] a.contains_key(i) && !a[i].oneshot ==> b.contains_key(i)
    }
    #[verifier::external_body]
    pub fn kqueue(Tracked(k): Tracked<&mut Kernel>) -> (r: Result<OwnedFd, Errno>)
        ensures
            outcome(*old(k), *final(k), r),
            r is Err ==> *final(k) == (Kernel { failed: final(k).failed, ..*old(k) }),
            r is Ok ==> *final(k) == (Kernel { kq: r->Ok_0.fd as int, cloexec: false, filters: Map::<Id, Entry>::empty(), ..*old(k) }),
    { unimplemented!() }
    /// With changes: every one of them gets its receipt, so that no event is taken out of the queue.  Without: waits.
    #[verifier::external_body]
    pub unsafe fn kevent(kq: &OwnedFd, changes: &[Event], list: &mut List<Event>, timeout: Option<Duration>, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<usize, Errno>)
        requires
            kq.fd == old(k).kq, // [C19]
            old(list).cap() >= changes@.len(), // [C19]
            forall|i: int| 0 <= i < changes@.len() ==> (#[trigger] changes@[i]).flags.receipt, // [C19]
        ensures
            outcome(*old(k), *final(k), r), final(list).cap() == old(list).cap(),
            frame(*old(k), Kernel { waits: old(k).waits, ..*final(k) }),
            final(k).waits == if changes@.len() == 0 { old(k).waits.push(timeout) } else { old(k).waits },
            r is Err ==> final(list).view().len() == 0 && final(k).filters == old(k).filters && final(k).rc == old(k).rc,
            r is Ok ==> r->Ok_0 == final(list).view().len(),
            changes@.len() > 0 && r is Ok ==> {
                &&& final(list).view().len() == changes@.len() && final(k).rc.len() == changes@.len()
                &&& forall|i: int| 0 <= i < changes@.len() ==> (#[trigger] final(list).view()[i]).flags.error && final(list).view()[i].data == final(k).rc[i]
                &&& valid(old(k).filters, changes@, final(k).rc)
                &&& final(k).filters == applied(old(k).filters, changes@, final(k).rc)
            },
            changes@.len() == 0 && r is Ok ==> {
                &&& final(k).rc == old(k).rc
                &&& forall|i: int| 0 <= i < final(list).view().len() ==> due(*old(k), #[trigger] final(list).view()[i])
                &&& delivered(old(k).filters, final(k).filters)
            },
    { unimplemented!() }
}
use kqueue::{EventFilter, id, due, applied, valid, delivered};
#[verifier::external_body]
fn fcntl_setfd(fd: &OwnedFd, f: FdFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
    ensures
        outcome(*old(k), *final(k), r),
        *final(k) == (Kernel { failed: final(k).failed, cloexec: if r is Ok && fd.fd == old(k).kq { f.cloexec } else { old(k).cloexec }, ..*old(k) }),
{ unimplemented!() }
//@IF kqueue-pipe
/// A pair of sockets, made so that they are closed on exec; only the notifier has it.
pub struct UnixStream { pub fd: RawFd }
pub open spec fn io_outcome<T>(a: Kernel, b: Kernel, r: io::Result<T>) -> bool {
    b.failed == if a.failed is None && r is Err { Some(r->Err_0.errno) } else { a.failed }
}
impl UnixStream {
    #[verifier::external_body]
    fn pair(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<(UnixStream, UnixStream)>)
        ensures
            io_outcome(*old(k), *final(k), r),
            r is Err ==> *final(k) == (Kernel { failed: final(k).failed, ..*old(k) }),
            r is Ok ==> r->Ok_0.0.fd != r->Ok_0.1.fd && !final(k).nb.contains(r->Ok_0.0.fd as int) && !final(k).nb.contains(r->Ok_0.1.fd as int) &&
                *final(k) == (Kernel { pair: (r->Ok_0.0.fd as int, r->Ok_0.1.fd as int), bytes: 0, nb: final(k).nb, ..*old(k) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_nonblocking(&self, v: bool, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
        ensures
            io_outcome(*old(k), *final(k), r),
            *final(k) == (Kernel { failed: final(k).failed, nb: if r is Err { old(k).nb } else if v { old(k).nb.insert(self.fd as int) } else { old(k).nb.remove(self.fd as int) }, ..*old(k) }),
    { unimplemented!() }
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
    fn as_fd(&self) -> (r: BorrowedFd) ensures r.fd == self.fd { BorrowedFd { fd: self.fd } }
    /// Takes bytes out of the pair.  It must not block.
    #[verifier::external_body]
    fn read(&self, b: &mut [u8; 64], Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<usize>)
        requires
            self.fd == old(k).pair.0, // [C19]
            old(k).nb.contains(self.fd as int), // [C19]
        ensures
            *final(k) == (Kernel { bytes: final(k).bytes, rwfail: final(k).rwfail, ..*old(k) }),
            r is Ok ==> 1 <= r->Ok_0 <= old(k).bytes && final(k).bytes == old(k).bytes - r->Ok_0 && final(k).rwfail == old(k).rwfail,
            r is Err ==> final(k).bytes == old(k).bytes && (final(k).rwfail == old(k).rwfail && old(k).bytes == 0 || final(k).rwfail),
    { unimplemented!() }
    /// Puts a byte into the pair.  It must not block; when there is no room there are bytes.
    #[verifier::external_body]
    fn write(&self, b: &[u8; 1], Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<usize>)
        requires
            self.fd == old(k).pair.1, // [C19]
            old(k).nb.contains(self.fd as int), // [C19]
        ensures
            *final(k) == (Kernel { bytes: final(k).bytes, rwfail: final(k).rwfail, ..*old(k) }),
            r is Ok ==> r->Ok_0 == 1 && final(k).bytes == old(k).bytes + 1 && final(k).rwfail == old(k).rwfail,
            r is Err ==> final(k).bytes == old(k).bytes && (final(k).rwfail == old(k).rwfail && old(k).bytes > 0 || final(k).rwfail),
    { unimplemented!() }
}
//@FI

// ---------------------------------------------------------------- assumed: Vec, RwLock, HashSet, the adapter of an iterator
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct List<T> { _p: core::marker::PhantomData<T> }
/// An iterator that still has to yield s.
pub struct It<T> { pub s: Ghost<Seq<T>> }
impl<T> It<T> {
    #[verifier::external_body]
    fn map<U, F: Fn(&T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((&self.s@[i],), #[trigger] r.s@[i]),
    { unimplemented!() }
}
impl<T> List<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body] fn new() -> (r: List<T>) ensures r.view().len() == 0, r.cap() == 0, { unimplemented!() }
    #[verifier::external_body] fn with_capacity(n: usize) -> (r: List<T>) ensures r.view().len() == 0, r.cap() >= n, { unimplemented!() }
    #[verifier::external_body] fn capacity(&self) -> (r: usize) ensures r == self.cap(), { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.view().len(), { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0), { unimplemented!() }
    #[verifier::external_body] fn clear(&mut self) ensures final(self).view().len() == 0, final(self).cap() == old(self).cap(), { unimplemented!() }
    #[verifier::external_body] fn iter(&self) -> (r: It<T>) ensures r.s@ == self.view(), { unimplemented!() }
}
impl<T: Copy> List<T> {
    #[verifier::external_body] fn at_(&self, i: usize) -> (r: T) requires i < self.view().len(), ensures r == self.view()[i as int], { unimplemented!() }
}
pub struct HashSet { _p: () }
impl HashSet { fn new() -> HashSet { HashSet { _p: () } } }
pub struct RwLock { s: HashSet }
/// The set, locked.
pub struct Guard { _p: () }
impl RwLock {
    fn new(s: HashSet) -> RwLock { RwLock { s } }
    fn write(&self) -> Guard { Guard { _p: () } }
    fn read(&self) -> Guard { Guard { _p: () } }
}
impl Guard {
    #[verifier::external_body]
    fn insert(&self, s: SourceId, Tracked(k): Tracked<&mut Kernel>) -> (r: bool)
        ensures *final(k) == (Kernel { srcs: if old(k).srcs.contains(s) { old(k).srcs } else { old(k).srcs.insert(s) }, ..*old(k) }), r == !old(k).srcs.contains(s), { unimplemented!() }
    #[verifier::external_body]
    fn remove(&self, s: &SourceId, Tracked(k): Tracked<&mut Kernel>) -> (r: bool)
        ensures *final(k) == (Kernel { srcs: if old(k).srcs.contains(*s) { old(k).srcs.remove(*s) } else { old(k).srcs }, ..*old(k) }), r == old(k).srcs.contains(*s), { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, s: &SourceId, Tracked(k): Tracked<&mut Kernel>) -> (r: bool)
        ensures *final(k) == *old(k), r == old(k).srcs.contains(*s), { unimplemented!() }
}

// ---------------------------------------------------------------- the repository's types
#[derive(Clone, Copy)]
pub enum SourceId { Fd(RawFd), Signal(i32), Pid(process::Pid), Timer(usize) }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }
#[derive(Clone, Copy)]
pub struct EventExtra;
#[derive(Clone, Copy)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
impl Event {
    // under contract in the unit poll-masks
    fn none(key: usize) -> (r: Event) ensures r.key == key && !r.readable && !r.writable { Event { key, readable: false, writable: false, extra: EventExtra } }
    fn readable(key: usize) -> (r: Event) ensures r.key == key && r.readable && !r.writable { Event { key, readable: true, writable: false, extra: EventExtra } }
}
pub struct Events { pub list: List<kqueue::Event> }
pub struct Poller { pub kqueue_fd: OwnedFd, pub sources: RwLock, pub notify: Notify }
//@IF kqueue
pub struct Notify { pub _p: () }
pub open spec fn notifier(n: Notify) -> Id { Id { kind: 8, n: 0 } }
pub open spec fn mine(n: Notify, i: Id) -> bool { i == notifier(n) }
//@FI
//@IF kqueue-pipe
pub struct Notify { pub read_stream: UnixStream, pub write_stream: UnixStream }
pub open spec fn notifier(n: Notify) -> Id { Id { kind: 1, n: n.read_stream.fd as int } }
pub open spec fn mine(n: Notify, i: Id) -> bool { i == notifier(n) || i == (Id { kind: 2, ..notifier(n) }) }
//@FI

pub open spec fn oneshot(m: PollMode) -> bool { m is Oneshot || m is EdgeOneshot }
pub open spec fn edge(m: PollMode) -> bool { m is Edge || m is EdgeOneshot }
/// The receipt of a change that was refused.
pub open spec fn bad(d: int) -> bool { d != 0 && d != 2 && d != 32 }
pub open spec fn fine(k: Kernel) -> bool { k.failed is None && forall|i: int| 0 <= i < k.rc.len() ==> !bad(#[trigger] k.rc[i]) }
/// The error is the one the system reported.
pub open spec fn cause(k: Kernel, e: io::Error) -> bool {
    k.failed is Some && e.errno == k.failed->Some_0 || exists|i: int| 0 <= i < k.rc.len() && bad(#[trigger] k.rc[i]) && e.errno == k.rc[i]
}
/// The filter asks what the interest says.
pub open spec fn asks(m: Map<Id, Entry>, i: Id, key: usize, mode: PollMode) -> bool {
    m.contains_key(i) && m[i].key == key && m[i].oneshot == oneshot(mode) && m[i].clear == edge(mode) && !m[i].disabled
}
pub open spec fn rd(fd: int) -> Id { Id { kind: 1, n: fd } }
pub open spec fn wr(fd: int) -> Id { Id { kind: 2, n: fd } }
pub open spec fn others(a: Map<Id, Entry>, b: Map<Id, Entry>, fd: int) -> bool {
    forall|j: Id| #![trigger a.contains_key(j)] #![trigger b.contains_key(j)] #![trigger a[j]] #![trigger b[j]]
        j != rd(fd) && j != wr(fd) ==> a.contains_key(j) == b.contains_key(j) && (a.contains_key(j) ==> a[j] == b[j])
}
pub open spec fn but(a: Map<Id, Entry>, b: Map<Id, Entry>, i: Id) -> bool {
    forall|j: Id| #![trigger a.contains_key(j)] #![trigger b.contains_key(j)] #![trigger a[j]] #![trigger b[j]]
        j != i ==> a.contains_key(j) == b.contains_key(j) && (a.contains_key(j) ==> a[j] == b[j])
}
/// EPIPE: the other end is closed, so that there is nothing to wait for.
pub open spec fn closed(k: Kernel) -> bool { exists|i: int| 0 <= i < k.rc.len() && #[trigger] k.rc[i] == 32 }
pub open spec fn interest(k: Kernel, fd: int, ev: Event, mode: PollMode) -> bool {
    &&& if ev.readable { asks(k.filters, rd(fd), ev.key, mode) } else { !k.filters.contains_key(rd(fd)) }
    &&& if ev.writable { asks(k.filters, wr(fd), ev.key, mode) || closed(k) } else { !k.filters.contains_key(wr(fd)) }
}
/// A call of the user begins.
pub open spec fn begins(k: Kernel) -> bool { k.failed is None && k.rc.len() == 0 }

pub fn mode_to_flags(mode: PollMode) -> (r: kqueue::EventFlags)
    ensures
        r.oneshot == oneshot(mode) && r.clear == edge(mode), // [C19]
        !r.add && !r.delete && !r.disable && !r.error && !r.eof, // [C19]
{
//@BODY kqueue|-|mode_to_flags
}
impl Poller {
pub open spec fn inv(&self, k: Kernel) -> bool {
    &&& self.kqueue_fd.fd == k.kq
//@IF kqueue-pipe
    &&& k.pair == (self.notify.read_stream.fd as int, self.notify.write_stream.fd as int)
    &&& k.nb.contains(self.notify.read_stream.fd as int) && k.nb.contains(self.notify.write_stream.fd as int)
    &&& k.srcs.contains(SourceId::Fd(self.notify.read_stream.fd))
//@FI
}
/// The notifier is watched, with the key no user has.
pub open spec fn armed(&self, k: Kernel) -> bool {
    &&& k.filters.contains_key(notifier(self.notify)) && k.filters[notifier(self.notify)].key == usize::MAX && !k.filters[notifier(self.notify)].disabled
//@IF kqueue
    &&& !k.filters[notifier(self.notify)].oneshot
//@FI
//@IF kqueue-pipe
    &&& !k.filters[notifier(self.notify)].clear
//@FI
}
/// A wait returns at once because of a notification.
pub open spec fn notified(&self, k: Kernel) -> bool {
//@IF kqueue
    k.filters[notifier(self.notify)].pending
//@FI
//@IF kqueue-pipe
    k.bytes > 0
//@FI
}
pub fn new(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<Poller>)
    requires begins(*old(k)), old(k).srcs == Set::<SourceId>::empty(), !old(k).rwfail,
    ensures
        r is Ok ==> r->Ok_0.inv(*final(k)) && r->Ok_0.armed(*final(k)) && !r->Ok_0.notified(*final(k)), // [C19]
        r is Ok ==> final(k).cloexec, // [C19]
        // nothing else is watched
        r is Ok ==> forall|i: Id| #[trigger] final(k).filters.contains_key(i) ==> i == notifier(r->Ok_0.notify), // [C19]
//@IF kqueue
        r is Ok ==> final(k).srcs == Set::<SourceId>::empty(), // [C19]
        r is Ok ==> final(k).filters[notifier(r->Ok_0.notify)].clear, // [C19]
//@FI
        r is Ok ==> fine(*final(k)), // [C19]
        r is Err && !fine(*final(k)) ==> cause(*final(k), r->Err_0), // [C19]
        fine(*final(k)) ==> r is Ok, // [C19]
{
//@BODY kqueue|Poller|new
}
pub fn supports_level(&self) -> (r: bool)
    ensures r, // [C19]
{
//@BODY kqueue|Poller|supports_level
}
pub fn supports_edge(&self) -> (r: bool)
    ensures r, // [C19]
{
//@BODY kqueue|Poller|supports_edge
}
pub fn submit_changes<const N: usize>(&self, changelist: [kqueue::Event; N], Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires
        self.kqueue_fd.fd == old(k).kq, begins(*old(k)), N > 0,
        forall|i: int| 0 <= i < N ==> (#[trigger] changelist@[i]).flags.receipt, // [C19]
    ensures
        frame(*old(k), *final(k)),
        r is Ok ==> fine(*final(k)), // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
        final(k).failed is Some ==> final(k).filters == old(k).filters && final(k).rc == old(k).rc,
        final(k).failed is None ==> final(k).rc.len() == N && valid(old(k).filters, changelist@, final(k).rc) && final(k).filters == applied(old(k).filters, changelist@, final(k).rc), // [C19]
{
//@BODY kqueue|Poller|submit_changes
}
pub fn add_source(&self, source: SourceId, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    ensures
        *final(k) == (Kernel { srcs: if old(k).srcs.contains(source) { old(k).srcs } else { old(k).srcs.insert(source) }, ..*old(k) }), // [C19]
        r is Ok <==> !old(k).srcs.contains(source), // [C19]
        r is Err ==> r->Err_0.kind is AlreadyExists, // [C19]
{
//@BODY kqueue|Poller|add_source
}
pub fn has_source(&self, source: SourceId, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    ensures
        *final(k) == *old(k), // [C19]
        r is Ok <==> old(k).srcs.contains(source), // [C19]
        r is Err ==> r->Err_0.kind is NotFound, // [C19]
{
//@BODY kqueue|Poller|has_source
}
pub fn remove_source(&self, source: SourceId, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    ensures
        *final(k) == (Kernel { srcs: if old(k).srcs.contains(source) { old(k).srcs.remove(source) } else { old(k).srcs }, ..*old(k) }), // [C19]
        r is Ok <==> old(k).srcs.contains(source), // [C19]
        r is Err ==> r->Err_0.kind is NotFound, // [C19]
{
//@BODY kqueue|Poller|remove_source
}
pub unsafe fn add(&self, fd: RawFd, ev: Event, mode: PollMode, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.kqueue_fd.fd == old(k).kq, begins(*old(k)),
    ensures
        frame(Kernel { srcs: old(k).srcs.insert(SourceId::Fd(fd)), ..*old(k) }, *final(k)), // [C19]
        // a duplicate is refused, and nothing happens
        old(k).srcs.contains(SourceId::Fd(fd)) ==> r is Err && r->Err_0.kind is AlreadyExists && *final(k) == *old(k), // [C19]
        r is Ok ==> interest(*final(k), fd as int, ev, mode) && fine(*final(k)), // [C19]
        others(old(k).filters, final(k).filters, fd as int), // [C19]
        r is Err && !old(k).srcs.contains(SourceId::Fd(fd)) ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY kqueue|Poller|add
}
pub fn modify(&self, fd: BorrowedFd, ev: Event, mode: PollMode, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.kqueue_fd.fd == old(k).kq, begins(*old(k)),
    ensures
        frame(*old(k), *final(k)),
        // what is not there is refused, and nothing happens
        !old(k).srcs.contains(SourceId::Fd(fd.fd)) ==> r is Err && r->Err_0.kind is NotFound && *final(k) == *old(k), // [C19]
        r is Ok ==> interest(*final(k), fd.fd as int, ev, mode) && fine(*final(k)), // [C19]
        others(old(k).filters, final(k).filters, fd.fd as int), // [C19]
        r is Err && old(k).srcs.contains(SourceId::Fd(fd.fd)) ==> cause(*final(k), r->Err_0), // [C19]
        r is Ok && !ev.writable ==> !closed(*final(k)),
{
    proof { reveal_with_fuel(applied, 3); reveal_with_fuel(valid, 3); }
//@BODY kqueue|Poller|modify
}
pub fn delete(&self, fd: BorrowedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.kqueue_fd.fd == old(k).kq, begins(*old(k)),
    ensures
        frame(Kernel { srcs: final(k).srcs, ..*old(k) }, *final(k)),
        !old(k).srcs.contains(SourceId::Fd(fd.fd)) ==> r is Err && r->Err_0.kind is NotFound && *final(k) == *old(k), // [C19]
        r is Ok ==> !final(k).filters.contains_key(rd(fd.fd as int)) && !final(k).filters.contains_key(wr(fd.fd as int)) && fine(*final(k)), // [C19]
        r is Ok ==> final(k).srcs == old(k).srcs.remove(SourceId::Fd(fd.fd)), // [C19]
        r is Err ==> final(k).srcs == old(k).srcs, // [C19]
        others(old(k).filters, final(k).filters, fd.fd as int), // [C19]
        r is Err && old(k).srcs.contains(SourceId::Fd(fd.fd)) ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY kqueue|Poller|delete
}
pub fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)), self.armed(*old(k)), begins(*old(k)),
    ensures
        self.inv(*final(k)), // [C19]
        r is Ok ==> self.armed(*final(k)), // [C19]
        // one sleep, for the timeout
        final(k).waits == old(k).waits.push(timeout), // [C19]
        // events of filters that are there, with their keys
        r is Ok ==> forall|i: int| 0 <= i < final(events).list.view().len() ==> due(*old(k), #[trigger] final(events).list.view()[i]), // [C19]
        final(events).list.cap() == old(events).list.cap(), // [C19]
        // nothing the user asked for changes, but for what was delivered
        forall|i: Id| #[trigger] final(k).filters.contains_key(i) && !mine(self.notify, i) ==> old(k).filters.contains_key(i) && (Entry { pending: final(k).filters[i].pending, ..old(k).filters[i] }) == final(k).filters[i], // [C19]
        forall|i: Id| #[trigger] old(k).filters.contains_key(i) && !old(k).filters[i].oneshot && !mine(self.notify, i) ==> final(k).filters.contains_key(i), // [C19]
        final(k).srcs == old(k).srcs, // [C19]
//@IF kqueue-pipe
        // the notification is used up
        r is Ok ==> final(k).bytes == 0 || final(k).rwfail, // [C19]
//@FI
        r is Ok ==> fine(*final(k)), // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY kqueue|Poller|wait
}
pub fn notify(&self, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)), self.armed(*old(k)), begins(*old(k)),
    ensures
        self.inv(*final(k)) && final(k).srcs == old(k).srcs && final(k).waits == old(k).waits, // [C19]
        final(k).filters.contains_key(notifier(self.notify)) && final(k).filters[notifier(self.notify)].key == usize::MAX, // [C19]
        but(old(k).filters, final(k).filters, notifier(self.notify)), // [C19]
//@IF kqueue
        !final(k).filters[notifier(self.notify)].oneshot && !final(k).filters[notifier(self.notify)].disabled, // [C19]
        // it wakes, unless the system refuses
        fine(*final(k)) ==> self.notified(*final(k)), // [C19]
//@FI
//@IF kqueue-pipe
        self.armed(*final(k)), // [C19]
        final(k).rwfail || self.notified(*final(k)), // [C19]
//@FI
        r is Ok, // [C19]
{
    proof { reveal_with_fuel(applied, 3); reveal_with_fuel(valid, 3); }
//@BODY kqueue|Poller|notify
}
fn as_raw_fd(&self) -> (r: RawFd)
    ensures r == self.kqueue_fd.fd, // [C19]
{
//@BODY kqueue|AsRawFd for Poller|as_raw_fd
}
fn as_fd(&self) -> (r: BorrowedFd)
    ensures r.fd == self.kqueue_fd.fd, // [C19]
{
//@BODY kqueue|AsFd for Poller|as_fd
}
}
impl Notify {
//@IF kqueue
pub fn new() -> (r: io::Result<Self>)
    ensures r is Ok, // [C19]
{
//@BODY notify|Notify|new
}
pub fn register(&self, poller: &Poller, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires poller.kqueue_fd.fd == old(k).kq, begins(*old(k)),
    ensures
        frame(*old(k), *final(k)),
        r is Ok ==> fine(*final(k)) && final(k).filters.contains_key(notifier(*self)) && but(old(k).filters, final(k).filters, notifier(*self)), // [C19]
        // with the key no user has, delivered once for every time it is triggered
        r is Ok ==> { let e = final(k).filters[notifier(*self)]; e.key == usize::MAX && e.clear && !e.oneshot && !e.disabled }, // [C19]
        // and not triggered
        r is Ok ==> final(k).filters[notifier(*self)].pending == (old(k).filters.contains_key(notifier(*self)) && old(k).filters[notifier(*self)].pending), // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
{
    proof { reveal_with_fuel(applied, 3); reveal_with_fuel(valid, 3); }
//@BODY notify|Notify|register
}
pub fn reregister(&self, _poller: &Poller, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires begins(*old(k)), _poller.armed(*old(k)), _poller.inv(*old(k)), _poller.notify == *self,
    ensures
        frame(*old(k), *final(k)),
        r is Ok ==> fine(*final(k)) && _poller.armed(*final(k)), // [C19]
        but(old(k).filters, final(k).filters, notifier(*self)), // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY notify|Notify|reregister
}
pub fn notify(&self, poller: &Poller, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires poller.kqueue_fd.fd == old(k).kq, begins(*old(k)),
    ensures
        frame(*old(k), *final(k)),
        fine(*final(k)) ==> final(k).filters.contains_key(notifier(*self)) && final(k).filters[notifier(*self)].pending, // [C19]
        old(k).filters.contains_key(notifier(*self)) && old(k).filters[notifier(*self)].key == usize::MAX ==> final(k).filters.contains_key(notifier(*self)) && final(k).filters[notifier(*self)].key == usize::MAX, // [C19]
        old(k).filters.contains_key(notifier(*self)) && !old(k).filters[notifier(*self)].oneshot ==> !final(k).filters[notifier(*self)].oneshot, // [C19]
        old(k).filters.contains_key(notifier(*self)) && !old(k).filters[notifier(*self)].disabled ==> !final(k).filters[notifier(*self)].disabled, // [C19]
        but(old(k).filters, final(k).filters, notifier(*self)), // [C19]
        r is Ok ==> fine(*final(k)), // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
{
    proof { reveal_with_fuel(applied, 3); reveal_with_fuel(valid, 3); }
//@BODY notify|Notify|notify
}
//@FI
//@IF kqueue-pipe
pub fn new(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<Self>)
    requires old(k).failed is None,
    ensures
        *final(k) == (Kernel { failed: final(k).failed, pair: final(k).pair, bytes: final(k).bytes, nb: final(k).nb, ..*old(k) }),
        r is Ok ==> final(k).failed is None && final(k).bytes == 0, // [C19]
        r is Ok ==> final(k).pair == (r->Ok_0.read_stream.fd as int, r->Ok_0.write_stream.fd as int), // [C19]
        // neither end blocks
        r is Ok ==> final(k).nb.contains(r->Ok_0.read_stream.fd as int) && final(k).nb.contains(r->Ok_0.write_stream.fd as int), // [C19]
        r is Err ==> final(k).failed is Some && r->Err_0.errno == final(k).failed->Some_0, // [C19]
{
//@BODY notify|Notify|new
}
pub fn register(&self, poller: &Poller, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires poller.kqueue_fd.fd == old(k).kq, begins(*old(k)), !old(k).srcs.contains(SourceId::Fd(self.read_stream.fd)),
    ensures
        frame(Kernel { srcs: old(k).srcs.insert(SourceId::Fd(self.read_stream.fd)), ..*old(k) }, *final(k)),
        r is Ok ==> fine(*final(k)) && final(k).filters.contains_key(notifier(*self)) && others(old(k).filters, final(k).filters, self.read_stream.fd as int), // [C19]
        r is Ok ==> !final(k).filters.contains_key(wr(self.read_stream.fd as int)), // [C19]
        r is Ok ==> { let e = final(k).filters[notifier(*self)]; e.key == usize::MAX && !e.clear && !e.disabled }, // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY notify|Notify|register
}
pub fn reregister(&self, poller: &Poller, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires begins(*old(k)), poller.inv(*old(k)), poller.notify == *self,
    ensures
        frame(Kernel { bytes: final(k).bytes, rwfail: final(k).rwfail, ..*old(k) }, *final(k)),
        r is Ok ==> fine(*final(k)) && poller.armed(*final(k)), // [C19]
        r is Ok ==> final(k).bytes == 0 || final(k).rwfail, // [C19]
        others(old(k).filters, final(k).filters, self.read_stream.fd as int), // [C19]
        r is Ok ==> !final(k).filters.contains_key(wr(self.read_stream.fd as int)), // [C19]
        r is Err ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY notify|Notify|reregister
}
pub fn notify(&self, _poller: &Poller, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires _poller.inv(*old(k)), _poller.notify == *self,
    ensures
        *final(k) == (Kernel { bytes: final(k).bytes, rwfail: final(k).rwfail, ..*old(k) }), // [C19]
        final(k).bytes > 0 || final(k).rwfail, // [C19]
{
//@BODY notify|Notify|notify
}
//@FI
}

// ---------------------------------------------------------------- the events
pub open spec fn decoded(e: kqueue::Event) -> Event {
    Event { key: e.udata,
        readable: e.f is Read || e.f is Vnode || e.f is Proc || e.f is Signal || e.f is Timer,
        // the end of what a pipe can take is reported on the side that reads
        writable: e.f is Write || e.f is Read && e.flags.eof,
        extra: EventExtra }
}
impl Events {
pub fn with_capacity(cap: usize) -> (r: Events)
    ensures r.list.view().len() == 0 && r.list.cap() >= cap, // [C19]
{
//@BODY kqueue|Events|with_capacity
}
pub fn iter(&self) -> (r: It<Event>)
    ensures
        r.s@.len() == self.list.view().len(), // [C19]
        forall|i: int| 0 <= i < r.s@.len() ==> #[trigger] r.s@[i] == decoded(self.list.view()[i]), // [C19]
{
//@BODY kqueue|Events|iter
}
pub fn clear(&mut self)
    ensures final(self).list.view().len() == 0 && final(self).list.cap() == old(self).list.cap(), // [C19]
{
//@BODY kqueue|Events|clear
}
pub fn capacity(&self) -> (r: usize)
    ensures r == self.list.cap(), // [C19]
{
//@BODY kqueue|Events|capacity
}
}

//@IF kqueue
// ---------------------------------------------------------------- os/kqueue.rs: the other filters
/// The filter of a source that is not a descriptor: different sources have different filters.
pub open spec fn target(s: SourceId) -> Id {
    match s {
        SourceId::Fd(n) => Id { kind: -1, n: n as int },
        SourceId::Signal(n) => Id { kind: 6, n: n as int },
        SourceId::Pid(p) => Id { kind: 5, n: p.p as int },
        SourceId::Timer(n) => Id { kind: 7, n: n as int },
    }
}
pub trait FilterSealed {
    spec fn ok(&self) -> bool;
    spec fn src(&self) -> SourceId;
    /// what exactly is asked for
    spec fn is(&self, f: EventFilter) -> bool;
    fn filter(&self, flags: kqueue::EventFlags, key: usize) -> (r: kqueue::Event)
        requires self.ok(),
        ensures
            r.udata == key && r.flags == flags.or(kqueue::EventFlags::RECEIPT), // [C19]
            self.is(r.f) && !(r.f is User) && id(r.f) == target(self.src()) && !(self.src() is Fd); // [C19]
    fn source_id(&self) -> (r: SourceId)
        ensures r == self.src(); // [C19]
}
impl<T: FilterSealed> FilterSealed for &T {
    open spec fn ok(&self) -> bool { (**self).ok() }
    open spec fn src(&self) -> SourceId { (**self).src() }
    open spec fn is(&self, f: EventFilter) -> bool { (**self).is(f) }
fn filter(&self, flags: kqueue::EventFlags, key: usize) -> (r: kqueue::Event)
{
//@BODY os|FilterSealed for &T|filter
}
fn source_id(&self) -> (r: SourceId)
{
//@BODY os|FilterSealed for &T|source_id
}
}
pub struct Signal(pub i32);
impl FilterSealed for Signal {
    open spec fn ok(&self) -> bool { signal(self.0 as int) }
    open spec fn src(&self) -> SourceId { SourceId::Signal(self.0) }
    open spec fn is(&self, f: EventFilter) -> bool { f is Signal && f->Signal_signal.n == self.0 }
fn filter(&self, flags: kqueue::EventFlags, key: usize) -> (r: kqueue::Event)
{
//@BODY os|FilterSealed for Signal|filter
}
fn source_id(&self) -> (r: SourceId)
{
//@BODY os|FilterSealed for Signal|source_id
}
}
pub struct Process { pid: process::Pid, ops: ProcessOps }
pub enum ProcessOps { Exit, Fork, Exec }
impl FilterSealed for Process {
    closed spec fn ok(&self) -> bool { true }
    closed spec fn src(&self) -> SourceId { SourceId::Pid(self.pid) }
    closed spec fn is(&self, f: EventFilter) -> bool {
        f is Proc && f->Proc_pid == self.pid && f->Proc_flags.exits == (self.ops is Exit) && f->Proc_flags.forks == (self.ops is Fork) && f->Proc_flags.execs == (self.ops is Exec)
    }
fn filter(&self, flags: kqueue::EventFlags, key: usize) -> (r: kqueue::Event)
{
//@BODY os|FilterSealed for Process<'_>|filter
}
fn source_id(&self) -> (r: SourceId)
{
//@BODY os|FilterSealed for Process<'_>|source_id
}
}
impl Process {
    pub closed spec fn pid_(&self) -> int { self.pid.p as int }
    pub closed spec fn ops_(&self) -> ProcessOps { self.ops }
pub unsafe fn new(child: &Child, ops: ProcessOps) -> (r: Self)
    ensures r.pid_() == child.id && r.ops_() == ops, // [C19]
{
//@BODY os|<'a> Process<'a>|new
}
pub unsafe fn from_pid(pid: NonZeroI32, ops: ProcessOps) -> (r: Self)
    ensures r.pid_() == pid.v && r.ops_() == ops, // [C19]
{
//@BODY os|<'a> Process<'a>|from_pid
}
}
pub struct Timer { pub id: usize, pub timeout: Duration }
impl FilterSealed for Timer {
    open spec fn ok(&self) -> bool { true }
    open spec fn src(&self) -> SourceId { SourceId::Timer(self.id) }
    open spec fn is(&self, f: EventFilter) -> bool { f is Timer && f->Timer_ident == self.id && f->Timer_timer == Some(self.timeout) }
fn filter(&self, flags: kqueue::EventFlags, key: usize) -> (r: kqueue::Event)
{
//@BODY os|FilterSealed for Timer|filter
}
fn source_id(&self) -> (r: SourceId)
{
//@BODY os|FilterSealed for Timer|source_id
}
}
pub struct Api { pub poller: Poller }
impl Api {
pub fn add_filter<F: FilterSealed>(&self, filter: F, key: usize, mode: PollMode, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.poller.inv(*old(k)), begins(*old(k)), filter.ok(),
    ensures
        frame(Kernel { srcs: old(k).srcs.insert(filter.src()), ..*old(k) }, *final(k)), // [C19]
        old(k).srcs.contains(filter.src()) ==> r is Err && r->Err_0.kind is AlreadyExists && *final(k) == *old(k), // [C19]
        r is Ok ==> asks(final(k).filters, target(filter.src()), key, mode) && filter.is(final(k).filters[target(filter.src())].f) && fine(*final(k)), // [C19]
        but(old(k).filters, final(k).filters, target(filter.src())), // [C19]
        r is Err && !old(k).srcs.contains(filter.src()) ==> cause(*final(k), r->Err_0), // [C19]
{
//@BODY os|<F: Filter> PollerKqueueExt<F> for Poller|add_filter
}
pub fn modify_filter<F: FilterSealed>(&self, filter: F, key: usize, mode: PollMode, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.poller.inv(*old(k)), begins(*old(k)), filter.ok(),
    ensures
        frame(*old(k), *final(k)), // [C19]
        !old(k).srcs.contains(filter.src()) ==> r is Err && r->Err_0.kind is NotFound && *final(k) == *old(k), // [C19]
        r is Ok ==> asks(final(k).filters, target(filter.src()), key, mode) && filter.is(final(k).filters[target(filter.src())].f) && fine(*final(k)), // [C19]
        but(old(k).filters, final(k).filters, target(filter.src())), // [C19]
        r is Err && old(k).srcs.contains(filter.src()) ==> cause(*final(k), r->Err_0), // [C19]
{
    proof { reveal_with_fuel(applied, 3); reveal_with_fuel(valid, 3); }
//@BODY os|<F: Filter> PollerKqueueExt<F> for Poller|modify_filter
}
pub fn delete_filter<F: FilterSealed>(&self, filter: F, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.poller.inv(*old(k)), begins(*old(k)), filter.ok(),
    ensures
        frame(Kernel { srcs: final(k).srcs, ..*old(k) }, *final(k)), // [C19]
        r is Ok ==> !final(k).filters.contains_key(target(filter.src())) && fine(*final(k)) && old(k).srcs.contains(filter.src()), // [C19]
        r is Ok ==> final(k).srcs == old(k).srcs.remove(filter.src()), // [C19]
        !old(k).srcs.contains(filter.src()) ==> r is Err, // [C19]
        r is Err ==> final(k).srcs == old(k).srcs, // [C19]
        but(old(k).filters, final(k).filters, target(filter.src())), // [C19]
        r is Err && old(k).srcs.contains(filter.src()) ==> cause(*final(k), r->Err_0), // [C19]
{
    proof { reveal_with_fuel(applied, 3); reveal_with_fuel(valid, 3); }
//@BODY os|<F: Filter> PollerKqueueExt<F> for Poller|delete_filter
}
}
//@FI
} // verus!
fn main() {}

//@SNIPPET receipts
    invariant
        frame(*old(k), *k), N > 0, k.rc.len() == N, valid(old(k).filters, changelist@, k.rc), k.filters == applied(old(k).filters, changelist@, k.rc),
        i_ <= eventlist.view().len(), eventlist.view().len() == k.rc.len(), k.failed is None,
        forall|j: int| 0 <= j < k.rc.len() ==> (#[trigger] eventlist.view()[j]).flags.error && eventlist.view()[j].data == k.rc[j],
        forall|j: int| 0 <= j < i_ ==> !bad(#[trigger] k.rc[j]), // [C19]
    decreases eventlist.view().len() - i_,
//@END
//@SNIPPET drain
    invariant
        poller.inv(*k), poller.notify == *self, begins(*k),
        *k == (Kernel { bytes: k.bytes, rwfail: k.rwfail, ..k0 }), // [C19]
    ensures
        k.bytes == 0 || k.rwfail, // [C19]
        poller.inv(*k), begins(*k), *k == (Kernel { bytes: k.bytes, rwfail: k.rwfail, ..k0 }),
    decreases k.bytes,
//@END
