// The event-port backend (illumos, Solaris).  The bodies at the //@BODY markers are cut out of /repo/src/port.rs by
// tools/verus.py on every run; everything else is specification or an assumed contract of port_create(3C) and its family
// as rustix wraps it.  There is no such system here: the contracts come from its manual pages and rustix's source.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub const NOTIFY_KEY: usize = usize::MAX;
pub type RawFd = i32;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub s: u64, pub n: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, InvalidInput, Interrupted, Unsupported, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    pub struct Error { pub kind: ErrorKind, pub ghost errno: int }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error { pub fn io_(self) -> (r: Error) ensures r == self { self } }
}
#[verifier::external_body]
pub fn unsupported_error(m: &str) -> (r: io::Error) ensures r.kind is Unsupported { unimplemented!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Errno { pub e: u16 }
impl Errno {
    // numbers of illumos
    pub const PERM: Errno = Errno { e: 1 };
    pub const NOENT: Errno = Errno { e: 2 };
    pub const INTR: Errno = Errno { e: 4 };
    pub const BADF: Errno = Errno { e: 9 };
    pub const AGAIN: Errno = Errno { e: 11 };
    pub const NOMEM: Errno = Errno { e: 12 };
    pub const EXIST: Errno = Errno { e: 17 };
    pub const INVAL: Errno = Errno { e: 22 };
    pub const TIME: Errno = Errno { e: 62 };
    pub const TIMEDOUT: Errno = Errno { e: 145 };
    #[verifier::external_body]
    fn io_(self) -> (r: io::Error) ensures r.errno == self.e, !(r.kind is Unsupported) { unimplemented!() }
}
pub struct OwnedFd { pub fd: RawFd }
#[derive(Clone, Copy)]
pub struct BorrowedFd { pub fd: RawFd }
impl OwnedFd {
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
    fn as_fd(&self) -> (r: BorrowedFd) ensures r.fd == self.fd { BorrowedFd { fd: self.fd } }
}
impl BorrowedFd {
    unsafe fn borrow_raw(fd: RawFd) -> (r: BorrowedFd) ensures r.fd == fd { BorrowedFd { fd } }
    fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.fd { self.fd }
}
#[derive(Clone, Copy)]
pub struct FdFlags { pub cloexec: bool, pub other: u32 }
impl FdFlags {
    pub const CLOEXEC: FdFlags = FdFlags { cloexec: true, other: 0 };
    fn empty() -> (r: FdFlags) ensures !r.cloexec && r.other == 0 { FdFlags { cloexec: false, other: 0 } }
}
impl vstd::std_specs::ops::BitOrSpecImpl for FdFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: FdFlags) -> bool { true }
    open spec fn bitor_spec(self, o: FdFlags) -> FdFlags { FdFlags { cloexec: self.cloexec || o.cloexec, other: self.other | o.other } }
}
impl core::ops::BitOr for FdFlags {
    type Output = FdFlags;
    fn bitor(self, o: FdFlags) -> (r: FdFlags) { FdFlags { cloexec: self.cloexec || o.cloexec, other: self.other | o.other } }
}
/// The bits of an event mask: those the contracts speak about, and whether any other bit is set.
#[derive(Clone, Copy)]
pub struct PollFlags { pub i: bool, pub pri: bool, pub out: bool, pub err: bool, pub hup: bool, pub other: bool }
impl PollFlags {
    pub const IN: PollFlags = PollFlags { i: true, pri: false, out: false, err: false, hup: false, other: false };
    pub const PRI: PollFlags = PollFlags { i: false, pri: true, out: false, err: false, hup: false, other: false };
    pub const OUT: PollFlags = PollFlags { i: false, pri: false, out: true, err: false, hup: false, other: false };
    pub const ERR: PollFlags = PollFlags { i: false, pri: false, out: false, err: true, hup: false, other: false };
    pub const HUP: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: true, other: false };
    pub const WRBAND: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: true };
    pub const NVAL: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: true };
    pub const RDNORM: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: true };
    pub const RDBAND: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: true };
    pub const WRNORM: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: true };
    pub const RDHUP: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: true };
    pub const fn empty() -> (r: PollFlags) ensures r.none() { PollFlags { i: false, pri: false, out: false, err: false, hup: false, other: false } }
    pub open spec fn none(self) -> bool { !self.i && !self.pri && !self.out && !self.err && !self.hup && !self.other }
    pub open spec fn common(self, o: PollFlags) -> bool { self.i && o.i || self.pri && o.pri || self.out && o.out || self.err && o.err || self.hup && o.hup }
    pub open spec fn all(self, o: PollFlags) -> bool { (o.i ==> self.i) && (o.pri ==> self.pri) && (o.out ==> self.out) && (o.err ==> self.err) && (o.hup ==> self.hup) }
    fn from_bits_truncate(p: PollFlags) -> (r: PollFlags) ensures r == p { p }
    fn from_bits_retain(p: PollFlags) -> (r: PollFlags) ensures r == p { p }
    #[verifier::external_body]
    pub fn intersects(&self, o: PollFlags) -> (r: bool) ensures !(self.other && o.other) ==> r == self.common(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, o: PollFlags) -> (r: bool) ensures !o.other ==> r == self.all(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
    pub open spec fn set_spec(self, o: PollFlags, v: bool) -> PollFlags { PollFlags { i: if o.i { v } else { self.i }, pri: if o.pri { v } else { self.pri }, out: if o.out { v } else { self.out }, err: if o.err { v } else { self.err }, hup: if o.hup { v } else { self.hup }, other: self.other } }
    #[verifier::external_body]
    pub fn set(&mut self, o: PollFlags, v: bool) ensures !o.other ==> *final(self) == old(self).set_spec(o, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, o: PollFlags) ensures !o.other ==> *final(self) == old(self).set_spec(o, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, o: PollFlags) ensures !o.other ==> *final(self) == old(self).set_spec(o, false) { unimplemented!() }
}
pub uninterp spec fn share_other(a: PollFlags, b: PollFlags) -> bool;
impl vstd::std_specs::ops::BitAndSpecImpl for PollFlags {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, o: PollFlags) -> bool { true }
    open spec fn bitand_spec(self, o: PollFlags) -> PollFlags { PollFlags { i: self.i && o.i, pri: self.pri && o.pri, out: self.out && o.out, err: self.err && o.err, hup: self.hup && o.hup, other: self.other && o.other && share_other(self, o) } }
}
impl core::ops::BitAnd for PollFlags {
    type Output = PollFlags;
    #[verifier::external_body]
    fn bitand(self, o: PollFlags) -> (r: PollFlags) { unimplemented!() }
}
impl vstd::std_specs::ops::BitOrSpecImpl for PollFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: PollFlags) -> bool { true }
    open spec fn bitor_spec(self, o: PollFlags) -> PollFlags { PollFlags { i: self.i || o.i, pri: self.pri || o.pri, out: self.out || o.out, err: self.err || o.err, hup: self.hup || o.hup, other: self.other || o.other } }
}
impl core::ops::BitOr for PollFlags {
    type Output = PollFlags;
    fn bitor(self, o: PollFlags) -> (r: PollFlags) { PollFlags { i: self.i || o.i, pri: self.pri || o.pri, out: self.out || o.out, err: self.err || o.err, hup: self.hup || o.hup, other: self.other || o.other } }
}

// ---------------------------------------------------------------- assumed contracts: event ports
/// An association of a descriptor: it lives until its event is delivered.
pub ghost struct Assoc { pub flags: PollFlags, pub data: usize }
pub tracked struct Kernel {
    pub ghost port: int,
    pub ghost cloexec: bool,
    pub ghost assoc: Map<int, Assoc>,
    /// events that were sent and are not yet retrieved
    pub ghost sent: Seq<usize>,
    /// calls of port_getn: how many events they wait for, and how long
    pub ghost gets: Seq<(int, Option<Duration>)>,
    /// result of the system calls made for the user
    pub ghost failed: Option<int>,
}
pub open spec fn outcome<T>(a: Kernel, b: Kernel, r: Result<T, Errno>) -> bool {
    b.failed == if a.failed is None && r is Err { Some(r->Err_0.e as int) } else { a.failed }
}
pub mod port {
    use vstd::prelude::*;
    use super::{PollFlags, Kernel, Assoc, OwnedFd, BorrowedFd, Errno, Duration, outcome, List};
    /// portev_events (its low bits are a poll mask), portev_source and portev_user of an event.
    #[derive(Clone, Copy)]
    pub struct Event { pub flags: PollFlags, pub data: usize, pub object: i32, pub user: bool }
    impl Event {
        pub fn events(&self) -> (r: PollFlags) ensures r == self.flags { self.flags }
        pub fn userdata(&self) -> (r: usize) ensures r == self.data { self.data }
    }
    #[verifier::external_body]
    pub fn port_create(Tracked(k): Tracked<&mut Kernel>) -> (r: Result<OwnedFd, Errno>)
        ensures
            outcome(*old(k), *final(k), r), final(k).gets == old(k).gets,
            r is Err ==> final(k).assoc == old(k).assoc && final(k).sent == old(k).sent && final(k).cloexec == old(k).cloexec && final(k).port == old(k).port,
            r is Ok ==> final(k).port == r->Ok_0.fd && !final(k).cloexec && final(k).assoc == Map::<int, Assoc>::empty() && final(k).sent.len() == 0,
    { unimplemented!() }
    pub open spec fn still(a: Kernel, b: Kernel) -> bool { a.port == b.port && a.cloexec == b.cloexec && a.sent == b.sent && a.gets == b.gets }
    /// Associates the descriptor, or changes its association.
    #[verifier::external_body]
    pub unsafe fn port_associate_fd(p: &OwnedFd, fd: BorrowedFd, flags: PollFlags, data: usize, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires p.fd == old(k).port, // [C20]
        ensures
            still(*old(k), *final(k)), outcome(*old(k), *final(k), r),
            final(k).assoc == if r is Ok { old(k).assoc.insert(fd.fd as int, Assoc { flags, data }) } else { old(k).assoc },
    { unimplemented!() }
    /// ENOENT: the descriptor is not associated with the port.
    #[verifier::external_body]
    pub unsafe fn port_dissociate_fd(p: &OwnedFd, fd: BorrowedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires p.fd == old(k).port, // [C20]
        ensures
            still(*old(k), *final(k)),
            r is Err && r->Err_0.e == 2 ==> !old(k).assoc.contains_key(fd.fd as int) && final(k).failed == old(k).failed,
            !(r is Err && r->Err_0.e == 2) ==> outcome(*old(k), *final(k), r),
            final(k).assoc == if r is Ok { old(k).assoc.remove(fd.fd as int) } else { old(k).assoc },
    { unimplemented!() }
    /// The event is one the port was asked for, or one that was sent.
    pub open spec fn due(k: Kernel, e: Event) -> bool {
        if e.user { k.sent.contains(e.data) }
        else { k.assoc.contains_key(e.object as int) && k.assoc[e.object as int].data == e.data }
    }
    /// ETIME: the time is up; there is no event then, as one was enough.  What is delivered is disassociated.
    #[verifier::external_body]
    pub fn port_getn(p: &OwnedFd, list: &mut List<Event>, min: usize, timeout: Option<Duration>, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires
            p.fd == old(k).port, // [C20]
        ensures
            final(k).port == old(k).port, final(k).cloexec == old(k).cloexec, final(k).gets == old(k).gets.push((min as int, timeout)),
            final(list).cap() == old(list).cap(),
            r is Err ==> final(list).view().len() == 0 && final(k).assoc == old(k).assoc && final(k).sent == old(k).sent,
            r is Err && r->Err_0.e == 62 && timeout is Some ==> final(k).failed == old(k).failed,
            !(r is Err && r->Err_0.e == 62 && timeout is Some) ==> outcome(*old(k), *final(k), r),
            r is Ok ==> forall|i: int| 0 <= i < final(list).view().len() ==> due(*old(k), #[trigger] final(list).view()[i]),
            r is Err && r->Err_0.e == 62 ==> timeout is Some,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn port_send(p: &OwnedFd, events: i32, data: usize, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
        requires p.fd == old(k).port, // [C20]
        ensures
            final(k).port == old(k).port, final(k).cloexec == old(k).cloexec, final(k).assoc == old(k).assoc, final(k).gets == old(k).gets,
            outcome(*old(k), *final(k), r),
            final(k).sent == if r is Ok { old(k).sent.push(data) } else { old(k).sent },
    { unimplemented!() }
}
#[verifier::external_body]
fn fcntl_getfd(fd: &OwnedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<FdFlags, Errno>)
    ensures outcome(*old(k), *final(k), r), *final(k) == (Kernel { failed: final(k).failed, ..*old(k) }), r is Ok && fd.fd == old(k).port ==> r->Ok_0.cloexec == old(k).cloexec,
{ unimplemented!() }
#[verifier::external_body]
fn fcntl_setfd(fd: &OwnedFd, f: FdFlags, Tracked(k): Tracked<&mut Kernel>) -> (r: Result<(), Errno>)
    ensures
        outcome(*old(k), *final(k), r),
        *final(k) == (Kernel { failed: final(k).failed, cloexec: if r is Ok && fd.fd == old(k).port { f.cloexec } else { old(k).cloexec }, ..*old(k) }),
{ unimplemented!() }

// ---------------------------------------------------------------- assumed: Vec and the adapter of its iterator
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct List<T> { _p: core::marker::PhantomData<T> }
/// An iterator that still has to yield s.
pub struct It<T> { pub s: Ghost<Seq<T>> }
impl<T> It<T> {
    #[verifier::external_body]
    fn map<U, F: Fn(&T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((&self.s@[i],), #[trigger] r.s@[i]),
    { unimplemented!() }
}
impl<T> List<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body] fn with_capacity(n: usize) -> (r: List<T>) ensures r.view().len() == 0, r.cap() == n, { unimplemented!() }
    #[verifier::external_body] fn capacity(&self) -> (r: usize) ensures r == self.cap(), { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.view().len(), { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0), { unimplemented!() }
    #[verifier::external_body] fn clear(&mut self) ensures final(self).view().len() == 0, final(self).cap() == old(self).cap(), { unimplemented!() }
    #[verifier::external_body] fn iter(&self) -> (r: It<T>) ensures r.s@ == self.view(), { unimplemented!() }
}

// ---------------------------------------------------------------- the repository's types
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }
#[derive(Clone, Copy)]
pub struct EventExtra { pub flags: PollFlags }
#[derive(Clone, Copy)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
pub struct Events { pub list: List<port::Event> }
pub struct Poller { pub port_fd: OwnedFd }
impl EventExtra {
pub const fn empty() -> (r: EventExtra)
    ensures r.flags.none(), // [C20]
{
//@BODY EventExtra|empty
}
pub fn set_hup(&mut self, value: bool)
    ensures final(self).flags == old(self).flags.set_spec(PollFlags::HUP, value), // [C20]
{
//@BODY EventExtra|set_hup
}
pub fn set_pri(&mut self, value: bool)
    ensures final(self).flags == old(self).flags.set_spec(PollFlags::PRI, value), // [C20]
{
//@BODY EventExtra|set_pri
}
pub fn is_hup(&self) -> (r: bool)
    ensures r == self.flags.hup, // [C20]
{
//@BODY EventExtra|is_hup
}
pub fn is_pri(&self) -> (r: bool)
    ensures r == self.flags.pri, // [C20]
{
//@BODY EventExtra|is_pri
}
pub fn is_connect_failed(&self) -> (r: Option<bool>)
    ensures r == Some(self.flags.err && self.flags.hup), // [C20]
{
//@BODY EventExtra|is_connect_failed
}
pub fn is_err(&self) -> (r: Option<bool>)
    ensures r == Some(self.flags.err), // [C20]
{
//@BODY EventExtra|is_err
}
}
/// The parts of a mask that mean readable, and writable.
pub open spec fn reads(f: PollFlags) -> bool { f.i || f.pri || f.hup || f.err }
pub open spec fn writes(f: PollFlags) -> bool { f.out || f.hup || f.err }
fn read_flags() -> (r: PollFlags)
    ensures r.i && r.pri && r.hup && r.err && !r.out && !r.other, // [C20]
{
//@BODY -|read_flags
}
fn write_flags() -> (r: PollFlags)
    ensures r.out && r.hup && r.err && !r.i && !r.pri && !r.other, // [C20]
{
//@BODY -|write_flags
}
pub open spec fn decoded(e: port::Event) -> Event {
    Event { key: e.data, readable: reads(e.flags), writable: writes(e.flags), extra: EventExtra { flags: e.flags } }
}
impl Events {
pub fn with_capacity(cap: usize) -> (r: Events)
    ensures r.list.view().len() == 0 && r.list.cap() >= cap, // [C20]
{
//@BODY Events|with_capacity
}
pub fn iter(&self) -> (r: It<Event>)
    ensures
        r.s@.len() == self.list.view().len(), // [C20]
        forall|i: int| 0 <= i < r.s@.len() ==> #[trigger] r.s@[i] == decoded(self.list.view()[i]), // [C20]
{
//@BODY Events|iter
}
pub fn clear(&mut self)
    ensures final(self).list.view().len() == 0 && final(self).list.cap() == old(self).list.cap(), // [C20]
{
//@BODY Events|clear
}
pub fn capacity(&self) -> (r: usize)
    ensures r == self.list.cap(), // [C20]
{
//@BODY Events|capacity
}
}
/// What an association asks for: exactly the interest; errors and hang-ups are reported in any case.
pub open spec fn asks(f: PollFlags, ev: Event) -> bool {
    f.i == ev.readable && (f.pri ==> ev.readable || ev.extra.flags.pri) && f.out == ev.writable && !f.other
}
impl Poller {
pub open spec fn inv(&self, k: Kernel) -> bool { self.port_fd.fd == k.port && k.cloexec }
pub fn new(Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<Poller>)
    requires old(k).failed is None,
    ensures
        r is Ok ==> r->Ok_0.inv(*final(k)), // [C20]
        r is Ok ==> final(k).assoc == Map::<int, Assoc>::empty() && final(k).sent.len() == 0, // [C20]
        r is Ok <==> final(k).failed is None, // [C20]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C20]
{
//@BODY Poller|new
}
pub fn supports_level(&self) -> (r: bool)
    ensures !r, // [C20]
{
//@BODY Poller|supports_level
}
pub fn supports_edge(&self) -> (r: bool)
    ensures !r, // [C20]
{
//@BODY Poller|supports_edge
}
//@REGISTER unsafe|add|fd: RawFd|fd as int
//@REGISTER |modify|fd: BorrowedFd|fd.fd as int
pub fn delete(&self, fd: BorrowedFd, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)), old(k).failed is None,
    ensures
        self.inv(*final(k)) && final(k).sent == old(k).sent && final(k).gets == old(k).gets,
        r is Ok ==> !final(k).assoc.contains_key(fd.fd as int) && final(k).assoc == old(k).assoc.remove(fd.fd as int), // [C20]
        r is Err ==> final(k).assoc == old(k).assoc, // [C20]
        r is Ok <==> final(k).failed is None, // [C20]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C20]
{
//@BODY Poller|delete
}
pub fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)), old(k).failed is None,
    ensures
        self.inv(*final(k)),
        // one sleep, for the timeout, until there is an event
        final(k).gets == old(k).gets.push((1, timeout)), // [C20]
        // its events and no others
        r is Ok ==> forall|i: int| 0 <= i < final(events).list.view().len() ==> port::due(*old(k), #[trigger] final(events).list.view()[i]), // [C20]
        final(events).list.cap() == old(events).list.cap(), // [C20]
        // the end of the timeout is no error, everything else is
        r is Ok <==> final(k).failed is None, // [C20]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C20]
{
//@BODY Poller|wait
}
pub fn notify(&self, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)), old(k).failed is None,
    ensures
        self.inv(*final(k)) && final(k).assoc == old(k).assoc,
        // it will be retrieved, and no user sees it
        r is Ok ==> final(k).sent == old(k).sent.push(usize::MAX), // [C20]
        r is Ok <==> final(k).failed is None, // [C20]
        r is Err ==> r->Err_0.errno == final(k).failed->Some_0, // [C20]
{
//@BODY Poller|notify
}
fn as_raw_fd(&self) -> (r: RawFd)
    ensures r == self.port_fd.fd, // [C20]
{
//@BODY AsRawFd for Poller|as_raw_fd
}
fn as_fd(&self) -> (r: BorrowedFd)
    ensures r.fd == self.port_fd.fd, // [C20]
{
//@BODY AsFd for Poller|as_fd
}
}
} // verus!
fn main() {}

//@SNIPPET register
pub %(unsafe)s fn %(name)s(&self, %(fd)s, ev: Event, mode: PollMode, Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)
    requires self.inv(*old(k)), old(k).failed is None,
    ensures
        self.inv(*final(k)) && final(k).sent == old(k).sent && final(k).gets == old(k).gets,
        r is Ok ==> mode is Oneshot, // [C20]
        r is Ok ==> final(k).assoc.contains_key(%(key)s) && final(k).assoc[%(key)s].data == ev.key && asks(final(k).assoc[%(key)s].flags, ev), // [C20]
        r is Ok ==> final(k).assoc.remove(%(key)s) == old(k).assoc.remove(%(key)s), // [C20]
        r is Err ==> final(k).assoc == old(k).assoc, // [C20]
        r is Err && final(k).failed is None ==> !(mode is Oneshot) && r->Err_0.kind is Unsupported, // [C20]
        r is Err && final(k).failed is Some ==> r->Err_0.errno == final(k).failed->Some_0, // [C20]
        r is Ok ==> final(k).failed is None, // [C20]
{
//@BODY Poller|%(name)s
}
//@END
