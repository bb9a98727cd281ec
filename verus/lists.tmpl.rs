// The list of events: Events of lib.rs over Events of epoll.rs and of poll.rs, for lists of any length and capacity.
// The bodies are cut out of /repo/src by tools/verus.py on every run.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub const NOTIFY_KEY: usize = usize::MAX;

// ---------------------------------------------------------------- assumed: slices' iterators and their adapters
/// An iterator that still has to yield s.
pub struct It<T> { pub s: Ghost<Seq<T>> }
/// The same by reference.
pub struct RefIt<T> { pub s: Ghost<Seq<T>> }
impl<T> RefIt<T> {
    #[verifier::external_body]
    fn take(self, n: usize) -> (r: RefIt<T>) ensures r.s@ == if n < self.s@.len() { self.s@.take(n as int) } else { self.s@ }, { unimplemented!() }
    #[verifier::external_body]
    fn skip(self, n: usize) -> (r: RefIt<T>) ensures r.s@ == if n < self.s@.len() { self.s@.skip(n as int) } else { Seq::<T>::empty() }, { unimplemented!() }
    #[verifier::external_body]
    fn map<U, F: Fn(&T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((&self.s@[i],), #[trigger] r.s@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn copied(self) -> (r: It<T>) ensures r.s@ == self.s@, { unimplemented!() }
    #[verifier::external_body]
    fn cloned(self) -> (r: It<T>) ensures r.s@ == self.s@, { unimplemented!() }
    #[verifier::external_body]
    fn count(self) -> (r: usize) ensures r == self.s@.len(), { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    fn take(self, n: usize) -> (r: It<T>) ensures r.s@ == if n < self.s@.len() { self.s@.take(n as int) } else { self.s@ }, { unimplemented!() }
    #[verifier::external_body]
    fn skip(self, n: usize) -> (r: It<T>) ensures r.s@ == if n < self.s@.len() { self.s@.skip(n as int) } else { Seq::<T>::empty() }, { unimplemented!() }
    #[verifier::external_body]
    fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures
            forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)) ==> r.s@ == #[trigger] self.s@.filter(p),
    { unimplemented!() }
    #[verifier::external_body]
    fn count(self) -> (r: usize) ensures r == self.s@.len(), { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).s@.len() == 0 ==> r is None && final(self).s@ == old(self).s@,
            old(self).s@.len() > 0 ==> r == Some(old(self).s@[0]) && final(self).s@ == old(self).s@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn last(self) -> (r: Option<T>) ensures r is None <==> self.s@.len() == 0, { unimplemented!() }
}

// ---------------------------------------------------------------- assumed: Vec and rustix's EventVec
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Vec<T> { _p: core::marker::PhantomData<T> }
impl<T> Vec<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body] fn new() -> (r: Vec<T>) ensures r.view().len() == 0, r.cap() == 0, { unimplemented!() }
    #[verifier::external_body] fn with_capacity(n: usize) -> (r: Vec<T>) ensures r.view().len() == 0, r.cap() == n, { unimplemented!() }
    #[verifier::external_body] fn capacity(&self) -> (r: usize) ensures r == self.cap(), { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.view().len(), { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0), { unimplemented!() }
    #[verifier::external_body] fn clear(&mut self) ensures final(self).view().len() == 0, final(self).cap() == old(self).cap(), { unimplemented!() }
    #[verifier::external_body] fn truncate(&mut self, n: usize)
        ensures final(self).cap() == old(self).cap(), final(self).view() == if n < old(self).view().len() { old(self).view().take(n as int) } else { old(self).view() },
    { unimplemented!() }
    #[verifier::external_body] fn reserve(&mut self, n: usize)
        ensures
            final(self).view() == old(self).view(), final(self).cap() >= old(self).view().len() + n, final(self).cap() >= old(self).cap(),
            old(self).cap() >= old(self).view().len() + n ==> final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body] fn reserve_exact(&mut self, n: usize)
        ensures
            final(self).view() == old(self).view(), final(self).cap() >= old(self).view().len() + n, final(self).cap() >= old(self).cap(),
            old(self).cap() >= old(self).view().len() + n ==> final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body] fn shrink_to_fit(&mut self)
        ensures final(self).view() == old(self).view(), old(self).view().len() <= final(self).cap() <= old(self).cap(), { unimplemented!() }
    #[verifier::external_body] fn shrink_to(&mut self, n: usize)
        ensures final(self).view() == old(self).view(), old(self).view().len() <= final(self).cap() <= old(self).cap(), n >= old(self).cap() ==> final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body] fn iter(&self) -> (r: RefIt<T>) ensures r.s@ == self.view(), { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct NonZeroUsize { pub n: usize }
impl NonZeroUsize {
    fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures n == 0 <==> r is None, r is Some ==> r->0.n == n, { if n == 0 { None } else { Some(NonZeroUsize { n }) } }
    fn get(self) -> (r: usize) ensures r == self.n, { self.n }
}
pub struct PhantomData;

// ---------------------------------------------------------------- epoll.rs
pub mod ep {
use vstd::prelude::*;
use super::{RefIt, It};
#[derive(Clone, Copy)] pub struct Flags { pub b: u32 }
pub uninterp spec fn meets(a: Flags, b: Flags) -> bool;
pub uninterp spec fn rf() -> Flags;
pub uninterp spec fn wf() -> Flags;
impl Flags {
    #[verifier::external_body] fn intersects(self, o: Flags) -> (r: bool) ensures r == meets(self, o), { unimplemented!() }
    #[verifier::external_body] fn contains(self, o: Flags) -> (r: bool) { unimplemented!() }
}
// unit epoll
#[verifier::external_body] fn read_flags() -> (r: Flags) ensures r == rf(), { unimplemented!() }
#[verifier::external_body] fn write_flags() -> (r: Flags) ensures r == wf(), { unimplemented!() }
#[derive(Clone, Copy)] pub struct EventExtra { pub flags: Flags }
#[derive(Clone, Copy)] pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
pub mod epoll {
    use vstd::prelude::*;
    #[derive(Clone, Copy)] pub struct EventData { pub v: u64 }
    impl EventData { pub fn u64(self) -> (r: u64) ensures r == self.v, { self.v } }
    #[derive(Clone, Copy)] pub struct RawEvent { pub flags: super::Flags, pub data: EventData }
    pub type EventVec = super::super::Vec<RawEvent>;
}
pub open spec fn decoded(e: epoll::RawEvent) -> Event {
    Event { key: e.data.v as usize, readable: meets(e.flags, rf()), writable: meets(e.flags, wf()), extra: EventExtra { flags: e.flags } }
}
pub struct Events { pub list: epoll::EventVec }
impl Events {
    pub open spec fn view(&self) -> Seq<Event> { Seq::new(self.list.view().len(), |i: int| decoded(self.list.view()[i])) }
    pub open spec fn cap(&self) -> nat { self.list.cap() }
//@LISTS epoll
}
}

// ---------------------------------------------------------------- poll.rs
pub mod po {
use vstd::prelude::*;
use super::{RefIt, It, Vec};
pub struct EventExtra { pub b: u32 }
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
pub struct Events { pub inner: Vec<Event> }
impl Events {
    pub open spec fn view(&self) -> Seq<Event> { self.inner.view() }
    pub open spec fn cap(&self) -> nat { self.inner.cap() }
//@LISTS poll
}
}

// ---------------------------------------------------------------- lib.rs, over each of the two
//@API ep
//@API po
} // verus!
fn main() {}

//@SNIPPET sys
    pub fn with_capacity(cap: usize) -> (r: Events)
        ensures
            r.view().len() == 0, // [C13]
            r.cap() == cap, // [C13]
    {
//@BODY with_capacity
    }
    pub fn iter(&self) -> (r: It<Event>)
        ensures
            r.s@.len() == self.view().len(), // [C13]
            r.s@ =~= self.view(), // [C01 C02 C12 C13]
    {
//@BODY iter
    }
    pub fn clear(&mut self)
        ensures
            final(self).view().len() == 0, // [C06 C13]
            final(self).cap() == old(self).cap(), // [C13]
    {
//@BODY clear
    }
    pub fn capacity(&self) -> (r: usize)
        ensures r == self.cap(), // [C13]
    {
//@BODY capacity
    }
//@END
//@SNIPPET lib
pub mod lib_%(sys)s {
use vstd::prelude::*;
use super::{It, NonZeroUsize, PhantomData, NOTIFY_KEY};
use super::%(sys)s as sys;
use super::%(sys)s::Event;
pub struct Events { pub events: sys::Events, pub _not_sync: PhantomData }
pub open spec fn of_user() -> spec_fn(Event) -> bool { |e: Event| e.key != usize::MAX }
impl Events {
    /// What the user sees.
    pub open spec fn view(&self) -> Seq<Event> { self.events.view().filter(of_user()) }
    pub open spec fn inv(&self) -> bool { self.events.cap() > 0 }
    pub fn default() -> (r: Events)
        ensures
            r.inv() && r.events.view().len() == 0, // [C13]
    {
//@BODY default
    }
    pub fn new() -> (r: Events)
        ensures
            r.inv() && r.events.view().len() == 0, // [C13]
    {
//@BODY new
    }
    pub fn with_capacity(capacity: NonZeroUsize) -> (r: Events)
        requires capacity.n > 0,
        ensures
            r.inv() && r.events.view().len() == 0, // [C13]
            r.events.cap() == capacity.n, // [C13]
    {
//@BODY with_capacity
    }
    pub fn iter(&self) -> (r: It<Event>)
        ensures r.s@ == self.view(), // [C04 C13]
    {
//@BODY iter
    }
    pub fn clear(&mut self)
        requires old(self).inv(),
        ensures
            final(self).inv() && final(self).events.view().len() == 0, // [C06 C13]
            final(self).events.cap() == old(self).events.cap(), // [C13]
    {
//@BODY clear
    }
    pub fn len(&self) -> (r: usize)
        requires self.inv(),
        ensures r == self.view().len(), // [C04 C13]
    {
//@BODY len
    }
    pub fn is_empty(&self) -> (r: bool)
        requires self.inv(),
        ensures r == (self.view().len() == 0), // [C04 C13]
    {
//@BODY is_empty
    }
    pub fn capacity(&self) -> (r: NonZeroUsize)
        requires self.inv(),
        ensures r.n == self.events.cap(), // [C13]
    {
//@BODY capacity
    }
}
}
//@END
