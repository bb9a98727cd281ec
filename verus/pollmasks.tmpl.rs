// The masks of the poll backend and what its events answer.  The bodies are cut out of /repo/src/poll.rs by
// tools/verus.py on every run; everything else is specification or an assumed contract.
use vstd::prelude::*;
verus! {

/// The bits of an event mask: those the contracts speak about, and whether any other bit is set.
#[derive(Clone, Copy)]
pub struct PollFlags { pub i: bool, pub pri: bool, pub out: bool, pub err: bool, pub hup: bool, pub wrband: bool, pub other: bool }
impl PollFlags {
    pub const IN: PollFlags = PollFlags { i: true, pri: false, out: false, err: false, hup: false, wrband: false, other: false };
    pub const PRI: PollFlags = PollFlags { i: false, pri: true, out: false, err: false, hup: false, wrband: false, other: false };
    pub const OUT: PollFlags = PollFlags { i: false, pri: false, out: true, err: false, hup: false, wrband: false, other: false };
    pub const ERR: PollFlags = PollFlags { i: false, pri: false, out: false, err: true, hup: false, wrband: false, other: false };
    pub const HUP: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: true, wrband: false, other: false };
    pub const WRBAND: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: true, other: false };
    pub const NVAL: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: true };
    pub const RDNORM: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: true };
    pub const RDBAND: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: true };
    pub const WRNORM: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: true };
    pub const MSG: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: true };
    pub const RDHUP: PollFlags = PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: true };
    pub const fn empty() -> (r: PollFlags) ensures r.none() { PollFlags { i: false, pri: false, out: false, err: false, hup: false, wrband: false, other: false } }
    pub open spec fn none(self) -> bool { !self.i && !self.pri && !self.out && !self.err && !self.hup && !self.wrband && !self.other }
    pub open spec fn common(self, o: PollFlags) -> bool { self.i && o.i || self.pri && o.pri || self.out && o.out || self.err && o.err || self.hup && o.hup || self.wrband && o.wrband }
    pub open spec fn all(self, o: PollFlags) -> bool { (o.i ==> self.i) && (o.pri ==> self.pri) && (o.out ==> self.out) && (o.err ==> self.err) && (o.hup ==> self.hup) && (o.wrband ==> self.wrband) }
    #[verifier::external_body]
    pub fn intersects(&self, o: PollFlags) -> (r: bool) ensures !(self.other && o.other) ==> r == self.common(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, o: PollFlags) -> (r: bool) ensures !o.other ==> r == self.all(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
    pub open spec fn set_spec(self, o: PollFlags, v: bool) -> PollFlags { PollFlags { i: if o.i { v } else { self.i }, pri: if o.pri { v } else { self.pri }, out: if o.out { v } else { self.out }, err: if o.err { v } else { self.err }, hup: if o.hup { v } else { self.hup }, wrband: if o.wrband { v } else { self.wrband }, other: self.other } }
    #[verifier::external_body]
    pub fn set(&mut self, o: PollFlags, v: bool) ensures !o.other ==> *final(self) == old(self).set_spec(o, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, o: PollFlags) ensures !o.other ==> *final(self) == old(self).set_spec(o, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, o: PollFlags) ensures !o.other ==> *final(self) == old(self).set_spec(o, false) { unimplemented!() }
}
pub uninterp spec fn share_other(a: PollFlags, b: PollFlags) -> bool;
impl vstd::std_specs::ops::BitAndSpecImpl for PollFlags {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, o: PollFlags) -> bool { true }
    open spec fn bitand_spec(self, o: PollFlags) -> PollFlags { PollFlags { i: self.i && o.i, pri: self.pri && o.pri, out: self.out && o.out, err: self.err && o.err, hup: self.hup && o.hup, wrband: self.wrband && o.wrband, other: self.other && o.other && share_other(self, o) } }
}
impl core::ops::BitAnd for PollFlags {
    type Output = PollFlags;
    #[verifier::external_body]
    fn bitand(self, o: PollFlags) -> (r: PollFlags) { unimplemented!() }
}
impl vstd::std_specs::ops::BitOrSpecImpl for PollFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: PollFlags) -> bool { true }
    open spec fn bitor_spec(self, o: PollFlags) -> PollFlags { PollFlags { i: self.i || o.i, pri: self.pri || o.pri, out: self.out || o.out, err: self.err || o.err, hup: self.hup || o.hup, wrband: self.wrband || o.wrband, other: self.other || o.other } }
}
impl core::ops::BitOr for PollFlags {
    type Output = PollFlags;
    fn bitor(self, o: PollFlags) -> (r: PollFlags) { PollFlags { i: self.i || o.i, pri: self.pri || o.pri, out: self.out || o.out, err: self.err || o.err, hup: self.hup || o.hup, wrband: self.wrband || o.wrband, other: self.other || o.other } }
}
#[derive(Clone, Copy)]
pub struct EventExtra { pub flags: PollFlags }
#[derive(Clone, Copy)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool, pub extra: EventExtra }
impl EventExtra {
//@FN pub const|empty() -> (r: EventExtra)|ensures r.flags.none(), // [C15]
//@FN pub|set_hup(&mut self, value: bool)|ensures final(self).flags == old(self).flags.set_spec(PollFlags::HUP, value), // [C15]
//@FN pub|set_pri(&mut self, value: bool)|ensures final(self).flags == old(self).flags.set_spec(PollFlags::PRI, value), // [C15]
//@FN pub|is_hup(&self) -> (r: bool)|ensures r == self.flags.hup, // [C02 C15]
//@FN pub|is_pri(&self) -> (r: bool)|ensures r == self.flags.pri, // [C02 C15]
//@FN pub|is_err(&self) -> (r: Option<bool>)|ensures r == Some(self.flags.err), // [C02 C15]
//@FN pub|is_connect_failed(&self) -> (r: Option<bool>)|ensures r == Some(self.flags.err || self.flags.hup), // [C02 C15]
}
impl Event {
//@LIBFN pub const|new(key: usize, readable: bool, writable: bool) -> (r: Event)|ensures r.key == key && r.readable == readable && r.writable == writable && r.extra.flags.none(), // [C15]
//@LIBFN pub const|none(key: usize) -> (r: Event)|ensures r.key == key && !r.readable && !r.writable && r.extra.flags.none(), // [C15]
//@LIBFN pub|set_interrupt(&mut self, active: bool)|ensures *final(self) == (Event { extra: EventExtra { flags: old(self).extra.flags.set_spec(PollFlags::HUP, active) }, ..*old(self) }), // [C15]
//@LIBFN pub|with_interrupt(self) -> (r: Event)|ensures r == (Event { extra: EventExtra { flags: self.extra.flags.set_spec(PollFlags::HUP, true) }, ..self }), // [C15]
//@LIBFN pub|set_priority(&mut self, active: bool)|ensures *final(self) == (Event { extra: EventExtra { flags: old(self).extra.flags.set_spec(PollFlags::PRI, active) }, ..*old(self) }), // [C15]
//@LIBFN pub|with_priority(self) -> (r: Event)|ensures r == (Event { extra: EventExtra { flags: self.extra.flags.set_spec(PollFlags::PRI, true) }, ..self }), // [C15]
//@LIBFN pub|is_interrupt(&self) -> (r: bool)|ensures r == self.extra.flags.hup, // [C02 C15]
//@LIBFN pub|is_priority(&self) -> (r: bool)|ensures r == self.extra.flags.pri, // [C02 C15]
//@LIBFN pub|is_err(&self) -> (r: Option<bool>)|ensures r == Some(self.extra.flags.err), // [C02 C15]
//@LIBFN pub|clear_extra(&mut self)|ensures final(self).key == old(self).key && final(self).readable == old(self).readable && final(self).writable == old(self).writable && final(self).extra.flags.none(), // [C15]
//@LIBFN pub|with_no_extra(self) -> (r: Event)|ensures r.key == self.key && r.readable == self.readable && r.writable == self.writable && r.extra.flags.none(), // [C15]
}
/// What the system is asked for: exactly the interest; errors and hang-ups are reported in any case.
fn poll_events(ev: Event) -> (r: PollFlags)
    ensures
        r.i == ev.readable, // [C01]
        r.pri == (ev.readable || ev.extra.flags.pri), // [C01]
        r.out == ev.writable, // [C01]
        r.wrband ==> ev.writable, // [C01]
        !r.other, // [C01]
{
//@BODY poll_events
}
fn read_events() -> (r: PollFlags)
    ensures r.i && r.pri && r.hup && r.err && !r.out && !r.wrband && !r.other, // [C01 C02]
{
//@BODY read_events
}
fn write_events() -> (r: PollFlags)
    ensures r.out && r.hup && r.err && !r.i && !r.pri && !r.other, // [C01 C02]
{
//@BODY write_events
}
} // verus!
fn main() {}

//@SNIPPET drain
//@END
