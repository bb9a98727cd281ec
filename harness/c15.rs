//! C15: event values.
use super::pre::*;

fn plain(e: &Event, k: usize, r: bool, w: bool) {
    assert!(e.key == k && e.readable == r && e.writable == w, "a constructor sets something else");
    assert!(!e.is_interrupt() && !e.is_priority(), "a new event has extra information");
    assert!(e.is_err() == Some(false), "a new event is an error");
    #[allow(deprecated)]
    let c = e.is_connect_failed();
    assert!(c == Some(false), "a new event is a failed connection");
}

/// Any event a user can have in hand.
fn any_event() -> (Event, Int, usize) {
    let i = any_int();
    let k = nd::usize();
    let mut e = i.ev(k);
    // with queries in any order of setting
    if nd::bool() {
        e.set_interrupt(i.h);
        e.set_priority(i.p);
    }
    (e, i, k)
}
fn has(e: &Event, k: usize, i: Int) {
    assert!(e.key == k && e.readable == i.r && e.writable == i.w, "a setter changes something else");
    assert!(e.is_interrupt() == i.h, "is_interrupt is wrong");
    assert!(e.is_priority() == i.p, "is_priority is wrong");
    assert!(e.is_err() == Some(false), "an interest is an error");
}

proofs! {
    c15_constructors__u(5) {
        ghost::reset();
        let (k, r, w) = (nd::usize(), nd::bool(), nd::bool());
        plain(&Event::new(k, r, w), k, r, w);
        plain(&Event::all(k), k, true, true);
        plain(&Event::readable(k), k, true, false);
        plain(&Event::writable(k), k, false, true);
        plain(&Event::none(k), k, false, false);
    }
    c15_setters__u(5) {
        ghost::reset();
        let (e0, i, k) = any_event();
        has(&e0, k, i);
        let b = nd::bool();
        let mut e = e0;
        e.set_interrupt(b);
        has(&e, k, Int { h: b, ..i });
        let mut e = e0;
        e.set_priority(b);
        has(&e, k, Int { p: b, ..i });
        let e = e0.with_interrupt();
        has(&e, k, Int { h: true, ..i });
        let e = e0.with_priority();
        has(&e, k, Int { p: true, ..i });
        let e = e0.with_no_extra();
        has(&e, k, Int { h: false, p: false, ..i });
        assert!(e == Event::new(k, i.r, i.w), "with_no_extra leaves extra information");
        let mut e = e0;
        e.clear_extra();
        assert!(e == Event::new(k, i.r, i.w), "clear_extra leaves extra information");
    }
    c15_equality__u(5) {
        ghost::reset();
        let (a, i, k) = any_event();
        let (b, j, l) = any_event();
        let same = k == l && i == j;
        assert!((a == b) == same, "equality is not equality of the components");
        assert!(a == a, "an event differs from itself");
    }
    // delivered events: extra information can be removed, and only that
    c15_delivered(5) {
        let p = &mk();
        ghost::add_user(100, any_ready());
        add(p, &S0, 7, RW);
        if let Some(e) = poll_one(p) {
            let f = e.with_no_extra();
            assert!(f == Event::new(7, e.readable, e.writable), "with_no_extra is wrong");
            let b = nd::bool();
            let mut g = e;
            g.set_interrupt(b);
            assert!(g.is_interrupt() == b && g.is_priority() == e.is_priority(), "set_interrupt is wrong");
            assert!(g.is_err() == e.is_err() && g.key == 7, "set_interrupt is wrong");
            assert!(g.readable == e.readable && g.writable == e.writable, "set_interrupt is wrong");
            let mut g = e;
            g.set_priority(b);
            assert!(g.is_priority() == b && g.is_interrupt() == e.is_interrupt(), "set_priority is wrong");
            assert!(g.is_err() == e.is_err() && g.key == 7, "set_priority is wrong");
            assert!(g.readable == e.readable && g.writable == e.writable, "set_priority is wrong");
            let mut g = e;
            g.clear_extra();
            assert!(g == f, "clear_extra is wrong");
        }
    }
}
