//! C13: wait's count, the event list and its capacity.
use super::pre::*;
use std::num::NonZeroUsize;

/// Three ready oneshot sources, a list of `cap`: everything is delivered exactly once.
fn small(cap: usize) {
    let p = &mk();
    // (poll(2) delivers everything at once)
    ghost::k().any_order = !POLL;
    ghost::add_user(100, IN);
    ghost::add_user(101, OUT);
    ghost::add_user(102, IN);
    add(p, &S0, 7, R);
    add(p, &S1, 8, W);
    add(p, &S2, 9, RW);
    let mut evs = list(cap);
    let mut got = [0u8; 3];
    let mut left = 3;
    let mut i = 0;
    while i < 3 && left > 0 {
        let n = wait0(p, &mut evs);
        let s = look(&evs);
        assert!(n == s.n && n == evs.len() && evs.is_empty() == (n == 0), "count and list differ");
        assert!(n > 0, "ready sources are not reported");
        if !POLL {
            assert!(n <= cap, "the list exceeds its capacity");
        }
        got[0] += s.key(7).is_some() as u8;
        got[1] += s.key(8).is_some() as u8;
        got[2] += s.key(9).is_some() as u8;
        left -= n;
        i += 1;
    }
    ghost::k().any_order = false;
    assert!(got == [1, 1, 1], "an event is lost or delivered twice");
    assert!(wait0(p, &mut evs) == 0 && evs.is_empty(), "an event is delivered twice");
}

proofs! {
    c13_small_1(5) { small(1) }
    c13_small_2(5) { small(2) }
    c13_small_3(5) { small(3) }

    // every capacity
    c13_capacity(5) {
        ghost::reset();
        let n = nd::usize();
        nd::assume(n > 0 && n < 1 << 20);
        let mut evs = Events::with_capacity(NonZeroUsize::new(n).unwrap());
        assert!(evs.capacity().get() == n, "the capacity is not the one asked for");
        assert!(evs.len() == 0 && evs.is_empty() && evs.iter().next().is_none(), "a new list is not empty");
        evs.clear();
        assert!(evs.capacity().get() == n && evs.is_empty(), "clear changes the capacity");
        let d = Events::new();
        assert!(d.capacity().get() >= 1 && d.is_empty(), "a new list is not empty");
        let d = Events::default();
        assert!(d.capacity().get() >= 1 && d.is_empty(), "a new list is not empty");
    }
    // clear, and reuse
    c13_clear(5) {
        let p = &mk();
        let u = ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        let mut evs = list(4);
        assert!(wait0(p, &mut evs) == 1 && evs.len() == 1 && !evs.is_empty(), "count and list differ");
        let c = evs.capacity();
        if nd::bool() {
            evs.clear();
            assert!(evs.len() == 0 && evs.is_empty() && look(&evs).n == 0, "clear leaves events");
            assert!(evs.capacity() == c, "clear changes the capacity");
        }
        let b = any_ready() & (IN | OUT | PRI);
        ghost::set_ready(u, b);
        modify(p, &S0, 8, R);
        let n = wait0(p, &mut evs);
        let s = look(&evs);
        assert!(n == s.n && n == (b & R.wants() != 0) as usize, "count and list differ");
        if let Some(e) = s.a {
            assert!(e.key == 8, "an event of an earlier wait reappears");
        }
        assert!(evs.capacity() == c, "wait changes the capacity");
    }
    // a wait that is only woken up leaves no old event in the list
    c13_stale_notified(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        let mut evs = list(4);
        assert!(wait0(p, &mut evs) == 1, "a ready source is not reported");
        notify(p);
        ghost::k().nwait = 0;
        ghost::k().hang_is_error = true;
        let n = wait(p, &mut evs, None);
        assert!(n == 0 && look(&evs).n == 0 && evs.is_empty(), "an event of an earlier wait reappears");
    }
    c13_stale_timeout(5) {
        let p = &mk();
        let u = ghost::add_user(100, IN);
        add_mode(p, &S0, 7, R, PollMode::Level);
        let mut evs = list(4);
        assert!(wait0(p, &mut evs) == 1, "a ready source is not reported");
        ghost::set_ready(u, 0);
        ghost::k().nwait = 0;
        let n = wait(p, &mut evs, Some(Duration::from_secs(1)));
        assert!(n == 0 && look(&evs).n == 0 && evs.is_empty(), "an event of an earlier wait reappears");
    }
    // any number of ready sources
    c13_count(5) {
        let p = &mk();
        let (a, b, c) = (any_ready(), any_ready(), any_ready());
        ghost::add_user(100, a);
        ghost::add_user(101, b);
        ghost::add_user(102, c);
        add(p, &S0, 7, RW);
        add(p, &S1, 8, RW);
        add(p, &S2, 9, RW);
        let m = nd::bool();
        if m {
            notify(p);
        }
        let mut evs = list(4);
        let n = wait0(p, &mut evs);
        let s = look(&evs);
        let want = (a != 0) as usize + (b != 0) as usize + (c != 0) as usize;
        assert!(n == s.n && n == evs.len(), "count and list differ");
        // poll(2) may answer a notification first
        assert!(n == want || (POLL && m && n == 0), "an event is missing or has no reason");
    }
    // iterating does not consume
    c13_iter_twice(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        ghost::add_user(101, OUT);
        add(p, &S0, 7, R);
        add(p, &S1, 8, W);
        let mut evs = list(4);
        assert!(wait0(p, &mut evs) == 2, "a ready source is not reported");
        let (x, y) = (look(&evs), look(&evs));
        assert!(x.n == 2 && y.n == 2 && x.a == y.a && x.b == y.b, "iterating changes the list");
    }
}
