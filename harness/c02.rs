//! C02: a delivered event describes the source's readiness truthfully.
use super::pre::*;

fn one(p: &Poller, mode: PollMode) {
    let ready = any_ready();
    ghost::add_user(100, ready);
    let i = any_int();
    add_mode(p, &S0, 7, i, mode);
    if let Some(e) = poll_one(p) {
        flags_ok(&e, ready & i.wants());
    }
}

proofs! {
    c02_one_oneshot(5) { one(&mk(), PollMode::Oneshot) }
    c02_one_level(5) { one(&mk(), PollMode::Level) }
    c02_one_edge__e(5) { one(&mk(), PollMode::Edge) }
    c02_one_edge_oneshot__e(5) { one(&mk(), PollMode::EdgeOneshot) }
    c02_one_notimer__e(5) { one(&mk_notimer(), PollMode::Oneshot) }

    // two sources: each event has the flags of its own source
    c02_two(5) {
        let p = &mk();
        let (a, b) = (any_ready(), any_ready());
        ghost::add_user(100, a);
        ghost::add_user(101, b);
        let (i, j) = (any_int(), any_int());
        add(p, &S0, 7, i);
        add(p, &S1, 8, j);
        let s = poll_all(p);
        let (x, y) = (s.key(7), s.key(8));
        assert!(s.n == x.is_some() as usize + y.is_some() as usize, "an event with a strange key");
        if let Some(e) = x {
            flags_ok(&e, a & i.wants());
        }
        if let Some(e) = y {
            flags_ok(&e, b & j.wants());
        }
    }

    // two waits on the same list: nothing of the first one is left in the second one
    c02_two_waits(5) {
        let p = &mk();
        let a = any_ready();
        let u = ghost::add_user(100, a);
        add_mode(p, &S0, 7, RW, PollMode::Level);
        let mut evs = list(4);
        let n = wait0(p, &mut evs);
        assert!(n == (a != 0) as usize, "an event is missing or has no reason");
        let b = any_ready();
        ghost::set_ready(u, b);
        let n = wait0(p, &mut evs);
        let s = look(&evs);
        assert!(s.n == n, "wait returns another number than the list holds");
        assert!(n == (b != 0) as usize, "an event is missing or has no reason");
        if let Some(e) = s.a {
            flags_ok(&e, b);
        }
    }

    // the deprecated query: error and hang-up
    c02_connect_failed(5) {
        let p = &mk();
        let a = any_ready();
        ghost::add_user(100, a);
        add(p, &S0, 7, RW);
        if let Some(e) = poll_one(p) {
            #[allow(deprecated)]
            let c = e.is_connect_failed();
            let both = a & ERR != 0 && a & HUP != 0;
            let some = a & (ERR | HUP) != 0;
            assert!(c == Some(if POLL { some } else { both }), "is_connect_failed is wrong");
        }
    }
}
