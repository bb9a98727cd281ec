//! C01: an event is reported exactly for the most recently requested interest.
use super::pre::*;

fn one(p: &Poller) {
    let ready = any_ready();
    ghost::add_user(100, ready);
    let (i, key) = (any_int(), any_key());
    add(p, &S0, key, i);
    match poll_one(p) {
        Some(e) => {
            assert!(ready & i.wants() != 0, "an event without a reason");
            assert!(e.key == key, "the event carries another key");
        }
        None => assert!(ready & i.wants() == 0, "a ready source is not reported"),
    }
}

proofs! {
    // add, then wait: all interests, keys and readiness states
    c01_add(5) { one(&mk()) }
    c01_add_notimer__e(5) { one(&mk_notimer()) }

    // a modify replaces key and interest, whether or not anything was ready before
    c01_modify(5) {
        let p = &mk();
        let ready = any_ready();
        ghost::add_user(100, ready);
        let (i, j) = (any_int(), any_int());
        let key = any_key();
        add(p, &S0, 7, i);
        modify(p, &S0, key, j);
        match poll_one(p) {
            Some(e) => {
                assert!(ready & j.wants() != 0, "an event without a reason");
                assert!(e.key == key, "the event carries another key");
            }
            None => assert!(ready & j.wants() == 0, "a ready source is not reported"),
        }
    }

    // the readiness that counts is the one at the time of the wait
    c01_change(5) {
        let p = &mk();
        let u = ghost::add_user(100, any_ready());
        let i = any_int();
        add(p, &S0, 7, i);
        let ready = any_ready();
        ghost::set_ready(u, ready);
        let e = poll_one(p);
        assert!(e.is_some() == (ready & i.wants() != 0), "an event is missing or has no reason");
    }

    // re-registration after a delivery
    c01_rearm(5) {
        let p = &mk();
        let u = ghost::add_user(100, IN | OUT);
        add(p, &S0, 7, RW);
        assert!(poll_one(p).is_some(), "a ready source is not reported");
        let ready = any_ready();
        ghost::set_ready(u, ready);
        let j = any_int();
        modify(p, &S0, 8, j);
        match poll_one(p) {
            Some(e) => {
                assert!(ready & j.wants() != 0, "an event without a reason");
                assert!(e.key == 8, "the event carries another key");
            }
            None => assert!(ready & j.wants() == 0, "a ready source is not reported"),
        }
    }

    // a sleeping wait is woken by readiness within the interest, and by nothing else
    c01_wakes(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        let i = any_int();
        add(p, &S0, 7, i);
        ghost::k().on_block_on = true;
        ghost::k().on_block = become_ready;
        let mut evs = list(4);
        let n = wait(p, &mut evs, Some(Duration::from_secs(1)));
        let ready = ghost::k().users[0].ready;
        assert!(n == (ready & i.wants() != 0) as usize, "an event is missing or has no reason");
        let s = look(&evs);
        assert!(s.n == n, "wait returns another number than the list holds");
        if let Some(e) = s.a {
            assert!(e.key == 7, "the event carries another key");
        }
    }

    // a delivered event can serve as the next interest: only its public fields and the
    // priority/interrupt requests count
    c01_reuse_event(5) {
        let p = &mk();
        let u = ghost::add_user(100, any_ready());
        add(p, &S0, 7, RW);
        if let Some(mut e) = poll_one(p) {
            e.readable = nd::bool();
            e.writable = nd::bool();
            let j = Int { r: e.readable, w: e.writable, p: e.is_priority(), h: e.is_interrupt() };
            if p.modify(&S0, e).is_err() {
                panic!("modify fails although it must succeed");
            }
            let ready = any_ready();
            ghost::set_ready(u, ready);
            let e = poll_one(p);
            assert!(e.is_some() == (ready & j.wants() != 0), "an event is missing or has no reason");
        }
    }
}

fn become_ready() {
    ghost::set_ready(0, any_ready());
}
