//! C04: the reserved key, and the poller's own wake-ups.
use super::pre::*;
use mstd::io::ErrorKind;

fn expect_invalid(r: mstd::io::Result<()>) {
    match r {
        Ok(()) => panic!("the reserved key, or a descriptor of the poller, is accepted"),
        Err(e) => assert!(e.kind() == ErrorKind::InvalidInput, "not reported as invalid input"),
    }
}

/// Wake-ups pending together with a ready source.
fn mixed(p: &Poller, cap: usize, level: bool) {
    ghost::k().any_order = true;
    ghost::add_user(100, IN);
    let m = if level { PollMode::Level } else { PollMode::Oneshot };
    add_mode(p, &S0, 7, R, m);
    notify(p);
    let mut evs = list(cap);
    let n1 = wait0(p, &mut evs);
    let s = look(&evs);
    assert!(s.n == n1 && evs.len() == n1 && evs.is_empty() == (n1 == 0), "count and list differ");
    if let Some(e) = s.a {
        assert!(e.key == 7, "a wake-up is visible");
    }
    let n2 = wait0(p, &mut evs);
    let s = look(&evs);
    assert!(s.n == n2 && evs.len() == n2, "count and list differ");
    if let Some(e) = s.a {
        assert!(e.key == 7, "a wake-up is visible");
    }
    // the source is delivered at the latest by the second wait
    if level {
        assert!(n2 == 1, "a wake-up hides an event");
    } else {
        assert!(n1 + n2 == 1, "a wake-up hides an event, or an event is repeated");
    }
}

fn own_fd(fd: i32) {
    let p = &mk();
    let s = Src(fd);
    let i = any_int();
    expect_invalid(unsafe { p.add(&s, i.ev(7)) });
    expect_invalid(p.modify(&s, i.ev(7)));
    expect_invalid(p.delete(&s));
    // and the wake-ups still work
    notify(p);
    ghost::k().hang_is_error = true;
    let mut evs = list(4);
    assert!(wait(p, &mut evs, None) == 0, "a wake-up is visible");
}

proofs! {
    c04_add_reserved(5) {
        let p = &mk();
        ghost::add_user(100, any_ready());
        let i = any_int();
        expect_invalid(unsafe { p.add(&S0, i.ev(usize::MAX)) });
        assert!(poll_one(p).is_none(), "a refused add has an effect");
        // still unregistered
        assert!(p.modify(&S0, i.ev(7)).is_err(), "a refused add has an effect");
        add(p, &S0, 7, i);
    }
    c04_add_mode_reserved(5) {
        let p = &mk();
        ghost::add_user(100, any_ready());
        let m = MODES[nd::below(4) as usize];
        expect_invalid(unsafe { p.add_with_mode(&S0, any_int().ev(usize::MAX), m) });
        assert!(poll_one(p).is_none(), "a refused add has an effect");
        assert!(p.delete(&S0).is_err(), "a refused add has an effect");
    }
    c04_modify_reserved(5) {
        let p = &mk();
        let a = any_ready();
        ghost::add_user(100, a);
        let i = any_int();
        add(p, &S0, 7, i);
        expect_invalid(p.modify(&S0, any_int().ev(usize::MAX)));
        match poll_one(p) {
            Some(e) => assert!(e.key == 7 && a & i.wants() != 0, "a refused modify has an effect"),
            None => assert!(a & i.wants() == 0, "a refused modify has an effect"),
        }
    }
    c04_modify_mode_reserved(5) {
        let p = &mk();
        let a = any_ready();
        ghost::add_user(100, a);
        add_mode(p, &S0, 7, R, PollMode::Level);
        let m = MODES[nd::below(4) as usize];
        expect_invalid(p.modify_with_mode(&S0, any_int().ev(usize::MAX), m));
        let want = a & R.wants() != 0;
        assert!(poll_one(p).is_some() == want, "a refused modify has an effect");
        assert!(poll_one(p).is_some() == want, "a refused modify has an effect");
    }
    // every other key, the neighbours of the reserved one included, comes back unchanged
    c04_other_keys_add(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        let k1 = any_key();
        add(p, &S0, k1, R);
        match poll_one(p) {
            Some(e) => assert!(e.key == k1, "the event carries another key"),
            None => panic!("a ready source is not reported"),
        }
    }
    c04_other_keys_modify(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        add(p, &S0, usize::MAX - 2, R);
        let k2 = any_key();
        modify(p, &S0, k2, R);
        match poll_one(p) {
            Some(e) => assert!(e.key == k2, "the event carries another key"),
            None => panic!("a ready source is not reported"),
        }
    }
    c04_mixed_oneshot__n(5) { mixed(&mk(), 4, false) }
    c04_mixed_level(5) { mixed(&mk(), 4, true) }
    c04_full_oneshot__n(5) { mixed(&mk(), 1, false) }
    c04_full_level(5) { mixed(&mk(), 1, true) }
    c04_two_oneshot(5) { mixed(&mk(), 2, false) }

    // an expired timeout is not an event
    c04_timeout_invisible(5) {
        let p = &mk();
        let u = ghost::add_user(100, 0);
        add(p, &S0, 7, RW);
        let mut evs = list(4);
        let n = wait(p, &mut evs, Some(Duration::from_secs(3)));
        assert!(n == 0 && look(&evs).n == 0 && evs.is_empty(), "a wake-up is visible");
        // and stays invisible afterwards
        ghost::set_ready(u, IN);
        let n = wait0(p, &mut evs);
        assert!(n == 1 && look(&evs).n == 1, "a wake-up is visible or hides an event");
    }

    // the poller's descriptors are not for the user (poll(2): by its own checks)
    c04_own_fd_0__p(5) { own_fd(ghost::FD0) }
    c04_own_fd_1__p(5) { own_fd(ghost::FD0 + 1) }
}
