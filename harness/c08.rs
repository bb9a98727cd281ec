//! C08: notifications coalesce and are consumed.
use super::pre::*;

/// Is a notification pending?  Decided by a wait that would otherwise sleep for a second.
fn wakes(p: &Poller) -> bool {
    let k = ghost::k();
    k.nwait = 0;
    let b = k.nblock;
    let t = k.now;
    let mut evs = list(4);
    let n = wait(p, &mut evs, Some(Duration::from_secs(1)));
    assert!(n == 0 && look(&evs).n == 0, "a wake-up is visible");
    let k = ghost::k();
    assert!((k.nblock == b) == (k.now == t), "a sleep is cut short");
    k.nblock == b
}

proofs! {
    c08_nothing__n(5) { assert!(!wakes(&mk()), "a wait ends without a reason"); }
    c08_many__n(5) {
        let p = &mk();
        notify(p);
        notify(p);
        notify(p);
        assert!(wakes(p), "the notification is lost");
        assert!(!wakes(p), "one notification wakes two waits");
    }
    c08_many_zero__n(5) {
        let p = &mk();
        notify(p);
        notify(p);
        let mut evs = list(4);
        assert!(wait0(p, &mut evs) == 0, "a wake-up is visible");
        assert!(!wakes(p), "the notification is not consumed by the wait it woke");
        notify(p);
        assert!(wakes(p), "the notification is lost");
        assert!(!wakes(p), "one notification wakes two waits");
    }
    // together with an event
    c08_with_event__n(5) {
        let p = &mk();
        let u = ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        let m = nd::bool();
        if m {
            notify(p);
            notify(p);
        }
        ghost::k().any_order = true;
        let mut evs = list(4);
        let n = wait0(p, &mut evs);
        if !m {
            assert!(n == 1, "a ready source is not reported");
        }
        ghost::k().any_order = false;
        ghost::set_ready(u, 0);
        assert!(!wakes(p), "the notification is not consumed by the wait it woke");
    }
    // together with an event and a list of one element
    c08_with_event_full__n(5) {
        let p = &mk();
        let u = ghost::add_user(100, IN);
        add_mode(p, &S0, 7, R, PollMode::Level);
        notify(p);
        ghost::k().any_order = true;
        let mut evs = list(1);
        let _ = wait0(p, &mut evs);
        ghost::k().any_order = false;
        ghost::set_ready(u, 0);
        assert!(!wakes(p), "the notification is not consumed by the wait it woke");
    }
    // any history of three operations
    c08_history__n(5) {
        let p = &mk();
        let mut pending = false;
        if nd::bool() {
            notify(p);
            pending = true;
        }
        if nd::bool() {
            let mut evs = list(4);
            assert!(wait0(p, &mut evs) == 0, "a wake-up is visible");
            pending = false;
        }
        if nd::bool() {
            notify(p);
            pending = true;
        }
        if nd::bool() {
            notify(p);
            pending = true;
        }
        assert!(wakes(p) == pending, "a notification is lost, or not consumed");
        assert!(!wakes(p), "one notification wakes two waits");
    }
    // registrations do not wake a later wait
    c08_modify_is_no_notify(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        let m = nd::bool();
        if m {
            notify(p);
        }
        add(p, &S0, 7, RW);
        modify(p, &S0, 8, R);
        assert!(wakes(p) == m, "a notification is lost, or one appears from nowhere");
        delete(p, &S0);
        assert!(!wakes(p), "a modification wakes a wait");
    }
    // a wait that was woken while asleep
    c08_asleep__n(5) {
        let p = &mk();
        share(p);
        ghost::k().on_block_on = true;
        ghost::k().on_block = twice;
        let mut evs = list(4);
        let n = wait(p, &mut evs, Some(Duration::from_secs(9)));
        assert!(n == 0 && ghost::k().now == T::ZERO, "a notification does not end the wait");
        ghost::k().on_block_on = false;
        assert!(!wakes(p), "one notification wakes two waits");
    }
    // after any past (pre::past): what it left is consumed by one wait, which reports no event for it
    c08_past__n(5) {
        let p = &mk();
        past(p);
        let mut evs = list(4);
        assert!(wait0(p, &mut evs) == 0 && look(&evs).n == 0, "a wake-up is visible");
        assert!(!wakes(p), "the notification is not consumed by the wait it woke");
        notify(p);
        notify(p);
        assert!(wakes(p), "the notification is lost");
        assert!(!wakes(p), "one notification wakes two waits");
    }
    c08_past_event__n(5) {
        let p = &mk();
        let u = ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        past(p);
        modify(p, &S0, 8, R);
        ghost::k().any_order = true;
        let mut evs = list(4);
        let _ = wait0(p, &mut evs);
        ghost::k().any_order = false;
        ghost::set_ready(u, 0);
        assert!(!wakes(p), "the notification is not consumed by the wait it woke");
    }
}
fn twice() {
    notify(the());
    notify(the());
}
