//! C17: errors of the system.
use super::pre::*;

fn faults(class: u8) {
    let k = ghost::k();
    k.fault_class = class;
    k.fault_budget = 1;
    k.fault_force = true;
    k.nfaults = 0;
}
fn faithful<V>(r: &mstd::io::Result<V>) -> bool {
    ghost::k().fault_class = 0;
    match r {
        Ok(_) => {
            assert!(ghost::k().nfaults == 0, "an error of the system is swallowed");
            false
        }
        Err(e) => {
            assert!(ghost::k().nfaults == 1, "an operation fails without a reason");
            assert!(e.raw_os_error() == Some(ghost::k().last_errno), "another error is reported");
            true
        }
    }
}
/// Everything works.
fn usable(p: &Poller) {
    ghost::set_ready(0, IN);
    modify(p, &S0, 9, R);
    match poll_one(p) {
        Some(e) => assert!(e.key == 9, "the event carries another key"),
        None => panic!("the poller is unusable after an error"),
    }
    notify(p);
    ghost::k().nwait = 0;
    ghost::k().hang_is_error = true;
    let b = ghost::k().nblock;
    let mut evs = list(4);
    let n = wait(p, &mut evs, None);
    assert!(n == 0 && ghost::k().nblock == b, "the poller is unusable after an error");
}

fn failing_wait(p: &Poller, class: u8) {
    ghost::add_user(100, 0);
    add(p, &S0, 7, R);
    let mut evs = list(4);
    faults(class);
    let t = match nd::below(3) {
        0 => Duration::ZERO,
        1 => Duration::from_secs(1),
        _ => Duration::from_millis(5),
    };
    let r = p.wait(&mut evs, Some(t));
    let failed = faithful(&r);
    cover!(failed, "the wait fails");
    usable(p);
}

proofs! {
    c17_add__e(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        faults(ghost::F_CTL);
        let m = MODES[nd::below(4) as usize];
        let r = unsafe { p.add_with_mode(&S0, any_int().ev(any_key()), m) };
        if faithful(&r) {
            add(p, &S0, 7, R);
            usable(p);
        }
    }
    c17_modify__e(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        faults(ghost::F_CTL);
        let m = MODES[nd::below(4) as usize];
        let r = p.modify_with_mode(&S0, any_int().ev(any_key()), m);
        if faithful(&r) {
            usable(p);
        }
    }
    c17_delete__e(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        faults(ghost::F_CTL);
        let r = p.delete(&S0);
        if faithful(&r) {
            usable(p);
        }
    }
    c17_wait(5) { failing_wait(&mk(), ghost::F_WAIT) }
    c17_wait_notimer__e(5) { failing_wait(&mk_notimer(), ghost::F_WAIT) }
    c17_timer__e(5) { failing_wait(&mk(), ghost::F_TIMER) }
    // a wait that fails with an event and a notification pending: both are still there
    c17_wait_pending(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        let mut evs = list(4);
        faults(ghost::F_WAIT);
        let r = p.wait(&mut evs, Some(Duration::ZERO));
        if faithful(&r) {
            match poll_one(p) {
                Some(e) => assert!(e.key == 7, "the event carries another key"),
                None => panic!("a failed wait takes an event"),
            }
        } else {
            assert!(r.is_ok() && look(&evs).n == 1, "a ready source is not reported");
        }
        usable(p);
    }
    // internal draining has nothing to read, the counter is full: not an error
    c17_drain__e(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        ghost::k().fault_class = ghost::F_RW;
        ghost::k().fault_budget = 1;
        ghost::k().fault_errno = ghost::EAGAIN;
        if p.notify().is_err() {
            panic!("a full counter makes notify fail");
        }
        let mut evs = list(4);
        if p.wait(&mut evs, Some(Duration::ZERO)).is_err() {
            panic!("an empty counter makes wait fail");
        }
        ghost::k().fault_class = 0;
    }
    // errors of the library's own checks carry no errno of the system
    c17_own_errors__p(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        match p.delete(&S0) {
            Ok(()) => panic!("an unregistered source is deleted"),
            Err(e) => assert!(e.kind() == mstd::io::ErrorKind::NotFound, "another error is reported"),
        }
        add(p, &S0, 7, R);
        match unsafe { p.add(&S0, R.ev(8)) } {
            Ok(()) => panic!("a source is added twice"),
            Err(e) => assert!(e.kind() == mstd::io::ErrorKind::AlreadyExists, "another error is reported"),
        }
        usable(p);
    }
}
