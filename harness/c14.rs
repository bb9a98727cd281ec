//! C14: descriptors.
use super::pre::*;

fn all_cloexec() {
    let k = ghost::k();
    ghost::each!(i in fds {
        if i < k.nfd && k.fds[i].open {
            assert!(k.fds[i].cloexec, "a descriptor is inherited by child processes");
        }
    });
}

/// Any `n` system calls of the construction fail, with any errno.
fn faulty(n: u8) {
    ghost::reset();
    ghost::k().fault_class = ghost::F_CREATE | ghost::F_FCNTL | ghost::F_OPT;
    ghost::k().fault_budget = n;
    let r = Poller::new();
    ghost::k().fault_class = 0;
    match r {
        Ok(p) => {
            all_cloexec();
            drop(p);
        }
        Err(e) => {
            assert!(ghost::k().nfaults > 0, "construction fails without a reason");
            // of the step that failed; with two failures one of them may have been survivable, or
            // have happened during the clean-up
            let c = e.raw_os_error();
            let k = ghost::k();
            assert!(c == Some(k.last_errno) || (k.nfaults == 2 && c == Some(k.prev_errno)), "another error is reported");
        }
    }
    assert!(ghost::open_count() == 0, "a descriptor is leaked");
}

/// A system on which some optional facilities are missing.
fn missing(e: bool, t: bool, p2: bool) {
    ghost::reset();
    ghost::k().no_eventfd = e;
    ghost::k().no_timerfd = t;
    ghost::k().no_pipe2 = p2;
    let p = build();
    all_cloexec();
    ghost::add_user(100, 0);
    add(&p, &S0, 7, R);
    // timeouts
    let mut evs = list(4);
    let n = wait(&p, &mut evs, Some(Duration::from_secs(2)));
    assert!(n == 0 && ghost::k().now.s == 2, "timeouts do not work");
    // notifications, twice; draining must not block
    notify(&p);
    ghost::k().hang_is_error = true;
    ghost::k().nwait = 0;
    let b = ghost::k().nblock;
    let n = wait(&p, &mut evs, None);
    assert!(n == 0 && ghost::k().nblock == b, "notifications do not work");
    // events
    ghost::set_ready(0, IN);
    let n = wait0(&p, &mut evs);
    assert!(n == 1, "events do not work");
    drop(std::mem::ManuallyDrop::into_inner(p));
    assert!(ghost::open_count() == 0, "a descriptor is leaked");
}

proofs! {
    c14_faults_1__n(5) { faulty(1) }
    c14_faults_2__n(5) { faulty(2) }
    c14_missing_none__n(5) { missing(false, false, false) }
    c14_missing_eventfd__e(5) { missing(true, false, false) }
    c14_missing_timerfd__e_n(5) { missing(false, true, false) }
    c14_missing_pipe2(5) { missing(false, false, true) }
    c14_missing_eventfd_pipe2__e(5) { missing(true, false, true) }
    c14_missing_eventfd_timerfd__e(5) { missing(true, true, false) }
    c14_missing_all__e(5) { missing(true, true, true) }

    // dropped in any state: with registered sources, pending events and notifications
    c14_drop__n(5) {
        ghost::reset();
        let p = match Poller::new() {
            Ok(p) => p,
            Err(_) => panic!("a poller cannot be created although no system call failed"),
        };
        all_cloexec();
        let made = ghost::open_count();
        ghost::add_user(100, any_ready());
        add(&p, &S0, 7, RW);
        if nd::bool() {
            notify(&p);
        }
        if nd::bool() {
            let _ = poll_one(&p);
        }
        if nd::bool() {
            delete(&p, &S0);
        }
        assert!(ghost::open_count() == made, "an operation opens or closes a descriptor");
        drop(p);
        assert!(ghost::open_count() == 0, "a descriptor is leaked");
        assert!(ghost::k().closes as usize == made, "a descriptor is closed twice");
    }
}
