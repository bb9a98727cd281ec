//! C07: no notification is lost.  An interfering operation of another thread runs, as a whole, at
//! any one step (atomic operation, lock, system call, sleep) of the operation under proof; what
//! cannot be expressed that way (both operations suspended half-way) is in the schedule
//! exploration (sched.rs).
use super::pre::*;

static mut FIRED: bool = false;
static mut OP: u8 = 0;

fn interfere(_k: u8) {
    unsafe {
        if !FIRED && nd::bool() {
            FIRED = true;
            act();
        }
    }
}
fn at_sleep() {
    unsafe {
        if !FIRED {
            FIRED = true;
            act();
        }
    }
}
fn act() {
    let p = the();
    match unsafe { OP } {
        // a notification; from its completion on nothing may sleep for ever
        0 => {
            notify(p);
            ghost::k().hang_is_error = true;
        }
        // a complete wait that does not block
        1 => {
            let mut evs = list(2);
            if p.wait(&mut evs, Some(Duration::ZERO)).is_err() {
                panic!("a wait fails because of a concurrent notify");
            }
        }
        _ => (),
    }
}
fn arm(op: u8) {
    unsafe {
        FIRED = false;
        OP = op;
    }
    ghost::k().hook = interfere;
    ghost::k().hook_on = true;
}
fn disarm() {
    ghost::k().hook_on = false;
    ghost::k().on_block_on = false;
    ghost::k().nwait = 0;
}

/// A notification wakes the next wait.
fn next_wait(p: &Poller) {
    disarm();
    notify(p);
    ghost::k().hang_is_error = true;
    let mut evs = list(2);
    let b = ghost::k().nblock;
    let n = wait(p, &mut evs, None);
    assert!(n == 0, "a wake-up is visible");
    assert!(ghost::k().nblock == b, "a wait sleeps although a notification is pending");
}

proofs! {
    // before the wait
    c07_before__n(5) { next_wait(&mk()) }
    c07_before_fallbacks__e(5) {
        ghost::reset();
        ghost::k().no_eventfd = true;
        ghost::k().no_pipe2 = true;
        ghost::k().no_timerfd = true;
        next_wait(&build())
    }

    // during the wait, at any step
    c07_during__n(5) {
        let p = &mk();
        share(p);
        arm(0);
        let mut evs = list(2);
        let n = wait(p, &mut evs, None);
        assert!(n == 0, "a wake-up is visible");
        assert!(unsafe { FIRED }, "an infinite wait ends without a reason");
        next_wait(p);
    }
    // while it sleeps, finite and infinite
    c07_asleep__n(5) {
        let p = &mk();
        share(p);
        unsafe { FIRED = false; OP = 0; }
        ghost::k().on_block_on = true;
        ghost::k().on_block = at_sleep;
        let mut evs = list(2);
        let t = if nd::bool() { None } else { Some(Duration::from_secs(50)) };
        let n = wait(p, &mut evs, t);
        assert!(n == 0, "a wake-up is visible");
        assert!(ghost::k().now == T::ZERO, "a notification does not end the wait");
        next_wait(p);
    }
    // during a wait that ends for another reason
    c07_during_ready__n(5) {
        let p = &mk();
        share(p);
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        arm(0);
        let mut evs = list(4);
        let _ = wait(p, &mut evs, Some(Duration::ZERO));
        next_wait(p);
    }
    // during a wait that times out
    c07_during_timeout__n(5) {
        let p = &mk();
        share(p);
        arm(0);
        let mut evs = list(2);
        let n = wait(p, &mut evs, Some(Duration::from_secs(1)));
        assert!(n == 0, "a wake-up is visible");
        next_wait(p);
    }
    // a complete wait in the middle of notify
    c07_notify_interrupted__n(5) {
        let p = &mk();
        share(p);
        arm(1);
        notify(p);
        next_wait(p);
    }
    // a complete wait in the middle of the second notify
    c07_second_notify_interrupted__n(5) {
        let p = &mk();
        share(p);
        notify(p);
        arm(1);
        notify(p);
        next_wait(p);
    }
    // a complete notify in the middle of another one: both are honoured by the next wait
    c07_notify_notify__n(5) {
        let p = &mk();
        share(p);
        arm(0);
        notify(p);
        disarm();
        ghost::k().hang_is_error = true;
        let mut evs = list(2);
        let n = wait(p, &mut evs, None);
        assert!(n == 0, "a wake-up is visible");
        assert!(ghost::k().nblock == 0, "a wait sleeps although a notification is pending");
        next_wait(p);
    }
    // after any consumed notification, by any kind of wait
    c07_again__n(5) {
        let p = &mk();
        notify(p);
        let mut evs = list(2);
        let t = if nd::bool() { None } else { Some(Duration::ZERO) };
        let _ = wait(p, &mut evs, t);
        next_wait(p);
    }
    // a failed wait does not swallow the notification, nor the following ones
    c07_failed_wait(5) {
        let p = &mk();
        if nd::bool() {
            notify(p);
        }
        ghost::k().fault_class = ghost::F_WAIT | ghost::F_TIMER;
        ghost::k().fault_budget = 1;
        let mut evs = list(2);
        let _ = p.wait(&mut evs, Some(Duration::ZERO));
        ghost::k().fault_class = 0;
        next_wait(p);
    }
    // modifications in between take nothing away
    c07_across_modify(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        notify(p);
        add(p, &S0, 7, R);
        modify(p, &S0, 8, W);
        delete(p, &S0);
        ghost::k().hang_is_error = true;
        let mut evs = list(2);
        let n = wait(p, &mut evs, None);
        assert!(n == 0, "a wake-up is visible");
    }
    // a notification in the middle of a modification
    c07_in_modify(5) {
        let p = &mk();
        share(p);
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        arm(0);
        modify(p, &S0, 7, W);
        disarm();
        if unsafe { FIRED } {
            ghost::k().hang_is_error = true;
            let mut evs = list(2);
            let n = wait(p, &mut evs, None);
            assert!(n == 0, "a wake-up is visible");
        }
        next_wait(p);
    }

    // ---- after any past: each operation takes any state that satisfies the invariant (pre::past) to one that
    // satisfies it (next_wait succeeds exactly in these states), so no history loses a notification
    c07_past__n(5) {
        let p = &mk();
        past(p);
        next_wait(p);
    }
    c07_past_announced__n(5) {
        let p = &mk();
        if past(p) {
            ghost::k().hang_is_error = true;
            let b = ghost::k().nblock;
            let mut evs = list(2);
            let n = wait(p, &mut evs, None);
            assert!(n == 0, "a wake-up is visible");
            assert!(ghost::k().nblock == b, "a wait sleeps although a notification is pending");
        }
        next_wait(p);
    }
    c07_past_during__n(5) {
        let p = &mk();
        share(p);
        past(p);
        arm(0);
        let mut evs = list(2);
        let n = wait(p, &mut evs, None);
        assert!(n == 0, "a wake-up is visible");
        next_wait(p);
    }
    c07_past_timeout__n(5) {
        let p = &mk();
        share(p);
        past(p);
        arm(0);
        let mut evs = list(2);
        let n = wait(p, &mut evs, Some(Duration::from_secs(1)));
        assert!(n == 0, "a wake-up is visible");
        next_wait(p);
    }
    c07_past_notify_interrupted__n(5) {
        let p = &mk();
        share(p);
        past(p);
        arm(1);
        notify(p);
        next_wait(p);
    }
    c07_past_ready__e_n(5) {
        let p = &mk();
        share(p);
        ghost::add_user(100, any_ready());
        add_mode(p, &S0, any_key(), any_int(), if nd::bool() { PollMode::Level } else { PollMode::Oneshot });
        past(p);
        arm(0);
        let mut evs = list(4);
        let _ = wait(p, &mut evs, Some(Duration::ZERO));
        next_wait_quiet(p);
    }
    c07_past_ready_level__p(5) { past_ready(PollMode::Level) }
    c07_past_ready_oneshot__p(5) { past_ready(PollMode::Oneshot) }
    c07_past_failed_wait(5) {
        let p = &mk();
        past(p);
        ghost::k().fault_class = ghost::F_WAIT | ghost::F_TIMER;
        ghost::k().fault_budget = 1;
        let mut evs = list(2);
        let _ = p.wait(&mut evs, Some(Duration::ZERO));
        ghost::k().fault_class = 0;
        next_wait(p);
    }
    c07_past_modify(5) { past_change(0) }
    c07_past_delete(5) { past_change(1) }
    c07_past_failed_add(5) { past_change(2) }
}

fn past_ready(m: PollMode) {
    let p = &mk();
    share(p);
    ghost::add_user(100, IN);
    add_mode(p, &S0, 7, R, m);
    past(p);
    arm(0);
    let mut evs = list(4);
    let _ = wait(p, &mut evs, Some(Duration::ZERO));
    next_wait_quiet(p);
}
fn past_change(op: u8) {
    let p = &mk();
    share(p);
    ghost::add_user(100, 0);
    add(p, &S0, 7, R);
    let m = past(p);
    arm(0);
    match op {
        0 => modify(p, &S0, 7, W),
        1 => delete(p, &S0),
        _ => assert!(unsafe { p.add(&S0, R.ev(8)) }.is_err(), "a second add succeeds"),
    }
    disarm();
    if m || unsafe { FIRED } {
        ghost::k().hang_is_error = true;
        let mut evs = list(2);
        let n = wait(p, &mut evs, None);
        assert!(n == 0, "a wake-up is visible");
    }
    next_wait(p);
}

/// next_wait with a source that may be ready.
fn next_wait_quiet(p: &Poller) {
    disarm();
    notify(p);
    ghost::k().hang_is_error = true;
    let mut evs = list(4);
    let b = ghost::k().nblock;
    let _ = wait(p, &mut evs, None);
    assert!(ghost::k().nblock == b, "a wait sleeps although a notification is pending");
}
