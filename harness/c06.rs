//! C06: interruption by a signal.
use super::pre::*;

static mut START: T = T::ZERO;
static mut ASKED: Option<Duration> = None;
static mut SLEPT: bool = false;
const MS1: T = T { s: 0, m: 1, n: 0 };

fn sleeping() {
    unsafe { SLEPT = true };
    let limit = ghost::k().sleep_limit;
    unsafe {
        match ASKED {
            None => assert!(limit.is_none(), "an interrupted infinite wait got a limit"),
            Some(t) => {
                let d = START.checked_add(t.0).unwrap();
                match limit {
                    None => panic!("an interrupted wait lost its deadline"),
                    Some(l) => {
                        assert!(l >= d, "an interrupted wait ends early");
                        assert!(l <= d.checked_add(MS1).unwrap(), "an interruption extends the deadline");
                    }
                }
            }
        }
    }
}

/// Interruptions after any part of the timeout.
fn deadline_kept(p: &Poller, n: u32) {
    ghost::add_user(100, 0);
    add(p, &S0, 7, RW);
    let t = Duration::any();
    // within the range of 32-bit milliseconds
    nd::assume(t.as_secs() < 2_000_000);
    let k = ghost::k();
    k.eintr_max = n;
    k.eintr_flows = true;
    k.wait_max = n + 1;
    k.on_block_on = true;
    k.on_block = sleeping;
    unsafe {
        START = T::ZERO;
        ASKED = Some(t);
        SLEPT = false;
    }
    let mut evs = list(4);
    let r = wait(p, &mut evs, Some(t));
    assert!(r == 0 && look(&evs).n == 0, "an event without a reason");
    assert!(ghost::k().now >= t.0, "an interrupted wait ends early");
    if t.is_zero() {
        assert!(unsafe { !SLEPT }, "a zero timeout sleeps");
    }
    cover!(ghost::k().neintr == n && unsafe { SLEPT }, "sleeps on after the interruptions");
    cover!(ghost::k().neintr == n && unsafe { !SLEPT }, "interrupted past the deadline");
}

fn forever(p: &Poller) {
    ghost::add_user(100, 0);
    add(p, &S0, 7, R);
    let k = ghost::k();
    k.eintr_max = 2;
    k.eintr_flows = true;
    k.wait_max = 3;
    k.on_block_on = true;
    k.on_block = then_event;
    let mut evs = list(4);
    let r = wait(p, &mut evs, None);
    assert!(r == 1, "an interrupted infinite wait ends without an event");
    cover!(ghost::k().neintr == 2, "interrupted twice");
}
fn then_event() {
    assert!(ghost::k().sleep_limit.is_none(), "an interrupted infinite wait got a limit");
    ghost::set_ready(0, IN);
}

/// Events before and after an interruption.
fn events_after(p: &Poller) {
    let u = ghost::add_user(100, IN);
    ghost::add_user(101, 0);
    add(p, &S0, 7, R);
    add(p, &S1, 8, W);
    let mut evs = list(4);
    let n = wait0(p, &mut evs);
    assert!(n == 1, "a ready source is not reported");
    ghost::set_ready(u, 0);
    let k = ghost::k();
    k.nwait = 0;
    k.eintr_max = 1;
    k.wait_max = 2;
    k.on_block_on = true;
    k.on_block = second_ready;
    // the list still holds the event of the first wait
    let n = wait(p, &mut evs, Some(Duration::from_secs(4)));
    let s = look(&evs);
    assert!(n == s.n, "wait returns another number than the list holds");
    let b = ghost::k().users[1].ready & OUT != 0;
    assert!(s.n == b as usize, "an event of before the interruption is reported, or one is lost");
    if let Some(e) = s.a {
        assert!(e.key == 8, "an event of before the interruption is reported");
    }
    cover!(ghost::k().neintr == 1 && b, "interrupted, then an event");
    cover!(ghost::k().neintr == 1 && !b, "interrupted, then nothing");
}
fn second_ready() {
    if nd::bool() {
        ghost::set_ready(1, OUT);
    }
}

fn flowing(max: u64) {
    let p = &mk();
    ghost::add_user(100, 0);
    add(p, &S0, 7, RW);
    let t = Duration::any();
    nd::assume(t.as_secs() < max);
    let k = ghost::k();
    k.flow_max = max;
    k.eintr_max = 1;
    k.time_flows = true;
    let mut evs = list(4);
    let r = wait(p, &mut evs, Some(t));
    assert!(r == 0, "an event without a reason");
    assert!(ghost::k().now >= t.0, "an interrupted wait ends early");
}

proofs! {
    c06_deadline_1(5) { deadline_kept(&mk(), 1) }
    c06_deadline_2(5) { deadline_kept(&mk(), 2) }
    c06_deadline_1_notimer__e(5) { deadline_kept(&mk_notimer(), 1) }
    c06_deadline_3__t(6) { deadline_kept(&mk(), 3) }
    c06_forever(5) { forever(&mk()) }
    c06_forever_notimer__e(5) { forever(&mk_notimer()) }
    c06_events_after(5) { events_after(&mk()) }

    // time flows everywhere, not only while interrupted: still never early
    c06_flowing(5) { flowing(1 << 12) }
    c06_flowing_far__t(5) { flowing(2_000_000) }

    // a notification that comes together with the signal is not lost
    c06_notified__n(5) {
        let p = &mk();
        ghost::k().eintr_max = 2;
        ghost::k().wait_max = 3;
        ghost::k().hang_is_error = true;
        share(p);
        ghost::k().on_block_on = true;
        ghost::k().on_block = notify_now;
        let mut evs = list(4);
        let r = wait(p, &mut evs, None);
        assert!(r == 0, "an event without a reason");
        // and is consumed
        ghost::k().on_block_on = false;
        ghost::k().eintr_max = 0;
        ghost::k().nwait = 0;
        let b = ghost::k().nblock;
        let r = wait(p, &mut evs, Some(Duration::from_secs(1)));
        assert!(r == 0 && ghost::k().nblock == b + 1, "the notification is not consumed");
    }
}
fn notify_now() {
    notify(the());
}
