//! C05: timeouts.
use super::pre::*;

/// What the current wait was asked for.
static mut START: T = T::ZERO;
static mut ASKED: Option<Duration> = None;
static mut MS_CAP: bool = false;
static mut SLEPT: bool = false;

const MS1: T = T { s: 0, m: 1, n: 0 };
/// i32::MAX milliseconds
const CAP: T = T { s: 2_147_483, m: 647, n: 0 };

/// The instant at which the wait has to end, or None for never.
fn deadline() -> Option<T> {
    unsafe {
        match ASKED {
            None => None,
            Some(d) => match START.checked_add(d.0) {
                Some(t) if t.s <= ghost::time::CLOCK_MAX_S => Some(t),
                _ => None,
            },
        }
    }
}

/// The contract of a sleep, checked at the moment the thread goes to sleep.
fn sleeping() {
    unsafe { SLEPT = true };
    let limit = ghost::k().sleep_limit;
    match deadline() {
        None => {
            // "for ever", except that a 32-bit millisecond interface may end earlier
            assert!(limit.is_none(), "a wait without a deadline has a limit");
        }
        Some(d) => match limit {
            None => panic!("a wait with a deadline sleeps without a limit"),
            Some(l) => {
                let late = match d.checked_add(MS1) {
                    Some(t) => t,
                    None => T::MAX,
                };
                assert!(l <= late, "the system is asked to sleep more than 1 ms too long");
                if unsafe { MS_CAP } {
                    let c = match unsafe { START }.checked_add(CAP) {
                        Some(t) => t,
                        None => T::MAX,
                    };
                    assert!(l >= d || l >= c, "the wait ends before its timeout");
                } else {
                    assert!(l >= d, "the wait ends before its timeout");
                }
            }
        },
    }
}

fn exact(p: &Poller, ms_cap: bool) {
    let u = ghost::add_user(100, 0);
    add(p, &S0, 7, RW);
    // an arbitrary moment
    let now = T::any();
    nd::assume(now.s < 1 << 62);
    ghost::k().now = now;
    let t = Duration::any();
    unsafe {
        START = now;
        ASKED = Some(t);
        MS_CAP = ms_cap;
        SLEPT = false;
    }
    ghost::k().on_block_on = true;
    ghost::k().on_block = sleeping;
    let mut evs = list(4);
    let n = wait(p, &mut evs, Some(t));
    assert!(n == 0 && look(&evs).n == 0, "an event without a reason");
    assert!(unsafe { SLEPT } == !t.is_zero(), "a zero timeout sleeps, or another does not");
    let end = ghost::k().now;
    match deadline() {
        None => panic!("a wait without a deadline ends by itself"),
        Some(d) => {
            let c = match now.checked_add(CAP) { Some(c) => c, None => T::MAX };
            assert!(end >= d || (ms_cap && end >= c), "the wait ends before its timeout");
        }
    }
}

/// The clock advances by any amount between any two readings.
fn flowing(p: &Poller, ms_cap: bool, max: u64) {
    ghost::add_user(100, 0);
    add(p, &S0, 7, RW);
    let now = T::any();
    nd::assume(now.s < max);
    ghost::k().now = now;
    let t = Duration::any();
    nd::assume(t.as_secs() < max);
    ghost::k().time_flows = true;
    ghost::k().flow_max = max;
    unsafe {
        START = now;
        ASKED = Some(t);
        MS_CAP = ms_cap;
    }
    let mut evs = list(4);
    let n = wait(p, &mut evs, Some(t));
    assert!(n == 0, "an event without a reason");
    let end = ghost::k().now;
    if let Some(d) = deadline() {
        let c = match now.checked_add(CAP) { Some(c) => c, None => T::MAX };
        assert!(end >= d || (ms_cap && end >= c), "the wait ends before its timeout");
    }
}

fn ends_by_event() {
    assert!(ghost::k().sleep_limit.is_none(), "a wait without a deadline has a limit");
    ghost::set_ready(0, IN);
}

fn forever(p: &Poller, t: Option<Duration>) {
    ghost::add_user(100, 0);
    add(p, &S0, 7, R);
    ghost::k().now = T { s: 5, m: 0, n: 0 };
    ghost::k().on_block_on = true;
    ghost::k().on_block = ends_by_event;
    let mut evs = list(4);
    let n = wait(p, &mut evs, t);
    assert!(n == 1, "an infinite wait ends without an event");
}

proofs! {
    c05_exact(5) { exact(&mk(), POLL) }
    c05_exact_notimer__e(5) { exact(&mk_notimer(), true) }
    c05_flowing(5) { flowing(&mk(), POLL, 1 << 12) }
    c05_flowing_notimer__e(5) { flowing(&mk_notimer(), true, 1 << 12) }
    c05_flowing_far__t(5) { flowing(&mk(), POLL, 1 << 40) }
    c05_flowing_far_notimer__e_t(5) { flowing(&mk_notimer(), true, 1 << 40) }

    // no timeout: no limit
    c05_none(5) { forever(&mk(), None) }
    c05_none_notimer__e(5) { forever(&mk_notimer(), None) }
    // a timeout beyond the clock: no limit
    c05_max(5) { forever(&mk(), Some(Duration::MAX)) }
    c05_max_notimer__e(5) { forever(&mk_notimer(), Some(Duration::MAX)) }

    // a zero timeout after a wait with another timeout, and the other way round
    c05_sequence(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        let mut evs = list(4);
        let n = wait(p, &mut evs, Some(Duration::from_secs(9)));
        assert!(n == 0 && ghost::k().nblock == 1 && ghost::k().now.s == 9, "the first wait is wrong");
        let n = wait0(p, &mut evs);
        assert!(n == 0 && ghost::k().now.s == 9, "a zero timeout sleeps");
        let n = wait(p, &mut evs, Some(Duration::from_secs(2)));
        assert!(n == 0 && ghost::k().nblock == 2 && ghost::k().now.s == 11, "the third wait is wrong");
    }
    // an event ends the wait; its timer does not shorten the next one
    c05_leftover(5) {
        let p = &mk();
        let u = ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        ghost::k().on_block_on = true;
        ghost::k().on_block = leftover;
        let mut evs = list(4);
        let n = wait(p, &mut evs, Some(Duration::from_secs(5)));
        assert!(n == 1 && ghost::k().now.s == 1, "the event does not end the wait");
        ghost::k().on_block_on = false;
        ghost::set_ready(u, 0);
        ghost::k().nwait = 0;
        let n = wait(p, &mut evs, Some(Duration::from_secs(100)));
        assert!(n == 0 && ghost::k().now.s == 101, "the wait ends before its timeout, or late");
        // no timer is left to shorten an infinite wait
        ghost::k().nwait = 0;
        ghost::k().on_block_on = true;
        ghost::k().on_block = ends_by_event;
        modify(p, &S0, 7, R);
        let n = wait(p, &mut evs, None);
        assert!(n == 1, "an infinite wait ends without an event");
    }
}

fn leftover() {
    ghost::k().now = T { s: 1, m: 0, n: 0 };
    ghost::set_ready(0, IN);
}
