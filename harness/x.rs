//! Scenarios of several threads, run natively under enumerated schedules (ghost::sched).
//! `cNN_x_what[__letters]` belongs to property CNN.  A thread that sleeps for ever, a panic, or a
//! failing assertion is a violation.
use super::pre::*;
use ghost::sched::{block, par};
use mstd::vec::Vec as _;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::vec::Vec;

fn start() -> Own {
    ghost::reset();
    let k = ghost::k();
    k.wait_max = u32::MAX;
    k.spin_is_error = false;
    for f in [&A, &B, &C] {
        f.store(0, SeqCst);
    }
    build()
}
static A: AtomicUsize = AtomicUsize::new(0);
static B: AtomicUsize = AtomicUsize::new(0);
static C: AtomicUsize = AtomicUsize::new(0);

fn until(f: &'static AtomicUsize) {
    block(Box::new(move || f.load(SeqCst) > 0), None, "the scenario");
}
/// Until the waiting thread sleeps.
fn asleep() {
    block(Box::new(|| ghost::k().nblock > 0), None, "the scenario");
}
fn secs(n: u64) -> Option<Duration> {
    Some(Duration::from_secs(n))
}
/// A wait that returns the keys of its events.
fn keys(p: &Poller, t: Option<Duration>) -> Vec<usize> {
    let mut evs = list(4);
    let n = wait(p, &mut evs, t);
    let k: Vec<usize> = evs.iter().map(|e| e.key).collect();
    assert!(n == k.len(), "wait returns another number than the list holds");
    k
}
macro_rules! threads {
    ($($b:block)*) => { par(std::vec![$(Box::new(|| $b) as Box<dyn FnOnce() + Send>),*]) }
}
/// After everything: nothing is pending, so a wait sleeps until its timeout.
fn nothing_pending(p: &Poller) {
    let k = ghost::k();
    let before = k.now;
    assert!(keys(p, secs(5)).is_empty(), "an event from nowhere");
    assert!(ghost::k().now >= before.checked_add(T { s: 5, m: 0, n: 0 }).unwrap(), "a wait with nothing new returns early");
}

macro_rules! scenarios {
    ($( $name:ident $p:ident $body:block )*) => {
        $( fn $name() { let $p: &Own = &start(); share($p); $body } )*
        pub const LIST: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    }
}

scenarios! {
    // ---- C07: no notification is lost, C08: none is left over -------------------------------
    c07_x_wait_notify__n p {
        threads! { { assert!(keys(the(), None).is_empty()); } { notify(the()) } }
    }
    c07_x_two_notifiers__n p {
        threads! { { keys(the(), None); } { notify(the()) } { notify(the()) } }
    }
    c07_x_one_by_one__n p {
        threads! {
            { keys(the(), None); A.store(1, SeqCst); keys(the(), None); }
            { notify(the()); until(&A); notify(the()) }
        }
    }
    c07_x_two_then_one__n p {
        threads! {
            { keys(the(), None); A.store(1, SeqCst); keys(the(), None); }
            { notify(the()); B.store(1, SeqCst); until(&A); notify(the()) }
            { until(&B); notify(the()) }
        }
    }
    c07_x_waiters_of_two_threads__n p {
        threads! {
            { keys(the(), None); A.store(1, SeqCst); }
            { notify(the()); until(&A); notify(the()) }
            { until(&A); keys(the(), None); }
        }
    }
    c07_x_modify_notify__n p {
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        threads! { { keys(the(), None); } { modify(the(), &S0, 8, R) } { notify(the()) } }
    }
    c07_x_modify_then_notify__n p {
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        threads! { { keys(the(), None); } { modify(the(), &S0, 8, R); notify(the()); modify(the(), &S0, 9, W) } }
    }
    c07_x_notify_event__n p {
        let u = ghost::add_user(100, 0);
        add_mode(p, &S0, 7, R, PollMode::Level);
        threads! {
            { keys(the(), None); A.store(1, SeqCst); keys(the(), None); }
            { ghost::step(ghost::S_ATOMIC); ghost::set_ready(0, IN); notify(the()); until(&A); ghost::set_ready(0, 0); notify(the()) }
        }
        let _ = u;
    }
    // a notify that returned before the wait started is never missed, after timeouts either
    c07_x_timeouts__n p {
        threads! {
            { keys(the(), secs(1)); keys(the(), secs(1)); until(&A); B.store(1, SeqCst); keys(the(), None); }
            { notify(the()); A.store(1, SeqCst); until(&B); notify(the()) }
        }
    }
    c08_x_one_wait_consumes__n p {
        threads! { { keys(the(), None); } { notify(the()) } }
        nothing_pending(p);
    }
    c08_x_before__n p {
        threads! { { notify(the()) } { notify(the()) } { notify(the()) } }
        let b = ghost::k().now;
        assert!(keys(p, secs(5)).is_empty());
        assert!(ghost::k().now == b, "a notification is lost");
        nothing_pending(p);
    }
    c08_x_late__n p {
        ghost::add_user(100, IN);
        add_mode(p, &S0, 7, R, PollMode::Level);
        threads! { { keys(the(), None); } { notify(the()); notify(the()) } { notify(the()) } }
        ghost::set_ready(0, 0);
        keys(p, secs(0));
        nothing_pending(p);
    }
    c08_x_modify__n p {
        ghost::add_user(100, 0);
        ghost::add_user(101, 0);
        add(p, &S0, 7, R);
        add(p, &S1, 8, R);
        threads! { { modify(the(), &S0, 9, R) } { modify(the(), &S1, 10, R) } { modify(the(), &S0, 11, W) } }
        nothing_pending(p);
    }
    // ---- C09 ---------------------------------------------------------------------------------
    c09_x_one_event p {
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        threads! {
            { A.fetch_add(keys(the(), secs(1)).len(), SeqCst); }
            { A.fetch_add(keys(the(), secs(1)).len(), SeqCst); }
        }
        A.fetch_add(keys(p, secs(0)).len(), SeqCst);
        assert!(A.load(SeqCst) == 1, "an event is delivered twice, or lost");
    }
    c09_x_sleeper_undisturbed p {
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        threads! {
            { A.store(keys(the(), None).len(), SeqCst); }
            { asleep(); assert!(keys(the(), secs(9)).is_empty()); ghost::set_ready(0, IN); }
        }
        assert!(A.load(SeqCst) == 1, "the event of the sleeping thread is lost");
    }
    c09_x_notified p {
        threads! {
            { keys(the(), secs(3)); A.fetch_add(1, SeqCst); }
            { keys(the(), secs(3)); A.fetch_add(1, SeqCst); }
            { notify(the()) }
        }
        assert!(A.load(SeqCst) == 2);
        // whoever came late: the lock is free again
        assert!(keys(p, secs(0)).is_empty());
    }
    // ---- C10, C11, C12: operations that overlap ------------------------------------------------
    c10_x_add_add p {
        ghost::add_user(100, IN);
        threads! {
            { if unsafe { the().add(&S0, R.ev(7)) }.is_ok() { A.fetch_add(1, SeqCst); } }
            { if unsafe { the().add(&S0, R.ev(8)) }.is_ok() { A.fetch_add(2, SeqCst); } }
        }
        let a = A.load(SeqCst);
        assert!(a == 1 || a == 2, "not exactly one of two adds succeeds");
        assert!(keys(p, secs(0)) == [6 + a], "the event carries another key");
    }
    c10_x_delete_delete p {
        ghost::add_user(100, IN);
        ghost::add_user(101, IN);
        add(p, &S0, 7, R);
        add(p, &S1, 8, R);
        threads! {
            { if the().delete(&S0).is_ok() { A.fetch_add(1, SeqCst); } }
            { if the().delete(&S0).is_ok() { A.fetch_add(1, SeqCst); } }
        }
        assert!(A.load(SeqCst) == 1, "not exactly one of two deletes succeeds");
        assert!(keys(p, secs(0)) == [8], "the other source is affected");
    }
    c11_x_failures p {
        ghost::add_user(100, 0);
        ghost::add_user(101, IN);
        add(p, &S0, 7, R);
        threads! {
            { keys(the(), secs(1)); }
            { assert!(unsafe { the().add(&S0, RW.ev(8)) }.is_err()); }
            { assert!(the().modify(&S1, R.ev(9)).is_err()); assert!(the().delete(&S1).is_err()); }
        }
        nothing_pending(p);
        ghost::set_ready(0, IN | OUT);
        assert!(keys(p, secs(0)) == [7], "a failed operation has an effect");
    }
    c12_x_other_sources p {
        ghost::add_user(100, IN);
        ghost::add_user(101, IN);
        ghost::add_user(102, IN);
        add(p, &S0, 7, R);
        add(p, &S2, 9, NONE);
        threads! { { delete(the(), &S0) } { add(the(), &S1, 8, R) } { modify(the(), &S2, 10, R) } }
        let mut k = keys(p, secs(0));
        k.sort();
        assert!(k == [8, 10], "operations on different sources disturb each other");
    }
    // ---- C16 -----------------------------------------------------------------------------------
    c16_x_modify p {
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        threads! { { keys(the(), secs(1)); } { modify(the(), &S0, 8, R) } }
        nothing_pending(p);
    }
    c16_x_failing p {
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        threads! { { keys(the(), secs(1)); } { assert!(unsafe { the().add(&S0, R.ev(8)) }.is_err()); } }
        nothing_pending(p);
    }
    c16_x_two_modify p {
        ghost::add_user(100, 0);
        ghost::add_user(101, 0);
        add(p, &S0, 7, R);
        add(p, &S1, 8, R);
        threads! { { keys(the(), secs(1)); } { modify(the(), &S0, 8, R) } { modify(the(), &S1, 9, W) } }
    }
    c16_x_interest_wakes p {
        ghost::add_user(100, IN);
        add(p, &S0, 7, NONE);
        threads! { { assert!(keys(the(), None) == [8], "the modified interest does not take effect"); } { modify(the(), &S0, 8, R) } }
    }
    c16_x_add_wakes p {
        ghost::add_user(100, 0);
        ghost::add_user(101, IN);
        add(p, &S0, 7, R);
        threads! { { assert!(keys(the(), None) == [8], "the added source does not take effect"); } { add(the(), &S1, 8, R) } }
    }
    c16_x_add_then_ready p {
        ghost::add_user(100, 0);
        threads! { { assert!(keys(the(), None) == [8], "the added source does not take effect"); } { add(the(), &S0, 8, R); ghost::set_ready(0, IN) } }
    }
    c16_x_add_modify_overlap p {
        ghost::add_user(100, IN);
        ghost::add_user(101, IN);
        add(p, &S0, 7, NONE);
        threads! {
            { let n = keys(the(), None).len(); A.fetch_add(n, SeqCst); if n == 1 { A.fetch_add(keys(the(), None).len(), SeqCst); } }
            { modify(the(), &S0, 8, R) }
            { add(the(), &S1, 9, R) }
        }
        assert!(A.load(SeqCst) == 2, "a source that is ready is not reported");
    }
    c16_x_delete p {
        ghost::add_user(100, 0);
        ghost::add_user(101, IN);
        add(p, &S0, 7, R);
        add(p, &S1, 8, NONE);
        threads! {
            { keys(the(), secs(1)); }
            { delete(the(), &S0); ghost::set_ready(0, IN); assert!(keys(the(), secs(0)).iter().all(|k| *k != 7), "a deleted source is reported"); }
        }
        assert!(keys(p, secs(0)).is_empty(), "a deleted source is reported");
    }
    c16_x_delete_add p {
        ghost::add_user(100, IN);
        ghost::add_user(101, 0);
        add(p, &S0, 7, NONE);
        add(p, &S1, 9, R);
        threads! {
            { assert!(keys(the(), None) == [8], "the new registration does not take effect"); }
            { delete(the(), &S0); add(the(), &S0, 8, R) }
            { modify(the(), &S1, 10, R) }
        }
    }
    c16_x_all p {
        ghost::add_user(100, 0);
        ghost::add_user(101, 0);
        add(p, &S0, 7, R);
        threads! {
            { keys(the(), None); }
            { add(the(), &S1, 8, R); delete(the(), &S1) }
            { notify(the()) }
        }
    }
    // ---- C05: concurrent operations do not extend a timeout ---------------------------------------
    c05_x_operations p {
        ghost::add_user(100, 0);
        add(p, &S0, 7, R);
        threads! {
            {
                let t = ghost::k().now;
                assert!(keys(the(), secs(2)).is_empty());
                let d = ghost::k().now.checked_sub(t).unwrap();
                assert!(d >= T { s: 2, m: 0, n: 0 }, "a wait ends before its timeout");
                assert!(d <= T { s: 2, m: 1, n: 0 }, "a wait ends long after its timeout");
            }
            { modify(the(), &S0, 8, R); modify(the(), &S0, 9, R) }
            { asleep(); block(Box::new(|| false), Some(T { s: 1, m: 900, n: 0 }), "sleep"); modify(the(), &S0, 9, R); }
        }
    }
}
