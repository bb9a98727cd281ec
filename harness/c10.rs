//! C10: registration life cycle.
use super::pre::*;
use mstd::io::ErrorKind;

/// The abstract registry: what a sequence of operations has to lead to.
#[derive(Clone, Copy)]
pub struct Reg {
    pub on: bool,
    pub key: usize,
    pub i: Int,
}

fn step(p: &Poller, s: &Src, r: &mut Reg, key: usize, op: u8) {
    let i = if key & 1 == 1 { R } else { W };
    if op == 0 {
        let res = unsafe { p.add(s, i.ev(key)) };
        if r.on {
            match res {
                Ok(()) => panic!("a source is added twice"),
                Err(e) => assert!(e.kind() == ErrorKind::AlreadyExists, "another error is reported"),
            }
        } else {
            assert!(res.is_ok(), "add fails although it must succeed");
            *r = Reg { on: true, key, i };
        }
    } else if op == 1 {
        let res = p.modify(s, i.ev(key));
        if r.on {
            assert!(res.is_ok(), "modify fails although it must succeed");
            *r = Reg { on: true, key, i };
        } else {
            match res {
                Ok(()) => panic!("an unregistered source is modified"),
                Err(e) => assert!(e.kind() == ErrorKind::NotFound, "another error is reported"),
            }
        }
    } else {
        let res = p.delete(s);
        if r.on {
            assert!(res.is_ok(), "delete fails although it must succeed");
            r.on = false;
        } else {
            match res {
                Ok(()) => panic!("an unregistered source is deleted"),
                Err(e) => assert!(e.kind() == ErrorKind::NotFound, "another error is reported"),
            }
        }
    }
}

fn check(p: &Poller, r: &Reg, ready: u16) {
    match poll_one(p) {
        Some(e) => {
            assert!(r.on && ready & r.i.wants() != 0, "an event of a source that is not registered");
            assert!(e.key == r.key, "the event carries another key");
        }
        None => assert!(!r.on || ready & r.i.wants() == 0, "a ready source is not reported"),
    }
}

fn hist(ops: &[u8]) {
    let p = &mk();
    let ready = any_ready();
    ghost::add_user(100, ready);
    let mut r = Reg { on: false, key: 0, i: NONE };
    let mut n = 0;
    while n < ops.len() {
        step(p, &S0, &mut r, n + 1, ops[n]);
        n += 1;
    }
    check(p, &r, ready);
}

fn silent(m: PollMode) {
    let p = &mk();
    let u = ghost::add_user(100, any_ready());
    add_mode(p, &S0, 7, any_int(), m);
    delete(p, &S0);
    assert!(poll_one(p).is_none(), "a deleted source is reported");
    ghost::set_ready(u, any_ready());
    assert!(poll_one(p).is_none(), "a deleted source is reported");
}
fn readded(m: PollMode) {
    let p = &mk();
    let ready = any_ready();
    let u = ghost::add_user(100, ready);
    add_mode(p, &S0, 7, any_int(), m);
    delete(p, &S0);
    // re-added with another key and interest
    let j = any_int();
    let key = any_key();
    add(p, &S0, key, j);
    match poll_one(p) {
        Some(e) => assert!(e.key == key && ready & j.wants() != 0, "the old registration is reported"),
        None => assert!(ready & j.wants() == 0, "a ready source is not reported"),
    }
}

proofs! {
    // every sequence of three operations on one source (0 add, 1 modify, 2 delete)
    c10_history_00(5) { hist(&[0, 0, 0]); hist(&[0, 0, 1]); hist(&[0, 0, 2]) }
    c10_history_01(5) { hist(&[0, 1, 0]); hist(&[0, 1, 1]); hist(&[0, 1, 2]) }
    c10_history_02(5) { hist(&[0, 2, 0]); hist(&[0, 2, 1]); hist(&[0, 2, 2]) }
    c10_history_10(5) { hist(&[1, 0, 0]); hist(&[1, 0, 1]); hist(&[1, 0, 2]) }
    c10_history_11(5) { hist(&[1, 1, 0]); hist(&[1, 1, 1]); hist(&[1, 1, 2]) }
    c10_history_12(5) { hist(&[1, 2, 0]); hist(&[1, 2, 1]); hist(&[1, 2, 2]) }
    c10_history_20(5) { hist(&[2, 0, 0]); hist(&[2, 0, 1]); hist(&[2, 0, 2]) }
    c10_history_21(5) { hist(&[2, 1, 0]); hist(&[2, 1, 1]); hist(&[2, 1, 2]) }
    c10_history_22(5) { hist(&[2, 2, 0]); hist(&[2, 2, 1]); hist(&[2, 2, 2]) }
    // ... of four, and of five that begin with a registration
    c10_history4_000__t(5) { hist(&[0, 0, 0, 0]); hist(&[0, 0, 0, 1]); hist(&[0, 0, 0, 2]) }
    c10_history4_001__t(5) { hist(&[0, 0, 1, 0]); hist(&[0, 0, 1, 1]); hist(&[0, 0, 1, 2]) }
    c10_history4_002__t(5) { hist(&[0, 0, 2, 0]); hist(&[0, 0, 2, 1]); hist(&[0, 0, 2, 2]) }
    c10_history4_010__t(5) { hist(&[0, 1, 0, 0]); hist(&[0, 1, 0, 1]); hist(&[0, 1, 0, 2]) }
    c10_history4_011__t(5) { hist(&[0, 1, 1, 0]); hist(&[0, 1, 1, 1]); hist(&[0, 1, 1, 2]) }
    c10_history4_012__t(5) { hist(&[0, 1, 2, 0]); hist(&[0, 1, 2, 1]); hist(&[0, 1, 2, 2]) }
    c10_history4_020__t(5) { hist(&[0, 2, 0, 0]); hist(&[0, 2, 0, 1]); hist(&[0, 2, 0, 2]) }
    c10_history4_021__t(5) { hist(&[0, 2, 1, 0]); hist(&[0, 2, 1, 1]); hist(&[0, 2, 1, 2]) }
    c10_history4_022__t(5) { hist(&[0, 2, 2, 0]); hist(&[0, 2, 2, 1]); hist(&[0, 2, 2, 2]) }
    c10_history4_100__t(5) { hist(&[1, 0, 0, 0]); hist(&[1, 0, 0, 1]); hist(&[1, 0, 0, 2]) }
    c10_history4_101__t(5) { hist(&[1, 0, 1, 0]); hist(&[1, 0, 1, 1]); hist(&[1, 0, 1, 2]) }
    c10_history4_102__t(5) { hist(&[1, 0, 2, 0]); hist(&[1, 0, 2, 1]); hist(&[1, 0, 2, 2]) }
    c10_history4_110__t(5) { hist(&[1, 1, 0, 0]); hist(&[1, 1, 0, 1]); hist(&[1, 1, 0, 2]) }
    c10_history4_111__t(5) { hist(&[1, 1, 1, 0]); hist(&[1, 1, 1, 1]); hist(&[1, 1, 1, 2]) }
    c10_history4_112__t(5) { hist(&[1, 1, 2, 0]); hist(&[1, 1, 2, 1]); hist(&[1, 1, 2, 2]) }
    c10_history4_120__t(5) { hist(&[1, 2, 0, 0]); hist(&[1, 2, 0, 1]); hist(&[1, 2, 0, 2]) }
    c10_history4_121__t(5) { hist(&[1, 2, 1, 0]); hist(&[1, 2, 1, 1]); hist(&[1, 2, 1, 2]) }
    c10_history4_122__t(5) { hist(&[1, 2, 2, 0]); hist(&[1, 2, 2, 1]); hist(&[1, 2, 2, 2]) }
    c10_history4_200__t(5) { hist(&[2, 0, 0, 0]); hist(&[2, 0, 0, 1]); hist(&[2, 0, 0, 2]) }
    c10_history4_201__t(5) { hist(&[2, 0, 1, 0]); hist(&[2, 0, 1, 1]); hist(&[2, 0, 1, 2]) }
    c10_history4_202__t(5) { hist(&[2, 0, 2, 0]); hist(&[2, 0, 2, 1]); hist(&[2, 0, 2, 2]) }
    c10_history4_210__t(5) { hist(&[2, 1, 0, 0]); hist(&[2, 1, 0, 1]); hist(&[2, 1, 0, 2]) }
    c10_history4_211__t(5) { hist(&[2, 1, 1, 0]); hist(&[2, 1, 1, 1]); hist(&[2, 1, 1, 2]) }
    c10_history4_212__t(5) { hist(&[2, 1, 2, 0]); hist(&[2, 1, 2, 1]); hist(&[2, 1, 2, 2]) }
    c10_history4_220__t(5) { hist(&[2, 2, 0, 0]); hist(&[2, 2, 0, 1]); hist(&[2, 2, 0, 2]) }
    c10_history4_221__t(5) { hist(&[2, 2, 1, 0]); hist(&[2, 2, 1, 1]); hist(&[2, 2, 1, 2]) }
    c10_history4_222__t(5) { hist(&[2, 2, 2, 0]); hist(&[2, 2, 2, 1]); hist(&[2, 2, 2, 2]) }
    c10_history5_000__t(6) { hist(&[0, 0, 0, 0, 0]); hist(&[0, 0, 0, 0, 1]); hist(&[0, 0, 0, 0, 2]) }
    c10_history5_001__t(6) { hist(&[0, 0, 0, 1, 0]); hist(&[0, 0, 0, 1, 1]); hist(&[0, 0, 0, 1, 2]) }
    c10_history5_002__t(6) { hist(&[0, 0, 0, 2, 0]); hist(&[0, 0, 0, 2, 1]); hist(&[0, 0, 0, 2, 2]) }
    c10_history5_010__t(6) { hist(&[0, 0, 1, 0, 0]); hist(&[0, 0, 1, 0, 1]); hist(&[0, 0, 1, 0, 2]) }
    c10_history5_011__t(6) { hist(&[0, 0, 1, 1, 0]); hist(&[0, 0, 1, 1, 1]); hist(&[0, 0, 1, 1, 2]) }
    c10_history5_012__t(6) { hist(&[0, 0, 1, 2, 0]); hist(&[0, 0, 1, 2, 1]); hist(&[0, 0, 1, 2, 2]) }
    c10_history5_020__t(6) { hist(&[0, 0, 2, 0, 0]); hist(&[0, 0, 2, 0, 1]); hist(&[0, 0, 2, 0, 2]) }
    c10_history5_021__t(6) { hist(&[0, 0, 2, 1, 0]); hist(&[0, 0, 2, 1, 1]); hist(&[0, 0, 2, 1, 2]) }
    c10_history5_022__t(6) { hist(&[0, 0, 2, 2, 0]); hist(&[0, 0, 2, 2, 1]); hist(&[0, 0, 2, 2, 2]) }
    c10_history5_100__t(6) { hist(&[0, 1, 0, 0, 0]); hist(&[0, 1, 0, 0, 1]); hist(&[0, 1, 0, 0, 2]) }
    c10_history5_101__t(6) { hist(&[0, 1, 0, 1, 0]); hist(&[0, 1, 0, 1, 1]); hist(&[0, 1, 0, 1, 2]) }
    c10_history5_102__t(6) { hist(&[0, 1, 0, 2, 0]); hist(&[0, 1, 0, 2, 1]); hist(&[0, 1, 0, 2, 2]) }
    c10_history5_110__t(6) { hist(&[0, 1, 1, 0, 0]); hist(&[0, 1, 1, 0, 1]); hist(&[0, 1, 1, 0, 2]) }
    c10_history5_111__t(6) { hist(&[0, 1, 1, 1, 0]); hist(&[0, 1, 1, 1, 1]); hist(&[0, 1, 1, 1, 2]) }
    c10_history5_112__t(6) { hist(&[0, 1, 1, 2, 0]); hist(&[0, 1, 1, 2, 1]); hist(&[0, 1, 1, 2, 2]) }
    c10_history5_120__t(6) { hist(&[0, 1, 2, 0, 0]); hist(&[0, 1, 2, 0, 1]); hist(&[0, 1, 2, 0, 2]) }
    c10_history5_121__t(6) { hist(&[0, 1, 2, 1, 0]); hist(&[0, 1, 2, 1, 1]); hist(&[0, 1, 2, 1, 2]) }
    c10_history5_122__t(6) { hist(&[0, 1, 2, 2, 0]); hist(&[0, 1, 2, 2, 1]); hist(&[0, 1, 2, 2, 2]) }
    c10_history5_200__t(6) { hist(&[0, 2, 0, 0, 0]); hist(&[0, 2, 0, 0, 1]); hist(&[0, 2, 0, 0, 2]) }
    c10_history5_201__t(6) { hist(&[0, 2, 0, 1, 0]); hist(&[0, 2, 0, 1, 1]); hist(&[0, 2, 0, 1, 2]) }
    c10_history5_202__t(6) { hist(&[0, 2, 0, 2, 0]); hist(&[0, 2, 0, 2, 1]); hist(&[0, 2, 0, 2, 2]) }
    c10_history5_210__t(6) { hist(&[0, 2, 1, 0, 0]); hist(&[0, 2, 1, 0, 1]); hist(&[0, 2, 1, 0, 2]) }
    c10_history5_211__t(6) { hist(&[0, 2, 1, 1, 0]); hist(&[0, 2, 1, 1, 1]); hist(&[0, 2, 1, 1, 2]) }
    c10_history5_212__t(6) { hist(&[0, 2, 1, 2, 0]); hist(&[0, 2, 1, 2, 1]); hist(&[0, 2, 1, 2, 2]) }
    c10_history5_220__t(6) { hist(&[0, 2, 2, 0, 0]); hist(&[0, 2, 2, 0, 1]); hist(&[0, 2, 2, 0, 2]) }
    c10_history5_221__t(6) { hist(&[0, 2, 2, 1, 0]); hist(&[0, 2, 2, 1, 1]); hist(&[0, 2, 2, 1, 2]) }
    c10_history5_222__t(6) { hist(&[0, 2, 2, 2, 0]); hist(&[0, 2, 2, 2, 1]); hist(&[0, 2, 2, 2, 2]) }
    // waits in between change nothing of what is registered
    c10_across_wait(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        assert!(poll_one(p).is_some(), "a ready source is not reported");
        // delivered, but still registered
        assert!(unsafe { p.add(&S0, R.ev(8)) }.is_err(), "a source is added twice");
        if nd::bool() {
            modify(p, &S0, 9, R);
            match poll_one(p) {
                Some(e) => assert!(e.key == 9, "the event carries another key"),
                None => panic!("a ready source is not reported"),
            }
        }
        delete(p, &S0);
        assert!(p.delete(&S0).is_err(), "an unregistered source is deleted");
        assert!(poll_one(p).is_none(), "a deleted source is reported");
    }
    // deleted: silent, whatever was pending
    c10_deleted_level(5) { silent(PollMode::Level) }
    c10_deleted_oneshot(5) { silent(PollMode::Oneshot) }
    c10_readded_level(5) { readded(PollMode::Level) }
    c10_readded_oneshot(5) { readded(PollMode::Oneshot) }
    // any descriptor number, any key
    c10_any_fd(5) {
        let p = &mk();
        let fd = nd::i32();
        nd::assume(fd >= 64);
        ghost::add_user(fd, 0);
        let s = Src(fd);
        assert!(p.modify(&s, R.ev(3)).is_err(), "an unregistered source is modified");
        assert!(p.delete(&s).is_err(), "an unregistered source is deleted");
        add(p, &s, 1, R);
        assert!(unsafe { p.add(&s, R.ev(2)) }.is_err(), "a source is added twice");
        modify(p, &s, 3, W);
        delete(p, &s);
        assert!(p.modify(&s, R.ev(3)).is_err(), "an unregistered source is modified");
        add(p, &s, 4, RW);
    }
    // sources can be given by number
    c10_by_number(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        if unsafe { p.add(100, R.ev(7)) }.is_err() {
            panic!("add fails although it must succeed");
        }
        assert!(unsafe { p.add(&S0, R.ev(8)) }.is_err(), "a source is added twice");
        match poll_one(p) {
            Some(e) => assert!(e.key == 7, "the event carries another key"),
            None => panic!("a ready source is not reported"),
        }
    }
}
