//! C09: a single thread waits.
use super::pre::*;

static mut LEFT: Option<Events> = None;
static mut RAN: bool = false;
static mut MODE: u8 = 0;

/// Another thread calls wait while this one sleeps.
fn second() {
    unsafe {
        if RAN {
            return;
        }
        RAN = true;
    }
    let p = the();
    let k = ghost::k();
    let b = k.nblock;
    // now and then something is there for the first thread
    if unsafe { MODE } == 1 {
        notify(p);
    } else if unsafe { MODE } == 2 {
        ghost::set_ready(0, IN);
    }
    // a list that still holds the events of an earlier wait
    let mut evs = unsafe { (&mut *(&raw mut LEFT)).take() }.unwrap();
    let t = match nd::below(3) {
        0 => None,
        1 => Some(Duration::ZERO),
        _ => Some(Duration::any()),
    };
    match p.wait(&mut evs, t) {
        Ok(n) => assert!(n == 0, "a concurrent wait takes events"),
        Err(_) => panic!("a concurrent wait fails"),
    }
    // the list holds what it held before, or nothing
    let s = look(&evs);
    assert!(s.n <= 1 && s.key(7).is_none(), "a concurrent wait takes events");
    assert!(k.nblock == b, "a concurrent wait sleeps");
    if unsafe { MODE } == 3 {
        notify(p);
    }
}

fn scenario(mode: u8) {
    let p = &mk();
    share(p);
    ghost::add_user(100, 0);
    ghost::add_user(101, IN);
    add(p, &S1, 20, R);
    let mut left = list(4);
    assert!(wait0(p, &mut left) == 1, "a ready source is not reported");
    delete(p, &S1);
    add(p, &S0, 7, R);
    unsafe {
        RAN = false;
        MODE = mode;
        LEFT = Some(left);
    }
    let k = ghost::k();
    k.on_block_on = true;
    k.on_block = second;
    k.hang_is_error = mode != 0;
    let mut evs = list(4);
    let t = if mode == 0 { Some(Duration::from_secs(3)) } else { None };
    let n = wait(p, &mut evs, t);
    assert!(unsafe { RAN }, "the wait does not sleep");
    assert!(n == (mode == 2) as usize, "a concurrent wait disturbs the first one");
    if mode == 0 {
        assert!(ghost::k().now.s == 3, "a concurrent wait disturbs the first one");
    } else {
        assert!(ghost::k().now == T::ZERO, "a concurrent wait disturbs the first one");
    }
    // the right to wait is free again
    ghost::k().on_block_on = false;
    ghost::set_ready(0, IN);
    modify(p, &S0, 9, R);
    match poll_one(p) {
        Some(e) => assert!(e.key == 9, "the event carries another key"),
        None => panic!("no wait is possible any more"),
    }
}

/// At any step of the first wait: the second one either has the right to wait by itself, or
/// returns at once; both together see the event exactly once.
static mut GOT: usize = 0;
fn anywhere(_k: u8) {
    unsafe {
        if !RAN && nd::bool() {
            RAN = true;
            let mut evs = list(4);
            match the().wait(&mut evs, Some(Duration::ZERO)) {
                Ok(n) => GOT = n,
                Err(_) => panic!("a concurrent wait fails"),
            }
        }
    }
}

proofs! {
    c09_quiet(5) { scenario(0) }
    c09_notified(5) { scenario(1) }
    c09_ready(5) { scenario(2) }
    c09_notified_after(5) { scenario(3) }

    c09_any_step(5) {
        let p = &mk();
        share(p);
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        unsafe { RAN = false; GOT = 0; }
        ghost::k().hook = anywhere;
        ghost::k().hook_on = true;
        ghost::k().wait_max = 4;
        let mut evs = list(4);
        let n = wait(p, &mut evs, Some(Duration::ZERO));
        ghost::k().hook_on = false;
        assert!(n == look(&evs).n, "wait returns another number than the list holds");
        assert!(n + unsafe { GOT } == 1, "an event is lost or seen twice");
    }

    // a failing wait gives the right to wait back
    c09_failed(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        add(p, &S0, 7, R);
        ghost::k().fault_class = ghost::F_WAIT | ghost::F_TIMER;
        ghost::k().fault_budget = 1;
        let mut evs = list(4);
        if p.wait(&mut evs, Some(Duration::ZERO)).is_err() {
            ghost::k().fault_class = 0;
            assert!(poll_one(p).is_some(), "no wait is possible any more");
        }
    }
}
