//! C16: registrations change while another thread waits.
use super::pre::*;

static mut OP: u8 = 0;

/// Another thread, while this one sleeps.
fn change() {
    let p = the();
    match unsafe { OP } {
        0 => add(p, &S1, 8, R),
        1 => modify(p, &S0, 9, R),
        2 => delete(p, &S0),
        3 => {
            delete(p, &S0);
            ghost::set_ready(0, IN);
            add(p, &S1, 8, R);
        }
        _ => {
            add(p, &S1, 8, W);
            modify(p, &S1, 18, R);
        }
    }
}

fn asleep(op: u8, n: usize, key: usize) {
    let p = &mk();
    share(p);
    ghost::add_user(100, OUT);
    ghost::add_user(101, IN);
    add(p, &S0, 7, NONE);
    if op == 1 {
        ghost::set_ready(0, IN);
    }
    unsafe { OP = op }
    let k = ghost::k();
    k.on_block_on = true;
    k.on_block = change;
    k.hang_is_error = n > 0;
    let mut evs = list(4);
    let t = if n > 0 { None } else { Some(Duration::from_secs(1)) };
    let r = wait(p, &mut evs, t);
    let s = look(&evs);
    assert!(r == n && s.n == n, "a change during the wait does not take effect, or too much of it");
    if let Some(e) = s.a {
        assert!(e.key == key, "the event carries another key");
    }
}

static mut FIRED: bool = false;
fn anywhere(_k: u8) {
    unsafe {
        if !FIRED && nd::bool() {
            FIRED = true;
            change();
        }
    }
}

static mut STEP: u32 = 0;
static mut AT: u32 = 0;
fn nth(_k: u8) {
    unsafe {
        let s = STEP;
        STEP += 1;
        // (with a lock held, an operation that needs it would only start here)
        if s == AT && ghost::k().held == 0 {
            FIRED = true;
            change();
        }
    }
}
/// The source is deleted at the n-th step of a wait: the next wait does not report it.
fn del_at(n: u32) {
    let p = &mk();
    share(p);
    ghost::add_user(100, IN);
    add(p, &S0, 7, R);
    unsafe { OP = 2; FIRED = false; STEP = 0; AT = n; }
    ghost::k().hook = nth;
    ghost::k().hook_on = true;
    ghost::k().wait_max = 4;
    let mut evs = list(4);
    let _ = wait(p, &mut evs, Some(Duration::ZERO));
    ghost::k().hook_on = false;
    if unsafe { FIRED } {
        ghost::k().wait_max = 1;
        assert!(poll_one(p).is_none(), "a deleted source is reported");
    }
}

proofs! {
    c16_add__e(5) { asleep(0, 1, 8) }
    c16_modify__e(5) { asleep(1, 1, 9) }
    c16_delete__e(5) { asleep(2, 0, 0) }
    c16_delete_add__e(5) { asleep(3, 1, 8) }
    c16_add_modify__e(5) { asleep(4, 1, 18) }

    // at any step of a wait; a following wait sees the change in any case
    c16_any_step_modify(5) {
        let p = &mk();
        share(p);
        ghost::add_user(100, IN);
        add(p, &S0, 7, W);
        unsafe { OP = 1; FIRED = false; }
        ghost::k().hook = anywhere;
        ghost::k().hook_on = true;
        ghost::k().wait_max = 4;
        let mut evs = list(4);
        let n1 = wait(p, &mut evs, Some(Duration::ZERO));
        if let Some(e) = look(&evs).a {
            assert!(e.key == 9, "the event carries another key");
        }
        ghost::k().hook_on = false;
        let n2 = poll_one(p).is_some() as usize;
        assert!(n1 + n2 == unsafe { FIRED } as usize, "a change during a wait is lost, or seen twice");
    }
    c16_any_step_delete_a(5) { del_at(0); del_at(1); del_at(2); del_at(3) }
    c16_any_step_delete_b(5) { del_at(4); del_at(5); del_at(6); del_at(7) }
    c16_any_step_delete_c(5) { del_at(8); del_at(9); del_at(10); del_at(11) }
    c16_any_step_delete_d(5) { del_at(12); del_at(13); del_at(14); del_at(15) }
}
