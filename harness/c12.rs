//! C12: operations on one source never affect another.
use super::pre::*;

fn expect(s: &Seen, key: usize, i: Int, ready: u16, on: bool) -> usize {
    match s.key(key) {
        Some(e) => {
            assert!(on && ready & i.wants() != 0, "an event of a source without a reason");
            flags_ok(&e, ready & i.wants());
            1
        }
        None => {
            assert!(!on || ready & i.wants() == 0, "another operation hides a ready source");
            0
        }
    }
}

fn three(p: &Poller) -> [u16; 3] {
    let a = [any_ready(), any_ready(), any_ready()];
    ghost::add_user(100, a[0]);
    ghost::add_user(101, a[1]);
    ghost::add_user(102, a[2]);
    add(p, &S0, 7, R);
    add(p, &S1, 8, W);
    add(p, &S2, 9, RW);
    a
}

/// Deletes source `d` of three and looks at all; then re-adds it and looks again.
fn del(d: usize) {
    let p = &mk();
    let a = three(p);
    match d {
        0 => delete(p, &S0),
        1 => delete(p, &S1),
        _ => delete(p, &S2),
    }
    let s = poll_all(p);
    let n = expect(&s, 7, R, a[0], d != 0)
        + expect(&s, 8, W, a[1], d != 1)
        + expect(&s, 9, RW, a[2], d != 2);
    assert!(s.n == n, "an event with a strange key");
}

/// Deletes source d, then source e, then modifies the remaining one.
fn del2(d: usize, e: usize) {
    let p = &mk();
    let a = three(p);
    let srcs = [&S0, &S1, &S2];
    delete(p, srcs[d]);
    delete(p, srcs[e]);
    let r = 3 - d - e;
    let j = any_int();
    modify(p, srcs[r], 11, j);
    let s = poll_all(p);
    let n = expect(&s, 11, j, a[r], true);
    assert!(s.n == n, "an event with a strange key");
}

/// Deletes d and adds it again with another key: now last in any internal order; then modifies m.
fn del_add_mod(d: usize, m: usize) {
    let p = &mk();
    let mut ready = [IN | OUT; 3];
    ghost::add_user(100, ready[0]);
    ghost::add_user(101, ready[1]);
    ghost::add_user(102, ready[2]);
    let srcs = [&S0, &S1, &S2];
    let mut key = [7, 8, 9];
    let mut int = [R, W, RW];
    add(p, &S0, 7, R);
    add(p, &S1, 8, W);
    add(p, &S2, 9, RW);
    delete(p, srcs[d]);
    key[d] = 17;
    int[d] = W;
    add(p, srcs[d], 17, W);
    key[m] = 18;
    int[m] = R;
    modify(p, srcs[m], 18, R);
    ready = [any_ready(), any_ready(), any_ready()];
    ghost::set_ready(0, ready[0]);
    ghost::set_ready(1, ready[1]);
    ghost::set_ready(2, ready[2]);
    let s = poll_all(p);
    let n = expect(&s, key[0], int[0], ready[0], true)
        + expect(&s, key[1], int[1], ready[1], true)
        + expect(&s, key[2], int[2], ready[2], true);
    assert!(s.n == n, "an event with a strange key");
}

const O: PollMode = PollMode::Oneshot;
const L: PollMode = PollMode::Level;
fn any_mode() -> PollMode {
    let m = MODES[nd::below(4) as usize];
    nd::assume(supported(m));
    m
}
/// Deletes source d of three of the modes m; the others keep their modes.
fn del_modes(d: usize, m: [PollMode; 3]) {
    let p = &mk();
    ghost::add_user(100, IN);
    ghost::add_user(101, IN);
    ghost::add_user(102, IN);
    add_mode(p, &S0, 7, R, m[0]);
    add_mode(p, &S1, 8, R, m[1]);
    add_mode(p, &S2, 9, R, m[2]);
    match d {
        0 => delete(p, &S0),
        1 => delete(p, &S1),
        _ => delete(p, &S2),
    }
    let s = poll_all(p);
    assert!(s.key(7).is_some() == (d != 0), "deletion affects another source");
    assert!(s.key(8).is_some() == (d != 1), "deletion affects another source");
    assert!(s.key(9).is_some() == (d != 2), "deletion affects another source");
    let lv = |i: usize| i != d && matches!(m[i], PollMode::Level);
    let s = poll_all(p);
    assert!(s.key(7).is_some() == lv(0), "deletion changes the mode of another source");
    assert!(s.key(8).is_some() == lv(1), "deletion changes the mode of another source");
    assert!(s.key(9).is_some() == lv(2), "deletion changes the mode of another source");
}

proofs! {
    c12_delete_modes_0__e(5) { del_modes(0, [any_mode(), any_mode(), any_mode()]) }
    c12_delete_modes_1__e(5) { del_modes(1, [any_mode(), any_mode(), any_mode()]) }
    c12_delete_modes_2__e(5) { del_modes(2, [any_mode(), any_mode(), any_mode()]) }
    c12_delete_modes_0_ooo__p_t(5) { del_modes(0, [O, O, O]) }
    c12_delete_modes_0_loo__p(5) { del_modes(0, [L, O, O]) }
    c12_delete_modes_0_olo__p_t(5) { del_modes(0, [O, L, O]) }
    c12_delete_modes_0_llo__p_t(5) { del_modes(0, [L, L, O]) }
    c12_delete_modes_0_ool__p_t(5) { del_modes(0, [O, O, L]) }
    c12_delete_modes_0_lol__p_t(5) { del_modes(0, [L, O, L]) }
    c12_delete_modes_0_oll__p(5) { del_modes(0, [O, L, L]) }
    c12_delete_modes_0_lll__p_t(5) { del_modes(0, [L, L, L]) }
    c12_delete_modes_1_ooo__p_t(5) { del_modes(1, [O, O, O]) }
    c12_delete_modes_1_loo__p_t(5) { del_modes(1, [L, O, O]) }
    c12_delete_modes_1_olo__p(5) { del_modes(1, [O, L, O]) }
    c12_delete_modes_1_llo__p_t(5) { del_modes(1, [L, L, O]) }
    c12_delete_modes_1_ool__p_t(5) { del_modes(1, [O, O, L]) }
    c12_delete_modes_1_lol__p(5) { del_modes(1, [L, O, L]) }
    c12_delete_modes_1_oll__p_t(5) { del_modes(1, [O, L, L]) }
    c12_delete_modes_1_lll__p_t(5) { del_modes(1, [L, L, L]) }
    c12_delete_modes_2_ooo__p_t(5) { del_modes(2, [O, O, O]) }
    c12_delete_modes_2_loo__p_t(5) { del_modes(2, [L, O, O]) }
    c12_delete_modes_2_olo__p_t(5) { del_modes(2, [O, L, O]) }
    c12_delete_modes_2_llo__p(5) { del_modes(2, [L, L, O]) }
    c12_delete_modes_2_ool__p(5) { del_modes(2, [O, O, L]) }
    c12_delete_modes_2_lol__p_t(5) { del_modes(2, [L, O, L]) }
    c12_delete_modes_2_oll__p_t(5) { del_modes(2, [O, L, L]) }
    c12_delete_modes_2_lll__p_t(5) { del_modes(2, [L, L, L]) }
    c12_delete_0(5) { del(0) }
    c12_delete_1(5) { del(1) }
    c12_delete_2(5) { del(2) }
    c12_delete_01(5) { del2(0, 1) }
    c12_delete_02(5) { del2(0, 2) }
    c12_delete_10(5) { del2(1, 0) }
    c12_delete_12(5) { del2(1, 2) }
    c12_delete_20(5) { del2(2, 0) }
    c12_delete_21(5) { del2(2, 1) }
    c12_readd_00(5) { del_add_mod(0, 0) }
    c12_readd_01(5) { del_add_mod(0, 1) }
    c12_readd_02(5) { del_add_mod(0, 2) }
    c12_readd_10(5) { del_add_mod(1, 0) }
    c12_readd_12(5) { del_add_mod(1, 2) }
    c12_readd_20(5) { del_add_mod(2, 0) }
    c12_readd_21(5) { del_add_mod(2, 1) }

    // delivery for one oneshot source does not disable another one
    c12_delivery(5) {
        let p = &mk();
        let (a, b) = (any_ready() & (IN | PRI | OUT), any_ready() & (IN | PRI | OUT));
        ghost::add_user(100, a);
        ghost::add_user(101, b);
        add(p, &S0, 7, RW);
        add(p, &S1, 8, RW);
        let s1 = poll_all(p);
        assert!(s1.key(7).is_some() == (a != 0) && s1.key(8).is_some() == (b != 0), "wrong events");
        ghost::set_ready(0, IN | OUT);
        ghost::set_ready(1, IN | OUT);
        let s2 = poll_all(p);
        assert!(s2.key(7).is_some() == (a == 0), "delivery for one source affects another");
        assert!(s2.key(8).is_some() == (b == 0), "delivery for one source affects another");
    }
    // modes are per source
    c12_modes(5) {
        let p = &mk();
        ghost::add_user(100, IN);
        ghost::add_user(101, IN);
        add_mode(p, &S0, 7, R, PollMode::Level);
        add_mode(p, &S1, 8, R, PollMode::Oneshot);
        let s = poll_all(p);
        assert!(s.n == 2 && s.key(7).is_some() && s.key(8).is_some(), "a ready source is not reported");
        let s = poll_all(p);
        assert!(s.n == 1 && s.key(7).is_some(), "modes of two sources are mixed up");
        modify(p, &S1, 18, R);
        let s = poll_all(p);
        assert!(s.n == 2 && s.key(7).is_some() && s.key(18).is_some(), "modes or keys are mixed up");
    }
    // the same key may be used for two sources
    c12_same_key(5) {
        let p = &mk();
        let (a, b) = (any_ready(), any_ready());
        ghost::add_user(100, a);
        ghost::add_user(101, b);
        add(p, &S0, 7, R);
        add(p, &S1, 7, W);
        let s = poll_all(p);
        let (x, y) = (a & R.wants() != 0, b & W.wants() != 0);
        assert!(s.n == x as usize + y as usize, "sources with equal keys are mixed up");
        delete(p, &S0);
        modify(p, &S1, 7, W);
        let s = poll_all(p);
        assert!(s.n == y as usize, "sources with equal keys are mixed up");
    }
}
