//! C11: a failed operation changes nothing.
use super::pre::*;

/// What is registered for source 0: key 7, interest `i`, mode `m`; its readiness is `ready`.
/// Checks that exactly this is observed, including the mode.
fn unchanged(p: &Poller, i: Int, m: PollMode, ready: u16) {
    let want = ready & i.wants() != 0;
    match poll_one(p) {
        Some(e) => assert!(e.key == 7 && want, "a failed operation has an effect"),
        None => assert!(!want, "a failed operation has an effect"),
    }
    // poll(2): errors and hang-ups of delivered sources (known finding, see c03)
    if !POLL || ready & (ERR | HUP) == 0 {
        let again = poll_one(p).is_some();
        assert!(again == (want && m == PollMode::Level), "a failed operation changes the mode");
    }
    // nothing is left to wake a wait
    ghost::set_ready(0, 0);
    ghost::k().nwait = 0;
    let b = ghost::k().nblock;
    let mut evs = list(4);
    let n = wait(p, &mut evs, Some(Duration::from_secs(1)));
    assert!(n == 0 && ghost::k().nblock == b + 1, "a failed operation wakes a wait");
}

fn setup(p: &Poller, m: PollMode) -> (Int, u16) {
    let ready = any_ready();
    ghost::add_user(100, ready);
    let i = any_int();
    add_mode(p, &S0, 7, i, m);
    (i, ready)
}

const O: PollMode = PollMode::Oneshot;
const L: PollMode = PollMode::Level;

fn dup(m: PollMode) {
    let p = &mk();
    let (i, ready) = setup(p, m);
    let m2 = if nd::bool() { O } else { L };
    let r = unsafe { p.add_with_mode(&S0, any_int().ev(any_key()), m2) };
    assert!(r.is_err(), "a source is added twice");
    unchanged(p, i, m, ready);
}

fn bad_mode(m: PollMode, bad: PollMode) {
    let p = &mk();
    let (i, ready) = setup(p, m);
    let r = p.modify_with_mode(&S0, any_int().ev(any_key()), bad);
    assert!(r.is_err(), "an unsupported mode is accepted");
    unchanged(p, i, m, ready);
}

fn reserved(m: PollMode) {
    let p = &mk();
    let (i, ready) = setup(p, m);
    let m2 = if nd::bool() { O } else { L };
    let r = p.modify_with_mode(&S0, any_int().ev(usize::MAX), m2);
    assert!(r.is_err(), "the reserved key is accepted");
    unchanged(p, i, m, ready);
}

fn system_error(m: PollMode, op: u8) {
    let p = &mk();
    let (i, ready) = setup(p, m);
    ghost::k().fault_class = ghost::F_CTL;
    ghost::k().fault_budget = 1;
    let r = match op {
        0 => p.modify_with_mode(&S0, any_int().ev(any_key()), O),
        1 => p.delete(&S0),
        _ => unsafe { p.add(&S0, any_int().ev(any_key())) },
    };
    ghost::k().fault_class = 0;
    if r.is_err() {
        unchanged(p, i, m, ready);
    } else {
        assert!(ghost::k().nfaults == 0, "an error of the system is swallowed");
    }
}

/// Operations on another, unregistered source.
fn unknown(op: u8) {
    let p = &mk();
    let (i, ready) = setup(p, O);
    ghost::add_user(101, IN | OUT);
    let r = match op {
        0 => p.modify(&S1, any_int().ev(any_key())),
        _ => p.delete(&S1),
    };
    assert!(r.is_err(), "an unregistered source is modified or deleted");
    unchanged(p, i, O, ready);
}

proofs! {
    c11_duplicate_oneshot(5) { dup(O) }
    c11_duplicate_level(5) { dup(L) }
    c11_mode_edge__p(5) { bad_mode(O, PollMode::Edge) }
    c11_mode_edge_level__p(5) { bad_mode(L, PollMode::Edge) }
    c11_mode_edge_oneshot__p(5) { bad_mode(O, PollMode::EdgeOneshot) }
    c11_mode_edge_oneshot_level__p(5) { bad_mode(L, PollMode::EdgeOneshot) }
    c11_add_mode__p(5) {
        let p = &mk();
        let (i, ready) = setup(p, O);
        ghost::add_user(101, ALL);
        let r = unsafe { p.add_with_mode(&S1, any_int().ev(any_key()), PollMode::Edge) };
        assert!(r.is_err(), "an unsupported mode is accepted");
        unchanged(p, i, O, ready);
        // the refused source is not registered
        assert!(p.delete(&S1).is_err(), "a refused source is registered");
        add(p, &S1, 9, R);
        match poll_one(p) {
            Some(e) => assert!(e.key == 9, "the event carries another key"),
            None => panic!("a ready source is not reported"),
        }
    }
    c11_reserved_oneshot(5) { reserved(O) }
    c11_reserved_level(5) { reserved(L) }
    c11_modify_error__e(5) { system_error(O, 0) }
    c11_modify_error_level__e(5) { system_error(L, 0) }
    c11_delete_error__e(5) { system_error(O, 1) }
    c11_add_error__e(5) { system_error(L, 2) }
    c11_unknown_modify(5) { unknown(0) }
    c11_unknown_delete(5) { unknown(1) }
    // add refused by the system: not registered
    c11_first_add_error__e(5) {
        let p = &mk();
        ghost::add_user(100, any_ready());
        ghost::k().fault_class = ghost::F_CTL;
        ghost::k().fault_budget = 1;
        let r = unsafe { p.add(&S0, RW.ev(7)) };
        ghost::k().fault_class = 0;
        if r.is_err() {
            assert!(poll_one(p).is_none(), "a failed add has an effect");
            assert!(p.modify(&S0, RW.ev(7)).is_err(), "a failed add has an effect");
            add(p, &S0, 8, RW);
        }
    }
}
