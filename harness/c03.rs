//! C03: oneshot, level and edge delivery.
use super::pre::*;

/// On poll(2) a disabled source still reports errors and hang-ups: known finding, see below.
const QUIET: u16 = if POLL { IN | PRI | OUT } else { ALL };

fn oneshot(p: &Poller, how: u8) {
    let a = any_ready() & QUIET;
    let u = ghost::add_user(100, a);
    let i = any_int();
    match how {
        0 => add(p, &S0, 7, i),
        1 => add_mode(p, &S0, 7, i, PollMode::Oneshot),
        // modify replaces the mode, and its default is oneshot
        2 => {
            add_mode(p, &S0, 5, RW, PollMode::Level);
            modify(p, &S0, 7, i)
        }
        _ => {
            add_mode(p, &S0, 5, RW, PollMode::Level);
            modify_mode(p, &S0, 7, i, PollMode::Oneshot)
        }
    }
    let first = poll_one(p).is_some();
    assert!(first == (a & i.wants() != 0), "an event is missing or has no reason");
    // the source may go on or change: silent once delivered
    let b = any_ready() & QUIET;
    ghost::set_ready(u, b);
    let second = poll_one(p).is_some();
    if first {
        assert!(!second, "a oneshot source is reported twice");
    } else {
        assert!(second == (b & i.wants() != 0), "an event is missing or has no reason");
    }
}

fn rearm(p: &Poller, mode: PollMode, how: u8) {
    let a = any_ready();
    ghost::add_user(100, a);
    add_mode(p, &S0, 7, RW, mode);
    assert!(poll_one(p).is_some() == (a != 0), "an event is missing or has no reason");
    if how == 0 {
        modify_mode(p, &S0, 8, RW, mode);
    } else {
        delete(p, &S0);
        add_mode(p, &S0, 8, RW, mode);
    }
    match poll_one(p) {
        Some(e) => assert!(e.key == 8 && a != 0, "an event without a reason, or an old key"),
        None => assert!(a == 0, "a source is not reported after it was enabled again"),
    }
}

fn level(p: &Poller, by_modify: bool) {
    let a = any_ready();
    let u = ghost::add_user(100, a);
    let i = any_int();
    if by_modify {
        add(p, &S0, 5, RW);
        modify_mode(p, &S0, 7, i, PollMode::Level);
    } else {
        add_mode(p, &S0, 7, i, PollMode::Level);
    }
    assert!(poll_one(p).is_some() == (a & i.wants() != 0), "an event is missing or has no reason");
    assert!(poll_one(p).is_some() == (a & i.wants() != 0), "a level source is not reported again");
    let b = any_ready();
    ghost::set_ready(u, b);
    assert!(poll_one(p).is_some() == (b & i.wants() != 0), "an event is missing or has no reason");
}

fn edge(p: &Poller, mode: PollMode) {
    let a = any_ready();
    let u = ghost::add_user(100, a);
    let i = any_int();
    add_mode(p, &S0, 7, i, mode);
    let first = poll_one(p).is_some();
    assert!(first == (a & i.wants() != 0), "an event is missing or has no reason");
    assert!(poll_one(p).is_none(), "an edge source is reported again without new activity");
    let b = any_ready();
    ghost::set_ready(u, b);
    let second = poll_one(p).is_some();
    if mode == PollMode::Edge || !first {
        assert!(second == (b & i.wants() != 0), "new activity of an edge source is not reported");
    } else {
        assert!(!second, "an edge-oneshot source is reported without being modified");
    }
}

proofs! {
    c03_oneshot_default(5) { oneshot(&mk(), 0) }
    c03_oneshot_explicit(5) { oneshot(&mk(), 1) }
    c03_oneshot_by_modify(5) { oneshot(&mk(), 2) }
    c03_oneshot_by_modify_mode(5) { oneshot(&mk(), 3) }
    c03_rearm_modify(5) { rearm(&mk(), PollMode::Oneshot, 0) }
    c03_rearm_delete_add(5) { rearm(&mk(), PollMode::Oneshot, 1) }
    c03_rearm_edge__e(5) { rearm(&mk(), PollMode::Edge, 0) }
    c03_rearm_edge_oneshot__e(5) { rearm(&mk(), PollMode::EdgeOneshot, 0) }
    c03_level(5) { level(&mk(), false) }
    c03_level_by_modify(5) { level(&mk(), true) }
    c03_edge__e(5) { edge(&mk(), PollMode::Edge) }
    c03_edge_oneshot__e(5) { edge(&mk(), PollMode::EdgeOneshot) }

    // what is supported is accepted, what is not is refused
    c03_support(5) {
        let p = &mk();
        ghost::add_user(100, 0);
        ghost::add_user(101, 0);
        add(p, &S0, 7, RW);
        assert!(p.supports_level(), "level-triggered mode is not supported");
        assert!(p.supports_edge() == !POLL, "support of edge-triggered mode is misreported");
        let m = MODES[nd::below(4) as usize];
        let i = any_int();
        let ok = match m {
            PollMode::Oneshot => true,
            PollMode::Level => p.supports_level(),
            _ => p.supports_edge(),
        };
        let r = p.modify_with_mode(&S0, i.ev(7), m);
        assert!(r.is_ok() == ok, "a supported mode is refused, or an unsupported one accepted");
        let r = unsafe { p.add_with_mode(&S1, i.ev(7), m) };
        assert!(r.is_ok() == ok, "a supported mode is refused, or an unsupported one accepted");
        if let Err(e) = r {
            assert!(e.kind() == mstd::io::ErrorKind::Unsupported, "not reported as unsupported");
        }
    }

    // Known finding: after its delivery a oneshot source with an error or hang-up condition is
    // reported by every later wait.
    c03_oneshot_hup__p_k(5) {
        let p = &mk();
        ghost::add_user(100, HUP);
        add(p, &S0, 7, R);
        assert!(poll_one(p).is_some(), "an event is missing or has no reason");
        assert!(poll_one(p).is_none(), "a oneshot source is reported twice");
    }
}
