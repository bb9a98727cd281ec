//! C18: the poller's own descriptor (not built for the poll backend, which has none).
use crate::verif_harness::pre::*;
use std::os::unix::io::{AsFd, AsRawFd};

/// The descriptor is the queue on which the sources of this poller are registered.
fn is_queue(p: &Poller) -> i32 {
    let fd = p.as_raw_fd();
    let k = ghost::k();
    match ghost::slot(fd) {
        Some(i) => assert!(k.fds[i].open && k.fds[i].kind == ghost::K_EPOLL, "not the queue"),
        None => panic!("not a descriptor of the poller"),
    }
    assert!(p.as_fd().as_raw_fd() == fd, "the two accessors disagree");
    fd
}
/// Would the queue be reported as readable by another poller?
fn readable(fd: i32) -> bool {
    let mut r = false;
    ghost::each!(e in ent {
        if ghost::k().ent[e].ep == fd && ghost::deliverable(e) != 0 {
            r = true;
        }
    });
    r
}

proofs! {
    c18_fd__e_n(5) {
        let p = &mk();
        let fd = is_queue(p);
        assert!(!readable(fd), "readable without a reason");
        let a = any_ready();
        ghost::add_user(100, a);
        let i = any_int();
        add(p, &S0, 7, i);
        assert!(is_queue(p) == fd, "the descriptor changes");
        assert!(ghost::find_ent(fd, 100).is_some(), "a source is registered elsewhere");
        let want = a & i.wants() != 0;
        assert!(readable(fd) == want, "readability does not follow the sources");
        let open = ghost::open_count();
        let b = poll_one(p).is_some();
        assert!(b == want, "exposing the descriptor changes what is reported");
        assert!(is_queue(p) == fd && ghost::open_count() == open, "the descriptor changes");
        assert!(!readable(fd), "readable without a reason");
    }
    c18_notified__e_n(5) {
        let p = &mk();
        let fd = is_queue(p);
        notify(p);
        assert!(readable(fd), "a notification does not make the descriptor readable");
        let _ = poll_one(p);
        assert!(!readable(fd), "readable without a reason");
        notify(p);
        assert!(readable(fd), "a notification does not make the descriptor readable");
    }
}
