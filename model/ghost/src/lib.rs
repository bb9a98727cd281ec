//! Ghost state of the verification: the clock, and the operating-system objects (descriptors,
//! epoll interest list, eventfd/pipe counters, timer, readiness of user sources) that the assumed
//! contracts of the system calls read and write.  Nothing in here is code of the crate under
//! verification; everything in here is part of the trusted base.
#![allow(static_mut_refs, clippy::all)]

pub mod kq;
pub mod nd;
#[cfg(not(feature = "kani"))]
pub mod sched;
pub mod time;

pub use time::T;

// ---- readiness bits (poll(2) values; the low ones are also the epoll(7) values) ----
pub const IN: u16 = 0x1;
pub const PRI: u16 = 0x2;
pub const OUT: u16 = 0x4;
pub const ERR: u16 = 0x8;
pub const HUP: u16 = 0x10;
pub const NVAL: u16 = 0x20;
pub const RDNORM: u16 = 0x40;
pub const WRNORM: u16 = 0x100;
pub const WRBAND: u16 = 0x200;
pub const RDHUP: u16 = 0x2000;
pub const EP_ONESHOT: u32 = 1 << 30;
pub const EP_ET: u32 = 1 << 31;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOSYS: i32 = 38;
pub const ENOMEM: i32 = 12;
pub const EEXIST: i32 = 17;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ETIME: i32 = 62;

pub const NFD: usize = 8;
pub const FD0: i32 = 3;
/// Sources of the user per run.  (Native runs have room for more than the verifier.)
pub const NUSER: usize = if cfg!(verif_crowd) {
    1100
} else if cfg!(verif_replay) {
    20
} else {
    3
};
pub const NENT: usize = NUSER + 2;
pub const NPOLL: usize = NUSER + 1;

/// What an internal descriptor is.
pub const K_NONE: u8 = 0;
pub const K_EPOLL: u8 = 1;
pub const K_EVENTFD: u8 = 2;
pub const K_TIMERFD: u8 = 3;
pub const K_PIPE_R: u8 = 4;
pub const K_PIPE_W: u8 = 5;
pub const K_KQUEUE: u8 = 6;
pub const K_PORT: u8 = 7;
pub const K_SOCK: u8 = 8;

#[derive(Clone, Copy)]
pub struct Fd {
    pub kind: u8,
    pub open: bool,
    pub cloexec: bool,
    pub nonblock: bool,
    /// eventfd counter, or bytes in the pipe (kept at the read end), or bytes in the socket.
    pub count: u64,
    /// the other end, as a slot
    pub peer: usize,
    /// timerfd: armed and when it expires
    pub armed: bool,
    pub expiry: T,
}

pub const NOFD: Fd = Fd {
    kind: K_NONE,
    open: false,
    cloexec: false,
    nonblock: false,
    count: 0,
    peer: 0,
    armed: false,
    expiry: T::ZERO,
};

/// A source of the user, with its current readiness.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct User {
    pub fd: i32,
    pub ready: u16,
}

/// One entry of an epoll interest list (or of a port's association list).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ent {
    pub used: bool,
    pub ep: i32,
    pub fd: i32,
    pub data: u64,
    pub flags: u32,
    /// false after a one-shot delivery
    pub armed: bool,
    /// edge-triggered: something happened since the last delivery
    pub edge: bool,
}

pub const NOENT_E: Ent = Ent {
    used: false,
    ep: -1,
    fd: -1,
    data: 0,
    flags: 0,
    armed: false,
    edge: false,
};

// fault classes
pub const F_CREATE: u8 = 1;
pub const F_CTL: u8 = 2;
pub const F_WAIT: u8 = 4;
pub const F_FCNTL: u8 = 8;
pub const F_TIMER: u8 = 16;
pub const F_RW: u8 = 32;
/// only eventfd/timerfd creation and pipe2 can fail: exercises the fallbacks
pub const F_OPT: u8 = 64;

// kinds of a scheduling point
pub const S_ATOMIC: u8 = 1;
pub const S_LOCK: u8 = 2;
pub const S_UNLOCK: u8 = 3;
pub const S_CTL: u8 = 4;
pub const S_WAIT: u8 = 5;
pub const S_READ: u8 = 6;
pub const S_WRITE: u8 = 7;
pub const S_COND: u8 = 8;
pub const S_TIMER: u8 = 9;

/// `each!(e in ent { .. })`: the loop over a ghost table, unrolled by hand so that the unwinding
/// bound of a harness only concerns loops of the code under verification.
#[macro_export]
#[cfg(not(verif_replay))]
macro_rules! each {
    ($e:ident in ent $b:block) => {{
        { let $e = 0usize; $b }
        { let $e = 1usize; $b }
        { let $e = 2usize; $b }
        { let $e = 3usize; $b }
        { let $e = 4usize; $b }
    }};
    ($e:ident in fds $b:block) => {{
        { let $e = 0usize; $b }
        { let $e = 1usize; $b }
        { let $e = 2usize; $b }
        { let $e = 3usize; $b }
        { let $e = 4usize; $b }
        { let $e = 5usize; $b }
        { let $e = 6usize; $b }
        { let $e = 7usize; $b }
    }};
}

#[macro_export]
#[cfg(verif_replay)]
macro_rules! each {
    ($e:ident in ent $b:block) => { for $e in 0..$crate::NENT $b };
    ($e:ident in fds $b:block) => { for $e in 0..$crate::NFD $b };
}

fn no_hook(_k: u8) {}

pub struct Kernel {
    pub fds: [Fd; NFD],
    pub nfd: usize,
    pub users: [User; NUSER],
    pub nuser: usize,
    pub ent: [Ent; NENT],
    // clock
    pub now: T,
    /// the clock may advance by any amount at every reading
    pub time_flows: bool,
    /// ... by less than this many seconds
    pub flow_max: u64,
    // fault injection
    /// mutexes that are locked
    pub held: u32,
    pub fault_class: u8,
    pub fault_budget: u8,
    /// they do fail, as long as the budget lasts
    pub fault_force: bool,
    pub nfaults: u8,
    /// the errno of an injected failure; 0: any
    pub fault_errno: i32,
    pub last_errno: i32,
    pub prev_errno: i32,
    /// at most 64 wake-up bytes are ever pending in a pipe
    pub few_pending: bool,
    /// optional facilities this system does not have
    pub no_eventfd: bool,
    pub no_timerfd: bool,
    pub no_pipe2: bool,
    /// reports and hash tables come in any order, not only in insertion order
    pub any_order: bool,
    /// EINTR results of a waiting call
    pub eintr_max: u32,
    pub neintr: u32,
    /// any time may pass before an interruption
    pub eintr_flows: bool,
    // observation of waiting calls
    pub nwait: u32,
    /// more waiting calls than this are not explored ...
    pub wait_max: u32,
    /// ... or are an error
    pub spin_is_error: bool,
    pub blocked: bool,
    /// a waiting call went to sleep this many times
    pub nblock: u32,
    /// a wait that can never return: false = prune the path, true = report it
    pub hang_is_error: bool,
    /// what the last wait was allowed to sleep for
    pub sleep_limit: Option<T>,
    /// true while the kernel side of a blocking call is running
    pub in_wait: bool,
    // scheduling
    pub hook: fn(u8),
    pub hook_on: bool,
    pub on_block: fn(),
    pub on_block_on: bool,
    pub on_cond: fn(),
    pub on_cond_on: bool,
    /// depth of interfering operations
    pub nested: u8,
    pub kq: kq::Kq,
    pub closes: u32,
    /// what the last poll(2) was asked to watch
    pub npoll: usize,
    pub polled: [(i32, u16); NPOLL],
}

pub static mut K: Kernel = KERNEL0;

/// The state of the machine before the poller exists.
pub const KERNEL0: Kernel = Kernel {
    fds: [NOFD; NFD],
    nfd: 0,
    users: [User { fd: -1, ready: 0 }; NUSER],
    nuser: 0,
    ent: [NOENT_E; NENT],
    now: T::ZERO,
    time_flows: false,
    flow_max: 1 << 40,
    held: 0,
    fault_class: 0,
    fault_budget: 0,
    fault_force: false,
    nfaults: 0,
    fault_errno: 0,
    last_errno: 0,
    prev_errno: 0,
    few_pending: true,
    no_eventfd: false,
    no_timerfd: false,
    no_pipe2: false,
    any_order: false,
    eintr_max: 0,
    neintr: 0,
    eintr_flows: false,
    nwait: 0,
    wait_max: 2,
    spin_is_error: true,
    blocked: false,
    nblock: 0,
    hang_is_error: false,
    sleep_limit: None,
    in_wait: false,
    hook: no_hook,
    hook_on: false,
    on_block: no_block,
    on_block_on: false,
    on_cond: no_block,
    on_cond_on: false,
    nested: 0,
    kq: kq::KQ0,
    closes: 0,
    npoll: 0,
    polled: [(-1, 0); NPOLL],
};

fn no_block() {}

/// Every harness starts here.
pub fn reset() {
    unsafe { K = KERNEL0 }
}


#[inline(always)]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut K }
}

/// A scheduling point: another thread may run here.
#[inline(always)]
pub fn step(kind: u8) {
    #[cfg(not(feature = "kani"))]
    if sched::active() {
        return sched::yield_now(kind);
    }
    let k = k();
    if k.hook_on && k.nested == 0 {
        k.nested += 1;
        (k.hook)(kind);
        k.nested -= 1;
    }
}

// ---------------------------------------------------------------------------------------------
// descriptors

pub fn slot(fd: i32) -> Option<usize> {
    let k = k();
    if fd >= FD0 && fd < FD0 + k.nfd as i32 {
        Some((fd - FD0) as usize)
    } else {
        None
    }
}

pub fn is_user(fd: i32) -> bool {
    user(fd).is_some()
}

/// Which source of the user this is (users first: their numbers may be symbolic).
#[inline]
pub fn user(fd: i32) -> Option<usize> {
    let k = k();
    if k.nuser > 0 && k.users[0].fd == fd {
        return Some(0);
    }
    if k.nuser > 1 && k.users[1].fd == fd {
        return Some(1);
    }
    if k.nuser > 2 && k.users[2].fd == fd {
        return Some(2);
    }
    #[cfg(verif_replay)]
    for i in 3..k.nuser {
        if k.users[i].fd == fd {
            return Some(i);
        }
    }
    None
}

pub fn open_fd(kind: u8, cloexec: bool, nonblock: bool) -> i32 {
    let k = k();
    let i = k.nfd;
    assert!(i < NFD, "ghost: descriptor table too small");
    k.fds[i] = Fd { kind, open: true, cloexec, nonblock, ..NOFD };
    k.nfd = i + 1;
    FD0 + i as i32
}

/// close(2).  Also drops the descriptor from every interest list, as the kernel does.
pub fn close_fd(fd: i32) {
    let k = k();
    match slot(fd) {
        Some(i) => {
            assert!(k.fds[i].open, "descriptor closed twice");
            k.fds[i].open = false;
            k.closes += 1;
            each!(e in ent {
                if k.ent[e].used && (k.ent[e].fd == fd || k.ent[e].ep == fd) {
                    k.ent[e].used = false;
                }
            });
        }
        None => panic!("the poller closed a descriptor it does not own"),
    }
}

/// Number of internal descriptors still open.
pub fn open_count() -> usize {
    let k = k();
    let mut n = 0;
    each!(i in fds {
        if i < k.nfd && k.fds[i].open {
            n += 1;
        }
    });
    n
}

/// Registers a descriptor that belongs to the user.
pub fn add_user(fd: i32, ready: u16) -> usize {
    let k = k();
    let i = k.nuser;
    assert!(i < NUSER);
    k.users[i] = User { fd, ready };
    k.nuser = i + 1;
    i
}

// ---------------------------------------------------------------------------------------------
// faults

/// May this system call fail?  The contract of a failing call: no effect, any errno.
#[inline]
pub fn fault(class: u8) -> Option<i32> {
    let k = k();
    if k.fault_class & class != 0 {
        if k.nfaults < k.fault_budget && (k.fault_force || nd::bool()) {
            k.nfaults += 1;
            let mut e = k.fault_errno;
            if e == 0 {
                e = nd::u8() as i32;
                nd::assume(e > 0 && e < 134 && e != EINTR);
            }
            k.prev_errno = k.last_errno;
            k.last_errno = e;
            return Some(e);
        }
    }
    None
}

/// Only the first `eintr_max` waiting calls can be interrupted.
#[inline]
pub fn eintr() -> bool {
    let k = k();
    if k.nwait <= k.eintr_max {
        if nd::bool() {
            k.neintr += 1;
            if k.eintr_flows {
                time::flow();
            }
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------------------------------------
// readiness

pub fn readiness(fd: i32) -> u16 {
    let k = k();
    if let Some(u) = user(fd) {
        return k.users[u].ready;
    }
    let i = match slot(fd) {
        Some(i) => i,
        None => return NVAL,
    };
    let f = &k.fds[i];
    if !f.open {
        return NVAL;
    }
    match f.kind {
        K_EVENTFD | K_PIPE_R | K_SOCK => {
            if f.count > 0 {
                IN | RDNORM
            } else {
                0
            }
        }
        K_TIMERFD => {
            if f.armed && k.now >= f.expiry {
                IN | RDNORM
            } else {
                0
            }
        }
        K_PIPE_W => OUT | WRNORM,
        _ => 0,
    }
}

/// The environment changes the readiness of a user source: every edge-triggered registration of
/// it sees an edge.
pub fn set_ready(u: usize, ready: u16) {
    let k = k();
    k.users[u].ready = ready;
    let fd = k.users[u].fd;
    each!(e in ent {
        if k.ent[e].used && k.ent[e].fd == fd {
            k.ent[e].edge = true;
        }
    });
}

pub fn find_ent(ep: i32, fd: i32) -> Option<usize> {
    let k = k();
    each!(e in ent {
        if k.ent[e].used && k.ent[e].ep == ep && k.ent[e].fd == fd {
            return Some(e);
        }
    });
    None
}

pub fn deliverable(e: usize) -> u32 {
    let k = k();
    let ent = &k.ent[e];
    if !ent.used || !ent.armed {
        return 0;
    }
    if ent.flags & EP_ET != 0 && !ent.edge {
        return 0;
    }
    (readiness(ent.fd) as u32) & (ent.flags | ERR as u32 | HUP as u32) & 0xffff
}

// ---------------------------------------------------------------------------------------------
// blocking

/// The calling thread is about to sleep until `limit`: other threads, and the environment, may run.
#[inline]
pub fn before_sleep(limit: Option<T>) {
    let k = k();
    k.nblock += 1;
    k.sleep_limit = limit;
    if k.on_block_on {
        k.blocked = true;
        k.nested += 1;
        (k.on_block)();
        k.nested -= 1;
        k.blocked = false;
    }
}

/// Nothing happened while it slept: time passes until `limit`.
#[inline]
pub fn sleep_out(limit: Option<T>) {
    let k = k();
    match limit {
        Some(t) => {
            if t > k.now {
                k.now = t;
            }
            if k.time_flows {
                time::flow();
            }
        }
        None => {
            if k.hang_is_error && k.nested == 0 {
                panic!("a wait that must return blocks for ever");
            }
            nd::assume(false);
        }
    }
}

pub fn min_t(a: Option<T>, b: Option<T>) -> Option<T> {
    match (a, b) {
        (Some(x), Some(y)) => Some(if x < y { x } else { y }),
        (Some(x), None) => Some(x),
        (None, y) => y,
    }
}

// ---------------------------------------------------------------------------------------------
// epoll

pub fn epoll_ctl(op: u8, ep: i32, fd: i32, data: u64, flags: u32) -> Result<(), i32> {
    step(S_CTL);
    let k = k();
    match slot(ep) {
        Some(i) => assert!(k.fds[i].open && k.fds[i].kind == K_EPOLL, "epoll_ctl on a dead poller"),
        None => panic!("epoll_ctl on a descriptor that is not the poller's"),
    }
    // Operations on user sources can fail for any reason, those on the poller's own descriptors
    // only during construction.
    if is_user(fd) {
        if let Some(e) = fault(F_CTL) {
            return Err(e);
        }
    } else {
        if let Some(e) = fault(F_CREATE) {
            return Err(e);
        }
        match slot(fd) {
            Some(i) if k.fds[i].open => {}
            _ => return Err(EBADF),
        }
    }
    match (op, find_ent(ep, fd)) {
        (1, Some(_)) => Err(EEXIST),
        (1, None) => {
            each!(e in ent {
                if !k.ent[e].used {
                    k.ent[e] = Ent { used: true, ep, fd, data, flags, armed: true, edge: true };
                    return Ok(());
                }
            });
            panic!("ghost: interest list too small")
        }
        (2, Some(e)) => {
            k.ent[e].used = false;
            Ok(())
        }
        (3, Some(e)) => {
            k.ent[e].data = data;
            k.ent[e].flags = flags;
            k.ent[e].armed = true;
            k.ent[e].edge = true;
            Ok(())
        }
        _ => Err(ENOENT),
    }
}

/// A waiting system call is entered.
#[inline]
pub fn enter_wait() {
    step(S_WAIT);
    let k = k();
    k.nwait += 1;
    if k.nwait > k.wait_max {
        if k.spin_is_error {
            panic!("wait keeps waiting although it has something to return");
        }
        nd::assume(false);
    }
}

/// epoll_wait: delivers up to `cap` reports into `out`, in the order of the interest list
/// starting anywhere.
pub fn epoll_wait(ep: i32, cap: usize, timeout_ms: i32, out: &mut impl FnMut(u64, u32)) -> Result<usize, i32> {
    enter_wait();
    let k = k();
    match slot(ep) {
        Some(i) => assert!(k.fds[i].open && k.fds[i].kind == K_EPOLL, "epoll_wait on a dead poller"),
        None => panic!("epoll_wait on a descriptor that is not the poller's"),
    }
    if let Some(e) = fault(F_WAIT) {
        return Err(e);
    }
    if cap == 0 {
        return Err(EINVAL);
    }
    let n = epoll_collect(ep, cap, out);
    if n > 0 {
        return Ok(n);
    }
    if eintr() {
        return Err(EINTR);
    }
    if timeout_ms == 0 {
        return Ok(0);
    }
    let limit = if timeout_ms < 0 { None } else { Some(k.now.add_ms(timeout_ms as u32)) };
    #[cfg(not(feature = "kani"))]
    if sched::active() {
        k.nblock += 1;
        loop {
            let timer = min_t(limit, timer_limit(ep));
            let c = Box::new(move || epoll_ready(ep) || (timer != limit && timer_limit(ep) != timer));
            sched::block(c, timer, "epoll_wait");
            let n = epoll_collect(ep, cap, out);
            if n > 0 || limit.map_or(false, |t| k.now >= t) {
                return Ok(n);
            }
        }
    }
    let limit = min_t(limit, timer_limit(ep));
    before_sleep(limit);
    if k.on_block_on {
        let n = epoll_collect(ep, cap, out);
        if n > 0 {
            return Ok(n);
        }
    }
    sleep_out(limit);
    Ok(epoll_collect(ep, cap, out))
}

/// When the earliest armed timer that this epoll instance would report expires.
pub fn timer_limit(ep: i32) -> Option<T> {
    let k = k();
    let mut r = None;
    each!(e in ent {
        let ent = &k.ent[e];
        if ent.used && ent.ep == ep && ent.armed && ent.flags & IN as u32 != 0 {
            if let Some(i) = slot(ent.fd) {
                if k.fds[i].kind == K_TIMERFD && k.fds[i].armed {
                    r = min_t(r, Some(k.fds[i].expiry));
                }
            }
        }
    });
    r
}

/// Would epoll_wait report something?
pub fn epoll_ready(ep: i32) -> bool {
    each!(e in ent {
        if k().ent[e].used && k().ent[e].ep == ep && deliverable(e) != 0 {
            return true;
        }
    });
    false
}

fn epoll_collect(ep: i32, cap: usize, out: &mut impl FnMut(u64, u32)) -> usize {
    let k = k();
    let mut n = 0;
    let mut left = false;
    each!(e in ent {
        if n < cap && k.ent[e].used && k.ent[e].ep == ep {
            let d = deliverable(e);
            if d != 0 && k.any_order && nd::bool() {
                left = true;
            } else if d != 0 {
                out(k.ent[e].data, d);
                n += 1;
                if k.ent[e].flags & EP_ONESHOT != 0 {
                    k.ent[e].armed = false;
                }
                k.ent[e].edge = false;
            }
        }
    });
    // something ready is left out only when the buffer is full
    if left {
        nd::assume(n == cap);
    }
    n
}

// ---------------------------------------------------------------------------------------------
// timerfd

pub fn timer_set(fd: i32, v: T) -> Result<(), i32> {
    step(S_TIMER);
    let k = k();
    if let Some(e) = fault(F_TIMER) {
        return Err(e);
    }
    match slot(fd) {
        Some(i) => {
            assert!(k.fds[i].open && k.fds[i].kind == K_TIMERFD);
            if k.time_flows {
                time::flow();
            }
            k.fds[i].armed = v != T::ZERO;
            k.fds[i].expiry = match k.now.checked_add(v) {
                Some(t) => t,
                None => T::MAX,
            };
            // an expiry not yet reported is discarded by settime; an edge is not needed
            Ok(())
        }
        None => Err(EBADF),
    }
}

// ---------------------------------------------------------------------------------------------
// read / write on the poller's own descriptors

/// Any number of undelivered wake-ups (at least one, if `some`), any state of the timer: what
/// histories of any length leave behind in the kernel.
pub fn any_past(some: bool) {
    let k = k();
    each!(i in fds {
        if k.fds[i].kind == K_EVENTFD && k.fds[i].open {
            let c = nd::u64();
            nd::assume(c <= u64::MAX - 1 && (!some || c > 0));
            k.fds[i].count = c;
        }
        if k.fds[i].kind == K_PIPE_R && k.fds[i].open {
            let c = nd::u8() as u64;
            nd::assume(c < 60 && (!some || c > 0));
            k.fds[i].count = c;
        }
        if k.fds[i].kind == K_TIMERFD && k.fds[i].open {
            k.fds[i].armed = nd::bool();
            let fd = FD0 + i as i32;
            each!(e in ent {
                if k.ent[e].used && k.ent[e].fd == fd {
                    k.ent[e].armed = nd::bool();
                }
            });
        }
    });
}

pub fn sys_read(fd: i32, len: usize) -> Result<usize, i32> {
    step(S_READ);
    let k = k();
    let i = match slot(fd) {
        Some(i) => i,
        None => panic!("the poller read from a descriptor it does not own"),
    };
    assert!(k.fds[i].open, "read from a closed descriptor");
    if let Some(e) = fault(F_RW) {
        return Err(e);
    }
    if k.fds[i].count == 0 {
        if k.fds[i].nonblock {
            return Err(EAGAIN);
        }
        panic!("the poller blocks for ever in read");
    }
    match k.fds[i].kind {
        K_EVENTFD => {
            if len < 8 {
                return Err(EINVAL);
            }
            k.fds[i].count = 0;
            Ok(8)
        }
        K_PIPE_R | K_SOCK => {
            if k.fds[i].count as usize <= len {
                let n = k.fds[i].count as usize;
                k.fds[i].count = 0;
                Ok(n)
            } else {
                if len >= 64 && k.few_pending {
                    // fewer than 64 wake-up bytes are pending at any time
                    nd::assume(false);
                }
                k.fds[i].count -= len as u64;
                Ok(len)
            }
        }
        K_TIMERFD => Ok(8),
        _ => Err(EINVAL),
    }
}

pub fn sys_write(fd: i32, len: usize, val: u64) -> Result<usize, i32> {
    step(S_WRITE);
    let k = k();
    let i = match slot(fd) {
        Some(i) => i,
        None => panic!("the poller wrote to a descriptor it does not own"),
    };
    assert!(k.fds[i].open, "write to a closed descriptor");
    if let Some(e) = fault(F_RW) {
        return Err(e);
    }
    match k.fds[i].kind {
        K_EVENTFD => {
            if len != 8 {
                return Err(EINVAL);
            }
            if k.fds[i].count > u64::MAX - 1 - val {
                if k.fds[i].nonblock {
                    return Err(EAGAIN);
                }
                panic!("the poller blocks for ever in write");
            }
            k.fds[i].count += val;
            edge_of(fd);
            Ok(8)
        }
        K_PIPE_W | K_SOCK => {
            let p = k.fds[i].peer;
            assert!(k.fds[p].open, "write to a pipe without reader");
            if k.fds[p].count + len as u64 > 65536 {
                if k.fds[i].nonblock {
                    return Err(EAGAIN);
                }
                panic!("the poller blocks for ever in write");
            }
            k.fds[p].count += len as u64;
            edge_of(FD0 + p as i32);
            Ok(len)
        }
        _ => Err(EINVAL),
    }
}

fn edge_of(fd: i32) {
    let k = k();
    each!(e in ent {
        if k.ent[e].used && k.ent[e].fd == fd {
            k.ent[e].edge = true;
        }
    });
}

// ---------------------------------------------------------------------------------------------
// poll(2): the caller iterates over its own array

pub fn poll_revents(fd: i32, events: u16) -> u16 {
    if fd < 0 {
        return 0;
    }
    readiness(fd) & (events | ERR | HUP | NVAL)
}

// ---------------------------------------------------------------------------------------------
// locks and condition variables

/// A thread needs a lock that is held.  In a nested (interfering) operation the holder cannot run
/// on, so this schedule is continued elsewhere: the path is cut.  In the main operation nobody
/// else holds locks, so it is a self-deadlock.
pub fn lock_blocked() {
    if k().nested > 0 {
        nd::assume(false);
    }
    panic!("deadlock: a lock is taken twice");
}

/// The thread sleeps on a condition variable: another thread may run.
pub fn cond_sleep() {
    let k = k();
    if k.on_cond_on {
        k.nested += 1;
        (k.on_cond)();
        k.nested -= 1;
    }
}

/// Nobody signalled the condition variable.
pub fn cond_hang() {
    let k = k();
    if k.nested > 0 || !k.hang_is_error {
        nd::assume(false);
    }
    panic!("a thread sleeps for ever on a condition variable");
}
