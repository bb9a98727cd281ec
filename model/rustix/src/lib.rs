//! The part of `rustix` that the crate under verification uses, with every system call replaced
//! by its assumed contract over the ghost kernel (crate `ghost`).  Names, types and constant
//! values are those of rustix 0.38 on Linux (kqueue: FreeBSD; port: illumos).
#![allow(clippy::all)]

pub mod fd {
    pub use mstd::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, OwnedFd, RawFd};
}

pub mod io {
    use crate::fd::{AsFd, AsRawFd};
    use bitflags::bitflags;

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    pub struct Errno(pub i32);

    impl Errno {
        pub const PERM: Errno = Errno(1);
        pub const NOENT: Errno = Errno(2);
        pub const INTR: Errno = Errno(4);
        pub const BADF: Errno = Errno(9);
        pub const AGAIN: Errno = Errno(11);
        pub const WOULDBLOCK: Errno = Errno(11);
        pub const NOMEM: Errno = Errno(12);
        pub const ACCESS: Errno = Errno(13);
        pub const EXIST: Errno = Errno(17);
        pub const INVAL: Errno = Errno(22);
        pub const MFILE: Errno = Errno(24);
        pub const PIPE: Errno = Errno(32);
        pub const NOSYS: Errno = Errno(38);
        pub const TIME: Errno = Errno(62);
        pub const TIMEDOUT: Errno = Errno(110);
        pub const SRCH: Errno = Errno(3);
        pub const IO: Errno = Errno(5);
        pub const NXIO: Errno = Errno(6);
        pub const FAULT: Errno = Errno(14);
        pub const BUSY: Errno = Errno(16);
        pub const NODEV: Errno = Errno(19);
        pub const NFILE: Errno = Errno(23);
        pub const FBIG: Errno = Errno(27);
        pub const NOSPC: Errno = Errno(28);
        pub const SPIPE: Errno = Errno(29);
        pub const DOM: Errno = Errno(33);
        pub const RANGE: Errno = Errno(34);
        pub const DEADLK: Errno = Errno(35);
        pub const LOOP: Errno = Errno(40);
        pub const OVERFLOW: Errno = Errno(75);
        pub const NOTSUP: Errno = Errno(95);
        pub const OPNOTSUPP: Errno = Errno(95);
        pub const ADDRINUSE: Errno = Errno(98);
        pub const CONNABORTED: Errno = Errno(103);
        pub const CONNRESET: Errno = Errno(104);
        pub const NOBUFS: Errno = Errno(105);
        pub const NOTCONN: Errno = Errno(107);
        pub const CONNREFUSED: Errno = Errno(111);
        pub const ALREADY: Errno = Errno(114);
        pub const INPROGRESS: Errno = Errno(115);
        pub const CANCELED: Errno = Errno(125);
        #[inline]
        pub const fn raw_os_error(self) -> i32 {
            self.0
        }
        #[inline]
        pub const fn from_raw_os_error(e: i32) -> Errno {
            Errno(e)
        }
        #[inline]
        pub const fn kind(self) -> mstd::io::ErrorKind {
            mstd::io::kind_of(self.0)
        }
    }
    impl std::fmt::Debug for Errno {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Errno")
        }
    }
    impl std::fmt::Display for Errno {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Errno")
        }
    }
    impl std::error::Error for Errno {}
    impl From<Errno> for mstd::io::Error {
        #[inline]
        fn from(e: Errno) -> mstd::io::Error {
            mstd::io::Error::from_raw_os_error(e.0)
        }
    }

    pub type Result<T> = std::result::Result<T, Errno>;

    bitflags! {
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct FdFlags: u32 {
            const CLOEXEC = 1;
            const _ = !0;
        }
    }

    fn fault() -> Result<()> {
        match ghost::fault(ghost::F_FCNTL) {
            Some(e) => Err(Errno(e)),
            None => Ok(()),
        }
    }

    pub fn fcntl_getfd<Fd: AsFd>(fd: Fd) -> Result<FdFlags> {
        fault()?;
        match ghost::slot(fd.as_fd().as_raw_fd()) {
            Some(i) if ghost::k().fds[i].open => Ok(if ghost::k().fds[i].cloexec {
                FdFlags::CLOEXEC
            } else {
                FdFlags::empty()
            }),
            _ => Err(Errno::BADF),
        }
    }
    pub fn fcntl_setfd<Fd: AsFd>(fd: Fd, flags: FdFlags) -> Result<()> {
        fault()?;
        match ghost::slot(fd.as_fd().as_raw_fd()) {
            Some(i) if ghost::k().fds[i].open => {
                ghost::k().fds[i].cloexec = flags.contains(FdFlags::CLOEXEC);
                Ok(())
            }
            _ => Err(Errno::BADF),
        }
    }

    pub fn read<Fd: AsFd>(fd: Fd, buf: &mut [u8]) -> Result<usize> {
        // The contents of the buffer are not modelled: notification bytes carry no information.
        ghost::sys_read(fd.as_fd().as_raw_fd(), buf.len()).map_err(Errno)
    }
    pub fn write<Fd: AsFd>(fd: Fd, buf: &[u8]) -> Result<usize> {
        let val = if buf.len() == 8 {
            u64::from_ne_bytes([buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]])
        } else {
            0
        };
        ghost::sys_write(fd.as_fd().as_raw_fd(), buf.len(), val).map_err(Errno)
    }
    pub fn retry_on_intr<T, F: FnMut() -> Result<T>>(mut f: F) -> Result<T> {
        loop {
            match f() {
                Err(Errno::INTR) => (),
                r => return r,
            }
        }
    }
}

pub mod fs {
    use crate::fd::{AsFd, AsRawFd};
    use crate::io::{Errno, Result};
    use bitflags::bitflags;
    bitflags! {
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct OFlags: u32 {
            const NONBLOCK = 0o4000;
            const CLOEXEC = 0o2000000;
            const RDWR = 2;
            const WRONLY = 1;
            const RDONLY = 0;
            const _ = !0;
        }
    }
    fn fault() -> Result<()> {
        match ghost::fault(ghost::F_FCNTL) {
            Some(e) => Err(Errno(e)),
            None => Ok(()),
        }
    }
    pub fn fcntl_getfl<Fd: AsFd>(fd: Fd) -> Result<OFlags> {
        fault()?;
        match ghost::slot(fd.as_fd().as_raw_fd()) {
            Some(i) if ghost::k().fds[i].open => Ok(if ghost::k().fds[i].nonblock {
                OFlags::NONBLOCK
            } else {
                OFlags::empty()
            }),
            _ => Err(Errno::BADF),
        }
    }
    pub fn fcntl_setfl<Fd: AsFd>(fd: Fd, flags: OFlags) -> Result<()> {
        fault()?;
        match ghost::slot(fd.as_fd().as_raw_fd()) {
            Some(i) if ghost::k().fds[i].open => {
                ghost::k().fds[i].nonblock = flags.contains(OFlags::NONBLOCK);
                Ok(())
            }
            _ => Err(Errno::BADF),
        }
    }
}

pub mod pipe {
    use crate::fd::{FromRawFd, OwnedFd};
    use crate::io::{Errno, Result};
    use bitflags::bitflags;
    bitflags! {
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct PipeFlags: u32 {
            const CLOEXEC = 0o2000000;
            const DIRECT = 0o40000;
            const NONBLOCK = 0o4000;
            const _ = !0;
        }
    }
    fn make(cloexec: bool, nonblock: bool) -> (OwnedFd, OwnedFd) {
        let r = ghost::open_fd(ghost::K_PIPE_R, cloexec, nonblock);
        let w = ghost::open_fd(ghost::K_PIPE_W, cloexec, nonblock);
        let k = ghost::k();
        let (ri, wi) = ((r - ghost::FD0) as usize, (w - ghost::FD0) as usize);
        k.fds[ri].peer = wi;
        k.fds[wi].peer = ri;
        unsafe { (OwnedFd::from_raw_fd(r), OwnedFd::from_raw_fd(w)) }
    }
    pub fn pipe() -> Result<(OwnedFd, OwnedFd)> {
        if let Some(e) = ghost::fault(ghost::F_CREATE) {
            return Err(Errno(e));
        }
        Ok(make(false, false))
    }
    pub fn pipe_with(flags: PipeFlags) -> Result<(OwnedFd, OwnedFd)> {
        if ghost::k().no_pipe2 {
            return Err(Errno(ghost::ENOSYS));
        }
        if let Some(e) = ghost::fault(ghost::F_CREATE | ghost::F_OPT) {
            return Err(Errno(e));
        }
        Ok(make(flags.contains(PipeFlags::CLOEXEC), flags.contains(PipeFlags::NONBLOCK)))
    }
}

pub mod time {
    use crate::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd};
    use crate::io::{Errno, Result};
    use bitflags::bitflags;
    use ghost::T;

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub struct Timespec {
        pub tv_sec: i64,
        pub tv_nsec: i64,
    }
    pub type Secs = i64;
    pub type Nsecs = i64;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub struct Itimerspec {
        pub it_interval: Timespec,
        pub it_value: Timespec,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum TimerfdClockId {
        Realtime,
        Monotonic,
        Boottime,
        RealtimeAlarm,
        BoottimeAlarm,
    }
    bitflags! {
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct TimerfdFlags: u32 {
            const NONBLOCK = 0o4000;
            const CLOEXEC = 0o2000000;
            const _ = !0;
        }
    }
    bitflags! {
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct TimerfdTimerFlags: u32 {
            const ABSTIME = 1;
            const CANCEL_ON_SET = 2;
            const _ = !0;
        }
    }
    pub fn timerfd_create(clock: TimerfdClockId, flags: TimerfdFlags) -> Result<OwnedFd> {
        if ghost::k().no_timerfd {
            return Err(Errno(ghost::ENOSYS));
        }
        if let Some(e) = ghost::fault(ghost::F_CREATE | ghost::F_OPT) {
            return Err(Errno(e));
        }
        // Only the monotonic clock is the clock of `Instant`.
        assert!(clock == TimerfdClockId::Monotonic, "timer on a clock that can be set or stopped");
        let fd = ghost::open_fd(
            ghost::K_TIMERFD,
            flags.contains(TimerfdFlags::CLOEXEC),
            flags.contains(TimerfdFlags::NONBLOCK),
        );
        Ok(unsafe { OwnedFd::from_raw_fd(fd) })
    }
    pub fn timerfd_settime<Fd: AsFd>(
        fd: Fd,
        flags: TimerfdTimerFlags,
        new: &Itimerspec,
    ) -> Result<Itimerspec> {
        let v = new.it_value;
        // The kernel answers EINVAL; a wait must never fail that way.
        assert!(
            v.tv_sec >= 0 && v.tv_nsec >= 0 && v.tv_nsec < 1_000_000_000,
            "timerfd_settime is given an invalid time"
        );
        assert!(flags.is_empty(), "ghost: only relative timers are modelled");
        let t = T::from_subsec(v.tv_sec as u64, v.tv_nsec as u32);
        ghost::timer_set(fd.as_fd().as_raw_fd(), t).map_err(Errno)?;
        let z = Timespec { tv_sec: 0, tv_nsec: 0 };
        Ok(Itimerspec { it_interval: z, it_value: z })
    }
}

pub mod process {
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(transparent)]
    pub struct Pid(std::num::NonZeroI32);
    impl Pid {
        pub unsafe fn from_raw_unchecked(p: i32) -> Pid {
            Pid(std::num::NonZeroI32::new_unchecked(p))
        }
        pub fn from_raw(p: i32) -> Option<Pid> {
            std::num::NonZeroI32::new(p).map(Pid)
        }
        pub fn from_child(c: &std::process::Child) -> Pid {
            Pid(std::num::NonZeroI32::new(c.id() as i32).unwrap())
        }
        pub fn as_raw_nonzero(self) -> std::num::NonZeroI32 {
            self.0
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Signal(i32);
    impl Signal {
        /// FreeBSD numbering: 1..=31 are signals with a name.
        pub fn from_raw(s: i32) -> Option<Signal> {
            if s >= 1 && s <= 31 {
                Some(Signal(s))
            } else {
                None
            }
        }
        pub fn raw(self) -> i32 {
            self.0
        }
    }
}

pub mod event {
    use crate::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd};
    use crate::io::{Errno, Result};
    use bitflags::bitflags;

    bitflags! {
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct EventfdFlags: u32 {
            const CLOEXEC = 0o2000000;
            const NONBLOCK = 0o4000;
            const SEMAPHORE = 1;
            const _ = !0;
        }
    }
    pub fn eventfd(initval: u32, flags: EventfdFlags) -> Result<OwnedFd> {
        if ghost::k().no_eventfd {
            return Err(Errno(ghost::ENOSYS));
        }
        if let Some(e) = ghost::fault(ghost::F_CREATE | ghost::F_OPT) {
            return Err(Errno(e));
        }
        assert!(!flags.contains(EventfdFlags::SEMAPHORE), "ghost: semaphore eventfd not modelled");
        let fd = ghost::open_fd(
            ghost::K_EVENTFD,
            flags.contains(EventfdFlags::CLOEXEC),
            flags.contains(EventfdFlags::NONBLOCK),
        );
        ghost::k().fds[(fd - ghost::FD0) as usize].count = initval as u64;
        Ok(unsafe { OwnedFd::from_raw_fd(fd) })
    }

    bitflags! {
        #[repr(transparent)]
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
        pub struct PollFlags: u16 {
            const IN = 0x1;
            const PRI = 0x2;
            const OUT = 0x4;
            const ERR = 0x8;
            const HUP = 0x10;
            const NVAL = 0x20;
            const RDNORM = 0x40;
            const RDBAND = 0x80;
            const WRNORM = 0x100;
            const WRBAND = 0x200;
            const RDHUP = 0x2000;
            const _ = !0;
        }
    }

    #[derive(Debug, Clone)]
    pub struct PollFd<'fd> {
        pub(crate) fd: BorrowedFd<'fd>,
        pub(crate) events: u16,
        pub(crate) revents: u16,
    }
    impl<'fd> PollFd<'fd> {
        #[inline]
        pub fn new<Fd: AsFd>(fd: &'fd Fd, events: PollFlags) -> Self {
            Self::from_borrowed_fd(fd.as_fd(), events)
        }
        #[inline]
        pub fn set_fd<Fd: AsFd>(&mut self, fd: &'fd Fd) {
            self.fd = fd.as_fd();
        }
        #[inline]
        pub fn clear_revents(&mut self) {
            self.revents = 0;
        }
        #[inline]
        pub fn from_borrowed_fd(fd: BorrowedFd<'fd>, events: PollFlags) -> Self {
            Self { fd, events: events.bits(), revents: 0 }
        }
        #[inline]
        pub fn revents(&self) -> PollFlags {
            PollFlags::from_bits_retain(self.revents)
        }
    }
    impl AsFd for PollFd<'_> {
        #[inline]
        fn as_fd(&self) -> BorrowedFd<'_> {
            self.fd.as_fd()
        }
    }

    /// poll(2).
    pub fn poll(fds: &mut [PollFd<'_>], timeout: i32) -> Result<usize> {
        ghost::enter_wait();
        let k = ghost::k();
        if let Some(e) = ghost::fault(ghost::F_WAIT) {
            return Err(Errno(e));
        }
        k.npoll = fds.len();
        let mut i = 0;
        while i < ghost::NPOLL && i < fds.len() {
            k.polled[i] = (fds[i].fd.as_raw_fd(), fds[i].events);
            i += 1;
        }
        let n = scan(fds);
        if n > 0 {
            return Ok(n);
        }
        if ghost::eintr() {
            return Err(Errno::INTR);
        }
        if timeout == 0 {
            return Ok(0);
        }
        let limit = if timeout < 0 { None } else { Some(k.now.add_ms(timeout as u32)) };
        #[cfg(not(feature = "kani"))]
        if ghost::sched::active() {
            k.nblock += 1;
            let w: Vec<(i32, u16)> = fds.iter().map(|f| (f.fd.as_raw_fd(), f.events)).collect();
            loop {
                let w = w.clone();
                let c = Box::new(move || w.iter().any(|f| ghost::poll_revents(f.0, f.1) != 0));
                ghost::sched::block(c, limit, "poll");
                let n = scan(fds);
                if n > 0 || limit.map_or(false, |t| k.now >= t) {
                    return Ok(n);
                }
            }
        }
        ghost::before_sleep(limit);
        if k.on_block_on {
            let n = scan(fds);
            if n > 0 {
                return Ok(n);
            }
        }
        ghost::sleep_out(limit);
        Ok(scan(fds))
    }

    fn scan(fds: &mut [PollFd<'_>]) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < ghost::NPOLL && i < fds.len() {
            let f = &mut fds[i];
            f.revents = ghost::poll_revents(f.fd.as_raw_fd(), f.events);
            if f.revents != 0 {
                n += 1;
            }
            i += 1;
        }
        n
    }

    pub mod epoll {
        use super::*;

        bitflags! {
            #[repr(transparent)]
            #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
            pub struct CreateFlags: u32 {
                const CLOEXEC = 0o2000000;
                const _ = !0;
            }
        }
        bitflags! {
            #[repr(transparent)]
            #[derive(Default, Copy, Clone, Eq, PartialEq, Hash, Debug)]
            pub struct EventFlags: u32 {
                const IN = 0x1;
                const OUT = 0x4;
                const PRI = 0x2;
                const ERR = 0x8;
                const HUP = 0x10;
                const RDNORM = 0x40;
                const RDBAND = 0x80;
                const WRNORM = 0x100;
                const WRBAND = 0x200;
                const MSG = 0x400;
                const RDHUP = 0x2000;
                const ET = 1 << 31;
                const ONESHOT = 1 << 30;
                const WAKEUP = 1 << 29;
                const EXCLUSIVE = 1 << 28;
                const _ = !0;
            }
        }

        #[derive(Copy, Clone, PartialEq, Eq)]
        pub struct EventData(u64);
        impl EventData {
            #[inline]
            pub const fn new_u64(v: u64) -> Self {
                EventData(v)
            }
            #[inline]
            pub fn u64(self) -> u64 {
                self.0
            }
        }
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub struct Event {
            pub flags: EventFlags,
            pub data: EventData,
        }
        pub const MAXEV: usize = if cfg!(verif_replay) { ghost::NUSER + 2 } else { 4 };
        const EV0: Event = Event { flags: EventFlags::empty(), data: EventData(0) };
        pub struct EventVec {
            events: [Event; MAXEV],
            len: usize,
            cap: usize,
        }
        impl EventVec {
            #[inline]
            pub fn with_capacity(capacity: usize) -> Self {
                EventVec { events: [EV0; MAXEV], len: 0, cap: capacity }
            }
            #[inline]
            pub fn capacity(&self) -> usize {
                self.cap
            }
            pub fn reserve(&mut self, n: usize) {
                if self.len + n > self.cap {
                    self.cap = self.len + n
                }
            }
            pub fn reserve_exact(&mut self, n: usize) {
                self.reserve(n)
            }
            pub fn shrink_to_fit(&mut self) {
                self.cap = self.len
            }
            #[inline]
            pub fn clear(&mut self) {
                self.len = 0
            }
            #[inline]
            pub fn iter(&self) -> Iter<'_> {
                Iter { v: self, i: 0 }
            }
            #[inline]
            pub fn len(&mut self) -> usize {
                self.len
            }
            #[inline]
            pub fn is_empty(&mut self) -> bool {
                self.len == 0
            }
            #[inline]
            fn push(&mut self, e: Event) {
                ghost::nd::assume(self.len < MAXEV);
                if self.len == 0 {
                    self.events[0] = e
                } else if self.len == 1 {
                    self.events[1] = e
                } else if self.len == 2 {
                    self.events[2] = e
                } else {
                    self.events[self.len] = e
                }
                self.len += 1;
            }
        }
        pub struct Iter<'a> {
            v: &'a EventVec,
            i: usize,
        }
        impl Iterator for Iter<'_> {
            type Item = Event;
            #[inline]
            fn next(&mut self) -> Option<Event> {
                if self.i < MAXEV && self.i < self.v.len {
                    self.i += 1;
                    Some(self.v.events[self.i - 1])
                } else {
                    None
                }
            }
        }
        impl<'a> IntoIterator for &'a EventVec {
            type IntoIter = Iter<'a>;
            type Item = Event;
            fn into_iter(self) -> Iter<'a> {
                self.iter()
            }
        }

        pub fn create(flags: CreateFlags) -> Result<OwnedFd> {
            if let Some(e) = ghost::fault(ghost::F_CREATE) {
                return Err(Errno(e));
            }
            let fd = ghost::open_fd(ghost::K_EPOLL, flags.contains(CreateFlags::CLOEXEC), false);
            Ok(unsafe { OwnedFd::from_raw_fd(fd) })
        }
        pub fn add(
            ep: impl AsFd,
            source: impl AsFd,
            data: EventData,
            flags: EventFlags,
        ) -> Result<()> {
            let (e, s) = (ep.as_fd().as_raw_fd(), source.as_fd().as_raw_fd());
            ghost::epoll_ctl(1, e, s, data.0, flags.bits()).map_err(Errno)
        }
        pub fn modify(
            ep: impl AsFd,
            source: impl AsFd,
            data: EventData,
            flags: EventFlags,
        ) -> Result<()> {
            let (e, s) = (ep.as_fd().as_raw_fd(), source.as_fd().as_raw_fd());
            ghost::epoll_ctl(3, e, s, data.0, flags.bits()).map_err(Errno)
        }
        pub fn delete(ep: impl AsFd, source: impl AsFd) -> Result<()> {
            let (e, s) = (ep.as_fd().as_raw_fd(), source.as_fd().as_raw_fd());
            ghost::epoll_ctl(2, e, s, 0, 0).map_err(Errno)
        }
        pub fn wait(ep: impl AsFd, list: &mut EventVec, timeout: i32) -> Result<()> {
            list.clear();
            let cap = list.cap;
            ghost::epoll_wait(ep.as_fd().as_raw_fd(), cap, timeout, &mut |d, f| {
                list.push(Event { flags: EventFlags::from_bits_retain(f), data: EventData(d) })
            })
            .map_err(Errno)?;
            Ok(())
        }
    }
}
