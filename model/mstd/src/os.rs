//! `std::os` with an `OwnedFd` whose `drop` is the ghost `close`.
pub use std::os::*;

pub mod fd {
    pub use super::owned::OwnedFd;
    pub use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd};
}

pub mod unix {
    pub use std::os::unix::*;
    pub mod io {
        pub use crate::os::owned::OwnedFd;
        pub use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd};
    }
    pub mod prelude {
        pub use super::io::*;
    }
    pub mod net {
        pub use crate::os::owned::UnixStream;
    }
}

pub mod owned {
    use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd};

    pub struct OwnedFd(RawFd);

    impl OwnedFd {
        pub fn try_clone(&self) -> crate::io::Result<OwnedFd> {
            Err(crate::io::Error::from(crate::io::ErrorKind::Unsupported))
        }
    }
    impl Drop for OwnedFd {
        #[inline]
        fn drop(&mut self) {
            ghost::close_fd(self.0)
        }
    }
    impl AsFd for OwnedFd {
        #[inline]
        fn as_fd(&self) -> BorrowedFd<'_> {
            unsafe { BorrowedFd::borrow_raw(self.0) }
        }
    }
    impl AsRawFd for OwnedFd {
        #[inline]
        fn as_raw_fd(&self) -> RawFd {
            self.0
        }
    }
    impl FromRawFd for OwnedFd {
        #[inline]
        unsafe fn from_raw_fd(fd: RawFd) -> Self {
            OwnedFd(fd)
        }
    }
    impl IntoRawFd for OwnedFd {
        fn into_raw_fd(self) -> RawFd {
            let r = self.0;
            std::mem::forget(self);
            r
        }
    }
    impl std::fmt::Debug for OwnedFd {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("OwnedFd")
        }
    }

    /// A socket pair, as far as a wake-up pipe needs it.
    #[derive(Debug)]
    pub struct UnixStream(OwnedFd);

    impl UnixStream {
        pub fn pair() -> crate::io::Result<(UnixStream, UnixStream)> {
            if let Some(e) = ghost::fault(ghost::F_CREATE) {
                return Err(crate::io::Error::from_raw_os_error(e));
            }
            let a = ghost::open_fd(ghost::K_SOCK, true, false);
            let b = ghost::open_fd(ghost::K_SOCK, true, false);
            let k = ghost::k();
            k.fds[(a - ghost::FD0) as usize].peer = (b - ghost::FD0) as usize;
            k.fds[(b - ghost::FD0) as usize].peer = (a - ghost::FD0) as usize;
            Ok((UnixStream(OwnedFd(a)), UnixStream(OwnedFd(b))))
        }
        pub fn set_nonblocking(&self, nb: bool) -> crate::io::Result<()> {
            if let Some(e) = ghost::fault(ghost::F_FCNTL) {
                return Err(crate::io::Error::from_raw_os_error(e));
            }
            ghost::k().fds[(self.0 .0 - ghost::FD0) as usize].nonblock = nb;
            Ok(())
        }
    }
    impl AsFd for UnixStream {
        fn as_fd(&self) -> BorrowedFd<'_> {
            self.0.as_fd()
        }
    }
    impl AsRawFd for UnixStream {
        fn as_raw_fd(&self) -> RawFd {
            self.0 .0
        }
    }
    impl crate::io::Read for &UnixStream {
        fn read(&mut self, buf: &mut [u8]) -> crate::io::Result<usize> {
            ghost::sys_read(self.0 .0, buf.len()).map_err(crate::io::Error::from_raw_os_error)
        }
    }
    impl crate::io::Write for &UnixStream {
        fn write(&mut self, buf: &[u8]) -> crate::io::Result<usize> {
            ghost::sys_write(self.0 .0, buf.len(), 1).map_err(crate::io::Error::from_raw_os_error)
        }
    }
}
