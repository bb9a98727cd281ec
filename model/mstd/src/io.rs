//! `std::io` with an `Error` that carries only its kind and its OS error number (messages and
//! custom payloads are dropped).
pub use std::io::*;

pub type Result<T> = std::result::Result<T, Error>;

/// The alignment makes `Err` the largest variant of every `Result`, and the fields have no niche:
/// CBMC then keeps constants through nested unions (see DESIGN.md, "engine notes").  Neither has
/// any other meaning.
#[derive(Clone, Copy)]
#[repr(align(1024))]
pub struct Error {
    /// the OS error number, or -1
    code: i32,
    /// without an OS error number: the `ErrorKind`
    kind: u8,
}

/// A struct with constants instead of an enum, aligned and without a niche, for the same reason.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(1024))]
pub struct ErrorKind(u8, u64);
#[allow(non_upper_case_globals)]
impl ErrorKind {
    pub const NotFound: ErrorKind = ErrorKind(0, 0);
    pub const PermissionDenied: ErrorKind = ErrorKind(1, 0);
    pub const ConnectionRefused: ErrorKind = ErrorKind(2, 0);
    pub const ConnectionReset: ErrorKind = ErrorKind(3, 0);
    pub const HostUnreachable: ErrorKind = ErrorKind(4, 0);
    pub const NetworkUnreachable: ErrorKind = ErrorKind(5, 0);
    pub const ConnectionAborted: ErrorKind = ErrorKind(6, 0);
    pub const NotConnected: ErrorKind = ErrorKind(7, 0);
    pub const AddrInUse: ErrorKind = ErrorKind(8, 0);
    pub const AddrNotAvailable: ErrorKind = ErrorKind(9, 0);
    pub const NetworkDown: ErrorKind = ErrorKind(10, 0);
    pub const BrokenPipe: ErrorKind = ErrorKind(11, 0);
    pub const AlreadyExists: ErrorKind = ErrorKind(12, 0);
    pub const WouldBlock: ErrorKind = ErrorKind(13, 0);
    pub const NotADirectory: ErrorKind = ErrorKind(14, 0);
    pub const IsADirectory: ErrorKind = ErrorKind(15, 0);
    pub const DirectoryNotEmpty: ErrorKind = ErrorKind(16, 0);
    pub const ReadOnlyFilesystem: ErrorKind = ErrorKind(17, 0);
    pub const StaleNetworkFileHandle: ErrorKind = ErrorKind(18, 0);
    pub const InvalidInput: ErrorKind = ErrorKind(19, 0);
    pub const InvalidData: ErrorKind = ErrorKind(20, 0);
    pub const TimedOut: ErrorKind = ErrorKind(21, 0);
    pub const WriteZero: ErrorKind = ErrorKind(22, 0);
    pub const StorageFull: ErrorKind = ErrorKind(23, 0);
    pub const NotSeekable: ErrorKind = ErrorKind(24, 0);
    pub const QuotaExceeded: ErrorKind = ErrorKind(25, 0);
    pub const FileTooLarge: ErrorKind = ErrorKind(26, 0);
    pub const ResourceBusy: ErrorKind = ErrorKind(27, 0);
    pub const ExecutableFileBusy: ErrorKind = ErrorKind(28, 0);
    pub const Deadlock: ErrorKind = ErrorKind(29, 0);
    pub const CrossesDevices: ErrorKind = ErrorKind(30, 0);
    pub const TooManyLinks: ErrorKind = ErrorKind(31, 0);
    pub const InvalidFilename: ErrorKind = ErrorKind(32, 0);
    pub const ArgumentListTooLong: ErrorKind = ErrorKind(33, 0);
    pub const Interrupted: ErrorKind = ErrorKind(34, 0);
    pub const Unsupported: ErrorKind = ErrorKind(35, 0);
    pub const UnexpectedEof: ErrorKind = ErrorKind(36, 0);
    pub const OutOfMemory: ErrorKind = ErrorKind(37, 0);
    pub const Other: ErrorKind = ErrorKind(38, 0);
}
impl std::fmt::Display for ErrorKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error kind")
    }
}

impl Error {
    pub fn new<E>(kind: ErrorKind, _payload: E) -> Error
    where
        E: Into<Box<dyn std::error::Error + Send + Sync>>,
    {
        std::mem::forget(_payload);
        Error::from(kind)
    }
    pub fn other<E>(_payload: E) -> Error
    where
        E: Into<Box<dyn std::error::Error + Send + Sync>>,
    {
        std::mem::forget(_payload);
        Error::from(ErrorKind::Other)
    }
    #[inline]
    pub const fn from_raw_os_error(code: i32) -> Error {
        Error { code, kind: 0 }
    }
    pub fn last_os_error() -> Error {
        Error::from_raw_os_error(ghost::k().last_errno)
    }
    #[inline]
    pub const fn kind(&self) -> ErrorKind {
        if self.code >= 0 {
            kind_of(self.code)
        } else {
            ErrorKind(self.kind, 0)
        }
    }
    #[inline]
    pub const fn raw_os_error(&self) -> Option<i32> {
        if self.code >= 0 {
            Some(self.code)
        } else {
            None
        }
    }
    pub fn get_ref(&self) -> Option<&(dyn std::error::Error + Send + Sync + 'static)> {
        None
    }
}

impl From<ErrorKind> for Error {
    #[inline]
    fn from(kind: ErrorKind) -> Error {
        Error { code: -1, kind: kind.0 }
    }
}

impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Error")
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}

/// errno to kind, as on Linux.
pub const fn kind_of(code: i32) -> ErrorKind {
    match code {
        7 => ErrorKind::ArgumentListTooLong,
        98 => ErrorKind::AddrInUse,
        99 => ErrorKind::AddrNotAvailable,
        16 => ErrorKind::ResourceBusy,
        103 => ErrorKind::ConnectionAborted,
        111 => ErrorKind::ConnectionRefused,
        104 => ErrorKind::ConnectionReset,
        35 => ErrorKind::Deadlock,
        122 => ErrorKind::QuotaExceeded,
        17 => ErrorKind::AlreadyExists,
        27 => ErrorKind::FileTooLarge,
        113 => ErrorKind::HostUnreachable,
        4 => ErrorKind::Interrupted,
        22 => ErrorKind::InvalidInput,
        21 => ErrorKind::IsADirectory,
        2 => ErrorKind::NotFound,
        12 => ErrorKind::OutOfMemory,
        28 => ErrorKind::StorageFull,
        38 => ErrorKind::Unsupported,
        31 => ErrorKind::TooManyLinks,
        100 => ErrorKind::NetworkDown,
        101 => ErrorKind::NetworkUnreachable,
        107 => ErrorKind::NotConnected,
        20 => ErrorKind::NotADirectory,
        39 => ErrorKind::DirectoryNotEmpty,
        32 => ErrorKind::BrokenPipe,
        30 => ErrorKind::ReadOnlyFilesystem,
        29 => ErrorKind::NotSeekable,
        116 => ErrorKind::StaleNetworkFileHandle,
        110 => ErrorKind::TimedOut,
        26 => ErrorKind::ExecutableFileBusy,
        18 => ErrorKind::CrossesDevices,
        95 => ErrorKind::Unsupported,
        13 | 1 => ErrorKind::PermissionDenied,
        11 => ErrorKind::WouldBlock,
        _ => ErrorKind::Other,
    }
}

/// `std::io::Read`/`Write` over the modelled `Error` (used by the socket-pair notifier).
pub trait Read {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
}
pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let n = self.write(buf)?;
        if n == buf.len() {
            Ok(())
        } else {
            Err(Error::from(ErrorKind::WriteZero))
        }
    }
}
pub mod prelude {
    pub use super::{Read, Write};
}
