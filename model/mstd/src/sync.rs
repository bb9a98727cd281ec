//! Locks, condition variables and atomics over the ghost scheduler: every operation is a
//! scheduling point, memory is sequentially consistent, locks are never poisoned.
pub use std::sync::*;

use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}

impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Mutex<T> {
        Mutex { locked: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        ghost::step(ghost::S_LOCK);
        #[cfg(not(feature = "kani"))]
        self.sched_block();
        if self.locked.get() {
            ghost::lock_blocked();
        }
        self.locked.set(true);
        ghost::k().held += 1;
        Ok(MutexGuard { m: self })
    }
    #[cfg(not(feature = "kani"))]
    fn sched_block(&self) {
        if ghost::sched::active() {
            while self.locked.get() {
                let a = &self.locked as *const Cell<bool> as usize;
                let c = Box::new(move || !unsafe { (*(a as *const Cell<bool>)).get() });
                ghost::sched::block(c, None, "lock");
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        ghost::step(ghost::S_LOCK);
        if self.locked.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.locked.set(true);
        ghost::k().held += 1;
        Ok(MutexGuard { m: self })
    }
    pub fn is_poisoned(&self) -> bool {
        false
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.locked.set(false);
        ghost::k().held -= 1;
        ghost::step(ghost::S_UNLOCK);
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}

pub struct RwLock<T: ?Sized> {
    readers: Cell<u8>,
    writer: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    m: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    m: &'a RwLock<T>,
}
impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { readers: Cell::new(0), writer: Cell::new(false), v: UnsafeCell::new(v) }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        ghost::step(ghost::S_LOCK);
        if self.writer.get() {
            ghost::lock_blocked();
        }
        self.readers.set(self.readers.get() + 1);
        Ok(RwLockReadGuard { m: self })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        ghost::step(ghost::S_LOCK);
        if self.writer.get() || self.readers.get() > 0 {
            ghost::lock_blocked();
        }
        self.writer.set(true);
        Ok(RwLockWriteGuard { m: self })
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.m.readers.set(self.m.readers.get() - 1);
        ghost::step(ghost::S_UNLOCK);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.m.writer.set(false);
        ghost::step(ghost::S_UNLOCK);
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}

#[derive(Debug, Default)]
pub struct Condvar {
    seq: Cell<u32>,
    /// explored schedules: the sleeping threads, each with its wake-up flag
    #[cfg(not(feature = "kani"))]
    sleepers: std::sync::Mutex<Vec<Arc<std::sync::atomic::AtomicBool>>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar {
            seq: Cell::new(0),
            #[cfg(not(feature = "kani"))]
            sleepers: std::sync::Mutex::new(Vec::new()),
        }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        #[cfg(not(feature = "kani"))]
        if ghost::sched::active() {
            ghost::step(ghost::S_COND);
        }
        // release the lock and go to sleep, atomically
        let m = g.m;
        let before = self.seq.get();
        m.locked.set(false);
        ghost::k().held -= 1;
        std::mem::forget(g);
        #[cfg(not(feature = "kani"))]
        if ghost::sched::active() {
            let f = Arc::new(std::sync::atomic::AtomicBool::new(false));
            self.sleepers.lock().unwrap().push(f.clone());
            ghost::sched::block(Box::new(move || f.load(atomic::Ordering::SeqCst)), None, "condvar wait");
            m.sched_block();
            m.locked.set(true);
            ghost::k().held += 1;
            return Ok(MutexGuard { m });
        }
        ghost::cond_sleep();
        if self.seq.get() == before {
            // nobody has woken this thread up, and nobody is left to do it
            ghost::cond_hang();
        }
        if m.locked.get() {
            ghost::lock_blocked();
        }
        m.locked.set(true);
        ghost::k().held += 1;
        Ok(MutexGuard { m })
    }
    /// As `wait`, but without anybody to wake it up the time passes.
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: crate::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = ghost::k().now.checked_add(d.0);
        let m = g.m;
        let before = self.seq.get();
        m.locked.set(false);
        ghost::k().held -= 1;
        std::mem::forget(g);
        #[cfg(not(feature = "kani"))]
        if ghost::sched::active() {
            let f = Arc::new(std::sync::atomic::AtomicBool::new(false));
            self.sleepers.lock().unwrap().push(f.clone());
            let f2 = f.clone();
            ghost::sched::block(Box::new(move || f.load(atomic::Ordering::SeqCst)), end, "condvar wait");
            let t = !f2.load(atomic::Ordering::SeqCst);
            m.sched_block();
            m.locked.set(true);
            ghost::k().held += 1;
            return Ok((MutexGuard { m }, WaitTimeoutResult(t)));
        }
        ghost::cond_sleep();
        let t = self.seq.get() == before;
        if t {
            ghost::sleep_out(end);
        }
        if m.locked.get() {
            ghost::lock_blocked();
        }
        m.locked.set(true);
        ghost::k().held += 1;
        Ok((MutexGuard { m }, WaitTimeoutResult(t)))
    }
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: crate::time::Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        let start = crate::time::Instant::now();
        while f(&mut *g) {
            let left = match d.checked_sub(start.elapsed()) {
                Some(l) if !l.is_zero() => l,
                _ => return Ok((g, WaitTimeoutResult(true))),
            };
            let (h, _) = match self.wait_timeout(g, left) {
                Ok(x) => x,
                Err(_) => unreachable!(),
            };
            g = h;
        }
        Ok((g, WaitTimeoutResult(false)))
    }
    pub fn wait_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        ghost::step(ghost::S_COND);
        self.seq.set(self.seq.get().wrapping_add(1));
        #[cfg(not(feature = "kani"))]
        if ghost::sched::active() {
            let mut s = self.sleepers.lock().unwrap();
            if !s.is_empty() {
                let i = ghost::sched::data(s.len() as u32) as usize;
                s.remove(i).store(true, atomic::Ordering::SeqCst);
            }
        }
    }
    pub fn notify_all(&self) {
        ghost::step(ghost::S_COND);
        self.seq.set(self.seq.get().wrapping_add(1));
        #[cfg(not(feature = "kani"))]
        for f in self.sleepers.lock().unwrap().drain(..) {
            f.store(true, atomic::Ordering::SeqCst);
        }
    }
}

pub mod atomic {
    pub use std::sync::atomic::*;
    use std::cell::Cell;

    #[inline(always)]
    pub fn fence(_o: Ordering) {
        ghost::step(ghost::S_ATOMIC);
    }

    macro_rules! atomic {
        ($name:ident, $t:ty) => {
            pub struct $name(Cell<$t>);
            unsafe impl Sync for $name {}
            unsafe impl Send for $name {}
            impl Default for $name {
                fn default() -> Self {
                    $name::new(<$t>::default())
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(stringify!($name))
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    $name::new(v)
                }
            }
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name(Cell::new(v))
                }
                #[inline(always)]
                pub fn load(&self, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.get()
                }
                #[inline(always)]
                pub fn store(&self, v: $t, _o: Ordering) {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.set(v)
                }
                #[inline(always)]
                pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.replace(v)
                }
                #[inline(always)]
                pub fn compare_exchange(
                    &self,
                    c: $t,
                    n: $t,
                    _s: Ordering,
                    _f: Ordering,
                ) -> Result<$t, $t> {
                    ghost::step(ghost::S_ATOMIC);
                    let v = self.0.get();
                    if v == c {
                        self.0.set(n);
                        Ok(v)
                    } else {
                        Err(v)
                    }
                }
                pub fn compare_exchange_weak(
                    &self,
                    c: $t,
                    n: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.compare_exchange(c, n, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    _s: Ordering,
                    _f: Ordering,
                    mut g: F,
                ) -> Result<$t, $t> {
                    ghost::step(ghost::S_ATOMIC);
                    let v = self.0.get();
                    match g(v) {
                        Some(n) => {
                            self.0.set(n);
                            Ok(v)
                        }
                        None => Err(v),
                    }
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    macro_rules! arith {
        ($name:ident, $t:ty) => {
            impl $name {
                #[inline(always)]
                pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.replace(self.0.get().wrapping_add(v))
                }
                #[inline(always)]
                pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.replace(self.0.get().wrapping_sub(v))
                }
                pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    let x = self.0.get();
                    self.0.replace(if v > x { v } else { x })
                }
            }
        };
    }
    macro_rules! bits {
        ($name:ident, $t:ty) => {
            impl $name {
                pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.replace(self.0.get() | v)
                }
                pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.replace(self.0.get() & v)
                }
                pub fn fetch_xor(&self, v: $t, _o: Ordering) -> $t {
                    ghost::step(ghost::S_ATOMIC);
                    self.0.replace(self.0.get() ^ v)
                }
            }
        };
    }
    atomic!(AtomicBool, bool);
    atomic!(AtomicUsize, usize);
    atomic!(AtomicIsize, isize);
    atomic!(AtomicU8, u8);
    atomic!(AtomicU16, u16);
    atomic!(AtomicU32, u32);
    atomic!(AtomicU64, u64);
    atomic!(AtomicI32, i32);
    atomic!(AtomicI64, i64);
    arith!(AtomicUsize, usize);
    arith!(AtomicIsize, isize);
    arith!(AtomicU8, u8);
    arith!(AtomicU16, u16);
    arith!(AtomicU32, u32);
    arith!(AtomicU64, u64);
    arith!(AtomicI32, i32);
    arith!(AtomicI64, i64);
    bits!(AtomicBool, bool);
    bits!(AtomicUsize, usize);
    bits!(AtomicU8, u8);
    bits!(AtomicU32, u32);
    bits!(AtomicU64, u64);
}
