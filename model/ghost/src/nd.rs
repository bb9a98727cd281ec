//! Non-deterministic choice.  Under Kani every choice is a symbolic value; natively the choices
//! are read back from the byte vectors of a counterexample, so that a counterexample is replayed
//! on the compiled real code.

#[cfg(feature = "kani")]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 { kani::any() }
    #[inline(always)]
    pub fn u16() -> u16 { kani::any() }
    #[inline(always)]
    pub fn u32() -> u32 { kani::any() }
    #[inline(always)]
    pub fn u64() -> u64 { kani::any() }
    #[inline(always)]
    pub fn assume(b: bool) { kani::assume(b) }
}

#[cfg(not(feature = "kani"))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static BUF: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::new(Default::default());
        static COVERED: std::cell::Cell<bool> = std::cell::Cell::new(false);
        static SEEDED: RefCell<Option<u64>> = RefCell::new(None);
    }
    pub fn covered() { COVERED.with(|c| c.set(true)); }
    pub fn is_covered() -> bool { COVERED.with(|c| c.get()) }
    pub fn load(v: Vec<Vec<u8>>) {
        BUF.with(|b| *b.borrow_mut() = v.into_iter().collect());
    }
    /// Random choices instead of a recorded list (used only to smoke-test the machinery).
    pub fn seed(s: u64) {
        SEEDED.with(|b| *b.borrow_mut() = Some(s | 1));
    }
    fn pop(n: usize) -> u64 {
        let r = SEEDED.with(|s| {
            let mut s = s.borrow_mut();
            match *s {
                None => None,
                Some(mut x) => {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    *s = Some(x);
                    Some(if x & 0x700 == 0 { 0 } else { x.wrapping_mul(0x2545F4914F6CDD1D) >> 8 })
                }
            }
        });
        if let Some(x) = r {
            let x = if n < 8 { x & ((1u64 << (8 * n)) - 1) } else { x };
            return x;
        }
        BUF.with(|b| match b.borrow_mut().pop_front() {
            None => 0,
            Some(v) => {
                if v.len() != n {
                    println!("REPLAY-MISALIGNED want {} got {}", n, v.len());
                    std::process::exit(4);
                }
                let mut x = 0u64;
                for (i, c) in v.iter().enumerate() {
                    x |= (*c as u64) << (8 * i);
                }
                x
            }
        })
    }
    pub fn u8() -> u8 { pop(1) as u8 }
    pub fn u16() -> u16 { pop(2) as u16 }
    pub fn u32() -> u32 { pop(4) as u32 }
    pub fn u64() -> u64 { pop(8) }
    /// In random histories: the history ends where an assumption does not hold.
    pub struct Prune;
    thread_local! {
        static HIST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    pub fn in_history(b: bool) { HIST.with(|h| h.set(b)) }
    pub fn is_history() -> bool { HIST.with(|h| h.get()) }
    pub fn assume(b: bool) {
        if !b {
            if is_history() {
                std::panic::panic_any(Prune);
            }
            println!("REPLAY-ASSUMPTION-FALSE");
            std::process::exit(3);
        }
    }
}

pub use imp::*;

#[inline(always)]
pub fn bool() -> bool {
    #[cfg(not(feature = "kani"))]
    if crate::sched::exploring() {
        return crate::sched::data(2) == 1;
    }
    u8() & 1 == 1
}
#[inline(always)]
pub fn i32() -> i32 { u32() as i32 }
#[inline(always)]
pub fn usize() -> usize { u64() as usize }
/// A value in `0..n`.
#[inline(always)]
pub fn below(n: u32) -> u32 {
    let x = u32();
    assume(x < n);
    x
}
