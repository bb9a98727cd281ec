//! Proof harnesses: each states a contract of the public API of the crate (its real code, compiled
//! against the assumed contracts of the operating system) and is discharged by Kani/CBMC.
//!
//! Naming: `cNN_what__x_y` is an obligation of property CNN; the letters after the double
//! underscore restrict it: e = epoll only, p = poll only, n = also with the pipe notifier,
//! t = thorough tier only, k = known finding (expected to fail), u = the whole (unbounded) domain.
#![allow(dead_code, unused_imports, static_mut_refs, clippy::all)]

#[macro_use]
pub mod pre;

/// Every harness by name, for native replay of counterexamples.
pub fn run(name: &str) -> bool {
    for l in LISTS {
        for (n, f) in *l {
            if *n == name {
                f();
                return true;
            }
        }
    }
    false
}
