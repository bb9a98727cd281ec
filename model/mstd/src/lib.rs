//! The standard library as the code under verification sees it: everything is the real `std`,
//! except the items below, which are replaced by assumed contracts over the ghost state.
#![allow(clippy::all)]
pub use std::*;

pub mod collections;
pub mod io;
pub mod os;
pub mod sync;
pub mod time;
pub mod vec;

#[cfg(not(verif_replay))]
#[macro_export]
macro_rules! vec_ {
    () => { $crate::vec::Vec::new() };
    ($x:expr; $n:expr) => { $crate::vec::Vec::from_elem($x, $n) };
    ($($x:expr),+ $(,)?) => { $crate::vec::Vec::from_array([$($x),+]) };
}
#[cfg(verif_replay)]
pub use std::vec as vec_;
