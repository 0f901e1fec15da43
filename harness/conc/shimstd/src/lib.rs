//! Stands in for `std`: everything is std's, except that locks and atomics are scheduling points of `sched`.
#![allow(internal_features)]
pub use ::std::*;
pub mod sched;
pub mod sync;
