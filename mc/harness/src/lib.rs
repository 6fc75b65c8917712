//! Scenarios for the bounded model checker (see ../../DESIGN.md).
#![no_std]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;

#[macro_use]
pub mod rt;
#[macro_use]
mod s_queue;
#[cfg(not(feature = "unwind"))]
mod s_chan;
#[cfg(not(feature = "unwind"))]
mod s_async;
#[cfg(not(feature = "unwind"))]
mod s_reent;
#[cfg(not(feature = "unwind"))]
mod s_seq;
#[cfg(not(feature = "unwind"))]
mod s_unw;
#[cfg(not(feature = "unwind"))]
mod s_prog;
#[cfg(not(feature = "unwind"))]
mod s_cap;
#[cfg(not(feature = "unwind"))]
mod s_own;
#[cfg(all(feature = "std", not(feature = "unwind")))]
mod s_time;
#[cfg(feature = "unwind")]
mod s_panic;
