//! Contracts of the index, comparison and C interface functions discharged by Kani on the real code.
#![cfg(kani)]
mod compare;
mod ffi;
mod index;
#[cfg(feature = "hooks")]
mod iter;
