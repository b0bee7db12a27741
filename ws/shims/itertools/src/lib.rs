//! Stand-in for itertools 0.12 (only 0.13 is available offline).
#![no_std]
pub use real::*;
