#![no_std]
#![allow(improper_ctypes)]
extern crate alloc;
extern crate osi;
extern crate sys;
extern crate tmp;

#[cfg(not(feature = "bare"))]
pub mod args;
#[cfg(not(feature = "bare"))]
pub mod binfmt;
#[cfg(all(feature = "std", not(feature = "bare")))]
pub mod bridge;
#[cfg(not(feature = "bare"))]
pub mod cmpeq;
#[cfg(not(feature = "bare"))]
pub mod dvar;
#[cfg(not(feature = "bare"))]
pub mod element;
#[cfg(not(feature = "bare"))]
pub mod endian;
#[cfg(not(feature = "bare"))]
pub mod errs;
#[cfg(not(feature = "bare"))]
pub mod hashing;
#[cfg(not(feature = "bare"))]
pub mod io;
#[cfg(not(feature = "bare"))]
pub mod jdec;
#[cfg(not(feature = "bare"))]
pub mod json;
#[cfg(not(feature = "bare"))]
pub mod memory;
#[cfg(not(feature = "bare"))]
pub mod packed;
#[cfg(not(feature = "bare"))]
pub mod ptrs;
#[cfg(not(feature = "bare"))]
pub mod rng;
#[cfg(not(feature = "bare"))]
pub mod sig;
#[cfg(not(feature = "bare"))]
pub mod strs;
#[cfg(not(feature = "bare"))]
pub mod types;
