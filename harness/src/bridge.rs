//! Roots for the bridges to the standard library.
extern crate std;
use core::fmt::Write as _;
use osi::compat::{OsStr, Write};
use osi::error::Uncaught;
use std::error::Error;

extern "C" {
    fn x_write(p: *const u8, n: usize) -> isize;
    fn x_source(v: u64) -> bool;
}

/// An arbitrary standard writer.
pub struct Out;
impl std::io::Write for Out {
    fn write(&mut self, v: &[u8]) -> std::io::Result<usize> {
        match unsafe { x_write(v.as_ptr(), v.len()) } {
            -1 => Err(std::io::ErrorKind::Other.into()),
            -2 => Err(std::io::ErrorKind::Interrupted.into()),
            n => Ok(n as usize),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub fn r_write(out: &'static mut Out, v: &'static str) -> bool { Write(out).write_str(v).is_ok() }
pub fn r_from_osstr(v: &std::ffi::OsStr) -> &[u8] { OsStr::from_osstr(v).as_encoded_bytes() }
pub fn r_from_conv(v: &std::ffi::OsStr) -> &[u8] { <&OsStr>::from(v).as_encoded_bytes() }
pub fn r_as_osstr(v: &OsStr) -> &[u8] { v.as_osstr().as_encoded_bytes() }
pub fn r_as_ref(v: &OsStr) -> &[u8] { let v: &std::ffi::OsStr = v.as_ref(); v.as_encoded_bytes() }

/// An error with an arbitrary source.
#[derive(Debug)]
#[repr(C)]
pub struct E(pub u64, pub D);
#[derive(Debug)]
pub struct D(pub u64);
impl core::fmt::Display for D {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl Error for D {}
impl core::fmt::Display for E {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl Error for E {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        if unsafe { x_source(self.0) } { Some(&self.1) } else { None }
    }
}
fn source(u: &Uncaught) -> *const D {
    match u.source() {
        Some(v) => v as *const dyn Error as *const D,
        None => core::ptr::null(),
    }
}
pub fn r_source4(v: &'static E) -> *const D { let u = Uncaught::fold_static_error(v); source(&u) }
pub fn r_source3(v: &'static E) -> *const D { let u = Uncaught::fold_static_display(v); source(&u) }
pub fn r_source2(v: &'static E) -> *const D { let u = Uncaught::fold_static_debug(v); source(&u) }
pub fn r_source1(v: &'static E) -> *const D { let u = Uncaught::fold_static_any(v); source(&u) }
