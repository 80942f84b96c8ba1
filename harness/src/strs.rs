//! Roots for string utilities and text conversions.
use alloc::borrow::Cow;
use osi::compat::OsStr;

extern "C" {
    fn x_out(tag: u32, p: *const u8, n: usize);
}

fn out(tag: u32, v: &[u8]) { unsafe { x_out(tag, v.as_ptr(), v.len()) } }

pub fn r_cmp(a: &'static str, b: &'static str) -> i8 { osi::str::cmp_natural(a, b) as i8 }
pub fn r_some(a: &'static str) -> bool {
    match osi::str::some(a) {
        Some(v) => { out(0, v.as_bytes()); true },
        None => false,
    }
}
pub fn r_symbol(a: &'static str) { out(0, osi::str::symbolize(a).as_bytes()) }

pub fn r_os_utf8(a: &'static [u8]) -> usize {
    match OsStr::from_utf8(a) {
        Ok(v) => { out(0, v.as_encoded_bytes()); 0 },
        Err(e) => 1 + e.valid_up_to(),
    }
}
pub fn r_os_str(a: &'static [u8]) -> usize {
    match unsafe { OsStr::from_encoded_bytes_unchecked(a) }.to_str() {
        Ok(v) => { out(0, v.as_bytes()); 0 },
        Err(e) => 1 + e.valid_up_to(),
    }
}
pub fn r_os_lossy(a: &'static [u8]) -> bool {
    match unsafe { OsStr::from_encoded_bytes_unchecked(a) }.to_string_lossy() {
        Cow::Borrowed(v) => { out(0, v.as_bytes()); true },
        Cow::Owned(v) => { out(0, v.as_bytes()); false },
    }
}
pub fn r_os_from(a: &'static str) {
    out(0, OsStr::from_str(a).as_encoded_bytes());
    out(0, <&OsStr>::from(a).as_encoded_bytes());
}

/// A string (or signature) decoded from a message.
fn message(sig: &[u8], mut data: &[u8], object: bool) -> u32 {
    let sig = tmp::fmt::dbus::Sig::new(sig).ok().unwrap();
    let mut v = alloc::string::String::new();
    struct R<'a>(&'a [u8]);
    impl tmp::io::map::Read for R<'_> {
        fn map(&self, idx: usize, len: usize) -> core::ops::ControlFlow<Option<tmp::io::map::Error>, &[u8]> { self.0.map(idx, len) }
    }
    let mut r = R(&mut data);
    let mut dec = tmp::fmt::dbus::dvar::Dec::new_le(&sig, &mut r);
    let f = if object { dec.signature(&mut v) } else { dec.string(&mut v) };
    match f {
        core::ops::ControlFlow::Continue(_) => { out(0, v.as_bytes()); 0 },
        core::ops::ControlFlow::Break(Some(tmp::fmt::dbus::Error::DataNonUtf8)) => 1,
        core::ops::ControlFlow::Break(_) => 2,
    }
}
pub fn r_dv_string(data: &'static [u8]) -> u32 { message(b"s", data, false) }
pub fn r_dv_signature(data: &'static [u8]) -> u32 { message(b"g", data, true) }
