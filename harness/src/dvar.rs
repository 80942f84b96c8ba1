//! Roots for the D-Bus wire format.
use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use tmp::fmt::dbus::{self, dvar::{Dec, Enc}, ende, Sig};
use tmp::io::map::{Error as MapError, Read, Write};

extern "C" {
    fn x_map(idx: usize, len: usize, out: *mut usize) -> u32;
    fn x_commit(len: usize);
}

pub struct R;
pub struct W;

fn code(c: u32) -> Option<MapError> {
    match c {
        1 => Some(MapError::Overflow),
        2 => Some(MapError::Exceeded),
        _ => None,
    }
}

impl Read for R {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<MapError>, &[u8]> {
        let mut out = [0usize; 2];
        match unsafe { x_map(idx, len, out.as_mut_ptr()) } {
            0 => Flow::Continue(unsafe { core::slice::from_raw_parts(out[0] as *const u8, out[1]) }),
            c => Flow::Break(code(c)),
        }
    }
}

impl Write for W {
    unsafe fn commit(&mut self, len: usize) { unsafe { x_commit(len) } }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<MapError>, &mut [MaybeUninit<u8>]> {
        let mut out = [0usize; 2];
        match unsafe { x_map(idx, len, out.as_mut_ptr()) } {
            0 => Flow::Continue(unsafe { core::slice::from_raw_parts_mut(out[0] as *mut MaybeUninit<u8>, out[1]) }),
            c => Flow::Break(code(c)),
        }
    }
}

type E = Enc<'static, 'static>;
type D = Dec<'static, 'static>;

fn err(e: dbus::Error) -> u32 {
    match e {
        dbus::Error::Mismatch => 1,
        dbus::Error::Pending => 2,
        dbus::Error::DataOverflow => 3,
        dbus::Error::DataNonUtf8 => 4,
        dbus::Error::Io(MapError::Overflow) => 5,
        dbus::Error::Io(MapError::Exceeded) => 6,
    }
}
fn flow<T>(f: Flow<Option<dbus::Error>, T>) -> u32 {
    match f {
        Flow::Continue(_) => 0,
        Flow::Break(None) => 7,
        Flow::Break(Some(e)) => err(e),
    }
}
fn res<T>(f: Result<T, dbus::Error>) -> u32 {
    match f {
        Ok(_) => 0,
        Err(e) => err(e),
    }
}

fn format(be: bool) -> ende::Format {
    if be { ende::Format::DVarBe } else { ende::Format::DVarLe }
}

pub fn r_sig(text: &[u8]) -> Option<alloc::boxed::Box<Sig>> { Sig::new(text).ok() }

pub fn r_enc(out: &mut MaybeUninit<E>, sig: &'static Sig, be: bool, w: &'static mut W) {
    out.write(if be { Enc::new_be(sig, w) } else { Enc::new_le(sig, w) });
}
pub fn r_enc_as(out: &mut MaybeUninit<E>, sig: &'static Sig, be: bool, w: &'static mut W) {
    let ende::Enc::DVar(v) = ende::Enc::new(sig, format(be), w);
    out.write(v);
}
pub fn r_e_u16(e: &'static mut E, v: u16) -> u32 { flow(e.u16(v)) }
pub fn r_e_u32(e: &'static mut E, v: u32) -> u32 { flow(e.u32(v)) }
pub fn r_e_u64(e: &'static mut E, v: u64) -> u32 { flow(e.u64(v)) }
pub fn r_e_string(e: &'static mut E, v: &'static str) -> u32 { flow(e.string(v)) }
pub fn r_e_object(e: &'static mut E, v: &'static str) -> u32 { flow(e.object(v)) }
pub fn r_e_signature(e: &'static mut E, v: &'static str) -> u32 { flow(e.signature(v)) }
pub fn r_e_variant(e: &'static mut E, v: &'static Sig) -> u32 { flow(e.variant(v)) }
pub fn r_e_array(e: &'static mut E) -> u32 { flow(e.array()) }
pub fn r_e_structure(e: &'static mut E) -> u32 { flow(e.structure()) }
pub fn r_e_dict(e: &'static mut E) -> u32 { flow(e.dict()) }
pub fn r_e_close(e: &'static mut E) -> u32 { flow(e.close()) }
pub fn r_e_commit(e: &'static mut E) -> u32 { res(e.commit()) }
pub fn r_e_enc(e: &'static mut E, out: &mut MaybeUninit<E>) -> u32 {
    match e.enc() {
        Ok(v) => { out.write(v); 0 },
        Err(e) => err(e),
    }
}
pub fn r_e_enc_with(e: &'static mut E, sig: &'static Sig, out: &mut MaybeUninit<E>) -> u32 {
    match e.enc_with(sig.into()) {
        Ok(v) => { out.write(v); 0 },
        Err(e) => err(e),
    }
}

pub fn r_dec(out: &mut MaybeUninit<D>, sig: &'static Sig, be: bool, r: &'static mut R) {
    out.write(if be { Dec::new_be(sig, r) } else { Dec::new_le(sig, r) });
}
pub fn r_dec_as(out: &mut MaybeUninit<D>, sig: &'static Sig, be: bool, r: &'static mut R) {
    let ende::Dec::DVar(v) = ende::Dec::new(sig, format(be), r);
    out.write(v);
}
pub fn r_d_u16(e: &'static mut D, v: &mut u16) -> u32 { flow(e.u16(v)) }
pub fn r_d_string(e: &'static mut D, v: &mut alloc::string::String) -> u32 { flow(e.string(v)) }
pub fn r_d_signature(e: &'static mut D, v: &mut alloc::string::String) -> u32 { flow(e.signature(v)) }
pub fn r_d_array(e: &'static mut D) -> u32 { flow(e.array()) }
pub fn r_d_close(e: &'static mut D) -> u32 { flow(e.close()) }
pub fn r_d_more(e: &'static D) -> bool { e.more() }
pub fn r_d_commit(e: &'static mut D) -> u32 { res(e.commit()) }
pub fn r_d_dec(e: &'static mut D, out: &mut MaybeUninit<D>) -> u32 {
    match e.dec() {
        Ok(v) => { out.write(v); 0 },
        Err(e) => err(e),
    }
}
pub fn r_d_dec_with(e: &'static mut D, sig: &'static Sig, out: &mut MaybeUninit<D>) -> u32 {
    match e.dec_with(sig.into()) {
        Ok(v) => { out.write(v); 0 },
        Err(e) => err(e),
    }
}
