//! Roots for mapped and streaming I/O.
use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use tmp::io::{map, stream};

extern "C" {
    fn x_map(idx: usize, len: usize, out: *mut [usize; 2]) -> u32;
    fn x_commit(len: usize);
    fn x_more(min: usize, has: bool, max: usize, out: *mut [usize; 2]) -> u32;
    fn x_pred(idx: usize, v: u8) -> bool;
    fn x_next() -> u32;
    fn x_left() -> usize;
}

pub struct R;
pub struct W;

fn merr(v: u32) -> Option<map::Error> {
    match v {
        1 => Some(map::Error::Overflow),
        2 => Some(map::Error::Exceeded),
        _ => None,
    }
}
fn code(v: Option<map::Error>) -> u32 {
    match v {
        Some(map::Error::Overflow) => 1,
        Some(map::Error::Exceeded) => 2,
        None => 3,
    }
}
fn flow<T>(v: Flow<Option<map::Error>, T>) -> u32 {
    match v {
        Flow::Continue(_) => 0,
        Flow::Break(v) => code(v),
    }
}

impl map::Read for R {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        let mut out = [0; 2];
        match unsafe { x_map(idx, len, &mut out) } {
            0 => Flow::Continue(unsafe { core::slice::from_raw_parts(out[0] as *const u8, out[1]) }),
            v => Flow::Break(merr(v)),
        }
    }
}
impl map::Write for W {
    unsafe fn commit(&mut self, len: usize) { unsafe { x_commit(len) } }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [MaybeUninit<u8>]> {
        let mut out = [0; 2];
        match unsafe { x_map(idx, len, &mut out) } {
            0 => Flow::Continue(unsafe { core::slice::from_raw_parts_mut(out[0] as *mut _, out[1]) }),
            v => Flow::Break(merr(v)),
        }
    }
}
impl stream::Read for R {
    fn advance(&mut self, len: usize) { unsafe { x_commit(len) } }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<stream::More, &[u8]> {
        let mut out = [0; 2];
        match unsafe { x_more(min, max.is_some(), max.unwrap_or(0), &mut out) } {
            0 => Flow::Continue(unsafe { core::slice::from_raw_parts(out[0] as *const u8, out[1]) }),
            _ => Flow::Break(stream::More { min: out[0], max: if out[1] == 0 { None } else { Some(out[1]) } }),
        }
    }
}
impl stream::Write for W {
    unsafe fn commit(&mut self, len: usize) { unsafe { x_commit(len) } }
    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<stream::More, &mut [MaybeUninit<u8>]> {
        let mut out = [0; 2];
        match unsafe { x_more(min, max.is_some(), max.unwrap_or(0), &mut out) } {
            0 => Flow::Continue(unsafe { core::slice::from_raw_parts_mut(out[0] as *mut _, out[1]) }),
            _ => Flow::Break(stream::More { min: out[0], max: if out[1] == 0 { None } else { Some(out[1]) } }),
        }
    }
}

pub struct It;
impl Iterator for It {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let v = unsafe { x_next() };
        if v < 256 { Some(v as u8) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = unsafe { x_left() }; (n, Some(n)) }
}
impl ExactSizeIterator for It {}

// mapped
pub fn r_slice_map(v: &[u8], idx: usize, len: usize, out: &mut [usize; 2]) -> u32 {
    match map::Read::map(v, idx, len) {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len()]; 0 },
        Flow::Break(v) => code(v),
    }
}
pub fn r_slice_read(v: &[u8], idx: &mut usize, data: &mut [u8]) -> u32 { flow(map::Read::read(v, idx, data)) }
pub fn r_read(r: &R, idx: &mut usize, data: &mut [u8]) -> u32 { flow(map::Read::read(r, idx, data)) }
pub fn r_read_uninit(r: &R, idx: &mut usize, data: &mut [MaybeUninit<u8>]) -> u32 { flow(map::Read::read_uninit(r, idx, data)) }
pub fn r_write(w: &mut W, idx: &mut usize, data: &[u8]) -> u32 { flow(map::Write::write(w, idx, data)) }
pub fn r_write_iter(w: &mut W, idx: &mut usize) -> u32 { flow(map::Write::write_iter(w, idx, &mut It)) }
pub fn r_fill(w: &mut W, idx: &mut usize, len: usize, data: u8) -> u32 { flow(map::Write::fill(w, idx, len, data)) }
pub fn r_zero(w: &mut W, idx: &mut usize, len: usize) -> u32 { flow(map::Write::zero(w, idx, len)) }
pub fn r_align(w: &mut W, idx: &mut usize, exp: u8) -> u32 { flow(map::Write::align_exp2(w, idx, exp)) }
pub fn r_vec_map(v: &mut alloc::vec::Vec<u8>, idx: usize, len: usize, out: &mut [usize; 2]) -> u32 {
    match map::Write::map(v, idx, len) {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len()]; 0 },
        Flow::Break(v) => code(v),
    }
}
pub fn r_vec_commit(v: &mut alloc::vec::Vec<u8>, len: usize) { unsafe { map::Write::commit(v, len) } }
pub fn r_vec_write(v: &mut alloc::vec::Vec<u8>, idx: &mut usize, data: &[u8]) -> u32 { flow(map::Write::write(v, idx, data)) }

// streaming
fn more(v: stream::More, out: &mut [usize; 3]) -> u32 {
    *out = [v.min, v.max.is_some() as usize, v.max.unwrap_or(0)];
    1
}
pub fn r_s_map(v: &'static [u8], min: usize, max: Option<usize>, out: &mut [usize; 3]) -> u32 {
    match stream::Read::map(&v, min, max) {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len(), 0]; 0 },
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_s_advance(v: &mut &'static [u8], len: usize) { stream::Read::advance(v, len) }
pub fn r_s_vec_map(v: &mut alloc::vec::Vec<u8>, min: usize, max: Option<usize>, out: &mut [usize; 3]) -> u32 {
    match stream::Write::map(v, min, max) {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len(), 0]; 0 },
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_s_vec_commit(v: &mut alloc::vec::Vec<u8>, len: usize) { unsafe { stream::Write::commit(v, len) } }
pub fn r_s_vec_unchecked(v: &mut alloc::vec::Vec<u8>, len: usize, out: &mut [usize; 3]) -> u32 {
    match unsafe { stream::Write::map_unchecked(v, len) } {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len(), 0]; 0 },
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_s_vec_write(v: &mut alloc::vec::Vec<u8>, data: &[u8], out: &mut [usize; 3]) -> u32 {
    match stream::Write::write(v, data) {
        Flow::Continue(()) => 0,
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_s_unchecked(w: &mut W, len: usize, out: &mut [usize; 3]) -> u32 {
    match unsafe { stream::Write::map_unchecked(w, len) } {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len(), 0]; 0 },
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_s_write(w: &mut W, data: &[u8], out: &mut [usize; 3]) -> u32 {
    match stream::Write::write(w, data) {
        Flow::Continue(()) => 0,
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_while(r: &R, n: &mut usize, max: Option<usize>, out: &mut [usize; 3]) -> u32 {
    match stream::read_map_while(r, n, max, |i, v| unsafe { x_pred(i, v) }) {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len(), 0]; 0 },
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_dyn_while(r: &(dyn stream::Read + 'static), n: &mut usize, max: Option<usize>, out: &mut [usize; 3]) -> u32 {
    match r.map_while(n, max, |i, v| unsafe { x_pred(i, v) }) {
        Flow::Continue(m) => { *out = [m.as_ptr() as usize, m.len(), 0]; 0 },
        Flow::Break(v) => more(v, out),
    }
}
pub fn r_use_dyn() -> &'static (dyn stream::Read + 'static) { &R }
