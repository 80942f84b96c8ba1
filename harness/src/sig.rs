//! Roots for D-Bus signatures.
use core::mem::MaybeUninit;
use tmp::fmt::dbus::{signature::Error, Cursor, Element, Sig};

extern "C" {
    fn x_hash(p: *const u8, n: usize);
}

/// Hasher that reports everything that is fed to it.
pub struct H;
impl core::hash::Hasher for H {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, v: &[u8]) { unsafe { x_hash(v.as_ptr(), v.len()) } }
}

fn el(v: Option<Element>) -> u64 { v.map_or(0, |v| v.code() as u64) }
fn us(v: Option<usize>) -> u64 { v.map_or(u64::MAX, |v| v as u64) }

fn err(v: Error, out: &mut [u64; 4]) {
    *out = match v {
        Error::DataExceeded => [1, 0, 0, 0],
        Error::SignatureEmpty => [2, 0, 0, 0],
        Error::SignatureSequence { break_idx } => [3, break_idx as u64, 0, 0],
        Error::SignatureIncomplete { container_idx } => [4, container_idx as u64, 0, 0],
        Error::ElementInvalid { idx, code } => [5, idx as u64, code as u64, 0],
        Error::ElementUnknown { position, code } => [6, position as u64, code as u64, 0],
        Error::ElementUnpaired { idx } => [7, idx as u64, 0, 0],
        Error::ElementMispaired { idx, pair_idx, expected } => [8, idx as u64, pair_idx as u64, el(expected)],
        Error::DictInvalid { position } => [9, position as u64, 0, 0],
    };
}

pub fn r_size(n: usize) -> usize { Sig::size_for_length(n) }
pub fn r_parse(data: &mut [MaybeUninit<u64>], sig: &[u8], out: &mut [u64; 4]) {
    match Sig::parse(data, sig) {
        Ok(()) => *out = [0; 4],
        Err(v) => err(v, out),
    }
}
pub fn r_new(sig: &[u8], out: &mut [u64; 4]) -> Option<alloc::boxed::Box<Sig>> {
    match Sig::new(sig) {
        Ok(v) => { *out = [0; 4]; Some(v) },
        Err(v) => { err(v, out); None },
    }
}
pub fn r_arc(sig: &[u8], out: &mut [u64; 4], txt: &mut [u8; 256]) -> usize {
    match Sig::arc(sig) {
        Ok(v) => { *out = [0; 4]; text(&v, txt) },
        Err(v) => { err(v, out); 0 },
    }
}
fn text(s: &Sig, txt: &mut [u8; 256]) -> usize {
    let mut n = 0;
    for e in s {
        txt[n] = e.code();
        n += 1;
    }
    n
}
fn make<const N: usize>(sig: &[u8], out: &mut [u64; 4], txt: &mut [u8; 256]) -> usize {
    match Sig::<[u64; N]>::try_make(sig) {
        Ok(v) => { *out = [0; 4]; text(&v, txt) },
        Err(v) => { err(v, out); 0 },
    }
}
pub fn r_make1(sig: &[u8], out: &mut [u64; 4], txt: &mut [u8; 256]) -> usize { make::<1>(sig, out, txt) }
pub fn r_make5(sig: &[u8], out: &mut [u64; 4], txt: &mut [u8; 256]) -> usize { make::<5>(sig, out, txt) }
pub fn r_make33(sig: &[u8], out: &mut [u64; 4], txt: &mut [u8; 256]) -> usize { make::<33>(sig, out, txt) }
pub fn r_make200(sig: &[u8], out: &mut [u64; 4], txt: &mut [u8; 256]) -> usize { make::<200>(sig, out, txt) }
pub fn r_codes(sig: &Sig, txt: &mut [u8; 256]) -> usize { text(sig, txt) }
pub fn r_len(sig: &Sig) -> usize { sig.len() }
pub fn r_string(sig: &Sig) -> alloc::string::String { sig.to_string() }
pub fn r_clone(sig: &Sig, txt: &mut [u8; 256]) -> usize { text(&sig.clone(), txt) }
pub fn r_eq(a: &Sig, b: &Sig) -> bool { a == b }
pub fn r_cmp(a: &Sig, b: &Sig) -> i8 { a.cmp(b) as i8 }
pub fn r_ne(a: &Sig, b: &Sig) -> bool { a != b }
pub fn r_lt(a: &Sig, b: &Sig) -> bool { a < b }
pub fn r_le(a: &Sig, b: &Sig) -> bool { a <= b }
pub fn r_pcmp(a: &Sig, b: &Sig) -> i8 { a.partial_cmp(b).map_or(9, |v| v as i8) }
pub fn r_hash(a: &Sig, h: &mut H) { core::hash::Hash::hash(a, h) }
pub fn r_owned(sig: &Sig, txt: &mut [u8; 256]) -> usize { text(&alloc::borrow::ToOwned::to_owned(sig), txt) }
pub fn r_bclone(sig: &Sig, txt: &mut [u8; 256]) -> usize {
    let b: alloc::boxed::Box<Sig> = sig.clone();
    text(&Clone::clone(&b), txt)
}
pub fn r_at(sig: &'static Sig, idx: usize) -> Option<&'static Sig> { sig.at(idx) }

fn with(sig: &Sig, idx: usize) -> Cursor<'_> { Cursor::with(osi::mown::Mown::new_borrowed(sig), idx) }

pub fn r_look(sig: &Sig, idx: usize, out: &mut [u64; 16]) {
    let c = with(sig, idx);
    let (lo, hi) = c.size_hint();
    *out = [
        c.idx() as u64, el(c.element()), el(c.up()), el(c.down()), us(c.position()), us(c.length()),
        us(c.idx_next()), us(c.idx_prev()), us(c.idx_step()), us(c.idx_down()), us(c.idx_up()),
        lo as u64, us(hi), us(c.sig().map(|v| v.len())), el(c.element_at(idx)), c.root().len() as u64,
    ];
}
pub fn r_move(sig: &Sig, idx: usize, out: &mut [u64; 16]) {
    *out = [0; 16];
    out[0] = with(sig, idx).move_next().idx() as u64;
    out[1] = with(sig, idx).move_prev().idx() as u64;
    out[2] = with(sig, idx).move_step().idx() as u64;
    out[3] = with(sig, idx).move_down().idx() as u64;
    out[4] = with(sig, idx).move_up().idx() as u64;
    out[5] = with(sig, idx).maybe_move(None).idx() as u64;
    let mut c = with(sig, idx);
    out[6] = el(c.next());
    out[7] = c.idx() as u64;
    out[8] = ExactSizeIterator::len(&c) as u64;
}
pub fn r_move_to(sig: &Sig, idx: usize, to: usize, some: bool) -> usize {
    if some { with(sig, idx).maybe_move(Some(to)).idx() } else { with(sig, idx).move_to(to).idx() }
}
pub fn r_far(sig: &Sig, idx: usize, out: &mut [u64; 16]) {
    let mut c = with(sig, 0);
    *c.raw().1 = idx;
    out[0] = el(c.element());
    out[1] = us(c.idx_next());
    out[2] = us(c.idx_step());
    out[3] = us(c.idx_down());
    out[4] = us(c.idx_up());
    out[5] = c.size_hint().0 as u64;
    out[6] = el(c.next());
}
pub fn r_at_any(sig: &Sig, idx: usize, out: &mut [u64; 4]) {
    let c = with(sig, 0);
    *out = [el(c.element_at(idx)), us(c.position_at(idx)), us(c.length_at(idx)), us(c.sig_at(idx).map(|v| v.len()))];
}
