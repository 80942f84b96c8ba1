//! Roots for the buffered JSON tokenizer and the JSON stream decoder.
use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use tmp::fmt::json::{stream, token::{self, Error, Sign, Token}};
use tmp::io::stream::{More, Read};

extern "C" {
    fn x_smap(min: usize, limited: bool, max: usize, out: *mut usize) -> bool;
    fn x_sadv(len: usize);
    fn x_more(min: usize, limited: bool, max: usize);
    fn x_tok(kind: u32, raw: *const u8, raw_len: usize, str: *const u8, str_len: usize, code: u32);
    fn x_part(which: u32, negative: bool, str: *const u8, len: usize);
}

pub struct R;

impl Read for R {
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        let mut out = [0usize; 2];
        if unsafe { x_smap(min, max.is_some(), max.unwrap_or(0), out.as_mut_ptr()) } {
            Flow::Continue(unsafe { core::slice::from_raw_parts(out[0] as *const u8, out[1]) })
        } else {
            Flow::Break(More { min: min, max: max })
        }
    }
    fn advance(&mut self, len: usize) { unsafe { x_sadv(len) } }
}

type T = token::Dec<'static>;
type S = stream::Dec<'static>;

fn more(m: More) -> u32 {
    unsafe { x_more(m.min, m.max.is_some(), m.max.unwrap_or(0)) };
    0
}
fn neg(s: Sign) -> bool { matches!(s, Sign::Minus) }
fn emit(t: Token) -> u32 {
    let e: (u32, &[u8], &[u8], u32) = match t {
        Token::Whitespace { raw, str } => (1, raw, str.as_bytes(), 0),
        Token::Colon => (2, b"", b"", 0),
        Token::Comma => (3, b"", b"", 0),
        Token::ArrayOpen => (4, b"", b"", 0),
        Token::ArrayClose => (5, b"", b"", 0),
        Token::ObjectOpen => (6, b"", b"", 0),
        Token::ObjectClose => (7, b"", b"", 0),
        Token::Null => (8, b"", b"", 0),
        Token::False => (9, b"", b"", 0),
        Token::True => (10, b"", b"", 0),
        Token::Number(n) => (11, n.raw, b"", 0),
        Token::String { raw, str } => (12, raw, str.as_bytes(), 0),
        Token::Error(Error::BufferRemaining) => (20, b"", b"", 0),
        Token::Error(Error::BufferChanged) => (21, b"", b"", 0),
        Token::Error(Error::ItemNonUtf8 { raw, error }) => (22, raw, b"", error.valid_up_to() as u32),
        Token::Error(Error::ItemUnknown { raw, str }) => (23, raw, str.as_bytes(), 0),
        Token::Error(Error::NumberIncomplete) => (24, b"", b"", 0),
        Token::Error(Error::NumberLeadingZero) => (25, b"", b"", 0),
        Token::Error(Error::NumberLeadingPlus) => (26, b"", b"", 0),
        Token::Error(Error::NumberMultipleSigns) => (27, b"", b"", 0),
        Token::Error(Error::NumberRangeEmpty) => (28, b"", b"", 0),
        Token::Error(Error::StringIncomplete) => (29, b"", b"", 0),
        Token::Error(Error::StringNonUtf8 { raw, str, error }) => (30, raw, str, error.valid_up_to() as u32),
        Token::Error(Error::StringUnescaped { code }) => (31, b"", b"", code as u32),
        Token::Error(Error::StringEscapeUnknown { code }) => (32, b"", b"", code as u32),
        Token::Error(Error::StringEscapeInvalid) => (33, b"", b"", 0),
        Token::Error(Error::StringEscapeUnpairedLeadSurrogate { lead }) => (34, b"", b"", lead),
        Token::Error(Error::StringEscapeUnpairedTrailSurrogate { trail }) => (35, b"", b"", trail),
    };
    unsafe { x_tok(e.0, e.1.as_ptr(), e.1.len(), e.2.as_ptr(), e.2.len(), e.3) };
    if let Token::Number(n) = t {
        unsafe { x_part(0, neg(n.sign), n.integer.as_ptr(), n.integer.len()) };
        if let Some(f) = n.fraction {
            unsafe { x_part(1, false, f.as_ptr(), f.len()) };
        }
        if let Some((s, f)) = n.exponent {
            unsafe { x_part(2, neg(s), f.as_ptr(), f.len()) };
        }
    }
    1
}

pub fn r_tdec(out: &mut MaybeUninit<T>, r: &'static mut R) { out.write(token::Dec::with(r)); }
pub fn r_tpop(d: &'static mut T) -> u32 {
    match d.pop() {
        Flow::Continue(t) => emit(t),
        Flow::Break(m) => more(m),
    }
}
pub fn r_tend(d: &'static mut T) -> u32 {
    match d.complete() {
        Some(t) => emit(t),
        None => 0,
    }
}
pub fn r_tdrop(d: &mut MaybeUninit<T>) { unsafe { d.assume_init_drop() } }

pub fn r_sdec(out: &mut MaybeUninit<S>, r: &'static mut R) { out.write(stream::Dec::with(r)); }
pub fn r_spop(d: &'static mut S) -> u32 {
    match d.pop() {
        Flow::Continue(stream::Item::Error(_)) => 1,
        Flow::Continue(stream::Item::Prim) => 2,
        Flow::Continue(stream::Item::Key) => 3,
        Flow::Continue(stream::Item::ArrayOpen) => 4,
        Flow::Continue(stream::Item::ArrayClose) => 5,
        Flow::Continue(stream::Item::ObjectOpen) => 6,
        Flow::Continue(stream::Item::ObjectClose) => 7,
        Flow::Break(m) => more(m),
    }
}
pub fn r_sdrop(d: &mut MaybeUninit<S>) { unsafe { d.assume_init_drop() } }
