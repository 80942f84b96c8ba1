//! Roots for the JSON tokenizer.
use core::ops::ControlFlow;
use osi::json::token::*;

extern "C" {
    fn x_rep(kind: u32, ch: u32, p0: *const u8, n0: usize, p1: *const u8, n1: usize, p2: *const u8, n2: usize, p3: *const u8, n3: usize, s0: u32, s1: u32) -> u64;
}

fn rep(kind: u32, ch: u32, a: &[&[u8]; 4], s0: u32, s1: u32) -> ControlFlow<u32> {
    let r = unsafe { x_rep(kind, ch, a[0].as_ptr(), a[0].len(), a[1].as_ptr(), a[1].len(), a[2].as_ptr(), a[2].len(), a[3].as_ptr(), a[3].len(), s0, s1) };
    if r & 1 != 0 { ControlFlow::Break((r >> 32) as u32) } else { ControlFlow::Continue(()) }
}

fn sgn(v: Sign) -> u32 {
    match v {
        Sign::Plus => 0,
        Sign::Minus => 1,
    }
}

fn err(v: &Error<'_>) -> ControlFlow<u32> {
    let e: &[u8] = &[];
    match v {
        Error::CharacterStray(c) => rep(20, *c as u32, &[e, e, e, e], 0, 0),
        Error::KeywordUnknown(s) => rep(21, 0, &[s.as_bytes(), e, e, e], 0, 0),
        Error::NumberIncomplete => rep(22, 0, &[e, e, e, e], 0, 0),
        Error::StringIncomplete => rep(23, 0, &[e, e, e, e], 0, 0),
        Error::StringCharacterInvalid(c) => rep(24, *c as u32, &[e, e, e, e], 0, 0),
        Error::StringEscapeInvalid(c) => rep(25, *c as u32, &[e, e, e, e], 0, 0),
        Error::StringEscapeIncomplete => rep(26, 0, &[e, e, e, e], 0, 0),
        Error::StringSurrogateUnpaired => rep(27, 0, &[e, e, e, e], 0, 0),
        Error::Comment(s) => rep(28, 0, &[s.as_bytes(), e, e, e], 0, 0),
        #[allow(unreachable_patterns)]
        _ => rep(29, 0, &[e, e, e, e], 0, 0),
    }
}

fn tok(v: &Token<'_>) -> ControlFlow<u32> {
    let e: &[u8] = &[];
    match v {
        Token::Colon => rep(0, 0, &[e, e, e, e], 0, 0),
        Token::Comma => rep(1, 0, &[e, e, e, e], 0, 0),
        Token::ArrayOpen => rep(2, 0, &[e, e, e, e], 0, 0),
        Token::ArrayClose => rep(3, 0, &[e, e, e, e], 0, 0),
        Token::ObjectOpen => rep(4, 0, &[e, e, e, e], 0, 0),
        Token::ObjectClose => rep(5, 0, &[e, e, e, e], 0, 0),
        Token::Null => rep(6, 0, &[e, e, e, e], 0, 0),
        Token::False => rep(7, 0, &[e, e, e, e], 0, 0),
        Token::True => rep(8, 0, &[e, e, e, e], 0, 0),
        Token::Whitespace { raw } => rep(9, 0, &[raw.as_bytes(), e, e, e], 0, 0),
        Token::Number { raw, integer, fraction, exponent, integer_sign, exponent_sign } => {
            rep(10, 0, &[raw.as_bytes(), integer, fraction, exponent], sgn(*integer_sign), sgn(*exponent_sign))
        },
        Token::String { raw, chars } => rep(11, 0, &[raw.as_bytes(), chars.as_bytes(), e, e], 0, 0),
        #[allow(unreachable_patterns)]
        _ => rep(12, 0, &[e, e, e, e], 0, 0),
    }
}

/// Hands every report to the analysis.
pub struct Rep;
impl Report<u32> for Rep {
    fn report_error(&mut self, v: Error<'_>) -> ControlFlow<u32> { err(&v) }
    fn report_token(&mut self, v: Token<'_>) -> ControlFlow<u32> { tok(&v) }
}

fn code(v: ControlFlow<u32, Status>) -> u64 {
    match v {
        ControlFlow::Break(v) => ((v as u64) << 32) | 1,
        ControlFlow::Continue(Status::Busy) => 2,
        ControlFlow::Continue(Status::Done) => 0,
    }
}

pub fn r_new() -> Tokenizer { Tokenizer::new() }
pub fn r_flags(f: u32) -> Tokenizer { Tokenizer::with_flags(f) }
pub fn r_push(t: &mut Tokenizer, c: Option<char>) -> u64 { code(t.push(&mut Rep, c)) }
pub fn r_push_str(t: &mut Tokenizer, s: &str) -> u64 { code(t.push_str(&mut Rep, s)) }
pub fn r_parse_str(t: &mut Tokenizer, s: &str) -> u64 { code(t.parse_str(&mut Rep, s)) }
pub fn r_reset(t: &mut Tokenizer) { t.reset() }
pub fn r_status(t: &Tokenizer) -> bool { matches!(t.status(), Status::Done) }

/// Reports through the closure-like paths of the library, if any, and after taking ownership.
pub struct Own;
impl Report<u32> for Own {
    fn report_error(&mut self, v: Error<'_>) -> ControlFlow<u32> { err(&v.own()) }
    fn report_token(&mut self, v: Token<'_>) -> ControlFlow<u32> { tok(&v.own()) }
}
pub fn r_push_own(t: &mut Tokenizer, c: Option<char>) -> u64 { code(t.push(&mut Own, c)) }
