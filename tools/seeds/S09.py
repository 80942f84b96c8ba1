ID = 'S09'
PROPERTY = 'C43'
NEEDS = 'a surrogate pair in a string whose second half is written with an upper-case F'
BREAKS = 'a valid surrogate pair is rejected as an unpaired lead surrogate, depending on the case of its hexadecimal digits'
EDITS = [('lib/tmp/src/fmt/json/token.rs', """                        (0, b'\\\\') | (1, b'u')
                        | (
                            2..=5,
                            b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'
""", """                        (0, b'\\\\') | (1, b'u')
                        | (
                            2..=5,
                            b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'E'
""")]
MAIN = r'''
use std::ops::ControlFlow as Flow;
use tmp::fmt::json::token::{Dec, Token};
fn main() {
    let mut r = &b"\"x\\uD83D\\uDC0Fy\\n\" "[..];
    let mut d = Dec::with(&mut r);
    let mut seen = false;
    while let Flow::Continue(v) = d.pop() {
        if let Token::String { str, .. } = v {
            assert_eq!(str, "x\u{1f40f}y\n");
            seen = true;
        }
    }
    assert!(seen);
}
'''
