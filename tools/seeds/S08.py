ID = 'S08'
PROPERTY = 'C42'
NEEDS = 'an object that is the value of an object member and is followed by another member'
BREAKS = 'after a nested object the decoder treats the outer object as an array, so that valid documents are rejected and invalid ones accepted'
EDITS = [('lib/tmp/src/fmt/json/stream.rs', '(State::ObjectColon, Token::ObjectOpen) => Some(self.object_open(Some(Stack::Object)))', '(State::ObjectColon, Token::ObjectOpen) => Some(self.object_open(Some(Stack::Array)))')]
MAIN = '''

use std::ops::ControlFlow as Flow;
use tmp::fmt::json::stream::{Dec, Item};
fn main() {
    let mut r = &b"{\\"a\\":{\\"b\\":1},\\"c\\":2} "[..];
    let mut d = Dec::with(&mut r);
    let mut n = 0;
    while let Flow::Continue(v) = d.pop() {
        assert!(!matches!(v, Item::Error(_)));
        n += 1;
    }
    assert!(n >= 8);
}
'''
