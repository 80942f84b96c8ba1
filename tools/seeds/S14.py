ID = 'S14'
PROPERTY = 'C02'
NEEDS = 'a string with an escaped lead surrogate that is directly followed by a different, valid escape sequence such as a tabulator'
BREAKS = 'the escape following an unpaired surrogate is decoded to the letter rather than the control character'
EDITS = [('lib/osi/src/json/token.rs', "                    self.report_error(report, Error::StringSurrogateUnpaired)?;\n                    self.acc_raw(v);\n                    self.acc_str(match v {\n                        'b' => '\\u{0008}',\n                        'f' => '\\u{000c}',\n", "                    self.report_error(report, Error::StringSurrogateUnpaired)?;\n                    self.acc_raw(v);\n                    self.acc_str(match v {\n                        'b' => '\\u{0008}',\n                        'f' => '\\u{000b}',\n")]
MAIN = '''

use osi::json::token::{Error, Report, Token, Tokenizer};
use std::ops::ControlFlow;
#[derive(Default)]
struct R(Vec<String>);
impl Report<()> for R {
    fn report_error(&mut self, _: Error<'_>) -> ControlFlow<()> { ControlFlow::Continue(()) }
    fn report_token(&mut self, v: Token<'_>) -> ControlFlow<()> {
        if let Token::String { chars, .. } = v { self.0.push(chars.into_owned()); }
        ControlFlow::Continue(())
    }
}
fn main() {
    let mut r = R::default();
    assert!(Tokenizer::new().parse_str(&mut r, "\\"a\\\\ud800\\\\fb\\"").is_continue());
    assert_eq!(r.0.len(), 1);
    assert!(r.0[0].ends_with("\\u{c}b"), "{:?}", r.0);
}
'''
