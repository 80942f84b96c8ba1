ID = 'S13'
PROPERTY = 'C09'
NEEDS = 'a message whose first part is a run of zeroes, or a tag requested after a reset'
BREAKS = 'the inner padding is left out if the message starts with a run of zeroes'
EDITS = [('lib/osi/src/hmac.rs', '        if length > 0 {\n            if self.engine.is_reset() {\n                self.engine.push(&self.ipad);\n            }\n            self.engine.push_zero(length)\n        }\n', '        if length > 0 {\n            self.engine.push_zero(length)\n        }\n')]
MAIN = '''

use osi::hmac::HmacSha256;
fn main() {
    let mut a = HmacSha256::new(b"key");
    a.push_zero(5);
    a.push(b"abc");
    let mut b = HmacSha256::new(b"key");
    b.push(b"\\0\\0\\0\\0\\0abc");
    assert_eq!(a.finalize().to_hex(), b.finalize().to_hex());
}
'''
