ID = 'S10'
PROPERTY = 'C38'
NEEDS = 'a decoded signature or text of the short form that is not valid text, followed by another attempt at the same position'
BREAKS = 'a decode step that fails because of invalid text has already moved past the data'
EDITS = [('lib/tmp/src/fmt/dbus/dvar.rs', '        Self::read(self.read, &mut idx, &mut len_u)?;\n        let len = self.format.de_u8(len_u) as usize;\n', '        Self::read(self.read, &mut self.level.idx, &mut len_u)?;\n        idx = self.level.idx;\n        let len = self.format.de_u8(len_u) as usize;\n')]
MAIN = '''

use tmp::fmt::dbus::{self, dvar::Dec};
use std::ops::ControlFlow as Flow;
struct Data([u8; 4]);
impl tmp::io::map::Read for Data {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<tmp::io::map::Error>, &[u8]> { self.0[..].map(idx, len) }
}
fn main() {
    let mut data = Data(*b"\\x02\\xff\\xff\\0");
    let mut s = String::new();
    let mut d = Dec::new_le(dbus::sig!(b"g"), &mut data);
    let a = matches!(d.signature(&mut s), Flow::Break(Some(dbus::Error::DataNonUtf8)));
    let b = matches!(d.signature(&mut s), Flow::Break(Some(dbus::Error::DataNonUtf8)));
    assert!(a && b);
}
'''
