ID = 'S11'
PROPERTY = 'C40'
NEEDS = 'a mapped output that grants more than the requested number of bytes'
BREAKS = 'filling overwrites bytes behind the requested range'
EDITS = [('lib/tmp/src/io/map.rs', '            map[..n].fill(data_u);\n', '            map.fill(data_u);\n')]
MAIN = '''

use std::mem::MaybeUninit as Uninit;
use std::ops::ControlFlow as Flow;
use tmp::io::map::{Error, Write};
struct All([u8; 16]);
impl Write for All {
    unsafe fn commit(&mut self, _: usize) {}
    fn map(&mut self, idx: usize, _: usize) -> Flow<Option<Error>, &mut [Uninit<u8>]> {
        let v = &mut self.0[idx..];
        Flow::Continue(unsafe { std::mem::transmute::<&mut [u8], &mut [Uninit<u8>]>(v) })
    }
}
fn main() {
    let mut w = All([7; 16]);
    let mut idx = 4;
    assert!(w.fill(&mut idx, 3, 1).is_continue());
    assert_eq!(idx, 7);
    assert_eq!(w.0, [7, 7, 7, 7, 1, 1, 1, 7, 7, 7, 7, 7, 7, 7, 7, 7]);
}
'''
