ID = 'S15'
PROPERTY = 'C16'
NEEDS = 'ordering two borrowed-or-owned values through the partial order'
BREAKS = 'the partial order of borrowed-or-owned values is the reverse of their total order'
EDITS = [('lib/osi/src/mown.rs', '        (**self).partial_cmp(v)\n', '        (**v).partial_cmp(self)\n')]
MAIN = '''

use osi::mown::Mown;
fn main() {
    let a: Mown<str, String> = Mown::new_borrowed("a");
    let b: Mown<str, String> = Mown::new_owned("b".into());
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
    assert!(a < b);
}
'''
