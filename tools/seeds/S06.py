ID = 'S06'
PROPERTY = 'C07'
NEEDS = 'a schema with a command three levels deep that sorts before another command of an outer level'
BREAKS = 'commands following a deeply nested sibling lose their parent, so that flags of the outer command are unknown to them'
EDITS = [('lib/osi/src/args/layout.rs', '                o_up = cmds[up].up;\n', '                o_up = cmds[up].up.filter(|v| i - v <= 3);\n')]
MAIN = '''

use osi::args::{Command, CommandSet, FlagSet};
fn main() {
    let mut c: [Vec<&str>; 6] = Default::default();
    let mut f: [FlagSet<'_, 'static, 0, ()>; 6] = std::array::from_fn(|_| FlagSet::with([]));
    let p: [&'static [&'static str]; 6] = [&[], &["a"], &["a", "b"], &["a", "b", "c"], &["a", "b", "c", "d"], &["z"]];
    let (mut ci, mut fi) = (c.iter_mut(), f.iter_mut());
    let set: CommandSet<6, ()> = CommandSet::with(std::array::from_fn(|i| {
        Command::with(p[i], ci.next().unwrap(), fi.next().unwrap(), None)
    }));
    let z = set.search_by(|v| v.path().cmp(&["z"][..])).unwrap();
    assert_eq!(set.up_from(z).map(|v| set.command_at(v).path().len()), Some(0));
}
'''
