ID = 'S07'
PROPERTY = 'C44'
NEEDS = 'help on a command with a sub-command whose name has characters outside of ASCII'
BREAKS = 'the column width of the command section counts bytes rather than characters'
EDITS = [('lib/osi/src/args/help.rs', '                    cmd.path[path.len()].chars().count(),\n', '                    cmd.path[path.len()].len(),\n')]
MAIN = '''

use osi::args::{self, help, Command, CommandSet, Flag, FlagMode, FlagSet, Schema};
use osi::compat::OsStr;
use std::ops::ControlFlow as Flow;
#[derive(Default)]
struct W(Vec<usize>);
impl help::Write<()> for W {
    fn write_info(&mut self, _: &str) -> Flow<()> { Flow::Continue(()) }
    fn write_section(&mut self, _: &str) -> Flow<()> { Flow::Continue(()) }
    fn write_usage(&mut self, _: &str, _: &[&str]) -> Flow<()> { Flow::Continue(()) }
    fn write_flag(&mut self, _: &str, _: FlagMode, _: Option<&str>, _: usize) -> Flow<()> { Flow::Continue(()) }
    fn write_command(&mut self, _: &str, _: Option<&str>, w: usize) -> Flow<()> { self.0.push(w); Flow::Continue(()) }
}
fn main() {
    let h = help::Help::with("prog", "about");
    let mut hf = h.flag();
    let mut errors: Vec<args::Error> = Vec::new();
    let (mut c0, mut c1): (Vec<&OsStr>, Vec<&OsStr>) = Default::default();
    let mut f0 = FlagSet::with([Flag::with("help", FlagMode::Set, &mut hf, None)]);
    let mut f1 = FlagSet::with([]);
    let mut commands = CommandSet::with([
        Command::with(&[], &mut c0, &mut f0, None),
        Command::with(&["\\u{e9}t\\u{e9}"], &mut c1, &mut f1, None),
    ]);
    let mut schema: Schema<'_, '_, ()> = Schema::with(&mut commands);
    let _ = args::parse(&mut errors, &mut schema, &mut ["--help"].into_iter().map(OsStr::from_str));
    let mut w = W::default();
    assert!(h.help(&mut w, &schema).is_ok());
    assert_eq!(w.0, [3]);
}
'''
