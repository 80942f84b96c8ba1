//! Roots for command-line parsing.
use core::ops::ControlFlow as Flow;
use osi::args::{self, help, Command, CommandSet, Error, Flag, FlagMode, FlagSet, Schema};
use osi::compat::OsStr;

extern "C" {
    /// A report: what, by whom, up to two texts, and a number; a non-zero answer stops.
    fn x_rep(kind: u32, id: u32, a: *const u8, an: usize, b: *const u8, bn: usize, n: usize) -> u32;
    /// The next argument.
    fn x_arg(out: *mut usize) -> bool;
    /// A stored value.
    fn x_dump(tag: u32, a: *const u8, an: usize);
}

fn stop(v: u32) -> Flow<u32> {
    if v == 0 { Flow::Continue(()) } else { Flow::Break(v) }
}
fn rep(kind: u32, id: u32, a: &OsStr, b: &OsStr, n: usize) -> Flow<u32> {
    let (a, b) = (a.as_encoded_bytes(), b.as_encoded_bytes());
    stop(unsafe { x_rep(kind, id, a.as_ptr(), a.len(), b.as_ptr(), b.len(), n) })
}
fn none() -> &'static OsStr { OsStr::from_str("") }

fn err(e: Error<'static>) -> Flow<u32> {
    match e {
        Error::Uncaught(_) => rep(20, 0, none(), none(), 0),
        Error::ShortsUnknown { shorts } => rep(21, 0, shorts, none(), 0),
        Error::FlagUnknown { flag } => rep(22, 0, flag, none(), 0),
        Error::FlagUnexpectedToggle { flag } => rep(23, 0, flag, none(), 0),
        Error::FlagUnexpectedValue { flag, value } => rep(24, 0, flag, value, 0),
        Error::FlagNoValue { flag } => rep(25, 0, flag, none(), 0),
        Error::FlagValueNotUtf8 { flag, value } => rep(26, 0, flag, value, 0),
        Error::ParameterUnexpected { parameter } => rep(27, 0, parameter, none(), 0),
        Error::ParameterNotUtf8 { parameter } => rep(28, 0, parameter, none(), 0),
    }
}

pub struct F(u32);
pub struct C(u32);
pub struct P;
pub struct It;

impl args::FlagReport<'static, u32> for F {
    fn report_set(&mut self, cx: &mut args::FlagContext<'_, 'static, u32>) -> Flow<u32> {
        let n = cx.command_current();
        rep(1, self.0, cx.flag_arg(), none(), n)
    }
    fn report_toggle(&mut self, cx: &mut args::FlagContext<'_, 'static, u32>, v: bool) -> Flow<u32> {
        let n = cx.command_current();
        rep(2 + v as u32, self.0, cx.flag_arg(), none(), n)
    }
    fn report_parse(&mut self, cx: &mut args::FlagContext<'_, 'static, u32>, v: &'static OsStr) -> Flow<u32> {
        let n = cx.command_current();
        rep(4, self.0, cx.flag_arg(), v, n)
    }
}
impl args::CommandReport<'static, u32> for C {
    fn report_parameter(&mut self, _cx: &mut args::CommandContext<'_, 'static, u32>, v: Option<&'static OsStr>) -> Flow<u32> {
        match v {
            Some(v) => rep(5, self.0, v, none(), 0),
            None => rep(6, self.0, none(), none(), 0),
        }
    }
}
impl args::ParserReport<'static, u32> for P {
    fn report_error(&mut self, _cx: &mut args::ParserContext<'_, 'static, u32>, e: Error<'static>) -> Flow<u32> {
        err(e)
    }
}
impl Iterator for It {
    type Item = &'static OsStr;
    fn next(&mut self) -> Option<&'static OsStr> {
        let mut out = [0usize; 2];
        unsafe {
            x_arg(out.as_mut_ptr())
                .then(|| OsStr::from_encoded_bytes_unchecked(core::slice::from_raw_parts(out[0] as *const u8, out[1])))
        }
    }
}

fn run(schema: &mut Schema<'_, 'static, u32>, p: &mut P, it: &mut It, out: &mut [usize; 2]) {
    for i in 0..schema.commands().len() {
        d(50, b"");
        for v in schema.command_at(i).path() { d(51, v.as_bytes()) }
    }
    *out = match args::parse(p, schema, it) {
        Ok(v) => [0, v],
        Err(None) => [1, 0],
        Err(Some(v)) => [2, v as usize],
    };
}

pub fn r_empty(p: &'static mut P, it: &'static mut It, out: &mut [usize; 2]) {
    let mut commands = CommandSet::with([]);
    run(&mut Schema::with(&mut commands), p, it, out)
}
pub fn r_flat(p: &'static mut P, it: &'static mut It, out: &mut [usize; 2]) {
    let mut f = [F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7)];
    let mut c = C(0);
    let [f0, f1, f2, f3, f4, f5, f6, f7] = &mut f;
    let mut flags = FlagSet::with([
        Flag::with("tog", FlagMode::Toggle, f0, None),
        Flag::with("set", FlagMode::Set, f1, None),
        Flag::with("no-neg", FlagMode::Toggle, f2, None),
        Flag::with("p", FlagMode::Parse, f3, None),
        Flag::with("no-p", FlagMode::Parse, f4, None),
        Flag::with("pa", FlagMode::Parse, f5, None),
        Flag::with("\u{e9}", FlagMode::Set, f6, None),
        Flag::with("no-", FlagMode::Toggle, f7, None),
    ]);
    let mut commands = CommandSet::with([Command::with(&[], &mut c, &mut flags, None)]);
    run(&mut Schema::with(&mut commands), p, it, out)
}
pub fn r_tree(p: &'static mut P, it: &'static mut It, out: &mut [usize; 2]) {
    let mut f = [F(0), F(1), F(2), F(3), F(4), F(5)];
    let mut c = [C(0), C(1), C(2), C(3), C(4), C(5)];
    let [f0, f1, f2, f3, f4, f5] = &mut f;
    let [c0, c1, c2, c3, c4, c5] = &mut c;
    let mut flags_r = FlagSet::with([Flag::with("v", FlagMode::Set, f0, None), Flag::with("w", FlagMode::Toggle, f1, None)]);
    let mut flags_a = FlagSet::with([Flag::with("v", FlagMode::Parse, f2, None)]);
    let mut flags_ab = FlagSet::with([Flag::with("w", FlagMode::Set, f3, None)]);
    let mut flags_a2 = FlagSet::with([]);
    let mut flags_cd = FlagSet::with([Flag::with("d", FlagMode::Set, f4, None)]);
    let mut flags_cz = FlagSet::with([Flag::with("z", FlagMode::Toggle, f5, None)]);
    let mut commands = CommandSet::with([
        Command::with(&["c", "z", "y"], c5, &mut flags_cz, None),
        Command::with(&["a", "b"], c2, &mut flags_ab, None),
        Command::with(&["c", "d", "e"], c4, &mut flags_cd, None),
        Command::with(&[], c0, &mut flags_r, None),
        Command::with(&["aa"], c3, &mut flags_a2, None),
        Command::with(&["a"], c1, &mut flags_a, None),
    ]);
    run(&mut Schema::with(&mut commands), p, it, out)
}
pub fn r_forest(p: &'static mut P, it: &'static mut It, out: &mut [usize; 2]) {
    let mut f = [F(0), F(1), F(2)];
    let mut c = [C(0), C(1), C(2), C(3), C(4)];
    let [f0, f1, f2] = &mut f;
    let [c0, c1, c2, c3, c4] = &mut c;
    let mut flags_xy = FlagSet::with([Flag::with("f", FlagMode::Set, f0, None)]);
    let mut flags_m = FlagSet::with([Flag::with("f", FlagMode::Toggle, f1, None)]);
    let mut flags_mn = FlagSet::with([Flag::with("g", FlagMode::Parse, f2, None)]);
    let mut flags_xz = FlagSet::with([]);
    let mut flags_xa = FlagSet::with([]);
    let mut commands = CommandSet::with([
        Command::with(&["x", "z"], c1, &mut flags_xz, None),
        Command::with(&["m", "n", "o"], c4, &mut flags_mn, None),
        Command::with(&["x", "y"], c0, &mut flags_xy, None),
        Command::with(&["xa"], c2, &mut flags_xa, None),
        Command::with(&["m"], c3, &mut flags_m, None),
    ]);
    run(&mut Schema::with(&mut commands), p, it, out)
}

// --- lookup ------------------------------------------------------------------
fn flags<const N: usize>(names: &'static [&'static str; N], probe: &str, out: &mut [usize; 3]) {
    let mut r: [F; N] = core::array::from_fn(|i| F(i as u32));
    let mut it = r.iter_mut();
    let set: FlagSet<N, u32> = FlagSet::with(core::array::from_fn(|i| Flag::with(names[i], FlagMode::Set, it.next().unwrap(), None)));
    *out = match set.search_by(|v| v.name().cmp(probe)) {
        Ok(v) => [1, set.flag_at(v).name().as_ptr() as usize, set.len()],
        Err(_) => [0, 0, set.len()],
    };
}
pub fn r_flags1(n: &'static [&'static str; 1], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }
pub fn r_flags2(n: &'static [&'static str; 2], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }
pub fn r_flags3(n: &'static [&'static str; 3], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }
pub fn r_flags4(n: &'static [&'static str; 4], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }
pub fn r_flags12(n: &'static [&'static str; 12], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }
pub fn r_flags24(n: &'static [&'static str; 24], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }
pub fn r_flags5(n: &'static [&'static str; 5], probe: &str, out: &mut [usize; 3]) { flags(n, probe, out) }

type Path = &'static [&'static str];
fn commands<const N: usize>(paths: &'static [Path; N], probe: Path, out: &mut [usize; 64]) {
    let mut r: [C; N] = core::array::from_fn(|i| C(i as u32));
    let mut fl: [FlagSet<'_, 'static, 0, u32>; N] = core::array::from_fn(|_| FlagSet::with([]));
    let (mut it, mut jt) = (r.iter_mut(), fl.iter_mut());
    let set: CommandSet<N, u32> = CommandSet::with(core::array::from_fn(|i| Command::with(paths[i], it.next().unwrap(), jt.next().unwrap(), None)));
    let id = |i: usize| set.command_at(i).path().as_ptr() as usize;
    *out = [0; 64];
    if let Ok(v) = set.search_by(|v| v.path().cmp(probe)) {
        out[0] = 1;
        out[1] = id(v);
    }
    for i in 0..N {
        out[2 + 2 * i] = id(i);
        out[3 + 2 * i] = set.up_from(i).map_or(0, id);
    }
}
pub fn r_cmds1(n: &'static [Path; 1], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds2(n: &'static [Path; 2], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds3(n: &'static [Path; 3], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds4(n: &'static [Path; 4], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds5(n: &'static [Path; 5], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds12(n: &'static [Path; 12], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds24(n: &'static [Path; 24], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }
pub fn r_cmds6(n: &'static [Path; 6], probe: Path, out: &mut [usize; 64]) { commands(n, probe, out) }

// --- sinks ---------------------------------------------------------------------
trait Dump { fn dump(&self); }
fn d(tag: u32, v: &[u8]) { unsafe { x_dump(tag, v.as_ptr(), v.len()) } }
impl Dump for () { fn dump(&self) { d(0, b"") } }
impl Dump for bool { fn dump(&self) { d(1 + *self as u32, b"") } }
impl Dump for &OsStr { fn dump(&self) { d(3, self.as_encoded_bytes()) } }
impl Dump for &str { fn dump(&self) { d(4, self.as_bytes()) } }
impl Dump for alloc::string::String { fn dump(&self) { d(5, self.as_bytes()) } }
impl<T: Dump> Dump for Option<T> {
    fn dump(&self) {
        match self {
            None => d(6, b""),
            Some(v) => { d(7, b""); v.dump() },
        }
    }
}
impl<T: Dump> Dump for alloc::vec::Vec<T> {
    fn dump(&self) {
        d(8, b"");
        for v in self { v.dump() }
        d(9, b"");
    }
}

fn flag_sink<T: args::FlagReport<'static, u32> + Dump>(mode: u8, p: &mut P, it: &mut It, mut v: T, out: &mut [usize; 2]) {
    let mut c = C(0);
    {
        let mut flags = FlagSet::with([Flag::with("f", match mode { 0 => FlagMode::Set, 1 => FlagMode::Toggle, _ => FlagMode::Parse }, &mut v, None)]);
        let mut commands = CommandSet::with([Command::with(&[], &mut c, &mut flags, None)]);
        run(&mut Schema::with(&mut commands), p, it, out);
    }
    v.dump();
}
fn cmd_sink<T: args::CommandReport<'static, u32> + Dump>(p: &mut P, it: &mut It, mut v: T, out: &mut [usize; 2]) {
    {
        let mut flags = FlagSet::with([]);
        let mut commands = CommandSet::with([Command::with(&[], &mut v, &mut flags, None)]);
        run(&mut Schema::with(&mut commands), p, it, out);
    }
    v.dump();
}

pub fn r_sf_unit(m: u8, some: bool, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<()>>(m, p, it, some.then_some(()), o) }
pub fn r_sf_bool(m: u8, v: bool, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<bool>(m, p, it, v, o) }
pub fn r_sf_os(m: u8, v: &'static OsStr, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<&'static OsStr>(m, p, it, v, o) }
pub fn r_sf_oos(m: u8, v: &'static OsStr, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<&'static OsStr>>(m, p, it, (!v.as_encoded_bytes().is_empty()).then_some(v), o) }
pub fn r_sf_str(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<&'static str>(m, p, it, v, o) }
pub fn r_sf_ostr(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<&'static str>>(m, p, it, (!v.is_empty()).then_some(v), o) }
pub fn r_sf_string(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<alloc::string::String>(m, p, it, v.into(), o) }
pub fn r_sf_ostring(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<alloc::string::String>>(m, p, it, (!v.is_empty()).then(|| v.into()), o) }

fn list<T: From<&'static str>>(v: &'static str) -> alloc::vec::Vec<T> {
    let mut l = alloc::vec::Vec::new();
    if !v.is_empty() { l.push(v.into()) }
    l
}
fn olist<T: From<&'static str>>(v: &'static str) -> Option<alloc::vec::Vec<T>> { (!v.is_empty()).then(|| list(v)) }
pub fn r_sf_vos(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<alloc::vec::Vec<&'static OsStr>>(m, p, it, list(v), o) }
pub fn r_sf_ovos(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<alloc::vec::Vec<&'static OsStr>>>(m, p, it, olist(v), o) }
pub fn r_sf_vstr(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<alloc::vec::Vec<&'static str>>(m, p, it, list(v), o) }
pub fn r_sf_ovstr(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<alloc::vec::Vec<&'static str>>>(m, p, it, olist(v), o) }
pub fn r_sf_vstring(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<alloc::vec::Vec<alloc::string::String>>(m, p, it, list(v), o) }
pub fn r_sf_ovstring(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { flag_sink::<Option<alloc::vec::Vec<alloc::string::String>>>(m, p, it, olist(v), o) }
pub fn r_sc_unit(_v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<()>(p, it, (), o) }
pub fn r_sc_vos(v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<alloc::vec::Vec<&'static OsStr>>(p, it, list(v), o) }
pub fn r_sc_ovos(v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<Option<alloc::vec::Vec<&'static OsStr>>>(p, it, olist(v), o) }
pub fn r_sc_vstr(v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<alloc::vec::Vec<&'static str>>(p, it, list(v), o) }
pub fn r_sc_ovstr(v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<Option<alloc::vec::Vec<&'static str>>>(p, it, olist(v), o) }
pub fn r_sc_vstring(v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<alloc::vec::Vec<alloc::string::String>>(p, it, list(v), o) }
pub fn r_sc_ovstring(v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) { cmd_sink::<Option<alloc::vec::Vec<alloc::string::String>>>(p, it, olist(v), o) }

impl<'a, T: Dump + Copy> Dump for SharedCell<'a, T> { fn dump(&self) { self.0.get().dump() } }
struct SharedCell<'a, T: Copy>(&'a core::cell::Cell<T>);
pub fn r_sf_cell(m: u8, v: bool, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) {
    let cell = core::cell::Cell::new(v);
    let mut c = C(0);
    {
        let mut s = args::Shared::with(&cell);
        let mut flags = FlagSet::with([Flag::with("f", match m { 0 => FlagMode::Set, 1 => FlagMode::Toggle, _ => FlagMode::Parse }, &mut s, None)]);
        let mut commands = CommandSet::with([Command::with(&[], &mut c, &mut flags, None)]);
        run(&mut Schema::with(&mut commands), p, it, o);
    }
    SharedCell(&cell).dump();
}
pub fn r_sf_refcell(m: u8, v: &'static str, p: &'static mut P, it: &'static mut It, o: &mut [usize; 2]) {
    let cell = core::cell::RefCell::new(alloc::string::String::from(v));
    let mut c = C(0);
    {
        let mut s = args::Shared::with(&cell);
        let mut flags = FlagSet::with([Flag::with("f", match m { 0 => FlagMode::Set, 1 => FlagMode::Toggle, _ => FlagMode::Parse }, &mut s, None)]);
        let mut commands = CommandSet::with([Command::with(&[], &mut c, &mut flags, None)]);
        run(&mut Schema::with(&mut commands), p, it, o);
    }
    cell.borrow().dump();
}
pub fn r_errors(it: &'static mut It) -> usize {
    let mut errors: alloc::vec::Vec<Error<'static>> = alloc::vec::Vec::new();
    let mut c = ();
    {
        let mut flags = FlagSet::with([]);
        let mut commands = CommandSet::with([Command::with(&[], &mut c, &mut flags, None)]);
        let mut schema: Schema<'_, 'static, ()> = Schema::with(&mut commands);
        let _ = args::parse(&mut errors, &mut schema, it);
    }
    let n = errors.len();
    for e in errors { let _ = err(e); }
    n
}

// --- help ------------------------------------------------------------------------
pub struct W;
impl help::Write<u32> for W {
    fn write_info(&mut self, v: &str) -> Flow<u32> { stop(unsafe { x_rep(40, 0, v.as_ptr(), v.len(), v.as_ptr(), 0, 0) }) }
    fn write_section(&mut self, v: &str) -> Flow<u32> { stop(unsafe { x_rep(41, 0, v.as_ptr(), v.len(), v.as_ptr(), 0, 0) }) }
    fn write_usage(&mut self, v: &str, path: &[&str]) -> Flow<u32> { stop(unsafe { x_rep(42, 0, v.as_ptr(), v.len(), path.as_ptr() as *const u8, 0, path.len()) }) }
    fn write_flag(&mut self, v: &str, mode: FlagMode, info: Option<&str>, width: usize) -> Flow<u32> {
        let i = info.unwrap_or("");
        stop(unsafe { x_rep(43, mode as u32 + 10 * info.is_some() as u32, v.as_ptr(), v.len(), i.as_ptr(), i.len(), width) })
    }
    fn write_command(&mut self, v: &str, info: Option<&str>, width: usize) -> Flow<u32> {
        let i = info.unwrap_or("");
        stop(unsafe { x_rep(44, 10 * info.is_some() as u32, v.as_ptr(), v.len(), i.as_ptr(), i.len(), width) })
    }
}
fn write(p: &mut P, it: &mut It, w: &mut W, alt: bool, out: &mut [usize; 2]) {
    let h = help::Help::with("prog", "about");
    let mut c = [C(0), C(1), C(2), C(3), C(4), C(5)];
    let [c0, c1, c2, c3, c4, c5] = &mut c;
    let mut f = [F(0), F(1), F(2)];
    let [f0, f1, f2] = &mut f;
    let (mut h0, mut h1) = (h.flag(), h.flag());
    let mut flags_r = FlagSet::with([Flag::with("help", FlagMode::Set, &mut h0, Some("show help")), Flag::with("a-long-flag", FlagMode::Parse, f0, None), Flag::with("t", FlagMode::Toggle, f1, Some("tog"))]);
    let mut flags_a = FlagSet::with([Flag::with("h", FlagMode::Toggle, &mut h1, None)]);
    let mut flags_ab = FlagSet::with([]);
    let mut flags_b = FlagSet::with([Flag::with("\u{e9}\u{e9}", FlagMode::Set, f2, Some("accents"))]);
    let mut flags_cd = FlagSet::with([]);
    let mut flags_aa = FlagSet::with([]);
    let mut commands = CommandSet::with([
        Command::with(&["b\u{e9}"], c3, &mut flags_b, Some("be")),
        Command::with(&["a", "xyz"], c2, &mut flags_ab, Some("ab")),
        Command::with(&["c", "d"], c4, &mut flags_cd, None),
        Command::with(&[], c0, &mut flags_r, None),
        Command::with(&["a", "xyz", "deep"], c5, &mut flags_aa, Some("deep")),
        Command::with(&["a"], c1, &mut flags_a, None),
    ]);
    let mut schema = Schema::with(&mut commands);
    run(&mut schema, p, it, out);
    *out = match if alt { h.try_help(w, &schema) } else { h.help(w, &schema) } {
        Ok(v) => [v as usize, 0],
        Err(v) => [2, v as usize],
    };
}
pub fn r_help(p: &'static mut P, it: &'static mut It, w: &'static mut W, out: &mut [usize; 2]) { write(p, it, w, false, out) }
pub fn r_try_help(p: &'static mut P, it: &'static mut It, w: &'static mut W, out: &mut [usize; 2]) { write(p, it, w, true, out) }
fn deep(p: &mut P, it: &mut It, w: &mut W, alt: bool, out: &mut [usize; 2]) {
    let h = help::Help::with("prog", "about");
    let mut c = [C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8)];
    let [c0, c1, c2, c3, c4, c5, c6, c7, c8] = &mut c;
    let mut f = [F(0), F(1), F(2), F(3)];
    let [f0, f1, f2, f3] = &mut f;
    let (mut h0, mut h1) = (h.flag(), h.flag());
    let mut flags_r = FlagSet::with([Flag::with("zz", FlagMode::Set, f0, None), Flag::with("help", FlagMode::Set, &mut h0, None), Flag::with("middle-one", FlagMode::Toggle, f1, Some("middle"))]);
    let mut flags_z = FlagSet::with([Flag::with("k", FlagMode::Parse, f2, Some("key")), Flag::with("h", FlagMode::Set, &mut h1, Some("help"))]);
    let mut flags_zh = FlagSet::with([Flag::with("last-flag", FlagMode::Toggle, f3, None)]);
    let (mut n0, mut n1, mut n2, mut n3, mut n4, mut n5) = (FlagSet::with([]), FlagSet::with([]), FlagSet::with([]), FlagSet::with([]), FlagSet::with([]), FlagSet::with([]));
    let mut commands = CommandSet::with([
        Command::with(&["long", "k"], c7, &mut n5, None),
        Command::with(&["k", "z"], c4, &mut flags_z, Some("z")),
        Command::with(&["kk"], c6, &mut n4, Some("kk")),
        Command::with(&["k", "long-name"], c3, &mut n2, None),
        Command::with(&["k"], c1, &mut n0, Some("k")),
        Command::with(&[], c0, &mut flags_r, None),
        Command::with(&["longest"], c8, &mut n3, None),
        Command::with(&["k", "a"], c2, &mut n1, Some("a")),
        Command::with(&["k", "z", "h"], c5, &mut flags_zh, None),
    ]);
    let mut schema = Schema::with(&mut commands);
    run(&mut schema, p, it, out);
    *out = match if alt { h.try_help(w, &schema) } else { h.help(w, &schema) } {
        Ok(v) => [v as usize, 0],
        Err(v) => [2, v as usize],
    };
}
pub fn r_help2(p: &'static mut P, it: &'static mut It, w: &'static mut W, out: &mut [usize; 2]) { deep(p, it, w, false, out) }
pub fn r_try_help2(p: &'static mut P, it: &'static mut It, w: &'static mut W, out: &mut [usize; 2]) { deep(p, it, w, true, out) }

fn wide(p: &mut P, it: &mut It, w: &mut W, alt: bool, out: &mut [usize; 2]) {
    let h = help::Help::with("prog", "about");
    let mut h0 = h.flag();
    let [c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c30, c31, c32, c33, c34, c35, c36, c37, c38, c39, c40, c41, c42, c43, c44, c45, c46] = &mut [C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12), C(13), C(14), C(15), C(16), C(17), C(18), C(19), C(20), C(21), C(22), C(23), C(24), C(25), C(26), C(27), C(28), C(29), C(30), C(31), C(32), C(33), C(34), C(35), C(36), C(37), C(38), C(39), C(40), C(41), C(42), C(43), C(44), C(45), C(46)];
    let [f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20] = &mut [F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11), F(12), F(13), F(14), F(15), F(16), F(17), F(18), F(19), F(20)];
    let mut flags_r = FlagSet::with([Flag::with("help", FlagMode::Set, &mut h0, None), Flag::with("f00", FlagMode::Set, f0, Some("")), Flag::with("f01", FlagMode::Toggle, f1, None), Flag::with("f02", FlagMode::Parse, f2, Some("f2")), Flag::with("f03", FlagMode::Set, f3, Some("")), Flag::with("f04", FlagMode::Toggle, f4, None), Flag::with("f05", FlagMode::Parse, f5, Some("f5")), Flag::with("f06", FlagMode::Set, f6, Some("")), Flag::with("f07", FlagMode::Toggle, f7, None), Flag::with("f08", FlagMode::Parse, f8, Some("f8")), Flag::with("f09", FlagMode::Set, f9, Some("")), Flag::with("f10", FlagMode::Toggle, f10, None), Flag::with("f11", FlagMode::Parse, f11, Some("f11")), Flag::with("f12", FlagMode::Set, f12, Some("")), Flag::with("f13", FlagMode::Toggle, f13, None), Flag::with("f14", FlagMode::Parse, f14, Some("f14")), Flag::with("f15", FlagMode::Set, f15, Some("")), Flag::with("f16", FlagMode::Toggle, f16, None), Flag::with("f17", FlagMode::Parse, f17, Some("f17")), Flag::with("f18", FlagMode::Set, f18, Some("")), Flag::with("f19", FlagMode::Toggle, f19, None), Flag::with("flag-xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", FlagMode::Set, f20, Some(""))]);
    let mut n1 = FlagSet::with([]); let mut n2 = FlagSet::with([]); let mut n3 = FlagSet::with([]); let mut n4 = FlagSet::with([]); let mut n5 = FlagSet::with([]); let mut n6 = FlagSet::with([]); let mut n7 = FlagSet::with([]); let mut n8 = FlagSet::with([]); let mut n9 = FlagSet::with([]); let mut n10 = FlagSet::with([]); let mut n11 = FlagSet::with([]); let mut n12 = FlagSet::with([]); let mut n13 = FlagSet::with([]); let mut n14 = FlagSet::with([]); let mut n15 = FlagSet::with([]); let mut n16 = FlagSet::with([]); let mut n17 = FlagSet::with([]); let mut n18 = FlagSet::with([]); let mut n19 = FlagSet::with([]); let mut n20 = FlagSet::with([]); let mut n21 = FlagSet::with([]); let mut n22 = FlagSet::with([]); let mut n23 = FlagSet::with([]); let mut n24 = FlagSet::with([]); let mut n25 = FlagSet::with([]); let mut n26 = FlagSet::with([]); let mut n27 = FlagSet::with([]); let mut n28 = FlagSet::with([]); let mut n29 = FlagSet::with([]); let mut n30 = FlagSet::with([]); let mut n31 = FlagSet::with([]); let mut n32 = FlagSet::with([]); let mut n33 = FlagSet::with([]); let mut n34 = FlagSet::with([]); let mut n35 = FlagSet::with([]); let mut n36 = FlagSet::with([]); let mut n37 = FlagSet::with([]); let mut n38 = FlagSet::with([]); let mut n39 = FlagSet::with([]); let mut n40 = FlagSet::with([]); let mut n41 = FlagSet::with([]); let mut n42 = FlagSet::with([]); let mut n43 = FlagSet::with([]); let mut n44 = FlagSet::with([]); let mut n45 = FlagSet::with([]); let mut n46 = FlagSet::with([]);
    let mut commands = CommandSet::with([
        Command::with(&["p", "s23"], c25, &mut n25, Some("text")),
        Command::with(&["r", "l"], c46, &mut n46, None),
        Command::with(&["p", "s09"], c11, &mut n11, Some("")),
        Command::with(&["p", "s15"], c17, &mut n17, Some("")),
        Command::with(&["p", "s01"], c3, &mut n3, None),
        Command::with(&["p", "s20"], c22, &mut n22, Some("text")),
        Command::with(&["p", "s17"], c19, &mut n19, Some("text")),
        Command::with(&["q", "k"], c43, &mut n43, None),
        Command::with(&["p", "s08"], c10, &mut n10, Some("text")),
        Command::with(&["p", "s04"], c6, &mut n6, None),
        Command::with(&["p", "command-yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"], c42, &mut n42, Some("tttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttt")),
        Command::with(&["p", "s24"], c26, &mut n26, Some("")),
        Command::with(&["p", "s22"], c24, &mut n24, None),
        Command::with(&["r", "k", "two"], c44, &mut n44, None),
        Command::with(&["p", "s11"], c13, &mut n13, Some("text")),
        Command::with(&["p", "s19"], c21, &mut n21, None),
        Command::with(&["p", "s07"], c9, &mut n9, None),
        Command::with(&["p"], c1, &mut n1, Some("")),
        Command::with(&["p", "s16"], c18, &mut n18, None),
        Command::with(&["p", "s03"], c5, &mut n5, Some("")),
        Command::with(&["p", "s00"], c2, &mut n2, Some("")),
        Command::with(&["p", "s37"], c39, &mut n39, None),
        Command::with(&["p", "s29"], c31, &mut n31, Some("text")),
        Command::with(&["p", "s33"], c35, &mut n35, Some("")),
        Command::with(&["p", "s26"], c28, &mut n28, Some("text")),
        Command::with(&["p", "s27"], c29, &mut n29, Some("")),
        Command::with(&["p", "s05"], c7, &mut n7, Some("text")),
        Command::with(&["p", "s39"], c41, &mut n41, Some("")),
        Command::with(&["p", "s25"], c27, &mut n27, None),
        Command::with(&["p", "s18"], c20, &mut n20, Some("")),
        Command::with(&["p", "s31"], c33, &mut n33, None),
        Command::with(&["p", "s30"], c32, &mut n32, Some("")),
        Command::with(&["p", "s34"], c36, &mut n36, None),
        Command::with(&["p", "s10"], c12, &mut n12, None),
        Command::with(&["p", "s12"], c14, &mut n14, Some("")),
        Command::with(&["p", "s14"], c16, &mut n16, Some("text")),
        Command::with(&["p", "s38"], c40, &mut n40, Some("text")),
        Command::with(&[], c0, &mut flags_r, None),
        Command::with(&["p", "s02"], c4, &mut n4, Some("text")),
        Command::with(&["r", "k", "two", "three"], c45, &mut n45, Some("")),
        Command::with(&["p", "s28"], c30, &mut n30, None),
        Command::with(&["p", "s36"], c38, &mut n38, Some("")),
        Command::with(&["p", "s21"], c23, &mut n23, Some("")),
        Command::with(&["p", "s06"], c8, &mut n8, Some("")),
        Command::with(&["p", "s32"], c34, &mut n34, Some("text")),
        Command::with(&["p", "s35"], c37, &mut n37, Some("text")),
        Command::with(&["p", "s13"], c15, &mut n15, None),
    ]);
    let mut schema = Schema::with(&mut commands);
    run(&mut schema, p, it, out);
    *out = match if alt { h.try_help(w, &schema) } else { h.help(w, &schema) } {
        Ok(v) => [v as usize, 0],
        Err(v) => [2, v as usize],
    };
}
pub fn r_help3(p: &'static mut P, it: &'static mut It, w: &'static mut W, out: &mut [usize; 2]) { wide(p, it, w, false, out) }
pub fn r_try_help3(p: &'static mut P, it: &'static mut It, w: &'static mut W, out: &mut [usize; 2]) { wide(p, it, w, true, out) }
