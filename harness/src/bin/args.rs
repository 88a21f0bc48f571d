//! C01 command selection, C02 flags, C03 parameters, C04 diagnostics and
//! stops, C05 help, C06 collectors.

use core::cell::{Cell, RefCell};
use core::ops::ControlFlow as Flow;
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use osi::args::{self, help, Command, CommandSet, Flag, FlagMode, FlagSet, FlagSetRef, Schema, Shared};
use osi::compat::OsStr;
use std::rc::Rc;

// ---------------------------------------------------------------------------
// Memory that lives as long as a case

struct Arena(RefCell<Vec<(*mut u8, unsafe fn(*mut u8))>>);

unsafe fn free<T>(p: *mut u8) {
    drop(unsafe { Box::from_raw(p as *mut T) });
}

impl Arena {
    fn new() -> Self {
        Self(RefCell::new(Vec::new()))
    }

    /// The reference must not be used after the arena is gone.
    #[allow(clippy::mut_from_ref)]
    fn put<T: 'static>(&self, v: T) -> &'static mut T {
        let p = Box::into_raw(Box::new(v));
        self.0.borrow_mut().push((p as *mut u8, free::<T>));
        unsafe { &mut *p }
    }

    fn os(&self, v: &[u8]) -> &'static OsStr {
        let v: &'static Vec<u8> = self.put(v.to_vec());
        unsafe { OsStr::from_encoded_bytes_unchecked(v) }
    }

    fn str(&self, v: &str) -> &'static str {
        let v: &'static String = self.put(v.to_string());
        v
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        for (p, f) in self.0.borrow_mut().drain(..).rev() {
            unsafe { f(p) };
        }
    }
}

// ---------------------------------------------------------------------------
// Layouts

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Mode {
    Set,
    Toggle,
    Parse,
}

impl Mode {
    fn real(self) -> FlagMode {
        match self {
            Mode::Set => FlagMode::Set,
            Mode::Toggle => FlagMode::Toggle,
            Mode::Parse => FlagMode::Parse,
        }
    }

    fn of(v: FlagMode) -> Self {
        match v {
            FlagMode::Set => Mode::Set,
            FlagMode::Toggle => Mode::Toggle,
            FlagMode::Parse => Mode::Parse,
        }
    }
}

#[derive(Clone, Debug)]
struct FlagSpec {
    name: String,
    mode: Mode,
    info: Option<String>,
}

#[derive(Clone, Debug)]
struct CmdSpec {
    path: Vec<String>,
    flags: Vec<FlagSpec>,
    info: Option<String>,
}

macro_rules! sized {
    ($v:expr, $with:path, $arena:expr, $($n:literal)*) => {
        match $v.len() {
            $($n => match <[_; $n]>::try_from($v) {
                Ok(a) => $arena.put($with(a)).as_mut(),
                Err(_) => unreachable!(),
            },)*
            _ => unreachable!("size not listed"),
        }
    };
}

fn flag_set<R: 'static>(arena: &Arena, v: Vec<Flag<'static, 'static, R>>) -> &'static mut FlagSetRef<'static, 'static, R> {
    sized!(v, FlagSet::with, arena, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 33 65 129 257 300)
}

type FlagRep<R> = &'static mut dyn args::FlagReport<'static, R>;
type CmdRep<R> = &'static mut dyn args::CommandReport<'static, R>;

/// Build the layout, registering commands in the given order.
fn build<R: 'static>(
    arena: &Arena,
    specs: &[CmdSpec],
    order: &[usize],
    flag: &mut dyn FnMut(usize, usize) -> FlagRep<R>,
    cmd: &mut dyn FnMut(usize) -> CmdRep<R>,
) -> &'static mut Schema<'static, 'static, R> {
    let mut cmds: Vec<Command<'static, 'static, R>> = Vec::new();
    for &c in order {
        let s = &specs[c];
        let mut flags = Vec::new();
        for (f, fs) in s.flags.iter().enumerate() {
            flags.push(Flag::with(arena.str(&fs.name), fs.mode.real(), flag(c, f), fs.info.as_deref().map(|v| arena.str(v))));
        }
        let flags = flag_set(arena, flags);
        let path: Vec<&'static str> = s.path.iter().map(|v| arena.str(v)).collect();
        let path: &'static Vec<&'static str> = arena.put(path);
        cmds.push(Command::with(path, cmd(c), flags, s.info.as_deref().map(|v| arena.str(v))));
    }
    let set = sized!(cmds, CommandSet::with, arena,
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 33 65 129 257 300);
    arena.put(Schema::with(set))
}

/// Indices of the commands in path order.
fn sorted(specs: &[CmdSpec]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..specs.len()).collect();
    v.sort_by(|a, b| specs[*a].path.cmp(&specs[*b].path));
    v
}

const WORDS: &[&str] = &["a", "b", "ab", "foo", "fo", "foob", "x", "é", "-", "", "A", "no", "a b", "z", "-x", "b\u{0}"];
const NAMES: &[&str] = &["a", "b", "ab", "no-a", "no-no-a", "help", "", "é", "no-", "no-b", "verbose", "foo", "a-b", "A", "no", "-a", "a=b"];

fn flag_specs(g: &mut G, max: usize) -> Vec<FlagSpec> {
    let mut flags: Vec<FlagSpec> = Vec::new();
    let n = g.small(max);
    for _ in 0..n {
        let name = g.pick(NAMES).to_string();
        if flags.iter().any(|f| f.name == name) {
            continue;
        }
        let mode = *g.pick(&[Mode::Set, Mode::Toggle, Mode::Parse]);
        let info = if g.bool() { Some(g.text(6)) } else { None };
        flags.push(FlagSpec { name, mode, info });
    }
    flags
}

fn layout(g: &mut G, max: usize) -> Vec<CmdSpec> {
    let mut specs: Vec<CmdSpec> = Vec::new();
    let n = if g.chance(1, 40) { 0 } else { g.size(1, max) };
    let words = if g.bool() { &WORDS[..4] } else { WORDS };
    for _ in 0..n {
        // Extend a known path, cut one, or start over.
        let mut path: Vec<String> = match g.weighted(&[3, 2, 1]) {
            0 if !specs.is_empty() => g.pick(&specs).path.clone(),
            1 => Vec::new(),
            _ if !specs.is_empty() => {
                let mut p = g.pick(&specs).path.clone();
                p.truncate(g.below(p.len() + 1));
                p
            },
            _ => Vec::new(),
        };
        let more = g.small(3);
        for _ in 0..more {
            path.push(g.pick(words).to_string());
        }
        path.truncate(6);
        if specs.iter().any(|s| s.path == path) {
            continue;
        }
        let flags = flag_specs(g, 4);
        let info = if g.bool() { Some(g.text(6)) } else { None };
        specs.push(CmdSpec { path, flags, info });
    }
    specs
}

fn order(g: &mut G, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    while !left.is_empty() {
        out.push(left.remove(g.below(left.len())));
    }
    out
}

// ---------------------------------------------------------------------------
// Argument lists

fn raw_bytes(g: &mut G) -> Vec<u8> {
    match g.below(5) {
        0 => vec![0xff],
        1 => b"a\xff".to_vec(),
        2 => b"\xc3".to_vec(),
        3 => b"x=\x80y".to_vec(),
        _ => g.bytes(6),
    }
}

fn any_arg(g: &mut G, specs: &[CmdSpec]) -> Vec<u8> {
    match g.weighted(&[5, 3, 1, 1, 1, 1]) {
        0 => flag_arg(g, specs),
        1 => {
            if !specs.is_empty() && g.chance(3, 4) {
                let p = &g.pick(specs).path.clone();
                if !p.is_empty() {
                    return g.pick(p).as_bytes().to_vec();
                }
            }
            g.pick(WORDS).as_bytes().to_vec()
        },
        2 => g.pick(&["-", "", "-x", "-ab", "--", "---", "-=", "--=", "--=v", "=", "-é", "a=b", "-\u{0}"]).as_bytes().to_vec(),
        3 => raw_bytes(g),
        4 => {
            let mut v = g.pick(&["--", "-", "--a=", "--no-", "--=", ""]).as_bytes().to_vec();
            v.extend(raw_bytes(g));
            v
        },
        _ => g.text(4).into_bytes(),
    }
}

fn flag_arg(g: &mut G, specs: &[CmdSpec]) -> Vec<u8> {
    flag_arg_at(g, specs, None)
}

/// A flag, preferably of a command on the way to a path.
fn flag_arg_at(g: &mut G, specs: &[CmdSpec], path: Option<&[String]>) -> Vec<u8> {
    let mut all: Vec<&FlagSpec> = specs.iter().flat_map(|s| &s.flags).collect();
    if let Some(path) = path {
        let near: Vec<&FlagSpec> = specs.iter().filter(|s| path.starts_with(&s.path)).flat_map(|s| &s.flags).collect();
        if !near.is_empty() && g.chance(3, 4) {
            all = near;
        }
    }
    let name = if !all.is_empty() && g.chance(4, 5) { g.pick(&all).name.clone() } else { g.pick(NAMES).to_string() };
    let mut v = b"--".to_vec();
    let no = g.weighted(&[12, 3, 1]);
    for _ in 0..no {
        v.extend(b"no-");
    }
    v.extend(name.as_bytes());
    match g.weighted(&[6, 2, 1]) {
        0 => {},
        1 => {
            v.push(b'=');
            v.extend(g.pick(&["", "v", "a=b", "--a", "é", "no"]).as_bytes());
        },
        _ => {
            v.push(b'=');
            v.extend(raw_bytes(g));
        },
    }
    v
}

/// Words of some command's path with other arguments in between.
fn argv(g: &mut G, specs: &[CmdSpec]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    if !specs.is_empty() {
        let mut path = g.pick(specs).path.clone();
        if g.chance(1, 3) {
            path.truncate(g.below(path.len() + 1));
        }
        for (i, w) in path.iter().enumerate() {
            let n = if g.chance(1, 4) { g.small(2) } else { 0 };
            for _ in 0..n {
                out.push(flag_arg_at(g, specs, Some(&path[..i])));
            }
            out.push(w.clone().into_bytes());
        }
        let n = g.small(4);
        for _ in 0..n {
            out.push(flag_arg_at(g, specs, Some(&path)));
        }
    }
    let n = g.small(8);
    for _ in 0..n {
        out.push(any_arg(g, specs));
    }
    if g.chance(1, 8) {
        let at = g.below(out.len() + 1);
        out.insert(at, b"--".to_vec());
    }
    if g.chance(1, 5) && !out.is_empty() {
        let at = g.below(out.len());
        out[at] = alike(g, &out[at]);
        g.label("almost a known argument");
    }
    out
}

/// Something that is almost the given argument.
fn alike(g: &mut G, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    let lead = v.iter().take(2).take_while(|b| **b == b'-').count();
    let at = lead + g.below(v.len() - lead + 1);
    match g.below(12) {
        // Another case, of one character or of all.
        0 => v.iter_mut().skip(at).take(1).for_each(|b| if b.is_ascii_alphabetic() { *b ^= 0x20 }),
        1 => v.make_ascii_uppercase(),
        2 => v.make_ascii_lowercase(),
        // Another separator.
        3 => v.iter_mut().skip(lead).for_each(|b| if *b == b'-' { *b = b'_' }),
        4 => v.iter_mut().skip(lead).for_each(|b| if *b == b'-' { *b = b' ' }),
        5 => v.iter_mut().for_each(|b| if *b == b'=' { *b = b':' }),
        // More or less at either end.
        6 => v.truncate(at),
        7 => v.insert(lead, *b" \t\0".get(g.below(3)).unwrap()),
        8 => v.push(*g.pick(b" \t\n\0,;/")),
        9 => v.extend_from_slice(*g.pick(&["\u{301}".as_bytes(), "\u{feff}".as_bytes(), "s".as_bytes(), b"\r\n", b"\xff"])),
        // Quoted, or twice.
        10 => {
            v.insert(lead, b'"');
            v.push(b'"');
        },
        _ => {
            let w = v[lead..].to_vec();
            v.extend(w);
        },
    }
    v
}

// ---------------------------------------------------------------------------
// Events

#[derive(Clone, Debug, Eq, PartialEq)]
enum Err {
    Shorts(Vec<u8>),
    /// Name as given, which might be no text at all.
    Unknown(Vec<u8>),
    UnknownBytes(Vec<u8>),
    Toggle(Vec<u8>),
    Value(Vec<u8>, Vec<u8>),
    NoValue(Vec<u8>),
    ValueUtf8(Vec<u8>, Vec<u8>),
    Param(Vec<u8>),
    ParamUtf8(Vec<u8>),
    Other,
}

fn own(e: &args::Error<'_>) -> Err {
    let b = |v: &OsStr| v.as_encoded_bytes().to_vec();
    match e {
        args::Error::Uncaught(_) => Err::Other,
        args::Error::ShortsUnknown { shorts } => Err::Shorts(b(shorts)),
        args::Error::FlagUnknown { flag } => {
            if flag.to_str().is_ok() {
                Err::Unknown(b(flag))
            } else {
                // Whether dashes are part of what is no text is left open.
                let v = b(flag);
                Err::UnknownBytes(v.strip_prefix(b"--").map(|v| v.to_vec()).unwrap_or(v))
            }
        },
        args::Error::FlagUnexpectedToggle { flag } => Err::Toggle(b(flag)),
        args::Error::FlagUnexpectedValue { flag, value } => Err::Value(b(flag), b(value)),
        args::Error::FlagNoValue { flag } => Err::NoValue(b(flag)),
        args::Error::FlagValueNotUtf8 { flag, value } => Err::ValueUtf8(b(flag), b(value)),
        args::Error::ParameterUnexpected { parameter } => Err::Param(b(parameter)),
        args::Error::ParameterNotUtf8 { parameter } => Err::ParamUtf8(b(parameter)),
    }
}

/// Command and flag by registration, position of the current command, name.
type At = (usize, usize, usize, Vec<u8>);

#[derive(Clone, Debug, Eq, PartialEq)]
enum Ev {
    Set(At),
    Toggle(At, bool),
    Parse(At, Vec<u8>),
    Param(usize, Option<Vec<u8>>),
    Err(Err),
}

#[derive(Default)]
struct Log {
    evs: Vec<Ev>,
    stop: Option<(usize, u64)>,
}

type Logger = Rc<RefCell<Log>>;

fn take(log: &Logger, ev: Ev) -> Flow<u64> {
    let mut log = log.borrow_mut();
    log.evs.push(ev);
    match log.stop {
        Some((at, with)) if log.evs.len() == at + 1 => Flow::Break(with),
        _ => Flow::Continue(()),
    }
}

struct Sink(Logger);
struct FlagLog(Logger, usize, usize);
struct CmdLog(Logger, usize);

impl<'a> args::ParserReport<'a, u64> for Sink {
    fn report_error(&mut self, _: &mut args::ParserContext<'_, 'a, u64>, error: args::Error<'a>) -> Flow<u64> {
        take(&self.0, Ev::Err(own(&error)))
    }
}

impl FlagLog {
    fn at(&self, c: &mut args::FlagContext<'_, '_, u64>) -> At {
        (self.1, self.2, c.command_current(), c.flag_arg().as_encoded_bytes().to_vec())
    }
}

impl<'a> args::FlagReport<'a, u64> for FlagLog {
    fn report_set(&mut self, c: &mut args::FlagContext<'_, 'a, u64>) -> Flow<u64> {
        let at = self.at(c);
        take(&self.0, Ev::Set(at))
    }
    fn report_toggle(&mut self, c: &mut args::FlagContext<'_, 'a, u64>, value: bool) -> Flow<u64> {
        let at = self.at(c);
        take(&self.0, Ev::Toggle(at, value))
    }
    fn report_parse(&mut self, c: &mut args::FlagContext<'_, 'a, u64>, value: &'a OsStr) -> Flow<u64> {
        let at = self.at(c);
        take(&self.0, Ev::Parse(at, value.as_encoded_bytes().to_vec()))
    }
}

impl<'a> args::CommandReport<'a, u64> for CmdLog {
    fn report_parameter(&mut self, _: &mut args::CommandContext<'_, 'a, u64>, value: Option<&'a OsStr>) -> Flow<u64> {
        take(&self.0, Ev::Param(self.1, value.map(|v| v.as_encoded_bytes().to_vec())))
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
enum End {
    /// Position in the sorted set.
    Selected(usize),
    Nothing,
    Stopped(u64),
}

/// Parse for real, with everything recorded.
fn real(specs: &[CmdSpec], order: &[usize], argv: &[Vec<u8>], stop: Option<(usize, u64)>) -> (Vec<Ev>, End) {
    let arena = Arena::new();
    let log: Logger = Rc::new(RefCell::new(Log { evs: Vec::new(), stop }));
    let schema = build::<u64>(
        &arena,
        specs,
        order,
        &mut |c, f| arena.put(FlagLog(log.clone(), c, f)),
        &mut |c| arena.put(CmdLog(log.clone(), c)),
    );
    let list: Vec<&'static OsStr> = argv.iter().map(|v| arena.os(v)).collect();
    let mut sink = Sink(log.clone());
    let end = match args::parse(&mut sink, schema, &mut list.into_iter()) {
        Ok(v) => End::Selected(v),
        Err(None) => End::Nothing,
        Err(Some(v)) => End::Stopped(v),
    };
    let evs = log.borrow().evs.clone();
    (evs, end)
}

// ---------------------------------------------------------------------------
// Reference

struct Model<'a> {
    specs: &'a [CmdSpec],
    sorted: Vec<usize>,
    /// Words entered so far.
    key: Vec<String>,
}

impl Model<'_> {
    fn registered(&self, key: &[String]) -> Option<usize> {
        self.specs.iter().position(|s| s.path == key)
    }

    fn position(&self, c: usize) -> usize {
        self.sorted.iter().position(|v| *v == c).unwrap_or(usize::MAX)
    }

    /// Registered commands on the way, the deepest first.
    fn chain(&self) -> Vec<usize> {
        (0..=self.key.len()).rev().filter_map(|n| self.registered(&self.key[..n])).collect()
    }

    fn owner(&self, name: &str) -> Option<(usize, usize)> {
        for c in self.chain() {
            if let Some(f) = self.specs[c].flags.iter().position(|f| f.name == name) {
                return Some((c, f));
            }
        }
        None
    }

    fn param(&self, v: &[u8]) -> Ev {
        match self.registered(&self.key) {
            Some(c) => Ev::Param(c, Some(v.to_vec())),
            None => Ev::Err(Err::Param(v.to_vec())),
        }
    }
}

fn model(specs: &[CmdSpec], argv: &[Vec<u8>]) -> (Vec<Ev>, End) {
    let mut m = Model { specs, sorted: sorted(specs), key: Vec::new() };
    let mut evs = Vec::new();
    let mut words = true;
    let mut flags = true;
    let mut i = 0;
    while i < argv.len() {
        let arg = &argv[i][..];
        i += 1;
        if flags && arg == b"--" {
            words = false;
            flags = false;
            continue;
        }
        if flags && arg.starts_with(b"--") {
            let body = &arg[2..];
            let (name, value) = match body.iter().position(|b| *b == b'=') {
                Some(at) => (&body[..at], Some(body[at + 1..].to_vec())),
                None => (body, None),
            };
            let Ok(name) = core::str::from_utf8(name) else {
                evs.push(Ev::Err(Err::UnknownBytes(body.to_vec())));
                continue;
            };
            let raw = name.as_bytes().to_vec();
            let (owner, no) = match (m.owner(name), name.strip_prefix("no-")) {
                (Some(o), _) => (Some(o), false),
                (None, Some(rest)) => (m.owner(rest), true),
                (None, None) => (None, false),
            };
            let Some((c, f)) = owner else {
                evs.push(Ev::Err(Err::Unknown(raw)));
                continue;
            };
            let at = (c, f, m.position(m.chain()[0]), raw.clone());
            evs.push(match (specs[c].flags[f].mode, no, value) {
                (Mode::Set | Mode::Parse, true, _) => Ev::Err(Err::Toggle(raw)),
                (Mode::Set | Mode::Toggle, _, Some(v)) => Ev::Err(Err::Value(raw, v)),
                (Mode::Set, false, None) => Ev::Set(at),
                (Mode::Toggle, no, None) => Ev::Toggle(at, !no),
                (Mode::Parse, false, Some(v)) => Ev::Parse(at, v),
                (Mode::Parse, false, None) => {
                    i += 1;
                    match argv.get(i - 1) {
                        Some(v) => Ev::Parse(at, v.clone()),
                        None => Ev::Err(Err::NoValue(raw)),
                    }
                },
            });
            continue;
        }
        if flags && arg.len() > 1 && arg[0] == b'-' {
            evs.push(Ev::Err(Err::Shorts(arg[1..].to_vec())));
            continue;
        }
        if words {
            if let Ok(w) = core::str::from_utf8(arg) {
                m.key.push(w.to_string());
                if specs.iter().any(|s| s.path.starts_with(&m.key)) {
                    continue;
                }
                m.key.pop();
            }
            words = false;
        }
        evs.push(m.param(arg));
    }
    match m.registered(&m.key) {
        Some(c) => {
            evs.push(Ev::Param(c, None));
            (evs, End::Selected(m.position(c)))
        },
        None => (evs, End::Nothing),
    }
}

fn show(specs: &[CmdSpec], argv: &[Vec<u8>]) -> String {
    let mut t = String::new();
    for s in specs {
        t += &format!("{:?}", s.path);
        for f in &s.flags {
            t += &format!(" {:?}/{:?}", f.name, f.mode);
        }
        t += "; ";
    }
    let list: Vec<String> = argv.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect();
    format!("{t}<- {list:?}")
}

fn scene(g: &mut G, max: usize) -> (Vec<CmdSpec>, Vec<usize>, Vec<Vec<u8>>) {
    let specs = layout(g, max);
    let order = order(g, specs.len());
    let argv = argv(g, &specs);
    g.note(|| show(&specs, &argv));
    (specs, order, argv)
}

// ---------------------------------------------------------------------------
// Large layouts and argument lists

const MANY: &[usize] = &[4, 10, 16, 33, 65, 129, 257, 300];

/// Texts of up to a few hundred letters that differ in as little as one.
fn long_text(g: &mut G) -> String {
    let n = *g.pick(&[1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300, 1000]);
    let fill = *g.pick(&["w", "w", "w", "é", "-"]);
    let mut v: String = fill.repeat(n / fill.len());
    let mark = g.small(300).to_string();
    let at = match g.below(3) {
        0 => 0,
        1 => v.len(),
        _ => g.below(n / fill.len() + 1) * fill.len(),
    };
    v.insert_str(at, &mark);
    v
}

fn long_flags(g: &mut G, n: usize) -> Vec<FlagSpec> {
    let mut flags: Vec<FlagSpec> = Vec::new();
    let mut taken = std::collections::BTreeSet::new();
    let (style, mode) = (g.below(3), *g.pick(&[Mode::Set, Mode::Toggle, Mode::Parse]));
    for k in 0..n {
        let mut name = match style {
            0 => format!("f{k}"),
            1 => "x".repeat(k + 1),
            _ => long_text(g),
        };
        if g.chance(1, 10) {
            name = format!("no-{name}");
        }
        while !taken.insert(name.clone()) {
            name += &k.to_string();
        }
        let mode = if g.chance(1, 3) { *g.pick(&[Mode::Set, Mode::Toggle, Mode::Parse]) } else { mode };
        flags.push(FlagSpec { name, mode, info: (k % 2 == 0).then(|| "i".repeat(k)) });
    }
    flags
}

fn layout_large(g: &mut G) -> Vec<CmdSpec> {
    let n = *g.pick(MANY);
    let depth = *g.pick(&[1, 2, 4, 8, 17, 40, 70]);
    let style = g.below(3);
    let chain = depth > 4 && g.bool();
    let mut specs: Vec<CmdSpec> = Vec::new();
    let mut taken = std::collections::BTreeSet::new();
    for k in 0..n {
        let mut path: Vec<String> = if chain && k > 0 && g.chance(15, 16) {
            specs[k - 1].path.clone()
        } else if k > 0 && g.chance(3, 4) {
            let p = specs[if g.bool() { k - 1 } else { g.below(k) }].path.clone();
            let cut = if g.chance(1, 4) { g.below(p.len() + 1) } else { p.len() };
            p[..cut].to_vec()
        } else {
            Vec::new()
        };
        let more = if g.chance(1, 8) { 1 + g.below(6) } else { 1 };
        for _ in 0..more {
            path.push(match style {
                0 => g.pick(WORDS).to_string(),
                1 => long_text(g),
                _ => format!("c{}", g.below(2 * n)),
            });
        }
        path.truncate(depth);
        if k == 0 && g.bool() {
            path.clear();
        }
        while !taken.insert(path.clone()) {
            path.pop();
            path.push(format!("s{k}"));
        }
        specs.push(CmdSpec { path, flags: Vec::new(), info: (k % 2 == 0).then(|| "i".repeat(k)) });
    }
    // Flags on some, many on a few.
    for i in 0..3 {
        let c = if i == 0 && specs[0].path.is_empty() { 0 } else { g.below(n) };
        let n = *g.pick(MANY);
        specs[c].flags = long_flags(g, n);
    }
    let some = g.below(6);
    for _ in 0..some {
        let c = g.below(n);
        specs[c].flags = flag_specs(g, 6);
    }
    specs
}

fn long_bytes(g: &mut G) -> Vec<u8> {
    let n = *g.pick(&[0, 1, 127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000]);
    let (a, b) = (*g.pick(b"ab=- \xff"), *g.pick(b"xy=-\x80"));
    let mut v = vec![a; n];
    if n > 0 {
        let at = *g.pick(&[0, n / 2, n - 1]);
        v[at] = b;
    }
    v
}

fn argv_large(g: &mut G, specs: &[CmdSpec]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let rich: Vec<usize> = (0..specs.len()).filter(|c| specs[*c].flags.len() > 3).collect();
    let c = if !rich.is_empty() && g.chance(7, 8) { *g.pick(&rich) } else { g.below(specs.len()) };
    let mut path = specs[c].path.clone();
    if g.chance(1, 4) {
        // A word that is almost one of the known ones.
        let at = g.below(path.len() + 1);
        if let Some(w) = path.get_mut(at) {
            match g.below(3) {
                0 => w.push('w'),
                1 => {
                    w.pop();
                },
                _ => w.insert(0, 'w'),
            }
        }
    }
    let n = *g.pick(&[0, 3, 20, 100, 300, 700]);
    let step = 1 + n / (path.len() + 1);
    let mut big = 3;
    let mut put = |g: &mut G, at: &[String], out: &mut Vec<Vec<u8>>| {
        if g.chance(1, 30) && big > 0 {
            big -= 1;
            let near: Vec<&FlagSpec> = specs.iter().filter(|s| at.starts_with(&s.path)).flat_map(|s| &s.flags).collect();
            let mut v = match g.below(4) {
                0 => b"--".to_vec(),
                1 => b"-".to_vec(),
                _ if !near.is_empty() => format!("--{}=", g.pick(&near).name).into_bytes(),
                _ => b"--unknown=".to_vec(),
            };
            v.extend(long_bytes(g));
            out.push(v);
        } else {
            let mut v = flag_arg_at(g, specs, Some(at));
            if g.chance(1, 20) {
                // Almost one of the known flags.
                match g.below(3) {
                    0 => v.push(b'w'),
                    1 => {
                        v.pop();
                    },
                    _ => v.insert(2.min(v.len()), b'w'),
                }
            }
            out.push(v);
        }
    };
    for (i, w) in path.iter().enumerate() {
        if n > 0 && g.chance(1, 4) {
            let k = g.below(step);
            for _ in 0..k {
                put(g, &path[..i], &mut out);
            }
        }
        out.push(w.clone().into_bytes());
    }
    while out.len() < n {
        if g.chance(2, 3) {
            put(g, &path, &mut out);
        } else if g.chance(1, 20) && n < 300 {
            out.push(long_bytes(g));
        } else {
            out.push(g.pick(WORDS).as_bytes().to_vec());
        }
    }
    if g.chance(1, 6) {
        let at = g.below(out.len() + 1);
        out.insert(at, b"--".to_vec());
    }
    out
}

fn scene_large(g: &mut G) -> (Vec<CmdSpec>, Vec<usize>, Vec<Vec<u8>>) {
    let specs = layout_large(g);
    let order = order(g, specs.len());
    let argv = argv_large(g, &specs);
    g.note(|| show(&specs, &argv));
    g.label_if(specs.len() > 100, "over 100 commands");
    g.label_if(specs.iter().any(|s| s.path.len() > 16), "over 16 words");
    g.label_if(argv.len() > 256, "over 256 arguments");
    g.label_if(argv.iter().any(|v| v.len() > 65535), "over 64 KiB in an argument");
    (specs, order, argv)
}

/// Compare everything of a kind in large scenes.
fn large(g: &mut G, what: &str, kind: fn(&Ev) -> bool, end: bool) -> Outcome {
    let (specs, order, argv) = scene_large(g);
    let (want, want_end) = model(&specs, &argv);
    let (got, got_end) = real(&specs, &order, &argv, None);
    let (want, got) = (project(&want, kind), project(&got, kind));
    g.label_if(matches!(want_end, End::Selected(_)), "selected");
    g.nontrivial_if(specs.len() > 30 && (end || !want.is_empty()));
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "{what} {i} of {}", show(&specs, &argv));
    }
    ensure_eq!(got.len(), want.len(), "number of {what} for {}", show(&specs, &argv));
    if end {
        ensure_eq!(got_end, want_end, "selection of {}", show(&specs, &argv));
    }
    Ok(())
}

fn c01_huge(g: &mut G) -> Outcome {
    large(g, "collectors called", |e| matches!(e, Ev::Param(_, None)), true)
}

fn c02_huge(g: &mut G) -> Outcome {
    large(g, "flags delivered", is_flag, false)
}

fn c03_huge(g: &mut G) -> Outcome {
    large(g, "parameters delivered", is_param, false)
}

fn c04_huge(g: &mut G) -> Outcome {
    large(g, "reports", |_| true, true)
}

/// Stop somewhere in a large scene.
fn c04_huge_stop(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene_large(g);
    let (want, _) = model(&specs, &argv);
    if want.is_empty() {
        return Ok(());
    }
    let at = g.below(want.len());
    let with = g.draw(1 << 30);
    g.nontrivial_if(at + 1 < want.len());
    let (got, end) = real(&specs, &order, &argv, Some((at, with)));
    ensure_eq!(end, End::Stopped(with), "outcome of a stop at report {at} of {}", show(&specs, &argv));
    ensure_eq!(&got[..], &want[..at + 1], "reports until a stop at {at} of {}", show(&specs, &argv));
    Ok(())
}

// ---------------------------------------------------------------------------
// C01

fn c01_select(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene(g, 8);
    let (evs, want) = model(&specs, &argv);
    let (got_evs, got) = real(&specs, &order, &argv, None);
    let deep = matches!(&want, End::Selected(p) if specs[sorted(&specs)[*p]].path.len() > 1);
    g.label_if(deep, "nested command");
    g.label_if(want == End::Nothing, "nothing selected");
    g.nontrivial_if(specs.len() > 1 && argv.len() > 1);
    ensure_eq!(got, want, "selection of {}", show(&specs, &argv));
    // The selected command is the one whose collector is told about the end.
    let ends = |v: &[Ev]| -> Vec<usize> {
        v.iter().filter_map(|e| if let Ev::Param(c, _) = e { Some(*c) } else { None }).collect()
    };
    ensure_eq!(ends(&got_evs), ends(&evs), "collectors called for {}", show(&specs, &argv));
    // The order of registration is of no importance.
    let straight: Vec<usize> = (0..specs.len()).collect();
    let (_, other) = real(&specs, &straight, &argv, None);
    ensure_eq!(other, got, "selection in another order of registration for {}", show(&specs, &argv));
    Ok(())
}

/// Flags and their values between the words change nothing, nor does anything
/// after the words ended.
fn c01_noise(g: &mut G) -> Outcome {
    let mut specs = layout(g, 10);
    if let Some(s) = specs.first_mut() {
        // A root with flags that are always known.
        s.path.clear();
        s.flags = vec![
            FlagSpec { name: "v".into(), mode: Mode::Toggle, info: None },
            FlagSpec { name: "p".into(), mode: Mode::Parse, info: None },
        ];
    }
    for s in specs.iter_mut().skip(1) {
        s.flags.clear();
    }
    specs = specs.into_iter().enumerate().filter(|(i, s)| *i == 0 || !s.path.is_empty()).map(|v| v.1).collect();
    let order = order(g, specs.len());
    let words: Vec<String> = if specs.is_empty() {
        Vec::new()
    } else {
        let mut p = g.pick(&specs).path.clone();
        let n = g.small(2);
        for _ in 0..n {
            p.push(g.pick(WORDS).to_string());
        }
        p
    };
    let plain: Vec<Vec<u8>> = words.iter().map(|w| w.clone().into_bytes()).collect();
    let mut noisy = Vec::new();
    let mut noise = 0;
    let mut put = |g: &mut G, out: &mut Vec<Vec<u8>>| {
        while g.chance(2, 5) {
            noise += 1;
            match g.below(6) {
                0 => out.push(b"--v".to_vec()),
                1 => out.push(b"--no-v".to_vec()),
                2 => out.push(b"--p=foo".to_vec()),
                3 => {
                    out.push(b"--p".to_vec());
                    out.push(g.pick(WORDS).as_bytes().to_vec());
                },
                4 => {
                    out.push(b"--p".to_vec());
                    out.push(b"--".to_vec());
                },
                _ => out.push(b"--unknown".to_vec()),
            }
        }
    };
    for w in &plain {
        put(g, &mut noisy);
        noisy.push(w.clone());
    }
    put(g, &mut noisy);
    let (_, want) = real(&specs, &order, &plain, None);
    // Once the words ended, further words are of no importance.
    if g.bool() {
        if g.bool() {
            noisy.push(b"--".to_vec());
        } else {
            noisy.push(b"\xff".to_vec());
        }
        let n = g.small(3);
        for _ in 0..n {
            noisy.push(any_arg(g, &specs));
        }
    }
    g.note(|| show(&specs, &noisy));
    g.nontrivial_if(noise > 0 && specs.len() > 1);
    let (_, got) = real(&specs, &order, &noisy, None);
    ensure_eq!(got, want, "selection with flags added in {} vs {:?}", show(&specs, &noisy), words);
    Ok(())
}

/// The compiled set can be inspected.
fn c01_layout(g: &mut G) -> Outcome {
    let specs = layout(g, 24);
    layout_case(g, specs)
}

fn c01_huge_layout(g: &mut G) -> Outcome {
    let specs = layout_large(g);
    layout_case(g, specs)
}

fn layout_case(g: &mut G, specs: Vec<CmdSpec>) -> Outcome {
    let order = order(g, specs.len());
    g.note(|| show(&specs, &[]));
    g.nontrivial_if(specs.len() > 3);
    let arena = Arena::new();
    let log: Logger = Default::default();
    let schema = build::<u64>(
        &arena,
        &specs,
        &order,
        &mut |c, f| arena.put(FlagLog(log.clone(), c, f)),
        &mut |c| arena.put(CmdLog(log.clone(), c)),
    );
    let sorted = sorted(&specs);
    let set = schema.commands();
    ensure_eq!(set.len(), specs.len(), "number of commands");
    ensure_eq!(set.is_empty(), specs.is_empty(), "emptiness");
    let paths: Vec<Vec<String>> = set.iter().map(|c| c.path().iter().map(|v| v.to_string()).collect()).collect();
    let want: Vec<Vec<String>> = sorted.iter().map(|c| specs[*c].path.clone()).collect();
    ensure_eq!(paths, want, "order of the commands");
    ensure_eq!(schema.commands_iter().count(), specs.len(), "iteration");
    for (i, c) in sorted.iter().enumerate() {
        let s = &specs[*c];
        let cmd = set.command_at(i);
        ensure_eq!(cmd.path().len(), s.path.len(), "path of command {i}");
        ensure_eq!(cmd.help_short(), s.info.as_deref(), "help of command {i}");
        ensure_eq!(set.iter_from(i).count(), specs.len() - i, "iteration from {i}");
        // The closest registered command above.
        let up = (0..s.path.len())
            .rev()
            .find_map(|n| sorted.iter().position(|o| specs[*o].path[..] == s.path[..n]));
        ensure_eq!(set.up_from(i), up, "command above {:?} in {}", s.path, show(&specs, &[]));
        ensure_eq!(set.search_by(|v| v.path().iter().copied().cmp(s.path.iter().map(|v| v.as_str()))), Ok(i), "search of {:?}", s.path);
        let mut flags: Vec<&FlagSpec> = s.flags.iter().collect();
        flags.sort_by(|a, b| a.name.cmp(&b.name));
        ensure_eq!(cmd.flags().len(), flags.len(), "number of flags");
        ensure_eq!(cmd.flags().is_empty(), flags.is_empty(), "emptiness of the flags");
        for (k, f) in flags.iter().enumerate() {
            let flag = schema.flag_at((i, k));
            ensure_eq!(flag.name(), f.name.as_str(), "name of flag {k}");
            ensure_eq!(Mode::of(flag.mode()), f.mode, "mode of flag {k}");
            ensure_eq!(flag.help_short(), f.info.as_deref(), "help of flag {k}");
            ensure_eq!(cmd.flags().search_by(|v| v.name().cmp(&f.name)), Ok(k), "search of flag {:?}", f.name);
        }
        let names: Vec<&str> = cmd.flags_iter().map(|f| f.name()).collect();
        let want: Vec<&str> = flags.iter().map(|f| f.name.as_str()).collect();
        ensure_eq!(names, want, "order of the flags");
    }
    Ok(())
}

/// Selection within large sets.
fn c01_large(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene(g, 24);
    let (_, want) = model(&specs, &argv);
    let (_, got) = real(&specs, &order, &argv, None);
    g.nontrivial_if(specs.len() > 8);
    ensure_eq!(got, want, "selection of {}", show(&specs, &argv));
    Ok(())
}

// ---------------------------------------------------------------------------
// C02

fn is_flag(e: &Ev) -> bool {
    matches!(e, Ev::Set(_) | Ev::Toggle(..) | Ev::Parse(..))
}

fn project(evs: &[Ev], f: impl Fn(&Ev) -> bool) -> Vec<Ev> {
    evs.iter().filter(|e| f(e)).cloned().collect()
}

fn c02_flags(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene(g, 6);
    let (want, _) = model(&specs, &argv);
    let (got, _) = real(&specs, &order, &argv, None);
    let (want, got) = (project(&want, is_flag), project(&got, is_flag));
    let mut up = false;
    for e in &want {
        match e {
            Ev::Set(a) | Ev::Toggle(a, _) | Ev::Parse(a, _) => {
                up |= sorted(&specs)[a.2] != a.0;
            },
            _ => {},
        }
    }
    g.label_if(up, "flag of an upper command");
    g.label_if(want.iter().any(|e| matches!(e, Ev::Toggle(_, false))), "negated");
    g.label_if(want.iter().any(|e| matches!(e, Ev::Parse(..))), "value");
    g.nontrivial_if(!want.is_empty());
    ensure_eq!(got, want, "flags delivered for {}", show(&specs, &argv));
    Ok(())
}

/// A chain of commands that share flag names, flags given at every level.
fn c02_shadow(g: &mut G) -> Outcome {
    let depth = 1 + g.below(5);
    let words: Vec<String> = (0..depth).map(|_| g.pick(&WORDS[..5]).to_string()).collect();
    let mut specs = Vec::new();
    for n in 0..=depth {
        if n < depth && g.chance(1, 3) {
            continue;
        }
        let flags = flag_specs(g, 6);
        specs.push(CmdSpec { path: words[..n].to_vec(), flags, info: None });
    }
    // Siblings must not be seen.
    let more = g.small(3);
    for _ in 0..more {
        let mut path = words[..g.below(depth + 1)].to_vec();
        path.push(g.pick(&WORDS[..7]).to_string());
        if !specs.iter().any(|s| s.path == path) {
            let flags = flag_specs(g, 6);
            specs.push(CmdSpec { path, flags, info: None });
        }
    }
    let mut argv = Vec::new();
    for n in 0..=depth {
        let k = g.small(3);
        for _ in 0..k {
            argv.push(flag_arg_at(g, &specs, Some(&words[..n])));
        }
        if n < depth {
            argv.push(words[n].clone().into_bytes());
        }
    }
    let order = order(g, specs.len());
    g.note(|| show(&specs, &argv));
    let (want, _) = model(&specs, &argv);
    let (got, _) = real(&specs, &order, &argv, None);
    let (want, got) = (project(&want, is_flag), project(&got, is_flag));
    g.nontrivial_if(want.len() > 1);
    ensure_eq!(got, want, "flags delivered for {}", show(&specs, &argv));
    Ok(())
}

/// Value bytes arrive unchanged.
fn c02_values(g: &mut G) -> Outcome {
    let name = g.pick(NAMES).replace('=', "");
    let specs = vec![CmdSpec { path: vec![], flags: vec![FlagSpec { name: name.clone(), mode: Mode::Parse, info: None }], info: None }];
    let mut argv = Vec::new();
    let mut want = Vec::new();
    let n = 1 + g.small(4);
    for _ in 0..n {
        let value = match g.below(3) {
            0 => raw_bytes(g),
            1 => g.bytes(20),
            _ => any_arg(g, &specs),
        };
        let mut arg = format!("--{name}").into_bytes();
        if name.is_empty() || g.bool() {
            arg.push(b'=');
            arg.extend(&value);
            argv.push(arg);
        } else {
            argv.push(arg);
            argv.push(value.clone());
        }
        want.push(Ev::Parse((0, 0, 0, name.clone().into_bytes()), value));
    }
    g.note(|| show(&specs, &argv));
    g.nontrivial_if(true);
    want.push(Ev::Param(0, None));
    let (got, end) = real(&specs, &[0], &argv, None);
    ensure_eq!(got, want, "values delivered for {}", show(&specs, &argv));
    ensure_eq!(end, End::Selected(0), "selection");
    Ok(())
}

// ---------------------------------------------------------------------------
// C03

fn is_param(e: &Ev) -> bool {
    matches!(e, Ev::Param(..) | Ev::Err(Err::Param(_)))
}

fn c03_params(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene(g, 6);
    let (want, _) = model(&specs, &argv);
    let (got, _) = real(&specs, &order, &argv, None);
    let (want, got) = (project(&want, is_param), project(&got, is_param));
    g.label_if(argv.iter().any(|v| v == b"--"), "terminator");
    g.label_if(want.iter().any(|e| matches!(e, Ev::Err(_))), "unexpected");
    g.nontrivial_if(want.len() > 1);
    ensure_eq!(got, want, "parameters delivered for {}", show(&specs, &argv));
    Ok(())
}

/// Everything after the terminator is a parameter.
fn c03_tail(g: &mut G) -> Outcome {
    let specs = layout(g, 6);
    if specs.is_empty() {
        return Ok(());
    }
    let c = g.below(specs.len());
    // Words that would be taken as options never select anything.
    if specs[c].path.iter().any(|w| w.len() > 1 && w.starts_with('-')) {
        return Ok(());
    }
    let order = order(g, specs.len());
    let mut argv: Vec<Vec<u8>> = specs[c].path.iter().map(|v| v.clone().into_bytes()).collect();
    argv.push(b"--".to_vec());
    let n = 1 + g.small(6);
    let mut want = Vec::new();
    for _ in 0..n {
        let a = any_arg(g, &specs);
        want.push(Ev::Param(c, Some(a.clone())));
        argv.push(a);
    }
    want.push(Ev::Param(c, None));
    g.note(|| show(&specs, &argv));
    g.nontrivial_if(true);
    let (got, end) = real(&specs, &order, &argv, None);
    ensure_eq!(got, want, "reports for {}", show(&specs, &argv));
    let at = sorted(&specs).iter().position(|v| *v == c).unwrap_or(0);
    ensure_eq!(end, End::Selected(at), "selection of {}", show(&specs, &argv));
    Ok(())
}

// ---------------------------------------------------------------------------
// C04

fn c04_reports(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene(g, 6);
    let (want, end) = model(&specs, &argv);
    let (got, got_end) = real(&specs, &order, &argv, None);
    let mut bad = 0;
    for e in &want {
        if let Ev::Err(e) = e {
            bad += 1;
            g.label(match e {
                Err::Shorts(_) => "short options",
                Err::Unknown(_) => "unknown flag",
                Err::UnknownBytes(_) => "unknown flag, no text",
                Err::Toggle(_) => "unexpected negation",
                Err::Value(..) => "unexpected value",
                Err::NoValue(_) => "value missing",
                Err::Param(_) => "unexpected parameter",
                _ => "other",
            });
        }
    }
    g.nontrivial_if(bad > 0 && want.len() > bad);
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "report {i} of {}", show(&specs, &argv));
    }
    ensure_eq!(got.len(), want.len(), "number of reports for {}", show(&specs, &argv));
    ensure_eq!(got_end, end, "selection of {}", show(&specs, &argv));
    Ok(())
}

fn c04_stop(g: &mut G) -> Outcome {
    let (specs, order, argv) = scene(g, 5);
    let (want, _) = model(&specs, &argv);
    if want.is_empty() {
        return Ok(());
    }
    let at = g.below(want.len());
    let with = g.draw(1 << 30);
    g.label_if(matches!(want[at], Ev::Err(_)), "by the error sink");
    g.label_if(is_flag(&want[at]), "by a flag");
    g.label_if(matches!(want[at], Ev::Param(_, Some(_))), "by a parameter");
    g.label_if(matches!(want[at], Ev::Param(_, None)), "at the end");
    g.nontrivial_if(at + 1 < want.len());
    let (got, end) = real(&specs, &order, &argv, Some((at, with)));
    ensure_eq!(end, End::Stopped(with), "outcome of a stop at report {at} of {}", show(&specs, &argv));
    ensure_eq!(&got[..], &want[..at + 1], "reports until a stop at {at} of {}", show(&specs, &argv));
    Ok(())
}

/// Mistakes inserted into an argument list leave everything else untouched.
fn c04_insert(g: &mut G) -> Outcome {
    let mut specs = layout(g, 6);
    for s in &mut specs {
        // Names that are inserted below.
        s.flags.retain(|f| f.name != "zz" && f.name != "no-zz");
    }
    let order = order(g, specs.len());
    let argv = argv(g, &specs);
    // Places that are neither values nor after the terminator, by parsing
    // each prefix: a prefix that lacks a value ends in that diagnostic.
    let (base, _) = real(&specs, &order, &argv, None);
    let mut places = Vec::new();
    for n in 0..=argv.len() {
        let (head, _) = model(&specs, &argv[..n]);
        let pending = head.iter().any(|e| matches!(e, Ev::Err(Err::NoValue(_))));
        let mut probe = argv[..n].to_vec();
        probe.push(b"-zz".to_vec());
        let (tail, _) = model(&specs, &probe);
        if !pending && tail.contains(&Ev::Err(Err::Shorts(b"zz".to_vec()))) {
            places.push(n);
        }
    }
    if places.is_empty() {
        return Ok(());
    }
    let n = *g.pick(&places);
    let (arg, err): (&[u8], Err) = match g.below(5) {
        0 => (b"--zz", Err::Unknown(b"zz".to_vec())),
        1 => (b"--zz=5", Err::Unknown(b"zz".to_vec())),
        2 => (b"--no-zz", Err::Unknown(b"no-zz".to_vec())),
        3 => (b"-zz", Err::Shorts(b"zz".to_vec())),
        _ => (b"--zz\xff=5", Err::UnknownBytes(b"zz\xff=5".to_vec())),
    };
    let mut more = argv.clone();
    more.insert(n, arg.to_vec());
    g.note(|| format!("{} mistake at {n}", show(&specs, &more)));
    g.nontrivial_if(n < argv.len() && !base.is_empty());
    let (got, _) = real(&specs, &order, &more, None);
    let mark = Ev::Err(err);
    let found = got.iter().filter(|e| **e == mark).count();
    let before = base.iter().filter(|e| **e == mark).count();
    ensure_eq!(found, before + 1, "diagnostics {mark:?} for {}", show(&specs, &more));
    let rest: Vec<Ev> = got.iter().filter(|e| **e != mark).cloned().collect();
    let base: Vec<Ev> = base.iter().filter(|e| **e != mark).cloned().collect();
    ensure_eq!(rest, base, "other reports once a mistake is inserted at {n} of {}", show(&specs, &more));
    Ok(())
}

// ---------------------------------------------------------------------------
// C05

#[derive(Clone, Debug, Eq, PartialEq)]
enum Line {
    Info(String),
    Section(String),
    Usage(String, Vec<String>),
    Flag(String, Mode, Option<String>, usize),
    Command(String, Option<String>, usize),
}

#[derive(Default)]
struct Page {
    lines: Vec<Line>,
    fail: Option<(usize, u64)>,
}

impl Page {
    fn put(&mut self, line: Line) -> Flow<u64> {
        self.lines.push(line);
        match self.fail {
            Some((at, with)) if self.lines.len() == at + 1 => Flow::Break(with),
            _ => Flow::Continue(()),
        }
    }
}

impl help::Write<u64> for Page {
    fn write_info(&mut self, info: &str) -> Flow<u64> {
        self.put(Line::Info(info.to_string()))
    }
    fn write_section(&mut self, section: &str) -> Flow<u64> {
        self.put(Line::Section(section.to_string()))
    }
    fn write_usage(&mut self, entry: &str, path: &[&str]) -> Flow<u64> {
        self.put(Line::Usage(entry.to_string(), path.iter().map(|v| v.to_string()).collect()))
    }
    fn write_flag(&mut self, flag: &str, mode: FlagMode, info: Option<&str>, width: usize) -> Flow<u64> {
        self.put(Line::Flag(flag.to_string(), Mode::of(mode), info.map(|v| v.to_string()), width))
    }
    fn write_command(&mut self, command: &str, info: Option<&str>, width: usize) -> Flow<u64> {
        self.put(Line::Command(command.to_string(), info.map(|v| v.to_string()), width))
    }
}

fn help_page(specs: &[CmdSpec], c: usize, entry: &str, info: &str) -> Vec<Line> {
    let path = &specs[c].path;
    let mut out = vec![
        Line::Info(info.to_string()),
        Line::Section("Usage".into()),
        Line::Usage(entry.to_string(), path.clone()),
    ];
    let mut flags: Vec<&FlagSpec> = specs[c].flags.iter().collect();
    flags.sort_by(|a, b| a.name.cmp(&b.name));
    if !flags.is_empty() {
        out.push(Line::Section("Flags".into()));
        let width = flags.iter().map(|f| f.name.chars().count()).max().unwrap_or(0);
        for f in flags {
            out.push(Line::Flag(f.name.clone(), f.mode, f.info.clone(), width));
        }
    }
    let below: Vec<&CmdSpec> = sorted(specs)
        .into_iter()
        .map(|c| &specs[c])
        .filter(|s| s.path.len() == path.len() + 1 && s.path.starts_with(path))
        .collect();
    if !below.is_empty() {
        out.push(Line::Section("Commands".into()));
        let last = |s: &CmdSpec| s.path[path.len()].clone();
        let width = below.iter().map(|s| last(s).chars().count()).max().unwrap_or(0);
        for s in below {
            out.push(Line::Command(last(s), s.info.clone(), width));
        }
    }
    out
}

fn c05_help(g: &mut G) -> Outcome {
    let specs = layout(g, 10);
    help_case(g, specs, argv)
}

fn c05_huge(g: &mut G) -> Outcome {
    let mut specs = layout_large(g);
    for s in &mut specs {
        // One more flag must still be of a listed size.
        if s.flags.len() > 16 && g.chance(3, 4) {
            s.flags.pop();
            s.flags.push(FlagSpec { name: "help".into(), mode: Mode::Set, info: None });
        }
    }
    help_case(g, specs, argv_large)
}

type ArgvGen = fn(&mut G, &[CmdSpec]) -> Vec<Vec<u8>>;

fn help_case(g: &mut G, mut specs: Vec<CmdSpec>, argv: ArgvGen) -> Outcome {
    // Flags that ask for help, on some of the commands.
    let mut asks: Vec<(usize, usize)> = Vec::new();
    for (c, s) in specs.iter_mut().enumerate() {
        if let Some(f) = s.flags.iter().position(|f| f.name == "help").filter(|_| s.flags.len() > 16) {
            asks.push((c, f));
        } else if s.flags.len() < 16 && g.chance(1, 2) {
            s.flags.retain(|f| f.name != "help");
            let mode = *g.pick(&[Mode::Set, Mode::Toggle]);
            s.flags.push(FlagSpec { name: "help".into(), mode, info: None });
            asks.push((c, s.flags.len() - 1));
        }
    }
    let order = order(g, specs.len());
    let mut argv = argv(g, &specs);
    let n = g.small(3);
    for _ in 0..n {
        let at = g.below(argv.len() + 1);
        let v: &[u8] = if g.chance(1, 5) { b"--no-help" } else { b"--help" };
        argv.insert(at, v.to_vec());
    }
    let (entry, info) = (g.text(4), g.text(8));
    g.note(|| show(&specs, &argv));

    // What is asked for last counts.
    let (evs, _) = model(&specs, &argv);
    let mut asked = None;
    for e in &evs {
        match e {
            Ev::Set(a) if asks.contains(&(a.0, a.1)) => asked = Some(a.2),
            Ev::Toggle(a, v) if asks.contains(&(a.0, a.1)) => asked = v.then_some(a.2),
            _ => {},
        }
    }
    let asked = asked.map(|v| sorted(&specs)[v]);

    let arena = Arena::new();
    let log: Logger = Default::default();
    let page: &'static help::Help<'static> = arena.put(help::Help::with(arena.str(&entry), arena.str(&info)));
    let schema = build::<u64>(
        &arena,
        &specs,
        &order,
        &mut |c, f| {
            if asks.contains(&(c, f)) {
                arena.put(page.flag())
            } else {
                arena.put(FlagLog(log.clone(), c, f))
            }
        },
        &mut |c| arena.put(CmdLog(log.clone(), c)),
    );
    // Nothing is asked for yet.
    let mut out = Page::default();
    ensure_eq!(page.help(&mut out, schema), Ok(false), "help before parsing");
    ensure!(out.lines.is_empty(), "help output before parsing");
    let list: Vec<&'static OsStr> = argv.iter().map(|v| arena.os(v)).collect();
    let mut sink = Sink(log.clone());
    let _ = args::parse(&mut sink, schema, &mut list.into_iter());

    let want = asked.map(|c| help_page(&specs, c, &entry, &info));
    g.label_if(want.is_some(), "asked");
    g.label_if(want.as_ref().is_some_and(|v| v.contains(&Line::Section("Commands".into()))), "commands listed");
    g.nontrivial_if(want.as_ref().is_some_and(|v| v.len() > 5));
    for way in 0..2 {
        let mut out = Page::default();
        let r = if way == 0 { page.help(&mut out, schema) } else { page.try_help(&mut out, schema) };
        ensure_eq!(r, Ok(want.is_some()), "whether help is written for {}", show(&specs, &argv));
        ensure_eq!(out.lines, want.clone().unwrap_or_default(), "help for {}", show(&specs, &argv));
    }
    if let Some(want) = want {
        // A failing writer is not called again.
        let at = g.below(want.len());
        let with = g.draw(1 << 30);
        for way in 0..2 {
            let mut out = Page { lines: Vec::new(), fail: Some((at, with)) };
            let r = if way == 0 { page.help(&mut out, schema) } else { page.try_help(&mut out, schema) };
            ensure_eq!(r, Err(with), "outcome of a failure at line {at} for {}", show(&specs, &argv));
            ensure_eq!(&out.lines[..], &want[..at + 1], "help until a failure for {}", show(&specs, &argv));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C06

type Os = &'static OsStr;

/// State of a collector.
#[derive(Clone, Debug, Eq, PartialEq)]
enum Held {
    Present(bool),
    One(Vec<u8>),
    Maybe(Option<Vec<u8>>),
    List(Vec<Vec<u8>>),
    MaybeList(Option<Vec<Vec<u8>>>),
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Kind {
    Unit,
    Bool,
    OsStr,
    OptOsStr,
    Str,
    OptStr,
    String,
    OptString,
    VecOsStr,
    OptVecOsStr,
    VecStr,
    OptVecStr,
    VecString,
    OptVecString,
}

const KINDS: &[Kind] = &[
    Kind::Unit,
    Kind::Bool,
    Kind::OsStr,
    Kind::OptOsStr,
    Kind::Str,
    Kind::OptStr,
    Kind::String,
    Kind::OptString,
    Kind::VecOsStr,
    Kind::OptVecOsStr,
    Kind::VecStr,
    Kind::OptVecStr,
    Kind::VecString,
    Kind::OptVecString,
];

impl Kind {
    fn raw(self) -> bool {
        matches!(self, Kind::OsStr | Kind::OptOsStr | Kind::VecOsStr | Kind::OptVecOsStr)
    }

    fn initial(self, old: &[u8]) -> Held {
        match self {
            Kind::Unit | Kind::Bool => Held::Present(!old.is_empty()),
            Kind::OsStr | Kind::Str | Kind::String => Held::One(old.to_vec()),
            Kind::OptOsStr | Kind::OptStr | Kind::OptString => Held::Maybe((!old.is_empty()).then(|| old.to_vec())),
            Kind::VecOsStr | Kind::VecStr | Kind::VecString => {
                Held::List(if old.is_empty() { vec![] } else { vec![old.to_vec()] })
            },
            Kind::OptVecOsStr | Kind::OptVecStr | Kind::OptVecString => {
                Held::MaybeList((!old.is_empty()).then(|| vec![old.to_vec()]))
            },
        }
    }
}

/// What collectors of one flag are read back by.
type Peek = Box<dyn Fn() -> Held>;

fn by(v: &OsStr) -> Vec<u8> {
    v.as_encoded_bytes().to_vec()
}

/// Collector of a kind with what it holds initially, plain or shared between
/// the given number of flags.
fn collector(arena: &Arena, kind: Kind, old: &[u8], cell: usize, n: usize) -> (Vec<FlagRep<()>>, Peek) {
    let os = arena.os(old);
    let st: &'static str = os.to_str().unwrap_or("");
    let some = !old.is_empty();
    fn plain<T: 'static>(arena: &Arena, v: T, peek: fn(&T) -> Held) -> (Vec<FlagRep<()>>, Peek)
    where
        T: args::FlagReport<'static, ()>,
    {
        let p: *mut T = arena.put(v);
        // Read only once parsing is done.
        (vec![unsafe { &mut *p }], Box::new(move || peek(unsafe { &*p })))
    }
    fn refcell<T: 'static>(arena: &Arena, v: T, peek: fn(&T) -> Held, n: usize) -> (Vec<FlagRep<()>>, Peek)
    where
        T: args::FlagReport<'static, ()>,
    {
        let p: &'static RefCell<T> = arena.put(RefCell::new(v));
        ((0..n).map(|_| arena.put(Shared::with(p)) as FlagRep<()>).collect(), Box::new(move || peek(&p.borrow())))
    }
    fn copied<T: Copy + 'static>(arena: &Arena, v: T, peek: fn(&T) -> Held, n: usize) -> (Vec<FlagRep<()>>, Peek)
    where
        T: args::FlagReport<'static, ()>,
    {
        let p: &'static Cell<T> = arena.put(Cell::new(v));
        ((0..n).map(|_| arena.put(Shared::with(p)) as FlagRep<()>).collect(), Box::new(move || peek(&p.get())))
    }
    macro_rules! any {
        ($v:expr, $peek:expr) => {
            match cell {
                0 => plain(arena, $v, $peek),
                _ => refcell(arena, $v, $peek, n),
            }
        };
    }
    macro_rules! copy {
        ($v:expr, $peek:expr) => {
            match cell {
                0 => plain(arena, $v, $peek),
                1 => refcell(arena, $v, $peek, n),
                _ => copied(arena, $v, $peek, n),
            }
        };
    }
    fn list<T>(v: &[T], f: fn(&T) -> Vec<u8>) -> Vec<Vec<u8>> {
        v.iter().map(f).collect()
    }
    match kind {
        Kind::Unit => copy!(some.then_some(()), |v: &Option<()>| Held::Present(v.is_some())),
        Kind::Bool => copy!(some, |v: &bool| Held::Present(*v)),
        Kind::OsStr => copy!(os, |v: &Os| Held::One(by(v))),
        Kind::OptOsStr => copy!(some.then_some(os), |v: &Option<Os>| Held::Maybe(v.map(by))),
        Kind::Str => copy!(st, |v: &&'static str| Held::One(v.as_bytes().to_vec())),
        Kind::OptStr => {
            copy!(some.then_some(st), |v: &Option<&'static str>| Held::Maybe(v.map(|v| v.as_bytes().to_vec())))
        },
        Kind::String => any!(st.to_string(), |v: &String| Held::One(v.clone().into_bytes())),
        Kind::OptString => any!(some.then(|| st.to_string()), |v: &Option<String>| Held::Maybe(
            v.as_ref().map(|v| v.clone().into_bytes())
        )),
        Kind::VecOsStr => {
            any!(if some { vec![os] } else { vec![] }, |v: &Vec<Os>| Held::List(list(v, |v| by(v))))
        },
        Kind::OptVecOsStr => any!(some.then(|| vec![os]), |v: &Option<Vec<Os>>| Held::MaybeList(
            v.as_ref().map(|v| list(v, |v| by(v)))
        )),
        Kind::VecStr => any!(if some { vec![st] } else { vec![] }, |v: &Vec<&'static str>| Held::List(list(v, |v| v
            .as_bytes()
            .to_vec()))),
        Kind::OptVecStr => any!(some.then(|| vec![st]), |v: &Option<Vec<&'static str>>| Held::MaybeList(
            v.as_ref().map(|v| list(v, |v| v.as_bytes().to_vec()))
        )),
        Kind::VecString => any!(if some { vec![st.to_string()] } else { vec![] }, |v: &Vec<String>| Held::List(list(
            v,
            |v| v.clone().into_bytes()
        ))),
        Kind::OptVecString => any!(some.then(|| vec![st.to_string()]), |v: &Option<Vec<String>>| Held::MaybeList(
            v.as_ref().map(|v| list(v, |v| v.clone().into_bytes()))
        )),
    }
}

/// Effect of one use of a flag on what is held.
fn apply(kind: Kind, held: &mut Held, name: &str, ev: &Ev) -> Option<Err> {
    let name = name.as_bytes().to_vec();
    match (ev, held) {
        (Ev::Set(_), Held::Present(v)) => *v = true,
        (Ev::Toggle(_, t), Held::Present(v)) => *v = *t,
        (Ev::Parse(_, value), Held::Present(_)) => return Some(Err::Value(name, value.clone())),
        (Ev::Set(_), _) => return Some(Err::NoValue(name)),
        (Ev::Toggle(_, true), _) => return Some(Err::NoValue(name)),
        (Ev::Toggle(_, false), _) => return Some(Err::Toggle(name)),
        (Ev::Parse(_, value), held) => {
            if !kind.raw() && core::str::from_utf8(value).is_err() {
                return Some(Err::ValueUtf8(name, value.clone()));
            }
            match held {
                Held::One(v) => *v = value.clone(),
                Held::Maybe(v) => *v = Some(value.clone()),
                Held::List(v) => v.push(value.clone()),
                Held::MaybeList(v) => v.get_or_insert_with(Vec::new).push(value.clone()),
                Held::Present(_) => {},
            }
        },
        _ => {},
    }
    None
}

fn value_bytes(g: &mut G) -> Vec<u8> {
    match g.weighted(&[4, 2, 2, 1]) {
        0 => g.text(4).into_bytes(),
        1 => raw_bytes(g),
        2 => g.pick(&["", "--", "--x", "v", "é", "a=b"]).as_bytes().to_vec(),
        _ => g.bytes(8),
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Params {
    Unit,
    VecOsStr,
    OptVecOsStr,
    VecStr,
    OptVecStr,
    VecString,
    OptVecString,
}

fn params(arena: &Arena, kind: Params) -> (CmdRep<()>, Peek) {
    fn plain<T: 'static>(arena: &Arena, v: T, peek: fn(&T) -> Held) -> (CmdRep<()>, Peek)
    where
        T: args::CommandReport<'static, ()>,
    {
        let p: *mut T = arena.put(v);
        (unsafe { &mut *p }, Box::new(move || peek(unsafe { &*p })))
    }
    fn list<T>(v: &[T], f: fn(&T) -> Vec<u8>) -> Vec<Vec<u8>> {
        v.iter().map(f).collect()
    }
    match kind {
        Params::Unit => plain(arena, (), |_| Held::List(vec![])),
        Params::VecOsStr => plain(arena, Vec::<Os>::new(), |v| Held::List(list(v, |v| by(v)))),
        Params::OptVecOsStr => {
            plain(arena, None::<Vec<Os>>, |v| Held::MaybeList(v.as_ref().map(|v| list(v, |v| by(v)))))
        },
        Params::VecStr => plain(arena, Vec::<&'static str>::new(), |v| Held::List(list(v, |v| v.as_bytes().to_vec()))),
        Params::OptVecStr => plain(arena, None::<Vec<&'static str>>, |v| {
            Held::MaybeList(v.as_ref().map(|v| list(v, |v| v.as_bytes().to_vec())))
        }),
        Params::VecString => plain(arena, Vec::<String>::new(), |v| Held::List(list(v, |v| v.clone().into_bytes()))),
        Params::OptVecString => plain(arena, None::<Vec<String>>, |v| {
            Held::MaybeList(v.as_ref().map(|v| list(v, |v| v.clone().into_bytes())))
        }),
    }
}

fn c06_collect(g: &mut G) -> Outcome {
    let n = g.size(0, 14);
    collect_case(g, n, value_bytes)
}

fn c06_huge(g: &mut G) -> Outcome {
    let n = *g.pick(&[3, 30, 64, 127, 128, 129, 255, 256, 257, 400, 1000]);
    collect_case(g, n, |g| if g.chance(1, 60) { long_bytes(g) } else { value_bytes(g) })
}

fn collect_case(g: &mut G, many: usize, value_bytes: fn(&mut G) -> Vec<u8>) -> Outcome {
    // Collectors, each served by one or more flags.
    let mut flags: Vec<FlagSpec> = Vec::new();
    let mut serves: Vec<usize> = Vec::new();
    let mut kinds: Vec<(Kind, usize, usize, Vec<u8>)> = Vec::new();
    let n = 1 + g.small(4);
    for k in 0..n {
        let kind = *g.pick(KINDS);
        let cell = g.below(3);
        let users = if cell == 0 { 1 } else { 1 + g.below(3) };
        let old = if g.chance(1, 3) { b"old".to_vec() } else { vec![] };
        kinds.push((kind, cell, users, old));
        for u in 0..users {
            let natural = matches!(kind, Kind::Unit | Kind::Bool);
            let mode = match (natural, g.chance(1, 8)) {
                (true, false) => *g.pick(&[Mode::Set, Mode::Toggle]),
                (false, false) => Mode::Parse,
                (true, true) => Mode::Parse,
                (false, true) => *g.pick(&[Mode::Set, Mode::Toggle]),
            };
            flags.push(FlagSpec { name: format!("f{k}{u}"), mode, info: None });
            serves.push(k);
        }
    }
    let pk = *g.pick(&[
        Params::Unit,
        Params::VecOsStr,
        Params::OptVecOsStr,
        Params::VecStr,
        Params::OptVecStr,
        Params::VecString,
        Params::OptVecString,
    ]);
    let specs = vec![CmdSpec { path: vec![], flags, info: None }];

    // Uses of the flags with parameters in between.
    let mut argv: Vec<Vec<u8>> = Vec::new();
    for _ in 0..many {
        if g.chance(1, 4) {
            argv.push(value_bytes(g));
            continue;
        }
        let f = &specs[0].flags[g.below(specs[0].flags.len())];
        let no = if f.mode == Mode::Toggle && g.bool() { "no-" } else { "" };
        let mut arg = format!("--{no}{}", f.name).into_bytes();
        if f.mode == Mode::Parse {
            let v = value_bytes(g);
            if g.bool() {
                arg.push(b'=');
                arg.extend(v);
                argv.push(arg);
            } else {
                argv.push(arg);
                argv.push(v);
            }
        } else {
            argv.push(arg);
        }
    }
    g.note(|| format!("{kinds:?} {pk:?} {}", show(&specs, &argv)));

    // Expectation from the reports that are due.
    let (evs, _) = model(&specs, &argv);
    let mut held: Vec<Held> = kinds.iter().map(|k| k.0.initial(&k.3)).collect();
    let mut given = match pk {
        Params::OptVecOsStr | Params::OptVecStr | Params::OptVecString => Held::MaybeList(None),
        _ => Held::List(vec![]),
    };
    let mut errs = Vec::new();
    let mut uses = 0;
    for e in &evs {
        match e {
            Ev::Set(a) | Ev::Toggle(a, _) | Ev::Parse(a, _) => {
                uses += 1;
                let k = serves[a.1];
                let name = String::from_utf8_lossy(&a.3).into_owned();
                errs.extend(apply(kinds[k].0, &mut held[k], &name, e));
            },
            Ev::Param(_, Some(v)) => {
                let text = core::str::from_utf8(v).is_ok();
                match (pk, &mut given) {
                    (Params::Unit, _) => errs.push(Err::Param(v.clone())),
                    (Params::VecStr | Params::OptVecStr | Params::VecString | Params::OptVecString, _) if !text => {
                        errs.push(Err::ParamUtf8(v.clone()))
                    },
                    (_, Held::List(l)) => l.push(v.clone()),
                    (_, Held::MaybeList(l)) => l.get_or_insert_with(Vec::new).push(v.clone()),
                    _ => {},
                }
            },
            Ev::Param(_, None) => {},
            Ev::Err(e) => errs.push(e.clone()),
        }
    }
    g.label_if(errs.iter().any(|e| matches!(e, Err::ValueUtf8(..) | Err::ParamUtf8(_))), "not UTF-8");
    g.nontrivial_if(uses > 1);

    let arena = Arena::new();
    let mut peeks = Vec::new();
    let mut reps: Vec<Option<FlagRep<()>>> = Vec::new();
    for (kind, cell, users, old) in &kinds {
        let (r, p) = collector(&arena, *kind, old, *cell, *users);
        reps.extend(r.into_iter().map(Some));
        peeks.push(p);
    }
    let (cmd, peek_params) = params(&arena, pk);
    let mut cmd = Some(cmd);
    let spare = &arena;
    let schema = build::<()>(
        &arena,
        &specs,
        &[0],
        &mut |_, f| reps[f].take().unwrap_or_else(|| spare.put(false)),
        &mut |_| cmd.take().unwrap_or_else(|| spare.put(())),
    );
    let list: Vec<Os> = argv.iter().map(|v| arena.os(v)).collect();
    let mut sink: Vec<args::Error<'static>> = Vec::new();
    let end = args::parse(&mut sink, schema, &mut list.into_iter());
    ensure_eq!(end, Ok(0), "selection for {}", show(&specs, &argv));
    for (k, p) in peeks.iter().enumerate() {
        ensure_eq!(p(), held[k], "contents of collector {k}, {:?}, for {}", kinds[k], show(&specs, &argv));
    }
    ensure_eq!(peek_params(), given, "parameters in {pk:?} for {}", show(&specs, &argv));
    let shown = |e: &Err| !matches!(e, Err::Shorts(_) | Err::Unknown(_) | Err::UnknownBytes(_));
    let got: Vec<Err> = sink.iter().map(own).filter(shown).collect();
    errs.retain(shown);
    ensure_eq!(got, errs, "diagnostics for {kinds:?} {}", show(&specs, &argv));
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C01",
            facets: vec![
                Facet::new("select", 300_000, 10_000_000, c01_select, "several commands and arguments"),
                Facet::new("noise", 200_000, 6_000_000, c01_noise, "flags added among several commands"),
                Facet::new("layout", 60_000, 1_500_000, c01_layout, "over three commands"),
                Facet::new("large", 100_000, 3_000_000, c01_large, "over eight commands"),
                Facet::new("huge", 12_000, 300_000, c01_huge, "over thirty commands"),
                Facet::new("huge layout", 3_000, 60_000, c01_huge_layout, "over three commands"),
            ],
            assumptions: vec!["command paths are distinct"],
        },
        Property {
            id: "C02",
            facets: vec![
                Facet::new("flags", 300_000, 10_000_000, c02_flags, "some flag is delivered"),
                Facet::new("shadow", 200_000, 8_000_000, c02_shadow, "several flags are delivered"),
                Facet::new("values", 200_000, 8_000_000, c02_values, "all"),
                Facet::new("huge", 15_000, 400_000, c02_huge, "over thirty commands, some flag delivered"),
            ],
            assumptions: vec!["flag names of a command are distinct"],
        },
        Property {
            id: "C03",
            facets: vec![
                Facet::new("params", 300_000, 10_000_000, c03_params, "some parameter is delivered"),
                Facet::new("tail", 200_000, 6_000_000, c03_tail, "all with a command to select"),
                Facet::new("huge", 15_000, 400_000, c03_huge, "over thirty commands, some parameter delivered"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C04",
            facets: vec![
                Facet::new("reports", 300_000, 10_000_000, c04_reports, "mistakes among other reports"),
                Facet::new("stop", 300_000, 10_000_000, c04_stop, "stopped before the last report"),
                Facet::new("insert", 100_000, 3_000_000, c04_insert, "mistake inserted before other arguments"),
                Facet::new("huge", 12_000, 300_000, c04_huge, "over thirty commands"),
                Facet::new("huge stop", 8_000, 200_000, c04_huge_stop, "stopped before the last report"),
            ],
            assumptions: vec!["an unknown name that is no text may be reported with or without its dashes"],
        },
        Property {
            id: "C05",
            facets: vec![
                Facet::new("help", 300_000, 8_000_000, c05_help, "help with flags or commands is written"),
                Facet::new("huge", 12_000, 300_000, c05_huge, "help with flags or commands is written"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C06",
            facets: vec![
                Facet::new("collect", 300_000, 10_000_000, c06_collect, "several uses of flags"),
                Facet::new("huge", 15_000, 400_000, c06_huge, "several uses of flags"),
            ],
            assumptions: vec!["list collectors are used with value-taking flags, where negation is diagnosed"],
        },
    ]);
}
