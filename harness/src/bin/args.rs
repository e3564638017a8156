//! Program argument layouts, parser, reports, and help.

use mc::engine::*;
use mc::{ensure, expect_eq};
use core::ops::ControlFlow;
use osi::args::*;
use osi::compat::OsStr;
use std::cell::RefCell;

type Bytes = &'static [u8];

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum Ev {
    Set { cmd: usize, flag: &'static str, arg: Bytes, current: usize, owner: usize },
    Toggle { cmd: usize, flag: &'static str, arg: Bytes, current: usize, owner: usize, value: bool },
    Parse { cmd: usize, flag: &'static str, arg: Bytes, current: usize, owner: usize, value: Vec<u8> },
    Param { cmd: usize, value: Option<Bytes> },
    Error { what: &'static str, a: Vec<u8>, b: Option<Vec<u8>> },
}

#[derive(Clone, Debug)]
pub struct CmdSpec {
    path: Vec<&'static str>,
    flags: Vec<(&'static str, char)>,
}

type Spec = Vec<CmdSpec>;

fn mode(c: char) -> FlagMode {
    match c {
        's' => FlagMode::Set,
        't' => FlagMode::Toggle,
        _ => FlagMode::Parse,
    }
}

/// Owns the parts of a layout. They reference each other for the whole
/// lifetime of the layout, hence they are kept on the heap until the end.
#[derive(Default)]
pub struct Arena(Vec<(*mut u8, unsafe fn(*mut u8))>);

impl Arena {
    pub fn put<T>(&mut self, v: T) -> &'static mut T {
        unsafe fn free<T>(p: *mut u8) {
            drop(Box::from_raw(p as *mut T));
        }
        let p = Box::into_raw(Box::new(v));
        self.0.push((p as *mut u8, free::<T>));
        unsafe { &mut *p }
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        while let Some((p, f)) = self.0.pop() {
            unsafe { f(p) }
        }
    }
}

type R = usize;
type SFlag = Flag<'static, 'static, R>;
type SCmd = Command<'static, 'static, R>;

macro_rules! by_len {
    ($arena:expr, $vec:expr, $set:ident, $($n:literal)*) => {
        match $vec.len() {
            $($n => {
                let a: [_; $n] = $vec.try_into().ok().unwrap();
                $arena.put($set::with(a)).as_mut()
            },)*
            _ => panic!("harness: set too large"),
        }
    };
}

pub fn flag_set(arena: &mut Arena, v: Vec<SFlag>) -> &'static mut FlagSetRef<'static, 'static, R> {
    by_len!(arena, v, FlagSet, 0 1 2 3 4 5 6 7 8 9 10 15 16 17 18 31 32 33 34 63 64 65 66 127 128 129 130 255 256 257 258 259)
}

pub fn command_set(arena: &mut Arena, v: Vec<SCmd>) -> &'static mut CommandSetRef<'static, 'static, R> {
    by_len!(arena, v, CommandSet, 0 1 2 3 4 5 6 7 8 9 10 11 12 15 16 17 18 31 32 33 34 63 64 65 66 127 128 129 130 255 256 257 258 259)
}

struct Log {
    ev: Vec<Ev>,
    stop: Option<usize>,
    owners: Vec<usize>,
}

impl Log {
    fn add(&mut self, ev: Ev) -> ControlFlow<R> {
        self.ev.push(ev);
        if self.stop == Some(self.ev.len() - 1) {
            ControlFlow::Break(self.ev.len() * 13)
        } else {
            ControlFlow::Continue(())
        }
    }
}

struct CmdRec {
    log: &'static RefCell<Log>,
    cmd: usize,
}

struct FlagRec {
    log: &'static RefCell<Log>,
    cmd: usize,
    flag: &'static str,
}

struct ParserRec {
    log: &'static RefCell<Log>,
}

impl CommandReport<'static, R> for CmdRec {
    fn report_parameter(&mut self, _c: &mut CommandContext<'_, 'static, R>, value: Option<&'static OsStr>) -> ControlFlow<R> {
        self.log.borrow_mut().add(Ev::Param { cmd: self.cmd, value: value.map(|v| v.as_encoded_bytes()) })
    }
}

impl FlagRec {
    fn owner(&self, c: &mut FlagContext<'_, 'static, R>) -> usize {
        let p = c.command() as *mut dyn CommandReport<'static, R> as *mut u8 as usize;
        self.log.borrow().owners.iter().position(|v| *v == p).unwrap_or(usize::MAX)
    }
}

impl FlagReport<'static, R> for FlagRec {
    fn report_set(&mut self, c: &mut FlagContext<'_, 'static, R>) -> ControlFlow<R> {
        let owner = self.owner(c);
        self.log.borrow_mut().add(Ev::Set {
            cmd: self.cmd, flag: self.flag, arg: c.flag_arg().as_encoded_bytes(), current: c.command_current(), owner,
        })
    }
    fn report_toggle(&mut self, c: &mut FlagContext<'_, 'static, R>, value: bool) -> ControlFlow<R> {
        let owner = self.owner(c);
        self.log.borrow_mut().add(Ev::Toggle {
            cmd: self.cmd, flag: self.flag, arg: c.flag_arg().as_encoded_bytes(), current: c.command_current(), owner, value,
        })
    }
    fn report_parse(&mut self, c: &mut FlagContext<'_, 'static, R>, value: &'static OsStr) -> ControlFlow<R> {
        let owner = self.owner(c);
        self.log.borrow_mut().add(Ev::Parse {
            cmd: self.cmd, flag: self.flag, arg: c.flag_arg().as_encoded_bytes(), current: c.command_current(), owner,
            value: value.as_encoded_bytes().to_vec(),
        })
    }
}

fn error_event(e: &Error<'_>) -> Ev {
    let v = |v: &OsStr| v.as_encoded_bytes().to_vec();
    let (what, a, b) = match e {
        Error::Uncaught(_) => ("Uncaught", Vec::new(), None),
        Error::ShortsUnknown { shorts } => ("ShortsUnknown", v(shorts), None),
        Error::FlagUnknown { flag } => ("FlagUnknown", v(flag), None),
        Error::FlagUnexpectedToggle { flag } => ("FlagUnexpectedToggle", v(flag), None),
        Error::FlagUnexpectedValue { flag, value } => ("FlagUnexpectedValue", v(flag), Some(v(value))),
        Error::FlagNoValue { flag } => ("FlagNoValue", v(flag), None),
        Error::FlagValueNotUtf8 { flag, value } => ("FlagValueNotUtf8", v(flag), Some(v(value))),
        Error::ParameterUnexpected { parameter } => ("ParameterUnexpected", v(parameter), None),
        Error::ParameterNotUtf8 { parameter } => ("ParameterNotUtf8", v(parameter), None),
    };
    Ev::Error { what, a, b }
}

impl ParserReport<'static, R> for ParserRec {
    fn report_error(&mut self, _c: &mut ParserContext<'_, 'static, R>, error: Error<'static>) -> ControlFlow<R> {
        self.log.borrow_mut().add(error_event(&error))
    }
}

/// Order in which commands and flags are handed to the layout; anything but
/// the sorted order.
fn shuffle<T>(v: &mut Vec<T>, how: u64) {
    let n = v.len();
    if n > 1 {
        v.rotate_left((how % n as u64) as usize);
        if how / n as u64 % 2 == 1 {
            v.reverse();
        }
    }
}

fn sorted(spec: &Spec) -> Vec<usize> {
    let mut v: Vec<usize> = (0..spec.len()).collect();
    v.sort_by(|a, b| spec[*a].path.cmp(&spec[*b].path));
    v
}

type Outcome = (Vec<Ev>, Result<usize, Option<R>>);

fn run_real(spec: &Spec, how: u64, args: &[&'static OsStr], stop: Option<usize>) -> Outcome {
    let mut arena = Arena::default();
    let log: &'static RefCell<Log> = arena.put(RefCell::new(Log { ev: Vec::new(), stop, owners: vec![0; spec.len()] }));
    let mut cmds: Vec<SCmd> = Vec::new();
    for (i, c) in spec.iter().enumerate() {
        let path: &'static Vec<&'static str> = arena.put(c.path.clone());
        let rec = arena.put(CmdRec { log, cmd: i });
        log.borrow_mut().owners[i] = rec as *mut CmdRec as usize;
        let mut flags: Vec<SFlag> = Vec::new();
        for (name, m) in &c.flags {
            let f = arena.put(FlagRec { log, cmd: i, flag: name });
            flags.push(Flag::with(name, mode(*m), f, None));
        }
        shuffle(&mut flags, how / 3);
        let flags = flag_set(&mut arena, flags);
        cmds.push(Command::with(path, rec, flags, None));
    }
    shuffle(&mut cmds, how);
    let set = command_set(&mut arena, cmds);
    let mut schema = Schema::with(set);
    let mut parser = ParserRec { log };
    let r = parse(&mut parser, &mut schema, &mut args.iter().copied());
    let mut ev = log.borrow().ev.clone();
    // Translate positions of the set to positions of the specification.
    let order = sorted(spec);
    for e in &mut ev {
        match e {
            Ev::Set { current, .. } | Ev::Toggle { current, .. } | Ev::Parse { current, .. } => {
                *current = order.get(*current).copied().unwrap_or(usize::MAX);
            },
            _ => {},
        }
    }
    (ev, r.map(|v| order.get(v).copied().unwrap_or(usize::MAX)))
}

/// Reference parser, written from the documentation of the layout.
fn run_model(spec: &Spec, args: &[&'static OsStr]) -> Outcome {
    let at = |path: &[&str]| spec.iter().position(|c| c.path == path);
    let nearest = |path: &[&'static str]| (0..=path.len()).rev().find_map(|n| at(&path[..n]));
    let find = |path: &[&'static str], name: &str| -> Option<(usize, &'static str, char)> {
        (0..=path.len()).rev().find_map(|n| {
            let c = at(&path[..n])?;
            let f = spec[c].flags.iter().find(|f| f.0 == name)?;
            Some((c, f.0, f.1))
        })
    };

    let mut ev = Vec::new();
    let mut path: Vec<&'static str> = Vec::new();
    let (mut cmds_done, mut flags_done) = (false, false);
    let mut it = args.iter();
    while let Some(arg) = it.next() {
        let arg: Bytes = arg.as_encoded_bytes();
        if !flags_done && arg.starts_with(b"--") {
            if arg.len() == 2 {
                cmds_done = true;
                flags_done = true;
                continue;
            }
            let body = &arg[2..];
            // The name reaches up to the first equals sign, if everything up
            // to there is valid text.
            let (name, value) = match body.iter().position(|c| *c == b'=') {
                Some(p) => (&body[..p], Some(&body[p + 1..])),
                None => (body, None),
            };
            let err = |what, a: &[u8], b: Option<&[u8]>| Ev::Error { what, a: a.to_vec(), b: b.map(|v| v.to_vec()) };
            let Ok(text) = core::str::from_utf8(name) else {
                ev.push(err("FlagUnknown", arg, None));
                continue;
            };
            let (found, negated) = match find(&path, text) {
                Some(f) => (Some(f), false),
                None => match text.strip_prefix("no-") {
                    Some(s) => (find(&path, s), true),
                    None => (None, false),
                },
            };
            let Some((cmd, flag, m)) = found else {
                ev.push(err("FlagUnknown", name, None));
                continue;
            };
            let current = nearest(&path).unwrap();
            let owner = cmd;
            match (m, negated, value) {
                ('s' | 'p', true, _) => ev.push(err("FlagUnexpectedToggle", name, None)),
                ('s' | 't', _, Some(v)) => ev.push(err("FlagUnexpectedValue", name, Some(v))),
                ('s', false, None) => ev.push(Ev::Set { cmd, flag, arg: name, current, owner }),
                ('t', n, None) => ev.push(Ev::Toggle { cmd, flag, arg: name, current, owner, value: !n }),
                (_, _, Some(v)) => ev.push(Ev::Parse { cmd, flag, arg: name, current, owner, value: v.to_vec() }),
                (_, _, None) => match it.next() {
                    Some(v) => ev.push(Ev::Parse { cmd, flag, arg: name, current, owner, value: v.as_encoded_bytes().to_vec() }),
                    None => ev.push(err("FlagNoValue", name, None)),
                },
            }
            continue;
        }
        if !flags_done && arg.len() >= 2 && arg[0] == b'-' {
            ev.push(Ev::Error { what: "ShortsUnknown", a: arg[1..].to_vec(), b: None });
            continue;
        }
        if !cmds_done {
            if let Ok(s) = core::str::from_utf8(arg) {
                let mut p = path.clone();
                p.push(s);
                if spec.iter().any(|c| c.path.starts_with(&p)) {
                    path = p;
                    continue;
                }
            }
            cmds_done = true;
        }
        match at(&path) {
            Some(cmd) => ev.push(Ev::Param { cmd, value: Some(arg) }),
            None => ev.push(Ev::Error { what: "ParameterUnexpected", a: arg.to_vec(), b: None }),
        }
    }
    let sel = at(&path);
    if let Some(cmd) = sel {
        ev.push(Ev::Param { cmd, value: None });
    }
    (ev, sel.ok_or(None))
}

fn os(v: &'static [u8]) -> &'static OsStr {
    unsafe { OsStr::from_encoded_bytes_unchecked(v) }
}

fn show(spec: &Spec, args: &[&'static OsStr]) -> String {
    let s: Vec<String> = spec.iter().map(|c| format!("{:?}{:?}", c.path, c.flags)).collect();
    let a: Vec<String> = args.iter().map(|v| format!("{:?}", v.to_string_lossy())).collect();
    format!("commands [{}], arguments [{}]", s.join(" "), a.join(" "))
}

fn check(spec: &Spec, how: u64, args: &[&'static OsStr], breaks: bool, c: &mut Case) -> CaseResult {
    let (want, sel) = run_model(spec, args);
    let (got, res) = run_real(spec, how, args, None);
    expect_eq!(&got, &want, "events");
    expect_eq!(&res, &sel, "result");
    c.step(args.len() as u64 + 1);
    c.trace();
    c.state(&(&got, &res));
    if want.iter().any(|e| matches!(e, Ev::Error { .. })) {
        c.feature("with errors");
    } else if sel.is_ok() {
        c.feature("accepted without errors");
    }
    if breaks {
        for stop in 0..want.len() {
            let (got, res) = run_real(spec, how, args, Some(stop));
            expect_eq!(&got[..], &want[..stop + 1], "events up to a break at {}", stop);
            expect_eq!(res, Err(Some((stop + 1) * 13)), "result of a break at {}", stop);
            c.step(args.len() as u64);
            c.trace();
        }
    }
    Ok(())
}

/// Explore all specifications with all argument lists.
fn grid(ctx: &Ctx, name: &str, specs: &[Spec], alpha: &[&'static [u8]], depth: u32, breaks: bool) {
    let alpha: Vec<&'static OsStr> = alpha.iter().map(|v| os(v)).collect();
    let k = alpha.len() as u64;
    let per = seq_total(k, depth);
    ctx.bound(format!("{}: {} layouts, all lists of up to {} out of {} arguments", name, specs.len(), depth, k));
    let args = |i: u64| -> Vec<&'static OsStr> { seq_at(k, i % per).into_iter().map(|v| alpha[v]).collect() };
    ctx.explore(name, specs.len() as u64 * per, |i| show(&specs[(i / per) as usize], &args(i)), |i, c| {
        check(&specs[(i / per) as usize], i, &args(i), breaks, c)
    });
}

/// Explore all arguments that are made of some parts, each alone and in front of others.
fn texts(ctx: &Ctx, name: &str, specs: &[Spec], depth: u32, breaks: bool) {
    let parts: [&[u8]; 8] = [b"-", b"no-", b"x", b"y", b"=", b"\xff", "\u{e9}".as_bytes(), b"v"];
    let k = parts.len() as u64;
    let all: Vec<&'static OsStr> = (0..seq_total(k, depth)).map(|i| {
        let v: Vec<u8> = seq_at(k, i).into_iter().flat_map(|v| parts[v].iter().copied()).collect();
        os(Vec::leak(v))
    }).collect();
    let tails: [&[&'static OsStr]; 3] = [&[], &[os(b"p")], &[os(b"--x"), os(b"p")]];
    let per = (all.len() * tails.len()) as u64;
    ctx.bound(format!("{}: {} layouts, all arguments of up to {} out of {} parts, each in front of {} lists", name, specs.len(), depth, k, tails.len()));
    let args = |i: u64| -> Vec<&'static OsStr> {
        let v = (i % per) as usize;
        [&[all[v / tails.len()]], tails[v % tails.len()]].concat()
    };
    ctx.explore(name, specs.len() as u64 * per, |i| show(&specs[(i / per) as usize], &args(i)), |i, c| {
        check(&specs[(i / per) as usize], i, &args(i), breaks, c)
    });
}

/// Explore all arguments close to the given ones, which differ from them in
/// any byte or in one character.
fn close(ctx: &Ctx, spec: &Spec, lists: &[(&[&'static str], &str, &[&'static str])], breaks: bool) {
    let chars: Vec<char> = (0..0x3400).chain(0xa000..0xa100).chain(0xe000..0xe100).chain(0xf900..0x10100).chain(0x1d400..0x1d800).chain(0xe0000..0xe0200).filter_map(char::from_u32).collect();
    ctx.bound(format!("close: {} lists with one byte replaced, inserted, or removed, or the same for {} characters", lists.len(), chars.len()));
    for (n, (before, base, after)) in lists.iter().enumerate() {
        let list = |v: Vec<u8>| -> Vec<&'static OsStr> {
            before.iter().map(|v| os(v.as_bytes())).chain([os(Vec::leak(v))]).chain(after.iter().map(|v| os(v.as_bytes()))).collect()
        };
        let bytes = Edits::new(vec![base.bytes().collect()], (0..=255).collect(), b"-= .xA\xff".to_vec());
        ctx.explore(&format!("close-bytes-{}", n), bytes.total(), |i| show(spec, &list(bytes.at(i))), |i, c| {
            check(spec, i, &list(bytes.at(i)), breaks, c)
        });
        let edits = Edits::new(vec![base.chars().collect()], chars.clone(), Vec::new());
        let text = |i: u64| edits.at(i).into_iter().collect::<String>().into_bytes();
        ctx.explore(&format!("close-characters-{}", n), edits.total(), |i| show(spec, &list(text(i))), |i, c| {
            check(spec, i, &list(text(i)), breaks, c)
        });
    }
}

/// A layout with names of several characters.
fn named() -> Spec {
    let flags = vec![("set", 's'), ("Turn", 't'), ("val-\u{e9}", 'p')];
    [&[][..], &["cmd"], &["cmd", "sub"], &["\u{e9}t\u{e9}"], &["CMD", "x-y"]].into_iter().map(|v| CmdSpec { path: v.to_vec(), flags: flags.clone() }).collect()
}

/// Numbers around the powers of two, for layouts and lists of larger sizes.
const SIZES: [usize; 18] = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];

fn leak(v: String) -> &'static str {
    Box::leak(v.into_boxed_str())
}

fn arg(v: &str) -> &'static OsStr {
    os(leak(v.to_string()).as_bytes())
}

type Large = Vec<(Spec, Vec<&'static OsStr>)>;

/// Explore an explicit list of layouts and arguments.
fn list(ctx: &Ctx, name: &str, cases: &Large, breaks: bool) {
    ctx.bound(format!("{}: {} layouts and lists with up to 257 commands, flags, layers, or arguments", name, cases.len()));
    ctx.explore(name, cases.len() as u64, |i| {
        let mut v = show(&cases[i as usize].0, &cases[i as usize].1);
        let mut n = v.len().min(2000);
        while !v.is_char_boundary(n) {
            n -= 1;
        }
        v.truncate(n);
        v
    }, |i, c| {
        let (spec, args) = &cases[i as usize];
        check(spec, i, args, breaks, c)
    });
}

/// Large layouts: many commands, deep commands, long names, long lists.
fn large_commands(thorough: bool) -> Large {
    let mut r: Large = Vec::new();
    for n in SIZES {
        // Siblings, of which each is selected once.
        let names: Vec<&'static str> = (0..n).map(|v| leak(format!("c{}", v))).collect();
        let spec: Spec = names.iter().map(|v| CmdSpec { path: vec![v], flags: vec![] }).collect();
        for v in 0..=n {
            r.push((spec.clone(), vec![arg(&format!("c{}", v)), arg("p")]));
        }
        // Layers, all of them configured, or only the last, or the last two.
        for keep in [n, 1, 2, n / 2] {
            let spec: Spec = (n + 1 - keep..=n).map(|v| CmdSpec { path: vec!["a"; v], flags: vec![] }).collect();
            for v in 0..=n + 1 {
                if thorough || n < 100 || v < 3 || v + 3 > n || v.is_power_of_two() {
                    let mut a = vec![arg("a"); v];
                    a.push(arg("p"));
                    r.push((spec.clone(), a));
                }
            }
        }
        // Deep paths which differ in one layer only.
        for at in [0, n / 2, n - 1] {
            for name in ["A", "a", "b"] {
                let base = vec!["a"; n];
                let mut other = base.clone();
                other[at] = name;
                other.extend(["x", "y"]);
                let mut third = base.clone();
                third.extend(["c", "d"]);
                let spec: Spec = vec![
                    CmdSpec { path: base.clone(), flags: vec![] },
                    CmdSpec { path: other.clone(), flags: vec![] },
                    CmdSpec { path: third.clone(), flags: vec![] },
                ];
                for path in [&base, &other, &third] {
                    for len in [n - 1, n, n + 1, n + 2] {
                        for last in ["x", "c", "p"] {
                            let mut a: Vec<&'static OsStr> = path.iter().take(len).map(|v| arg(v)).collect();
                            a.push(arg(last));
                            a.push(arg("y"));
                            r.push((spec.clone(), a));
                        }
                    }
                }
            }
        }
        // Long names which differ in one position only.
        for at in [0, n / 2, n - 1] {
            let base = "x".repeat(n);
            let mut other = base.clone();
            other.replace_range(at..at + 1, "y");
            let (base, other) = (leak(base), leak(other));
            let spec: Spec = vec![
                CmdSpec { path: vec![base], flags: vec![] },
                CmdSpec { path: vec![other, base], flags: vec![] },
                CmdSpec { path: vec![], flags: vec![] },
            ];
            for a in [base, other, &base[1..], leak(format!("{}x", base))] {
                for b in [base, other] {
                    r.push((spec.clone(), vec![arg(a), arg(b)]));
                }
            }
        }
    }
    for n in SIZES.into_iter().chain([1000, 5000]) {
        // Long lists of parameters, before and after the end of flags.
        let spec: Spec = vec![CmdSpec { path: vec![], flags: vec![] }, CmdSpec { path: vec!["a"], flags: vec![] }];
        for at in [0, 1, n / 2, n] {
            let mut a: Vec<&'static OsStr> = vec![arg("a")];
            a.extend((0..n).map(|v| if v == at { arg("--") } else { arg("a") }));
            r.push((spec.clone(), a.clone()));
            a.insert(1, arg(&"p".repeat(n)));
            r.push((spec.clone(), a));
        }
    }
    r
}

/// Large layouts: many flags, many scopes, long names and values.
fn large_flags() -> Large {
    let mut r: Large = Vec::new();
    for n in SIZES {
        // Many flags on one command, of which each is used once.
        let flags: Vec<(&'static str, char)> = (0..n).map(|v| (leak(format!("f{}", v)), ['s', 't', 'p'][v % 3])).collect();
        let spec: Spec = vec![CmdSpec { path: vec![], flags }];
        for v in 0..=n {
            r.push((spec.clone(), vec![arg(&format!("--f{}", v)), arg("q"), arg(&format!("--no-f{}", v)), arg(&format!("--f{}=v", v))]));
        }
        // Flags on the outermost, innermost, or a middle layer.
        for on in [0, 1, n / 2, n - 1, n] {
            let spec: Spec = (0..=n).map(|v| CmdSpec {
                path: vec!["a"; v],
                flags: if v == on { vec![("x", 't'), ("y", 'p')] } else { vec![("z", 's')] },
            }).collect();
            if spec.len() > 257 {
                continue;
            }
            for at in [0, 1, n / 2, n - 1, n] {
                let mut a: Vec<&'static OsStr> = vec![arg("a"); n];
                for (k, v) in ["--x", "--no-x", "--z", "--y", "a"].into_iter().enumerate() {
                    a.insert(at + k, arg(v));
                }
                r.push((spec.clone(), a));
            }
        }
        // Flags on a command with many siblings below, with and without layers
        // of their own, and below the outermost command or another one.
        for below in [0, 1, 5] {
            let mut spec: Spec = vec![
                CmdSpec { path: vec![], flags: vec![("z", 's')] },
                CmdSpec { path: vec!["a"], flags: vec![("x", 't'), ("y", 'p')] },
            ];
            for k in 0..n {
                let name = leak(format!("c{:03}", k));
                for (layers, flags) in [(0, vec![]), (below, vec![("w", 's')])] {
                    if layers > 0 || flags.is_empty() {
                        let path = ["a", name].into_iter().chain(core::iter::repeat_n("d", layers)).collect();
                        spec.push(CmdSpec { path, flags });
                    }
                }
            }
            spec.truncate(n);
            let last = if below > 0 { (n - 3) / 2 } else { n - 3 };
            for k in [0, last / 2, last] {
                let mut a = vec![arg("a"), arg("--x"), arg(&format!("c{:03}", k)), arg("--no-x"), arg("--z")];
                a.extend((0..below).flat_map(|_| [arg("d"), arg("--x")]));
                a.extend(["--y=1", "--w", "--z", "--q"].map(arg));
                r.push((spec.clone(), a));
            }
        }
        // Layers between which no other is configured.
        for on in [0, 1, n / 2] {
            let spec: Spec = vec![
                CmdSpec { path: vec!["a"; on], flags: vec![("x", 't'), ("y", 'p')] },
                CmdSpec { path: vec!["a"; n], flags: vec![("z", 's')] },
                CmdSpec { path: vec!["a"; n + 12], flags: vec![("y", 's')] },
            ];
            for depth in [on, on + 1, n - 1, n, n + 1, n + 11, n + 12, n + 13] {
                let mut a = vec![arg("a"); depth];
                a.extend(["--x", "--no-x", "--y", "--z", "--y=1"].map(arg));
                if on < n {
                    r.push((spec.clone(), a));
                }
            }
        }
        // Long names and long values.
        for at in [0, n / 2, n - 1] {
            let base = "n".repeat(n);
            let mut other = base.clone();
            other.replace_range(at..at + 1, "o");
            let (base, other) = (leak(base), leak(other));
            let spec: Spec = vec![
                CmdSpec { path: vec![], flags: vec![(base, 't'), (other, 'p')] },
                CmdSpec { path: vec!["a"], flags: vec![(base, 'p')] },
            ];
            for k in [0, 1, n - 1, n, n + 1, 5000, 70000] {
                let value = "v".repeat(k);
                for name in [base, other, &base[1..], leak(format!("{}n", base))] {
                    r.push((spec.clone(), vec![
                        arg(&format!("--{}={}", name, value)),
                        arg(&format!("--{}", name)),
                        arg(&value),
                        arg(&format!("--no-{}", name)),
                        arg("a"),
                        arg(&format!("--{}={}", name, value)),
                        arg(&format!("--no-{}", name)),
                        arg(&format!("--{}", name)),
                        arg(&value),
                    ]));
                }
            }
        }
        // Long lists of flags.
        let spec: Spec = vec![CmdSpec { path: vec![], flags: vec![("x", 't'), ("y", 'p'), ("z", 's')] }];
        for w in [&["--x"][..], &["--no-x", "--x"], &["--y"], &["--y=1", "--z"], &["--z", "p"]] {
            for k in [n, n * 20] {
                r.push((spec.clone(), (0..k).map(|v| arg(w[v % w.len()])).collect()));
            }
        }
    }
    r
}

/// Long lists with diagnostics, and long rejected arguments.
fn large_errors() -> Large {
    let mut r: Large = Vec::new();
    let spec: Spec = vec![CmdSpec { path: vec!["a"], flags: vec![("x", 't'), ("y", 'p')] }, CmdSpec { path: vec![], flags: vec![("z", 's')] }];
    for n in SIZES {
        for w in [&["--q"][..], &["-q", "--z"], &["--x"], &["--z=1", "p"], &["--no-z", "--no-"], &["a", "--y"], &["--z\u{301}", "--z"]] {
            r.push((spec.clone(), (0..n).map(|v| arg(w[v % w.len()])).collect()));
        }
        for k in [n, n * 30] {
            let l = "q".repeat(k);
            for w in [format!("--{}", l), format!("-{}", l), format!("--z={}", l), format!("--no-z={}", l), format!("--no-{}", l), format!("--{}=1", l)] {
                r.push((spec.clone(), vec![arg(&w), arg("a"), arg(&w), arg("--"), arg(&w)]));
            }
            let mut raw = l.clone().into_bytes();
            raw.push(0xff);
            let with = |p: &str| -> &'static OsStr { os(Box::leak([p.as_bytes(), &raw[..]].concat().into_boxed_slice())) };
            r.push((spec.clone(), vec![with("--"), with("-"), with("--z="), with(""), arg("a"), with("--y="), with("--x")]));
        }
    }
    r
}

fn paths() -> Vec<Vec<&'static str>> {
    vec![vec![], vec!["a"], vec!["b"], vec!["a", "a"], vec!["a", "b"], vec!["a", "b", "a"], vec!["b", "a", "b"], vec!["ab"]]
}

fn subsets(n: usize, max: u32) -> Vec<Vec<usize>> {
    (0..1u32 << n).filter(|v| v.count_ones() <= max).map(|v| (0..n).filter(|i| v >> i & 1 == 1).collect()).collect()
}

/// All command sets up to `max` commands, with all assignments of profiles.
fn specs(max: u32, profiles: &[&[(&'static str, char)]]) -> Vec<Spec> {
    let p = paths();
    let mut r = Vec::new();
    for s in subsets(p.len(), max) {
        for a in 0..(profiles.len() as u64).pow(s.len() as u32) {
            let d = mixed(a, &vec![profiles.len() as u64; s.len()]);
            r.push(s.iter().zip(d).map(|(c, f)| CmdSpec { path: p[*c].clone(), flags: profiles[f as usize].to_vec() }).collect());
        }
    }
    r
}

pub fn a01(ctx: &Ctx) {
    ctx.assume("the reference parser restates the documentation of the layout module");
    // Command selection and parameters: all command sets.
    let p = paths();
    let all: Vec<Spec> = subsets(p.len(), 8).into_iter().map(|s| {
        s.into_iter().map(|c| CmdSpec { path: p[c].clone(), flags: vec![("x", 't')] }).collect()
    }).collect();
    grid(ctx, "commands", &all, &[b"a", b"b", b"ab", b"c", b"--", b"--x", b"", b"-", b"a\xff"], ctx.pick(5, 6), false);
    // Deeper lists for pure command selection.
    grid(ctx, "deep", &all, &[b"a", b"b", b"c", b"--"], ctx.pick(7, 9), false);
    // Long names, prefixes of each other, and larger sets.
    let names = ["", "a", "aa", "ab", "b", "-", "é", "no-a"];
    let mut big: Vec<Spec> = Vec::new();
    for s in 0..1u32 << 8 {
        let mut v: Spec = Vec::new();
        for (i, n) in names.iter().enumerate() {
            if s >> i & 1 == 1 {
                v.push(CmdSpec { path: vec![n], flags: vec![] });
            }
        }
        v.push(CmdSpec { path: vec!["a", "", "a"], flags: vec![("x", 's')] });
        big.push(v);
    }
    grid(ctx, "names", &big, &[b"", b"a", b"aa", b"ab", b"b", b"-", "é".as_bytes(), b"--x", b"z"], ctx.pick(4, 5), false);
    list(ctx, "large", &large_commands(ctx.pick(0, 1) == 1), false);
    close(ctx, &named(), &[
        (&[], "cmd", &["sub", "p"]), (&["cmd"], "sub", &["p"]), (&[], "\u{e9}t\u{e9}", &["sub"]), (&["CMD"], "x-y", &["p"]), (&["cmd"], "--", &["sub"]),
    ], false);
}

const PROFILES: &[&[(&str, char)]] = &[
    &[],
    &[("x", 's')],
    &[("x", 't'), ("y", 'p')],
    &[("no-x", 's'), ("x", 'p')],
    &[("y", 't'), ("no-y", 'p'), ("xy", 's')],
];

/// Flags for the exploration of all texts.
const TEXTS: &[&[(&str, char)]] = &[&[("x", 's'), ("y", 'p')], &[("x", 't'), ("y", 's')], &[("x", 'p'), ("no-x", 't'), ("", 't')], &[("no-", 'p'), ("\u{e9}", 't'), ("-x", 'p')]];

fn text_specs() -> Vec<Spec> {
    specs(1, TEXTS).into_iter().filter(|v| v.len() == 1 && (v[0].path.is_empty() || v[0].path == ["ab"])).collect()
}

pub fn a02(ctx: &Ctx) {
    let specs2 = specs(2, PROFILES);
    grid(ctx, "flags", &specs2, &[
        b"a", b"b", b"--x", b"--no-x", b"--x=v", b"--y", b"--no-y", b"--y=", b"--no-x=v", b"--no-no-x", b"--xy", b"--", b"c", b"--y=a=b",
    ], ctx.pick(4, 5), false);
    let specs3: Vec<Spec> = specs(3, &[&[], &[("x", 't')], &[("x", 'p'), ("no-x", 't')]]);
    grid(ctx, "scopes", &specs3, &[b"a", b"b", b"--x", b"--no-x", b"--x=--", b"--no-no-x", b"p"], ctx.pick(5, 6), false);
    // Values taken verbatim, whatever they look like.
    let specs1: Vec<Spec> = specs(1, &[&[("y", 'p')], &[("y", 'p'), ("x", 's')]]);
    grid(ctx, "values", &specs1, &[
        b"--y", b"--", b"--x", b"-", b"-q", b"a", b"", b"\xff", b"--y=", b"--y==", b"--y=--", b"--y=\xff\xfe", b"--z",
    ], ctx.pick(5, 6), false);
    texts(ctx, "texts", &text_specs(), ctx.pick(6, 7), false);
    list(ctx, "large", &large_flags(), false);
    close(ctx, &named(), &[
        (&[], "--set", &["p"]), (&["cmd"], "--Turn", &["sub"]), (&["cmd"], "--no-Turn", &["sub"]), (&[], "--val-\u{e9}", &["--set", "cmd"]), (&[], "--val-\u{e9}=v", &["--set", "cmd"]),
        (&["--val-\u{e9}"], "--set", &["p"]),
    ], false);
}

pub fn a03(ctx: &Ctx) {
    let specs2 = specs(2, &[&[], &[("x", 's'), ("y", 'p')], &[("x", 't')]]);
    grid(ctx, "diagnostics", &specs2, &[
        b"a", b"--x", b"--y", b"--z", b"--no-z", b"--no-x", b"--x=1", b"--=v", b"--no-", b"--no-=v", b"-q", b"-qr", b"-\xff", b"--x\xff", b"--z\xff=v",
        b"--x=\xff", b"--x\xff=v", b"\xff", b"p", b"--", b"--z=\xff", b"--no-y=1",
    ], ctx.pick(3, 4), true);
    grid(ctx, "recovery", &specs2, &[
        b"a", b"--x", b"--y", b"--z", b"--no-x", b"--x=1", b"-q", b"--x\xff", b"p", b"--",
    ], ctx.pick(4, 5), true);
    // Break at every event of longer lists.
    let specs3: Vec<Spec> = specs(3, &[&[("x", 't'), ("y", 'p')]]);
    grid(ctx, "breaks", &specs3, &[b"a", b"b", b"--x", b"--y", b"-q", b"p"], ctx.pick(5, 6), true);
    texts(ctx, "texts", &text_specs(), ctx.pick(6, 7), true);
    list(ctx, "large", &large_errors(), true);
    close(ctx, &named(), &[
        (&["CMD"], "--set", &["sub", "p"]), (&["cmd"], "--no-set=v", &["p"]), (&["CMD"], "-s", &["p"]), (&["cmd"], "--nosuch=v", &["--set"]),
    ], true);
}

/// Layouts: order, lookup, and hierarchy.
pub fn a05(ctx: &Ctx) {
    let p: Vec<Vec<&'static str>> = vec![
        vec![], vec!["a"], vec!["b"], vec!["a", "a"], vec!["a", "b"], vec!["a", "b", "a"], vec!["b", "a", "b"], vec!["ab"], vec!["a", "a", "a", "a"], vec![""],
    ];
    let n = p.len();
    ctx.bound(format!("all subsets of {} command paths, each in all rotations and reversals", n));
    let total = (1u64 << n) * 2 * n as u64;
    let set_of = |i: u64| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).filter(|b| i / (2 * n as u64) >> b & 1 == 1).collect();
        shuffle(&mut v, i % (2 * n as u64));
        v
    };
    ctx.explore("commands", total, |i| format!("{:?}", set_of(i).iter().map(|v| &p[*v]).collect::<Vec<_>>()), |i, c| {
        let sel = set_of(i);
        let mut arena = Arena::default();
        let mut cmds: Vec<SCmd> = Vec::new();
        for s in &sel {
            let path: &'static Vec<&'static str> = arena.put(p[*s].clone());
            let rec = arena.put(());
            let flags = flag_set(&mut arena, Vec::new());
            cmds.push(Command::with(path, rec, flags, Some("h")));
        }
        let set = command_set(&mut arena, cmds);
        let mut want: Vec<Vec<&str>> = sel.iter().map(|v| p[*v].clone()).collect();
        want.sort();
        let mut schema = Schema::with(set);
        {
            let set = schema.commands();
            expect_eq!(set.len(), want.len(), "length");
            expect_eq!(set.is_empty(), want.is_empty(), "emptiness");
            let got: Vec<Vec<&str>> = set.iter().map(|v| v.path().to_vec()).collect();
            expect_eq!(&got, &want, "order of commands");
            for from in 0..=want.len() {
                let got: Vec<Vec<&str>> = set.iter_from(from).map(|v| v.path().to_vec()).collect();
                expect_eq!(&got[..], &want[from..], "iteration from {}", from);
                c.step(1);
            }
            for (j, w) in want.iter().enumerate() {
                expect_eq!(set.command_at(j).path(), &w[..], "command at {}", j);
                expect_eq!(schema.command_at(j).path(), &w[..], "schema command at {}", j);
                expect_eq!(set.command_at(j).help_short(), Some("h"), "help");
                // The closest configured proper prefix.
                let up = (0..w.len()).rev().find_map(|l| want.iter().position(|x| x[..] == w[..l]));
                expect_eq!(set.up_from(j), up, "layer up of {:?}", w);
                c.step(2);
            }
            for q in &p {
                let r = set.search_by(|v| v.path().cmp(&q[..]));
                match want.iter().position(|x| x == q) {
                    Some(v) => expect_eq!(r, Ok(v), "lookup of {:?}", q),
                    None => expect_eq!(r, Err(want.iter().filter(|x| *x < q).count()), "lookup of {:?}", q),
                }
                c.step(1);
            }
        }
        for (j, w) in want.iter().enumerate() {
            expect_eq!(schema.command_mut_at(j).path(), &w[..], "mutable command at {}", j);
            expect_eq!(schema.commands_mut().command_mut_at(j).path(), &w[..], "mutable command at {}", j);
            ensure!(schema.command_at(j).flags().is_empty(), "flags out of nowhere");
        }
        c.state(&(&want, i % (2 * n as u64)));
        c.trace();
        Ok(())
    });

    // Flags: all ordered selections.
    let names = ["a", "b", "ab", "", "no-a", "é", "B"];
    let k = names.len() as u64;
    ctx.bound("all ordered selections of up to 5 out of 7 flag names");
    let sel = |i: u64| -> Vec<usize> { seq_at(k, i) };
    ctx.explore("flags", seq_total(k, 5), |i| format!("{:?}", sel(i).iter().map(|v| names[*v]).collect::<Vec<_>>()), |i, c| {
        let s = sel(i);
        let mut d = s.clone();
        d.sort();
        d.dedup();
        if d.len() != s.len() {
            return Ok(());
        }
        let mut arena = Arena::default();
        let mut flags: Vec<SFlag> = Vec::new();
        for v in &s {
            let rec = arena.put(false);
            flags.push(Flag::with(names[*v], mode(['s', 't', 'p'][*v % 3]), rec, Some(names[*v])));
        }
        let set = flag_set(&mut arena, flags);
        let mut want: Vec<usize> = s.clone();
        want.sort_by_key(|v| names[*v]);
        expect_eq!(set.len(), want.len(), "length");
        expect_eq!(set.is_empty(), want.is_empty(), "emptiness");
        let got: Vec<&str> = set.iter().map(|v| v.name()).collect();
        let wn: Vec<&str> = want.iter().map(|v| names[*v]).collect();
        expect_eq!(&got, &wn, "order of flags");
        for (j, w) in want.iter().enumerate() {
            let f = set.flag_at(j);
            expect_eq!(f.name(), names[*w], "flag at {}", j);
            expect_eq!(f.help_short(), Some(names[*w]), "help of flag at {}", j);
            expect_eq!(core::mem::discriminant(&f.mode()), core::mem::discriminant(&mode(['s', 't', 'p'][*w % 3])), "mode of flag at {}", j);
            expect_eq!(set.flag_mut_at(j).name(), names[*w], "mutable flag at {}", j);
            c.step(2);
        }
        for q in names {
            let r = set.search_by(|v| v.name().cmp(q));
            match wn.iter().position(|x| *x == q) {
                Some(v) => expect_eq!(r, Ok(v), "lookup of {:?}", q),
                None => expect_eq!(r, Err(wn.iter().filter(|x| **x < q).count()), "lookup of {:?}", q),
            }
            c.step(1);
        }
        c.state(&s);
        c.trace();
        Ok(())
    });
    large_layouts(ctx);
}

/// Layouts with many commands and flags.
fn large_layouts(ctx: &Ctx) {
    ctx.bound("layouts of up to 257 commands or flags out of 9 families of names, each in 6 orders");
    // Bit-reversed, descending, ascending, rotated, interleaved orders.
    let order = |n: usize, how: u64| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        match how {
            0 => {},
            1 => v.reverse(),
            2 => v.rotate_left(1),
            3 => v.rotate_left(n / 2),
            4 => v.sort_by_key(|x| (x % 2, *x)),
            _ => v.sort_by_key(|x| (*x as u32).reverse_bits()),
        }
        v
    };
    let path = |family: u64, v: usize| -> Vec<&'static str> {
        match family {
            0 => vec![leak(format!("{:03}", v))],
            1 => vec![leak(format!("{}", v))],
            2 => vec!["a"; v],
            3 => (0..9).map(|b| if v >> b & 1 == 1 { "b" } else { "a" }).collect(),
            4 => vec![leak("x".repeat(v))],
            // Gaps between layers, and many siblings below others.
            5 => vec!["a"; 9 * v + 3],
            6 => (0..v % 3).map(|_| "a").chain([leak(format!("{}", v / 3))].into_iter().cycle().take(v / 3 % 20)).chain([leak(format!("{}", v))]).collect(),
            7 => ["p"].into_iter().chain((v > 0).then(|| leak(format!("{}", (v - 1) / 3)))).chain(["d"; 30].into_iter().take([0, 1, 30][v.saturating_sub(1) % 3])).collect(),
            _ => std::iter::repeat("a").take(v / 2).chain((v % 2 == 1).then_some("b")).collect(),
        }
    };
    let radix = [SIZES.len() as u64, 9, 6];
    let what = |i: u64| -> (usize, u64, u64) {
        let d = mixed(i, &radix);
        (SIZES[d[0] as usize], d[1], d[2])
    };
    let sets: Vec<Vec<Vec<&'static str>>> = (0..9).map(|f| (0..257).map(|v| path(f, v)).collect()).collect();
    ctx.explore("large", radix.iter().product(), |i| format!("size {}, family {}, order {}", what(i).0, what(i).1, what(i).2), |i, c| {
        let (n, family, how) = what(i);
        let all = &sets[family as usize][..n];
        let mut arena = Arena::default();
        let mut cmds: Vec<SCmd> = Vec::new();
        for v in order(n, how) {
            let rec = arena.put(());
            let path: &'static Vec<&'static str> = arena.put(all[v].clone());
            let flags = flag_set(&mut arena, Vec::new());
            cmds.push(Command::with(path, rec, flags, None));
        }
        let set = command_set(&mut arena, cmds);
        let mut want = all.to_vec();
        want.sort();
        expect_eq!(set.len(), n, "length");
        let got: Vec<Vec<&str>> = set.iter().map(|v| v.path().to_vec()).collect();
        expect_eq!(&got, &want, "order of commands");
        for (j, w) in want.iter().enumerate() {
            expect_eq!(set.command_at(j).path(), &w[..], "command at {}", j);
            let got = set.iter_from(j).count();
            expect_eq!(got, n - j, "iteration from {}", j);
            let up = (0..w.len()).rev().find_map(|l| want.binary_search_by(|x| x[..].cmp(&w[..l])).ok());
            expect_eq!(set.up_from(j), up, "layer up of {}", j);
            expect_eq!(set.search_by(|v| v.path().cmp(&w[..])), Ok(j), "lookup of {}", j);
            let mut miss = w.clone();
            miss.push("");
            if want.binary_search(&miss).is_err() {
                expect_eq!(set.search_by(|v| v.path().cmp(&miss[..])), Err(want.iter().filter(|x| **x < miss).count()), "failed lookup near {}", j);
            }
            c.step(5);
        }
        c.state(&(n, family, how));
        c.trace();

        // The same names joined, as flags.
        let names: Vec<&'static str> = all.iter().map(|v| leak(v.join("-"))).collect();
        let mut sorted = names.clone();
        sorted.sort();
        let mut flags: Vec<SFlag> = Vec::new();
        for v in order(n, how) {
            let rec = arena.put(false);
            flags.push(Flag::with(names[v], mode(['s', 't', 'p'][names[v].len() % 3]), rec, Some(names[v])));
        }
        let set = flag_set(&mut arena, flags);
        expect_eq!(set.len(), n, "number of flags");
        for (j, w) in sorted.iter().enumerate() {
            let f = set.flag_at(j);
            expect_eq!(f.name(), *w, "flag at {}", j);
            expect_eq!(f.help_short(), Some(*w), "help of flag at {}", j);
            expect_eq!(core::mem::discriminant(&f.mode()), core::mem::discriminant(&mode(['s', 't', 'p'][w.len() % 3])), "mode of flag at {}", j);
            expect_eq!(set.search_by(|v| v.name().cmp(w)), Ok(j), "lookup of flag {}", j);
            c.step(2);
        }
        c.trace();
        Ok(())
    });
}

/// Builtin report types: every sequence of uses of a flag.
/// Where to stop.
fn stops(n: usize) -> impl Iterator<Item = usize> {
    (0..n).filter(move |v| *v < 8 || *v + 2 > n)
}

/// Pass a text to flags of all kinds, and as parameter.
fn text_value(text: &str) -> CaseResult {
    let all: Vec<String> = ('a'..='l').map(|v| format!("--{v}={text}")).chain(["--".to_string(), text.to_string()]).collect();
    let empty = OsStr::from_str("");
    let (mut a, mut b, mut c, mut d, mut e, mut f) = (empty, None::<&OsStr>, "", None::<&str>, String::new(), None::<String>);
    let (mut g, mut h, mut i, mut j): (Vec<&OsStr>, Option<Vec<&OsStr>>, Vec<&str>, Option<Vec<&str>>) = Default::default();
    let (mut k, mut l): (Vec<String>, Option<Vec<String>>) = Default::default();
    let mut params: Vec<String> = Vec::new();
    let mut errors: Vec<Error<'_>> = Vec::new();
    let r = {
        let reports: [&mut dyn FlagReport<'_, ()>; 12] =
            [&mut a, &mut b, &mut c, &mut d, &mut e, &mut f, &mut g, &mut h, &mut i, &mut j, &mut k, &mut l];
        let mut names = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"].into_iter();
        let mut flags = FlagSet::with(reports.map(|v| Flag::with(names.next().unwrap(), FlagMode::Parse, v, None)));
        let mut set = CommandSet::with([Command::with(&[], &mut params, flags.as_mut(), None)]);
        let mut schema = Schema::with(set.as_mut());
        parse(&mut errors, &mut schema, &mut all.iter().map(|v| OsStr::from_str(v)))
    };
    ensure!(r == Ok(0) && errors.is_empty(), "result {:?} with {} errors", r, errors.len());
    let o = |v: &OsStr| v.as_encoded_bytes() == text.as_bytes();
    ensure!(o(a) && b.is_some_and(o), "bytes: observed {:?}", a.as_encoded_bytes());
    expect_eq!((c, d, e.as_str(), f.as_deref()), (text, Some(text), text, Some(text)), "text");
    ensure!(g.len() == 1 && o(g[0]) && h.is_some_and(|v| v.len() == 1 && o(v[0])), "list of bytes");
    let t = vec![text.to_string()];
    expect_eq!((i, j), (vec![text], Some(vec![text])), "list of texts");
    expect_eq!((k, l, params), (t.clone(), Some(t.clone()), t), "list of strings");
    Ok(())
}

pub fn a04(ctx: &Ctx) {
    // Uses: set/toggle/parse arguments for one flag per type, modes enumerated.
    let values: [&'static [u8]; 4] = [b"v", b"", b"\xff", "é".as_bytes()];
    // Each use: 0 => --f, 1 => --no-f, 2.. => --f=value
    let uses = 2 + values.len() as u64;
    let depth = ctx.pick(5, 6);
    let kinds = 14u64 + 3;
    let per = seq_total(uses, depth);
    ctx.bound(format!("all builtin flag reports in all 3 modes with all sequences of up to {} uses out of {}", depth, uses));
    let flag_report = |kind: u64, m: char, seq: &[usize], c: &mut Case| -> CaseResult {
        // Arguments and expected calls.
        let mut args: Vec<&'static OsStr> = Vec::new();
        #[derive(Clone, Copy)]
        enum Call { Set, Toggle(bool), Parse(&'static [u8]) }
        let mut errors: Vec<Ev> = Vec::new();
        // Errors of the parser itself, by position, are merged below.
        let mut plan: Vec<Result<Call, Ev>> = Vec::new();
        let err = |what, a: &[u8], b: Option<&[u8]>| Ev::Error { what, a: a.to_vec(), b: b.map(|v| v.to_vec()) };
        const FULL: [&[u8]; 4] = [b"--f=v", b"--f=", b"--f=\xff", "--f=é".as_bytes()];
        for u in seq {
            let (arg, value): (&'static [u8], Option<&'static [u8]>) = match u {
                0 => (b"--f", None),
                1 => (b"--no-f", None),
                n => (FULL[n - 2], Some(values[n - 2])),
            };
            match (m, u, value) {
                ('s', 0, _) => { args.push(os(arg)); plan.push(Ok(Call::Set)) },
                ('s', 1, _) | ('p', 1, _) => { args.push(os(arg)); plan.push(Err(err("FlagUnexpectedToggle", b"no-f", None))) },
                ('t', 0 | 1, _) => { args.push(os(arg)); plan.push(Ok(Call::Toggle(*u == 0))) },
                ('p', 0, _) => { args.push(os(arg)); args.push(os(b"w")); plan.push(Ok(Call::Parse(b"w"))) },
                ('p', _, Some(v)) => { args.push(os(arg)); plan.push(Ok(Call::Parse(v))) },
                (_, _, Some(v)) => { args.push(os(arg)); plan.push(Err(err("FlagUnexpectedValue", b"f", Some(v)))) },
                _ => unreachable!(),
            }
        }
        let mut arena = Arena::default();
        // Expected errors of a report that only supports some calls.
        let mut expect = |set: bool, toggle: bool, parse: u8, apply: &mut dyn FnMut(Call)| {
            // parse: 0 unsupported, 1 any bytes, 2 text only
            for p in &plan {
                match p {
                    Err(e) => errors.push(e.clone()),
                    Ok(Call::Set) if set => apply(Call::Set),
                    Ok(Call::Set) => errors.push(err("FlagNoValue", b"f", None)),
                    Ok(Call::Toggle(v)) if toggle => apply(Call::Toggle(*v)),
                    Ok(Call::Toggle(true)) if set => apply(Call::Set),
                    Ok(Call::Toggle(true)) => errors.push(err("FlagNoValue", b"f", None)),
                    Ok(Call::Toggle(false)) => errors.push(err("FlagUnexpectedToggle", b"no-f", None)),
                    Ok(Call::Parse(v)) if parse == 1 || (parse == 2 && core::str::from_utf8(v).is_ok()) => apply(Call::Parse(v)),
                    Ok(Call::Parse(v)) if parse == 2 => errors.push(err("FlagValueNotUtf8", b"f", Some(v))),
                    Ok(Call::Parse(v)) => errors.push(err("FlagUnexpectedValue", b"f", Some(v))),
                }
            }
        };
        let text = |v: &'static [u8]| core::str::from_utf8(v).unwrap();
        macro_rules! kind {
            ($ty:ty, $init:expr, $set:expr, $toggle:expr, $parse:expr, |$w:ident, $call:ident| $apply:block, $read:expr) => {{
                let mut w_store: $ty = $init;
                {
                    let $w = &mut w_store;
                    expect($set, $toggle, $parse, &mut |$call: Call| $apply);
                }
                let rec: &'static mut $ty = arena.put($init);
                let rp = rec as *mut $ty;
                let got = run_flag(&mut arena, rec, m, &args);
                let value = unsafe { &*rp };
                expect_eq!(&got, &errors, "errors");
                for stop in stops(errors.len()) {
                    let rec: &'static mut $ty = arena.put($init);
                    let got = run_flag_stop(&mut arena, rec, m, &args, Some(stop));
                    expect_eq!(&got[..], &errors[..=stop], "errors with a stop");
                    c.step(1);
                }
                #[allow(clippy::redundant_closure_call)]
                {
                    let read = $read;
                    expect_eq!(read(value), read(&w_store), "final value");
                }
            }};
        }
        type OVec = Vec<&'static OsStr>;
        match kind {
            0 => kind!(Option<()>, None, true, true, 0, |w, call| { match call { Call::Set => *w = Some(()), Call::Toggle(b) => *w = b.then_some(()), _ => {} } }, |v: &Option<()>| *v),
            1 => kind!(bool, false, true, true, 0, |w, call| { match call { Call::Set => *w = true, Call::Toggle(b) => *w = b, _ => {} } }, |v: &bool| *v),
            2 => kind!(&'static OsStr, os(b"init"), false, false, 1, |w, call| { if let Call::Parse(v) = call { *w = os(v) } }, |v: &&'static OsStr| v.as_encoded_bytes()),
            3 => kind!(Option<&'static OsStr>, None, false, false, 1, |w, call| { if let Call::Parse(v) = call { *w = Some(os(v)) } }, |v: &Option<&'static OsStr>| v.map(|v| v.as_encoded_bytes())),
            4 => kind!(&'static str, "init", false, false, 2, |w, call| { if let Call::Parse(v) = call { *w = text(v) } }, |v: &&'static str| *v),
            5 => kind!(Option<&'static str>, None, false, false, 2, |w, call| { if let Call::Parse(v) = call { *w = Some(text(v)) } }, |v: &Option<&'static str>| *v),
            6 => kind!(String, "init".into(), false, false, 2, |w, call| { if let Call::Parse(v) = call { *w = text(v).into() } }, |v: &String| v.clone()),
            7 => kind!(Option<String>, Some("init".into()), false, false, 2, |w, call| { if let Call::Parse(v) = call { *w = Some(text(v).into()) } }, |v: &Option<String>| v.clone()),
            8 => kind!(OVec, vec![os(b"init")], false, false, 1, |w, call| { if let Call::Parse(v) = call { w.push(os(v)) } }, |v: &OVec| v.iter().map(|v| v.as_encoded_bytes()).collect::<Vec<_>>()),
            9 => kind!(Option<OVec>, None, false, false, 1, |w, call| { if let Call::Parse(v) = call { w.get_or_insert_with(Vec::new).push(os(v)) } }, |v: &Option<OVec>| v.as_ref().map(|v| v.iter().map(|v| v.as_encoded_bytes()).collect::<Vec<_>>())),
            10 => kind!(Vec<&'static str>, vec!["init"], false, false, 2, |w, call| { if let Call::Parse(v) = call { w.push(text(v)) } }, |v: &Vec<&'static str>| v.clone()),
            11 => kind!(Option<Vec<&'static str>>, None, false, false, 2, |w, call| { if let Call::Parse(v) = call { w.get_or_insert_with(Vec::new).push(text(v)) } }, |v: &Option<Vec<&'static str>>| v.clone()),
            12 => kind!(Vec<String>, vec!["init".into()], false, false, 2, |w, call| { if let Call::Parse(v) = call { w.push(text(v).into()) } }, |v: &Vec<String>| v.clone()),
            13 => kind!(Option<Vec<String>>, None, false, false, 2, |w, call| { if let Call::Parse(v) = call { w.get_or_insert_with(Vec::new).push(text(v).into()) } }, |v: &Option<Vec<String>>| v.clone()),
            14 => {
                // Shared Cell.
                let mut w = false;
                expect(true, true, 0, &mut |call| match call { Call::Set => w = true, Call::Toggle(b) => w = b, _ => {} });
                let cell: &'static core::cell::Cell<bool> = arena.put(core::cell::Cell::new(false));
                let rec = arena.put(Shared::with(cell));
                let got = run_flag(&mut arena, rec, m, &args);
                expect_eq!(&got, &errors, "errors");
                expect_eq!(cell.get(), w, "final value");
            },
            15 => {
                let mut w: Option<&'static str> = None;
                expect(false, false, 2, &mut |call| if let Call::Parse(v) = call { w = Some(text(v)) });
                let cell: &'static core::cell::Cell<Option<&'static str>> = arena.put(core::cell::Cell::new(None));
                let rec = arena.put(Shared::with(cell));
                let got = run_flag(&mut arena, rec, m, &args);
                expect_eq!(&got, &errors, "errors");
                expect_eq!(cell.get(), w, "final value");
            },
            _ => {
                // Shared RefCell with a collector, used through two flags.
                let mut w: Vec<String> = Vec::new();
                expect(false, false, 2, &mut |call| if let Call::Parse(v) = call { w.push(text(v).into()) });
                let cell: &'static RefCell<Vec<String>> = arena.put(RefCell::new(Vec::new()));
                let rec = arena.put(Shared::with(cell));
                let got = run_flag(&mut arena, rec, m, &args);
                expect_eq!(&got, &errors, "errors");
                expect_eq!(cell.borrow().clone(), w, "final value");
            },
        }
        c.step(args.len() as u64);
        c.state(&(kind, m, seq));
        c.trace();
        Ok(())
    };
    ctx.explore("flag-reports", kinds * 3 * per, |i| {
        let v = mixed(i, &[kinds, 3, per]);
        format!("report {}, mode {}, uses {:?}", v[0], ['s', 't', 'p'][v[1] as usize], seq_at(uses, v[2]))
    }, |i, c| {
        let v = mixed(i, &[kinds, 3, per]);
        flag_report(v[0], ['s', 't', 'p'][v[1] as usize], &seq_at(uses, v[2]), c)
    });

    // Any pair of uses, repeated.
    let sizes: [usize; 12] = [15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 1025, 5000];
    let radix = [kinds, 3, uses, uses, sizes.len() as u64];
    ctx.bound("the same with repeated pairs of uses, up to 5000 in total");
    ctx.explore("many-uses", radix.iter().product(), |i| {
        let v = mixed(i, &radix);
        format!("report {}, mode {}, {} uses of {} and {}", v[0], v[1], sizes[v[4] as usize], v[2], v[3])
    }, |i, c| {
        let v = mixed(i, &radix);
        let seq: Vec<usize> = (0..sizes[v[4] as usize]).map(|n| v[2 + n % 2] as usize).collect();
        flag_report(v[0], ['s', 't', 'p'][v[1] as usize], &seq, c)
    });

    // Every character as text.
    ctx.bound("all characters alone, at the start, and at the end of a value and a parameter, with all builtin reports");
    ctx.explore("characters", 0x1100, |i| format!("characters from U+{:04X} on", i * 0x100), |i, c| {
        for ch in (i as u32 * 0x100..(i as u32 + 1) * 0x100).filter_map(char::from_u32) {
            for s in [format!("{ch}"), format!("{ch}v"), format!("v{ch}")] {
                text_value(&s)?;
                c.step(13);
            }
            c.state(&ch);
            c.trace();
        }
        Ok(())
    });

    // Command reports: every sequence of parameters.
    let params: [&'static [u8]; 5] = [b"v", b"", b"\xff", "é".as_bytes(), b"--"];
    let k = params.len() as u64;
    let depth = ctx.pick(5, 7);
    let per = seq_total(k, depth);
    ctx.bound(format!("all builtin command reports with all lists of up to {} out of {} parameters", depth, k));
    let command_report = |kind: u64, seq: &[usize], c: &mut Case| -> CaseResult {
        let mut args: Vec<&'static OsStr> = vec![os(b"--")];
        let list: Vec<&'static [u8]> = seq.iter().map(|v| params[*v]).collect();
        args.extend(list.iter().map(|v| os(v)));
        let mut arena = Arena::default();
        let text: Vec<&'static str> = list.iter().filter_map(|v| core::str::from_utf8(v).ok()).collect();
        let bad = |what: &'static str, all: bool| -> Vec<Ev> {
            list.iter().filter(|v| all || core::str::from_utf8(v).is_err()).map(|v| Ev::Error { what, a: v.to_vec(), b: None }).collect()
        };
        type OVec = Vec<&'static OsStr>;
        match kind {
            0 => {
                let rec = arena.put(());
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, bad("ParameterUnexpected", true), "errors");
            },
            1 => {
                let rec: &'static mut OVec = arena.put(OVec::new());
                let p = rec as *mut OVec;
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, vec![], "errors");
                expect_eq!(unsafe { &*p }.iter().map(|v| v.as_encoded_bytes()).collect::<Vec<_>>(), list.clone(), "value");
            },
            2 => {
                let rec: &'static mut Option<OVec> = arena.put(None);
                let p = rec as *mut Option<OVec>;
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, vec![], "errors");
                let want = (!list.is_empty()).then_some(list.clone());
                expect_eq!(unsafe { &*p }.as_ref().map(|v| v.iter().map(|v| v.as_encoded_bytes()).collect::<Vec<_>>()), want, "value");
            },
            3 => {
                let rec: &'static mut Vec<&'static str> = arena.put(Vec::new());
                let p = rec as *mut Vec<&'static str>;
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, bad("ParameterNotUtf8", false), "errors");
                expect_eq!(unsafe { &*p }, &text, "value");
            },
            4 => {
                let rec: &'static mut Option<Vec<&'static str>> = arena.put(None);
                let p = rec as *mut Option<Vec<&'static str>>;
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, bad("ParameterNotUtf8", false), "errors");
                expect_eq!(unsafe { &*p }, &(!text.is_empty()).then_some(text.clone()), "value");
            },
            5 => {
                let rec: &'static mut Vec<String> = arena.put(Vec::new());
                let p = rec as *mut Vec<String>;
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, bad("ParameterNotUtf8", false), "errors");
                expect_eq!(unsafe { &*p }, &text, "value");
            },
            _ => {
                let rec: &'static mut Option<Vec<String>> = arena.put(None);
                let p = rec as *mut Option<Vec<String>>;
                let got = run_cmd(&mut arena, rec, &args);
                expect_eq!(got, bad("ParameterNotUtf8", false), "errors");
                let want: Vec<String> = text.iter().map(|v| v.to_string()).collect();
                expect_eq!(unsafe { &*p }, &(!text.is_empty()).then_some(want), "value");
            },
        }
        // Stop at each of the errors.
        let errors = match kind {
            0 => bad("ParameterUnexpected", true),
            1 | 2 => Vec::new(),
            _ => bad("ParameterNotUtf8", false),
        };
        for stop in stops(errors.len()) {
            let rec: &'static mut dyn CommandReport<'static, R> = match kind {
                0 => arena.put(()),
                3 => arena.put(Vec::<&'static str>::new()),
                4 => arena.put(Option::<Vec<&'static str>>::None),
                5 => arena.put(Vec::<String>::new()),
                _ => arena.put(Option::<Vec<String>>::None),
            };
            let got = run_cmd_stop(&mut arena, rec, &args, Some(stop));
            expect_eq!(&got[..], &errors[..=stop], "errors with a stop");
            c.step(1);
        }
        c.step(args.len() as u64);
        c.state(&(kind, seq));
        c.trace();
        Ok(())
    };
    ctx.explore("command-reports", 7 * per, |i| format!("report {}, parameters {:?}", i % 7, seq_at(k, i / 7)), |i, c| {
        command_report(i % 7, &seq_at(k, i / 7), c)
    });
    let radix = [7, k, k, sizes.len() as u64];
    ctx.bound("the same with repeated pairs of parameters, up to 5000 in total");
    ctx.explore("many-parameters", radix.iter().product(), |i| {
        let v = mixed(i, &radix);
        format!("report {}, {} parameters {} and {}", v[0], sizes[v[3] as usize], v[1], v[2])
    }, |i, c| {
        let v = mixed(i, &radix);
        let seq: Vec<usize> = (0..sizes[v[3] as usize]).map(|n| v[1 + n % 2] as usize).collect();
        command_report(v[0], &seq, c)
    });

    // The builtin error collector.
    ctx.explore("many-errors", sizes.len() as u64, |i| format!("{} errors", sizes[i as usize]), |i, c| {
        let mut arena = Arena::default();
        let n = sizes[i as usize];
        let kinds: [&'static OsStr; 3] = [os(b"-a"), os(b"--b"), os(b"c")];
        let path: &'static [&'static str] = &[];
        let rec = arena.put(());
        let fs = arena.put(FlagSet::<'static, 'static, 0, ()>::with([]));
        let cs = arena.put(CommandSet::with([Command::with(path, rec, fs.as_mut(), None)]));
        let mut schema = Schema::with(cs.as_mut());
        let mut errors: Vec<Error<'static>> = Vec::new();
        let r = parse(&mut errors, &mut schema, &mut (0..n).map(|v| kinds[v % 3]));
        expect_eq!(r, Ok(0), "result");
        let e = |what, a: &[u8]| Ev::Error { what, a: a.to_vec(), b: None };
        let want = [e("ShortsUnknown", b"a"), e("FlagUnknown", b"b"), e("ParameterUnexpected", b"c")];
        expect_eq!(errors.len(), n, "number of errors");
        for (k, v) in errors.iter().enumerate() {
            expect_eq!(&error_event(v), &want[k % 3], "error {}", k);
        }
        c.step(n as u64);
        c.state(&n);
        c.trace();
        Ok(())
    });
    ctx.single("error-collector", "errors are collected in order", |c| {
        let mut arena = Arena::default();
        let args: [&'static OsStr; 3] = [os(b"-a"), os(b"--b"), os(b"c")];
        let path: &'static [&'static str] = &[];
        let rec = arena.put(());
        let fs = arena.put(FlagSet::<'static, 'static, 0, ()>::with([]));
        let cs = arena.put(CommandSet::with([Command::with(path, rec, fs.as_mut(), None)]));
        let mut schema = Schema::with(cs.as_mut());
        let mut errors: Vec<Error<'static>> = Vec::new();
        let r = parse(&mut errors, &mut schema, &mut args.iter().copied());
        expect_eq!(r, Ok(0), "result");
        let got: Vec<Ev> = errors.iter().map(error_event).collect();
        let e = |what, a: &[u8]| Ev::Error { what, a: a.to_vec(), b: None };
        expect_eq!(got, vec![e("ShortsUnknown", b"a"), e("FlagUnknown", b"b"), e("ParameterUnexpected", b"c")], "errors");
        c.step(3);
        c.trace();
        Ok(())
    });
}

/// Run with a single root command with the single flag `f`; yield the errors.
fn run_flag(arena: &mut Arena, rec: &'static mut dyn FlagReport<'static, R>, m: char, args: &[&'static OsStr]) -> Vec<Ev> {
    run_flag_stop(arena, rec, m, args, None)
}

/// Like `run_flag()`, but stop at the given error.
fn run_flag_stop(arena: &mut Arena, rec: &'static mut dyn FlagReport<'static, R>, m: char, args: &[&'static OsStr], stop: Option<usize>) -> Vec<Ev> {
    let log: &'static RefCell<Log> = arena.put(RefCell::new(Log { ev: Vec::new(), stop, owners: vec![0] }));
    let path: &'static [&'static str] = &[];
    let flags = flag_set(arena, vec![Flag::with("f", mode(m), rec, None)]);
    let unit = arena.put(());
    let set = command_set(arena, vec![Command::with(path, unit, flags, None)]);
    let mut schema = Schema::with(set);
    let r = parse(&mut ParserRec { log }, &mut schema, &mut args.iter().copied());
    if r != stop.map_or(Ok(0), |v| Err(Some((v + 1) * 13))) {
        return vec![Ev::Error { what: "wrong command", a: Vec::new(), b: None }];
    }
    let v = log.borrow().ev.clone();
    v
}

/// Run with a single root command; yield the errors.
fn run_cmd(arena: &mut Arena, rec: &'static mut dyn CommandReport<'static, R>, args: &[&'static OsStr]) -> Vec<Ev> {
    run_cmd_stop(arena, rec, args, None)
}

/// Like `run_cmd()`, but stop at the given error.
fn run_cmd_stop(arena: &mut Arena, rec: &'static mut dyn CommandReport<'static, R>, args: &[&'static OsStr], stop: Option<usize>) -> Vec<Ev> {
    let log: &'static RefCell<Log> = arena.put(RefCell::new(Log { ev: Vec::new(), stop, owners: vec![0] }));
    let path: &'static [&'static str] = &[];
    let flags = flag_set(arena, Vec::new());
    let set = command_set(arena, vec![Command::with(path, rec, flags, None)]);
    let mut schema = Schema::with(set);
    let r = parse(&mut ParserRec { log }, &mut schema, &mut args.iter().copied());
    if r != stop.map_or(Ok(0), |v| Err(Some((v + 1) * 13))) {
        return vec![Ev::Error { what: "wrong command", a: Vec::new(), b: None }];
    }
    let v = log.borrow().ev.clone();
    v
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum HEv {
    Info(String),
    Section(String),
    Usage(String, Vec<String>),
    Flag(String, char, Option<String>, usize),
    Command(String, Option<String>, usize),
}

#[derive(Default)]
struct HLog {
    ev: Vec<HEv>,
    stop: Option<usize>,
}

impl HLog {
    fn add(&mut self, e: HEv) -> ControlFlow<u32> {
        self.ev.push(e);
        if self.stop == Some(self.ev.len() - 1) { ControlFlow::Break(77) } else { ControlFlow::Continue(()) }
    }
}

impl help::Write<u32> for HLog {
    fn write_info(&mut self, info: &str) -> ControlFlow<u32> {
        self.add(HEv::Info(info.into()))
    }
    fn write_section(&mut self, v: &str) -> ControlFlow<u32> {
        self.add(HEv::Section(v.into()))
    }
    fn write_usage(&mut self, entry: &str, path: &[&str]) -> ControlFlow<u32> {
        self.add(HEv::Usage(entry.into(), path.iter().map(|v| v.to_string()).collect()))
    }
    fn write_flag(&mut self, flag: &str, mode: FlagMode, info: Option<&str>, width: usize) -> ControlFlow<u32> {
        let m = match mode {
            FlagMode::Set => 's',
            FlagMode::Toggle => 't',
            FlagMode::Parse => 'p',
        };
        self.add(HEv::Flag(flag.into(), m, info.map(|v| v.into()), width))
    }
    fn write_command(&mut self, command: &str, info: Option<&str>, width: usize) -> ControlFlow<u32> {
        self.add(HEv::Command(command.into(), info.map(|v| v.into()), width))
    }
}

pub fn a06(ctx: &Ctx) {
    let p: Vec<Vec<&'static str>> = vec![
        vec![], vec!["a"], vec!["bé"], vec!["a", "a"], vec!["a", "bcd"], vec!["a", "bcd", "a"], vec!["bé", "a", "b"], vec!["ab"],
    ];
    let extra: [&[(&'static str, char)]; 3] = [&[], &[("zé", 'p')], &[("longer", 't'), ("a", 's')]];
    let n = p.len();
    let alpha: [&'static [u8]; 6] = [b"a", b"bcd", b"--help", b"--no-help", "bé".as_bytes(), b"ab"];
    let k = alpha.len() as u64;
    let depth = ctx.pick(5, 6);
    let per = seq_total(k, depth);
    ctx.bound(format!("all subsets of {} command paths with help flags on all commands or the first, settable or toggleable, all lists of up to {} out of {} arguments, writer breaking at any call", n, depth, k));
    let total = (1u64 << n) * per;
    ctx.explore("help", total, |i| format!("commands {:?}, arguments {:?}", (0..n).filter(|b| i % (1 << n) >> b & 1 == 1).map(|b| &p[b]).collect::<Vec<_>>(), seq_at(k, i >> n)), |i, c| {
        let sel: Vec<usize> = (0..n).filter(|b| i % (1 << n) >> b & 1 == 1).collect();
        let args: Vec<&'static OsStr> = seq_at(k, i >> n).into_iter().map(|v| os(alpha[v])).collect();
        // Derive the variant from the case, such that all of them occur.
        let toggle = (i >> 3) % 2 == 0;
        let everywhere = (i >> 5) % 2 == 0;
        let mut arena = Arena::default();
        let hp: &'static help::Help<'static> = arena.put(help::Help::with("prog", "the info\ntext"));
        let mut cmds: Vec<SCmd> = Vec::new();
        let mut specs: Spec = Vec::new();
        for (j, s) in sel.iter().enumerate() {
            let path: &'static Vec<&'static str> = arena.put(p[*s].clone());
            let mut sf: Vec<(&'static str, char)> = extra[(*s + i as usize) % 3].to_vec();
            let mut flags: Vec<SFlag> = Vec::new();
            for (nm, m) in &sf {
                let rec = arena.put(Option::<()>::None);
                flags.push(Flag::with(nm, mode(*m), rec, (*m == 'p').then_some("fhelp")));
            }
            if everywhere || j == 0 {
                let m = if toggle { 't' } else { 's' };
                sf.push(("help", m));
                let rec = arena.put(hp.flag());
                flags.push(Flag::with("help", mode(m), rec, Some("show help")));
            }
            let fs = flag_set(&mut arena, flags);
            let rec: &'static mut Vec<&'static OsStr> = arena.put(Vec::new());
            cmds.push(Command::with(path, rec, fs, (*s % 2 == 0).then_some("chelp")));
            sf.sort();
            specs.push(CmdSpec { path: p[*s].clone(), flags: sf });
        }
        shuffle(&mut cmds, i);
        let set = command_set(&mut arena, cmds);
        let mut schema = Schema::with(set);
        let log: &'static RefCell<Log> = arena.put(RefCell::new(Log { ev: Vec::new(), stop: None, owners: vec![] }));
        let _ = parse(&mut ParserRec { log }, &mut schema, &mut args.iter().copied());
        // Model: the last effective use of a help flag decides.
        let (ev, _) = run_model(&specs, &args);
        let mut at: Option<usize> = None;
        for e in &ev {
            match e {
                Ev::Set { flag: "help", current, .. } => at = Some(*current),
                Ev::Toggle { flag: "help", current, value, .. } => at = if *value { Some(*current) } else { None },
                _ => {},
            }
        }
        let mut want: Vec<HEv> = Vec::new();
        if let Some(at) = at {
            let s = &specs[at];
            let path: Vec<String> = s.path.iter().map(|v| v.to_string()).collect();
            want.push(HEv::Info("the info\ntext".into()));
            want.push(HEv::Section("Usage".into()));
            want.push(HEv::Usage("prog".into(), path.clone()));
            if !s.flags.is_empty() {
                want.push(HEv::Section("Flags".into()));
                let w = s.flags.iter().map(|v| v.0.chars().count()).max().unwrap();
                for (nm, m) in &s.flags {
                    let info = if *nm == "help" { Some("show help".to_string()) } else { (*m == 'p').then(|| "fhelp".to_string()) };
                    want.push(HEv::Flag(nm.to_string(), *m, info, w));
                }
            }
            let mut subs: Vec<(usize, &str)> = sel.iter().filter(|v| p[**v].len() == s.path.len() + 1 && p[**v].starts_with(&s.path)).map(|v| (*v, p[*v][s.path.len()])).collect();
            subs.sort_by_key(|v| v.1);
            if !subs.is_empty() {
                want.push(HEv::Section("Commands".into()));
                let w = subs.iter().map(|v| v.1.chars().count()).max().unwrap();
                for (v, nm) in &subs {
                    want.push(HEv::Command(nm.to_string(), (*v % 2 == 0).then(|| "chelp".to_string()), w));
                }
            }
            c.feature("help requested");
        }
        for f in 0..2 {
            let mut h = HLog::default();
            let r = if f == 0 { hp.help(&mut h, &schema) } else { hp.try_help(&mut h, &schema) };
            expect_eq!(r, Ok(at.is_some()), "result");
            expect_eq!(&h.ev, &want, "help");
            c.step(1);
        }
        // A failing writer is reported and ends the output.
        for stop in 0..want.len() {
            let mut h = HLog { stop: Some(stop), ..Default::default() };
            expect_eq!(hp.help(&mut h, &schema), Err(77), "result of a failing writer");
            expect_eq!(&h.ev[..], &want[..stop + 1], "help up to the failure");
            c.step(1);
        }
        c.state(&(&want, &sel));
        c.trace();
        Ok(())
    });
    // Every character in names and texts, and texts that are empty.
    ctx.bound("help with all characters in names of flags and commands and in texts, and all combinations of missing, empty, and given texts");
    ctx.explore("characters", 0x1100, |i| format!("characters from U+{:04X} on", i * 0x100), |i, c| {
        for ch in (i as u32 * 0x100..(i as u32 + 1) * 0x100).filter_map(char::from_u32) {
            let name = format!("xxx{ch}y");
            let text = format!("{ch} {ch}");
            help_text(&text, &text, &name, Some(&text), Some(&text), c)?;
            c.state(&ch);
            c.trace();
        }
        Ok(())
    });
    let texts = [None, Some(""), Some(" "), Some("t"), Some("\n"), Some("t\nu"), Some("-")];
    let n = texts.len() as u64;
    let radix = [n, n, n, n, 3];
    ctx.explore("texts", radix.iter().product(), |i| format!("texts {:?}", mixed(i, &radix)), |i, c| {
        let d = mixed(i, &radix);
        let t = |i: usize| texts[d[i] as usize];
        help_text(t(0).unwrap_or("prog"), t(1).unwrap_or("info"), ["", "a", "zzzzzz"][d[4] as usize], t(2), t(3), c)?;
        c.state(&d);
        c.trace();
        Ok(())
    });
    large_help(ctx);
}

/// Help of a command with a single flag and sub-command of the given name.
fn help_text(entry: &str, info: &str, name: &str, flag: Option<&str>, cmd: Option<&str>, c: &mut Case) -> CaseResult {
    let hp = help::Help::with(entry, info);
    let (mut a, mut b) = ((), ());
    let mut v = None::<()>;
    let mut h = hp.flag();
    let path = [name];
    let mut flags = FlagSet::with([Flag::with(name, FlagMode::Toggle, &mut v, flag), Flag::with("help", FlagMode::Set, &mut h, None)]);
    let mut none = FlagSet::with([]);
    let mut set = CommandSet::with([Command::with(&path, &mut b, none.as_mut(), cmd), Command::with(&[], &mut a, flags.as_mut(), None)]);
    let mut schema = Schema::<()>::with(set.as_mut());
    let mut errors: Vec<Error<'_>> = Vec::new();
    let r = parse(&mut errors, &mut schema, &mut [os(b"--help")].into_iter());
    ensure!(r == Ok(0) && errors.is_empty(), "result {:?} with {} errors", r, errors.len());
    let own = |v: Option<&str>| v.map(|v| v.to_string());
    let w = name.chars().count();
    let mut list = [(name, 't', own(flag)), ("help", 's', None)];
    list.sort();
    let mut want = vec![
        HEv::Info(info.into()),
        HEv::Section("Usage".into()),
        HEv::Usage(entry.into(), Vec::new()),
        HEv::Section("Flags".into()),
    ];
    want.extend(list.into_iter().map(|v| HEv::Flag(v.0.into(), v.1, v.2, w.max(4))));
    want.extend([HEv::Section("Commands".into()), HEv::Command(name.into(), own(cmd), w)]);
    let mut h = HLog::default();
    expect_eq!(hp.help(&mut h, &schema), Ok(true), "result");
    expect_eq!(h.ev, want, "help");
    c.step(1);
    Ok(())
}

/// Help of large layouts: columns, order, and completeness.
fn large_help(ctx: &Ctx) {
    ctx.bound("help for up to 257 flags, commands, or layers, and for names of up to 257 characters at any position");
    let radix = [SIZES.len() as u64, 4, 2];
    ctx.explore("large", radix.iter().product(), |i| format!("{:?}", mixed(i, &radix)), |i, c| {
        let d = mixed(i, &radix);
        let n = SIZES[d[0] as usize];
        let unit = if d[2] == 0 { "x" } else { "é" };
        let mut arena = Arena::default();
        let hp: &'static help::Help<'static> = arena.put(help::Help::with(leak(unit.repeat(n)), leak(format!("{}\n", unit.repeat(n * 3)))));
        let text = |arena: &mut Arena, v: String| -> &'static str { arena.put(v).as_str() };
        // The help flag resides on the command the help is requested for.
        let mut here: Vec<&'static str> = Vec::new();
        let mut flags: Vec<(&'static str, char, Option<&'static str>)> = vec![("help", 's', None)];
        let mut subs: Vec<(&'static str, Option<&'static str>)> = Vec::new();
        let mut rest: Vec<Vec<&'static str>> = Vec::new();
        match d[1] {
            0 => {
                for v in 0..n {
                    let nm = text(&mut arena, format!("{}{}", unit, v));
                    flags.push((nm, ['s', 't', 'p'][v % 3], (v % 2 == 0).then_some(nm)));
                }
            },
            1 => {
                for v in 0..n {
                    let nm = text(&mut arena, format!("{}{}", unit, v));
                    subs.push((nm, (v % 2 == 0).then_some(nm)));
                }
            },
            2 => {
                here = vec![unit; n];
                subs.push((unit, None));
                rest.push(vec![unit; n - 1]);
                rest.push(vec![unit; n + 2]);
            },
            _ => {
                let long = text(&mut arena, unit.repeat(n));
                let more = text(&mut arena, unit.repeat(n + 1));
                flags.push((long, 'p', Some(long)));
                flags.push(("b", 't', Some("i")));
                subs.push((more, Some(long)));
                subs.push(("b", None));
            },
        }
        let mut cmds: Vec<SCmd> = Vec::new();
        let mut fl: Vec<SFlag> = Vec::new();
        for (nm, m, info) in &flags {
            if *nm == "help" {
                let rec = arena.put(hp.flag());
                fl.push(Flag::with(nm, mode(*m), rec, *info));
            } else {
                let rec = arena.put(Option::<()>::None);
                fl.push(Flag::with(nm, mode(*m), rec, *info));
            }
        }
        shuffle(&mut fl, i);
        let fs = flag_set(&mut arena, fl);
        let rec: &'static mut Vec<&'static OsStr> = arena.put(Vec::new());
        let path: &'static Vec<&'static str> = arena.put(here.clone());
        cmds.push(Command::with(path, rec, fs, None));
        for (v, info) in subs.iter().map(|v| ([&here[..], &[v.0]].concat(), v.1)).chain(rest.into_iter().map(|v| (v, None))) {
            let fs = flag_set(&mut arena, Vec::new());
            let rec: &'static mut Vec<&'static OsStr> = arena.put(Vec::new());
            let path: &'static Vec<&'static str> = arena.put(v);
            cmds.push(Command::with(path, rec, fs, info));
        }
        shuffle(&mut cmds, i / 2);
        let set = command_set(&mut arena, cmds);
        let mut schema = Schema::with(set);
        let mut args: Vec<&'static OsStr> = here.iter().map(|v| os(v.as_bytes())).collect();
        args.push(os(b"--help"));
        let log: &'static RefCell<Log> = arena.put(RefCell::new(Log { ev: Vec::new(), stop: None, owners: vec![] }));
        let _ = parse(&mut ParserRec { log }, &mut schema, &mut args.iter().copied());
        expect_eq!(log.borrow().ev.len(), 0, "errors");
        flags.sort();
        subs.sort();
        let own = |v: &Option<&str>| v.map(|v| v.to_string());
        let mut want: Vec<HEv> = vec![
            HEv::Info(format!("{}\n", unit.repeat(n * 3))),
            HEv::Section("Usage".into()),
            HEv::Usage(unit.repeat(n), here.iter().map(|v| v.to_string()).collect()),
            HEv::Section("Flags".into()),
        ];
        let w = flags.iter().map(|v| v.0.chars().count()).max().unwrap();
        want.extend(flags.iter().map(|v| HEv::Flag(v.0.into(), v.1, own(&v.2), w)));
        if let Some(w) = subs.iter().map(|v| v.0.chars().count()).max() {
            want.push(HEv::Section("Commands".into()));
            want.extend(subs.iter().map(|v| HEv::Command(v.0.into(), own(&v.1), w)));
        }
        let mut h = HLog::default();
        expect_eq!(hp.help(&mut h, &schema), Ok(true), "result");
        expect_eq!(&h.ev, &want, "help");
        for stop in 0..want.len() {
            let mut h = HLog { stop: Some(stop), ..Default::default() };
            expect_eq!(hp.help(&mut h, &schema), Err(77), "result of a failing writer");
            expect_eq!(h.ev.len(), stop + 1, "help up to the failure");
            c.step(1);
        }
        c.step(1);
        c.state(&want);
        c.trace();
        Ok(())
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("A01", a01),
        ("A02", a02),
        ("A03", a03),
        ("A04", a04),
        ("A05", a05),
        ("A06", a06),
    ])
}
