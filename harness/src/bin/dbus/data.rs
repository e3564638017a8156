//! D-Bus encoder and decoder.

use crate::sig::{dvar_align, reference, show, types, Node};
use mc::mapio::*;
use mc::engine::*;
use mc::memory;
use mc::{ensure, expect_eq};
use core::ops::ControlFlow as Flow;
use osi::mown::Mown;
use std::sync::{Arc, OnceLock};
use tmp::fmt::dbus::dvar::{Dec, Enc, Format};
use tmp::fmt::dbus::{ende, Error, Sig};
use tmp::io::map;

/// Types used as content of variants.
const VARIANTS: &[&str] = &["q", "s", "at", "(qs)", "v", "a{sv}", "(uv)", "as"];

fn variant_sig(i: usize) -> &'static Sig {
    static ALL: OnceLock<Vec<Box<Sig>>> = OnceLock::new();
    &ALL.get_or_init(|| VARIANTS.iter().map(|v| Sig::new(v.as_bytes()).unwrap()).collect())[i]
}

/// A value of a D-Bus type.
#[derive(Clone, Debug)]
enum Value {
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Obj(String),
    Sig(String),
    Var(usize, Box<Value>),
    Arr(u8, Vec<Value>),
    Struct(Vec<Value>),
    Dict(Box<Value>, Box<Value>),
}

/// Enumerates all sequences of choices, up to a number of choices. All further
/// choices are the first option.
struct Choices {
    digits: Vec<(usize, usize)>,
    at: usize,
    max: usize,
}

impl Choices {
    fn new(max: usize) -> Self {
        Self { digits: Vec::new(), at: 0, max }
    }

    fn pick(&mut self, n: usize) -> usize {
        if self.at >= self.max {
            return 0;
        }
        if self.at == self.digits.len() {
            self.digits.push((0, n));
        }
        let v = self.digits[self.at];
        assert_eq!(v.1, n);
        self.at += 1;
        v.0
    }

    /// Advance to the next sequence.
    fn next(&mut self) -> bool {
        self.at = 0;
        while let Some((v, n)) = self.digits.pop() {
            if v + 1 < n {
                self.digits.push((v + 1, n));
                return true;
            }
        }
        false
    }
}

/// Build a value of the type at the given index.
fn build(text: &[u8], nodes: &[Node], idx: usize, ch: &mut Choices, depth: usize) -> Value {
    const STR: &[&str] = &["a", "", "abc", "\u{e9}\0xy", "abcdefg"];
    match text[idx] {
        b'q' => Value::U16([0x0102, 0xfffe][ch.pick(2)]),
        b'u' => Value::U32([0x01020304, 0xfffefdfc][ch.pick(2)]),
        b't' => Value::U64([0x0102030405060708, 0xfffefdfcfbfaf9f8][ch.pick(2)]),
        b's' => Value::Str(STR[ch.pick(5)].to_string()),
        b'o' => Value::Obj(["/", "/ab", "", "/abcdefg"][ch.pick(4)].to_string()),
        b'g' => Value::Sig(["y", "", "a{sv}ii", "\u{e9}"][ch.pick(4)].to_string()),
        b'v' => {
            let k = if depth > 2 { 0 } else { ch.pick(VARIANTS.len()) };
            let t = VARIANTS[k].as_bytes();
            let n = reference(t).unwrap();
            Value::Var(k, Box::new(build(t, &n, 0, ch, depth + 1)))
        },
        b'a' => {
            let n = ch.pick(3);
            // Arrays that are not empty come first.
            let n = [1, 0, 2][n];
            Value::Arr(text[idx + 1], (0..n).map(|_| build(text, nodes, idx + 1, ch, depth)).collect())
        },
        b'(' => {
            let mut v = Vec::new();
            let mut k = idx + 1;
            while text[k] != b')' {
                v.push(build(text, nodes, k, ch, depth));
                k += nodes[k].len;
            }
            Value::Struct(v)
        },
        b'{' => Value::Dict(
            Box::new(build(text, nodes, idx + 1, ch, depth)),
            Box::new(build(text, nodes, idx + 2, ch, depth)),
        ),
        _ => unreachable!(),
    }
}

fn pad(out: &mut Vec<u8>, align: usize) {
    while out.len() % align != 0 {
        out.push(0);
    }
}

fn num(out: &mut Vec<u8>, be: bool, v: u64, n: usize) {
    pad(out, n);
    let b = v.to_be_bytes();
    let b = &b[8 - n..];
    if be {
        out.extend(b);
    } else {
        out.extend(b.iter().rev());
    }
}

/// Marshal a value as described by the D-Bus specification.
fn marshal(v: &Value, be: bool, out: &mut Vec<u8>) {
    match v {
        Value::U16(v) => num(out, be, *v as u64, 2),
        Value::U32(v) => num(out, be, *v as u64, 4),
        Value::U64(v) => num(out, be, *v, 8),
        Value::Str(v) | Value::Obj(v) => {
            num(out, be, v.len() as u64, 4);
            out.extend(v.as_bytes());
            out.push(0);
        },
        Value::Sig(v) => {
            out.push(v.len() as u8);
            out.extend(v.as_bytes());
            out.push(0);
        },
        Value::Var(k, v) => {
            out.push(VARIANTS[*k].len() as u8);
            out.extend(VARIANTS[*k].as_bytes());
            out.push(0);
            marshal(v, be, out);
        },
        Value::Arr(el, v) => {
            num(out, be, 0, 4);
            let at = out.len() - 4;
            pad(out, 1 << dvar_align(*el));
            let from = out.len();
            for v in v {
                marshal(v, be, out);
            }
            let n = (out.len() - from) as u32;
            let n = if be { n.to_be_bytes() } else { n.to_le_bytes() };
            out[at..at + 4].copy_from_slice(&n);
        },
        Value::Struct(v) => {
            pad(out, 8);
            for v in v {
                marshal(v, be, out);
            }
        },
        Value::Dict(k, v) => {
            pad(out, 8);
            marshal(k, be, out);
            marshal(v, be, out);
        },
    }
}

/// An operation on an encoder.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Op {
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Obj(String),
    Sig(String),
    Var(usize, bool),
    Array,
    Struct,
    Dict,
    Close,
    Commit,
    Enter,
    EnterWith(String),
    Leave,
}

/// How much sub-encoders are used: never, for every type with the signature
/// implied or given, for every second level, for any set of levels, or for one
/// level.
#[derive(Clone, Copy, Debug)]
enum Subs {
    Never,
    Always,
    With,
    Alternate,
    Members,
    Levels(u64),
    Only(usize),
}

impl Subs {
    fn at(self, level: usize) -> bool {
        match self {
            Subs::Never => false,
            Subs::Always | Subs::With => true,
            Subs::Alternate => level % 2 == 0,
            Subs::Members => level % 2 == 1,
            Subs::Levels(v) => level < 64 && v & (1 << level) != 0,
            Subs::Only(v) => level == v,
        }
    }
}

const SUBS: &[Subs] = &[Subs::Never, Subs::Always, Subs::With, Subs::Alternate, Subs::Members];

fn flatten(v: &Value, text: &[u8], nodes: &[Node], idx: usize, subs: Subs, level: usize, out: &mut Vec<Op>) {
    let sub = subs.at(level);
    if sub {
        if let Subs::With = subs {
            let t = String::from_utf8(text[idx..idx + nodes[idx].len].to_vec()).unwrap();
            out.push(Op::EnterWith(t));
        } else {
            out.push(Op::Enter);
        }
    }
    let l = level + 1;
    match v {
        Value::U16(v) => out.push(Op::U16(*v)),
        Value::U32(v) => out.push(Op::U32(*v)),
        Value::U64(v) => out.push(Op::U64(*v)),
        Value::Str(v) => out.push(Op::Str(v.clone())),
        Value::Obj(v) => out.push(Op::Obj(v.clone())),
        Value::Sig(v) => out.push(Op::Sig(v.clone())),
        Value::Var(k, v) => {
            out.push(Op::Var(*k, level % 2 == 1));
            let t = VARIANTS[*k].as_bytes();
            flatten(v, t, &reference(t).unwrap(), 0, subs, l, out);
            out.push(Op::Close);
        },
        Value::Arr(_, v) => {
            out.push(Op::Array);
            for v in v {
                flatten(v, text, nodes, idx + 1, subs, l, out);
            }
            out.push(Op::Close);
        },
        Value::Struct(v) => {
            out.push(Op::Struct);
            let mut k = idx + 1;
            for v in v {
                flatten(v, text, nodes, k, subs, l, out);
                k += nodes[k].len;
            }
            out.push(Op::Close);
        },
        Value::Dict(k, v) => {
            out.push(Op::Dict);
            flatten(k, text, nodes, idx + 1, subs, l, out);
            flatten(v, text, nodes, idx + 2, subs, l, out);
            out.push(Op::Close);
        },
    }
    if sub {
        out.push(Op::Commit);
        out.push(Op::Leave);
    }
}

type Res = Result<(), Option<Error>>;

fn flow<T>(v: Flow<Option<Error>, T>) -> Res {
    match v {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

fn basic_op(enc: &mut Enc<'_, '_>, op: &Op) -> Res {
    match op {
        Op::U16(v) => flow(enc.u16(*v)),
        Op::U32(v) => flow(enc.u32(*v)),
        Op::U64(v) => flow(enc.u64(*v)),
        Op::Str(v) => flow(enc.string(v)),
        Op::Obj(v) => flow(enc.object(v)),
        Op::Sig(v) => flow(enc.signature(v)),
        Op::Var(k, false) => flow(enc.variant(variant_sig(*k))),
        Op::Var(k, true) => flow(enc.variant_with(Mown::new_owned(Sig::arc(VARIANTS[*k].as_bytes()).unwrap()))),
        Op::Array => flow(enc.array()),
        Op::Struct => flow(enc.structure()),
        Op::Dict => flow(enc.dict()),
        Op::Close => flow(enc.close()),
        Op::Commit => enc.commit().map_err(Some),
        Op::Enter | Op::EnterWith(_) | Op::Leave => unreachable!(),
    }
}

/// What to do after a failed operation.
#[derive(Clone, Copy)]
enum Then {
    Skip,
    Retry,
    Persist,
    Stop,
}

/// Run the operations, starting at `pos`, until the encoder is left. Every
/// operation that fails is recorded. It is then skipped, tried again, or ends the
/// run.
fn run_enc(enc: &mut Enc<'_, '_>, ops: &[Op], pos: &mut usize, top: bool, then: Then, out: &mut Vec<Res>) {
    while *pos < ops.len() {
        let op = &ops[*pos];
        *pos += 1;
        match op {
            Op::Leave => {
                out.push(Ok(()));
                if !top {
                    return;
                }
            },
            Op::Enter | Op::EnterWith(_) => {
                let r = match op {
                    Op::EnterWith(t) => {
                        let s = Sig::new(t.as_bytes()).unwrap();
                        // The signature is only needed for the call.
                        let r = enc.enc_with(Mown::new_borrowed(&s));
                        match r {
                            Ok(v) => Ok(v),
                            Err(e) => Err(e),
                        }
                    },
                    _ => enc.enc(),
                };
                match r {
                    Ok(mut sub) => {
                        out.push(Ok(()));
                        run_enc(&mut sub, ops, pos, false, then, out);
                    },
                    Err(e) => out.push(Err(Some(e))),
                }
            },
            _ => {
                let r = basic_op(enc, op);
                let failed = r.is_err();
                out.push(r);
                match then {
                    Then::Retry if failed => out.push(basic_op(enc, op)),
                    Then::Persist => {
                        for _ in 0..3 {
                            if out.last().unwrap().is_ok() {
                                break;
                            }
                            out.push(basic_op(enc, op));
                        }
                    },
                    Then::Stop if failed => *pos = ops.len(),
                    _ => {},
                }
            },
        }
    }
}

/// Position in a signature, as part of the reference encoder.
#[derive(Clone)]
struct Frame {
    nodes: Arc<Vec<Node>>,
    idx: usize,
    kind: u8,
    mark: usize,
}

/// Reference encoder: tracks what the next element must be.
#[derive(Clone)]
struct Model {
    be: bool,
    frames: Vec<Frame>,
    bytes: Vec<u8>,
    committed: bool,
}

/// The index that follows the type at the given index, if there can be one.
fn step(nodes: &[Node], idx: usize) -> Option<usize> {
    let v = nodes.get(idx)?;
    match v.up {
        None => Some(idx + v.len),
        Some(u) if matches!(nodes[u].code, b'a' | b'm') => None,
        Some(_) if matches!(v.code, b')' | b'}') => None,
        Some(_) => Some(idx + v.len),
    }
}

impl Model {
    fn new(text: &[u8], be: bool) -> Self {
        Self {
            be,
            frames: vec![Frame { nodes: Arc::new(reference(text).unwrap()), idx: 0, kind: b'r', mark: 0 }],
            bytes: Vec::new(),
            committed: false,
        }
    }

    fn top(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }

    fn code(&mut self) -> Option<u8> {
        let f = self.top();
        f.nodes.get(f.idx).map(|v| v.code)
    }

    fn advance(&mut self) {
        let f = self.top();
        if let Some(v) = step(&f.nodes, f.idx) {
            f.idx = v;
        }
    }

    fn push(&mut self, kind: u8, mark: usize) {
        let f = self.top().clone();
        self.frames.push(Frame { idx: f.idx + 1, kind, mark, ..f });
    }

    /// Text of the type at the current position.
    fn text(&mut self) -> Option<Vec<u8>> {
        let f = self.top();
        let n = f.nodes.get(f.idx)?;
        if matches!(n.code, b')' | b'}') {
            return None;
        }
        Some(f.nodes[f.idx..f.idx + n.len].iter().map(|v| v.code).collect())
    }

    fn apply(&mut self, op: &Op) -> Res {
        let want = match op {
            Op::U16(_) => b'q',
            Op::U32(_) => b'u',
            Op::U64(_) => b't',
            Op::Str(_) => b's',
            Op::Obj(_) => b'o',
            Op::Sig(_) => b'g',
            Op::Var(..) => b'v',
            Op::Array => b'a',
            Op::Struct => b'(',
            Op::Dict => b'{',
            Op::Close => {
                let f = self.top().clone();
                if self.frames.len() < 2 || step(&f.nodes, f.idx).is_some() {
                    return Err(Some(Error::Mismatch));
                }
                if f.kind == b'a' {
                    let mut from = f.mark + 4;
                    // Padding in front of the first element.
                    let el = f.nodes[f.idx].code;
                    from = from.next_multiple_of(1 << dvar_align(el));
                    let n = (self.bytes.len() - from) as u32;
                    let n = if self.be { n.to_be_bytes() } else { n.to_le_bytes() };
                    self.bytes[f.mark..f.mark + 4].copy_from_slice(&n);
                }
                self.frames.pop();
                self.advance();
                return Ok(());
            },
            Op::Commit => {
                let f = self.top().clone();
                if self.frames.len() > 1 || step(&f.nodes, f.idx).is_some() {
                    return Err(Some(Error::Pending));
                }
                self.committed = true;
                return Ok(());
            },
            Op::Enter | Op::EnterWith(_) | Op::Leave => unreachable!(),
        };
        if self.code() != Some(want) {
            return Err(Some(Error::Mismatch));
        }
        let be = self.be;
        match op {
            Op::U16(v) => num(&mut self.bytes, be, *v as u64, 2),
            Op::U32(v) => num(&mut self.bytes, be, *v as u64, 4),
            Op::U64(v) => num(&mut self.bytes, be, *v, 8),
            Op::Str(v) => marshal(&Value::Str(v.clone()), be, &mut self.bytes),
            Op::Obj(v) => marshal(&Value::Obj(v.clone()), be, &mut self.bytes),
            Op::Sig(v) => {
                if v.len() > 255 {
                    return Err(Some(Error::DataOverflow));
                }
                marshal(&Value::Sig(v.clone()), be, &mut self.bytes)
            },
            Op::Var(k, _) => {
                let t = VARIANTS[*k].as_bytes();
                self.bytes.push(t.len() as u8);
                self.bytes.extend(t);
                self.bytes.push(0);
                self.frames.push(Frame { nodes: Arc::new(reference(t).unwrap()), idx: 0, kind: b'v', mark: 0 });
                return Ok(());
            },
            Op::Array => {
                num(&mut self.bytes, be, 0, 4);
                let mark = self.bytes.len() - 4;
                let f = self.top();
                let el = f.nodes[f.idx + 1].code;
                pad(&mut self.bytes, 1 << dvar_align(el));
                self.push(b'a', mark);
                return Ok(());
            },
            Op::Struct | Op::Dict => {
                pad(&mut self.bytes, 8);
                self.push(want, 0);
                return Ok(());
            },
            _ => unreachable!(),
        }
        self.advance();
        Ok(())
    }

    fn run(&mut self, ops: &[Op], pos: &mut usize, top: bool, out: &mut Vec<Res>) {
        while *pos < ops.len() {
            let op = &ops[*pos];
            *pos += 1;
            match op {
                Op::Leave => {
                    out.push(Ok(()));
                    if !top {
                        return;
                    }
                },
                Op::Enter | Op::EnterWith(_) => {
                    let t = self.text();
                    let ok = match op {
                        Op::EnterWith(w) => t.as_deref() == Some(w.as_bytes()),
                        _ => t.is_some(),
                    };
                    if !ok {
                        out.push(Err(Some(Error::Mismatch)));
                        continue;
                    }
                    out.push(Ok(()));
                    let mut sub = Model::new(&t.unwrap(), self.be);
                    sub.bytes = self.bytes.clone();
                    sub.run(ops, pos, false, out);
                    if sub.committed {
                        self.bytes = sub.bytes;
                        self.advance();
                    }
                },
                _ => out.push(self.apply(op)),
            }
        }
    }
}

fn enc_types(max: usize) -> Vec<Vec<u8>> {
    let mut v = types(b"qutsogv", false, max);
    // There are no empty structures in D-Bus.
    v.retain(|t| !t.windows(2).any(|w| w == b"()"));
    v
}

fn format(be: bool) -> Format {
    if be { Format::DVarBe } else { Format::DVarLe }
}

/// D05: encoding produces the bytes of the D-Bus specification.
pub fn d05(ctx: &Ctx) {
    let all = enc_types(ctx.pick(5, 6));
    let deep = {
        let mut v: Vec<Vec<u8>> = types(b"qtv", false, ctx.pick(7, 8));
        v.retain(|t| !t.windows(2).any(|w| w == b"()"));
        for t in [
            &b"a{sv}"[..], b"a{oa{sa{sv}}}", b"(qa(tg)u)", b"aa{tas}", b"a(ga(qt))", b"(gta{ga(yt)})", b"((((q))))",
            b"(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqt)", b"a(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqa{sv}t)",
        ] {
            if !t.contains(&b'y') {
                v.push(t.to_vec());
            }
        }
        v
    };
    let choices = ctx.pick(6, 7);
    ctx.bound(format!("{} types up to length {}, {} deeper types; all values by the first {} choices out \
        of 2 to 8 options each (arrays of 0 to 2 elements, 8 variant types), both byte orders, \
        5 ways to use sub-encoders, 6 shapes of output maps",
        all.len(), ctx.pick(5, 6), deep.len(), choices));
    ctx.assume("empty structures are not part of D-Bus and are left out");

    let run = |text: &[u8], choices: usize, c: &mut Case| -> CaseResult {
        let nodes = reference(text).unwrap();
        let sig = Sig::new(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
        let mut ch = Choices::new(choices);
        let mut count = 0usize;
        loop {
            let v = build(text, &nodes, 0, &mut ch, 0);
            for be in [false, true] {
                let mut want = Vec::new();
                marshal(&v, be, &mut want);
                c.state(&want);

                for (k, subs) in SUBS.iter().enumerate() {
                    let mut ops = Vec::new();
                    flatten(&v, text, &nodes, 0, *subs, 0, &mut ops);
                    ops.push(Op::Commit);
                    let mut maps = vec![MAPS[count % MAPS.len()]];
                    if k == 0 || count < 50 {
                        maps = MAPS.to_vec();
                    }
                    for m in maps {
                        let mut w = Writer::new(m);
                        let mut res = Vec::new();
                        let mut enc = if be { Enc::new_be(&sig, &mut w) } else { Enc::new_le(&sig, &mut w) };
                        run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut res);
                        drop(enc);
                        c.step(ops.len() as u64);
                        c.trace();
                        if let Some(p) = res.iter().position(|v| v.is_err()) {
                            return Err(format!("encoding {:?} ({}, {:?}, {:?}): operation {} {:?} failed: {:?}",
                                v, if be { "be" } else { "le" }, subs, m, p, ops[p], res[p]).into());
                        }
                        expect_eq!(&w.committed, &vec![want.len()], "committed length for {:?} ({:?}, {:?})", v, subs, m);
                        expect_eq!(&w.bytes(), &want, "encoding of {:?} (be: {}, {:?}, {:?})", v, be, subs, m);
                    }
                    count += 1;
                }

                // Into plain vectors, which are appended to.
                let mut ops = Vec::new();
                flatten(&v, text, &nodes, 0, Subs::Never, 0, &mut ops);
                ops.push(Op::Commit);
                let mut buf: Vec<u8> = Vec::new();
                let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
                run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut Vec::new());
                drop(enc);
                expect_eq!(&buf, &want, "encoding of {:?} into a vector", v);
                let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
                run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut Vec::new());
                drop(enc);
                expect_eq!(&buf, &[&want[..], &want[..]].concat(), "encoding of {:?} into the same vector again", v);
                c.step(2 * ops.len() as u64);

                // With the format chosen at runtime.
                let mut buf: Vec<u8> = Vec::new();
                let f = if be { ende::Format::DVarBe } else { ende::Format::DVarLe };
                let mut enc = ende::Enc::new(&sig, f, &mut buf);
                match enc {
                    ende::Enc::DVar(ref mut v) => run_enc(v, &ops, &mut 0, true, Then::Skip, &mut Vec::new()),
                }
                drop(enc);
                expect_eq!(&buf, &want, "encoding of {:?} with format chosen at runtime", v);
            }
            if !ch.next() {
                break;
            }
        }
        Ok(())
    };

    ctx.explore(
        "types",
        all.len() as u64,
        |i| format!("type {}", show(&all[i as usize])),
        |i, c| run(&all[i as usize], choices, c),
    );
    ctx.explore(
        "deep",
        deep.len() as u64,
        |i| format!("type {}", show(&deep[i as usize])),
        |i, c| run(&deep[i as usize], ctx.pick(3, 5), c),
    );

    // Lengths around all limits of the encoding.
    let lens: Vec<usize> = (0..600).chain(far_lengths(ctx.pick(17, 20))).collect();
    ctx.explore(
        "lengths",
        lens.len() as u64,
        |i| format!("strings of {} bytes", lens[i as usize]),
        |i, c| {
            let n = lens[i as usize];
            let s = "x".repeat(n);
            for be in [false, true] {
                for (t, op, v) in [
                    (&b"s"[..], Op::Str(s.clone()), Value::Str(s.clone())),
                    (b"o", Op::Obj(s.clone()), Value::Obj(s.clone())),
                    (b"g", Op::Sig(s.clone()), Value::Sig(s.clone())),
                ] {
                    let sig = Sig::new(t).unwrap();
                    let mut w = Writer::new(Maps::Exact);
                    let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut w);
                    let r = basic_op(&mut enc, &op);
                    c.step(1);
                    c.trace();
                    c.state(&(n, t));
                    if t == b"g" && n > 255 {
                        c.feature("overflow");
                        expect_eq!(r, Err(Some(Error::DataOverflow)), "signature of {} bytes", n);
                        expect_eq!(enc.commit(), Err(Error::Pending), "commit");
                    } else {
                        expect_eq!(r, Ok(()), "{} of {} bytes", show(t), n);
                        expect_eq!(enc.commit(), Ok(()), "commit");
                        drop(enc);
                        let mut want = Vec::new();
                        marshal(&v, be, &mut want);
                        ensure!(w.bytes() == want, "encoding of {} of {} bytes", show(t), n);
                    }
                }
                // Variants of long types.
                if n >= 2 && n < 600 {
                    for t in [
                        [&vec![b'a'; n - 1][..], b"q"].concat(),
                        [b"(".as_slice(), &vec![b'q'; n - 2], b")"].concat(),
                    ] {
                        if t == b"()" {
                            continue;
                        }
                        let inner = Sig::arc(&t).unwrap();
                        let sig = Sig::new(b"v").unwrap();
                        let mut w = Writer::new(Maps::Chunk(7));
                        let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut w);
                        let r = flow(enc.variant_with(Mown::new_owned(inner)));
                        c.step(1);
                        c.trace();
                        if n > 255 {
                            c.feature("overflow");
                            expect_eq!(r, Err(Some(Error::DataOverflow)), "variant of a type of length {}", n);
                            continue;
                        }
                        expect_eq!(r, Ok(()), "variant of a type of length {}", n);
                        let mut want = vec![n as u8];
                        want.extend(&t);
                        want.push(0);
                        if t[0] == b'a' {
                            expect_eq!(flow(enc.array()), Ok(()), "array");
                            expect_eq!(flow(enc.close()), Ok(()), "close");
                            num(&mut want, be, 0, 4);
                        } else {
                            expect_eq!(flow(enc.structure()), Ok(()), "structure");
                            pad(&mut want, 8);
                            for k in 0..n - 2 {
                                expect_eq!(flow(enc.u16(k as u16)), Ok(()), "u16");
                                num(&mut want, be, k as u64, 2);
                            }
                            expect_eq!(flow(enc.close()), Ok(()), "close");
                        }
                        expect_eq!(flow(enc.close()), Ok(()), "close");
                        expect_eq!(enc.commit(), Ok(()), "commit");
                        drop(enc);
                        ensure!(w.bytes() == want, "encoding of a variant with a type of length {}", n);
                    }
                }
            }
            // Long arrays.
            if n > 0 {
                let sig = Sig::new(b"aq").unwrap();
                let mut w = Writer::new(Maps::Page(4096));
                let mut enc = Enc::new_be(&sig, &mut w);
                let mut want = Vec::new();
                num(&mut want, true, 2 * n as u64, 4);
                expect_eq!(flow(enc.array()), Ok(()), "array");
                for k in 0..n {
                    expect_eq!(flow(enc.u16(k as u16)), Ok(()), "u16");
                    num(&mut want, true, k as u16 as u64, 2);
                }
                expect_eq!(flow(enc.close()), Ok(()), "close");
                expect_eq!(enc.commit(), Ok(()), "commit");
                drop(enc);
                c.step(n as u64);
                ensure!(w.bytes() == want, "encoding of an array of {} elements", n);
            }
            Ok(())
        },
    );

    if ctx.stopped() {
        return;
    }

    // All values of the smallest integer, and all bytes of the others.
    ctx.explore(
        "values",
        0x10000 + (4 + 8) * 256,
        |i| if i < 0x10000 { format!("16-bit value {:#x}", i) } else { format!("byte {} is {:#x}", (i - 0x10000) / 256, i % 256) },
        |i, c| {
            let at = (i as usize).saturating_sub(0x10000) / 256;
            let (t, v): (&[u8], Value) = if i < 0x10000 {
                (b"q", Value::U16(i as u16))
            } else if at < 4 {
                (b"u", Value::U32(0x1122_4488 & !(0xff << (8 * at)) | (((i % 256) as u32) << (8 * at))))
            } else {
                let at = at - 4;
                (b"t", Value::U64(0x0112_2334_4556_6778 & !(0xff << (8 * at)) | ((i % 256) << (8 * at))))
            };
            let sig = Sig::new(t).unwrap();
            for be in [false, true] {
                let mut ops = Vec::new();
                flatten(&v, t, &reference(t).unwrap(), 0, Subs::Never, 0, &mut ops);
                ops.push(Op::Commit);
                let mut want = Vec::new();
                marshal(&v, be, &mut want);
                let mut buf: Vec<u8> = Vec::new();
                let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
                run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut Vec::new());
                drop(enc);
                expect_eq!(&buf, &want, "encoding of {:x?} (be: {})", v, be);
                c.step(2);
                c.trace();
                c.state(&want);
            }
            Ok(())
        },
    );

    // Types nested as deep as the length of their text allows in a variant, and
    // deeper.
    let depths = ctx.pick(130u64, 300);
    ctx.explore(
        "nesting",
        depths * 4,
        |i| format!("type of shape {} with {} levels", i % 4, i / 4),
        |i, c| {
            let n = (i / 4) as usize;
            let t: Vec<u8> = match i % 4 {
                0 => [&vec![b'a'; n][..], b"s"].concat(),
                1 => [&vec![b'('; n][..], b"t", &vec![b')'; n]].concat(),
                2 => [b"a(q".repeat(n), b"t".to_vec(), vec![b')'; n]].concat(),
                _ => [b"a{g".repeat(n), b"t".to_vec(), vec![b'}'; n]].concat(),
            };
            run(&t, 2, c)
        },
    );

    if ctx.stopped() {
        return;
    }

    // Sub-encoders on any set of levels, and on one level only, however deep.
    let few = ctx.pick(8u64, 10);
    ctx.bound(format!("sub-encoders on all sets of levels for 5 types of {} levels, and on every single level out of {}", few, depths));
    let sets = 1u64 << (few + 1);
    let pick = |i: u64| {
        let (shape, k) = (i % 5, i / 5);
        if k < sets { (shape, few, Subs::Levels(k)) } else { (shape, depths, Subs::Only((k - sets) as usize)) }
    };
    ctx.explore(
        "sub-encoders",
        (sets + depths) * 5,
        |i| format!("type of shape {} with {} levels, {:?}", pick(i).0, pick(i).1, pick(i).2),
        |i, c| {
            let (shape, n, subs) = pick(i);
            let n = n as usize;
            let t: Vec<u8> = match shape {
                0 => [&vec![b'a'; n][..], b"t"].concat(),
                1 => [&vec![b'('; n][..], b"q", &vec![b')'; n]].concat(),
                2 => [b"(q".repeat(n), b"t".to_vec(), b"q)".repeat(n)].concat(),
                3 => [b"a(g".repeat(n / 2), b"v".to_vec(), b"s)".repeat(n / 2)].concat(),
                _ => [b"a{s".repeat(n / 2), b"u".to_vec(), vec![b'}'; n / 2]].concat(),
            };
            let nodes = reference(&t).unwrap();
            let sig = Sig::new(&t).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            let v = build(&t, &nodes, 0, &mut Choices::new(0), 0);
            let mut ops = Vec::new();
            flatten(&v, &t, &nodes, 0, subs, 0, &mut ops);
            ops.push(Op::Commit);
            for be in [false, true] {
                let mut want = Vec::new();
                marshal(&v, be, &mut want);
                let mut buf: Vec<u8> = Vec::new();
                let mut res = Vec::new();
                let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
                run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut res);
                drop(enc);
                c.step(ops.len() as u64);
                c.trace();
                ensure!(res.iter().all(|v| v.is_ok()), "all operations succeed (be: {}), observed {:?}", be, res);
                expect_eq!(&buf, &want, "encoding (be: {})", be);
            }
            c.state(&ops);
            Ok(())
        },
    );

    if ctx.stopped() {
        return;
    }

    texts(ctx, false);

    if ctx.stopped() {
        return;
    }

    // What does not fit into a length field.
    let max = u32::MAX as usize;
    let cases: &[(&[u8], usize)] = &[
        (b"s", max), (b"s", max + 1), (b"s", max + 2), (b"s", max + 100),
        (b"o", max), (b"o", max + 1), (b"o", 2 * (max + 1)), (b"o", max + 0x10001),
        (b"as", max - 5), (b"as", max - 4), (b"as", max - 3), (b"as", max),
    ];
    ctx.bound("strings and arrays around 2^32 bytes");
    ctx.explore(
        "limits",
        cases.len() as u64,
        |i| format!("type {} with a string of {} bytes", show(cases[i as usize].0), cases[i as usize].1),
        |i, c| {
            let (t, n) = cases[i as usize];
            let s = memory::endless(n);
            let sig = Sig::new(t).unwrap();
            // Anything beyond is refused, rather than written.
            let mut w = Sink::new(max + 100);
            let mut enc = Enc::new_be(&sig, &mut w);
            let refused = Err(Some(Error::DataOverflow));
            let fits = match t {
                b"as" => {
                    expect_eq!(flow(enc.array()), Ok(()), "array");
                    expect_eq!(flow(enc.string(s)), Ok(()), "string");
                    let fits = n + 5 <= max;
                    expect_eq!(flow(enc.close()), if fits { Ok(()) } else { refused.clone() }, "close");
                    if !fits {
                        expect_eq!(flow(enc.close()), refused, "second close");
                    }
                    fits
                },
                t => {
                    let fits = n <= max;
                    let want = if fits { Ok(()) } else { refused };
                    expect_eq!(flow(if t == b"s" { enc.string(s) } else { enc.object(s) }), want, "string");
                    fits
                },
            };
            c.step(3);
            c.trace();
            c.state(&(t, n));
            if fits {
                c.feature("limit");
                expect_eq!(enc.commit(), Ok(()), "commit");
                drop(enc);
                expect_eq!(&w.bytes()[..4], &[0xff; 4], "length");
                let total = if t == b"as" { n + 9 } else { n + 5 };
                expect_eq!(&w.committed, &vec![total], "committed length");
            } else {
                c.feature("overflow");
                expect_eq!(enc.commit(), Err(Error::Pending), "commit");
                drop(enc);
                expect_eq!(w.committed.len(), 0, "number of commits");
            }
            Ok(())
        },
    );
}

/// Write strings of any content, or read them.
fn texts(ctx: &Ctx, read: bool) {
    const KINDS: &[u8] = b"sog";
    let one = |s: &str, c: &mut Case| -> CaseResult {
        for kind in KINDS {
            let sig = Sig::new(&[*kind]).unwrap();
            for be in [false, true] {
                let mut data = Vec::new();
                num(&mut data, be, s.len() as u64, if *kind == b'g' { 1 } else { 4 });
                data.extend_from_slice(s.as_bytes());
                data.push(0);
                if !read {
                    let mut buf: Vec<u8> = Vec::new();
                    let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
                    let v = match kind {
                        b's' => enc.string(s),
                        b'o' => enc.object(s),
                        _ => enc.signature(s),
                    };
                    expect_eq!(flow(v), Ok(()), "writing {:?}", s);
                    expect_eq!(enc.commit(), Ok(()), "commit");
                    drop(enc);
                    expect_eq!(&buf, &data, "encoding of {:?} as {}", s, *kind as char);
                } else if *kind != b'o' {
                    let mut r = Reader::new(Maps::Exact, &data);
                    let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
                    let mut out = String::from("old");
                    let v = match kind {
                        b's' => flow(dec.string(&mut out)),
                        _ => flow(dec.signature(&mut out)),
                    };
                    expect_eq!(v, Ok(()), "reading {:?}", s);
                    expect_eq!(dec.commit(), Ok(()), "commit");
                    expect_eq!(&*out, s, "decoded text of kind {}", *kind as char);
                }
                c.step(2);
            }
        }
        c.trace();
        c.state(s);
        Ok(())
    };

    ctx.bound("all characters at the start, the end, and in the middle of a string");
    ctx.explore("characters", 0x1100, |i| format!("characters from U+{:04X} on", i * 0x100), |i, c| {
        for ch in (i as u32 * 0x100..(i as u32 + 1) * 0x100).filter_map(char::from_u32) {
            for s in [format!("{ch}"), format!("{ch}x"), format!("x{ch}"), format!("x{ch}x")] {
                one(&s, c)?;
            }
        }
        Ok(())
    });

    let alphabet = ['\0', '\n', ' ', '"', '/', 'a', '\u{7f}', '\u{85}', 'é', '\u{feff}', '\u{fffd}', '\u{10ffff}'];
    let len = ctx.pick(4, 5);
    ctx.bound(format!("all strings of up to {} of {} characters", len, alphabet.len()));
    let text = |i: u64| seq_at(alphabet.len() as u64, i).into_iter().map(|v| alphabet[v]).collect::<String>();
    ctx.explore("strings", seq_total(alphabet.len() as u64, len), |i| format!("string {:?}", text(i)), |i, c| one(&text(i), c));
}

/// Lengths around the powers of two.
fn far_lengths(exp: u32) -> Vec<usize> {
    (10..=exp).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).chain([70000, (1 << 24) + 3]).collect()
}

fn op_alphabet() -> Vec<Op> {
    vec![
        Op::U16(0x0102),
        Op::U32(0x03040506),
        Op::U64(0x0708090a0b0c0d0e),
        Op::Str("ab".into()),
        Op::Obj("/".into()),
        Op::Sig("u".into()),
        Op::Sig("x".repeat(256)),
        Op::Var(0, false),
        Op::Var(3, true),
        Op::Array,
        Op::Struct,
        Op::Dict,
        Op::Close,
        Op::Commit,
        Op::Enter,
        Op::EnterWith("q".into()),
        Op::EnterWith("as".into()),
        Op::Leave,
    ]
}

/// D06: operations that do not fit are refused without any effect, and
/// failing output does not corrupt the encoder.
pub fn d06(ctx: &Ctx) {
    let alpha = op_alphabet();
    let k = alpha.len() as u64;
    let depth = ctx.pick(5, 6);
    let sigs: Vec<&[u8]> = vec![
        b"q", b"u", b"s", b"g", b"v", b"as", b"aq", b"at", b"(q)", b"(qs)", b"{qs}", b"av", b"aas", b"a(q)", b"a{sv}",
        b"(v)", b"(gt)", b"(asq)", b"((q)u)", b"(a{sv}q)",
    ];
    let per = seq_total(k, depth);
    ctx.bound(format!("all sequences of up to {} operations out of {} on {} types; every operation that \
        does not fit at every point of every encoding of D05 types up to length {}; every failing \
        output call of three kinds at every point of these",
        depth, k, sigs.len(), ctx.pick(4, 5)));

    let check_seq = |text: &[u8], ops: &[Op], be: bool, c: &mut Case| -> CaseResult {
        let sig = Sig::new(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
        let mut model = Model::new(text, be);
        let mut want = Vec::new();
        model.run(ops, &mut 0, true, &mut want);
        let mut w = Writer::new(Maps::Exact);
        let mut got = Vec::new();
        let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut w);
        run_enc(&mut enc, ops, &mut 0, true, Then::Skip, &mut got);
        drop(enc);
        c.step(ops.len() as u64);
        c.trace();
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            expect_eq!(g, w, "result of operation {} ({:?})", i, ops[i]);
        }
        expect_eq!(got.len(), want.len(), "number of results");
        if model.committed {
            c.feature("committed");
            expect_eq!(&w.committed, &vec![model.bytes.len()], "committed length");
            expect_eq!(&w.bytes(), &model.bytes, "committed bytes");
        } else {
            expect_eq!(w.committed.len(), 0, "number of commits without a commit");
        }
        c.state(&(text, &model.bytes, model.frames.len(), model.committed));
        Ok(())
    };

    let seq_ops = |i: u64| -> Vec<Op> {
        seq_at(k, i).into_iter().map(|v| alpha[v].clone()).collect()
    };
    ctx.explore(
        "sequences",
        sigs.len() as u64 * per,
        |i| format!("type {}, operations {:?}", show(sigs[(i / per) as usize]), seq_ops(i % per)),
        |i, c| check_seq(sigs[(i / per) as usize], &seq_ops(i % per), i % 2 == 0, c),
    );

    if ctx.stopped() {
        return;
    }

    let all = {
        let mut v = enc_types(ctx.pick(4, 5));
        v.extend([&b"a{sv}"[..], b"(qa(tg)u)", b"(gta{ga(qt)})", b"aaas", b"(a{sv}q)"].map(|v| v.to_vec()));
        v
    };
    let choices = ctx.pick(3, 4);

    // At every point of a correct encoding, everything that does not fit.
    ctx.explore(
        "misfits",
        all.len() as u64,
        |i| format!("type {}", show(&all[i as usize])),
        |i, c| {
            let text = &all[i as usize];
            let nodes = reference(text).unwrap();
            let mut ch = Choices::new(choices);
            loop {
                let v = build(text, &nodes, 0, &mut ch, 0);
                for subs in [Subs::Never, Subs::Alternate, Subs::Members] {
                    let mut ops = Vec::new();
                    flatten(&v, text, &nodes, 0, subs, 0, &mut ops);
                    ops.push(Op::Commit);
                    for p in 0..=ops.len() {
                        // The operations that do not fit at this point.
                        let mut bad = Vec::new();
                        for op in &alpha {
                            if matches!(op, Op::Leave) {
                                continue;
                            }
                            let mut m = Model::new(text, false);
                            let mut seq = ops[..p].to_vec();
                            seq.push(op.clone());
                            let mut r = Vec::new();
                            m.run(&seq, &mut 0, true, &mut r);
                            if r.last().unwrap().is_err() {
                                bad.push(op.clone());
                            } else if matches!(op, Op::Enter | Op::EnterWith(_)) {
                                // A sub-encoder that is dropped.
                                bad.push(op.clone());
                                bad.push(Op::Leave);
                            }
                        }
                        let mut seq = ops[..p].to_vec();
                        seq.extend(bad);
                        seq.extend_from_slice(&ops[p..]);
                        check_seq(text, &seq, p % 2 == 0, c)
                            .map_err(|e| match e {
                                Fail::Violation(m) => Fail::Violation(format!("{}; operations {:?}", m, seq)),
                                e => e,
                            })?;
                    }
                    // Sub-encoders that wrote something and were dropped.
                    for p in 0..ops.len() {
                        let mut seq = ops[..p].to_vec();
                        seq.push(Op::Enter);
                        seq.extend_from_slice(&ops[p..(p + 3).min(ops.len())]);
                        seq.push(Op::Leave);
                        seq.extend_from_slice(&ops[p..]);
                        check_seq(text, &seq, p % 2 == 0, c)
                            .map_err(|e| match e {
                                Fail::Violation(m) => Fail::Violation(format!("{}; operations {:?}", m, seq)),
                                e => e,
                            })?;
                    }
                }
                if !ch.next() {
                    break;
                }
            }
            Ok(())
        },
    );

    if ctx.stopped() {
        return;
    }

    // Every output call fails once.
    let kinds = [Some(map::Error::Exceeded), Some(map::Error::Overflow), None];
    ctx.explore(
        "output-faults",
        all.len() as u64,
        |i| format!("type {}", show(&all[i as usize])),
        |i, c| {
            let text = &all[i as usize];
            let nodes = reference(text).unwrap();
            let sig = Sig::new(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            let mut ch = Choices::new(choices);
            let mut count = 0;
            loop {
                let v = build(text, &nodes, 0, &mut ch, 0);
                let mut want = Vec::new();
                marshal(&v, false, &mut want);
                for subs in [Subs::Never, Subs::Alternate, Subs::Members] {
                    for m in [Maps::Exact, Maps::Chunk(1), Maps::Page(4)] {
                        let mut ops = Vec::new();
                        flatten(&v, text, &nodes, 0, subs, 0, &mut ops);
                        ops.push(Op::Commit);
                        for n in 0.. {
                            let kind = kinds[count % kinds.len()];
                            count += 1;
                            let mut w = Writer::new(m);
                            w.fail = Some((n, kind));
                            let mut got = Vec::new();
                            let mut enc = Enc::new_le(&sig, &mut w);
                            run_enc(&mut enc, &ops, &mut 0, true, Then::Retry, &mut got);
                            drop(enc);
                            c.step(ops.len() as u64);
                            c.trace();
                            let failed = w.calls > n;
                            let errors: Vec<Res> = got.iter().filter(|v| v.is_err()).cloned().collect();
                            if failed {
                                c.feature("failed");
                                expect_eq!(errors, vec![Err(kind.map(Error::Io))],
                                    "errors with failing call {} for {:?} ({:?}, {:?})", n, v, subs, m);
                            } else {
                                expect_eq!(errors.len(), 0, "errors for {:?}", v);
                            }
                            expect_eq!(&w.committed, &vec![want.len()], "committed length for {:?}", v);
                            expect_eq!(&w.bytes(), &want, "encoding of {:?} with failing call {} ({:?}, {:?})",
                                v, n, subs, m);
                            if !failed {
                                break;
                            }
                        }
                        // Every pair of output calls fails, which includes a
                        // repeated operation.
                        let calls = {
                            let mut w = Writer::new(m);
                            let mut enc = Enc::new_le(&sig, &mut w);
                            run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut Vec::new());
                            drop(enc);
                            w.calls
                        };
                        for n in 0..calls.min(12) {
                            for k in n + 1..(n + 6).min(calls) {
                                let mut w = Writer::new(m);
                                w.fail = Some((n, Some(map::Error::Exceeded)));
                                w.again = Some((k, None));
                                let mut got = Vec::new();
                                let mut enc = Enc::new_le(&sig, &mut w);
                                run_enc(&mut enc, &ops, &mut 0, true, Then::Persist, &mut got);
                                drop(enc);
                                c.step(ops.len() as u64);
                                let errors: Vec<Res> = got.iter().filter(|v| v.is_err()).cloned().collect();
                                expect_eq!(errors, vec![Err(Some(Error::Io(map::Error::Exceeded))), Err(None)],
                                    "errors with failing calls {} and {} for {:?} ({:?}, {:?})", n, k, v, subs, m);
                                expect_eq!(&w.committed, &vec![want.len()], "committed length for {:?}", v);
                                expect_eq!(&w.bytes(), &want, "encoding of {:?} with failing calls {} and {} ({:?}, {:?})",
                                    v, n, k, subs, m);
                                c.trace();
                                c.feature("failed twice");
                            }
                        }
                        // Every limit on the output.
                        for limit in 0..want.len() {
                            let mut w = Writer::new(m);
                            w.limit = limit;
                            let mut got = Vec::new();
                            let mut enc = Enc::new_le(&sig, &mut w);
                            run_enc(&mut enc, &ops, &mut 0, true, Then::Stop, &mut got);
                            drop(enc);
                            c.step(ops.len() as u64);
                            let first = got.iter().find(|v| v.is_err());
                            expect_eq!(first, Some(&Err(Some(Error::Io(map::Error::Exceeded)))),
                                "first error with a limit of {} for {:?}", limit, v);
                            expect_eq!(w.committed.len(), 0, "number of commits with a limit of {} for {:?}", limit, v);
                            ensure!(w.data.len() <= limit, "more data than the limit");
                        }
                    }
                }
                c.state(&want);
                if !ch.next() {
                    break;
                }
            }
            Ok(())
        },
    );
}

// -------------------------------------------------------------------------
// Decoder

/// An operation on a decoder.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum Get {
    U16,
    Str,
    Sig,
    Array,
    Close,
    Commit,
    More,
    Enter,
    EnterWith(String),
    Leave,
}

/// What a decoder operation yields.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum Got {
    U16(u16),
    Str(String),
    More(bool),
    Done,
    Fail(Option<Error>),
}

fn get_basic(dec: &mut Dec<'_, '_>, op: &Get) -> Result<Got, Fail> {
    fn res(v: Res) -> Got {
        match v {
            Ok(()) => Got::Done,
            Err(e) => Got::Fail(e),
        }
    }
    Ok(match op {
        Get::U16 => {
            let mut v = 0xabcd;
            match flow(dec.u16(&mut v)) {
                Ok(()) => Got::U16(v),
                Err(e) => {
                    expect_eq!(v, 0xabcd, "value after failed read");
                    Got::Fail(e)
                },
            }
        },
        Get::Str | Get::Sig => {
            let mut v = String::from("old");
            let r = if let Get::Str = op { flow(dec.string(&mut v)) } else { flow(dec.signature(&mut v)) };
            match r {
                Ok(()) => Got::Str(v),
                Err(e) => {
                    expect_eq!(&v[..], "old", "value after failed read");
                    Got::Fail(e)
                },
            }
        },
        Get::Array => res(flow(dec.array())),
        Get::Close => res(flow(dec.close())),
        Get::Commit => res(dec.commit().map_err(Some)),
        Get::More => Got::More(dec.more()),
        Get::Enter | Get::EnterWith(_) | Get::Leave => unreachable!(),
    })
}

fn run_dec(
    dec: &mut Dec<'_, '_>,
    ops: &[Get],
    pos: &mut usize,
    top: bool,
    retry: bool,
    out: &mut Vec<Got>,
) -> CaseResult {
    while *pos < ops.len() {
        let op = &ops[*pos];
        *pos += 1;
        match op {
            Get::Leave => {
                out.push(Got::Done);
                if !top {
                    return Ok(());
                }
            },
            Get::Enter | Get::EnterWith(_) => {
                let r = match op {
                    Get::EnterWith(t) => {
                        let s = Sig::new(t.as_bytes()).unwrap();
                        dec.dec_with(Mown::new_borrowed(&s))
                    },
                    _ => dec.dec(),
                };
                match r {
                    Ok(mut sub) => {
                        out.push(Got::Done);
                        run_dec(&mut sub, ops, pos, false, retry, out)?;
                    },
                    Err(e) => out.push(Got::Fail(Some(e))),
                }
            },
            _ => {
                let r = get_basic(dec, op)?;
                let failed = matches!(r, Got::Fail(_));
                out.push(r);
                if failed && retry {
                    for _ in 0..3 {
                        let r = get_basic(dec, op)?;
                        let failed = matches!(r, Got::Fail(_));
                        out.push(r);
                        if !failed {
                            break;
                        }
                    }
                }
            },
        }
    }
    Ok(())
}

/// Reference decoder.
#[derive(Clone)]
struct Source<'a> {
    data: &'a [u8],
    be: bool,
    at: usize,
    frames: Vec<Frame>,
    committed: bool,
    /// The input is malformed in a way that is not required to be noticed at
    /// any particular point.
    loose: bool,
}

impl<'a> Source<'a> {
    fn new(text: &[u8], be: bool, data: &'a [u8]) -> Self {
        Self {
            data,
            be,
            at: 0,
            frames: vec![Frame { nodes: Arc::new(reference(text).unwrap()), idx: 0, kind: b'r', mark: 0 }],
            committed: false,
            loose: false,
        }
    }

    fn align(&mut self, n: usize) {
        while self.at % n != 0 {
            if self.data.get(self.at) != Some(&0) {
                self.loose = true;
            }
            self.at += 1;
        }
    }

    fn num(&mut self, n: usize) -> Result<usize, Error> {
        self.align(n);
        let Some(v) = self.data.get(self.at..self.at + n) else {
            return Err(Error::Io(map::Error::Exceeded));
        };
        self.at += n;
        let mut r = 0;
        for k in 0..n {
            r = (r << 8) | v[if self.be { k } else { n - 1 - k }] as usize;
        }
        Ok(r)
    }

    fn string(&mut self, n: usize) -> Result<String, Error> {
        let len = self.num(n)?;
        let Some(v) = self.data.get(self.at..self.at + len) else {
            return Err(Error::Io(map::Error::Exceeded));
        };
        let Ok(v) = core::str::from_utf8(v) else {
            return Err(Error::DataNonUtf8);
        };
        self.at += len;
        if self.data.get(self.at) != Some(&0) {
            self.loose = true;
        }
        self.at += 1;
        Ok(v.to_string())
    }

    fn try_apply(&mut self, op: &Get) -> Result<Got, Error> {
        let f = self.frames.last().unwrap().clone();
        let code = f.nodes.get(f.idx).map(|v| v.code);
        let want = match op {
            Get::U16 => b'q',
            Get::Str => b's',
            Get::Sig => b'g',
            Get::Array => b'a',
            Get::More => {
                // Outside of arrays, nothing is said.
                if f.kind != b'a' {
                    self.loose = true;
                }
                return Ok(Got::More(f.kind == b'a' && self.at < f.mark));
            },
            Get::Close => {
                if self.frames.len() < 2 || step(&f.nodes, f.idx).is_some() {
                    return Err(Error::Mismatch);
                }
                if self.at != f.mark {
                    self.loose = true;
                }
                self.frames.pop();
                self.advance();
                return Ok(Got::Done);
            },
            Get::Commit => {
                if self.frames.len() > 1 || step(&f.nodes, f.idx).is_some() {
                    return Err(Error::Pending);
                }
                self.committed = true;
                return Ok(Got::Done);
            },
            _ => unreachable!(),
        };
        if code != Some(want) {
            return Err(Error::Mismatch);
        }
        // Reading past the end of an array.
        if f.kind == b'a' && self.at >= f.mark {
            self.loose = true;
        }
        let r = match op {
            Get::U16 => Got::U16(self.num(2)? as u16),
            Get::Str => Got::Str(self.string(4)?),
            Get::Sig => Got::Str(self.string(1)?),
            Get::Array => {
                let n = self.num(4)?;
                let el = f.nodes[f.idx + 1].code;
                self.align(1 << dvar_align(el));
                let mark = self.at + n;
                if mark > self.data.len() {
                    self.loose = true;
                }
                self.frames.push(Frame { idx: f.idx + 1, kind: b'a', mark, ..f.clone() });
                return Ok(Got::Done);
            },
            _ => unreachable!(),
        };
        if f.kind == b'a' && self.at > f.mark {
            self.loose = true;
        }
        self.advance();
        Ok(r)
    }

    fn advance(&mut self) {
        let f = self.frames.last_mut().unwrap();
        if let Some(v) = step(&f.nodes, f.idx) {
            f.idx = v;
        }
    }

    fn apply(&mut self, op: &Get) -> Got {
        let saved = self.clone();
        match self.try_apply(op) {
            Ok(v) => v,
            Err(e) => {
                let loose = self.loose;
                *self = saved;
                self.loose = loose;
                Got::Fail(Some(e))
            },
        }
    }

    fn text(&self) -> Option<Vec<u8>> {
        let f = self.frames.last().unwrap();
        let n = f.nodes.get(f.idx)?;
        if matches!(n.code, b')' | b'}') {
            return None;
        }
        Some(f.nodes[f.idx..f.idx + n.len].iter().map(|v| v.code).collect())
    }

    fn run(&mut self, ops: &[Get], pos: &mut usize, top: bool, out: &mut Vec<(Got, bool)>) {
        while *pos < ops.len() {
            let op = &ops[*pos];
            *pos += 1;
            match op {
                Get::Leave => {
                    out.push((Got::Done, self.loose));
                    if !top {
                        return;
                    }
                },
                Get::Enter | Get::EnterWith(_) => {
                    let t = self.text();
                    let ok = match op {
                        Get::EnterWith(w) => t.as_deref() == Some(w.as_bytes()),
                        _ => t.is_some(),
                    };
                    if !ok {
                        out.push((Got::Fail(Some(Error::Mismatch)), self.loose));
                        continue;
                    }
                    out.push((Got::Done, self.loose));
                    let mut sub = Source::new(&t.unwrap(), self.be, self.data);
                    sub.at = self.at;
                    sub.loose = self.loose;
                    // Reading past the end of an array.
                    let f = self.frames.last().unwrap().clone();
                    if f.kind == b'a' && self.at >= f.mark {
                        sub.loose = true;
                    }
                    sub.run(ops, pos, false, out);
                    self.loose = sub.loose;
                    if sub.committed {
                        self.at = sub.at;
                        self.advance();
                        if f.kind == b'a' && self.at > f.mark {
                            self.loose = true;
                        }
                    }
                },
                _ => {
                    let r = self.apply(op);
                    out.push((r, self.loose));
                },
            }
        }
    }
}

/// Types the decoder can handle.
fn dec_types(max: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for n in 0..max {
        for l in b"qsg" {
            let mut t = vec![b'a'; n];
            t.push(*l);
            v.push(t);
        }
    }
    v
}

fn flatten_get(v: &Value, text: &[u8], subs: Subs, level: usize, ops: &mut Vec<Get>, want: &mut Vec<Got>) {
    let sub = subs.at(level);
    let mut push = |op: Get, got: Got| {
        ops.push(op);
        want.push(got);
    };
    if sub {
        if let Subs::With = subs {
            push(Get::EnterWith(String::from_utf8(text.to_vec()).unwrap()), Got::Done);
        } else {
            push(Get::Enter, Got::Done);
        }
    }
    match v {
        Value::U16(v) => push(Get::U16, Got::U16(*v)),
        Value::Str(v) => push(Get::Str, Got::Str(v.clone())),
        Value::Sig(v) => push(Get::Sig, Got::Str(v.clone())),
        Value::Arr(_, v) => {
            push(Get::Array, Got::Done);
            for v in v {
                ops.push(Get::More);
                want.push(Got::More(true));
                flatten_get(v, &text[1..], subs, level + 1, ops, want);
            }
            ops.push(Get::More);
            want.push(Got::More(false));
            ops.push(Get::Close);
            want.push(Got::Done);
        },
        _ => unreachable!(),
    }
    if sub {
        ops.push(Get::Commit);
        want.push(Got::Done);
        ops.push(Get::Leave);
        want.push(Got::Done);
    }
}

/// D07: decoding returns what was encoded.
/// Arrays of arrays, without any other elements.
#[derive(Clone, Debug)]
struct Hollow(Vec<Hollow>);

/// All trees of a depth, with up to a number of elements in each.
fn hollow(depth: usize, width: usize) -> Vec<Hollow> {
    if depth == 1 {
        return vec![Hollow(Vec::new())];
    }
    let inner = hollow(depth - 1, width);
    (0..seq_total(inner.len() as u64, width as u32))
        .map(|i| Hollow(seq_at(inner.len() as u64, i).into_iter().map(|v| inner[v].clone()).collect()))
        .collect()
}

impl Hollow {
    /// Append the encoding, given the type of the elements.
    fn marshal(&self, element: &[u8], be: bool, out: &mut Vec<u8>) {
        let pad = |out: &mut Vec<u8>, n: usize| while out.len() % n != 0 { out.push(0); };
        pad(out, 4);
        let at = out.len();
        out.extend([0; 4]);
        pad(out, match element[0] {
            b'y' | b'g' | b'v' => 1,
            b'n' | b'q' => 2,
            b'x' | b't' | b'd' | b'(' | b'{' => 8,
            _ => 4,
        });
        let from = out.len();
        for v in &self.0 {
            v.marshal(&element[1..], be, out);
        }
        let n = (out.len() - from) as u32;
        out[at..at + 4].copy_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() });
    }

    fn encode(&self, enc: &mut Enc<'_, '_>, c: &mut Case) -> CaseResult {
        expect_eq!(flow(enc.array()), Ok(()), "opening an array");
        for v in &self.0 {
            v.encode(enc, c)?;
        }
        expect_eq!(flow(enc.close()), Ok(()), "closing an array");
        c.step(2);
        Ok(())
    }

    fn decode(&self, dec: &mut Dec<'_, '_>, c: &mut Case) -> CaseResult {
        expect_eq!(flow(dec.array()), Ok(()), "opening an array to read");
        for v in &self.0 {
            ensure!(dec.more(), "array ends early");
            v.decode(dec, c)?;
        }
        ensure!(!dec.more(), "array does not end");
        expect_eq!(flow(dec.close()), Ok(()), "closing an array that was read");
        c.step(2);
        Ok(())
    }
}

pub fn d07(ctx: &Ctx) {
    let all = dec_types(ctx.pick(5, 6));
    let choices = ctx.pick(7, 9);
    ctx.bound(format!("{} types, all values by the first {} choices, both byte orders, \
        5 ways to use sub-decoders, 6 shapes of input maps, every operation that does not fit at every \
        point, and every failing input call", all.len(), choices));
    ctx.assume("the decoder only handles 16-bit integers, strings, signatures, and arrays of these");

    let misfits = vec![
        Get::U16, Get::Str, Get::Sig, Get::Array, Get::Close, Get::Commit,
        Get::EnterWith("q".into()), Get::EnterWith("as".into()), Get::EnterWith("(q)".into()),
    ];

    ctx.explore(
        "round-trip",
        all.len() as u64,
        |i| format!("type {}", show(&all[i as usize])),
        |i, c| {
            let text = &all[i as usize];
            let nodes = reference(text).unwrap();
            let sig = Sig::new(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            let arc = Sig::arc(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            let mut ch = Choices::new(choices);
            let mut count = 0;
            loop {
                let v = build(text, &nodes, 0, &mut ch, 0);
                for be in [false, true] {
                    let mut data = Vec::new();
                    marshal(&v, be, &mut data);

                    // The encoder agrees on the bytes.
                    {
                        let mut ops = Vec::new();
                        flatten(&v, text, &nodes, 0, Subs::Never, 0, &mut ops);
                        ops.push(Op::Commit);
                        let mut buf: Vec<u8> = Vec::new();
                        let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
                        run_enc(&mut enc, &ops, &mut 0, true, Then::Skip, &mut Vec::new());
                        drop(enc);
                        expect_eq!(&buf, &data, "encoding of {:?}", v);
                    }

                    c.state(&data);
                    for (k, subs) in SUBS.iter().enumerate() {
                        let mut ops = Vec::new();
                        let mut want = Vec::new();
                        flatten_get(&v, text, *subs, 0, &mut ops, &mut want);
                        ops.push(Get::Commit);
                        want.push(Got::Done);
                        let mut maps = vec![MAPS[count % MAPS.len()]];
                        if k == 0 || count < 50 {
                            maps = MAPS.to_vec();
                        }
                        count += 1;
                        for m in maps {
                            let mut r = Reader::new(m, &data);
                            let mut got = Vec::new();
                            let mut dec = match k {
                                0 if be => Dec::new_be(&sig, &mut r),
                                0 => Dec::new_le(&sig, &mut r),
                                1 => Dec::with(Mown::new_owned(arc.clone()), format(be), &mut r),
                                _ => Dec::with(Mown::new_borrowed(&sig), format(be), &mut r),
                            };
                            run_dec(&mut dec, &ops, &mut 0, true, false, &mut got)?;
                            c.step(ops.len() as u64);
                            c.trace();
                            for (p, (g, w)) in got.iter().zip(&want).enumerate() {
                                expect_eq!(g, w, "operation {} {:?} on {:?} (be: {}, {:?}, {:?})",
                                    p, ops[p], v, be, subs, m);
                            }
                            expect_eq!(got.len(), want.len(), "number of results");
                        }

                        // With operations that do not fit at every point.
                        let mut seq = Vec::new();
                        let mut all = Vec::new();
                        let mut model = Source::new(text, be, &data);
                        let mut stack: Vec<Source> = Vec::new();
                        for (op, w) in ops.iter().zip(&want) {
                            for bad in &misfits {
                                let fits = match bad {
                                    Get::EnterWith(t) => model.text().as_deref() == Some(t.as_bytes()),
                                    _ => {
                                        let mut m = model.clone();
                                        !matches!(m.apply(bad), Got::Fail(Some(Error::Mismatch | Error::Pending)))
                                    },
                                };
                                if !fits {
                                    seq.push(bad.clone());
                                    all.push(Got::Fail(Some(if let Get::Commit = bad {
                                        Error::Pending
                                    } else {
                                        Error::Mismatch
                                    })));
                                }
                            }
                            seq.push(op.clone());
                            all.push(w.clone());
                            match op {
                                Get::Enter | Get::EnterWith(_) => {
                                    let mut sub = Source::new(&model.text().unwrap(), be, &data);
                                    sub.at = model.at;
                                    stack.push(core::mem::replace(&mut model, sub));
                                },
                                Get::Leave => {
                                    let sub = core::mem::replace(&mut model, stack.pop().unwrap());
                                    model.at = sub.at;
                                    model.advance();
                                },
                                op => {
                                    model.apply(op);
                                },
                            }
                        }
                        let mut r = Reader::new(Maps::Exact, &data);
                        let mut got = Vec::new();
                        let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
                        run_dec(&mut dec, &seq, &mut 0, true, false, &mut got)?;
                        c.step(seq.len() as u64);
                        c.trace();
                        for (p, (g, w)) in got.iter().zip(&all).enumerate() {
                            expect_eq!(g, w, "operation {} of {:?} on {:?}", p, seq, v);
                        }
                    }

                    // With the format chosen at runtime.
                    {
                        let mut ops = Vec::new();
                        let mut want = Vec::new();
                        flatten_get(&v, text, Subs::Never, 0, &mut ops, &mut want);
                        let mut r = Reader::new(Maps::Exact, &data);
                        let f = if be { ende::Format::DVarBe } else { ende::Format::DVarLe };
                        let mut dec = ende::Dec::new(&sig, f, &mut r);
                        for (op, w) in ops.iter().zip(&want) {
                            let g = match op {
                                Get::More => Got::More(dec.more()),
                                Get::Close => match flow(dec.close()) {
                                    Ok(()) => Got::Done,
                                    Err(e) => Got::Fail(e),
                                },
                                op => match dec {
                                    ende::Dec::DVar(ref mut v) => get_basic(v, op)?,
                                },
                            };
                            expect_eq!(&g, w, "operation {:?} on {:?} with format chosen at runtime", op, v);
                        }
                    }

                    // Every input call fails once.
                    for m in [Maps::Exact, Maps::Chunk(1), Maps::Page(4)] {
                        let subs = SUBS[count % SUBS.len()];
                        let mut ops = Vec::new();
                        let mut want = Vec::new();
                        flatten_get(&v, text, subs, 0, &mut ops, &mut want);
                        for n in 0.. {
                            let kind = [Some(map::Error::Exceeded), Some(map::Error::Overflow), None][n % 3];
                            let mut r = Reader::new(m, &data);
                            r.fail = Some((n, kind));
                            let mut got = Vec::new();
                            let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
                            run_dec(&mut dec, &ops, &mut 0, true, true, &mut got)?;
                            drop(dec);
                            c.step(ops.len() as u64);
                            let failed = r.calls.get() > n;
                            let errors: Vec<Got> = got.iter().filter(|v| matches!(v, Got::Fail(_))).cloned().collect();
                            if failed {
                                c.feature("failed");
                                expect_eq!(errors, vec![Got::Fail(kind.map(Error::Io))],
                                    "errors with failing call {} on {:?} ({:?}, {:?})", n, v, subs, m);
                            }
                            let rest: Vec<&Got> = got.iter().filter(|v| !matches!(v, Got::Fail(_))).collect();
                            expect_eq!(rest, want.iter().collect::<Vec<_>>(),
                                "results with failing call {} on {:?} ({:?}, {:?})", n, v, subs, m);
                            if !failed {
                                break;
                            }
                        }
                        // Two input calls fail, which includes a repeated
                        // operation.
                        for n in 0..6 {
                            for k in n + 1..n + 5 {
                                let mut r = Reader::new(m, &data);
                                r.fail = Some((n, Some(map::Error::Overflow)));
                                r.again = Some((k, None));
                                let mut got = Vec::new();
                                let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
                                run_dec(&mut dec, &ops, &mut 0, true, true, &mut got)?;
                                drop(dec);
                                c.step(ops.len() as u64);
                                let errors: Vec<Got> = got.iter().filter(|v| matches!(v, Got::Fail(_))).cloned().collect();
                                let mut want_errors = Vec::new();
                                if r.calls.get() > n {
                                    want_errors.push(Got::Fail(Some(Error::Io(map::Error::Overflow))));
                                }
                                if r.calls.get() > k {
                                    want_errors.push(Got::Fail(None));
                                }
                                expect_eq!(errors, want_errors, "errors with failing calls {} and {} on {:?} ({:?}, {:?})", n, k, v, subs, m);
                                let rest: Vec<&Got> = got.iter().filter(|v| !matches!(v, Got::Fail(_))).collect();
                                expect_eq!(rest, want.iter().collect::<Vec<_>>(),
                                    "results with failing calls {} and {} on {:?} ({:?}, {:?})", n, k, v, subs, m);
                            }
                        }
                    }
                }
                if !ch.next() {
                    break;
                }
            }
            Ok(())
        },
    );

    if ctx.stopped() {
        return;
    }

    // Empty arrays of elements of all kinds, nested in arrays.
    let elements = [
        "y", "b", "n", "q", "i", "u", "x", "t", "d", "h", "s", "o", "g", "v", "()", "(y)", "(t)", "((q)s)", "{yy}", "{s(ut)}",
    ];
    let shapes: Vec<Vec<Hollow>> = vec![
        hollow(1, 0),
        hollow(2, ctx.pick(6, 9)),
        hollow(3, ctx.pick(3, 4)),
        hollow(4, ctx.pick(2, 2)),
    ];
    let shapes: Vec<(usize, &Hollow)> = shapes.iter().enumerate().flat_map(|(d, v)| v.iter().map(move |v| (d + 1, v))).collect();
    ctx.bound(format!("{} trees of empty arrays of up to 4 levels, for {} kinds of elements", shapes.len(), elements.len()));
    ctx.explore("empty", (shapes.len() * elements.len()) as u64, |i| {
        let (e, s) = (i as usize % elements.len(), i as usize / elements.len());
        format!("empty arrays of {} as {:?}", elements[e], shapes[s].1)
    }, |i, c| {
        let element = elements[i as usize % elements.len()];
        let (depth, shape) = shapes[i as usize / elements.len()];
        let text = "a".repeat(depth) + element;
        let sig = Sig::new(text.as_bytes()).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
        for be in [false, true] {
            let mut data = Vec::new();
            shape.marshal(&text.as_bytes()[1..], be, &mut data);
            let mut buf: Vec<u8> = Vec::new();
            let mut enc = Enc::with(Mown::new_borrowed(&sig), format(be), &mut buf);
            shape.encode(&mut enc, c)?;
            expect_eq!(enc.commit(), Ok(()), "commit of the encoder");
            drop(enc);
            expect_eq!(&buf, &data, "encoding");
            for m in MAPS {
                let mut r = Reader::new(*m, &data);
                let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
                shape.decode(&mut dec, c)?;
                expect_eq!(dec.commit(), Ok(()), "commit of the decoder");
                c.trace();
            }
            c.state(&data);
        }
        Ok(())
    });

    if ctx.stopped() {
        return;
    }

    texts(ctx, true);

    if ctx.stopped() {
        return;
    }

    // All values, all lengths, and all levels of nesting.
    let lens: Vec<usize> = (0..600).chain(far_lengths(ctx.pick(17, 20))).collect();
    ctx.bound(format!("{} lengths of strings and arrays up to {}, all 16-bit values, types of up to {} levels",
        lens.len(), lens.iter().max().unwrap(), ctx.pick(130, 300)));
    const WAYS: &[(Subs, Maps)] =
        &[(Subs::Never, Maps::Exact), (Subs::Alternate, Maps::Page(4096)), (Subs::Always, Maps::Chunk(100))];
    let ways = |t: &[u8], v: &Value, ways: &[(Subs, Maps)], c: &mut Case| -> CaseResult {
        let sig = Sig::new(t).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
        for be in [false, true] {
            let mut data = Vec::new();
            marshal(v, be, &mut data);
            c.state(&data);
            for (subs, m) in ways.iter().copied() {
                let mut ops = Vec::new();
                let mut want = Vec::new();
                flatten_get(v, t, subs, 0, &mut ops, &mut want);
                ops.push(Get::Commit);
                want.push(Got::Done);
                let mut r = Reader::new(m, &data);
                let mut got = Vec::new();
                let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
                run_dec(&mut dec, &ops, &mut 0, true, false, &mut got)?;
                c.step(ops.len() as u64);
                c.trace();
                if let Some(p) = got.iter().zip(&want).position(|(g, w)| g != w) {
                    let show = |v: &Got| format!("{:?}", v).chars().take(100).collect::<String>();
                    return Err(format!("operation {} of {} (be: {}, {:?}, {:?}): observed {}, expected {}",
                        p, ops.len(), be, subs, m, show(&got[p]), show(&want[p])).into());
                }
                expect_eq!(got.len(), want.len(), "number of results");
            }
        }
        Ok(())
    };
    let both = |t: &[u8], v: &Value, c: &mut Case| ways(t, v, WAYS, c);
    ctx.explore(
        "lengths",
        lens.len() as u64,
        |i| format!("strings and arrays of {}", lens[i as usize]),
        |i, c| {
            let n = lens[i as usize];
            let s: String = (0..n).map(|v| (b'a' + (v % 23) as u8) as char).collect();
            both(b"s", &Value::Str(s.clone()), c)?;
            // Strings in an array, with all alignments behind them.
            if n < 1 << 20 {
                both(b"as", &Value::Arr(b's', vec![Value::Str(s.clone()), Value::Str("x".into()), Value::Str(s.clone())]), c)?;
                both(b"aq", &Value::Arr(b'q', (0..n).map(|v| Value::U16(v as u16)).collect()), c)?;
            }
            if n <= 255 {
                both(b"g", &Value::Sig(s.clone()), c)?;
                both(b"ag", &Value::Arr(b'g', vec![Value::Sig(s.clone()), Value::Sig("x".into()), Value::Sig(s)]), c)?;
            }
            if n < 5000 {
                both(b"ag", &Value::Arr(b'g', (0..n).map(|v| Value::Sig("y".repeat(v % 4))).collect()), c)?;
                let inner = |v: usize| Value::Arr(b'q', (0..v % 3).map(|v| Value::U16(v as u16)).collect());
                both(b"aaq", &Value::Arr(b'a', (0..n).map(inner).collect()), c)?;
            }
            Ok(())
        },
    );
    ctx.explore(
        "values",
        0x10000,
        |i| format!("16-bit value {:#x}", i),
        |i, c| both(b"q", &Value::U16(i as u16), c),
    );
    ctx.explore(
        "nesting",
        3 * ctx.pick(130, 300),
        |i| format!("{} levels of arrays", i / 3),
        |i, c| {
            let n = (i / 3) as usize;
            let leaf = b"qsg"[(i % 3) as usize];
            let mut v = match leaf {
                b'q' => Value::U16(0x0102),
                b's' => Value::Str("abc".into()),
                _ => Value::Sig("ab".into()),
            };
            for k in 0..n {
                let el = if k == 0 { leaf } else { b'a' };
                // Some empty siblings, in front and behind.
                let mut all = vec![v];
                if k > 0 && k % 5 == 4 {
                    let el = if k == 1 { leaf } else { b'a' };
                    all.insert(0, Value::Arr(el, Vec::new()));
                    all.push(Value::Arr(el, Vec::new()));
                }
                v = Value::Arr(el, all);
            }
            both(&[&vec![b'a'; n][..], &[leaf]].concat(), &v, c)
        },
    );

    // Sub-decoders on any set of levels, and on one level only, however deep.
    let (few, depths) = (ctx.pick(8u64, 10), ctx.pick(130u64, 300));
    ctx.bound(format!("sub-decoders on all sets of {} levels, and on every single level out of {}", few, depths));
    let sets = 1u64 << (few + 1);
    let pick = |i: u64| {
        let (leaf, k) = (i % 3, i / 3);
        if k < sets { (leaf, few, Subs::Levels(k)) } else { (leaf, depths, Subs::Only((k - sets) as usize)) }
    };
    ctx.explore(
        "sub-decoders",
        (sets + depths) * 3,
        |i| format!("{} levels of arrays with element {}, {:?}", pick(i).1, pick(i).0, pick(i).2),
        |i, c| {
            let (leaf, n, subs) = pick(i);
            let n = n as usize;
            let t = [&vec![b'a'; n][..], &[b"qsg"[leaf as usize]]].concat();
            let v = build(&t, &reference(&t).unwrap(), 0, &mut Choices::new(0), 0);
            ways(&t, &v, &[(subs, Maps::Exact), (subs, Maps::Chunk(7))], c)
        },
    );

    if ctx.stopped() {
        return;
    }

    // All sequences of operations on correct and truncated data.
    let ops = [
        Get::U16, Get::Str, Get::Sig, Get::Array, Get::Close, Get::Commit, Get::More, Get::Enter,
        Get::EnterWith("as".into()), Get::EnterWith("q".into()), Get::Leave,
    ];
    let k = ops.len() as u64;
    let depth = ctx.pick(5, 6);
    let per = seq_total(k, depth);
    let inputs: Vec<(&[u8], Vec<u8>)> = {
        let mut v: Vec<(&[u8], Vec<u8>)> = Vec::new();
        for t in [&b"q"[..], b"s", b"g", b"aq", b"as", b"ag", b"aaq"] {
            let n = reference(t).unwrap();
            let mut ch = Choices::new(2);
            loop {
                let val = build(t, &n, 0, &mut ch, 0);
                let mut d = Vec::new();
                marshal(&val, false, &mut d);
                v.push((t, d));
                if !ch.next() {
                    break;
                }
            }
        }
        v
    };
    let seq_of = |i: u64| -> Vec<Get> { seq_at(k, i).into_iter().map(|v| ops[v].clone()).collect() };
    ctx.explore(
        "sequences",
        inputs.len() as u64 * per,
        |i| {
            let (t, d) = &inputs[(i / per) as usize];
            format!("type {}, data {:?}, operations {:?}", show(t), d, seq_of(i % per))
        },
        |i, c| {
            let (t, d) = &inputs[(i / per) as usize];
            compare(t, d, false, &seq_of(i % per), c)
        },
    );
}

/// Run a sequence of operations on decoder and reference.
fn compare(t: &[u8], d: &[u8], be: bool, seq: &[Get], c: &mut Case) -> CaseResult {
    let sig = Sig::new(t).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
    let mut want = Vec::new();
    let mut model = Source::new(t, be, d);
    model.run(seq, &mut 0, true, &mut want);
    let mut r = Reader::new(Maps::Exact, d);
    let mut got = Vec::new();
    let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
    run_dec(&mut dec, seq, &mut 0, true, false, &mut got)?;
    c.step(seq.len() as u64);
    c.trace();
    for (p, (g, (w, loose))) in got.iter().zip(&want).enumerate() {
        if *loose {
            c.feature("unspecified");
            break;
        }
        c.state(&(t, p, w));
        expect_eq!(g, w, "result of operation {} ({:?})", p, seq[p]);
    }
    Ok(())
}

/// Read everything the way a consumer does. Returns the results up to and
/// including the first failure.
fn consume(dec: &mut Dec<'_, '_>, text: &[u8], out: &mut Vec<Got>) -> Result<bool, Fail> {
    let r = match text[0] {
        b'q' => get_basic(dec, &Get::U16)?,
        b's' => get_basic(dec, &Get::Str)?,
        b'g' => get_basic(dec, &Get::Sig)?,
        b'a' => get_basic(dec, &Get::Array)?,
        _ => unreachable!(),
    };
    let ok = !matches!(r, Got::Fail(_));
    if out.len() < 10000 {
        out.push(r);
    }
    if !ok {
        return Ok(false);
    }
    if text[0] == b'a' {
        while dec.more() {
            if !consume(dec, &text[1..], out)? {
                return Ok(false);
            }
        }
        let r = get_basic(dec, &Get::Close)?;
        expect_eq!(r, Got::Done, "close at the end of an array");
        if out.len() < 10000 {
            out.push(Got::Done);
        }
    }
    Ok(true)
}

fn consume_ref(src: &mut Source, text: &[u8], out: &mut Vec<(Got, bool)>) -> bool {
    let op = match text[0] {
        b'q' => Get::U16,
        b's' => Get::Str,
        b'g' => Get::Sig,
        _ => Get::Array,
    };
    let r = src.apply(&op);
    let ok = !matches!(r, Got::Fail(_));
    out.push((r, src.loose));
    if !ok {
        return false;
    }
    if text[0] == b'a' {
        while src.at < src.frames.last().unwrap().mark {
            if !consume_ref(src, &text[1..], out) {
                return false;
            }
        }
        let r = src.apply(&Get::Close);
        out.push((r, src.loose));
    }
    true
}

/// D08: hostile input is handled without panics, excessive memory use, or
/// made up data.
pub fn d08(ctx: &Ctx) {
    let alpha = [0u8, 1, 2, 4, b'a', 0xc3, 0xff];
    let k = alpha.len() as u64;
    let len = ctx.pick(7, 9);
    let sigs = dec_types(4);
    let per = seq_total(k, len);
    ctx.bound(format!("all inputs up to {} bytes out of {} values for {} types and both byte orders; \
        every truncation of correct messages and every change of one byte to one of 10 values; memory \
        in use never exceeds 8 times the size of input and type plus 4 KiB", len, k, sigs.len()));
    ctx.assume("contents of padding and terminators, and excess array content, are not required to be validated");

    let check = |t: &[u8], d: &[u8], be: bool, maps: Maps, c: &mut Case| -> CaseResult {
        let sig = Sig::new(t).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
        let mut want = Vec::new();
        let mut model = Source::new(t, be, d);
        let ok = consume_ref(&mut model, t, &mut want);

        let mut got = Vec::with_capacity(want.len().max(64) + 64);
        let mut r = Reader::new(maps, d);
        let (res, peak) = memory::peak(|| {
            let mut dec = Dec::with(Mown::new_borrowed(&sig), format(be), &mut r);
            consume(&mut dec, t, &mut got)
        });
        let res = res?;
        c.step(got.len() as u64);
        c.trace();
        // Each decoded string is kept by the test, hence counted as well.
        let limit = 8 * (d.len() + t.len() * 64) + 4096;
        ensure!(peak <= limit, "{} bytes of memory in use for an input of {} bytes", peak, d.len());
        for (p, (g, (w, loose))) in got.iter().zip(&want).enumerate() {
            if *loose {
                c.feature("unspecified");
                // Data that does not exist must still not be reported.
                if !ok {
                    ensure!(!res, "success on truncated or invalid input");
                }
                return Ok(());
            }
            expect_eq!(g, w, "result {}", p);
        }
        expect_eq!(res, ok, "success");
        expect_eq!(got.len(), want.len(), "number of results");
        c.feature(if ok { "valid" } else { "invalid" });
        c.state(&(t, ok, &got));
        Ok(())
    };

    let total = sigs.len() as u64 * 2 * per;
    let dec = |i: u64| -> (usize, bool, Vec<u8>) {
        let s = (i / per) as usize;
        (s / 2, s % 2 == 1, seq_at(k, i % per).into_iter().map(|v| alpha[v]).collect())
    };
    ctx.explore(
        "inputs",
        total,
        |i| {
            let (s, be, d) = dec(i);
            format!("type {}, be: {}, data {:x?}", show(&sigs[s]), be, d)
        },
        |i, c| {
            let (s, be, d) = dec(i);
            check(&sigs[s], &d, be, if i % 2 == 0 { Maps::Exact } else { Maps::Page(3) }, c)
        },
    );

    if ctx.stopped() {
        return;
    }

    let values = [0u8, 1, 2, 3, 4, 8, 0x7f, 0x80, 0xc3, 0xff];
    let sigs = dec_types(5);
    ctx.explore(
        "corruptions",
        sigs.len() as u64,
        |i| format!("type {}", show(&sigs[i as usize])),
        |i, c| {
            let t = &sigs[i as usize];
            let nodes = reference(t).unwrap();
            let mut ch = Choices::new(ctx.pick(5, 6));
            loop {
                let v = build(t, &nodes, 0, &mut ch, 0);
                for be in [false, true] {
                    let mut d = Vec::new();
                    marshal(&v, be, &mut d);
                    for n in 0..d.len() {
                        check(t, &d[..n], be, MAPS[n % MAPS.len()], c).map_err(|e| at(e, &d[..n]))?;
                    }
                    for n in 0..d.len() {
                        for v in values {
                            let mut d = d.clone();
                            d[n] = v;
                            check(t, &d, be, MAPS[n % MAPS.len()], c).map_err(|e| at(e, &d))?;
                        }
                    }
                }
                if !ch.next() {
                    break;
                }
            }
            Ok(())
        },
    );

    fn at(e: Fail, d: &[u8]) -> Fail {
        match e {
            Fail::Violation(m) => Fail::Violation(format!("{} (data {:x?})", m, d)),
            e => e,
        }
    }

    // Every combination of bytes in a length.
    let bytes = [0u8, 1, 4, 0x10, 0x7f, 0x80, 0xfe, 0xff];
    ctx.explore(
        "lengths",
        8 * 8 * 8 * 8 * 4,
        |i| format!("length by bytes {:x?}", mixed(i, &[8, 8, 8, 8, 4])),
        |i, c| {
            let m = mixed(i, &[8, 8, 8, 8, 4]);
            let mut d: Vec<u8> = m[..4].iter().map(|v| bytes[*v as usize]).collect();
            d.extend(b"abcdefgh\0\0\0\0\0\0\0\0");
            let t: &[u8] = [&b"s"[..], b"as", b"aq", b"aas"][m[4] as usize];
            for be in [false, true] {
                for maps in MAPS {
                    check(t, &d, be, *maps, c)?;
                }
            }
            Ok(())
        },
    );

    // Deep types with any input of repeated words.
    let words: [[u8; 4]; 7] = [
        [0; 4], [0, 0, 0, 4], [4, 0, 0, 0], [0xff; 4], [8, 0, 0, 8], [0, 0, 1, 0], [0x7f, 0xff, 0xff, 0xff],
    ];
    let depths = [5usize, 6, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 1000];
    ctx.explore(
        "deep",
        (depths.len() * 3 * 49) as u64,
        |i| {
            let m = mixed(i, &[depths.len() as u64, 3, 7, 7]);
            format!("{} levels of arrays, data of {:x?} and {:x?}", depths[m[0] as usize], words[m[2] as usize], words[m[3] as usize])
        },
        |i, c| {
            let m = mixed(i, &[depths.len() as u64, 3, 7, 7]);
            let n = depths[m[0] as usize];
            let t = [&vec![b'a'; n][..], &[b"qsg"[m[1] as usize]]].concat();
            for size in [n / 2, n, n + 2] {
                let d: Vec<u8> = (0..size).flat_map(|k| words[m[2 + k % 2] as usize]).collect();
                for be in [false, true] {
                    check(&t, &d, be, if n % 2 == 0 { Maps::Exact } else { Maps::Page(64) }, c)?;
                }
            }
            Ok(())
        },
    );

    if ctx.stopped() {
        return;
    }

    // Large inputs that claim more, as much, or less than there is, with
    // invalid text at any place.
    let sizes: Vec<usize> = far_lengths(16).into_iter().filter(|v| *v < 1 << 20).collect();
    ctx.explore(
        "large",
        (sizes.len() * 5 * 4) as u64,
        |i| {
            let m = mixed(i, &[sizes.len() as u64, 5, 4]);
            format!("text of {} bytes, claim {}, problem {}", sizes[m[0] as usize], m[1], m[2])
        },
        |i, c| {
            let m = mixed(i, &[sizes.len() as u64, 5, 4]);
            let n = sizes[m[0] as usize];
            let claim = [n, n + 1, n - 1, 0xffff_ffff, n + 0x10000][m[1] as usize] as u32;
            let mut text = vec![b'x'; n];
            match m[2] {
                0 => {},
                1 => text[0] = 0xff,
                2 => text[n / 2] = 0xc3,
                _ => text[n - 1] = 0xe9,
            }
            for be in [false, true] {
                let mut d = if be { claim.to_be_bytes() } else { claim.to_le_bytes() }.to_vec();
                d.extend(&text);
                for maps in [Maps::Exact, Maps::Chunk(4096), Maps::Page(100)] {
                    check(b"s", &d, be, maps, c)?;
                    d.push(0);
                    check(b"s", &d, be, maps, c)?;
                    d.pop();
                }
            }
            Ok(())
        },
    );
}
