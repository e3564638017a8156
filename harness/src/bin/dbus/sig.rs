//! D-Bus elements, signatures, and cursors.

use mc::engine::*;
use mc::{ensure, expect_eq};
use core::mem::MaybeUninit;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use tmp::fmt::dbus::element as el;
use tmp::fmt::dbus::signature::{builtin, make, Error};
use tmp::fmt::dbus::{sig, Cursor, Element, Sig};

/// All element codes.
pub const CODES: &[u8] = b"ynqiuxtdbsoghvam(){}";

const BASIC: &[u8] = b"ynqiuxtdbsogh";

/// An element of a parsed signature, as seen by the reference parser.
#[derive(Clone, Debug)]
pub struct Node {
    pub code: u8,
    /// Index of the innermost container around this element.
    pub up: Option<usize>,
    /// Position amongst the members of the container.
    pub pos: usize,
    /// Length of the complete type that starts here, 1 for closing elements.
    pub len: usize,
}

/// D-Bus alignment, as exponent to the power of 2.
pub fn dvar_align(code: u8) -> u8 {
    match code {
        b'y' | b'g' | b'v' => 0,
        b'n' | b'q' => 1,
        b'i' | b'u' | b'b' | b's' | b'o' | b'h' | b'a' => 2,
        b'x' | b't' | b'd' | b'(' | b'{' => 3,
        _ => 0,
    }
}

/// GVariant alignment of a single element, as exponent to the power of 2.
fn gvar_align_own(code: u8) -> u8 {
    match code {
        b'n' | b'q' => 1,
        b'i' | b'u' | b'h' => 2,
        b'x' | b't' | b'd' | b'v' => 3,
        _ => 0,
    }
}

/// GVariant alignment of a complete type is the maximum over everything it
/// is composed of.
fn gvar_align(nodes: &[Node], idx: usize) -> u8 {
    nodes[idx..idx + nodes[idx].len].iter().map(|v| gvar_align_own(v.code)).max().unwrap()
}

fn is_open(c: u8) -> bool {
    matches!(c, b'a' | b'm' | b'(' | b'{')
}

fn is_bound(c: u8) -> bool {
    matches!(c, b'a' | b'm')
}

fn is_close(c: u8) -> bool {
    matches!(c, b')' | b'}')
}

/// Reference parser: read from left to right and report the first problem.
pub fn reference(text: &[u8]) -> Result<Vec<Node>, Error> {
    let mut nodes: Vec<Node> = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut members: Vec<usize> = Vec::new();

    if text.is_empty() {
        return Err(Error::SignatureEmpty);
    }

    for (i, &code) in text.iter().enumerate() {
        if i > 0 && open.is_empty() {
            return Err(Error::SignatureSequence { break_idx: i });
        }
        if code >= 0x80 {
            return Err(Error::ElementInvalid { idx: i, code });
        }
        if !CODES.contains(&code) {
            return Err(Error::ElementUnknown { position: i, code });
        }

        nodes.push(Node {
            code,
            up: open.last().copied(),
            pos: members.last().copied().unwrap_or(0),
            len: 1,
        });

        if is_open(code) {
            open.push(i);
            members.push(0);
            continue;
        }

        if is_close(code) {
            let Some(&o) = open.last() else {
                return Err(Error::ElementUnpaired { idx: i });
            };
            let opening = if code == b')' { b'(' } else { b'{' };
            if nodes[o].code != opening {
                return Err(Error::ElementMispaired {
                    idx: o,
                    pair_idx: i,
                    expected: Element::from_code(opening),
                });
            }
            if code == b'}' && (*members.last().unwrap() != 2 || !BASIC.contains(&nodes[o + 1].code)) {
                return Err(Error::DictInvalid { position: o });
            }
            nodes[o].len = i + 1 - o;
            open.pop();
            members.pop();
        }

        // A complete type ended here.
        while let Some(&o) = open.last() {
            *members.last_mut().unwrap() += 1;
            if is_bound(nodes[o].code) {
                nodes[o].len = i + 1 - o;
                open.pop();
                members.pop();
            } else {
                break;
            }
        }
    }

    match open.last() {
        Some(&o) => Err(Error::SignatureIncomplete { container_idx: o }),
        None => Ok(nodes),
    }
}

pub fn show(text: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(text))
}

fn hash(v: &Sig) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

const SIZES: usize = 36;

macro_rules! sized {
    ($text:expr, $f:expr, $($n:literal)*) => {
        match $text.len() {
            $($n => $f(Sig::<[u64; { Sig::size_for_length($n) }]>::try_make($text).map(|v| { let v: &Sig = &v; Sig::clone(v) })),)*
            _ => unreachable!(),
        }
    };
}

/// Create the signature through the statically sized constructor.
fn by_size(text: &[u8]) -> Option<Result<Box<Sig>, Error>> {
    if text.len() > SIZES {
        return None;
    }
    Some(sized!(text, |v| v,
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33
        34 35 36))
}

/// Families of signature strings.
struct Family {
    name: &'static str,
    alpha: &'static [u8],
    depth: u32,
    pre: Vec<u8>,
    post: Vec<u8>,
}

impl Family {
    fn total(&self) -> u64 {
        seq_total(self.alpha.len() as u64, self.depth)
    }

    fn at(&self, i: u64) -> Vec<u8> {
        let mut v = self.pre.clone();
        v.extend(seq_at(self.alpha.len() as u64, i).into_iter().map(|c| self.alpha[c]));
        v.extend(&self.post);
        v
    }
}

fn families(ctx: &Ctx) -> Vec<Family> {
    const WILD: &[u8] = b"ynqiuxtdbsoghvam(){}r*z\0A\x80\xff";
    const SHAPE: &[u8] = b"yva(){}";
    vec![
        Family { name: "codes", alpha: WILD, depth: ctx.pick(5, 6), pre: vec![], post: vec![] },
        Family { name: "shapes", alpha: SHAPE, depth: ctx.pick(8, 9), pre: vec![], post: vec![] },
        Family {
            name: "shapes-maybe", alpha: b"tm(){}", depth: ctx.pick(8, 9), pre: vec![], post: vec![],
        },
        // Everything again inside of a longer structure, which makes the
        // signature exceed all limits on the compact representation.
        Family {
            name: "in-long-struct", alpha: WILD, depth: ctx.pick(4, 5),
            pre: [b"(".as_slice(), &[b'y'; 30]].concat(), post: b")".to_vec(),
        },
        Family {
            name: "shapes-in-long-array", alpha: SHAPE, depth: ctx.pick(7, 8),
            pre: vec![b'a'; 32], post: vec![],
        },
        Family {
            name: "shapes-in-long-dict", alpha: SHAPE, depth: ctx.pick(7, 8),
            pre: b"a{sa{sa{sa{sa{sa{sa{sa{sa{sa{sa{s".to_vec(), post: b"}}}}}}}}}}}".to_vec(),
        },
        // Around the limit.
        Family {
            name: "around-limit", alpha: SHAPE, depth: ctx.pick(5, 6),
            pre: [b"(".as_slice(), &[b't'; 26]].concat(), post: b")".to_vec(),
        },
    ]
}

/// Long signatures of regular shape.
fn regular(i: u64) -> Vec<u8> {
    let n = (i / 8) as usize;
    let mut v = Vec::new();
    match i % 8 {
        0 => { v.extend(vec![b'a'; n]); v.push(b'y'); },
        1 => { v.extend(vec![b'(' ; n]); v.push(b'y'); v.extend(vec![b')'; n]); },
        2 => { v.push(b'('); v.extend(vec![b't'; n]); v.push(b')'); },
        3 => { v.push(b'('); for _ in 0..n { v.extend(b"a{sv}"); } v.push(b')'); },
        4 => { for _ in 0..n { v.extend(b"a{s"); } v.push(b'v'); for _ in 0..n { v.extend(b"}"); } },
        5 => { v.extend(vec![b'(' ; n]); },
        6 => { for _ in 0..n { v.extend(b"(y"); } for _ in 0..n { v.extend(b"ty)"); } },
        _ => { v.push(b'('); for _ in 0..n { v.extend(b"yt"); } v.push(if n % 2 == 0 { b')' } else { b'}' }); },
    }
    v
}

/// All strings of this check family, with the function applied to each.
fn all_texts(ctx: &Ctx, run: impl Fn(&[u8], &mut Case) -> CaseResult + Sync) {
    for f in families(ctx) {
        ctx.explore(
            f.name,
            f.total(),
            |i| format!("signature {}", show(&f.at(i))),
            |i, c| run(&f.at(i), c),
        );
    }
    ctx.explore(
        "regular",
        8 * ctx.pick(300, 600),
        |i| format!("signature {}", show(&regular(i))),
        |i, c| run(&regular(i), c),
    );
    // Regular shapes around the powers of two, as they are and with a problem
    // at the end.
    let sizes: Vec<u64> = [9, 10, 11, 12, 13, 14, 15, 16].iter().flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).collect();
    let ends: [&[u8]; 6] = [b"", b"y", b"z", b"\x80", b")", b"}"];
    let huge = |i: u64| -> Vec<u8> {
        let m = mixed(i, &[8, ends.len() as u64, sizes.len() as u64]);
        let mut v = regular(sizes[m[2] as usize] * 8 + m[0]);
        if m[1] > 0 && i % 2 == 0 {
            v.pop();
        }
        v.extend(ends[m[1] as usize]);
        v
    };
    ctx.explore(
        "huge",
        8 * (ends.len() * sizes.len()) as u64,
        |i| {
            let m = mixed(i, &[8, ends.len() as u64, sizes.len() as u64]);
            format!("shape {} with {} repetitions, ending in {:?}", m[0], sizes[m[2] as usize], ends[m[1] as usize])
        },
        |i, c| run(&huge(i), c),
    );
    // Every byte value at every position of signatures of all kinds.
    let base: Vec<&[u8]> = vec![
        b"s", b"a{sv}", b"(ta(s)m{yv})", b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy)",
        b"a{oa{sa{sv}}}", b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyy)", b"(((((((((((((((y)))))))))))))))",
        b"((((((((((((((((y))))))))))))))))",
    ];
    let spans: Vec<u64> = base.iter().map(|b| b.len() as u64).collect();
    let total: u64 = spans.iter().sum::<u64>() * 256;
    let at = |i: u64| {
        let mut k = i / 256;
        let mut j = 0;
        while k >= spans[j] {
            k -= spans[j];
            j += 1;
        }
        let mut v = base[j].to_vec();
        v[k as usize] = (i % 256) as u8;
        v
    };
    ctx.explore(
        "every-byte",
        total,
        |i| format!("signature {:?}", at(i)),
        |i, c| run(&at(i), c),
    );
    // Larger types as members of each other, complete or not.
    let members = |n: usize| [&b"("[..], &vec![b'y'; n], b")"].concat();
    let parts: Vec<Vec<u8>> = vec![
        b"(".to_vec(), b")".to_vec(), b"{".to_vec(), b"}".to_vec(), b"a".to_vec(), b"s".to_vec(), b"v".to_vec(),
        b"()".to_vec(), b"m(yt)".to_vec(), b"a{sv}".to_vec(), b"{sa{ov}}".to_vec(), members(5), members(28), members(40),
        [&[b'('; 9][..], b"x", &[b')'; 9]].concat(), [&[b'a'; 7][..], b"d"].concat(), [&[b'a'; 33][..], b"h"].concat(),
    ];
    let k = parts.len() as u64;
    let join = |i: u64| seq_at(k, i).into_iter().flat_map(|v| parts[v].clone()).collect::<Vec<u8>>();
    let len = ctx.pick(5, 6);
    ctx.bound(format!("all sequences of up to {} of {} parts of up to 42 codes", len, k));
    ctx.explore(
        "composed",
        seq_total(k, len),
        |i| format!("signature {}", show(&join(i))),
        |i, c| run(&join(i), c),
    );
    // Everything close to some signatures.
    let edits = Edits::new(
        [
            &b"a{sv}"[..], b"(ta(s)m{yv})", b"a{oa{sa{sv}}}", b"((yq)(nu)((ix)(td)))", b"{y{o{s(bhg)}}}", b"(a{s(uas)}aa{ya{tv}}v)",
            b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyy)", b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy)", b"(((((((((((((((y)))))))))))))))",
            b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaay", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay", b"a{sa{sa{sa{sa{sa{sa{sv}}}}}}}",
        ].iter().map(|v| v.to_vec()).collect(),
        (0..=255).collect(),
        b"(){}amsvy".to_vec(),
    );
    ctx.bound("all edits of one byte, and of two bytes out of 9, of 12 signatures");
    ctx.explore(
        "close",
        edits.total(),
        |i| format!("signature {}", show(&edits.at(i))),
        |i, c| run(&edits.at(i), c),
    );
}

/// D01: exactly the single complete types are accepted, and all ways to
/// create or read back a signature agree.
pub fn d01(ctx: &Ctx) {
    ctx.bound("all strings over 27 codes (20 valid) up to a depth, over reduced alphabets deeper, \
        in the context of long structs, arrays, and dictionaries, and regular signatures of up to \
        300 repetitions, and up to 65537 with a problem at the end; buffers of every size from 0 to 8 words above the needed size");

    all_texts(ctx, |text, c| {
        let want = reference(text);
        let got = Sig::new(text);
        c.step(1);
        c.trace();
        ensure!(got.is_ok() == want.is_ok(), "accepted: {:?}, but it is a single complete type: {}",
            got.as_ref().map(|v| v.to_string()), want.is_ok());

        let (Ok(s), Ok(_)) = (got, want) else {
            c.feature("rejected");
            ensure!(Sig::arc(text).is_err(), "arc() accepted an invalid signature");
            if let Some(v) = by_size(text) {
                ensure!(v.is_err(), "try_make() accepted an invalid signature");
            }
            return Ok(());
        };
        c.feature("accepted");
        if text.len() > 31 {
            c.feature("accepted-long");
        }
        c.state(&text);
        let string = String::from_utf8(text.to_vec()).unwrap();
        expect_eq!(s.len(), text.len(), "len()");
        expect_eq!(s.to_string(), string.clone(), "to_string()");
        expect_eq!(format!("{}", &*s), string.clone(), "Display");
        let iter: Vec<u8> = (&*s).into_iter().map(|v| v.code()).collect();
        expect_eq!(&iter[..], text, "elements");

        let arc = Sig::arc(text).map_err(|e| Fail::Violation(format!("arc() failed: {:?}", e)))?;
        expect_eq!(arc.to_string(), string.clone(), "to_string() of arc()");
        expect_eq!(arc.len(), text.len(), "len() of arc()");
        ensure!(*arc == *s, "arc() and new() differ");
        let cl = Sig::clone(&s);
        expect_eq!(cl.to_string(), string.clone(), "to_string() of clone()");
        ensure!(*cl == *s, "clone differs");
        let ow: Box<Sig> = s.to_owned();
        ensure!(*ow == *s, "to_owned() differs");
        let bc: Box<Sig> = Box::<Sig>::clone(&s);
        ensure!(*bc == *s && bc.len() == text.len(), "clone of the box differs");
        if let Some(v) = by_size(text) {
            let v = v.map_err(|e| Fail::Violation(format!("try_make() failed: {:?}", e)))?;
            expect_eq!(v.to_string(), string, "to_string() of try_make()");
            ensure!(*v == *s, "try_make() and new() differ");
        }
        c.step(8);
        Ok(())
    });

    if ctx.stopped() {
        return;
    }

    // Buffers of all sizes.
    let texts: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = Vec::new();
        for t in [
            &b""[..], b"y", b"s", b"(", b")", b"ay", b"a", b"()", b"(yt)", b"a{sv}", b"a{vs}", b"yy", b"z",
            b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyy)", b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy)",
            b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyt)", b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyt",
            b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay",
        ] {
            v.push(t.to_vec());
        }
        v
    };
    let sizes = 260;
    ctx.explore(
        "buffer-size",
        texts.len() as u64 * sizes,
        |i| format!("parse {} into a buffer of {} words", show(&texts[(i / sizes) as usize]), i % sizes),
        |i, c| {
            let text = &texts[(i / sizes) as usize];
            let size = (i % sizes) as usize;
            let need = Sig::size_for_length(text.len());
            let mut buf: Vec<MaybeUninit<u64>> = vec![MaybeUninit::new(0xeeee_eeee_eeee_eeee); size];
            let got = Sig::parse(&mut buf, text);
            // What is initialized does not depend on what was there before.
            let mut twin: Vec<MaybeUninit<u64>> = vec![MaybeUninit::new(0x1111_1111_1111_1111); size];
            expect_eq!(Sig::parse(&mut twin, text), got, "result for the same signature");
            if got.is_ok() {
                let words = |v: &[MaybeUninit<u64>]| v.iter().map(|v| unsafe { v.assume_init() }).collect::<Vec<u64>>();
                expect_eq!(words(&buf), words(&twin), "memory that is left uninitialized");
            }
            c.step(2);
            c.trace();
            c.state(&(text, size, got.is_ok()));
            let want = reference(text).map(|_| ());
            if size == need {
                expect_eq!(got, want, "result for a buffer of the right size");
            } else if let Err(e) = want {
                ensure!(got == Err(e) || got == Err(Error::DataExceeded),
                    "result for an invalid signature: {:?}", got);
            } else if size < need {
                expect_eq!(got, Err(Error::DataExceeded), "result for a small buffer");
            } else {
                c.feature("large-buffer");
                // Accepting it requires the trailing space to be initialized
                // and ignored.
                let unit = need / text.len();
                if got.is_ok() {
                    ensure!(size - need < unit,
                        "a buffer with room for more elements than the signature has was accepted");
                }
            }
            Ok(())
        },
    );

    // Static sizes, which produce a usable signature if they are accepted.
    ctx.single("static-oversized", "statically sized signatures with excess space", |c| {
        fn run<const N: usize>(text: &[u8], c: &mut Case) -> CaseResult {
            c.step(1);
            c.trace();
            c.state(&(N, text));
            match Sig::<[u64; N]>::try_make(text) {
                Ok(v) => {
                    let v: &Sig = &v;
                    expect_eq!(v.len(), text.len(), "len() with {} words for {}", N, show(text));
                    expect_eq!(v.to_string().into_bytes(), text.to_vec(), "text with {} words", N);
                },
                Err(e) => expect_eq!(e, Error::DataExceeded, "error with {} words for {}", N, show(text)),
            }
            Ok(())
        }
        let long = b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyt)";
        run::<1>(b"ay", c)?;
        run::<3>(b"ay", c)?;
        run::<4>(b"ay", c)?;
        run::<8>(b"ay", c)?;
        run::<64>(b"ay", c)?;
        run::<197>(long, c)?;
        run::<198>(long, c)?;
        run::<199>(long, c)?;
        run::<200>(long, c)?;
        run::<203>(long, c)?;
        run::<204>(long, c)?;
        run::<210>(long, c)?;
        Ok(())
    });

    // Literals.
    ctx.single("literals", "compile-time signatures", |c| {
        const A: &Sig = sig!(b"a{sv}");
        const B: &Sig = sig!(b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyt)");
        const C: &Sig = &make!(b"s");
        expect_eq!(A.to_string(), "a{sv}", "literal");
        expect_eq!(B.to_string(), "(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyt)", "long literal");
        expect_eq!(B.len(), 44, "length of long literal");
        ensure!(&*Sig::new(b"a{sv}").unwrap() == A, "literal differs");
        expect_eq!(C.to_string(), "s", "literal");
        expect_eq!(builtin::s.to_string(), "s", "builtin");
        expect_eq!(builtin::asv.to_string(), "a{sv}", "builtin");
        c.step(7);
        c.trace();
        Ok(())
    });
}

/// D02: a rejected signature is reported with the first problem.
pub fn d02(ctx: &Ctx) {
    ctx.bound("the strings of D01");
    all_texts(ctx, |text, c| {
        let want = reference(text).err();
        let got = Sig::new(text).err();
        c.step(2);
        c.trace();
        if let Some(e) = want {
            c.state(&e);
            c.feature(match e {
                Error::DataExceeded => "data-exceeded",
                Error::SignatureEmpty => "empty",
                Error::SignatureSequence { .. } => "sequence",
                Error::SignatureIncomplete { .. } => "incomplete",
                Error::ElementInvalid { .. } => "invalid",
                Error::ElementUnknown { .. } => "unknown",
                Error::ElementUnpaired { .. } => "unpaired",
                Error::ElementMispaired { .. } => "mispaired",
                Error::DictInvalid { .. } => "dict",
            });
        }
        expect_eq!(got, want, "error of new()");
        expect_eq!(Sig::arc(text).err(), want, "error of arc()");
        Ok(())
    });
}

/// All complete types of at most the given length over the given leaf types.
pub fn types(leaves: &[u8], maybe: bool, max: usize) -> Vec<Vec<u8>> {
    // by_len[n]: all types of length n.
    // seqs[n]: all sequences of types of total length n.
    let mut by_len: Vec<Vec<Vec<u8>>> = vec![Vec::new(); max + 1];
    let mut seqs: Vec<Vec<Vec<u8>>> = vec![Vec::new(); max + 1];
    seqs[0].push(Vec::new());
    for n in 1..=max {
        let mut v: Vec<Vec<u8>> = Vec::new();
        if n == 1 {
            v.extend(leaves.iter().map(|c| vec![*c]));
        }
        for t in &by_len[n - 1] {
            v.push([b"a".as_slice(), t].concat());
            if maybe {
                v.push([b"m".as_slice(), t].concat());
            }
        }
        if n >= 2 {
            for s in &seqs[n - 2] {
                v.push([b"(".as_slice(), s, b")"].concat());
            }
        }
        if n >= 4 {
            for k in leaves.iter().filter(|c| BASIC.contains(c)) {
                for t in &by_len[n - 3] {
                    v.push([b"{".as_slice(), &[*k], t, b"}"].concat());
                }
            }
        }
        by_len[n] = v;
        let mut s: Vec<Vec<u8>> = Vec::new();
        for k in 1..=n {
            for t in &by_len[k] {
                for r in &seqs[n - k] {
                    s.push([t.as_slice(), r].concat());
                }
            }
        }
        seqs[n] = s;
    }
    by_len.into_iter().flatten().collect()
}

/// What a cursor must report at an index, given the parsed nodes.
fn check_cursor<'a, O: core::borrow::Borrow<Sig>>(
    cur: &mut Cursor<'a, O>,
    nodes: &[Node],
    text: &[u8],
    c: &mut Case,
) -> CaseResult {
    check_cursor_at(cur, nodes, text, 0..=nodes.len() + 2, c)
}

/// As above, from the given indices only.
fn check_cursor_at<'a, O: core::borrow::Borrow<Sig>>(
    cur: &mut Cursor<'a, O>,
    nodes: &[Node],
    text: &[u8],
    starts: impl IntoIterator<Item = usize>,
    c: &mut Case,
) -> CaseResult {
    let n = nodes.len();
    let code = |i: usize| Some(nodes[i].code);
    ensure!(cur.root().to_string().as_bytes() == text, "root()");
    for start in starts {
        let at = start.min(n);
        cur.move_to(start);
        expect_eq!(cur.idx(), at, "index after moving to {}", start);
        let node = nodes.get(at);
        c.step(1);

        // What the reference says about this place.
        let w_next = (at < n).then_some(at + 1);
        let w_prev = (at > 0).then(|| at - 1);
        let w_step = node.and_then(|v| match v.up {
            None => Some(at + v.len),
            Some(u) if is_bound(nodes[u].code) => None,
            Some(_) if is_close(v.code) => None,
            Some(_) => Some(at + v.len),
        });
        let w_down = node.and_then(|v| is_open(v.code).then_some(at + 1));
        let w_up = node.and_then(|v| v.up);

        expect_eq!(cur.idx_next(), w_next, "idx_next at {}", at);
        expect_eq!(cur.idx_prev(), w_prev, "idx_prev at {}", at);
        expect_eq!(cur.idx_step(), w_step, "idx_step at {}", at);
        expect_eq!(cur.idx_down(), w_down, "idx_down at {}", at);
        expect_eq!(cur.idx_up(), w_up, "idx_up at {}", at);
        expect_eq!(cur.element().map(|v| v.code()), node.map(|v| v.code), "element at {}", at);
        expect_eq!(cur.down().map(|v| v.code()), w_down.and_then(code), "down at {}", at);
        expect_eq!(cur.up().map(|v| v.code()), w_up.and_then(code), "up at {}", at);
        expect_eq!((*cur).position(), node.map(|v| v.pos), "position at {}", at);
        expect_eq!(cur.length(), node.map(|v| v.len), "length at {}", at);
        // There is no D-Bus encoding of maybe types, and closing elements are
        // not encoded at all.
        let d = cur.dvar_alignment_exp();
        match node {
            Some(v) if v.code != b'm' && !is_close(v.code) => {
                expect_eq!(d, Some(dvar_align(v.code)), "D-Bus alignment at {}", at);
            },
            v => expect_eq!(d.is_some(), v.is_some(), "presence of D-Bus alignment at {}", at),
        }
        match node {
            Some(v) if !is_close(v.code) => {
                expect_eq!(cur.gvar_alignment_exp(), Some(gvar_align(nodes, at)), "GVariant alignment at {}", at);
            },
            v => expect_eq!(cur.gvar_alignment_exp().is_some(), v.is_some(), "presence of GVariant alignment at {}", at),
        }
        let w_sig = node.and_then(|v| (!is_close(v.code)).then(|| text[at..at + v.len].to_vec()));
        expect_eq!(cur.sig().map(|v| v.to_string().into_bytes()), w_sig, "sig at {}", at);
        expect_eq!(cur.idx(), at, "index after queries");

        // Lookup by index does not depend on where the cursor is.
        for other in [0, 1, n / 2, n - 1, n, n + 1, usize::MAX] {
            let node = nodes.get(other);
            expect_eq!(cur.element_at(other).map(|v| v.code()), node.map(|v| v.code), "element_at({})", other);
            expect_eq!(cur.length_at(other), node.map(|v| v.len), "length_at({})", other);
            expect_eq!(cur.position_at(other), node.map(|v| v.pos), "position_at({})", other);
            let w = node.and_then(|v| (!is_close(v.code)).then(|| text[other..other + v.len].to_vec()));
            expect_eq!(cur.sig_at(other).map(|v| v.to_string().into_bytes()), w, "sig_at({})", other);
        }

        // Movements.
        let moves: [(&str, Option<usize>, fn(&mut Cursor<'a, O>)); 5] = [
            ("next", w_next, |v| { v.move_next(); }),
            ("prev", w_prev, |v| { v.move_prev(); }),
            ("step", w_step, |v| { v.move_step(); }),
            ("down", w_down, |v| { v.move_down(); }),
            ("up", w_up, |v| { v.move_up(); }),
        ];
        for (name, to, f) in moves {
            cur.move_to(at);
            f(cur);
            c.step(1);
            expect_eq!(cur.idx(), to.unwrap_or(at), "index after {} at {}", name, at);
        }
        cur.move_to(at);
        cur.maybe_move(None);
        expect_eq!(cur.idx(), at, "index after no move");
        cur.maybe_move(Some(n - at));
        expect_eq!(cur.idx(), n - at, "index after move");

        // Iteration from here.
        cur.move_to(start);
        expect_eq!(cur.size_hint(), (n - at, Some(n - at)), "size_hint at {}", at);
        expect_eq!(cur.len(), n - at, "len at {}", at);
        let mut k = at;
        while let Some(e) = cur.next() {
            ensure!(k < n, "iteration past the end");
            expect_eq!(e.code(), nodes[k].code, "element in iteration");
            k += 1;
            expect_eq!(cur.size_hint(), (n - k, Some(n - k)), "size_hint in iteration");
        }
        expect_eq!(k, n, "end of iteration");
        ensure!(cur.next().is_none(), "iteration is not fused");
        expect_eq!(cur.idx(), n, "index after iteration");
    }
    Ok(())
}

/// Signatures for navigation checks.
fn nav_corpus(ctx: &Ctx) -> Vec<Vec<u8>> {
    let mut v = types(b"yv", true, ctx.pick(8, 9));
    v.extend(types(b"yqutsgo", false, ctx.pick(5, 6)));
    v.extend(types(CODES[..14].as_ref(), true, 3));
    for i in 0..8 * 40 {
        let t = regular(i);
        if reference(&t).is_ok() {
            v.push(t);
        }
    }
    // Everything small, as part of a long signature.
    for t in types(b"ytv", true, ctx.pick(5, 6)) {
        v.push([b"(".as_slice(), &[b'y'; 30], &t, b"q)"].concat());
    }
    v.sort();
    v.dedup();
    v
}

/// D03: cursors navigate the tree described by the signature.
pub fn d03(ctx: &Ctx) {
    let all = nav_corpus(ctx);
    ctx.bound(format!("{} signatures, every index from the start to two past the end, every \
        movement and query from each, plain and through every sub-signature", all.len()));
    ctx.explore(
        "navigate",
        all.len() as u64,
        |i| format!("signature {}", show(&all[i as usize])),
        |i, c| {
            let text = &all[i as usize];
            let nodes = reference(text).unwrap();
            let s = Sig::new(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            let arc = Sig::arc(text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            c.trace();
            c.state(text);

            check_cursor(&mut s.cursor(), &nodes, text, c)?;
            check_cursor(&mut Cursor::<&Sig>::new_borrowed(&s), &nodes, text, c)?;
            check_cursor(&mut Cursor::<Arc<Sig>>::new_owned(arc.clone()), &nodes, text, c)?;
            for k in [0, 1, nodes.len() - 1, nodes.len(), nodes.len() + 1, usize::MAX] {
                let cur = Cursor::<Arc<Sig>>::with(osi::mown::Mown::new_owned(arc.clone()), k);
                expect_eq!(cur.idx(), k.min(nodes.len()), "index of cursor created at {}", k);
                let cur = Cursor::<Arc<Sig>>::with(osi::mown::Mown::new_borrowed(&arc), k);
                expect_eq!(cur.idx(), k.min(nodes.len()), "index of cursor created at {}", k);
            }

            // Sub-signatures behave like signatures of their own.
            for (k, n) in nodes.iter().enumerate() {
                let sub = s.at(k);
                if is_close(n.code) {
                    ensure!(sub.is_none(), "sub-signature at closing element {}", k);
                    continue;
                }
                let Some(sub) = sub else {
                    return Err(format!("no sub-signature at {}", k).into());
                };
                let t = &text[k..k + n.len];
                let r = reference(t).unwrap();
                if k > 0 && (nodes.len() <= 32 || k % 7 == 0 || k + 10 > nodes.len()) {
                    c.feature("sub-signature");
                    check_cursor(&mut sub.cursor(), &r, t, c)?;
                    if n.len > 1 && n.len < 16 {
                        let own = Sig::clone(sub);
                        check_cursor(&mut own.cursor(), &r, t, c)?;
                        for (j, m) in r.iter().enumerate() {
                            if !is_close(m.code) {
                                let deep = sub.at(j);
                                expect_eq!(
                                    deep.map(|v| v.to_string().into_bytes()),
                                    Some(t[j..j + m.len].to_vec()),
                                    "sub-signature {} of sub-signature {}", j, k
                                );
                            }
                        }
                    }
                }
            }
            for k in [nodes.len(), nodes.len() + 1, usize::MAX] {
                ensure!(s.at(k).is_none(), "sub-signature at {}", k);
            }
            Ok(())
        },
    );
    d03_far(ctx);
}

/// Numbers around the powers of two.
fn around(exps: core::ops::RangeInclusive<u32>) -> Vec<u64> {
    exps.flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).collect()
}

/// D03: long signatures, from some places only.
fn d03_far(ctx: &Ctx) {
    let sizes: Vec<u64> = around(6..=12).into_iter().chain(around(16..=16)).collect();
    let k = sizes.len() as u64;
    ctx.bound(format!("8 regular shapes of {} sizes up to {} repetitions, from 20 places", k, sizes[k as usize - 1]));
    ctx.explore(
        "far",
        8 * k,
        |i| format!("shape {} with {} repetitions", i % 8, sizes[(i / 8) as usize]),
        |i, c| {
            let text = regular(sizes[(i / 8) as usize] * 8 + i % 8);
            let Ok(nodes) = reference(&text) else {
                return Ok(());
            };
            let s = Sig::new(&text).map_err(|e| Fail::Violation(format!("not accepted: {:?}", e)))?;
            let n = nodes.len();
            let mut starts = vec![0, 1, 2, 254, 255, 256, 257, 258, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1, n, n + 1];
            starts.extend([65534, 65535, 65536, 65537].into_iter().filter(|v| *v < n));
            check_cursor_at(&mut s.cursor(), &nodes, &text, starts.iter().copied(), c)?;
            c.trace();
            c.state(&i);
            for at in starts {
                let Some(sub) = s.at(at) else {
                    ensure!(at >= n || is_close(nodes[at].code), "no sub-signature at {}", at);
                    continue;
                };
                let m = nodes[at].len;
                let t = &text[at..at + m];
                ensure!(sub.to_string().as_bytes() == t, "text of the sub-signature at {}", at);
                let r = reference(t).unwrap();
                check_cursor_at(&mut sub.cursor(), &r, t, [0, 1, m / 2, m - 1, m, m + 1], c)?;
                c.trace();
            }
            Ok(())
        },
    );
}

/// D04: signatures compare, order, and hash like their text, regardless of
/// how they were obtained.
pub fn d04(ctx: &Ctx) {
    let mut all = types(b"ytv", true, ctx.pick(6, 7));
    all.extend(types(CODES[..14].as_ref(), true, 2));
    for t in types(b"yt", false, 4) {
        all.push([b"(".as_slice(), &[b'y'; 30], &t, b"q)"].concat());
    }
    for i in 0..8 * 36 {
        let t = regular(i);
        if t.len() > 24 && t.len() < 40 && reference(&t).is_ok() {
            all.push(t);
        }
    }
    d04_pairs(ctx, "pairs", all);

    // Long ones, which are the same or differ in a single place.
    let mut all = Vec::new();
    for n in [30usize, 31, 32].into_iter().chain(around(6..=10).into_iter().map(|v| v as usize)).chain(around(16..=16).into_iter().map(|v| v as usize)) {
        for (at, code) in [(0, b'y'), (1, b't'), (n / 2, b't'), (n - 3, b't'), (n - 2, b'n'), (n - 2, b'x')] {
            let mut t = [b"(".as_slice(), &vec![b'y'; n - 2], b")"].concat();
            if at > 0 {
                t[at] = code;
            }
            all.push(t);
        }
        all.push([&vec![b'a'; n - 1], b"y".as_slice()].concat());
        all.push([&vec![b'a'; n - 1], b"t".as_slice()].concat());
    }
    d04_pairs(ctx, "long-pairs", all);
}

fn d04_pairs(ctx: &Ctx, name: &str, mut all: Vec<Vec<u8>>) {
    all.sort();
    all.dedup();
    let n = all.len();
    ctx.bound(format!("all ordered pairs of {} signatures, each in three forms: parsed on its own, \
        cut out of a short signature, and cut out of a long signature", n));

    // Each signature as part of a short and a long one.
    let short: Vec<Option<Box<Sig>>> = all.iter()
        .map(|t| Sig::new(&[b"(y".as_slice(), t, b"y)"].concat()).ok())
        .collect();
    let long: Vec<Option<Box<Sig>>> = all.iter()
        .map(|t| Sig::new(&[b"(y".as_slice(), t, b"yttttttttttttttttttttttttttttttt)"].concat()).ok())
        .collect();
    let own: Vec<Option<Box<Sig>>> = all.iter().map(|t| Sig::new(t).ok()).collect();

    ctx.explore(
        name,
        n as u64,
        |i| format!("signature {} against all others", show(&all[i as usize])),
        |i, c| {
            let forms = |k: usize| -> Result<[&Sig; 3], Fail> {
                let own = own[k].as_deref();
                let short = short[k].as_deref().and_then(|v| v.at(2));
                let long = long[k].as_deref().and_then(|v| v.at(2));
                match (own, short, long) {
                    (Some(a), Some(b), Some(c)) => Ok([a, b, c]),
                    _ => Err(format!("{} was not accepted in all contexts", show(&all[k])).into()),
                }
            };
            let i = i as usize;
            let a = forms(i)?;
            for x in &a {
                expect_eq!(x.len(), all[i].len(), "len()");
                expect_eq!(x.to_string().into_bytes(), all[i].clone(), "text");
                expect_eq!(format!("{}", x).into_bytes(), all[i].clone(), "text");
                expect_eq!(format!("{}", &*Sig::clone(x)).into_bytes(), all[i].clone(), "text of clone");
                expect_eq!(hash(x), hash(a[0]), "hash");
                expect_eq!(hash(&Sig::clone(x)), hash(a[0]), "hash of clone");
            }
            for k in 0..n {
                let b = forms(k)?;
                let want = all[i].cmp(&all[k]);
                for (p, x) in a.iter().enumerate() {
                    for (q, y) in b.iter().enumerate() {
                        c.step(3);
                        expect_eq!(**x == **y, want.is_eq(), "equality of form {} with form {} of {}", p, q, show(&all[k]));
                        expect_eq!(Ord::cmp(*x, *y), want, "order of form {} and form {} of {}", p, q, show(&all[k]));
                        expect_eq!(x.partial_cmp(y), Some(want), "partial order");
                    }
                }
                c.trace();
            }
            c.state(&(n, i));
            Ok(())
        },
    );
}

/// Table of elements as given by the D-Bus and GVariant specifications.
/// Code, D-Bus alignment and size, GVariant alignment and size, with 0 as size
/// of everything that is not of fixed size.
const TABLE: &[(u8, u8, u8, u8, u8, Element)] = &[
    (b'y', 1, 1, 1, 1, Element::U8),
    (b'n', 2, 2, 2, 2, Element::I16),
    (b'q', 2, 2, 2, 2, Element::U16),
    (b'i', 4, 4, 4, 4, Element::I32),
    (b'u', 4, 4, 4, 4, Element::U32),
    (b'x', 8, 8, 8, 8, Element::I64),
    (b't', 8, 8, 8, 8, Element::U64),
    (b'd', 8, 8, 8, 8, Element::F64),
    (b'b', 4, 4, 1, 1, Element::Bool),
    (b's', 4, 0, 1, 0, Element::String),
    (b'o', 4, 0, 1, 0, Element::Object),
    (b'g', 1, 0, 1, 0, Element::Signature),
    (b'h', 4, 4, 4, 4, Element::Handle),
    (b'v', 1, 0, 8, 0, Element::Variant),
    (b'a', 4, 0, 1, 0, Element::Array),
    (b'm', 0, 0, 1, 0, Element::Maybe),
    (b'(', 8, 0, 1, 0, Element::StructOpen),
    (b')', 0, 0, 0, 0, Element::StructClose),
    (b'{', 8, 0, 1, 0, Element::DictOpen),
    (b'}', 0, 0, 0, 0, Element::DictClose),
];

/// D09: the elements carry the codes, alignments, sizes, and classes of the
/// specifications.
pub fn d09(ctx: &Ctx) {
    ctx.bound("all 256 codes, all elements, all pairs of elements, all flags");
    ctx.explore(
        "codes",
        256,
        |i| format!("code {:#x}", i),
        |i, c| {
            let code = i as u8;
            c.step(1);
            c.trace();
            let want = TABLE.iter().find(|v| v.0 == code);
            let got = Element::from_code(code);
            c.state(&(code, got.is_some()));
            let Some(&(_, da, ds, ga, gs, e)) = want else {
                ensure!(got.is_none(), "unknown code accepted as {:?}", got);
                return Ok(());
            };
            expect_eq!(got, Some(e), "element of code");
            expect_eq!(e.code(), code, "code");
            expect_eq!(e.char(), code as char, "char");
            expect_eq!(e.str(), (code as char).to_string(), "str");
            // SAFETY: The identifier belongs to this element.
            expect_eq!(unsafe { Element::from_id(e.id()) }, e, "element of identifier");
            ensure!(e.id() > 0 && e.id() < 128, "identifier {}", e.id());
            if da > 0 {
                expect_eq!(1 << e.dvar_alignment_exp(), da, "D-Bus alignment");
            }
            if ga > 0 {
                expect_eq!(1 << e.gvar_alignment_exp(), ga, "GVariant alignment");
            }
            expect_eq!(e.dvar_size(), ds, "D-Bus size");
            expect_eq!(e.gvar_size(), gs, "GVariant size");
            let pair = match code {
                b'(' => Some(Element::StructClose),
                b')' => Some(Element::StructOpen),
                b'{' => Some(Element::DictClose),
                b'}' => Some(Element::DictOpen),
                _ => None,
            };
            expect_eq!(e.pair(), pair, "pair");
            c.step(9);

            let flags = [
                ("PREFIX", el::FLAG_PREFIX, !is_close(code)),
                ("OPEN", el::FLAG_OPEN, is_open(code)),
                ("CLOSE", el::FLAG_CLOSE, is_close(code)),
                ("BASIC", el::FLAG_BASIC, BASIC.contains(&code)),
                ("VARIANT", el::FLAG_VARIANT, code == b'v'),
                ("HANDLE", el::FLAG_HANDLE, code == b'h'),
                ("DVAR_UNSUPPORTED", el::FLAG_DVAR_UNSUPPORTED, code == b'm'),
            ];
            for (name, bit, set) in flags {
                expect_eq!(e.all(bit), set, "all({})", name);
                expect_eq!(e.any(bit), set, "any({})", name);
            }
            // Types without fixed size, leaving out compounds whose members
            // decide.
            if !matches!(code, b'(' | b'{' | b')' | b'}') {
                expect_eq!(e.all(el::FLAG_DYNAMIC), ds == 0 && gs == 0, "all(DYNAMIC)");
            }
            for (n0, b0, s0) in flags {
                for (n1, b1, s1) in flags {
                    c.step(2);
                    expect_eq!(e.all(b0 | b1), s0 && s1, "all({} | {})", n0, n1);
                    expect_eq!(e.any(b0 | b1), s0 || s1, "any({} | {})", n0, n1);
                }
            }
            Ok(())
        },
    );
    ctx.explore(
        "pairs",
        (TABLE.len() * TABLE.len()) as u64,
        |i| {
            let v = mixed(i, &[TABLE.len() as u64, TABLE.len() as u64]);
            format!("elements {:?}, {:?}", TABLE[v[0] as usize].5, TABLE[v[1] as usize].5)
        },
        |i, c| {
            let v = mixed(i, &[TABLE.len() as u64, TABLE.len() as u64]);
            let (a, b) = (TABLE[v[0] as usize], TABLE[v[1] as usize]);
            c.step(3);
            c.trace();
            expect_eq!(a.5 == b.5, a.0 == b.0, "equality");
            expect_eq!(a.5.id() == b.5.id(), a.0 == b.0, "equality of identifiers");
            expect_eq!(a.5.cmp(&b.5).is_eq(), a.0 == b.0, "order");
            c.state(&(a.0, b.0));
            Ok(())
        },
    );
}
