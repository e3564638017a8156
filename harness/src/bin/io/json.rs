//! JSON tokens and JSON streams of `tmp`.

use crate::stream::{around, Window, WINDOWS};
use mc::engine::*;
use mc::{ensure, expect_eq};
use core::cell::Cell;
use core::ops::ControlFlow as Flow;
use tmp::fmt::json::stream as js;
use tmp::fmt::json::token::{self, Error, Sign, Token};
use tmp::io::stream::{More, Read};

/// Owned copy of a token.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum Tok {
    /// Name of the error, its raw data, and its code.
    Bad(&'static str, Vec<u8>, u32),
    /// Raw data and content of a string which is not valid UTF-8.
    BadString(Vec<u8>, Vec<u8>, usize),
    Space(Vec<u8>),
    Mark(u8),
    Word(&'static str),
    Num {
        raw: Vec<u8>,
        minus: bool,
        integer: String,
        fraction: Option<String>,
        exponent: Option<(bool, String)>,
    },
    Str(Vec<u8>, String),
}

fn bad(name: &'static str) -> Tok {
    Tok::Bad(name, Vec::new(), 0)
}

fn own(t: Token<'_>) -> Result<Tok, Fail> {
    Ok(match t {
        Token::Error(e) => match e {
            Error::BufferRemaining => bad("remaining"),
            Error::BufferChanged => bad("changed"),
            Error::ItemNonUtf8 { raw, error } => {
                let want = core::str::from_utf8(raw).err();
                ensure!(want == Some(error), "{:?} is reported with {:?}", raw, error);
                Tok::Bad("item-utf8", raw.to_vec(), 0)
            },
            Error::ItemUnknown { raw, str } => {
                ensure!(str.as_bytes() == raw, "{:?} is reported as {:?}", raw, str);
                Tok::Bad("item", raw.to_vec(), 0)
            },
            Error::NumberIncomplete => bad("number-incomplete"),
            Error::NumberLeadingPlus => bad("plus"),
            Error::NumberMultipleSigns => bad("signs"),
            Error::NumberRangeEmpty => bad("empty"),
            Error::StringIncomplete => bad("string-incomplete"),
            Error::StringNonUtf8 { raw, str, error } => {
                let want = core::str::from_utf8(str).err();
                ensure!(want == Some(error), "{:?} is reported with {:?}", str, error);
                Tok::BadString(raw.to_vec(), str.to_vec(), error.valid_up_to())
            },
            Error::StringUnescaped { code } => Tok::Bad("unescaped", Vec::new(), code as u32),
            Error::StringEscapeUnknown { code } => Tok::Bad("escape", Vec::new(), code as u32),
            Error::StringEscapeInvalid => bad("escape-invalid"),
            Error::StringEscapeUnpairedLeadSurrogate { lead } => Tok::Bad("lead", Vec::new(), lead),
            Error::StringEscapeUnpairedTrailSurrogate { trail } => Tok::Bad("trail", Vec::new(), trail),
        },
        Token::Whitespace { raw, str } => {
            ensure!(str.as_bytes() == raw, "whitespace {:?} is shown as {:?}", raw, str);
            Tok::Space(raw.to_vec())
        },
        Token::Colon => Tok::Mark(b':'),
        Token::Comma => Tok::Mark(b','),
        Token::ArrayOpen => Tok::Mark(b'['),
        Token::ArrayClose => Tok::Mark(b']'),
        Token::ObjectOpen => Tok::Mark(b'{'),
        Token::ObjectClose => Tok::Mark(b'}'),
        Token::Null => Tok::Word("null"),
        Token::False => Tok::Word("false"),
        Token::True => Tok::Word("true"),
        Token::Number(n) => Tok::Num {
            raw: n.raw.to_vec(),
            minus: n.sign == Sign::Minus,
            integer: n.integer.to_string(),
            fraction: n.fraction.map(|v| v.to_string()),
            exponent: n.exponent.map(|(s, v)| (s == Sign::Minus, v.to_string())),
        },
        Token::String { raw, str } => Tok::Str(raw.to_vec(), str.to_string()),
    })
}

/// Reference: the tokens of a complete text, and how many of those are known
/// before the end of the text is signalled.
struct Lexer<'a> {
    t: &'a [u8],
    i: usize,
    out: Vec<Tok>,
    /// Number of tokens before the end of the text was seen.
    early: Option<usize>,
}

impl<'a> Lexer<'a> {
    fn run(t: &'a [u8]) -> (Vec<Tok>, usize) {
        let mut l = Lexer { t, i: 0, out: Vec::new(), early: None };
        while l.i < t.len() {
            match t[l.i] {
                b' ' | b'\n' | b'\r' | b'\t' => {
                    let raw = l.take(|v| matches!(v, b' ' | b'\n' | b'\r' | b'\t'));
                    l.out.push(Tok::Space(raw));
                },
                v @ (b':' | b',' | b'[' | b']' | b'{' | b'}') => {
                    l.i += 1;
                    l.out.push(Tok::Mark(v));
                },
                b'"' => l.string(),
                b'+' | b'-' | b'0'..=b'9' => l.number(),
                v => {
                    l.i += 1;
                    let mut raw = vec![v];
                    raw.extend(l.take(|v| v.is_ascii_alphanumeric() || b"+-.".contains(&v)));
                    l.out.push(match &raw[..] {
                        b"null" => Tok::Word("null"),
                        b"true" => Tok::Word("true"),
                        b"false" => Tok::Word("false"),
                        v if core::str::from_utf8(v).is_ok() => Tok::Bad("item", raw, 0),
                        _ => Tok::Bad("item-utf8", raw, 0),
                    });
                },
            }
        }
        let n = l.early.unwrap_or(l.out.len());
        (l.out, n)
    }

    /// The end of the text was reached with a token pending.
    fn end(&mut self) {
        if self.early.is_none() {
            self.early = Some(self.out.len());
        }
    }

    fn take(&mut self, f: impl Fn(u8) -> bool) -> Vec<u8> {
        let from = self.i;
        while self.i < self.t.len() && f(self.t[self.i]) {
            self.i += 1;
        }
        if self.i == self.t.len() {
            self.end();
        }
        self.t[from..self.i].to_vec()
    }

    fn digits(&mut self) -> String {
        String::from_utf8(self.take(|v| v.is_ascii_digit())).unwrap()
    }

    fn peek(&self, v: &[u8]) -> bool {
        self.i < self.t.len() && v.contains(&self.t[self.i])
    }

    fn signs(&mut self) -> Option<bool> {
        let mut minus = None;
        let mut n = 0;
        while self.peek(b"+-") {
            minus = Some(self.t[self.i] == b'-');
            self.i += 1;
            n += 1;
            if n == 2 {
                self.out.push(bad("signs"));
            }
        }
        minus
    }

    fn number(&mut self) {
        let from = self.i;
        if self.t[self.i] == b'+' {
            self.out.push(bad("plus"));
        }
        let minus = self.signs().unwrap_or(false);
        let integer = self.digits();
        let mut fraction = None;
        if self.peek(b".") {
            self.i += 1;
            fraction = Some(self.digits());
        }
        let mut exponent = None;
        if self.peek(b"eE") {
            self.i += 1;
            let minus = self.signs().unwrap_or(false);
            exponent = Some((minus, self.digits()));
        }
        if
            integer.is_empty()
            || fraction.as_ref().is_some_and(|v| v.is_empty())
            || exponent.as_ref().is_some_and(|v| v.1.is_empty())
        {
            self.out.push(bad("empty"));
        }
        let raw = self.t[from..self.i].to_vec();
        self.out.push(Tok::Num { raw, minus, integer, fraction, exponent });
    }

    /// Up to four hexadecimal digits. `None` if the text ended before.
    fn hex(&self, at: usize) -> Option<Result<u32, usize>> {
        let mut v = 0;
        for j in 0..4 {
            let c = *self.t.get(at + j)?;
            match (c as char).to_digit(16) {
                None => return Some(Err(at + j)),
                Some(d) => v = v * 16 + d,
            }
        }
        Some(Ok(v))
    }

    fn string(&mut self) {
        let from = self.i;
        let mut out = Vec::new();
        let mut j = self.i + 1;
        let put = |out: &mut Vec<u8>, v: u32| {
            let c = char::from_u32(v).unwrap();
            out.extend_from_slice(c.to_string().as_bytes());
        };
        let done = 'string: loop {
            let Some(&c) = self.t.get(j) else { break false };
            j += 1;
            match c {
                b'"' => break true,
                0..=0x1f => {
                    self.out.push(Tok::Bad("unescaped", Vec::new(), c as u32));
                    out.push(c);
                },
                b'\\' => {
                    let Some(&c) = self.t.get(j) else { break false };
                    j += 1;
                    match c {
                        b'"' | b'\\' | b'/' => out.push(c),
                        b'b' => out.push(8),
                        b't' => out.push(9),
                        b'n' => out.push(10),
                        b'f' => out.push(12),
                        b'r' => out.push(13),
                        b'u' => match self.hex(j) {
                            None => break false,
                            Some(Err(to)) => {
                                j = to;
                                self.out.push(bad("escape-invalid"));
                                put(&mut out, 0xfffd);
                            },
                            Some(Ok(v @ 0xdc00..=0xdfff)) => {
                                j += 4;
                                self.out.push(Tok::Bad("trail", Vec::new(), v));
                                put(&mut out, 0xfffd);
                            },
                            Some(Ok(v @ 0xd800..=0xdbff)) => {
                                j += 4;
                                let mut lead = v;
                                loop {
                                    // Anything but another escape ends it.
                                    let other = match (self.t.get(j), self.t.get(j + 1)) {
                                        (None, _) | (Some(b'\\'), None) => break 'string false,
                                        (Some(b'\\'), Some(b'u')) => match self.hex(j + 2) {
                                            None => break 'string false,
                                            Some(Err(_)) => None,
                                            Some(Ok(v)) => Some(v),
                                        },
                                        _ => None,
                                    };
                                    if let Some(trail @ 0xdc00..=0xdfff) = other {
                                        j += 6;
                                        put(&mut out, 0x10000 + (lead - 0xd800) * 0x400 + trail - 0xdc00);
                                        break;
                                    }
                                    self.out.push(Tok::Bad("lead", Vec::new(), lead));
                                    put(&mut out, 0xfffd);
                                    match other {
                                        Some(v @ 0xd800..=0xdbff) => {
                                            j += 6;
                                            lead = v;
                                        },
                                        Some(v) => {
                                            j += 6;
                                            put(&mut out, v);
                                            break;
                                        },
                                        None => break,
                                    }
                                }
                            },
                            Some(Ok(v)) => {
                                j += 4;
                                put(&mut out, v);
                            },
                        },
                        _ => {
                            self.out.push(Tok::Bad("escape", Vec::new(), c as u32));
                            out.push(c);
                        },
                    }
                },
                _ => out.push(c),
            }
        };
        if !done {
            self.end();
            self.i = self.t.len();
            self.out.push(bad("string-incomplete"));
            return;
        }
        self.i = j;
        let raw = self.t[from..j].to_vec();
        self.out.push(match String::from_utf8(out) {
            Ok(v) => Tok::Str(raw, v),
            Err(e) => {
                let n = e.utf8_error().valid_up_to();
                Tok::BadString(raw, e.into_bytes(), n)
            },
        });
    }
}

/// Several sign errors in a row are as good as one.
fn fold(v: &[Tok]) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::new();
    for t in v {
        if *t == bad("signs") && out.last() == Some(t) {
            continue;
        }
        out.push(t.clone());
    }
    out
}

/// Stream of which only a part has arrived. More data arrives by changing the
/// shared amount.
struct Feed<'a> {
    data: &'a [u8],
    at: &'a Cell<usize>,
    avail: &'a Cell<usize>,
    window: Window,
}

impl<'a> Read for Feed<'a> {
    fn advance(&mut self, len: usize) {
        assert!(len <= self.avail.get() - self.at.get(), "advanced past the buffered data");
        self.at.set(self.at.get() + len);
    }

    fn map(&self, min: usize, max_hint: Option<usize>) -> Flow<More, &[u8]> {
        let have = self.avail.get() - self.at.get();
        if min > have {
            return Flow::Break(More { min, max: max_hint });
        }
        let n = match self.window {
            Window::All => have,
            Window::Hint => max_hint.unwrap_or(have).min(have).max(min),
            Window::Min => min,
        };
        Flow::Continue(&self.data[self.at.get()..self.at.get() + n])
    }
}

/// What a tokenizer produced: before and after the end was signalled.
struct Run {
    popped: Vec<Tok>,
    ended: Vec<Tok>,
    at: usize,
}

fn complete(dec: &mut token::Dec<'_>, limit: usize, case: &mut Case) -> Result<Vec<Tok>, Fail> {
    let mut out = Vec::new();
    loop {
        case.step(1);
        match dec.complete() {
            None => break,
            Some(v) => out.push(own(v)?),
        }
        ensure!(out.len() <= limit, "completion does not come to an end: {:?}", out);
    }
    case.step(1);
    if let Some(v) = dec.complete() {
        return Err(Fail::Violation(format!("{:?} after the completion", v)));
    }
    Ok(out)
}

/// Tokenize a text which is available at once.
fn tokens(text: &[u8], case: &mut Case) -> Result<Run, Fail> {
    let (at, avail) = (Cell::new(0), Cell::new(text.len()));
    let mut feed = Feed { data: text, at: &at, avail: &avail, window: Window::All };
    let mut dec = token::Dec::with(&mut feed);
    let mut popped = Vec::new();
    loop {
        case.step(1);
        match dec.pop() {
            Flow::Break(_) => break,
            Flow::Continue(v) => popped.push(own(v)?),
        }
        ensure!(popped.len() <= 4 * text.len() + 4, "tokenizer does not come to an end");
    }
    let ended = complete(&mut dec, 4, case)?;
    Ok(Run { popped, ended, at: at.get() })
}

fn show(text: &[u8]) -> String {
    format!("text {:?}", text.escape_ascii().to_string())
}

fn check_text(text: &[u8], case: &mut Case) -> CaseResult {
    let (want, early) = Lexer::run(text);
    let got = tokens(text, case)?;
    let a = fold(&got.popped);
    let b = fold(&want[..early]);
    ensure!(a == b, "observed {:?}, expected {:?}", a, b);
    let all: Vec<Tok> = got.popped.iter().chain(&got.ended).cloned().collect();
    let (a, b) = (fold(&all), fold(&want));
    ensure!(a == b, "with the end signalled: observed {:?}, expected {:?}", a, b);
    ensure!(got.at == text.len(), "{} of {} bytes consumed", got.at, text.len());
    for t in &all {
        case.feature(match t {
            Tok::Bad(n, ..) => n,
            Tok::BadString(..) => "string-utf8",
            Tok::Space(_) => "whitespace",
            Tok::Mark(_) => "punctuation",
            Tok::Word(_) => "keyword",
            Tok::Num { .. } => "number",
            Tok::Str(..) => "string",
        });
    }
    case.state(&all);
    case.trace();
    Ok(())
}

const WORDS: &[&[u8]] = &[
    b"null", b"true", b"false", b"nul", b"TRUE", b" ", b"\n", b"\r\t", b"[", b"]", b"{", b"}",
    b":", b",", b"1", b"-", b"\"a\"", b"\"", b"_", b"e", b".", b"/", b"\xc3\xa9", b"\xff", b"\0",
    b"\x0b", b"\x1f", b"\x7f",
];

const NUMBERS: &[u8] = b"+-.01eE,";

const STRINGS: &[&[u8]] = &[
    b"\"", b"\\", b"a", b"u", b"n", b"\\n", b"\\\"", b"\\/", b"\\x", b"\\u", b"\\u004", b"\\u0041",
    b"\\uD83d", b"\\udBFF", b"\\udE0a", b"\\uDC00", b"\\ud", b"0", b"\x00", b"\x1f", b" ", b"\x7f",
    b"\xc3\xa9", b"\xa9", b"\n", b"\\\xc3",
];

fn pieces(k: &[&[u8]], i: u64, open: bool) -> Vec<u8> {
    let mut v = if open { vec![b'"'] } else { Vec::new() };
    for j in seq_at(k.len() as u64, i) {
        v.extend_from_slice(k[j]);
    }
    v
}

/// A number by the JSON grammar: all in one go, with no error.
fn valid_number(t: &[u8]) -> bool {
    let mut i = 0;
    let digits = |i: &mut usize| {
        let from = *i;
        while *i < t.len() && t[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - from
    };
    if t.first() == Some(&b'-') {
        i += 1;
    }
    let from = i;
    let n = digits(&mut i);
    if n == 0 || (n > 1 && t[from] == b'0') {
        return false;
    }
    if t.get(i) == Some(&b'.') {
        i += 1;
        if digits(&mut i) == 0 {
            return false;
        }
    }
    if matches!(t.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(t.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == t.len()
}

pub fn t01(ctx: &Ctx) {
    let (w, n) = (ctx.pick(4u32, 5), ctx.pick(7u32, 8));
    ctx.bound(format!(
        "every text of {w} of {} fragments, every text of {n} characters of numbers, every text \
        of 1 and 2 bytes, and every number text on its own",
        WORDS.len(),
    ));
    ctx.explore("words", seq_total(WORDS.len() as u64, w), |i| show(&pieces(WORDS, i, false)), |i, case| {
        check_text(&pieces(WORDS, i, false), case)
    });
    let number = |i: u64| -> Vec<u8> {
        seq_at(NUMBERS.len() as u64, i).into_iter().map(|j| NUMBERS[j]).collect()
    };
    ctx.explore("numbers", seq_total(NUMBERS.len() as u64, n), |i| show(&number(i)), |i, case| {
        check_text(&number(i), case)
    });
    ctx.explore("bytes", 65536 + 256, |i| format!("{i:x}"), |i, case| {
        let text = if i < 256 { vec![i as u8] } else {
            vec![(i - 256) as u8, ((i - 256) >> 8) as u8]
        };
        check_text(&text, case)?;
        let mut text = text;
        text.push(b',');
        check_text(&text, case)
    });
    let single = |i: u64| -> Vec<u8> {
        seq_at(7, i).into_iter().map(|j| NUMBERS[j]).collect()
    };
    ctx.explore("grammar", seq_total(7, n), |i| show(&single(i)), |i, case| {
        let mut text = single(i);
        if text.is_empty() || !matches!(text[0], b'+' | b'-' | b'0'..=b'9') {
            return Ok(());
        }
        let valid = valid_number(&text);
        let len = text.len();
        text.push(b',');
        let run = tokens(&text, case)?;
        let Some(k) = run.popped.iter().position(|v| matches!(v, Tok::Num { .. })) else {
            return Err(Fail::Violation("not a number".into()));
        };
        let Tok::Num { raw, integer, .. } = &run.popped[k] else { unreachable!() };
        if valid {
            case.feature("valid number");
            ensure!(k == 0 && raw.len() == len, "valid number gave {:?}", run.popped);
        } else if k == 0 && !valid_number(raw) {
            if integer.len() > 1 && integer.starts_with('0') {
                return Err(Fail::Class("leading-zero", format!(
                    "number {:?} is accepted without error", raw.escape_ascii().to_string(),
                )));
            }
            return Err(Fail::Violation(format!(
                "number {:?} is accepted without error", raw.escape_ascii().to_string(),
            )));
        }
        case.trace();
        Ok(())
    });
    edits(ctx, &[
        b"{\"key\":[1,-2.5e+10,true,false,null]}", b"-0.0E-0 12", b"[1,2]//c\n3", b" \t\r\n1", b"+1 1. .5 1e", b"nulltruefalse", b"\"a\\n\\u0041\",",
    ], b"\"\\u19.eE+-n[ #/\n=,:]x\xa0\x01t");
    long_runs(ctx, false);
}

pub fn t02(ctx: &Ctx) {
    let n = ctx.pick(5u32, 5);
    ctx.bound(format!(
        "every string of up to {n} of {} fragments with and without closing quote, every escape \
        of four hexadecimal digits, every surrogate pair in lower and in upper case, and \
        every byte in a string and after a backslash",
        STRINGS.len(),
    ));
    ctx.explore("strings", seq_total(STRINGS.len() as u64, n), |i| show(&pieces(STRINGS, i, true)), |i, case| {
        let mut text = pieces(STRINGS, i, true);
        check_text(&text, case)?;
        text.extend_from_slice(b"\",");
        check_text(&text, case)
    });
    let unit = |i: u64, s: usize| -> Vec<u8> {
        let u = match s {
            0 => format!("\"\\u{i:04x}\""),
            1 => format!("\"\\u{i:04X}a\""),
            2 => format!("\"a\\n\\u{i:04x}\\u{i:04X}\""),
            3 => format!("\"\\ud83d\\u{i:04x}b\""),
            _ => format!("\"\\uD83D\\u{i:04X}b\""),
        };
        u.into_bytes()
    };
    ctx.explore("escapes", 65536 * 5, |i| show(&unit(i / 5, (i % 5) as usize)), |i, case| {
        check_text(&unit(i / 5, (i % 5) as usize), case)
    });
    let pair = |i: u64| -> Vec<u8> {
        let (lead, trail) = (0xd800 + i / 1024 % 1024, 0xdc00 + i % 1024);
        match i >> 20 {
            0 => format!("\"\\u{lead:04x}\\u{trail:04x}\""),
            _ => format!("\"\\u{lead:04X}\\u{trail:04X}\""),
        }.into_bytes()
    };
    ctx.explore("pairs", 2 * 1024 * 1024, |i| show(&pair(i)), |i, case| check_text(&pair(i), case));
    let byte = |i: u64| -> Vec<u8> {
        let b = (i % 256) as u8;
        match i / 256 {
            0 => vec![b'"', b, b'"'],
            1 => vec![b'"', b'\\', b, b'"'],
            2 => vec![b'"', b'a', b, b'b', b'\\', b't', b, b'"'],
            3 => vec![b'"', b'\\', b'u', b'0', b, b'0', b'0', b'"'],
            4 => [b"\"\\ud800\\u".as_slice(), &[b], b"c00\""].concat(),
            5 => [b"\"\\ud800".as_slice(), &[b], b"udc00\""].concat(),
            6 => [b"\"\\ud800\\".as_slice(), &[b], b"dc00\""].concat(),
            _ => [b"\"\\n".as_slice(), &[b, b], b"\\u0041\""].concat(),
        }
    };
    ctx.explore("bytes", 256 * 8, |i| show(&byte(i)), |i, case| check_text(&byte(i), case));
    edits(ctx, &[
        b"\"\\ud83d\\ude0a\"", b"\"\\uD83D\\uDE0A\"", b"\"\\u00e9\\u00C9b\"", b"\"\\udbffa\\uDFFF\"", b"\"a\\n\\t\\\"\\/b\"", b"\"\\\\u0041\" 1",
        b"\"\\uDaAf\\udFfA\\uD800\\ud800\\udc00\"", b"\"\xc3\xa9\xf0\x9f\x98\x80\"",
    ], b"\"\\u/09:@AFG`afgdDcC8n \0\xc3\xa9\xff");
    long_runs(ctx, true);
}

/// Texts with a run of `n` repetitions.
const RUNS: &[(&str, &str, &str)] = &[
    ("", " ", "1"),
    ("", "\r\n", ""),
    ("", "[", "]"),
    ("", "null,", "x"),
    ("", "1", ","),
    ("-", "10", ""),
    ("0.", "0", "1 "),
    ("1.5e", "9", "]"),
    ("1e-", "0", "0"),
    ("", "a", " "),
    ("_", "é", ""),
    ("", "?", "\""),
    ("", "\u{1}", ""),
    ("", "é", " "),
    ("\"", "a", "\""),
    ("\"", "é", "\""),
    ("\"", "\u{10348}", "\","),
    ("\"\\n", "x", "\\t\""),
    ("\"", "\\n", "\""),
    ("\"a", "\\u0041", "\""),
    ("\"", "\\ud83d\\ude0a", "\""),
    ("\"", "\\ud83d", "\""),
    ("\"", "\\ude0a", "b\""),
    ("\"", "\\x", "\""),
    ("\"", "\u{0}", "\""),
    ("\"", "a", ""),
    ("\"", "a\\u00e9", "\\"),
    ("", "\"a\"", ""),
    ("", "-", "1"),
    ("", ".", "1"),
];

fn long_text(k: usize, n: usize) -> Vec<u8> {
    let (a, b, c) = RUNS[k];
    format!("{}{}{}", a, b.repeat(n), c).into_bytes()
}

/// All texts close to the given ones.
fn edits(ctx: &Ctx, bases: &[&[u8]], two: &[u8]) {
    ctx.bound(format!(
        "{} texts with one byte replaced, inserted, or removed, or two replaced out of {}",
        bases.len(), two.len(),
    ));
    let all = Edits::new(bases.iter().map(|v| v.to_vec()).collect(), (0..=255).collect(), two.to_vec());
    ctx.explore("edits", all.total(), |i| show(&all.at(i)), |i, case| check_text(&all.at(i), case));
}

fn long_runs(ctx: &Ctx, strings: bool) {
    let kinds: Vec<usize> = (0..RUNS.len()).filter(|k| RUNS[*k].0.starts_with('"') == strings).collect();
    let sizes = around(ctx.pick(16, 18));
    let (k, n) = (kinds.len() as u64, sizes.len() as u64);
    ctx.bound(format!("{k} kinds of runs of {n} lengths up to {}", sizes[n as usize - 1]));
    ctx.explore("runs", k * n, |i| {
        format!("{:?} {} times", RUNS[kinds[(i % k) as usize]], sizes[(i / k) as usize])
    }, |i, case| check_text(&long_text(kinds[(i % k) as usize], sizes[(i / k) as usize]), case));
}

/// Tokenize a text which arrives in parts. `next` tells how much is available
/// after a request for more data.
fn arrive(
    text: &[u8],
    window: Window,
    first: usize,
    next: impl Fn(usize, usize) -> usize,
    case: &mut Case,
) -> Result<Vec<Tok>, Fail> {
    let (at, avail) = (Cell::new(0), Cell::new(first.min(text.len())));
    let mut feed = Feed { data: text, at: &at, avail: &avail, window };
    let mut dec = token::Dec::with(&mut feed);
    let mut out = Vec::new();
    loop {
        case.step(1);
        match dec.pop() {
            Flow::Continue(v) => out.push(own(v)?),
            Flow::Break(more) => {
                let have = avail.get() - at.get();
                ensure!(more.min > have, "asked for {:?} with {} available", more, have);
                ensure!(
                    more.max.is_none_or(|v| v >= more.min),
                    "the limits of the request contradict each other: {:?}", more,
                );
                // Everything that is certain from the data so far is known.
                let (want, early) = Lexer::run(&text[..avail.get()]);
                let (a, b) = (fold(&out), fold(&want[..early]));
                ensure!(a == b, "after {} bytes: observed {:?}, expected {:?}", avail.get(), a, b);
                if avail.get() == text.len() {
                    break;
                }
                case.feature("interrupted");
                avail.set(next(avail.get(), at.get() + more.min).clamp(avail.get() + 1, text.len()));
            },
        }
        ensure!(out.len() <= 4 * text.len() + 4, "tokenizer does not come to an end");
    }
    out.extend(complete(&mut dec, 4, case)?);
    ensure!(at.get() == text.len(), "{} of {} bytes consumed", at.get(), text.len());
    Ok(out)
}

const MIXED: &[&[u8]] = &[
    b"\"", b"\\", b"a", b"\\u0041", b"\\ud800", b"\\udc00", b"1", b"-", b".", b"e", b" ", b",",
    b"null", b"\xc3\xa9", b"+", b"\x01",
];

const SHORT: &[u8] = b"\"\\u0d-. ,";

pub fn t03(ctx: &Ctx) {
    let (n, s) = (ctx.pick(5u32, 6), ctx.pick(6u32, 7));
    ctx.bound(format!(
        "every text of up to {n} of {} fragments with three kinds of mapping and five kinds of \
        arrival; every text of up to {s} of {} characters with every partition into parts",
        MIXED.len(), SHORT.len(),
    ));
    let texts = seq_total(MIXED.len() as u64, n);
    ctx.explore("arrival", texts, |i| show(&pieces(MIXED, i, false)), |i, case| {
        let text = pieces(MIXED, i, false);
        let want = fold(&Lexer::run(&text).0);
        for window in WINDOWS {
            for kind in 0..5 {
                let got = arrive(&text, *window, [0, 0, 1, 3, text.len()][kind], |have, ask| match kind {
                    // What was asked for, a bit more, or byte by byte.
                    0 => ask,
                    1 => ask + 1,
                    2 => have + 1,
                    3 => ask + 3,
                    _ => usize::MAX,
                }, case).map_err(|e| prefix(format!("{window:?}, arrival {kind}"), e))?;
                let got = fold(&got);
                ensure!(got == want, "{:?}, arrival {}: observed {:?}, expected {:?}", window, kind, got, want);
                case.trace();
            }
        }
        case.state(&want);
        Ok(())
    });
    let text = |i: u64| -> Vec<u8> {
        seq_at(SHORT.len() as u64, i).into_iter().map(|j| SHORT[j]).collect()
    };
    ctx.explore("partitions", seq_total(SHORT.len() as u64, s), |i| show(&text(i)), |i, case| {
        let text = text(i);
        let want = fold(&Lexer::run(&text).0);
        for cuts in 0..1u32 << text.len().saturating_sub(1) {
            // Data arrives up to the next cut, which might be too little.
            let got = arrive(&text, Window::All, 0, |have, _| {
                (have + 1..text.len()).find(|&j| cuts >> (j - 1) & 1 == 1).unwrap_or(text.len())
            }, case).map_err(|e| prefix(format!("parts {cuts:b}"), e))?;
            let got = fold(&got);
            ensure!(got == want, "parts {:b}: observed {:?}, expected {:?}", cuts, got, want);
            case.trace();
        }
        case.state(&want);
        Ok(())
    });
    let (k, sizes) = (RUNS.len() as u64, around(ctx.pick(13, 16)));
    let n = sizes.len() as u64;
    ctx.bound(format!("{k} kinds of runs of {n} lengths up to {} with 4 kinds of arrival", sizes[n as usize - 1]));
    ctx.explore("runs", k * n, |i| {
        format!("{:?} {} times", RUNS[(i % k) as usize], sizes[(i / k) as usize])
    }, |i, case| {
        let text = long_text((i % k) as usize, sizes[(i / k) as usize]);
        let want = fold(&Lexer::run(&text).0);
        for window in WINDOWS {
            for kind in 0..4 {
                let part = text.len().div_ceil(7);
                let got = arrive(&text, *window, [0, 1, text.len() / 2, text.len() - 1][kind], |have, ask| match kind {
                    0 => ask + part,
                    1 => have + part,
                    2 => ask.max(have + 255),
                    _ => usize::MAX,
                }, case).map_err(|e| prefix(format!("{window:?}, arrival {kind}"), e))?;
                let got = fold(&got);
                ensure!(got == want, "{:?}, arrival {}: other tokens", window, kind);
                case.trace();
            }
        }
        case.state(&want);
        Ok(())
    });
}

fn prefix(what: String, e: Fail) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("{what}: {m}")),
        v => v,
    }
}

pub fn t04(ctx: &Ctx) {
    let n = ctx.pick(5u32, 5);
    ctx.bound(format!(
        "every text of up to {n} of {} fragments; the end is signalled after every number of \
        tokens and after every prefix, and tokenizing continues afterwards",
        MIXED.len(),
    ));
    let texts = seq_total(MIXED.len() as u64, n);
    ctx.explore("end", texts, |i| show(&pieces(MIXED, i, false)), |i, case| {
        let text = pieces(MIXED, i, false);
        let (want, early) = Lexer::run(&text);
        let whole = |t: &Tok| !matches!(t, Tok::Bad(n, ..) if !n.starts_with("item"));
        for pops in 0..=early {
            // The end can be signalled between tokens with data remaining.
            if pops > 0 && !whole(&want[pops - 1]) {
                continue;
            }
            let consumed: usize = want[..pops].iter().map(|t| match t {
                Tok::Bad(_, raw, _) | Tok::BadString(raw, ..) | Tok::Space(raw)
                | Tok::Num { raw, .. } | Tok::Str(raw, _) => raw.len(),
                Tok::Mark(_) => 1,
                Tok::Word(w) => w.len(),
            }).sum();
            let (at, avail) = (Cell::new(0), Cell::new(text.len()));
            let mut feed = Feed { data: &text, at: &at, avail: &avail, window: Window::All };
            let mut dec = token::Dec::with(&mut feed);
            let mut out = Vec::new();
            while fold(&out) != fold(&want[..pops]) || out.last() != want[..pops].last() {
                case.step(1);
                match dec.pop() {
                    Flow::Continue(v) => out.push(own(v)?),
                    Flow::Break(_) => return Err(Fail::Violation(format!(
                        "observed {:?}, expected {:?}", out, &want[..pops],
                    ))),
                }
                ensure!(out.len() <= text.len() * 4, "tokenizer does not come to an end");
            }
            case.step(1);
            let got = dec.complete().map(own).transpose()?;
            if consumed < text.len() {
                expect_eq!(got, Some(bad("remaining")), "completed after {} bytes", consumed);
                expect_eq!(at.get(), consumed, "consumed data");
                case.feature("data remaining");
            } else {
                expect_eq!(got, None, "completed after everything");
                case.feature("nothing remaining");
            }
            // Nothing is lost, the rest can still be read.
            let mut rest = Vec::new();
            for _ in 0..4 * text.len() + 4 {
                case.step(1);
                match dec.pop() {
                    Flow::Continue(v) => rest.push(own(v)?),
                    Flow::Break(_) => break,
                }
            }
            rest.extend(complete(&mut dec, 4, case)?);
            let (a, b) = (fold(&rest), fold(&want[pops..]));
            ensure!(a == b, "after {} tokens: observed {:?}, expected {:?}", pops, a, b);
            case.trace();
        }

        // The end is signalled once a prefix was read, followed by another
        // text which starts from scratch.
        for cut in 0..=text.len() {
            let (want, early) = Lexer::run(&text[..cut]);
            let (next, next_early) = Lexer::run(&text[cut..]);
            let (at, avail) = (Cell::new(0), Cell::new(cut));
            let mut feed = Feed { data: &text, at: &at, avail: &avail, window: Window::All };
            let mut dec = token::Dec::with(&mut feed);
            for (k, (want, early)) in [(&want, early), (&next, next_early)].into_iter().enumerate() {
                let mut out = Vec::new();
                for _ in 0..4 * text.len() + 4 {
                    case.step(1);
                    match dec.pop() {
                        Flow::Continue(v) => out.push(own(v)?),
                        Flow::Break(_) => break,
                    }
                }
                let (a, b) = (fold(&out), fold(&want[..early]));
                ensure!(a == b, "cut {}, part {}: observed {:?}, expected {:?}", cut, k, a, b);
                let end = complete(&mut dec, 4, case).map_err(|e| prefix(format!("cut {cut}, part {k}"), e))?;
                out.extend(end);
                let (a, b) = (fold(&out), fold(want));
                ensure!(a == b, "cut {}, part {}: completed with {:?}, expected {:?}", cut, k, a, b);
                expect_eq!(at.get(), avail.get(), "cut {}, part {}: consumed data", cut, k);
                avail.set(text.len());
            }
            case.trace();
        }
        case.state(&want);
        Ok(())
    });

    // Long texts in a row, each of which is cut off or complete, and very many
    // short ones.
    let (k, sizes) = (RUNS.len() as u64, around(ctx.pick(13, 16)));
    let n = sizes.len() as u64;
    ctx.bound(format!("{k} kinds of runs of {n} lengths up to {}, each cut at 5 places and followed by others; {} texts in a row", sizes[n as usize - 1], ctx.pick(300, 70000)));
    let parts = |list: &[Vec<u8>], case: &mut Case| -> CaseResult {
        let text: Vec<u8> = list.concat();
        let (at, avail) = (Cell::new(0), Cell::new(0));
        let mut feed = Feed { data: &text, at: &at, avail: &avail, window: Window::All };
        let mut dec = token::Dec::with(&mut feed);
        for (k, part) in list.iter().enumerate() {
            let (want, early) = Lexer::run(part);
            avail.set(avail.get() + part.len());
            let mut out = Vec::new();
            for _ in 0..4 * part.len() + 4 {
                case.step(1);
                match dec.pop() {
                    Flow::Continue(v) => out.push(own(v)?),
                    Flow::Break(_) => break,
                }
            }
            ensure!(fold(&out) == fold(&want[..early]), "part {}: other tokens before the end", k);
            out.extend(complete(&mut dec, 4, case).map_err(|e| prefix(format!("part {k}"), e))?);
            ensure!(fold(&out) == fold(&want), "part {}: other tokens at the end", k);
            expect_eq!(at.get(), avail.get(), "part {}: consumed data", k);
        }
        case.trace();
        Ok(())
    };
    ctx.explore("runs", k * n, |i| {
        format!("{:?} {} times", RUNS[(i % k) as usize], sizes[(i / k) as usize])
    }, |i, case| {
        let size = sizes[(i / k) as usize];
        let text = long_text((i % k) as usize, size);
        let other = long_text(((i + 7) % k) as usize, size);
        for cut in [1, text.len() / 2, text.len() - 1, text.len()] {
            parts(&[text[..cut].to_vec(), text[cut..].to_vec(), other.clone(), b"1".to_vec(), text.clone(), b"\"a\"".to_vec()], case)?;
        }
        case.state(&i);
        Ok(())
    });
    let many = ctx.pick(300, 70000);
    ctx.explore("many", k * 2, |i| format!("many texts of kind {}, {}", i % k, i / k), |i, case| {
        let list: Vec<Vec<u8>> = (0..many).map(|v| long_text(((i + v * (i / k)) % k) as usize, v as usize % 4)).collect();
        case.state(&list);
        parts(&list, case)
    });
}

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
enum It {
    Error,
    Prim,
    Key,
    Open(u8),
    Close(u8),
}

fn item(v: js::Item<'_>) -> It {
    match v {
        js::Item::Error(_) => It::Error,
        js::Item::Prim => It::Prim,
        js::Item::Key => It::Key,
        js::Item::ArrayOpen => It::Open(b'['),
        js::Item::ArrayClose => It::Close(b'['),
        js::Item::ObjectOpen => It::Open(b'{'),
        js::Item::ObjectClose => It::Close(b'{'),
    }
}

/// What is expected next.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
enum Want {
    Value,
    ValueOrClose,
    KeyOrClose,
    Key,
    Colon,
    CommaOrClose,
    Nothing,
}

/// Reference: a recursive grammar, run with an explicit stack. A token that
/// is out of place is reported and ignored.
fn items(tokens: &[&str]) -> (Vec<It>, Want, Vec<u8>) {
    let mut out = Vec::new();
    let mut stack: Vec<u8> = Vec::new();
    let mut want = Want::Value;
    let after = |stack: &[u8]| if stack.is_empty() { Want::Nothing } else { Want::CommaOrClose };
    for t in tokens {
        let value = matches!(want, Want::Value | Want::ValueOrClose);
        let key = matches!(want, Want::Key | Want::KeyOrClose);
        let c = t.as_bytes()[0];
        match c {
            b' ' => {},
            b'[' | b'{' if value => {
                stack.push(c);
                out.push(It::Open(c));
                want = if c == b'[' { Want::ValueOrClose } else { Want::KeyOrClose };
            },
            b']' if stack.last() == Some(&b'[')
                && matches!(want, Want::ValueOrClose | Want::CommaOrClose) =>
            {
                stack.pop();
                out.push(It::Close(b'['));
                want = after(&stack);
            },
            b'}' if stack.last() == Some(&b'{')
                && matches!(want, Want::KeyOrClose | Want::CommaOrClose) =>
            {
                stack.pop();
                out.push(It::Close(b'{'));
                want = after(&stack);
            },
            b',' if want == Want::CommaOrClose => {
                want = if stack.last() == Some(&b'[') { Want::Value } else { Want::Key };
            },
            b':' if want == Want::Colon => want = Want::Value,
            b'"' if key => {
                out.push(It::Key);
                want = Want::Colon;
            },
            b'"' | b'1' | b'n' | b't' | b'f' if value => {
                out.push(It::Prim);
                want = after(&stack);
            },
            _ => out.push(It::Error),
        }
    }
    (out, want, stack)
}

const STREAM: &[&str] = &["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", "true", "false", "?"];

pub fn t05(ctx: &Ctx) {
    let n = ctx.pick(7u32, 8);
    let k = 8u64;
    let w = ctx.pick(6u32, 7);
    ctx.bound(format!(
        "every sequence of up to {n} of {k} kinds of tokens, and of up to {w} of {}; arriving at \
        once and byte by byte", STREAM.len(),
    ));
    let run = |ops: &[usize], case: &mut Case| -> CaseResult {
        let toks: Vec<&str> = ops.iter().map(|o| STREAM[*o]).collect();
        let mut text = toks.join(" ");
        text.push(' ');
        let (want, state, stack) = items(&toks);
        for bytes in [false, true] {
            let (at, avail) = (Cell::new(0), Cell::new(if bytes { 0 } else { text.len() }));
            let mut feed = Feed { data: text.as_bytes(), at: &at, avail: &avail, window: Window::All };
            let mut dec = js::Dec::with(&mut feed);
            let mut out = Vec::new();
            loop {
                case.step(1);
                match dec.pop() {
                    Flow::Continue(v) => out.push(item(v)),
                    Flow::Break(_) if avail.get() < text.len() => avail.set(avail.get() + 1),
                    Flow::Break(_) => break,
                }
                ensure!(out.len() <= text.len(), "stream does not come to an end");
            }
            ensure!(out == want, "byte by byte {}: observed {:?}, expected {:?}", bytes, out, want);
        }
        if want.contains(&It::Error) {
            case.feature("malformed");
        } else if state == Want::Nothing {
            case.feature("complete document");
        } else {
            case.feature("prefix of a document");
        }
        case.state(&(state, stack, want.len()));
        case.trace();
        Ok(())
    };
    let describe = |k: u64, i: u64| {
        seq_at(k, i).into_iter().map(|o| STREAM[o]).collect::<Vec<_>>().join(" ")
    };
    ctx.explore("items", seq_total(k, n), |i| describe(k, i), |i, case| run(&seq_at(k, i), case));
    let all = STREAM.len() as u64;
    ctx.explore("values", seq_total(all, w), |i| describe(all, i), |i, case| run(&seq_at(all, i), case));
    // Deep nesting, closed in order.
    let depth = ctx.pick(12u32, 16);
    ctx.explore("nesting", 1 << depth, |i| format!("{i:b}"), |i, case| {
        let mut ops = Vec::new();
        let mut close = Vec::new();
        for d in 0..depth {
            if i >> d & 1 == 0 {
                ops.push(0);
                close.push(1);
            } else {
                ops.extend([2, 6, 5]);
                close.push(3);
            }
        }
        ops.push(7);
        close.reverse();
        ops.extend(close);
        ops.push(7);
        run(&ops, case)
    });
    // Very deep and very wide documents.
    let sizes = around(ctx.pick(16, 18));
    let m = sizes.len() as u64;
    ctx.bound(format!("7 shapes of documents of {m} sizes up to {}", sizes[m as usize - 1]));
    ctx.explore("large", m * 7, |i| format!("shape {}, size {}", i / m, sizes[(i % m) as usize]), |i, case| {
        let n = sizes[(i % m) as usize];
        let rep = |v: &[usize]| -> Vec<usize> { v.iter().copied().cycle().take(v.len() * n).collect() };
        let ops = match i / m {
            0 => [rep(&[0]), rep(&[1]), vec![1]].concat(),
            1 => [rep(&[2, 6, 5]), vec![7], rep(&[3]), vec![3]].concat(),
            2 => [vec![0], rep(&[7, 4]), vec![7, 1]].concat(),
            3 => [vec![2], rep(&[6, 5, 7, 4]), vec![6, 5, 0, 1, 3]].concat(),
            4 => [rep(&[0, 2, 6, 5]), vec![7], rep(&[3, 1])].concat(),
            // Mismatched at the far end.
            5 => [rep(&[0]), vec![3], rep(&[1]), vec![7]].concat(),
            _ => [rep(&[0, 1]), rep(&[4]), rep(&[7])].concat(),
        };
        run(&ops, case)
    });
    // Everything on deep levels.
    let levels = [7, 15, 31, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513];
    let l = levels.len() as u64;
    let w = ctx.pick(4u32, 5);
    let per = seq_total(k, w);
    ctx.bound(format!("every sequence of up to {w} of {k} kinds of tokens on {l} levels of up to {} in 4 kinds of containers", levels[l as usize - 1]));
    let deep = |i: u64| (levels[(i / per % l) as usize], i / per / l, seq_at(k, i % per));
    ctx.explore("levels", per * l * 4, |i| format!("{:?}", deep(i)), |i, case| {
        let (n, kind, seq) = deep(i);
        let array = |d: u64| [true, false, d % 2 == 0, d % 2 == 1][kind as usize];
        let mut ops: Vec<usize> = (0..n).flat_map(|d| if array(d) { &[0][..] } else { &[2, 6, 5] }.iter().copied()).collect();
        ops.extend(seq);
        ops.extend((0..n).rev().map(|d| if array(d) { 1 } else { 3 }));
        ops.push(7);
        run(&ops, case)
    });
}
