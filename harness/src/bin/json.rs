//! Streaming JSON tokenizer of `osi`.

use mc::engine::*;
use mc::{ensure, expect_eq};
use core::ops::ControlFlow;
use osi::json::token::*;
use std::borrow::Cow;

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum Ev {
    E(Error<'static>),
    T(Token<'static>),
}

/// Collects events, and breaks at event number `stop`, if any.
#[derive(Default)]
struct Log {
    ev: Vec<Ev>,
    stop: Option<usize>,
}

impl Log {
    fn add(&mut self, ev: Ev) -> ControlFlow<usize> {
        self.ev.push(ev);
        if self.stop == Some(self.ev.len() - 1) {
            ControlFlow::Break(self.ev.len() * 7)
        } else {
            ControlFlow::Continue(())
        }
    }
}

impl Report<usize> for Log {
    fn report_error(&mut self, error: Error<'_>) -> ControlFlow<usize> {
        self.add(Ev::E(error.own()))
    }
    fn report_token(&mut self, token: Token<'_>) -> ControlFlow<usize> {
        self.add(Ev::T(token.own()))
    }
}

/// Reference lexer. Works on the entire text at once.
struct Lexer<'a> {
    text: &'a [char],
    at: usize,
    flags: Flag,
    ev: Vec<Ev>,
    /// For each character: whether a token is pending once it was consumed.
    busy: Vec<bool>,
}

impl<'a> Lexer<'a> {
    fn run(text: &'a [char], flags: Flag) -> (Vec<Ev>, Vec<bool>) {
        let mut l = Lexer { text, at: 0, flags, ev: Vec::new(), busy: vec![false; text.len()] };
        while l.at < l.text.len() {
            l.token();
        }
        (l.ev, l.busy)
    }

    fn peek(&self) -> Option<char> {
        self.text.get(self.at).copied()
    }

    fn peek2(&self) -> Option<char> {
        self.text.get(self.at + 1).copied()
    }

    fn error(&mut self, e: Error<'static>) {
        self.ev.push(Ev::E(e));
    }

    fn emit(&mut self, t: Token<'static>) {
        self.ev.push(Ev::T(t));
    }

    fn text_from(&self, from: usize) -> String {
        self.text[from..self.at].iter().collect()
    }

    fn mark_busy(&mut self, from: usize) {
        for b in &mut self.busy[from..self.at] {
            *b = true;
        }
    }

    fn token(&mut self) {
        let start = self.at;
        let c = self.peek().unwrap();
        let single = match c {
            ':' => Some(Token::Colon),
            ',' => Some(Token::Comma),
            '[' => Some(Token::ArrayOpen),
            ']' => Some(Token::ArrayClose),
            '{' => Some(Token::ObjectOpen),
            '}' => Some(Token::ObjectClose),
            _ => None,
        };
        if let Some(t) = single {
            self.at += 1;
            self.emit(t);
            return;
        }
        match c {
            '"' => self.string(),
            '-' | '0'..='9' => self.number(),
            '+' if self.flags & PLUS != 0 => self.number(),
            '+' => {
                self.at += 1;
                self.error(Error::CharacterStray('+'));
            },
            '=' => {
                self.at += 1;
                self.error(Error::CharacterStray('='));
                self.emit(Token::Colon);
            },
            '#' => {
                while matches!(self.peek(), Some(c) if c != '\n') {
                    self.at += 1;
                }
                self.mark_busy(start);
                let t = self.text_from(start + 1);
                self.error(Error::Comment(Cow::from(t)));
            },
            '/' if self.peek2() == Some('/') => {
                while matches!(self.peek(), Some(c) if c != '\n') {
                    self.at += 1;
                }
                self.mark_busy(start);
                let t = self.text_from(start);
                self.error(Error::Comment(Cow::from(t)));
            },
            c if c.is_whitespace() => {
                let mut raw = String::new();
                while let Some(c) = self.peek() {
                    if !c.is_whitespace() {
                        break;
                    }
                    self.at += 1;
                    if matches!(c, ' ' | '\t' | '\n' | '\r') {
                        raw.push(c);
                    } else {
                        self.error(Error::CharacterStray(c));
                    }
                }
                self.mark_busy(start);
                self.emit(Token::Whitespace { raw: Cow::from(raw) });
            },
            _ => {
                self.at += 1;
                while let Some(c) = self.peek() {
                    if c.is_whitespace() || ":,[]{}-\"#/+=".contains(c) {
                        break;
                    }
                    self.at += 1;
                }
                self.mark_busy(start);
                match self.text_from(start).as_str() {
                    "null" => self.emit(Token::Null),
                    "true" => self.emit(Token::True),
                    "false" => self.emit(Token::False),
                    v => {
                        let v = v.to_string();
                        self.error(Error::KeywordUnknown(Cow::from(v)))
                    },
                }
            },
        }
    }

    fn digits(&mut self) -> Vec<u8> {
        let mut v = Vec::new();
        while let Some(c @ '0'..='9') = self.peek() {
            v.push(c as u8 - b'0');
            self.at += 1;
        }
        v
    }

    fn number(&mut self) {
        let start = self.at;
        let mut sign = Sign::Plus;
        let mut exp_sign = Sign::Plus;
        let (mut frac, mut exp) = (Vec::new(), Vec::new());
        if let Some(c @ ('+' | '-')) = self.peek() {
            if c == '-' {
                sign = Sign::Minus;
            }
            self.at += 1;
        }
        let int = self.digits();
        if int.len() > 1 && int[0] == 0 && self.flags & ZERO == 0 {
            self.error(Error::CharacterStray((b'0' + int[1]) as char));
        }
        let mut complete = !int.is_empty();
        if complete && self.peek() == Some('.') {
            self.at += 1;
            frac = self.digits();
            complete = !frac.is_empty();
        }
        if complete && matches!(self.peek(), Some('e' | 'E')) {
            self.at += 1;
            if let Some(c @ ('+' | '-')) = self.peek() {
                if c == '-' {
                    exp_sign = Sign::Minus;
                }
                self.at += 1;
            }
            exp = self.digits();
            complete = !exp.is_empty();
        }
        self.mark_busy(start);
        if !complete {
            self.error(Error::NumberIncomplete);
        }
        let raw = self.text_from(start);
        self.emit(Token::Number {
            raw: Cow::from(raw),
            integer: Cow::from(int),
            fraction: Cow::from(frac),
            exponent: Cow::from(exp),
            integer_sign: sign,
            exponent_sign: exp_sign,
        });
    }

    /// Parse up to four hexadecimal digits.
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16))?;
            v = v * 16 + d;
            self.at += 1;
        }
        Some(v)
    }

    fn simple(c: char) -> Option<char> {
        Some(match c {
            '"' | '\\' | '/' => c,
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            _ => return None,
        })
    }

    fn string(&mut self) {
        let start = self.at;
        self.at += 1;
        let mut s = String::new();
        loop {
            let Some(c) = self.peek() else { break };
            if c == '"' {
                self.mark_busy(start);
                let raw = self.text_from(start + 1);
                self.at += 1;
                self.emit(Token::String { raw: Cow::from(raw), chars: Cow::from(s) });
                return;
            }
            self.at += 1;
            if c != '\\' {
                if c < ' ' {
                    self.error(Error::StringCharacterInvalid(c));
                }
                s.push(c);
                continue;
            }
            // Any lead surrogate of a directly preceding escape.
            let mut lead: Option<u32> = None;
            loop {
                // The backslash was consumed.
                let Some(c) = self.peek() else { break };
                self.at += 1;
                if c != 'u' {
                    if lead.is_some() {
                        self.error(Error::StringSurrogateUnpaired);
                    }
                    match Self::simple(c) {
                        Some(v) => s.push(v),
                        None => {
                            self.error(Error::StringEscapeInvalid(c));
                            s.push(c);
                        },
                    }
                    break;
                }
                let Some(v) = self.hex4() else {
                    if self.peek().is_some() {
                        self.error(Error::StringEscapeIncomplete);
                    }
                    break;
                };
                match (lead, v) {
                    (Some(l), 0xdc00..=0xdfff) => {
                        let u = 0x10000 + (l - 0xd800) * 0x400 + (v - 0xdc00);
                        s.push(char::from_u32(u).unwrap());
                        break;
                    },
                    (Some(_), _) | (None, 0xdc00..=0xdfff) => {
                        self.error(Error::StringSurrogateUnpaired);
                        break;
                    },
                    (None, 0xd800..=0xdbff) => {
                        match self.peek() {
                            Some('\\') => {
                                self.at += 1;
                                lead = Some(v);
                            },
                            Some(_) => {
                                self.error(Error::StringSurrogateUnpaired);
                                break;
                            },
                            None => break,
                        }
                    },
                    (None, _) => {
                        s.push(char::from_u32(v).unwrap());
                        break;
                    },
                }
            }
        }
        self.mark_busy(start);
        self.error(Error::StringIncomplete);
    }
}

/// Tokenize in one go on a given tokenizer, and compare with the reference.
fn compare(tk: &mut Tokenizer, text: &[char], flags: Flag, c: &mut Case) -> Result<Vec<Ev>, Fail> {
    let (want, busy) = Lexer::run(text, flags);
    let mut log = Log::default();
    for (i, ch) in text.iter().enumerate() {
        match tk.push(&mut log, Some(*ch)) {
            ControlFlow::Break(_) => return Err("tokenizer broke on its own".into()),
            ControlFlow::Continue(s) => {
                ensure!(
                    (s == Status::Busy) == busy[i] && tk.status() == s,
                    "status after {} characters is {:?}, but a token is{} pending",
                    i + 1, s, if busy[i] { "" } else { " not" },
                );
            },
        }
    }
    match tk.push(&mut log, None) {
        ControlFlow::Continue(Status::Done) => {},
        v => return Err(format!("end of input yields {:?}", v).into()),
    }
    c.step(text.len() as u64 + 1);
    expect_eq!(&log.ev, &want, "events (flags {})", flags);
    Ok(log.ev)
}

/// All events valid: the tokens must reproduce the text.
fn lossless(text: &[char], ev: &[Ev]) -> Result<bool, Fail> {
    let mut s = String::new();
    for e in ev {
        match e {
            Ev::E(_) => return Ok(false),
            Ev::T(t) => match t {
                Token::Colon => s.push(':'),
                Token::Comma => s.push(','),
                Token::ArrayOpen => s.push('['),
                Token::ArrayClose => s.push(']'),
                Token::ObjectOpen => s.push('{'),
                Token::ObjectClose => s.push('}'),
                Token::Null => s.push_str("null"),
                Token::True => s.push_str("true"),
                Token::False => s.push_str("false"),
                Token::Whitespace { raw } | Token::Number { raw, .. } => s.push_str(raw),
                Token::String { raw, .. } => {
                    s.push('"');
                    s.push_str(raw);
                    s.push('"');
                },
            },
        }
    }
    let t: String = text.iter().collect();
    ensure!(s == t, "tokens spell {:?} instead of {:?}", s, t);
    Ok(true)
}

fn chars(alpha: &[&str], seq: &[usize]) -> Vec<char> {
    seq.iter().flat_map(|v| alpha[*v].chars()).collect()
}

fn show(v: &[char]) -> String {
    format!("{:?}", v.iter().collect::<String>())
}

/// Compare all sequences over an alphabet of text fragments.
fn sequences(ctx: &Ctx, name: &str, alpha: &[&str], depth: u32, prefix: &str, flags: &[Flag]) {
    let k = alpha.len() as u64;
    ctx.bound(format!("{}: all sequences of up to {} out of {} fragments, {} flag sets", name, depth, k, flags.len()));
    let text = |i: u64| -> Vec<char> {
        prefix.chars().chain(chars(alpha, &seq_at(k, i))).collect()
    };
    ctx.explore(name, seq_total(k, depth), |i| show(&text(i)), |i, c| {
        let t = text(i);
        for f in flags {
            let mut tk = Tokenizer::with_flags(real(*f));
            let ev = compare(&mut tk, &t, *f, c)?;
            if lossless(&t, &ev)? {
                c.feature("text without errors");
            } else {
                c.feature("text with errors");
            }
            c.state(&ev);
            c.trace();
        }
        Ok(())
    });
}

/// All texts close to the given ones.
fn edits(ctx: &Ctx, bases: &[&str], two: &str, flags: &[Flag]) {
    let one: Vec<char> = (0..0x180).chain([0x600, 0x85, 0x2028, 0xd7ff, 0xe000, 0xff10, 0xff21, 0xffff, 0x1f600, 0x10ffff])
        .filter_map(char::from_u32).collect();
    ctx.bound(format!(
        "{} texts with one character replaced, inserted, or removed, out of {}, or two replaced out of {}",
        bases.len(), one.len(), two.chars().count(),
    ));
    let all = Edits::new(bases.iter().map(|v| v.chars().collect()).collect(), one, two.chars().collect());
    ctx.explore("edits", all.total(), |i| show(&all.at(i)), |i, c| {
        let t = all.at(i);
        for f in flags {
            let ev = compare(&mut Tokenizer::with_flags(real(*f)), &t, *f, c)?;
            lossless(&t, &ev)?;
            c.state(&ev);
            c.trace();
        }
        Ok(())
    });
}

/// Flags of the reference: a bit each, independent of how the tokenizer
/// encodes them.
const ZERO: Flag = 1;
const PLUS: Flag = 2;

fn real(f: Flag) -> Flag {
    let mut r = 0;
    if f & ZERO != 0 {
        r |= FLAG_ALLOW_LEADING_ZERO;
    }
    if f & PLUS != 0 {
        r |= FLAG_ALLOW_PLUS_SIGN;
    }
    r
}

const ALL: &[Flag] = &[0, 1, 2, 3];

pub fn j01(ctx: &Ctx) {
    ctx.assume("the reference lexer restates RFC 8259 tokens and the documented recovery for anything else");
    let alpha = [
        ":", ",", "[", "]", "{", "}", "\"", "\\", "u", "0", "1", "9", "e", "E", ".", "-", "+", "n", "t",
        " ", "\n", "\t", "/", "#", "=", "é", "\u{a0}", "\u{b}", "\u{1}", "'", "\r",
    ];
    sequences(ctx, "characters", &alpha, ctx.pick(4, 5), "", &[0]);
    sequences(ctx, "characters-flags", &alpha, ctx.pick(4, 5), "", ALL);
    let alpha = [
        "null", "true", "false", "nul", "True", "-1.5e+3", "0", "12", "-", "\"a\"", "\"\\n\"", "\"", ":", ",",
        "[", "]", "{", "}", " ", "\n", "//c", "#c", "=", "+", "\u{2028}", "x",
    ];
    sequences(ctx, "fragments", &alpha, ctx.pick(4, 5), "", &[0]);
    let alpha = ["n", "u", "l", "t", "r", "e", "f", "a", "s"];
    sequences(ctx, "keywords", &alpha, ctx.pick(6, 7), "", &[0]);
    let alpha = ["/", "#", "\n", "a", " ", "\"", "*", "\r", "\u{85}", "1"];
    sequences(ctx, "comments", &alpha, ctx.pick(7, 8), "", &[0]);

    edits(ctx, &[
        "{\"key\":[1,-2.5e+10,true,false,null]}", "-0.0E-0 12", "[1,2]#c\n3", "//x\r\n\"y\"", " \t\r\n1", "+1 01 1. .5 1e", "nulltruefalse", "\"a\\n\\u0041\",",
    ], "\"\\u09.eE+-n[ #/\n=,:]x\u{a0}\u{1}t", ALL);

    // Every Unicode scalar value in all lexical contexts.
    let frames = [("", ""), ("1", "1"), ("n", "ull"), (" ", " "), ("\"", "\""), ("\"\\", "\""), ("\"\\u00", "0\""), ("#", "\n"), ("/", "/")];
    ctx.bound(format!("every Unicode scalar value in {} contexts", frames.len()));
    ctx.explore("scalars", 0x1100, |i| format!("U+{:04X}..U+{:04X}", i * 256, i * 256 + 255), |i, c| {
        for u in i * 256..i * 256 + 256 {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            for (a, b) in frames {
                let t: Vec<char> = a.chars().chain([ch]).chain(b.chars()).collect();
                let ev = compare(&mut Tokenizer::new(), &t, 0, c).map_err(|e| match e {
                    Fail::Violation(m) => Fail::Violation(format!("{}: {}", show(&t), m)),
                    v => v,
                })?;
                lossless(&t, &ev)?;
                c.state(&ev);
                c.trace();
            }
        }
        Ok(())
    });

    // Long runs of everything.
    let sizes = around(ctx.pick(16, 18));
    let (k, m) = (RUNS.len() as u64, sizes.len() as u64);
    ctx.bound(format!("{} kinds of runs of {} lengths up to {}", k, m, sizes[m as usize - 1]));
    ctx.explore("runs", k * m, |i| format!("{:?} {} times", RUNS[(i % k) as usize], sizes[(i / k) as usize]), |i, c| {
        let t = run_text((i % k) as usize, sizes[(i / k) as usize]);
        let ev = compare(&mut Tokenizer::new(), &t, 0, c)?;
        lossless(&t, &ev)?;
        c.state(&ev);
        c.trace();
        Ok(())
    });

    // Long tokens around the threshold of the internal buffers.
    let kinds = ["a", "1", " ", "\"", "é", "#"];
    let lens = [1usize, 4094, 4095, 4096, 4097, 4098, 8192, 20000];
    ctx.explore("long", (kinds.len() * lens.len()) as u64, |i| {
        format!("{:?} with {} characters", kinds[i as usize % 6], lens[i as usize / 6])
    }, |i, c| {
        let (k, n) = (kinds[i as usize % 6], lens[i as usize / 6]);
        let one: Vec<char> = match k {
            "\"" => "\"".chars().chain("x".repeat(n).chars()).chain("\"".chars()).collect(),
            "#" => "#".chars().chain("x".repeat(n).chars()).chain("\n".chars()).collect(),
            k => k.repeat(n).chars().collect(),
        };
        let mut t = one.clone();
        t.push(',');
        t.extend("\"b\" 2 null".chars());
        t.extend(&one);
        let mut tk = Tokenizer::new();
        let ev = compare(&mut tk, &t, 0, c)?;
        lossless(&t, &ev)?;
        compare(&mut tk, &t, 0, c)?;
        c.state(&ev);
        c.trace();
        Ok(())
    });
}

/// Texts with a run of repetitions.
const RUNS: [(&str, &str, &str); 24] = [
    ("", " ", "1"), ("", "[", "]"), ("", "null,", "x"), ("", "1", ","), ("-", "10", ""), ("0.", "0", "1 "), ("1e-", "9", "]"),
    ("", "a", " "), ("_", "é", ""), ("", "?", "\""), ("", "\u{1}", ""), ("#", "x", "\n1"), ("//", "é", "\n"), ("", "#\n", "1"),
    ("\"", "a", "\""), ("\"", "é", "\""), ("\"", "\u{10348}", "\""), ("\"", "\\n", "\""), ("\"a", "\\u0041", "\""),
    ("\"", "\\ud83d\\ude0a", "\""), ("\"", "\\ud83d", "\""), ("\"", "\\x", ""), ("\"", "\u{0}", "\""), ("", "\"a\" ", ""),
];

fn run_text(k: usize, n: usize) -> Vec<char> {
    let (a, b, c) = RUNS[k];
    format!("{}{}{}", a, b.repeat(n), c).chars().collect()
}

/// Numbers around the powers of two.
fn around(exp: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=exp).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).filter(|v| *v > 0).collect();
    v.sort();
    v.dedup();
    v
}

pub fn j02(ctx: &Ctx) {
    let alpha = ["\"", "\\", "u", "0", "1", ".", "e", "-", "n", " ", "#", "[", "\n", "=", "\\ud83d\\ude00", "/", "null"];
    let k = alpha.len() as u64;
    let depth = ctx.pick(5, 6);
    ctx.bound(format!("all texts of up to {} out of {} fragments, all ways to cut them into pushes", depth, k));
    let text = |i: u64| chars(&alpha, &seq_at(k, i));
    ctx.explore("cuts", seq_total(k, depth), |i| show(&text(i)), |i, c| {
        let t = text(i);
        let (want, _) = Lexer::run(&t, 0);
        let n = t.len().saturating_sub(1).min(7);
        for cut in 0..1u32 << n {
            let mut tk = Tokenizer::new();
            let mut log = Log::default();
            let mut piece = String::new();
            for (j, ch) in t.iter().enumerate() {
                piece.push(*ch);
                if j < n && cut >> j & 1 == 1 {
                    let r = tk.push_str(&mut log, &piece);
                    ensure!(r == ControlFlow::Continue(tk.status()), "unexpected result {:?}", r);
                    piece.clear();
                    c.step(1);
                }
            }
            // Alternate between both ways to finish.
            if cut & 1 == 0 {
                let r = tk.parse_str(&mut log, &piece);
                ensure!(r == ControlFlow::Continue(Status::Done), "unexpected result {:?}", r);
            } else {
                let r = tk.push_str(&mut log, &piece);
                ensure!(r == ControlFlow::Continue(tk.status()), "unexpected result {:?}", r);
                let r = tk.push(&mut log, None);
                ensure!(r == ControlFlow::Continue(Status::Done), "unexpected result {:?}", r);
            }
            expect_eq!(&log.ev, &want, "events with cuts {:b}", cut);
            c.step(1);
            c.trace();
        }
        c.state(&want);
        Ok(())
    });

    // Long runs, cut in the middle of the run, and continued after a reset in
    // the middle of the run.
    let sizes = around(ctx.pick(16, 17));
    let (k, m) = (RUNS.len() as u64, sizes.len() as u64);
    ctx.bound(format!("{} kinds of runs of {} lengths up to {}, cut into 1, 2, or 7 parts and after a reset within another run", k, m, sizes[m as usize - 1]));
    ctx.explore("runs", k * m, |i| format!("{:?} {} times", RUNS[(i % k) as usize], sizes[(i / k) as usize]), |i, c| {
        let n = sizes[(i / k) as usize];
        let t = run_text((i % k) as usize, n);
        let (want, _) = Lexer::run(&t, 0);
        let mut tk = Tokenizer::new();
        for parts in [1, 2, 7] {
            // Leave it within some other run.
            let other: String = run_text(((i + parts) % k) as usize, n).iter().collect();
            let _ = tk.push_str(&mut Log::default(), &other);
            tk.reset();
            let mut log = Log::default();
            for part in t.chunks(t.len().div_ceil(parts as usize)) {
                let part: String = part.iter().collect();
                let r = tk.push_str(&mut log, &part);
                ensure!(r == ControlFlow::Continue(tk.status()), "unexpected result {:?}", r);
                c.step(1);
            }
            let r = tk.push(&mut log, None);
            ensure!(r == ControlFlow::Continue(Status::Done), "unexpected result {:?}", r);
            ensure!(log.ev == want, "other events with {} parts", parts);
            c.trace();
        }
        c.state(&want);
        Ok(())
    });

    // Long runs, abandoned in any way, followed by other text; copies taken
    // within the run.
    let probes: Vec<Vec<char>> = ["\"a\" 12.5e3 null", "01", "\\", "u0\"", "+1", "/x", "d\"\\u0041\"", " \n#x"].iter().map(|v| v.chars().collect()).collect();
    ctx.bound(format!("the same runs, abandoned by end, reset, or break at 5 events, followed by {} probes; and copied", probes.len()));
    ctx.explore("abandoned-runs", k * m, |i| format!("{:?} {} times", RUNS[(i % k) as usize], sizes[(i / k) as usize]), |i, c| {
        let n = sizes[(i / k) as usize];
        let t = run_text((i % k) as usize, n);
        let s: String = t.iter().collect();
        let (want, _) = Lexer::run(&t, 0);
        let mut tk = Tokenizer::new();
        for (j, p) in probes.iter().enumerate() {
            // All but the last character, such that the run is not over.
            let _ = tk.push_str(&mut Log::default(), &s[..s.len() - t[t.len() - 1].len_utf8()]);
            let mut copy = tk.clone();
            if j % 2 == 0 {
                tk.reset();
            } else {
                let _ = tk.push(&mut Log::default(), None);
            }
            ensure!(tk.status() == Status::Done, "not done");
            compare(&mut tk, p, 0, c)?;
            // The copy is not affected.
            let mut log = Log::default();
            let _ = copy.push(&mut log, Some(t[t.len() - 1]));
            let _ = copy.push(&mut log, None);
            ensure!(log.ev.len() <= want.len() && log.ev[..] == want[want.len() - log.ev.len()..], "other events of the copy");
            c.trace();
        }
        let stops = [0, 1, want.len() / 2, want.len().saturating_sub(2), want.len().saturating_sub(1)];
        for (j, stop) in stops.into_iter().filter(|v| *v < want.len()).enumerate() {
            let mut log = Log { stop: Some(stop), ..Default::default() };
            let r = tk.parse_str(&mut log, &s);
            expect_eq!(r, ControlFlow::Break((stop + 1) * 7), "result if event {} breaks", stop);
            ensure!(log.ev[..] == want[..stop + 1], "events up to the break at {}", stop);
            ensure!(tk.status() == Status::Done, "not reset after break");
            compare(&mut tk, &probes[(i as usize + j) % probes.len()], 0, c)?;
            c.trace();
        }
        c.state(&(i, want.len()));
        Ok(())
    });

    // One tokenizer for very many texts, each ended in another way.
    let many = ctx.pick(1000u64, 70000);
    ctx.bound(format!("{} texts in a row on one tokenizer", many));
    ctx.explore("many-texts", k * 4, |i| format!("text {}, ended by {}", i % k, i / k), |i, c| {
        let flags = (i % 4) as Flag;
        let mut tk = Tokenizer::with_flags(real(flags));
        for n in 0..many {
            let t = run_text(((i + n * (i / k % 2)) % k) as usize, (n % 5) as usize + 1);
            if i / k < 2 {
                compare(&mut tk, &t, flags, c)?;
            } else {
                let s: String = t.iter().collect();
                let _ = tk.push_str(&mut Log { stop: (i / k == 3).then_some(0), ..Default::default() }, &s);
                tk.reset();
                if n % 97 == 0 || n + 3 > many {
                    compare(&mut tk, &t, flags, c)?;
                }
            }
            c.step(1);
        }
        c.state(&i);
        c.trace();
        Ok(())
    });

    // Abandon a first text at any point (reset, end of input, or break), then
    // tokenize a second one.
    let alpha = ["\"", "\\", "u", "0", "1", ".", "e", "-", "n", " ", "#", "[", "\\ud83d", "/", "null", "=", "\u{a0}", "+"];
    let k = alpha.len() as u64;
    let depth = ctx.pick(5, 6);
    let probes: Vec<Vec<char>> = ["\"a\" 12.5e3 null", "01", "\\", "u0\"", "+1", "/x", "d\"\\u0041\"", " \n#x"].iter().map(|v| v.chars().collect()).collect();
    let text = |i: u64| chars(&alpha, &seq_at(k, i));
    ctx.bound(format!("all texts of up to {} out of {} fragments, abandoned by reset, end, or break at every event, followed by {} probes", depth, k, probes.len()));
    ctx.explore("reuse", seq_total(k, depth), |i| show(&text(i)), |i, c| {
        let t = text(i);
        let s: String = t.iter().collect();
        let flags = (i % 4) as Flag;
        let (want, _) = Lexer::run(&t, flags);
        for p in &probes {
            // Reset.
            let mut tk = Tokenizer::with_flags(real(flags));
            let _ = tk.push_str(&mut Log::default(), &s);
            let mut copy = tk.clone();
            tk.reset();
            ensure!(tk.status() == Status::Done, "not done after reset");
            compare(&mut tk, p, flags, c)?;
            // End of input, on a copy.
            let _ = copy.push(&mut Log::default(), None);
            ensure!(copy.status() == Status::Done, "not done after end of input");
            let ev = compare(&mut copy, p, flags, c)?;
            c.state(&ev);
            c.trace();
        }
        for stop in 0..want.len() {
            let mut tk = Tokenizer::with_flags(real(flags));
            let mut log = Log { stop: Some(stop), ..Default::default() };
            let r = tk.parse_str(&mut log, &s);
            expect_eq!(r, ControlFlow::Break((stop + 1) * 7), "result if event {} breaks", stop);
            expect_eq!(&log.ev[..], &want[..stop + 1], "events up to the break");
            ensure!(tk.status() == Status::Done, "not reset after break");
            compare(&mut tk, &probes[(i as usize + stop) % probes.len()], flags, c)?;
            c.step(1);
            c.trace();
        }
        Ok(())
    });

    // State space: all reachable abstract states, each extended by each
    // character, with clones that must not share state.
    let alpha: Vec<char> = "\"\\u0d8cf1.eE+-n[ #/\n=,:]x".chars().collect();
    let k = alpha.len() as u64;
    let depth = ctx.pick(4, 5);
    ctx.explore("clones", seq_total(k, depth), |i| format!("{:?}", seq_at(k, i).iter().map(|v| alpha[*v]).collect::<String>()), |i, c| {
        let t: Vec<char> = seq_at(k, i).iter().map(|v| alpha[*v]).collect();
        let mut tk = Tokenizer::new();
        let mut log = Log::default();
        for ch in &t {
            let _ = tk.push(&mut log, Some(*ch));
        }
        for x in &alpha {
            let mut fork = tk.clone();
            let mut flog = Log { ev: log.ev.clone(), stop: None };
            let _ = fork.push(&mut flog, Some(*x));
            let _ = fork.push(&mut flog, None);
            let mut u = t.clone();
            u.push(*x);
            let (want, _) = Lexer::run(&u, 0);
            expect_eq!(&flog.ev, &want, "events of a copy extended by {:?}", x);
            c.state(&want);
            c.step(2);
        }
        c.trace();
        Ok(())
    });
}

pub fn j03(ctx: &Ctx) {
    // Every UTF-16 code unit as escape, in all spellings of the digits.
    ctx.bound("every value of \\uXXXX in lower, upper, and mixed case");
    ctx.explore("units", 0x10000, |i| format!("\\u{:04x}", i), |i, c| {
        let lower = format!("{:04x}", i);
        let upper = format!("{:04X}", i);
        let mixed: String = lower.chars().enumerate().map(|(n, v)| if n % 2 == 0 { v.to_ascii_uppercase() } else { v }).collect();
        for s in [lower, upper, mixed] {
            let t: Vec<char> = format!("\"a\\u{}b\"", s).chars().collect();
            let ev = compare(&mut Tokenizer::new(), &t, 0, c)?;
            let surrogate = (0xd800..0xe000).contains(&i);
            match (&ev[..], surrogate) {
                ([Ev::T(Token::String { chars, .. })], false) => {
                    expect_eq!(chars.as_ref(), format!("a{}b", char::from_u32(i as u32).unwrap()), "decoded");
                },
                ([Ev::E(Error::StringSurrogateUnpaired), Ev::T(Token::String { chars, .. })], true) => {
                    expect_eq!(chars.as_ref(), "ab", "decoded");
                },
                _ => return Err(format!("unexpected events {:?}", ev).into()),
            }
            c.state(&ev);
            c.trace();
        }
        Ok(())
    });

    // All pairs of a lead and a trail surrogate.
    ctx.bound("every surrogate pair, in lower and in upper case");
    ctx.explore("pairs", 1024, |i| format!("lead {:x} with all trails", 0xd800 + i), |i, c| {
        let lead = 0xd800 + i as u32;
        for trail in 0xdc00..0xe000u32 {
            for t in [format!("\"\\u{:x}\\u{:x}\"", lead, trail), format!("\"\\u{:X}\\u{:X}\"", lead, trail)] {
            let t: Vec<char> = t.chars().collect();
            let mut log = Log::default();
            let mut tk = Tokenizer::new();
            for ch in &t {
                let _ = tk.push(&mut log, Some(*ch));
            }
            let want: String = char::decode_utf16([lead as u16, trail as u16]).map(|v| v.unwrap()).collect();
            match &log.ev[..] {
                [Ev::T(Token::String { chars, .. })] if chars.as_ref() == want => {},
                v => return Err(format!("{:x} {:x}: {:?}", lead, trail, v).into()),
            }
            c.step(t.len() as u64);
            c.trace();
            c.state(&want);
            }
        }
        Ok(())
    });

    // A lead surrogate, followed by any unit, followed by something.
    ctx.bound("every 16-bit escape behind 4 lead surrogates in 3 spellings with 5 successors");
    let after = ["\"", "\\n\"", "\\udc00\"", "z\"", "\\"];
    ctx.explore("behind-lead", 0x10000, |i| format!("lead surrogate followed by \\u{:04x}", i), |i, c| {
        let lower = format!("{:04x}", i);
        let upper = format!("{:04X}", i);
        let mixed: String = lower.chars().enumerate().map(|(n, v)| if n % 2 == 1 { v.to_ascii_uppercase() } else { v }).collect();
        for s in [lower, upper, mixed] {
            for lead in ["d800", "dbff", "D83d", "DBFF"] {
                for a in after {
                    let t: Vec<char> = format!("\"\\u{}\\u{}{}", lead, s, a).chars().collect();
                    let ev = compare(&mut Tokenizer::new(), &t, 0, c)?;
                    c.state(&ev);
                    c.trace();
                }
            }
        }
        Ok(())
    });

    // All sequences of units.
    let alpha = [
        "\\ud800", "\\udbff", "\\uDC00", "\\udfff", "\\u0041", "\\ue000", "\\ud7ff", "\\n", "\\\"", "\\\\", "\\/", "\\x", "\\u12", "\\u",
        "\\", "a", "\u{10ffff}", "\"", "\u{1f}", " ", "d", "\\ud83d\\ude00", "\u{7f}",
    ];
    sequences(ctx, "escapes", &alpha, ctx.pick(5, 6), "\"", &[0]);
    let alpha = ["\"", "\\", "u", "0", "d", "8", "C", "n", "g", "\u{0}"];
    sequences(ctx, "characters", &alpha, ctx.pick(7, 8), "\"", &[0]);
    // Deep: characters of one escape and its successor.
    let alpha = ["\\", "u", "d", "8", "c", "\""];
    sequences(ctx, "surrogate-characters", &alpha, ctx.pick(7, 9), "\"\\ud8", &[0]);
    sequences(ctx, "surrogate-trail", &alpha, ctx.pick(7, 9), "\"\\ud83d\\", &[0]);

    edits(ctx, &[
        "\"\\ud83d\\ude0a\"", "\"\\uD83D\\uDE0A\"", "\"\\u00e9\\u00C9b\"", "\"\\udbffa\\uDFFF\"", "\"a\\n\\t\\\"\\/b\"", "\"\\\\u0041\" 1",
        "\"\\uDaAf\\udFfA\\uD800\\ud800\\udc00\"",
    ], "\"\\u/09:@AFG`afgdDcC8n \u{0}\u{e9}", &[0]);

    // Simple escapes: every ASCII character behind a backslash.
    ctx.explore("simple", 128 * 2, |i| format!("{:#x}", i), |i, c| {
        let pre = if i >= 128 { "\\ud800" } else { "" };
        let t: Vec<char> = format!("\"{}\\{}z\"", pre, (i % 128) as u8 as char).chars().collect();
        let ev = compare(&mut Tokenizer::new(), &t, 0, c)?;
        c.state(&ev);
        c.trace();
        Ok(())
    });
}

/// RFC 8259 number grammar, on its own.
fn rfc_number(t: &[char], flags: Flag) -> bool {
    let mut i = 0;
    let get = |i: usize| t.get(i).copied().unwrap_or('\0');
    if get(i) == '-' || (get(i) == '+' && flags & PLUS != 0) {
        i += 1;
    }
    let d = i;
    while get(i).is_ascii_digit() {
        i += 1;
    }
    if i == d || (get(d) == '0' && i > d + 1 && flags & ZERO == 0) {
        return false;
    }
    if get(i) == '.' {
        let d = i + 1;
        i = d;
        while get(i).is_ascii_digit() {
            i += 1;
        }
        if i == d {
            return false;
        }
    }
    if get(i) == 'e' || get(i) == 'E' {
        i += 1;
        if get(i) == '+' || get(i) == '-' {
            i += 1;
        }
        let d = i;
        while get(i).is_ascii_digit() {
            i += 1;
        }
        if i == d {
            return false;
        }
    }
    i == t.len()
}

pub fn j04(ctx: &Ctx) {
    let alpha = ['0', '1', '9', '.', 'e', 'E', '+', '-'];
    let k = alpha.len() as u64;
    let depth = ctx.pick(7, 9);
    ctx.bound(format!("all texts of up to {} characters out of {:?} under all 4 flag sets, followed by nothing, a comma, or a blank", depth, alpha));
    let text = |i: u64| -> Vec<char> { seq_at(k, i).iter().map(|v| alpha[*v]).collect() };
    ctx.explore("numbers", seq_total(k, depth), |i| show(&text(i)), |i, c| {
        let t = text(i);
        for f in ALL {
            let ev = compare(&mut Tokenizer::with_flags(real(*f)), &t, *f, c)?;
            let valid = rfc_number(&t, *f);
            let got = matches!(&ev[..], [Ev::T(Token::Number { raw, .. })] if raw.chars().eq(t.iter().copied()));
            ensure!(valid == got, "flags {}: valid number: {}, single number token: {}", f, valid, got);
            if valid {
                c.feature("valid numbers");
                // The decomposition denotes the same value.
                let [Ev::T(Token::Number { integer, fraction, exponent, integer_sign, exponent_sign, .. })] = &ev[..] else { unreachable!() };
                let dg = |v: &[u8]| v.iter().map(|d| (d + b'0') as char).collect::<String>();
                let s = format!(
                    "{}{}.{}e{}{}",
                    if *integer_sign == Sign::Minus { "-" } else { "" }, dg(integer),
                    if fraction.is_empty() { "0".into() } else { dg(fraction) },
                    if *exponent_sign == Sign::Minus { "-" } else { "" },
                    if exponent.is_empty() { "0".into() } else { dg(exponent) },
                );
                let a: f64 = s.parse().unwrap();
                let b: f64 = t.iter().collect::<String>().parse().unwrap();
                ensure!(a.to_bits() == b.to_bits(), "decomposition denotes {} instead of {}", a, b);
            } else {
                c.feature("invalid numbers");
            }
            c.state(&ev);
            c.trace();
            // Followed by something else.
            for x in [',', ' ', 'x'] {
                let mut u = t.clone();
                u.push(x);
                compare(&mut Tokenizer::with_flags(real(*f)), &u, *f, c)?;
            }
        }
        Ok(())
    });
    // All digits, and long runs.
    let lens = [1usize, 2, 10, 19, 20, 40, 400, 4096, 5000];
    ctx.explore("digits", 10 * 4 * lens.len() as u64, |i| format!("digit {} shape {} length {}", i % 10, i / 10 % 4, lens[i as usize / 40]), |i, c| {
        let d = (b'0' + (i % 10) as u8) as char;
        let run: String = core::iter::repeat_n(d, lens[i as usize / 40]).collect();
        let s = match i / 10 % 4 {
            0 => run,
            1 => format!("1.{}", run),
            2 => format!("-2e-{}", run),
            _ => format!("{}.{}E+{}", run, run, run),
        };
        let t: Vec<char> = s.chars().collect();
        for f in ALL {
            let ev = compare(&mut Tokenizer::with_flags(real(*f)), &t, *f, c)?;
            c.state(&ev);
            c.trace();
        }
        Ok(())
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("J01", j01),
        ("J02", j02),
        ("J03", j03),
        ("J04", j04),
    ])
}
