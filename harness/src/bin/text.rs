//! String helpers.

use mc::engine::*;
use mc::{ensure, expect_eq};
use core::cmp::Ordering;
use osi::str::{cmp_natural, symbolize};

fn corpus(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    // All strings up to a length over an alphabet with letters, ASCII digits,
    // punctuation, and non-ASCII numeric characters.
    let alpha = ['a', 'b', '0', '1', '2', '9', '-', '²', '٣'];
    let k = alpha.len() as u64;
    for i in 0..seq_total(k, ctx.pick(3, 4)) {
        v.push(seq_at(k, i).into_iter().map(|c| alpha[c]).collect());
    }
    // All strings of digits and one letter, one symbol longer.
    let alpha = ['a', '0', '1', '9'];
    for i in 0..seq_total(4, ctx.pick(5, 6)) {
        v.push(seq_at(4, i).into_iter().map(|c| alpha[c]).collect());
    }
    // Numbers around the limits of fixed-size integers, with and without
    // leading zeros, surrounded by text.
    let nums = [
        "0", "1", "2", "3", "9", "10", "99", "255", "256", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808",
        "18446744073709551614", "18446744073709551615", "18446744073709551616",
        "18446744073709551617", "20000000000000000000", "99999999999999999999",
        "100000000000000000000", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "999999999999999999999999999999999999999999",
    ];
    for n in nums {
        for z in ["", "0", "00", "0000000000000000000000"] {
            for p in ["", "a", "b", "-"] {
                for s in ["", "a", "²", "a1"] {
                    v.push(format!("{}{}{}{}", p, z, n, s));
                }
            }
        }
    }
    // Text of all sizes in UTF-8 and both cases.
    let alpha = ['a', 'B', 'é', '1', '漢', '\u{1F600}', ' '];
    for i in 0..seq_total(7, ctx.pick(3, 4)) {
        v.push(seq_at(7, i).into_iter().map(|c| alpha[c]).collect());
    }
    // Differences behind a long common beginning of any kind.
    for n in (1..20).chain([31, 32, 33, 39, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]) {
        for p in ["x", "1", "0", "x1", "é"] {
            for t in ["", "0", "1", "2", "10", "a", "b"] {
                v.push(p.repeat(n) + t);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Split into alternating text and number pieces.
fn pieces(s: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    let mut cur = (String::new(), String::new());
    for c in s.chars() {
        if c.is_numeric() {
            cur.1.push(c);
        } else {
            if !cur.1.is_empty() {
                v.push(core::mem::take(&mut cur));
            }
            cur.0.push(c);
        }
    }
    v.push(cur);
    v
}

/// What the natural order demands for a pair, if it demands anything: compare
/// piece by piece, text pieces by code point, numbers by value and then by
/// their text. Nothing is demanded if a number has characters that are not
/// decimal ASCII digits, except that a string follows all its prefixes.
fn demand(a: &[(String, String)], b: &[(String, String)]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        match x.0.cmp(&y.0) {
            Ordering::Equal => {},
            v => return Some(v),
        }
        if x.1 == y.1 {
            continue;
        }
        if x.1.is_empty() || y.1.is_empty() {
            return prefix(a, b);
        }
        let ascii = |v: &str| v.bytes().all(|c| c.is_ascii_digit());
        if !ascii(&x.1) || !ascii(&y.1) {
            return prefix(a, b);
        }
        let tx = x.1.trim_start_matches('0');
        let ty = y.1.trim_start_matches('0');
        let o = (tx.len(), tx).cmp(&(ty.len(), ty));
        return Some(o.then(x.1.cmp(&y.1)));
    }
    prefix(a, b)
}

/// Order strings if one is a prefix of the other.
fn prefix(a: &[(String, String)], b: &[(String, String)]) -> Option<Ordering> {
    let join = |v: &[(String, String)]| v.iter().flat_map(|v| [&v.0[..], &v.1[..]]).collect::<String>();
    let (a, b) = (join(a), join(b));
    if a == b {
        Some(Ordering::Equal)
    } else if b.starts_with(&a) {
        Some(Ordering::Less)
    } else if a.starts_with(&b) {
        Some(Ordering::Greater)
    } else {
        None
    }
}

/// Long runs which differ at the end or in length.
fn long_corpus(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for e in [8, 9, 10, 12, 16] {
        for n in [(1 << e) - 1, 1 << e, (1 << e) + 1] {
            for p in if e < 16 { &["x", "1", "0", "x1", "é"][..] } else { &["x", "1", "0"][..] } {
                for t in if e < 16 { &["", "0", "2", "a"][..] } else { &["", "2"][..] } {
                    v.push(p.repeat(n) + t);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn s01(ctx: &Ctx) {
    order(ctx, "", corpus(ctx));
    order(ctx, "long-", long_corpus(ctx));
    // All characters against their successor, and against the limits of all encodings.
    let limits = [
        '\0', '/', '0', '9', ':', 'A', 'a', 'z', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}',
        '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}',
    ];
    ctx.bound(format!("all characters, each with its successor and with {} others, in 6 places", limits.len()));
    ctx.explore("characters", 0x110000 / 256, |i| format!("characters from {:#x}", i * 256), |i, c| {
        for n in i as u32 * 256..(i as u32 + 1) * 256 {
            let Some(x) = char::from_u32(n) else {
                continue;
            };
            for y in char::from_u32(n + 1).iter().chain(&limits) {
                for (before, after) in [("", ""), ("a", ""), ("1", ""), ("", "a"), ("", "1"), ("é", "é")] {
                    let (a, b) = (format!("{}{}{}", before, x, after), format!("{}{}{}", before, y, after));
                    let (o, r) = (cmp_natural(&a, &b), cmp_natural(&b, &a));
                    ensure!(o == r.reverse(), "{:?} vs {:?}: {:?} but reversed {:?}", a, b, o, r);
                    ensure!((o == Ordering::Equal) == (x == *y), "{:?} vs {:?}: {:?}", a, b, o);
                    if let Some(d) = demand(&pieces(&a), &pieces(&b)) {
                        ensure!(o == d, "{:?} vs {:?}: observed {:?}, natural order is {:?}", a, b, o, d);
                    }
                    c.step(2);
                }
            }
            c.trace();
        }
        c.state(&i);
        Ok(())
    });
}

/// Abbreviate long strings.
fn brief(v: &str) -> String {
    if v.len() < 100 {
        format!("{:?}", v)
    } else {
        let head: String = v.chars().take(10).collect();
        let tail: String = v.chars().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{:?}..{:?} ({} bytes)", head, tail, v.len())
    }
}

fn order(ctx: &Ctx, name: &str, v: Vec<String>) {
    let p: Vec<_> = v.iter().map(|s| pieces(s)).collect();
    let n = v.len();
    ctx.bound(format!("all ordered pairs and, via row inclusion, all triples of {} strings", n));
    let words = (n + 63) / 64;
    // less[i] is the set of j with v[i] < v[j].
    let less: Vec<std::sync::Mutex<Vec<u64>>> = (0..n).map(|_| std::sync::Mutex::new(Vec::new())).collect();
    ctx.explore(&format!("{}pairs", name), n as u64, |i| format!("{} against all strings", brief(&v[i as usize])), |i, c| {
        let i = i as usize;
        let mut row = vec![0u64; words];
        for j in 0..n {
            let o = cmp_natural(&v[i], &v[j]);
            let r = cmp_natural(&v[j], &v[i]);
            ensure!(o == r.reverse(), "{} vs {}: {:?} but reversed {:?}", brief(&v[i]), brief(&v[j]), o, r);
            ensure!((o == Ordering::Equal) == (v[i] == v[j]), "{} vs {}: {:?}", brief(&v[i]), brief(&v[j]), o);
            if let Some(d) = demand(&p[i], &p[j]) {
                ensure!(o == d, "{} vs {}: observed {:?}, natural order is {:?}", brief(&v[i]), brief(&v[j]), o, d);
                c.feature("pair with a demanded order");
            }
            if o == Ordering::Less {
                row[j / 64] |= 1 << (j % 64);
            }
        }
        c.step(2 * n as u64);
        c.trace();
        c.state(&row);
        *less[i].lock().unwrap() = row;
        Ok(())
    });
    if ctx.replay.is_some() {
        // The relation is needed to replay a triple.
        for i in 0..n {
            let mut row = vec![0u64; words];
            for j in 0..n {
                if cmp_natural(&v[i], &v[j]) == Ordering::Less {
                    row[j / 64] |= 1 << (j % 64);
                }
            }
            *less[i].lock().unwrap() = row;
        }
    }
    if ctx.stopped() {
        return;
    }
    let rows: Vec<Vec<u64>> = less.into_iter().map(|v| v.into_inner().unwrap()).collect();
    ctx.explore(&format!("{}triples", name), n as u64, |i| format!("{} with all pairs", brief(&v[i as usize])), |i, c| {
        let i = i as usize;
        for j in 0..n {
            if rows[i][j / 64] >> (j % 64) & 1 == 0 {
                continue;
            }
            // i < j: everything above j must be above i.
            for w in 0..words {
                let bad = rows[j][w] & !rows[i][w];
                if bad != 0 {
                    let k = w * 64 + bad.trailing_zeros() as usize;
                    return Err(format!("not transitive: {} < {} < {}, but the first is not less than the last", brief(&v[i]), brief(&v[j]), brief(&v[k])).into());
                }
            }
            c.step(words as u64);
        }
        c.trace();
        Ok(())
    });
}

pub fn s02(ctx: &Ctx) {
    ctx.bound("every Unicode scalar value on its own, first, and last in a string");
    ctx.bound("every string up to the stated length over one representative per character class");
    let check = |s: &str, c: &mut Case| -> CaseResult {
        let r = symbolize(s);
        let prefix = s.chars().next().map(|v| v.is_numeric()).unwrap_or(true);
        let mut want = String::new();
        if prefix {
            want.push('_');
        }
        want.extend(s.chars().map(|v| if v.is_alphanumeric() { v } else { '_' }));
        expect_eq!(&r, &want, "symbol of {:?}", s);
        ensure!(!r.is_empty(), "empty symbol");
        ensure!(!r.chars().next().unwrap().is_numeric(), "starts with a number");
        expect_eq!(symbolize(&r), r, "symbol of a symbol");
        expect_eq!(osi::str::some(s), if s.is_empty() { None } else { Some(s) }, "some()");
        c.step(3);
        c.trace();
        Ok(())
    };
    ctx.explore("scalars", 0x1100, |i| format!("U+{:04X}..U+{:04X}", i * 256, i * 256 + 255), |i, c| {
        for u in i * 256..i * 256 + 256 {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            c.state(&u);
            check(&ch.to_string(), c)?;
            check(&format!("{}a", ch), c)?;
            check(&format!("a{}", ch), c)?;
        }
        Ok(())
    });
    let alpha = ['a', 'Z', '0', '_', '-', ' ', 'é', '²', '٣', '漢', '\u{301}', '\u{1F600}', '\0'];
    let k = alpha.len() as u64;
    let text = |i: u64| -> String { seq_at(k, i).into_iter().map(|c| alpha[c]).collect() };
    ctx.explore("strings", seq_total(k, ctx.pick(4, 5)), |i| format!("{:?}", text(i)), |i, c| {
        let s = text(i);
        c.state(&s);
        check(&s, c)
    });
    // Long strings that differ at one place.
    let sizes: Vec<usize> = (0..600).chain((10..=17).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + 2])).collect();
    ctx.explore("long", sizes.len() as u64 * 13, |i| format!("{:?} in {} characters", alpha[i as usize % 13], sizes[i as usize / 13]), |i, c| {
        let n = sizes[i as usize / 13];
        let mut s = "a".repeat(n / 2);
        s.push(alpha[i as usize % 13]);
        s.push_str(&"é9".repeat(n / 2));
        c.state(&s);
        check(&s, c)?;
        if n < 300 || n > 600 {
            check(&alpha[i as usize % 13].to_string().repeat(n), c)?;
        }
        Ok(())
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("S01", s01),
        ("S02", s02),
    ])
}
