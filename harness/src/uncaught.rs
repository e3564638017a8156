//! Exploration of opaque errors that works with and without the standard
//! library in the code under test.

use crate::engine::*;
use crate::{ensure, expect_eq};
use core::fmt::Write as _;
use osi::error::Uncaught;
use std::rc::Rc;

/// Accepts a limited amount of text.
pub struct Limited(pub String, pub usize);

impl core::fmt::Write for Limited {
    fn write_str(&mut self, v: &str) -> core::fmt::Result {
        for c in v.chars() {
            if self.0.len() + c.len_utf8() > self.1 {
                return Err(core::fmt::Error);
            }
            self.0.push(c);
        }
        Ok(())
    }
}

/// An error with different output for each format. It holds a reference as long
/// as it is alive.
struct Leaf(String, #[allow(dead_code)] Rc<()>);

impl core::fmt::Debug for Leaf {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "debug<{}>", self.0)
    }
}

impl core::fmt::Display for Leaf {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "display<{}>", self.0)
    }
}

impl std::error::Error for Leaf {}

/// Ways to carry an error. Values that are never dropped are leaked.
const WAYS: u64 = 12;

macro_rules! carry {
    ($way:expr, $v:expr) => {{
        let v = $v;
        match $way {
            0 => Uncaught::fold_any(Box::new(v)),
            1 => Uncaught::box_any(v),
            2 => Uncaught::fold_static_any(Box::leak(Box::new(v))),
            3 => Uncaught::fold_debug(Box::new(v)),
            4 => Uncaught::box_debug(v),
            5 => Uncaught::fold_static_debug(Box::leak(Box::new(v))),
            6 => Uncaught::fold_display(Box::new(v)),
            7 => Uncaught::box_display(v),
            8 => Uncaught::fold_static_display(Box::leak(Box::new(v))),
            9 => Uncaught::fold_error(Box::new(v)),
            10 => Uncaught::box_error(v),
            _ => Uncaught::fold_static_error(Box::leak(Box::new(v))),
        }
    }};
}

/// Output of an error in debug and display format.
type Texts = (String, String);

/// The output of what carries an error with the given output. Errors are shown
/// in debug format as such if they are known to be errors, which requires the
/// standard library.
fn carried(way: usize, inner: &Texts, std: bool) -> Texts {
    let name = ["Any", "Any", "StaticAny", "Debug", "Debug", "StaticDebug", "Display", "Display", "StaticDisplay", "Error", "Error", "StaticError"][way];
    let (debug, display) = match way {
        0..=2 => return (format!("Uncaught::{}()", name), format!("Uncaught({})", name)),
        3..=5 => (&inner.0, &inner.0),
        6..=8 => (&inner.1, &inner.1),
        _ => (if std { &inner.0 } else { &inner.1 }, &inner.1),
    };
    (format!("Uncaught::{}({})", name, debug), format!("Uncaught({}): {}", name, display))
}

fn output(e: &Uncaught, want: &Texts, limits: bool, c: &mut Case) -> CaseResult {
    expect_eq!(&format!("{:?}", e), &want.0, "debug");
    expect_eq!(&format!("{}", e), &want.1, "display");
    expect_eq!(&e.to_string(), &want.1, "string");
    c.step(3);
    if limits {
        // Output that fails at any place is reported as such.
        for n in 0..=want.0.len() + 1 {
            let mut w = Limited(String::new(), n);
            expect_eq!(write!(w, "{:?}", e).is_ok(), n >= want.0.len(), "debug output limited to {}", n);
            ensure!(want.0.starts_with(&w.0), "partial debug output");
            c.step(1);
        }
        for n in 0..=want.1.len() + 1 {
            let mut w = Limited(String::new(), n);
            expect_eq!(write!(w, "{}", e).is_ok(), n >= want.1.len(), "display output limited to {}", n);
            ensure!(want.1.starts_with(&w.0), "partial display output");
            c.step(1);
        }
    }
    Ok(())
}

thread_local! {
    static SHOWN: core::cell::RefCell<Texts> = const { core::cell::RefCell::new((String::new(), String::new())) };
}

/// An error that shows a text chosen later.
struct Shown;

impl core::fmt::Debug for Shown {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        SHOWN.with_borrow(|v| f.write_str(&v.0))
    }
}

impl core::fmt::Display for Shown {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        SHOWN.with_borrow(|v| f.write_str(&v.1))
    }
}

impl std::error::Error for Shown {}

/// Errors that show any text.
fn texts(ctx: &Ctx, std: bool) {
    let one = |s: &str, c: &mut Case| -> CaseResult {
        for shown in [(s.to_string(), "x".to_string()), ("x".to_string(), s.to_string())] {
            SHOWN.set(shown.clone());
            for way in 0..WAYS as usize {
                output(&carry!(way, Shown), &carried(way, &shown, std), false, c)?;
            }
        }
        c.state(s);
        c.trace();
        Ok(())
    };
    ctx.bound("texts of all characters alone, at the start, at the end, and in the middle");
    ctx.explore("characters", 0x1100, |i| format!("characters from U+{:04X} on", i * 0x100), |i, c| {
        for ch in (i as u32 * 0x100..(i as u32 + 1) * 0x100).filter_map(char::from_u32) {
            for s in [format!("{ch}"), format!("{ch}x"), format!("x{ch}"), format!("x{ch}x")] {
                one(&s, c)?;
            }
        }
        Ok(())
    });
    let alphabet = ['\0', '\n', ' ', '"', ':', '(', ')', '{', '}', 'a', 'é', '\u{feff}'];
    let len = ctx.pick(4, 5);
    ctx.bound(format!("all texts of up to {} of {} characters", len, alphabet.len()));
    let text = |i: u64| seq_at(alphabet.len() as u64, i).into_iter().map(|v| alphabet[v]).collect::<String>();
    ctx.explore("texts", seq_total(alphabet.len() as u64, len), |i| format!("text {:?}", text(i)), |i, c| one(&text(i), c));
}

/// Errors that carry errors, up to the given depth.
pub fn nested(ctx: &Ctx, std: bool) {
    let depth = ctx.pick(4, 5);
    ctx.bound(format!("all chains of up to {} out of {} ways to carry an error, output that fails at all places", depth, WAYS));
    let drops = |way: &usize| !matches!(way, 2 | 5 | 8 | 11);
    ctx.explore("nested", WAYS * seq_total(WAYS, depth - 1), |i| {
        format!("{} then {:?}", i % WAYS, seq_at(WAYS, i / WAYS))
    }, |i, c| {
        let count = Rc::new(());
        let first = (i % WAYS) as usize;
        let rest = seq_at(WAYS, i / WAYS);
        let mut want = carried(first, &("debug<é \"x\">".into(), "display<é \"x\">".into()), std);
        let mut e = carry!(first, Leaf("é \"x\"".into(), Rc::clone(&count)));
        for way in &rest {
            e = carry!(way, e);
            want = carried(*way, &want, std);
        }
        output(&e, &want, rest.len() < 3, c)?;
        drop(e);
        let lives = !drops(&first) || !rest.iter().all(drops);
        expect_eq!(Rc::strong_count(&count), 1 + lives as usize, "references to the error after all is dropped");
        c.step(1);
        c.state(&want);
        c.trace();
        Ok(())
    });

    // Texts of all sizes.
    let sizes: Vec<usize> = (0..70).chain((7..=17).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1])).collect();
    let n = sizes.len() as u64;
    ctx.bound(format!("texts of {} sizes up to {}", n, sizes[n as usize - 1]));
    ctx.explore("sizes", WAYS * n, |i| format!("way {}, {} characters", i % WAYS, sizes[(i / WAYS) as usize]), |i, c| {
        let count = Rc::new(());
        let way = (i % WAYS) as usize;
        let size = sizes[(i / WAYS) as usize];
        for unit in ["a", "é", "{}", "\0"] {
            let text = unit.repeat(size);
            let want = carried(way, &(format!("debug<{}>", text), format!("display<{}>", text)), std);
            output(&carry!(way, Leaf(text, Rc::clone(&count))), &want, size < 70, c)?;
        }
        c.trace();
        Ok(())
    });
    texts(ctx, std);
}
