//! Guarantees of the type system: variance, auto traits, borrows, and brands,
//! as well as conditional compilation. All small programs up to a bound are
//! compiled against the code under test.

use mc::engine::*;
use mc::{ensure, expect_eq};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;

/// Results of a compilation: errors of each program, by number.
struct Batch {
    errors: BTreeMap<usize, String>,
    output: Vec<String>,
}

impl Batch {
    fn ok(&self, i: usize) -> bool {
        !self.errors.contains_key(&i)
    }

    fn why(&self, i: usize) -> &str {
        self.errors.get(&i).map(|v| v.as_str()).unwrap_or("it compiles")
    }
}

/// Compile programs of a single line each, and optionally run the result.
fn compile(name: &str, prelude: &[&str], programs: &[String], run: bool) -> Batch {
    compile_with(name, prelude, programs, run, &[])
}

/// Compile programs with further flags for the compiler.
fn compile_with(name: &str, prelude: &[&str], programs: &[String], run: bool, flags: &[&str]) -> Batch {
    let base = std::env::var("VERIF_BASE").unwrap_or_else(|_| "/verif".into());
    let dir = PathBuf::from(base).join("target").join("types").join(name);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[workspace]\n[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nosi = {{ path = \"/repo/lib/osi\", features = [\"std\"] }}\n",
            name
        ),
    )
    .unwrap();
    let mut text = String::from("#![allow(warnings)]\n");
    for l in prelude {
        assert!(!l.contains('\n'));
        text += l;
        text += "\n";
    }
    let first = text.lines().count() + 1;
    for l in programs {
        assert!(!l.contains('\n'));
        text += l;
        text += "\n";
    }
    if run {
        text += "fn main() { emit(); }\n";
        text += "fn emit() {\n";
        for i in 0..programs.len() {
            text += &format!("println!(\"{{}}\", p{}::R);\n", i);
        }
        text += "}\n";
    }
    let main = dir.join("src").join(if run { "main.rs" } else { "lib.rs" });
    // Make sure the file is newer than anything built before.
    let _ = std::fs::remove_file(&main);
    std::fs::write(&main, text).unwrap();
    let out = Command::new("cargo")
        .args([if run { "run" } else { "check" }, "--offline", "--quiet", "--message-format=short", "--color=never"])
        .arg("--manifest-path")
        .arg(dir.join("Cargo.toml"))
        .arg("--target-dir")
        .arg(dir.parent().unwrap().join("target"))
        .env_remove("CARGO_TARGET_DIR")
        .envs(if flags.is_empty() { None } else {
            // Pass the flags to this crate only.
            let me = std::env::current_exe().unwrap();
            Some([("RUSTC_WORKSPACE_WRAPPER", me.into_os_string()), ("MC_RUSTC_FLAGS", flags.join(" ").into())])
        }.into_iter().flatten())
        .output()
        .expect("cargo does not start");
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    let mut r = Batch { errors: BTreeMap::new(), output: Vec::new() };
    let mut other = Vec::new();
    for l in stderr.lines() {
        let Some(at) = l.find(": error") else {
            continue;
        };
        let mut w = l[..at].rsplitn(3, ':');
        let _col = w.next();
        let line = w.next().and_then(|v| v.parse::<usize>().ok());
        let file = w.next().unwrap_or("");
        match line {
            Some(n) if file.ends_with(&format!("src/{}", if run { "main.rs" } else { "lib.rs" })) && n >= first && n < first + programs.len() => {
                r.errors.entry(n - first).or_insert_with(|| l[at + 2..].to_string());
            },
            _ => other.push(l.to_string()),
        }
    }
    // A program that dies leaves its output incomplete.
    let died = run && !stderr.lines().any(|l| l.starts_with("error"));
    if !out.status.success() && !died && r.errors.is_empty() {
        if other.is_empty() {
            eprintln!("{}", stderr);
            panic!("compilation failed");
        }
        // The failure is somewhere else, but these programs made it happen.
        for i in 0..programs.len() {
            r.errors.insert(i, other[0].clone());
        }
    }
    r.output = String::from_utf8_lossy(&out.stdout).lines().map(|v| v.to_string()).collect();
    r
}

// V01

/// Type constructors with a type parameter and their variance.
const WRAP: &[(&str, &str, i32)] = &[
    // Controls
    ("*const ", "", 1),
    ("fn(", ")", -1),
    ("std::cell::Cell<", ">", 0),
    // Code under test
    ("osi::test::CovariantType<", ">", 1),
    ("osi::test::ContravariantType<", ">", -1),
    ("osi::test::InvariantType<", ">", 0),
    ("osi::marker::PhantomInvariant<", ">", 0),
    ("osi::ptr::OnceRef<'c, ", ">", 0),
    ("osi::ptr::Ptr<'c, ", ">", 0),
    ("osi::ptr::NonNull4<", ">", 1),
    ("osi::cmp::Identity<", ">", 1),
    ("osi::ffi::Packed<", ">", 1),
];

/// Types with a lifetime parameter and their variance.
const LEAF: &[(&str, &str, i32)] = &[
    ("&", " u8", 1),
    ("fn(&", " u8)", -1),
    ("osi::marker::PhantomInvariantLifetime<", ">", 0),
    ("osi::brand::Id<", ">", 0),
    ("osi::brand::Unique<", ">", 0),
    ("osi::ptr::Ptr<", ", u8>", 1),
    ("osi::ptr::OnceRef<", ", u8>", 1),
    ("osi::mown::Mown<", ", u8, u8>", 1),
];

fn nested(wraps: &[usize], leaf: usize, life: &str) -> String {
    let mut s = format!("{}{}{}", LEAF[leaf].0, life, LEAF[leaf].1);
    for w in wraps.iter().rev() {
        s = format!("{}{}{}", WRAP[*w].0, s, WRAP[*w].1);
    }
    s
}

pub fn v01(ctx: &Ctx) {
    let depth = ctx.pick(2, 3);
    ctx.bound(format!(
        "all types nested up to {} of {} constructors around {} types with a lifetime, conversion to a longer and a shorter lifetime",
        depth, WRAP.len(), LEAF.len()
    ));
    let k = WRAP.len() as u64;
    let n = seq_total(k, depth);
    let l = LEAF.len() as u64;
    let total = n * l * 2;
    let parts = |i: u64| {
        let m = mixed(i, &[2, l, n]);
        (m[0] == 1, m[1] as usize, seq_at(k, m[2]))
    };
    let programs: Vec<String> = (0..total)
        .map(|i| {
            let (up, leaf, wraps) = parts(i);
            let (from, to) = if up { ("'a", "'b") } else { ("'b", "'a") };
            format!(
                "fn p{}<'a: 'c, 'b: 'a, 'c>(_: &'c (), _: &'a &'b (), v: {}) -> {} {{ v }}",
                i, nested(&wraps, leaf, from), nested(&wraps, leaf, to)
            )
        })
        .collect();
    let b = compile("variance", &[], &programs, false);
    ctx.explore("nested", total, |i| programs[i as usize].clone(), |i, c| {
        let (up, leaf, wraps) = parts(i);
        let sign = wraps.iter().map(|v| WRAP[*v].2).product::<i32>() * LEAF[leaf].2;
        let want = sign == if up { -1 } else { 1 };
        let what = if up { "longer" } else { "shorter" };
        expect_eq!(
            b.ok(i as usize), want,
            "conversion of {} to a {} lifetime ({})", nested(&wraps, leaf, "'_"), what, b.why(i as usize)
        );
        c.step(1);
        c.state(&(&wraps, leaf));
        c.trace();
        c.feature(if want { "accepted" } else { "rejected" });
        Ok(())
    });
    // The pair of types that are explicitly related.
    let n = seq_total(k, ctx.pick(3, 3));
    let programs: Vec<String> = (0..n * 2)
        .map(|i| {
            let wraps = seq_at(k, i / 2);
            let names = ["osi::test::SubType", "osi::test::SuperType"];
            let (from, to) = if i % 2 == 1 { (names[1], names[0]) } else { (names[0], names[1]) };
            let t = |s: &str| {
                let mut s = s.to_string();
                for w in wraps.iter().rev() {
                    s = format!("{}{}{}", WRAP[*w].0, s, WRAP[*w].1);
                }
                s
            };
            format!("fn p{}<'c>(_: &'c (), v: {}) -> {} {{ v }}", i, t(from), t(to))
        })
        .collect();
    let b = compile("subtypes", &[], &programs, false);
    ctx.explore("subtypes", n * 2, |i| programs[i as usize].clone(), |i, c| {
        let sign = seq_at(k, i / 2).iter().map(|v| WRAP[*v].2).product::<i32>();
        let want = sign == if i % 2 == 1 { -1 } else { 1 };
        expect_eq!(b.ok(i as usize), want, "conversion ({})", b.why(i as usize));
        c.step(1);
        c.state(&(0, i / 2));
        c.trace();
        Ok(())
    });
}

// V02

/// What a type implements.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Caps {
    send: bool,
    sync: bool,
    copy: bool,
    clone: bool,
}

/// Types with known traits.
const BASE: &[(&str, Caps)] = &[
    ("u8", Caps { send: true, sync: true, copy: true, clone: true }),
    ("std::cell::Cell<u8>", Caps { send: true, sync: false, copy: false, clone: true }),
    ("Shared", Caps { send: false, sync: true, copy: true, clone: true }),
    ("*const u8", Caps { send: false, sync: false, copy: true, clone: true }),
    ("std::rc::Rc<u8>", Caps { send: false, sync: false, copy: false, clone: true }),
    ("NoClone", Caps { send: true, sync: true, copy: false, clone: false }),
    ("osi::brand::Id<'static>", Caps { send: true, sync: true, copy: true, clone: true }),
    ("osi::brand::Unique<'static>", Caps { send: true, sync: true, copy: false, clone: false }),
    ("osi::marker::PhantomInvariantLifetime<'static>", Caps { send: true, sync: true, copy: true, clone: true }),
];

const CONS: &[(&str, &str)] = &[
    ("&'static ", ""),
    ("std::boxed::Box<", ">"),
    ("osi::ptr::Ptr<'static, ", ">"),
    ("osi::ptr::OnceRef<'static, ", ">"),
    ("osi::marker::PhantomInvariant<", ">"),
    ("osi::ptr::NonNull4<", ">"),
    ("osi::cmp::Identity<", ">"),
    ("osi::mown::Mown<'static, u8, ", ">"),
];

/// Traits of a type from those of its parameter.
fn caps(cons: usize, t: Caps) -> Caps {
    match cons {
        // A reference needs shared access only.
        0 => Caps { send: t.sync, sync: t.sync, copy: true, clone: true },
        1 => Caps { copy: false, ..t },
        // These allow both shared and exclusive access.
        2 => Caps { send: t.send && t.sync, sync: t.sync, copy: true, clone: true },
        // There is never more than one.
        3 => Caps { send: t.send && t.sync, sync: t.sync, copy: false, clone: false },
        // There is no value.
        4 => Caps { send: true, sync: true, copy: true, clone: true },
        // A raw pointer.
        5 => Caps { send: false, sync: false, ..t },
        6 => t,
        // Either a reference to a number, or the value.
        _ => Caps { copy: false, ..t },
    }
}

pub fn v02(ctx: &Ctx) {
    let depth = ctx.pick(2, 3);
    let k = CONS.len() as u64;
    let n = seq_total(k, depth);
    let base = BASE.len() as u64;
    ctx.bound(format!("all types nested up to {} of {} constructors around {} types, and {} traits", depth, k, base, 4));
    let total = n * base * 4;
    let parts = |i: u64| {
        let m = mixed(i, &[4, base, n]);
        (m[0] as usize, m[1] as usize, seq_at(k, m[2]))
    };
    let name = |leaf: usize, cons: &[usize]| {
        let mut s = BASE[leaf].0.to_string();
        for w in cons.iter().rev() {
            s = format!("{}{}{}", CONS[*w].0, s, CONS[*w].1);
        }
        s
    };
    let programs: Vec<String> = (0..total)
        .map(|i| {
            let (t, leaf, cons) = parts(i);
            format!("fn p{}() {{ {}::<{}>() }}", i, ["send", "sync", "copy", "clone"][t], name(leaf, &cons))
        })
        .collect();
    let prelude = [
        "fn send<T: Send>() {} fn sync<T: Sync>() {} fn copy<T: Copy>() {} fn clone<T: Clone>() {}",
        "#[derive(Clone, Copy)] struct Shared(*const u8); unsafe impl Sync for Shared {}",
        "struct NoClone;",
    ];
    let b = compile("traits", &prelude, &programs, false);
    ctx.explore("nested", total, |i| programs[i as usize].clone(), |i, c| {
        let (t, leaf, cons) = parts(i);
        let mut v = BASE[leaf].1;
        for w in cons.iter().rev() {
            v = caps(*w, v);
        }
        let want = [v.send, v.sync, v.copy, v.clone][t];
        // Copies of a raw pointer could be made available in more cases.
        if t >= 2 && !want && cons.contains(&5) {
            return Ok(());
        }
        expect_eq!(
            b.ok(i as usize), want,
            "{} for {} ({})", ["Send", "Sync", "Copy", "Clone"][t], name(leaf, &cons), b.why(i as usize)
        );
        c.step(1);
        c.state(&(leaf, &cons));
        c.trace();
        c.feature(if want { "implemented" } else { "not implemented" });
        Ok(())
    });
}

// V03

/// Statements of programs on a reference that exists only once. A program is
/// accepted if the model finds no conflict.
const STMT: &[&str] = &[
    "r = o.as_ref();",
    "r = &*o;",
    "w = unsafe { o.as_mut() };",
    "see(r);",
    "change(w);",
    "own(o);",
    "full(o.into_ref());",
    "see(&*o);",
];

/// Whether a program is accepted.
fn accepted(ops: &[usize]) -> bool {
    // A borrow is live if its variable is used later, before it is assigned.
    let live = |from: usize, var: usize| -> bool {
        for op in &ops[from..] {
            match (var, *op) {
                (0, 3) | (1, 4) => return true,
                (0, 0) | (0, 1) | (1, 2) => return false,
                _ => {},
            }
        }
        false
    };
    let mut moved = false;
    let (mut r, mut w) = (false, false);
    for (i, op) in ops.iter().enumerate() {
        match op {
            // Uses of variables that were never assigned.
            3 if !r => return false,
            4 if !w => return false,
            3 | 4 => {},
            _ => {
                if moved {
                    return false;
                }
                let (lr, lw) = (r && live(i + 1, 0), w && live(i + 1, 1));
                match op {
                    0 | 1 | 7 => {
                        if lw {
                            return false;
                        }
                        r |= *op != 7;
                    },
                    2 => {
                        if lr {
                            return false;
                        }
                        w = true;
                    },
                    _ => {
                        if lr || lw {
                            return false;
                        }
                        moved = true;
                    },
                }
            },
        }
    }
    true
}

pub fn v03(ctx: &Ctx) {
    let len = ctx.pick(4, 5);
    let k = STMT.len() as u64;
    let n = seq_total(k, len);
    ctx.bound(format!(
        "all programs of up to {} statements of {} on a unique reference; all pairs of brands in up to 4 nested scopes with all ways to combine them",
        len, k
    ));
    // Assign and use of variables that stay unassigned on some path is an error on its own.
    let programs: Vec<String> = (0..n)
        .map(|i| {
            let s: Vec<&str> = seq_at(k, i).into_iter().map(|v| STMT[v]).collect();
            format!("fn p{}(mut o: osi::ptr::OnceRef<'static, u8>) {{ let mut r: &u8; let mut w: &mut u8; {} }}", i, s.join(" "))
        })
        .collect();
    let prelude = [
        "fn see(v: &u8) {} fn change(v: &mut u8) {} fn own<T>(v: T) {} fn full(v: &'static u8) {}",
    ];
    let b = compile("borrows", &prelude, &programs, false);
    ctx.explore("borrows", n, |i| programs[i as usize].clone(), |i, c| {
        let ops = seq_at(k, i);
        let want = accepted(&ops);
        expect_eq!(b.ok(i as usize), want, "program is accepted ({})", b.why(i as usize));
        c.step(ops.len() as u64);
        c.state(&ops);
        c.trace();
        c.feature(if want { "accepted" } else { "rejected" });
        Ok(())
    });
    // Brands: scopes are nested, then two brands are combined in some way.
    const USE: &[&str] = &[
        "same(I0, I1);",
        "let mut v = vec![I0]; v.push(I1);",
        "let mut v = I0; v = I1;",
        "let v = if choose() { I0 } else { I1 };",
        "let v = [I0, I1];",
        "assert!(I0 == I1);",
        "let v: Result<osi::brand::Id<'_>, osi::brand::Id<'_>> = Ok(I0); let mut w = v.unwrap(); w = I1;",
        "let f = |v| same(I0, v); f(I1);",
        "let c = std::cell::Cell::new(I0); c.set(I1);",
        "takes(&U0, I1);",
    ];
    let mut programs = Vec::new();
    let mut want = Vec::new();
    for depth in 1..=4usize {
        for i in 0..depth {
            for j in 0..depth {
                for u in USE {
                    let mut s = format!("fn p{}() {{", programs.len());
                    for d in 0..depth {
                        s += &format!(" osi::brand::unique(|u{}| {{ let i{}: osi::brand::Id<'_> = unsafe {{ id(&u{}) }};", d, d, d);
                    }
                    s += &format!(" {}", u.replace("I0", &format!("i{}", i)).replace("I1", &format!("i{}", j)).replace("U0", &format!("u{}", i)));
                    for _ in 0..depth {
                        s += " });";
                    }
                    s += " }";
                    programs.push(s);
                    want.push(i == j);
                }
            }
        }
    }
    // Brands that leave their scope.
    let escapes = [
        "osi::brand::unique(|u| u);",
        "osi::brand::unique(|u| osi::brand::Id::from(u));",
        "let mut v = None; osi::brand::unique(|u| { v = Some(u); });",
        "let mut v = Vec::new(); osi::brand::unique(|u| { v.push(osi::brand::Id::from(u)); });",
        "osi::brand::unique(|u| fixed(osi::brand::Id::from(u)));",
        "osi::brand::unique(|u| Box::new(osi::brand::Id::from(u)));",
        // Cannot be forged or duplicated.
        "osi::brand::unique(|u| { let v = u.clone(); });",
        "osi::brand::unique(|u| { let v = u; let w = u; });",
        "osi::brand::unique(|u| { let v = osi::brand::Id::from(u); let w = osi::brand::Id::from(u); });",
        "let v: osi::brand::Id<'static> = Default::default();",
        "let v: osi::brand::Unique<'static> = Default::default();",
        "let v = osi::brand::Id::<'static> { _brand: Default::default() };",
    ];
    for e in escapes {
        programs.push(format!("fn p{}() {{ {} }}", programs.len(), e));
        want.push(false);
    }
    let fine = [
        "osi::brand::unique(|u| { let v = osi::brand::Id::from(u); let w = v; let x = v; same(w, x); });",
        "let v: u32 = osi::brand::unique(|u| 71);",
        "let s = String::from(\"x\"); let t: &str = osi::brand::unique(|u| s.as_str());",
        "osi::brand::unique(|u| takes(&u, unsafe { id(&u) }));",
    ];
    for e in fine {
        programs.push(format!("fn p{}() {{ {} }}", programs.len(), e));
        want.push(true);
    }
    let prelude = [
        "fn same<'a>(a: osi::brand::Id<'a>, b: osi::brand::Id<'a>) {}",
        "fn takes<'a>(a: &osi::brand::Unique<'a>, b: osi::brand::Id<'a>) {}",
        "fn fixed(a: osi::brand::Id<'static>) {}",
        "fn choose() -> bool { true }",
        "unsafe fn id<'a>(v: &osi::brand::Unique<'a>) -> osi::brand::Id<'a> { unsafe { std::mem::transmute_copy(v) } }",
    ];
    // Errors of names and types hide errors of borrows, hence check separately.
    let cut = programs.len() - escapes.len() - fine.len();
    let b0 = compile("brands", &prelude, &programs[..cut], false);
    let b1: Vec<Batch> = programs[cut..]
        .iter()
        .enumerate()
        .map(|(i, p)| compile(&format!("brand{}", i), &prelude, core::slice::from_ref(p), false))
        .collect();
    ctx.explore("brands", programs.len() as u64, |i| programs[i as usize].clone(), |i, c| {
        let i = i as usize;
        let (ok, why) = if i < cut { (b0.ok(i), b0.why(i)) } else { (b1[i - cut].ok(0), b1[i - cut].why(0)) };
        expect_eq!(ok, want[i], "program is accepted ({})", why);
        c.step(1);
        c.state(&(1, i));
        c.trace();
        Ok(())
    });
}

// X01

/// Conditions and whether they hold.
const COND: &[(&str, bool)] = &[
    ("all()", true),
    ("any()", false),
    ("not(any())", true),
    ("target_os = \"none-such\"", false),
    ("any(unix, windows)", true),
];

pub fn x01(ctx: &Ctx) {
    let len = ctx.pick(4, 5);
    let k = COND.len() as u64;
    let n = seq_total(k, len);
    let few = len - 1;
    ctx.bound(format!("all lists of 1 to {} conditions of {}, with and without alternative, as items and statements; all lists of up to {} with and without code in each branch", len, k, few));
    // The empty list is not valid.
    let plain = (n - 1) * 4;
    let some = (seq_total(2 * k, few) - 1) * 8;
    let total = plain + some;
    // The conditions, which branches have code, the alternative, and the kind.
    let parts = |i: u64| -> (Vec<usize>, Vec<bool>, Option<bool>, bool) {
        if i < plain {
            let list = seq_at(k, i / 4 + 1);
            let code = vec![true; list.len()];
            return (list, code, (i & 1 != 0).then_some(true), i & 2 != 0);
        }
        let i = i - plain;
        let list = seq_at(2 * k, i / 8 + 1);
        let code = list.iter().map(|v| *v < k as usize).collect();
        let list = list.iter().map(|v| v % k as usize).collect();
        (list, code, (i & 1 != 0).then_some(i & 4 != 0), i & 2 != 0)
    };
    let programs: Vec<String> = (0..total)
        .map(|i| {
            let (list, code, alt, stmt) = parts(i);
            let mut s = String::from("osi::cfg::cond! {");
            // Each block has several items.
            let block = |v: i64| if stmt {
                format!("r += {}; n += 1;", v)
            } else {
                format!("pub const V: i64 = {}; pub const W: i64 = {};", v, v * 10)
            };
            for (j, v) in list.iter().enumerate() {
                s += &format!(" ({}) {{ {} }},", COND[*v].0, if code[j] { block(j as i64 + 1) } else { String::new() });
            }
            if let Some(code) = alt {
                s += &format!(" {{ {} }},", if code { block(100) } else { String::new() });
            }
            s += " }";
            if stmt {
                format!("mod p{} {{ const fn f() -> i64 {{ let mut r = 0i64; let mut n = 0; {} if n > 1 {{ -1 }} else {{ r * 11 }} }} pub const R: i64 = f(); }}", i, s)
            } else {
                format!("mod p{} {{ use super::none::*; {} pub const R: i64 = V + W; }}", i, s)
            }
        })
        .collect();
    let b = compile("cond", &["mod none { pub const V: i64 = 0; pub const W: i64 = 0; }"], &programs, true);
    ctx.explore("lists", total, |i| programs[i as usize].clone(), |i, c| {
        let (list, code, alt, _) = parts(i);
        ensure!(b.ok(i as usize), "program does not compile: {}", b.why(i as usize));
        let Some(got) = b.output.get(i as usize) else {
            // Other programs did not compile.
            return Ok(());
        };
        let want = match list.iter().position(|v| COND[*v].1) {
            Some(v) => if code[v] { v as i64 + 1 } else { 0 },
            None if alt == Some(true) => 100,
            None => 0,
        };
        expect_eq!(got.as_str(), (want * 11).to_string(), "selected blocks");
        c.step(list.len() as u64);
        c.state(&(want, alt, list.len(), code));
        c.trace();
        Ok(())
    });
}

// V04

/// Types and values of them.
const VALUE: &[(&str, &str)] = &[
    ("u8", "7u8"),
    ("()", "()"),
    ("String", "String::from(\"text\")"),
    ("&'static str", "\"static\""),
    ("[u16; 3]", "[1u16, 2, 3]"),
    ("f64", "0.5f64"),
];

/// Types made of other types, and values of them.
const MADE: &[(&str, &str)] = &[
    ("Option<@>", "Some(@)"),
    ("Box<@>", "Box::new(@)"),
    ("(@, u8)", "(@, 9u8)"),
    ("Vec<@>", "vec![@, @]"),
    ("Result<@, String>", "Ok(@)"),
    ("Loud<@>", "Loud(@)"),
];

fn value(made: &[usize], leaf: usize) -> (String, String) {
    let (mut t, mut v) = (VALUE[leaf].0.to_string(), VALUE[leaf].1.to_string());
    for m in made.iter().rev() {
        t = MADE[*m].0.replace('@', &t);
        v = MADE[*m].1.replace('@', &v);
    }
    (t, v)
}

pub fn v04(ctx: &Ctx) {
    let k = MADE.len() as u64;
    let deep = ctx.pick(2, 3);
    let n = seq_total(k, deep) * VALUE.len() as u64;
    let all: Vec<(String, String)> = (0..n).map(|i| {
        value(&seq_at(k, i / VALUE.len() as u64), (i % VALUE.len() as u64) as usize)
    }).collect();
    ctx.bound(format!("{} types of up to {} layers, in 8 programs with the never type, in 8 programs with forced coercions, in 7 of them with the coercions checked, and in 7 programs to be rejected", n, deep));
    let prelude = [
        "use osi::never::Never; use osi::polonius::coerce_unsafe;",
        "pub struct Run(pub fn() -> String); impl std::fmt::Display for Run { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&(self.0)()) } }",
        // Counts how often a value was dropped.
        "pub static DROPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);",
        "#[derive(Debug, PartialEq)] pub struct Loud<T>(pub T); impl<T> Drop for Loud<T> { fn drop(&mut self) { DROPS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }",
        "pub fn drops(f: impl FnOnce()) -> usize { let n = DROPS.load(std::sync::atomic::Ordering::SeqCst); f(); DROPS.load(std::sync::atomic::Ordering::SeqCst) - n }",
    ];

    // Programs that run, and have to print the same with a plain expression.
    let never = [
        // A result without an error.
        "fn g(r: Result<T, Never>) -> T { match r { Ok(v) => v, Err(v) => v } } fn f() -> String { format!(\"{:?}\", g(Ok(V)) == V) }",
        "fn g(r: Result<T, Never>) -> T { let Ok(v) = r; v } fn f() -> String { format!(\"{:?}\", g(Ok(V)) == V) }",
        "fn g(r: Result<Never, T>) -> T { let Err(v) = r; v } fn f() -> String { format!(\"{:?}\", g(Err(V)) == V) }",
        // It stands for any type.
        "fn g(v: Option<Never>) -> T { match v { Some(v) => v, None => V } } fn f() -> String { format!(\"{:?}\", g(None) == V) }",
        "fn g(v: Never) -> T { v } fn f() -> String { let v: fn(Never) -> T = g; (v == g as fn(Never) -> T).to_string() }",
        // It is the type of the compiler.
        "fn g(v: fn(T) -> !) -> fn(T) -> Never { v } fn h(v: fn(T) -> Never) -> fn(T) -> ! { v } fn f() -> String { let x: fn(T) -> ! = |_| panic!(); (h(g(x)) == x).to_string() }",
        // It takes no room.
        "fn f() -> String { (size_of::<Result<T, Never>>() == size_of::<T>() && size_of::<Never>() == 0 && size_of::<Option<Never>>() == 0 && align_of::<Never>() == 1).to_string() }",
        "fn g<X: Copy + Ord + std::hash::Hash + std::fmt::Debug + std::fmt::Display + Send + Sync + Unpin + 'static>() {} fn f() -> String { g::<Never>(); let v: Vec<(T, Never)> = Vec::new(); v.is_empty().to_string() }",
    ];
    let coerce = [
        // The value itself, evaluated once, dropped once.
        "fn f() -> String { let mut n = 0; let v: T = unsafe { coerce_unsafe!(T, T, { n += 1; V }) }; (v == V && n == 1).to_string() }",
        "fn f() -> String { let a = drops(|| { let v: T = V; }); let b = drops(|| { let v: T = unsafe { coerce_unsafe!(T, T, V) }; }); (a == b).to_string() }",
        // References.
        "fn f() -> String { let x: T = V; let v: &T = unsafe { coerce_unsafe!(&'_ T, &'_ T, &x) }; (std::ptr::eq(v, &x) && *v == V).to_string() }",
        "fn f() -> String { let mut x: T = V; let p: *const T = &x; let v: &T = unsafe { coerce_unsafe!(&mut T, &T, &mut x) }; (std::ptr::eq(v, p) && *v == V).to_string() }",
        "fn f() -> String { let mut x: T = V; let p: *const T = &x; let v: &mut T = unsafe { coerce_unsafe!(&mut T, &mut T, &mut x) }; *v = V; (std::ptr::eq(v, p)).to_string() }",
        // Names in the expression are those of the caller.
        "fn f() -> String { let from = (V, 1); let to = (V, 2); let v: T = unsafe { coerce_unsafe!(T, T, if from.1 + 1 == to.1 { from.0 } else { to.0 }) }; (v == V).to_string() }",
        // As part of other expressions.
        "fn g(v: T, w: T) -> bool { v == w } fn f() -> String { unsafe { g(coerce_unsafe!(T, T, coerce_unsafe!(T, T, V)), coerce_unsafe!(T, T, V)) }.to_string() }",
        // A borrow that only lasts if it is returned.
        "fn get<'a>(v: &'a mut (u16, T)) -> Option<&'a T> { if v.0 == 0 { Some(&v.1) } else { v.0 -= 1; None } } fn g<'a>(v: &'a mut (u16, T)) -> &'a T { loop { let Some(r) = get(v) else { continue; }; break unsafe { coerce_unsafe!(&'_ T, &'a T, r) }; } } fn f() -> String { (0..8).all(|n| { let mut x = (n, V); let p: *const T = &x.1; let v = g(&mut x); std::ptr::eq(v, p) && *v == V && x.0 == 0 }).to_string() }",
    ];
    // The last program needs a compiler that does not exist yet, if checked.
    let checked = coerce.len() - 1;
    let text = |set: &[&str], i: u64| -> String {
        let (t, v) = &all[(i / set.len() as u64) as usize];
        let p = set[(i % set.len() as u64) as usize];
        // Types and values are single letters in the templates.
        let mut s = String::new();
        let b: Vec<char> = p.chars().collect();
        for j in 0..b.len() {
            let word = |k: usize| b.get(k).is_some_and(|c| c.is_alphanumeric() || *c == '_');
            let alone = (j == 0 || !word(j - 1)) && !word(j + 1);
            match b[j] {
                'T' if alone => s += t,
                'V' if alone => s += v,
                c => s.push(c),
            }
        }
        format!("mod p{} {{ use super::*; {} pub const R: Run = Run(f); }}", i, s)
    };
    for (name, set, flags) in [("never", &never[..], &[][..]), ("coerce", &coerce[..], &[]), ("coerce-checked", &coerce[..checked], &["--cfg", "polonius"])] {
        let total = n * set.len() as u64;
        let programs: Vec<String> = (0..total).map(|i| text(set, i)).collect();
        let b = compile_with(name, &prelude, &programs, true, flags);
        ctx.explore(name, total, |i| programs[i as usize].clone(), |i, c| {
            ensure!(b.ok(i as usize), "program does not compile: {}", b.why(i as usize));
            let Some(got) = b.output.get(i as usize) else {
                ensure!(!b.errors.is_empty(), "program does not run to its end");
                return Ok(());
            };
            expect_eq!(got.as_str(), "true", "result of the program");
            c.step(1);
            c.state(&(name, i));
            c.trace();
            Ok(())
        });
    }

    // Programs that must be rejected.
    let reject = [
        "fn f(v: T) -> T { coerce_unsafe!(T, T, v) }",
        "fn f(v: &T) -> &T { coerce_unsafe!(&T, &T, v) }",
        "fn f(v: Other) -> T { unsafe { coerce_unsafe!(T, T, v) } }",
        "fn f(v: T) -> Other { unsafe { coerce_unsafe!(T, T, v) } }",
        "fn f() -> Never { V }",
        "fn f(v: T) -> Result<Never, ()> { Ok(v) }",
        "fn f(v: Result<T, ()>) -> T { let Ok(v) = v; v }",
    ];
    let mut prelude = prelude.to_vec();
    prelude.push("pub struct Other([u8; 77]);");
    for (name, flags) in [("reject", &[][..]), ("reject-checked", &["--cfg", "polonius"])] {
        let total = n * reject.len() as u64;
        let programs: Vec<String> = (0..total).map(|i| text(&reject, i)).collect();
        let programs: Vec<String> = programs.iter().map(|v| v.replace(" pub const R: Run = Run(f);", "")).collect();
        // Errors of types hide errors of safety, hence check separately.
        let set = |j: u64| -> Vec<String> { (0..total).filter(|i| i % reject.len() as u64 == j).map(|i| programs[i as usize].clone()).collect() };
        let b: Vec<Batch> = (0..reject.len() as u64).map(|j| compile_with(name, &prelude, &set(j), false, flags)).collect();
        ctx.explore(name, total, |i| programs[i as usize].clone(), |i, c| {
            let k = reject.len() as u64;
            ensure!(!b[(i % k) as usize].ok((i / k) as usize), "program is accepted");
            c.step(1);
            c.state(&(name, i));
            c.trace();
            Ok(())
        });
    }
}

fn main() -> std::process::ExitCode {
    if let Some(flags) = std::env::var_os("MC_RUSTC_FLAGS") {
        // Stands in for the compiler, and adds flags.
        let mut args = std::env::args_os().skip(1);
        let flags = flags.into_string().unwrap();
        let st = Command::new(args.next().unwrap()).args(args).args(flags.split(' ')).status().expect("compiler does not start");
        return std::process::ExitCode::from(st.code().unwrap_or(101) as u8);
    }
    mc::driver::main(&[("V01", v01), ("V02", v02), ("V03", v03), ("V04", v04), ("X01", x01)])
}
