//! `<area> <property> [--replay FILE]` explores the bounded space of the given
//! property on the real code. The process is split in two: a worker that does
//! the exploration, and a supervisor that turns a crash of the worker into a
//! replayable violation.

use crate::engine::{self, Ctx, Tier};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::sync::Arc;

const HANG_MS: u64 = 180_000;

fn base() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_BASE").unwrap_or_else(|_| "/verif".into()))
}

fn known(id: &str) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    let Ok(s) = std::fs::read_to_string(base().join("known-findings.txt")) else {
        return r;
    };
    for l in s.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let mut w = l.split_whitespace();
        if w.next() == Some(&format!("property={}", id)) {
            if let Some(k) = w.next().and_then(|v| v.strip_prefix("key=")) {
                r.insert(k.to_string());
            }
        }
    }
    r
}

fn known_text(id: &str, key: &str) -> String {
    let s = std::fs::read_to_string(base().join("known-findings.txt")).unwrap_or_default();
    let prefix = format!("known: property={} key={} ", id, key);
    s.lines().find_map(|l| l.strip_prefix(&prefix)).unwrap_or("").to_string()
}

fn replay_path(id: &str, section: &str, index: u64) -> PathBuf {
    let s: String = section.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    base().join("replays").join(format!("{}-{}-{}.txt", id, s, index))
}

fn write_replay(path: &Path, id: &str, tier: &str, v: &engine::Violation) {
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let _ = std::fs::write(path, format!(
        "property={}\ntier={}\nsection={}\nindex={}\ncase={}\nmessage={}\n",
        id, tier, v.section, v.index,
        v.case.replace('\n', "\\n"), v.message.replace('\n', "\\n"),
    ));
}

fn finish(ctx: &Ctx, exit: bool) -> u8 {
    let tier = if ctx.thorough() { "thorough" } else { "quick" };
    let vs = ctx.violations();
    let replaying = ctx.replay.is_some();
    if !replaying {
        let dir = base().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", ctx.id)), ctx.evidence("model_checking"));
    }
    for (k, (n, first)) in ctx.known_hits() {
        println!(
            "KNOWN-FINDING: property={} {} [{} cases, e.g. {}]",
            ctx.id, known_text(&ctx.id, &k), n, first.replace('\n', "\\n"),
        );
    }
    let mut code = 0;
    if let Some(v) = vs.first() {
        let path = replay_path(&ctx.id, &v.section, v.index);
        if !replaying {
            write_replay(&path, &ctx.id, tier, v);
        }
        println!("case: {}", v.case.replace('\n', "\\n"));
        println!("what: {}", v.message.replace('\n', "\\n"));
        println!("VIOLATION property={} replay={}", ctx.id, path.display());
        code = 1;
    } else if replaying {
        println!("replay: no violation");
    } else {
        let ev = ctx.evidence("model_checking");
        let pick = |k: &str| ev.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{}\": ", k)).map(|v| v.trim_end_matches(',').to_string())).unwrap_or_default();
        println!(
            "property {} held: {} states, {} transitions, {} traces, {}s",
            ctx.id, pick("states"), pick("transitions"),
            pick("traces_validated_against_impl"), pick("wall_s"),
        );
    }
    if exit {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code as i32);
    }
    code
}

pub type Check = fn(&Ctx);

pub fn main(checks: &[(&str, Check)]) -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let Some(id) = args.get(1).cloned() else {
        eprintln!("usage: <area> <property> [--replay FILE]");
        return ExitCode::from(2);
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let mut replay = None;
    let mut tier = tier;
    if args.get(2).map(|v| v.as_str()) == Some("--replay") {
        let Some(text) = args.get(3).and_then(|v| std::fs::read_to_string(v).ok()) else {
            eprintln!("cannot read replay file");
            return ExitCode::from(2);
        };
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|v| v.to_string()));
        let (Some(s), Some(i)) = (get("section="), get("index=").and_then(|v| v.parse().ok())) else {
            eprintln!("malformed replay file");
            return ExitCode::from(2);
        };
        if get("tier=").as_deref() == Some("thorough") {
            tier = Tier::Thorough;
        }
        replay = Some((s, i));
    }

    let Some(check) = checks.iter().find(|v| v.0 == id).map(|v| v.1) else {
        eprintln!("unknown property {}", id);
        return ExitCode::from(2);
    };

    if std::env::var("MC_WORKER").is_err() {
        return supervise(&args, &id, tier, seed);
    }

    std::panic::set_hook(Box::new(|_| {}));
    let crumb = std::env::var("MC_CRUMB").ok().map(|p| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap()
    });
    let ctx = Arc::new(Ctx::new(&id, tier, seed, replay, crumb, known(&id)));
    {
        let ctx = ctx.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            if let Some((s, i)) = ctx.hung(HANG_MS) {
                ctx.report_hang(s, i);
                finish(&ctx, true);
            }
        });
    }
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn({
        let ctx = ctx.clone();
        move || check(&ctx)
    }).unwrap().join();
    if r.is_err() {
        eprintln!("check {} failed internally", id);
        return ExitCode::from(3);
    }
    ExitCode::from(finish(&ctx, false))
}

fn supervise(args: &[String], id: &str, tier: Tier, seed: u64) -> ExitCode {
    let run = |crumb: Option<&Path>| {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(&args[1..]).env("MC_WORKER", "1");
        if let Some(p) = crumb {
            c.env("MC_CRUMB", p);
        }
        c.status()
    };
    let st = match run(None) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return ExitCode::from(3);
        },
    };
    if let Some(c) = st.code() {
        return ExitCode::from(c as u8);
    }
    // The worker was killed by a signal. Run again on a single thread, noting
    // each case before it is run, to find the case which takes it down.
    let dir = base().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let crumb = dir.join(format!("{}.crumb", id));
    println!("worker died ({}), searching for the case", st);
    let st2 = run(Some(&crumb));
    let text = std::fs::read_to_string(&crumb).unwrap_or_default();
    let _ = std::fs::remove_file(&crumb);
    match st2 {
        Ok(v) if v.code().is_some() => return ExitCode::from(v.code().unwrap() as u8 | 0),
        _ => {},
    }
    let mut w = text.split_whitespace();
    let (Some(section), Some(index)) = (w.next(), w.next().and_then(|v| v.parse::<u64>().ok())) else {
        return ExitCode::from(3);
    };
    let ctx = Ctx::new(id, tier, seed, None, None, BTreeSet::new());
    ctx.push_violation(section, index, format!("{} #{}", section, index), format!("process died: {}", st));
    ExitCode::from(finish(&ctx, false))
}
