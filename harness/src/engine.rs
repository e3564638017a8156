//! Exploration engine.
//!
//! A check enumerates a finite space of cases. Each case is identified by its
//! section name and its index in that section, so every violation can be
//! replayed on its own. The engine runs the cases of a section on all cores,
//! turns panics into violations, watches for hangs, and counts what was
//! covered.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// FNV-like 64-bit hasher with a final mix. Deterministic across runs.
#[derive(Clone, Copy)]
pub struct Fx(u64);

impl Default for Fx {
    fn default() -> Self {
        Fx(0xcbf29ce484222325)
    }
}

impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut v = self.0;
        v ^= v >> 32;
        v = v.wrapping_mul(0xd6e8feb86659fd93);
        v ^= v >> 32;
        v = v.wrapping_mul(0xd6e8feb86659fd93);
        v ^ (v >> 32)
    }

    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ (*b as u64)).wrapping_mul(0x100000001b3);
            self.0 ^= self.0 >> 29;
        }
    }

    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9e3779b97f4a7c15);
        self.0 ^= self.0 >> 31;
    }
}

pub fn hash_of<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fx::default();
    v.hash(&mut h);
    h.finish()
}

/// What a case reports if the observed behaviour is not the expected one.
pub enum Fail {
    /// A violation of the property.
    Violation(String),
    /// A violation that belongs to a class which may be listed in the
    /// known-findings file under the given key.
    #[allow(dead_code)]
    Class(&'static str, String),
}

impl From<String> for Fail {
    fn from(v: String) -> Self {
        Fail::Violation(v)
    }
}

impl From<&str> for Fail {
    fn from(v: &str) -> Self {
        Fail::Violation(v.to_string())
    }
}

pub type CaseResult = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::engine::Fail::Violation(format!($($arg)+)));
        }
    };
}

/// Compare an observed value with the expected value.
#[macro_export]
macro_rules! expect_eq {
    ($got:expr, $want:expr, $($arg:tt)+) => {
        {
            let got = $got;
            let want = $want;
            if got != want {
                return Err($crate::engine::Fail::Violation(format!(
                    "{}: observed {:?}, expected {:?}",
                    format!($($arg)+), got, want,
                )));
            }
        }
    };
}

/// Per-thread counters handed to each case.
#[derive(Default)]
pub struct Case {
    pub transitions: u64,
    pub traces: u64,
    states: HashSet<u64>,
    pub features: BTreeMap<&'static str, u64>,
}

impl Case {
    /// Count `n` operations executed on the implementation.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }

    /// Count one complete trace of the reference that was replayed on the
    /// implementation and compared.
    pub fn trace(&mut self) {
        self.traces += 1;
    }

    /// Record an observed state of the implementation.
    pub fn state<T: Hash + ?Sized>(&mut self, v: &T) {
        self.states.insert(hash_of(v));
    }

    /// Count an occurrence of an interesting class of behaviour. These are
    /// listed in the evidence to show that the exploration is not vacuous.
    pub fn feature(&mut self, name: &'static str) {
        *self.features.entry(name).or_insert(0) += 1;
    }
}

#[derive(Clone)]
pub struct Violation {
    pub section: String,
    pub index: u64,
    pub case: String,
    pub message: String,
}

const SHARDS: usize = 64;

struct Slot {
    active: AtomicBool,
    index: AtomicU64,
    since: AtomicU64,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    pub crumb: Option<Mutex<std::fs::File>>,
    start: Instant,
    transitions: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    features: Mutex<BTreeMap<String, u64>>,
    sections: Mutex<Vec<(String, u64, String)>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    known: BTreeSet<String>,
    known_hit: Mutex<BTreeMap<String, (u64, String)>>,
    slots: Vec<Slot>,
    current: Mutex<String>,
    describe_hang: Mutex<Option<String>>,
    stop: AtomicBool,
    pub bounds: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).min(8)
}

impl Ctx {
    pub fn new(
        id: &str,
        tier: Tier,
        seed: u64,
        replay: Option<(String, u64)>,
        crumb: Option<std::fs::File>,
        known: BTreeSet<String>,
    ) -> Self {
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            replay,
            crumb: crumb.map(Mutex::new),
            start: Instant::now(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            features: Mutex::new(BTreeMap::new()),
            sections: Mutex::new(Vec::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(Vec::new()),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            slots: (0..threads()).map(|_| Slot {
                active: AtomicBool::new(false),
                index: AtomicU64::new(0),
                since: AtomicU64::new(0),
            }).collect(),
            current: Mutex::new(String::new()),
            describe_hang: Mutex::new(None),
            stop: AtomicBool::new(false),
            bounds: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Pick a bound depending on the tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    /// Describe a bound of this check for the evidence.
    pub fn bound(&self, v: impl Into<String>) {
        self.bounds.lock().unwrap().push(v.into());
    }

    pub fn assume(&self, v: impl Into<String>) {
        self.assumptions.lock().unwrap().push(v.into());
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    fn merge(&self, case: &mut Case) {
        self.transitions.fetch_add(case.transitions, Ordering::Relaxed);
        self.traces.fetch_add(case.traces, Ordering::Relaxed);
        case.transitions = 0;
        case.traces = 0;
        let mut split: Vec<Vec<u64>> = vec![Vec::new(); SHARDS];
        for s in case.states.drain() {
            split[(s >> 58) as usize].push(s);
        }
        for (i, v) in split.into_iter().enumerate() {
            if !v.is_empty() {
                self.states[i].lock().unwrap().extend(v);
            }
        }
        if !case.features.is_empty() {
            let mut f = self.features.lock().unwrap();
            for (k, v) in core::mem::take(&mut case.features) {
                *f.entry(k.to_string()).or_insert(0) += v;
            }
        }
    }

    fn fail(&self, section: &str, index: u64, case: String, fail: Fail) {
        let message = match fail {
            Fail::Violation(m) => m,
            Fail::Class(key, m) => {
                if self.known.contains(key) {
                    let mut hit = self.known_hit.lock().unwrap();
                    let e = hit.entry(key.to_string()).or_insert((0, String::new()));
                    e.0 += 1;
                    if e.1.is_empty() {
                        e.1 = format!("{}: {}", case, m);
                    }
                    return;
                }
                m
            },
        };
        let mut v = self.violations.lock().unwrap();
        if v.len() < 4096 {
            v.push(Violation {
                section: section.to_string(), index, case, message,
            });
        }
        self.stop.store(true, Ordering::Relaxed);
    }

    fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    /// Explore all cases `0..total` of a section.
    ///
    /// `describe` renders a case for humans, `run` executes it on the
    /// implementation and compares it to the reference.
    pub fn explore<D, R>(&self, section: &str, total: u64, describe: D, run: R)
    where
        D: Fn(u64) -> String + Sync,
        R: Fn(u64, &mut Case) -> CaseResult + Sync,
    {
        if self.stopped() {
            return;
        }
        if let Some((s, i)) = &self.replay {
            if s == section && *i < total {
                *self.current.lock().unwrap() = section.to_string();
                println!("replaying {} #{}: {}", s, i, describe(*i));
                let mut case = Case::default();
                self.one(section, *i, 0, &describe, &run, &mut case);
                self.merge(&mut case);
            }
            return;
        }
        *self.current.lock().unwrap() = section.to_string();
        let before = Instant::now();
        let n = if self.crumb.is_some() { 1 } else { self.slots.len() };
        let chunk = (total / (n as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);

        std::thread::scope(|scope| {
            for t in 0..n {
                let (next, done, describe, run) = (&next, &done, &describe, &run);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, move || {
                    let mut case = Case::default();
                    'outer: loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= total {
                            break;
                        }
                        for i in from..(from + chunk).min(total) {
                            if self.stopped() {
                                break 'outer;
                            }
                            self.one(section, i, t, describe, run, &mut case);
                            done.fetch_add(1, Ordering::Relaxed);
                            if case.states.len() > 100_000 {
                                self.merge(&mut case);
                            }
                        }
                    }
                    self.merge(&mut case);
                }).unwrap();
            }
        });

        let done = done.load(Ordering::Relaxed);
        self.cases.fetch_add(done, Ordering::Relaxed);
        self.sections.lock().unwrap().push((
            section.to_string(),
            done,
            format!("{:.2}s", before.elapsed().as_secs_f64()),
        ));
        if total > 0 {
            let k = (hash_of(&(section, self.seed))) % total;
            for i in [k, total - 1] {
                let mut s = describe(i);
                if s.len() > 400 {
                    let mut at = 400;
                    while !s.is_char_boundary(at) { at -= 1; }
                    s.truncate(at);
                    s.push_str("...");
                }
                self.samples.lock().unwrap().push(format!("{} #{}: {}", section, i, s));
            }
        }
    }

    fn one<D, R>(&self, section: &str, i: u64, t: usize, describe: &D, run: &R, case: &mut Case)
    where
        D: Fn(u64) -> String + Sync,
        R: Fn(u64, &mut Case) -> CaseResult + Sync,
    {
        if let Some(f) = &self.crumb {
            use std::io::Seek;
            let mut f = f.lock().unwrap();
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(format!("{:<80} {:>20}\n", section, i).as_bytes());
        }
        let slot = &self.slots[t];
        slot.index.store(i, Ordering::Relaxed);
        slot.since.store(self.now_ms(), Ordering::Relaxed);
        slot.active.store(true, Ordering::Release);
        let r = catch_unwind(AssertUnwindSafe(|| run(i, case)));
        slot.active.store(false, Ordering::Release);
        match r {
            Ok(Ok(())) => {},
            Ok(Err(f)) => self.fail(section, i, describe(i), f),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|v| v.to_string()))
                    .unwrap_or_else(|| "<unknown panic>".to_string());
                let d = catch_unwind(AssertUnwindSafe(|| describe(i)))
                    .unwrap_or_else(|_| "<undescribable>".to_string());
                self.fail(section, i, d, Fail::Violation(format!("panic: {}", m)));
            },
        }
    }

    /// Run one driver that is not index-addressed (e.g., a breadth-first
    /// search over states). It is addressed as a section with a single case.
    pub fn single<R>(&self, section: &str, what: &str, run: R)
    where
        R: Fn(&mut Case) -> CaseResult + Sync,
    {
        self.explore(section, 1, |_| what.to_string(), |_, c| run(c));
    }

    /// Look for a case that runs for longer than `limit_ms`.
    pub fn hung(&self, limit_ms: u64) -> Option<(String, u64)> {
        let now = self.now_ms();
        for s in &self.slots {
            if s.active.load(Ordering::Acquire) {
                let since = s.since.load(Ordering::Relaxed);
                let index = s.index.load(Ordering::Relaxed);
                if now > since + limit_ms && s.active.load(Ordering::Acquire)
                    && s.since.load(Ordering::Relaxed) == since
                {
                    return Some((self.current.lock().unwrap().clone(), index));
                }
            }
        }
        None
    }

    pub fn report_hang(&self, section: String, index: u64) {
        let case = self.describe_hang.lock().unwrap().clone()
            .unwrap_or_else(|| format!("{} #{}", section, index));
        self.fail(&section, index, case, Fail::Violation("does not terminate".into()));
    }

    pub fn push_violation(&self, section: &str, index: u64, case: String, message: String) {
        self.fail(section, index, case, Fail::Violation(message));
    }

    pub fn violations(&self) -> Vec<Violation> {
        let mut v = self.violations.lock().unwrap().clone();
        v.sort_by(|a, b| (a.section.as_str(), a.index).cmp(&(b.section.as_str(), b.index)));
        v
    }

    pub fn known_hits(&self) -> BTreeMap<String, (u64, String)> {
        self.known_hit.lock().unwrap().clone()
    }

    pub fn evidence(&self, level: &str) -> String {
        let states: usize = self.states.iter().map(|v| v.lock().unwrap().len()).sum();
        let mut o = String::new();
        o.push_str("{\n");
        o.push_str(&format!(" \"property\": {},\n", json_str(&self.id)));
        o.push_str(&format!(" \"tier\": \"{}\",\n", match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }));
        o.push_str(&format!(" \"seed\": {},\n", self.seed));
        o.push_str(&format!(" \"level\": {},\n", json_str(level)));
        o.push_str(" \"coverage\": {\n");
        o.push_str(&format!("  \"states\": {},\n", states));
        o.push_str(&format!("  \"transitions\": {},\n", self.transitions.load(Ordering::Relaxed)));
        o.push_str(&format!("  \"traces_validated_against_impl\": {},\n", self.traces.load(Ordering::Relaxed)));
        o.push_str(&format!("  \"cases\": {},\n", self.cases.load(Ordering::Relaxed)));
        o.push_str(&format!("  \"exhaustive\": {},\n", !self.stopped() && self.replay.is_none()));
        o.push_str("  \"sections\": {");
        let sections = self.sections.lock().unwrap();
        o.push_str(&sections.iter().map(|(n, c, t)| format!(
            "{}: {{\"cases\": {}, \"wall\": {}}}", json_str(n), c, json_str(t),
        )).collect::<Vec<_>>().join(", "));
        o.push_str("},\n  \"reached\": {");
        let f = self.features.lock().unwrap();
        o.push_str(&f.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n  \"bounds\": [");
        o.push_str(&self.bounds.lock().unwrap().iter().map(|v| json_str(v)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n  \"known_findings_hit\": {");
        o.push_str(&self.known_hit.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", json_str(k), v.0)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n  \"samples\": [");
        o.push_str(&self.samples.lock().unwrap().iter().take(40).map(|v| json_str(v)).collect::<Vec<_>>().join(",\n   "));
        o.push_str("]\n },\n");
        o.push_str(" \"assumptions\": [");
        o.push_str(&self.assumptions.lock().unwrap().iter().map(|v| json_str(v)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n");
        o.push_str(&format!(" \"violations\": {},\n", self.violations.lock().unwrap().len()));
        o.push_str(&format!(" \"wall_s\": {:.3}\n", self.start.elapsed().as_secs_f64()));
        o.push_str("}\n");
        o
    }
}

pub fn json_str(v: &str) -> String {
    let mut o = String::with_capacity(v.len() + 2);
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32));
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Number of sequences of up to `len` symbols (including the empty one) over
/// an alphabet of `k` symbols.
pub fn seq_total(k: u64, len: u32) -> u64 {
    (0..=len).map(|i| k.pow(i)).sum()
}

/// The `i`-th sequence in the enumeration of all sequences of up to some
/// length over an alphabet of `k` symbols, shortest first.
pub fn seq_at(k: u64, mut i: u64) -> Vec<usize> {
    let mut len = 0u32;
    loop {
        let n = k.pow(len);
        if i < n {
            break;
        }
        i -= n;
        len += 1;
    }
    let mut v = vec![0; len as usize];
    for p in (0..len as usize).rev() {
        v[p] = (i % k) as usize;
        i /= k;
    }
    v
}

/// All texts close to given ones: with one element replaced, inserted, or
/// removed, with every element of the one alphabet, and with two elements
/// replaced, with every element of the other.
pub struct Edits<T> {
    bases: Vec<Vec<T>>,
    one: Vec<T>,
    two: Vec<T>,
}

impl<T: Clone> Edits<T> {
    pub fn new(bases: Vec<Vec<T>>, one: Vec<T>, two: Vec<T>) -> Self {
        Self { bases, one, two }
    }

    fn parts(&self, base: &[T]) -> [u64; 4] {
        let (n, k, m) = (base.len() as u64, self.one.len() as u64, self.two.len() as u64);
        [n * k, (n + 1) * k, n, n * n.saturating_sub(1) / 2 * m * m]
    }

    pub fn total(&self) -> u64 {
        self.bases.iter().map(|b| self.parts(b).iter().sum::<u64>()).sum()
    }

    pub fn at(&self, mut i: u64) -> Vec<T> {
        for b in &self.bases {
            for (kind, n) in self.parts(b).into_iter().enumerate() {
                if i >= n {
                    i -= n;
                    continue;
                }
                let mut v = b.clone();
                let k = self.one.len() as u64;
                match kind {
                    0 => v[(i / k) as usize] = self.one[(i % k) as usize].clone(),
                    1 => v.insert((i / k) as usize, self.one[(i % k) as usize].clone()),
                    2 => { v.remove(i as usize); },
                    _ => {
                        let m = self.two.len() as u64;
                        let (mut pair, mut first) = (i / m / m, 0);
                        while pair >= (b.len() - 1 - first) as u64 {
                            pair -= (b.len() - 1 - first) as u64;
                            first += 1;
                        }
                        v[first] = self.two[(i / m % m) as usize].clone();
                        v[first + 1 + pair as usize] = self.two[(i % m) as usize].clone();
                    },
                }
                return v;
            }
        }
        unreachable!()
    }
}

/// Split an index into mixed-radix digits.
pub fn mixed(mut i: u64, radix: &[u64]) -> Vec<u64> {
    let mut v = Vec::with_capacity(radix.len());
    for r in radix {
        v.push(i % r);
        i /= r;
    }
    v
}

#[allow(dead_code)]
static UNUSED: AtomicUsize = AtomicUsize::new(0);
