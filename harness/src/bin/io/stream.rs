//! Streamed and mapped I/O of `tmp`.

use mc::mapio::{Maps, Reader, Writer, MAPS, POISON};
use mc::engine::*;
use mc::{ensure, expect_eq};
use core::cell::Cell;
use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use std::sync::Arc;
use tmp::io::{map, stream};
use tmp::io::stream::More;

/// How much of the buffered data a reader maps.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum Window {
    /// Everything that is buffered, regardless of the hint.
    All,
    /// Not more than the hint, but never less than the minimum.
    Hint,
    /// Just the minimum.
    Min,
}

pub const WINDOWS: &[Window] = &[Window::All, Window::Hint, Window::Min];

/// A stream of which only a part has arrived so far.
pub struct Stream<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub avail: usize,
    pub window: Window,
    pub maps: Cell<u64>,
}

impl<'a> Stream<'a> {
    pub fn new(data: &'a [u8], avail: usize, window: Window) -> Self {
        Self { data, at: 0, avail: avail.min(data.len()), window, maps: Cell::new(0) }
    }
}

impl<'a> stream::Read for Stream<'a> {
    fn advance(&mut self, len: usize) {
        assert!(len <= self.avail - self.at, "advanced past the buffered data");
        self.at += len;
    }

    fn map(&self, min: usize, max_hint: Option<usize>) -> Flow<More, &[u8]> {
        self.maps.set(self.maps.get() + 1);
        let have = self.avail - self.at;
        if min > have {
            return Flow::Break(More { min, max: max_hint });
        }
        let n = match self.window {
            Window::All => have,
            Window::Hint => max_hint.unwrap_or(have).min(have).max(min),
            Window::Min => min,
        };
        Flow::Continue(&self.data[self.at..self.at + n])
    }
}

/// Numbers around the powers of two.
pub fn around(exp: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=exp).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).filter(|v| *v > 0).collect();
    v.sort();
    v.dedup();
    v
}

/// Outcome of one search.
#[derive(Debug, Eq, PartialEq)]
struct Found {
    n: usize,
    len: Option<usize>,
    calls: Vec<(usize, u8)>,
}

/// Search in a stream which receives `step` more bytes than asked for each
/// time the search is interrupted.
fn search(
    data: &[u8],
    skip: usize,
    avail: usize,
    window: Window,
    start: usize,
    max: Option<usize>,
    step: usize,
    alias: bool,
    case: &mut Case,
) -> Result<Found, Fail> {
    let mut s = Stream::new(data, avail.max(skip), window);
    stream::Read::advance(&mut s, skip);
    let rest = &data[skip..];
    let mut n = start;
    let mut calls = Vec::new();
    loop {
        case.step(1);
        let have = s.avail - s.at;
        let entry = n;
        let r = {
            let p = |i: usize, v: u8| {
                calls.push((i, v));
                v & 1 == 0
            };
            if alias {
                let d: &dyn stream::Read = &s;
                d.map_while(&mut n, max, p)
            } else {
                stream::read_map_while(&s, &mut n, max, p)
            }
        };
        match r {
            Flow::Continue(map) => {
                ensure!(map.len() <= rest.len(), "the map is longer than the stream");
                ensure!(map == &rest[..map.len()], "the map does not show the stream: {:?}", map);
                return Ok(Found { n, len: Some(map.len()), calls });
            },
            Flow::Break(more) => {
                ensure!(n >= entry, "the index went backwards");
                ensure!(
                    more.min > have,
                    "asked for {} bytes even though {} are available", more.min, have,
                );
                ensure!(
                    more.max.is_none_or(|v| v >= more.min),
                    "the limits of the request contradict each other: {:?}", more,
                );
                ensure!(
                    more.min <= max.unwrap_or(usize::MAX).max(start),
                    "asked for {} bytes, more than the limit {:?}", more.min, max,
                );
                case.feature("interrupted");
                let want = s.at.saturating_add(more.min).saturating_add(step);
                if s.avail == data.len() {
                    // The stream ended before the search could finish.
                    return Ok(Found { n, len: None, calls });
                }
                s.avail = want.min(data.len());
            },
        }
    }
}

/// Run one search and compare it with the definition.
fn check_search(
    data: &[u8],
    skip: usize,
    avail: usize,
    window: Window,
    start: usize,
    max: Option<usize>,
    step: usize,
    alias: bool,
    case: &mut Case,
) -> CaseResult {
    let rest = &data[skip..];
    let limit = max.unwrap_or(usize::MAX);
    // The first byte at or behind the start which fails.
    let hit = (start..rest.len()).find(|&j| rest[j] & 1 == 1);
    let (n, done) = if start >= limit {
        (start, limit <= rest.len())
    } else {
        match hit {
            Some(j) if j < limit => (j, true),
            _ if limit <= rest.len() => (limit, true),
            _ => (rest.len().max(start), false),
        }
    };
    let asked = if n < limit && done { n + 1 } else { n };
    let calls: Vec<(usize, u8)> = if start >= limit || start >= rest.len() {
        Vec::new()
    } else {
        (start..asked).map(|j| (j, rest[j])).collect()
    };
    let what = || format!(
        "skip {skip}, start {start}, max {max:?}, {window:?}, \
        available {avail}, step {step}, alias {alias}",
    );
    let got = search(
        data, skip, avail, window, start, max, step, alias, case,
    ).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{}: {}", what(), m)),
        v => v,
    })?;
    ensure!(got.n == n, "{}: stopped at {} rather than {}", what(), got.n, n);
    ensure!(
        got.calls == calls,
        "{}: the predicate saw {:?} rather than {:?}",
        what(), got.calls, calls,
    );
    match got.len {
        None => ensure!(!done, "{}: never finished", what()),
        Some(l) => {
            ensure!(done, "{}: finished early", what());
            ensure!(l <= limit, "{}: map of {} bytes", what(), l);
            ensure!(
                l >= n.min(limit) && (n >= limit || l > n),
                "{}: map of {} bytes does not include the result {}",
                what(), l, n,
            );
            case.feature(if n >= limit { "reached the limit" } else { "found" });
        },
    }
    case.trace();
    Ok(())
}

pub fn i01(ctx: &Ctx) {
    let len = ctx.pick(11u32, 12);
    ctx.bound(format!(
        "every stream of up to {len} bytes of two kinds, every start offset, every limit, every \
        amount of data available at first and per interruption, every position in the stream, \
        and three kinds of mapping",
    ));

    // Even bytes satisfy the predicate.
    let mut streams = Vec::new();
    for l in 0..=len {
        for i in 0..1u64 << l {
            streams.push((0..l).map(|j| (2 * j as u8) | (i >> j & 1) as u8).collect::<Vec<u8>>());
        }
    }
    let describe = |i: u64| format!("{:?}", streams[i as usize]);
    ctx.explore("search", streams.len() as u64, describe, |i, case| {
        let data = &streams[i as usize];
        case.state(data);
        for skip in 0..=data.len().min(2) {
            let rest = &data[skip..];
            for start in 0..=rest.len() {
                for max in (0..=rest.len() + 2).map(Some).chain([None, Some(usize::MAX)]) {
                    for window in WINDOWS {
                        for (avail, step) in [(0, 0), (0, 1), (skip + 2, 0), (skip + 3, 2), (data.len(), 0)] {
                            for alias in [false, true] {
                                check_search(data, skip, avail, *window, start, max, step, alias, case)?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    });

    // A start offset behind the end of the stream.
    let n = streams.iter().take_while(|v| v.len() <= 8).count() as u64;
    ctx.bound("every start offset up to 3 behind the end of streams of up to 8 bytes, and 6 far behind it");
    ctx.explore("behind", n, describe, |i, case| {
        let data = &streams[i as usize];
        let far = [255, 256, 65536, 1 << 32, usize::MAX / 2, usize::MAX - 1];
        for start in (data.len() + 1..=data.len() + 3).chain(far) {
            for max in (0..=data.len() + 4).chain([start - 1, start, start + 1]).map(Some).chain([None, Some(usize::MAX)]) {
                for window in WINDOWS {
                    for (avail, step) in [(0, 0), (0, 1), (2, 0), (data.len(), 0)] {
                        check_search(data, 0, avail.min(data.len()), *window, start, max, step, start % 2 == 0, case)?;
                    }
                }
            }
        }
        case.state(&(1, i));
        Ok(())
    });

    // Larger streams, with at most one byte which fails.
    let sizes: Vec<usize> = around(12).into_iter().chain([20000, 65535, 65536, 65537, 70000]).collect();
    ctx.bound(format!("streams of {} sizes up to 70000 bytes with a match at the front, the middle, the end, or not at all", sizes.len()));
    let radix = [sizes.len() as u64, 4, 3, 5, 3];
    let total = radix.iter().product();
    ctx.explore("large", total, |i| format!("{:?}", mixed(i, &radix)), |i, case| {
        let v = mixed(i, &radix);
        let n = sizes[v[0] as usize];
        let mut data: Vec<u8> = (0..n).map(|v| (2 * v) as u8).collect();
        if let Some(at) = [None, Some(0), Some(n / 2), Some(n - 1)][v[1] as usize] {
            data[at] |= 1;
        }
        let start = [0, 1, n / 2][v[2] as usize].min(n);
        let max = [None, Some(n), Some(n - 1), Some(n + 1), Some(n / 2 + 1)][v[3] as usize];
        for (avail, step) in [(0, 0), (0, 1000), (n / 2, 4095), (n, 0)] {
            // A byte at a time suffices for smaller ones.
            let step = if n > 5000 && step == 0 { 63 } else { step };
            check_search(&data, 0, avail, WINDOWS[v[4] as usize], start, max, step, i % 2 == 0, case)?;
        }
        case.state(&i);
        Ok(())
    });

    // Streams of a megabyte and more, in large pieces.
    let sizes = [(1 << 17) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 22) + 3];
    ctx.bound(format!("streams of {} sizes up to {} bytes, in pieces of 64 KiB", sizes.len(), sizes[sizes.len() - 1]));
    let radix = [sizes.len() as u64, 4, 3, 3, 3];
    let total = radix.iter().product();
    ctx.explore("huge", total, |i| format!("{:?}", mixed(i, &radix)), |i, case| {
        let v = mixed(i, &radix);
        let n = sizes[v[0] as usize];
        let mut data: Vec<u8> = (0..n).map(|v| (2 * v) as u8).collect();
        if let Some(at) = [None, Some(0), Some(n / 2), Some(n - 1)][v[1] as usize] {
            data[at] |= 1;
        }
        let start = [0, n / 2, n - 1][v[2] as usize];
        let max = [None, Some(n), Some(n + 1)][v[3] as usize];
        for (avail, step) in [(0, 65536), (n / 2, 65535), (n, 65536)] {
            check_search(&data, 0, avail, WINDOWS[v[4] as usize], start, max, step, i % 2 == 0, case)?;
        }
        case.state(&(2, i));
        Ok(())
    });

    // The reader provided for slices.
    let describe = |i: u64| format!("{:?}", streams[i as usize]);
    ctx.explore("slice", streams.len() as u64, describe, |i, case| {
        let data = &streams[i as usize];
        for a in 0..=data.len() {
            for b in 0..=data.len() - a {
                let mut s: &[u8] = data;
                stream::Read::advance(&mut s, a);
                stream::Read::advance(&mut s, b);
                let rest = &data[a + b..];
                for min in (0..=data.len() + 2).chain([usize::MAX - 1, usize::MAX]) {
                    for max in (0..=data.len() + 2).map(Some).chain([None, Some(usize::MAX)]) {
                        case.step(1);
                        // Repeated calls operate on the same data.
                        for _ in 0..2 {
                            match stream::Read::map(&s, min, max) {
                                Flow::Continue(v) => {
                                    ensure!(min <= rest.len(), "mapped {} bytes of {}", min, rest.len());
                                    ensure!(v.len() >= min, "map of {} instead of {}", v.len(), min);
                                    ensure!(v == &rest[..v.len()], "advanced {}+{}: map shows {:?}", a, b, v);
                                },
                                Flow::Break(more) => {
                                    ensure!(min > rest.len(), "no map of {} bytes of {}", min, rest.len());
                                    expect_eq!(more.min, min, "requested minimum");
                                    expect_eq!(more.max, max, "requested maximum");
                                },
                            }
                        }
                        case.trace();
                    }
                }
            }
        }
        Ok(())
    });
}

/// Buffer for streamed writes with limited space.
struct Sink {
    window: Window,
    data: Vec<MaybeUninit<u8>>,
    len: usize,
    space: usize,
}

impl stream::Write for Sink {
    unsafe fn commit(&mut self, len: usize) {
        self.len += len;
    }

    fn map(&mut self, min: usize, max_hint: Option<usize>) -> Flow<More, &mut [MaybeUninit<u8>]> {
        let have = self.space - self.len;
        if min > have {
            return Flow::Break(More { min, max: max_hint });
        }
        let n = match self.window {
            Window::All => have,
            Window::Hint => max_hint.unwrap_or(have).min(have).max(min),
            Window::Min => min,
        };
        if self.data.len() < self.len + n {
            self.data.resize(self.len + n, MaybeUninit::new(POISON));
        }
        Flow::Continue(&mut self.data[self.len..self.len + n])
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    /// Map, and initialize this many bytes from the front.
    Map(usize, Option<usize>, usize),
    /// Commit this many of the initialized bytes.
    Commit(usize),
    /// Write to the initialized bytes.
    Update(usize),
    Write(usize),
}

const OPS: &[Op] = &[
    Op::Map(0, None, 0),
    Op::Map(1, None, 1),
    Op::Map(3, Some(5), 3),
    Op::Map(5, Some(2), 5),
    Op::Map(40, Some(40), 40),
    Op::Map(2, Some(usize::MAX), 2),
    Op::Commit(0),
    Op::Commit(1),
    Op::Commit(4),
    Op::Update(2),
    Op::Update(6),
    Op::Write(0),
    Op::Write(2),
    Op::Write(9),
];

/// The state of a buffer: what was committed, what was initialized since, and
/// how much space there is.
fn run_writes<W: stream::Write>(
    mut w: W,
    space: Option<usize>,
    ops: &[Op],
    bytes: impl Fn(&W) -> Vec<u8>,
    case: &mut Case,
) -> CaseResult {
    let mut done: Vec<u8> = Vec::new();
    let mut front: Vec<u8> = Vec::new();
    let mut next = 1u8;
    let mut fresh = || { next = next.wrapping_add(1).max(1); next };
    for &op in ops {
        case.step(1);
        let fits = |n: usize| space.is_none_or(|s| n <= s - done.len());
        match op {
            Op::Map(min, max, n) => match w.map(min, max) {
                Flow::Continue(map) => {
                    ensure!(fits(min), "{:?} mapped more space than there is", op);
                    ensure!(map.len() >= min, "{:?} mapped {} bytes", op, map.len());
                    for (j, v) in front.iter().enumerate().take(map.len()) {
                        // SAFETY: These have been initialized via this map.
                        let got = unsafe { map[j].assume_init() };
                        ensure!(got == *v, "{:?} lost initialized byte {}", op, j);
                    }
                    for j in 0..n.min(map.len()) {
                        let v = fresh();
                        map[j].write(v);
                        if j < front.len() {
                            front[j] = v;
                        } else {
                            front.push(v);
                        }
                    }
                },
                Flow::Break(more) => {
                    ensure!(!fits(min), "{:?} was refused", op);
                    expect_eq!(more, More { min, max }, "{:?}", op);
                    case.feature("insufficient space");
                },
            },
            Op::Commit(n) => {
                if n > front.len() {
                    case.feature("skipped");
                    continue;
                }
                // SAFETY: That many bytes have been initialized.
                unsafe { w.commit(n) };
                done.extend(front.drain(..n));
            },
            Op::Update(n) => {
                if n > front.len() {
                    case.feature("skipped");
                    continue;
                }
                // SAFETY: That many bytes have been initialized.
                match unsafe { w.map_unchecked(n) } {
                    Flow::Continue(map) => {
                        expect_eq!(map.len(), n, "length of the initialized map");
                        expect_eq!(&*map, &front[..n], "content of the initialized map");
                        for j in 0..n {
                            map[j] = fresh();
                            front[j] = map[j];
                        }
                    },
                    Flow::Break(v) => ensure!(false, "{:?} was refused: {:?}", op, v),
                }
            },
            Op::Write(n) => {
                let data: Vec<u8> = (0..n).map(|_| fresh()).collect();
                match w.write(&data) {
                    Flow::Continue(()) => {
                        ensure!(fits(n), "{:?} wrote more than there is space for", op);
                        front.drain(..n.min(front.len()));
                        done.extend(data);
                    },
                    Flow::Break(more) => {
                        ensure!(!fits(n), "{:?} was refused", op);
                        expect_eq!(more, More { min: n, max: Some(n) }, "{:?}", op);
                        case.feature("insufficient space");
                    },
                }
            },
        }
        ensure!(bytes(&w) == done, "after {:?}: committed {:?}, expected {:?}", op, bytes(&w), done);
        case.state(&(&done, &front));
    }
    case.trace();
    Ok(())
}

pub fn i02(ctx: &Ctx) {
    let len = ctx.pick(6u32, 6);
    let k = OPS.len() as u64;
    ctx.bound(format!(
        "every sequence of {len} of {k} operations on the growing buffer, and on a buffer with \
        three kinds of mapping and six sizes",
    ));
    let n = seq_total(k, len);
    let pre = [0usize, 3];
    let describe = |i: u64| {
        let ops: Vec<Op> = seq_at(k, i / 2).into_iter().map(|o| OPS[o]).collect();
        format!("{} bytes present, {:?}", pre[(i % 2) as usize], ops)
    };
    ctx.explore("vector", n * 2, describe, |i, case| {
        let ops: Vec<Op> = seq_at(k, i / 2).into_iter().map(|o| OPS[o]).collect();
        let pre = pre[(i % 2) as usize];
        let w: Vec<u8> = vec![0xcc; pre];
        run_writes(w, None, &ops, |w: &Vec<u8>| w[pre..].to_vec(), case)
    });

    const SPACE: &[usize] = &[0, 2, 3, 6, 11, 42];
    let shapes = (WINDOWS.len() * SPACE.len()) as u64;
    let n = seq_total(k, len - 1);
    let describe = |i: u64| {
        let ops: Vec<Op> = seq_at(k, i / shapes).into_iter().map(|o| OPS[o]).collect();
        let s = (i % shapes) as usize;
        format!("{:?}, space for {}, {:?}", WINDOWS[s % 3], SPACE[s / 3], ops)
    };
    ctx.explore("limited", n * shapes, describe, |i, case| {
        let ops: Vec<Op> = seq_at(k, i / shapes).into_iter().map(|o| OPS[o]).collect();
        let s = (i % shapes) as usize;
        let sink = Sink { window: WINDOWS[s % 3], data: Vec::new(), len: 0, space: SPACE[s / 3] };
        run_writes(sink, Some(SPACE[s / 3]), &ops, |w: &Sink| {
            // SAFETY: All data was initialized with the poison value.
            w.data[..w.len].iter().map(|v| unsafe { v.assume_init() }).collect()
        }, case)
    });
    large_writes(ctx);

    // Long histories: every pair of operations, repeated.
    ctx.bound("every triple of operations, repeated up to 400 times");
    let times = [8usize, 16, 17, 64, 65, 129, 257, 400];
    let describe = |i: u64| format!("{} times {:?}", times[(i % 8) as usize], mixed(i / 8, &[k, k, k]).into_iter().map(|o| OPS[o as usize]).collect::<Vec<_>>());
    ctx.explore("long", k * k * k * 8, describe, |i, case| {
        let three: Vec<Op> = mixed(i / 8, &[k, k, k]).into_iter().map(|o| OPS[o as usize]).collect();
        let ops: Vec<Op> = (0..times[(i % 8) as usize]).flat_map(|_| three.clone()).collect();
        run_writes(Vec::new(), None, &ops, |w: &Vec<u8>| w.clone(), case)?;
        let sink = Sink { window: WINDOWS[(i % 3) as usize], data: Vec::new(), len: 0, space: 700 };
        run_writes(sink, Some(700), &ops, |w: &Sink| {
            // SAFETY: All data was initialized with the poison value.
            w.data[..w.len].iter().map(|v| unsafe { v.assume_init() }).collect()
        }, case)
    });
}

/// Larger maps and writes.
fn large_writes(ctx: &Ctx) {
    let sizes = around(ctx.pick(16, 20));
    let ops = |n: usize| [
        Op::Map(n, None, n), Op::Map(n / 2, Some(n), n / 2), Op::Map(1, Some(n), n), Op::Commit(n), Op::Commit(n / 2), Op::Update(n),
        Op::Write(n), Op::Write(1),
    ];
    let per = seq_total(8, 4);
    ctx.bound(format!("every sequence of up to 4 of 8 operations of {} sizes up to {}", sizes.len(), sizes[sizes.len() - 1]));
    let list = |i: u64| -> Vec<Op> {
        let all = ops(sizes[(i / per) as usize]);
        seq_at(8, i % per).into_iter().map(|o| all[o]).collect()
    };
    ctx.explore("large", per * sizes.len() as u64, |i| format!("{:?}", list(i)), |i, case| {
        let ops = list(i);
        run_writes(Vec::new(), None, &ops, |w: &Vec<u8>| w.clone(), case)?;
        let n = sizes[(i / per) as usize];
        let space = [2 * n, n, n - 1][(i % 3) as usize];
        let sink = Sink { window: WINDOWS[(i / 3 % 3) as usize], data: Vec::new(), len: 0, space };
        run_writes(sink, Some(space), &ops, |w: &Sink| {
            // SAFETY: All data was initialized with the poison value.
            w.data[..w.len].iter().map(|v| unsafe { v.assume_init() }).collect()
        }, case)
    });
}

/// Iterator which counts how far it was advanced.
struct Tap {
    data: Vec<u8>,
    at: Arc<std::sync::atomic::AtomicUsize>,
}

impl Iterator for Tap {
    type Item = u8;

    fn next(&mut self) -> Option<u8> {
        let at = self.at.load(std::sync::atomic::Ordering::Relaxed);
        let v = self.data.get(at).copied();
        if v.is_some() {
            self.at.store(at + 1, std::sync::atomic::Ordering::Relaxed);
        }
        v
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.data.len() - self.at.load(std::sync::atomic::Ordering::Relaxed);
        (n, Some(n))
    }
}

impl ExactSizeIterator for Tap {}

#[derive(Clone, Copy, Debug)]
enum Mop {
    Write(usize),
    Iter(usize),
    Fill(usize),
    Zero(usize),
    Align(u8),
    /// Move the offset without writing.
    Skip(usize),
    Back(usize),
}

const MOPS: &[Mop] = &[
    Mop::Write(0),
    Mop::Write(1),
    Mop::Write(7),
    Mop::Iter(0),
    Mop::Iter(1),
    Mop::Iter(9),
    Mop::Fill(1),
    Mop::Fill(10),
    Mop::Zero(3),
    Mop::Align(0),
    Mop::Align(1),
    Mop::Align(3),
    Mop::Align(5),
    Mop::Skip(2),
    Mop::Back(4),
];

/// Run mapped writes against an array of bytes. Returns the offset and the
/// expected content.
fn run_maps<W: map::Write>(
    w: &mut W,
    limit: usize,
    ops: &[Mop],
    fault: bool,
    case: &mut Case,
) -> Result<Vec<Option<u8>>, Fail> {
    let mut model: Vec<Option<u8>> = Vec::new();
    let mut idx = 0usize;
    let mut next = 0u8;
    let mut fresh = || { next = next.wrapping_add(1).max(1); next };
    for &op in ops {
        case.step(1);
        let at = idx;
        // The bytes to be written, and how many are taken from the iterator.
        let mut taken = None;
        let (data, r): (Vec<u8>, _) = match op {
            Mop::Write(n) => {
                let d: Vec<u8> = (0..n).map(|_| fresh()).collect();
                let r = w.write(&mut idx, &d);
                (d, r)
            },
            Mop::Iter(n) => {
                let d: Vec<u8> = (0..n).map(|_| fresh()).collect();
                let pos = Arc::new(std::sync::atomic::AtomicUsize::new(0));
                let mut tap = Tap { data: d.clone(), at: pos.clone() };
                let r = w.write_iter(&mut idx, &mut tap);
                taken = Some(pos.load(std::sync::atomic::Ordering::Relaxed));
                (d, r)
            },
            Mop::Fill(n) => {
                let v = fresh();
                let r = w.fill(&mut idx, n, v);
                (vec![v; n], r)
            },
            Mop::Zero(n) => {
                let r = w.zero(&mut idx, n);
                (vec![0; n], r)
            },
            Mop::Align(e) => {
                let to = idx.next_multiple_of(1 << e);
                let r = w.align_exp2(&mut idx, e);
                (vec![0; to - at], r)
            },
            Mop::Skip(n) => {
                idx += n;
                continue;
            },
            Mop::Back(n) => {
                idx -= n.min(idx);
                continue;
            },
        };
        ensure!(idx >= at, "{:?} moved the offset back", op);
        let n = idx - at;
        ensure!(n <= data.len(), "{:?} moved the offset by {}", op, n);
        if let Some(t) = taken {
            ensure!(t == n, "{:?} took {} elements and wrote {}", op, t, n);
        }
        if model.len() < idx {
            model.resize(idx, None);
        }
        for j in 0..n {
            model[at + j] = Some(data[j]);
        }
        match r {
            Flow::Continue(()) => {
                ensure!(n == data.len(), "{:?} claims to be done after {} bytes", op, n);
                ensure!(n == 0 || at + n <= limit, "{:?} wrote past the limit", op);
            },
            Flow::Break(e) => {
                ensure!(fault || at + data.len() > limit, "{:?} was refused: {:?}", op, e);
                ensure!(n < data.len(), "{:?} failed after everything was written", op);
                if !fault {
                    ensure!(e == Some(map::Error::Exceeded), "{:?} failed with {:?}", op, e);
                }
                case.feature("refused");
                case.state(&(&model, idx));
                return Ok(model);
            },
        }
        case.state(&(&model, idx));
    }
    Ok(model)
}

pub fn i03(ctx: &Ctx) {
    let len = ctx.pick(5u32, 6);
    let k = MOPS.len() as u64;
    let n = seq_total(k, len);
    let shapes = MAPS.len() as u64;
    ctx.bound(format!(
        "every sequence of up to {len} of {k} write operations with {shapes} shapes of maps; with \
        every limit and every failing map call for sequences shorter by one",
    ));
    let show = |i: u64| -> Vec<Mop> { seq_at(k, i).into_iter().map(|o| MOPS[o]).collect() };

    let check = |w: &Writer, model: &[Option<u8>]| -> CaseResult {
        for (j, v) in w.data.iter().enumerate() {
            // SAFETY: All data was initialized with the poison value.
            let got = unsafe { v.assume_init() };
            let want = model.get(j).copied().flatten().unwrap_or(POISON);
            ensure!(got == want, "byte {} is {} rather than {}", j, got, want);
        }
        ensure!(
            model.iter().rposition(|v| v.is_some()).is_none_or(|j| j < w.data.len()),
            "data is missing",
        );
        ensure!(w.committed.is_empty(), "data was committed");
        Ok(())
    };

    ctx.explore("write", n * shapes, |i| format!("{:?}, {:?}", MAPS[(i % shapes) as usize], show(i / shapes)), |i, case| {
        let ops = show(i / shapes);
        let mut w = Writer::new(MAPS[(i % shapes) as usize]);
        let model = run_maps(&mut w, usize::MAX, &ops, false, case)?;
        check(&w, &model)?;
        case.trace();
        Ok(())
    });

    let n = seq_total(k, len - 1);
    ctx.explore("vector", n * 2, |i| format!("{} present, {:?}", i % 2 * 3, show(i / 2)), |i, case| {
        let ops = show(i / 2);
        let pre = (i % 2 * 3) as usize;
        let mut w: Vec<u8> = vec![0xcc; pre];
        let model = run_maps(&mut w, usize::MAX, &ops, false, case)?;
        // Bytes which have been skipped stay uninitialized.
        let full = model.iter().position(|v| v.is_none()).unwrap_or(model.len());
        ensure!(w.capacity() >= pre + full, "the buffer is too small");
        // SAFETY: The initial part is fully initialized.
        unsafe { map::Write::commit(&mut w, full) };
        let want: Vec<u8> = model[..full].iter().map(|v| v.unwrap()).collect();
        ensure!(w[..pre].iter().all(|v| *v == 0xcc), "existing data changed: {:?}", w);
        ensure!(w[pre..] == want[..], "content is {:?} rather than {:?}", &w[pre..], want);
        case.trace();
        Ok(())
    });

    let limits = 24u64;
    ctx.explore("limits", n * shapes, |i| format!("{:?}, {:?}", MAPS[(i % shapes) as usize], show(i / shapes)), |i, case| {
        let ops = show(i / shapes);
        for limit in 0..limits {
            let mut w = Writer::new(MAPS[(i % shapes) as usize]);
            w.limit = limit as usize;
            let model = run_maps(&mut w, limit as usize, &ops, false, case)
                .map_err(|e| at("limit", limit, e))?;
            check(&w, &model).map_err(|e| at("limit", limit, e))?;
            case.trace();
        }
        Ok(())
    });

    // Larger amounts of data, up to and past the limit.
    let sizes = around(ctx.pick(14, 18));
    let amounts = |n: usize| [
        Mop::Write(n), Mop::Iter(n), Mop::Fill(n), Mop::Zero(n), Mop::Align(6), Mop::Align(12), Mop::Align(16), Mop::Skip(n / 2), Mop::Back(n / 2),
    ];
    const LARGE: &[Maps] = &[Maps::Exact, Maps::Chunk(100), Maps::Chunk(4096), Maps::Excess(5000), Maps::Page(256), Maps::Page(4096)];
    let per = seq_total(9, 3);
    ctx.bound(format!("every sequence of up to 3 of 9 write operations of {} sizes up to {}, with 6 shapes of maps and 3 limits", sizes.len(), sizes[sizes.len() - 1]));
    let list = |i: u64| -> Vec<Mop> {
        let all = amounts(sizes[(i / per) as usize]);
        seq_at(9, i % per).into_iter().map(|o| all[o]).collect()
    };
    ctx.explore("large", per * sizes.len() as u64, |i| format!("{:?}", list(i)), |i, case| {
        let ops = list(i);
        let n = sizes[(i / per) as usize];
        for (j, maps) in LARGE.iter().enumerate() {
            let limit = [usize::MAX, n + n / 2, n - 1][(i as usize + j) % 3];
            let mut w = Writer::new(*maps);
            w.limit = limit;
            let model = run_maps(&mut w, limit, &ops, false, case)?;
            check(&w, &model)?;
            case.trace();
        }
        let mut w: Vec<u8> = vec![0xcc; 7];
        let model = run_maps(&mut w, usize::MAX, &ops, false, case)?;
        let full = model.iter().position(|v| v.is_none()).unwrap_or(model.len());
        // SAFETY: The initial part is fully initialized.
        unsafe { map::Write::commit(&mut w, full) };
        ensure!(w.len() == full + 7 && w[7..].iter().zip(&model).all(|(a, b)| Some(*a) == *b), "content of the vector");
        case.trace();
        // Read all of it again.
        for maps in LARGE {
            let r = Reader::new(*maps, &w);
            for (from, len) in [(0, w.len()), (7, full), (w.len() / 2, w.len() - w.len() / 2)] {
                let mut at = from;
                let mut buf = vec![POISON; len];
                let res = map::Read::read(&r, &mut at, &mut buf);
                expect_eq!(res, Flow::Continue(()), "read {} at {}", len, from);
                expect_eq!(at, from + len, "offset after reading {} at {}", len, from);
                ensure!(buf[..] == w[from..from + len], "content read from {} to {}", from, from + len);
                case.step(1);
            }
            case.trace();
        }
        Ok(())
    });

    // Single operations and pairs of very large amounts.
    let huge: Vec<usize> = [16, 17, 20].into_iter().flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).collect();
    ctx.bound("every pair of 4 write operations of 9 sizes around 2^16, 2^17, and 2^20");
    ctx.explore("huge", huge.len() as u64 * seq_total(4, 2), |i| format!("{} {:?}", huge[i as usize % 9], seq_at(4, i / 9)), |i, case| {
        let n = huge[i as usize % 9];
        let ops: Vec<Mop> = seq_at(4, i / 9).into_iter().map(|o| [Mop::Write(n), Mop::Iter(n), Mop::Fill(n), Mop::Align(20)][o]).collect();
        let mut w: Vec<u8> = Vec::new();
        let model = run_maps(&mut w, usize::MAX, &ops, false, case)?;
        // SAFETY: There are no gaps.
        unsafe { map::Write::commit(&mut w, model.len()) };
        ensure!(w.len() == model.len() && w.iter().zip(&model).all(|(a, b)| Some(*a) == *b), "content of the vector");
        let r = Reader::new(LARGE[i as usize % LARGE.len()], &w);
        let mut buf = vec![POISON; w.len()];
        let mut at = 0;
        expect_eq!(map::Read::read(&r, &mut at, &mut buf), Flow::Continue(()), "read");
        ensure!(at == w.len() && buf == w, "content read");
        case.step(1);
        case.trace();
        Ok(())
    });

    const FAULTS: &[Option<map::Error>] = &[None, Some(map::Error::Overflow), Some(map::Error::Exceeded)];
    ctx.explore("faults", n * shapes, |i| format!("{:?}, {:?}", MAPS[(i % shapes) as usize], show(i / shapes)), |i, case| {
        let ops = show(i / shapes);
        for call in 0.. {
            let mut w = Writer::new(MAPS[(i % shapes) as usize]);
            w.fail = Some((call, FAULTS[call % 3]));
            let model = run_maps(&mut w, usize::MAX, &ops, true, case)
                .map_err(|e| at("failing call", call as u64, e))?;
            check(&w, &model).map_err(|e| at("failing call", call as u64, e))?;
            case.trace();
            if w.calls <= call {
                break;
            }
            ensure!(w.calls == call + 1, "the error of call {} was not forwarded", call);
        }
        Ok(())
    });

    // Offsets at the limits of the address space.
    const EDGE: &[usize] = &[
        0, 1, 3, 4, 5, 0x7fff_ffff, 0x8000_0000, usize::MAX / 2, usize::MAX - 8, usize::MAX - 7,
        usize::MAX - 3, usize::MAX - 1, usize::MAX,
    ];
    let radix = [EDGE.len() as u64, 256, shapes];
    let total = radix.iter().product();
    ctx.explore("align", total, |i| {
        let v = mixed(i, &radix);
        format!("offset {:#x}, align to 2^{}", EDGE[v[0] as usize], v[1])
    }, |i, case| {
        let v = mixed(i, &radix);
        let (at, exp) = (EDGE[v[0] as usize], v[1] as u32);
        let mut w = Writer::new(MAPS[v[2] as usize]);
        w.limit = 64;
        let mut idx = at;
        case.step(1);
        let r = map::Write::align_exp2(&mut w, &mut idx, exp as u8);
        let to = if exp < usize::BITS { at.checked_next_multiple_of(1 << exp) } else { None };
        match to {
            Some(to) if to == at => {
                expect_eq!(r, Flow::Continue(()), "aligned offset");
                expect_eq!(idx, at, "aligned offset");
                case.feature("already aligned");
            },
            Some(to) if to <= 64 => {
                expect_eq!(r, Flow::Continue(()), "padding");
                expect_eq!(idx, to, "padding");
                case.feature("padded");
            },
            Some(_) => {
                ensure!(r == Flow::Break(Some(map::Error::Exceeded)) || r == Flow::Break(Some(map::Error::Overflow)), "got {:?}", r);
                ensure!(idx <= at.max(64), "offset moved to {}", idx);
                case.feature("exceeded");
            },
            // Offset 0 is a multiple of everything.
            None if at == 0 => {
                expect_eq!(idx, 0, "nothing to pad");
            },
            None => {
                expect_eq!(r, Flow::Break(Some(map::Error::Overflow)), "overflow");
                expect_eq!(idx, at, "overflow");
                case.feature("overflow");
            },
        }
        case.state(&(idx, exp));
        case.trace();
        Ok(())
    });

    // Reads of every range, in one or two parts.
    let sizes = ctx.pick(12usize, 20);
    let total = (sizes as u64 + 1) * shapes;
    ctx.explore("read", total, |i| format!("{} bytes, {:?}", i / shapes, MAPS[(i % shapes) as usize]), |i, case| {
        let size = (i / shapes) as usize;
        let data: Vec<u8> = (0..size as u8).map(|v| v * 3 + 1).collect();
        for idx in (0..=size + 2).chain([usize::MAX - 2, usize::MAX]) {
            for n in 0..=size + 3 {
                for call in 0..=n {
                    let mut r = Reader::new(MAPS[(i % shapes) as usize], &data);
                    if call > 0 {
                        r.fail = Some((call - 1, FAULTS[call % 3]));
                    }
                    for uninit in [false, true] {
                        r.calls.set(0);
                        let mut at = idx;
                        let mut buf = vec![POISON; n];
                        case.step(1);
                        let res = if uninit {
                            let mut b = vec![MaybeUninit::new(POISON); n];
                            let res = map::Read::read_uninit(&r, &mut at, &mut b);
                            for j in 0..n {
                                // SAFETY: All data was initialized.
                                buf[j] = unsafe { b[j].assume_init() };
                            }
                            res
                        } else {
                            map::Read::read(&r, &mut at, &mut buf)
                        };
                        let got = at.wrapping_sub(idx);
                        ensure!(got <= n, "offset moved by {}", got);
                        for j in 0..n {
                            let want = if j < got { data[idx + j] } else { POISON };
                            ensure!(buf[j] == want, "offset {} length {}: byte {} is {}", idx, n, j, buf[j]);
                        }
                        let failed = call > 0 && r.calls.get() >= call;
                        match res {
                            Flow::Continue(()) => {
                                ensure!(got == n, "read {} of {} bytes", got, n);
                                ensure!(!failed, "the error was not forwarded");
                            },
                            Flow::Break(e) => {
                                ensure!(got < n, "failed after all was read");
                                if failed {
                                    expect_eq!(e, FAULTS[call % 3], "forwarded error");
                                    expect_eq!(r.calls.get(), call, "calls after the error");
                                    case.feature("failing map");
                                } else {
                                    ensure!(
                                        idx.checked_add(n).is_none_or(|v| v > size),
                                        "offset {} length {}: {:?}", idx, n, e,
                                    );
                                    let want = if at.checked_add(n - got).is_none() {
                                        map::Error::Overflow
                                    } else {
                                        map::Error::Exceeded
                                    };
                                    expect_eq!(e, Some(want), "offset {} length {}", idx, n);
                                    case.feature("past the end");
                                }
                            },
                        }
                        case.state(&(size, at, n));
                        case.trace();
                    }
                }
            }
        }
        Ok(())
    });

    // The implementations provided for slices and vectors.
    ctx.explore("provided", sizes as u64 + 1, |i| format!("{i} bytes"), |i, case| {
        let size = i as usize;
        let data: Vec<u8> = (0..size as u8).map(|v| v * 3 + 1).collect();
        let edge = [usize::MAX / 2, usize::MAX - size, usize::MAX - 1, usize::MAX];
        for idx in (0..=size + 2).chain(edge) {
            for n in (0..=size + 2).chain(edge) {
                case.step(2);
                let r = map::Read::map(&data[..], idx, n);
                match idx.checked_add(n) {
                    None => expect_eq!(r, Flow::Break(Some(map::Error::Overflow)), "read {} at {}", n, idx),
                    Some(end) if end > size => {
                        expect_eq!(r, Flow::Break(Some(map::Error::Exceeded)), "read {} at {}", n, idx)
                    },
                    Some(end) => expect_eq!(r, Flow::Continue(&data[idx..end]), "read {} at {}", n, idx),
                }
                let mut v = data.clone();
                let r = map::Write::map(&mut v, idx, n).map_continue(|v| v.len());
                match idx.checked_add(n) {
                    None => expect_eq!(r, Flow::Break(Some(map::Error::Overflow)), "write {} at {}", n, idx),
                    Some(end) if end > 1 << 48 => {
                        expect_eq!(r, Flow::Break(Some(map::Error::Exceeded)), "write {} at {}", n, idx)
                    },
                    Some(_) => ensure!(
                        r.continue_value().is_some_and(|l| l > 0 || n == 0),
                        "write {} at {}: nothing mapped", n, idx,
                    ),
                }
                ensure!(v == data, "mapping changed the content");
                case.trace();
            }
        }
        Ok(())
    });
}

fn at(what: &str, n: u64, e: Fail) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("{what} {n}: {m}")),
        v => v,
    }
}
