//! Readers and writers for mapped I/O, which return maps of any shape the
//! interface allows and fail on request.

use core::cell::Cell;
use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use tmp::io::map::{Error, Read, Write};

/// Shape of the maps that are returned.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum Maps {
    /// As much as was asked for.
    Exact,
    /// At most this much.
    Chunk(usize),
    /// More than was asked for.
    Excess(usize),
    /// Up to the next multiple of this offset.
    Page(usize),
}

pub const MAPS: &[Maps] = &[
    Maps::Exact, Maps::Chunk(1), Maps::Chunk(3), Maps::Excess(5), Maps::Page(4), Maps::Page(7),
];

impl Maps {
    fn end(&self, idx: usize, len: usize) -> usize {
        match *self {
            Maps::Exact => idx + len,
            Maps::Chunk(n) => idx + len.min(n),
            Maps::Excess(n) => idx + len + n,
            Maps::Page(n) => (idx + 1).next_multiple_of(n),
        }
    }
}

pub const POISON: u8 = 0xee;

pub struct Writer {
    pub maps: Maps,
    pub data: Vec<MaybeUninit<u8>>,
    /// No map reaches past this offset.
    pub limit: usize,
    pub calls: usize,
    /// The call that fails once, and how.
    pub fail: Option<(usize, Option<Error>)>,
    /// Another call that fails once, and how.
    pub again: Option<(usize, Option<Error>)>,
    pub committed: Vec<usize>,
}

impl Writer {
    pub fn new(maps: Maps) -> Self {
        Self {
            maps,
            data: Vec::new(),
            limit: usize::MAX,
            calls: 0,
            fail: None,
            again: None,
            committed: Vec::new(),
        }
    }

    /// Everything that was committed.
    pub fn bytes(&self) -> Vec<u8> {
        let n: usize = self.committed.iter().sum();
        // SAFETY: The buffer is always initialized to the poison value.
        self.data[..n.min(self.data.len())].iter().map(|v| unsafe { v.assume_init() }).collect()
    }

}

impl Write for Writer {
    unsafe fn commit(&mut self, len: usize) {
        self.committed.push(len);
    }

    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [MaybeUninit<u8>]> {
        if len == 0 {
            return Flow::Continue(&mut []);
        }
        let call = self.calls;
        self.calls += 1;
        for (n, e) in self.fail.into_iter().chain(self.again) {
            if call == n {
                return Flow::Break(e);
            }
        }
        if idx.checked_add(len).is_none() {
            return Flow::Break(Some(Error::Overflow));
        }
        if idx >= self.limit {
            return Flow::Break(Some(Error::Exceeded));
        }
        let end = self.maps.end(idx, len).min(self.limit);
        if self.data.len() < end {
            self.data.resize(end, MaybeUninit::new(POISON));
        }
        Flow::Continue(&mut self.data[idx..end])
    }
}

pub struct Reader<'a> {
    pub maps: Maps,
    pub data: &'a [u8],
    pub calls: Cell<usize>,
    pub fail: Option<(usize, Option<Error>)>,
    pub again: Option<(usize, Option<Error>)>,
}

impl<'a> Reader<'a> {
    pub fn new(maps: Maps, data: &'a [u8]) -> Self {
        Self { maps, data, calls: Cell::new(0), fail: None, again: None }
    }
}

impl<'a> Read for Reader<'a> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<Error>, &[u8]> {
        if len == 0 {
            return Flow::Continue(&[]);
        }
        let call = self.calls.get();
        self.calls.set(call + 1);
        for (n, e) in self.fail.into_iter().chain(self.again) {
            if call == n {
                return Flow::Break(e);
            }
        }
        if idx.checked_add(len).is_none() {
            return Flow::Break(Some(Error::Overflow));
        }
        if idx >= self.data.len() {
            return Flow::Break(Some(Error::Exceeded));
        }
        let end = match self.maps {
            Maps::Exact if idx + len > self.data.len() => return Flow::Break(Some(Error::Exceeded)),
            _ => self.maps.end(idx, len).min(self.data.len()),
        };
        Flow::Continue(&self.data[idx..end])
    }
}

/// An output without end, which only keeps its first bytes.
pub struct Sink {
    pub head: Vec<MaybeUninit<u8>>,
    room: Vec<MaybeUninit<u8>>,
    pub limit: usize,
    pub committed: Vec<usize>,
}

impl Sink {
    pub fn new(limit: usize) -> Self {
        Self {
            head: vec![MaybeUninit::new(POISON); 64],
            room: vec![MaybeUninit::new(POISON); 1 << 20],
            limit,
            committed: Vec::new(),
        }
    }

    /// The first bytes.
    pub fn bytes(&self) -> Vec<u8> {
        // SAFETY: The buffer is always initialized to the poison value.
        self.head.iter().map(|v| unsafe { v.assume_init() }).collect()
    }
}

impl Write for Sink {
    unsafe fn commit(&mut self, len: usize) {
        self.committed.push(len);
    }

    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [MaybeUninit<u8>]> {
        if len == 0 {
            return Flow::Continue(&mut []);
        }
        if idx >= self.limit {
            return Flow::Break(Some(Error::Exceeded));
        }
        let len = len.min(self.limit - idx);
        if idx < self.head.len() {
            let end = self.head.len().min(idx + len);
            return Flow::Continue(&mut self.head[idx..end]);
        }
        let len = len.min(self.room.len());
        Flow::Continue(&mut self.room[..len])
    }
}
