//! Allocator that counts the memory in use by each thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static USED: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn account(n: isize) {
    let _ = USED.try_with(|used| {
        let v = used.get() + n;
        used.set(v);
        let _ = PEAK.try_with(|peak| {
            if v > peak.get() {
                peak.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(layout) };
        if !p.is_null() {
            account(layout.size() as isize);
        }
        p
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        account(-(layout.size() as isize));
        unsafe { System.dealloc(ptr, layout) };
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let p = unsafe { System.realloc(ptr, layout, size) };
        if !p.is_null() {
            account(size as isize - layout.size() as isize);
        }
        p
    }
}

/// Run the function and return how much memory it had in use at most, on top
/// of what was in use before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = USED.with(|v| v.get());
    PEAK.with(|v| v.set(before));
    let r = f();
    let after = PEAK.with(|v| v.get());
    (r, (after - before).max(0) as usize)
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
const ROOM: usize = 16 * PAGE;

thread_local! {
    // A page that cannot be accessed, followed by memory that can be, followed
    // by another page that cannot.
    static FENCED: *mut u8 = unsafe {
        let p = mmap(core::ptr::null_mut(), ROOM + 2 * PAGE, 0, 0x22, -1, 0);
        assert!(p as isize != -1, "no memory");
        let p = p.add(PAGE);
        assert_eq!(mprotect(p, ROOM, 3), 0);
        p
    };
}

/// The start of memory that ends right in front of a page that cannot be
/// accessed. A later call yields the same memory.
pub fn fenced_tail(len: usize) -> *mut u8 {
    assert!(len <= ROOM / 2);
    FENCED.with(|v| unsafe { v.add(ROOM - len) })
}

/// The start of memory that follows right after a page that cannot be
/// accessed. A later call yields the same memory.
pub fn fenced_head(len: usize) -> *mut u8 {
    assert!(len <= ROOM / 2);
    FENCED.with(|v| *v)
}

/// Text of the given length, which is all zeros and thus takes no memory.
pub fn endless(len: usize) -> &'static str {
    const MAX: usize = 9 << 30;
    static BASE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    assert!(len <= MAX);
    let base = *BASE.get_or_init(|| unsafe {
        // Read-only, private, anonymous, without reservation.
        let p = mmap(core::ptr::null_mut(), MAX, 1, 0x4022, -1, 0);
        assert!(p as isize != -1, "no memory");
        p as usize
    });
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(base as *const u8, len)) }
}
