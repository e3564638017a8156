//! Memory helpers, pointers, containers, errors, and compatibility types.

use core::cell::{Cell, RefCell};
use core::cmp::Ordering;
use core::fmt::{Debug, Write as _};
use core::hash::{Hash, Hasher};
use core::mem::{align_of, size_of, MaybeUninit};
use core::pin::Pin;
use core::ptr::NonNull;
use mc::engine::*;
use mc::memory::{fenced_head, fenced_tail};
use mc::uncaught::{self, Limited};
use mc::{ensure, expect_eq};
use osi::cmp::Identity;
use osi::convert::{FromDeref, IntoDeref};
use osi::mem;
use osi::meta::{container_of_ptr, field_of, field_of_mut, field_of_ptr, Field};
use osi::mown::Mown;
use osi::ptr::{NonNull4, OnceRef, Ptr};
use std::rc::Rc;
use std::sync::Arc;

/// Records everything that is hashed.
#[derive(Default)]
struct Tape(Vec<u8>);

impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }

    fn write(&mut self, v: &[u8]) {
        self.0.extend_from_slice(v);
    }
}

fn tape<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut t = Tape::default();
    v.hash(&mut t);
    t.0
}

/// The order of two values according to all operators.
fn order<T: Ord>(a: &T, b: &T) -> (Ordering, Option<Ordering>, [bool; 6]) {
    (a.cmp(b), a.partial_cmp(b), [a == b, a != b, a < b, a <= b, a > b, a >= b])
}

/// The same, derived from a single comparison.
fn order_of(o: Ordering) -> (Ordering, Option<Ordering>, [bool; 6]) {
    use Ordering::*;
    (o, Some(o), [o == Equal, o != Equal, o == Less, o != Greater, o == Greater, o != Less])
}

/// Numbers around the powers of two.
fn around(exp: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=exp).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).filter(|v| *v > 0).collect();
    v.sort();
    v.dedup();
    v
}

// M01

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(8))]
struct Over<const N: usize>([u8; N]);

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(16))]
struct Wide<const N: usize>([u8; N]);

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(2))]
struct Under<const N: usize>([u8; N]);

fn pattern<const N: usize>(kind: u64) -> [u8; N] {
    core::array::from_fn(|i| match kind {
        0 => i as u8 + 1,
        1 => 0xff - i as u8,
        2 => 0,
        3 => 0xff,
        k => {
            // A single byte that differs.
            let k = k as usize - 4;
            if i == k % N.max(1) { 0xa0 + (k / N.max(1)) as u8 } else { 0x11 }
        },
    })
}

/// Copy a value as another type, from an address with the given offset.
fn copy_as<S: Copy, D: Copy, const N: usize, const M: usize>(src: [u8; N], off: usize, c: &mut Case) -> CaseResult {
    assert!(size_of::<S>() >= N && size_of::<D>() >= M);
    // Place the source at an address with exactly its own alignment.
    let mut buf = [0u128; 8];
    let at = match off {
        4 => fenced_tail(size_of::<S>()),
        5 => fenced_head(size_of::<S>()),
        _ => unsafe { (buf.as_mut_ptr() as *mut u8).add(off * align_of::<S>()) },
    };
    unsafe { core::ptr::copy(src.as_ptr(), at, N) };
    let s = unsafe { &*(at as *const S) };
    let d: MaybeUninit<D> = unsafe { mem::transmute_copy_uninit(s) };
    let n = N.min(M);
    let got = unsafe { core::slice::from_raw_parts(d.as_ptr() as *const u8, n) };
    expect_eq!(got, &src[..n], "{} bytes aligned to {} copied as {} bytes aligned to {}", N, align_of::<S>(), M, align_of::<D>());
    expect_eq!(unsafe { core::slice::from_raw_parts(at, N) }, &src[..], "source");
    c.step(1);
    Ok(())
}

fn swap<const N: usize>(src: [u8; N], c: &mut Case) -> CaseResult {
    let mut want = src;
    want.reverse();
    expect_eq!(unsafe { mem::bswap_copy(&src) }, want, "{} swapped bytes", N);
    expect_eq!(unsafe { mem::bswap_copy(&mem::bswap_copy(&src)) }, src, "{} bytes swapped twice", N);
    // The same without any alignment.
    let mut buf = [0u8; 80];
    for off in 0..9 {
        buf[off..off + N].copy_from_slice(&src);
        let p = unsafe { &*(buf.as_ptr().add(off) as *const [u8; N]) };
        expect_eq!(unsafe { mem::bswap_copy(p) }, want, "{} swapped bytes at offset {}", N, off);
        c.step(1);
    }
    // The same next to memory that cannot be accessed.
    for at in [fenced_tail(N), fenced_head(N)] {
        unsafe { core::ptr::copy(src.as_ptr(), at, N) };
        let p = unsafe { &*(at as *const [u8; N]) };
        expect_eq!(unsafe { mem::bswap_copy(p) }, want, "{} swapped bytes", N);
        ensure!(unsafe { mem::eq(p, &src) && mem::eq(&src, p) }, "equal memory of {} bytes differs", N);
        expect_eq!(unsafe { mem::as_bytes(p) }, &src[..], "{} bytes", N);
        c.step(4);
    }
    c.step(2);
    Ok(())
}

fn alias<const N: usize>(src: [u8; N], c: &mut Case) -> CaseResult {
    let mut v = src;
    expect_eq!(unsafe { mem::as_bytes(&v) }, &src[..], "bytes");
    expect_eq!(unsafe { mem::as_bytes(&v) }.as_ptr(), &raw const v as *const u8, "address of bytes");
    for i in 0..N {
        let m = unsafe { mem::as_bytes_mut(&mut v) };
        expect_eq!(m.len(), N, "length");
        m[i] ^= 0x5a;
        let mut want = src;
        want[i] ^= 0x5a;
        expect_eq!(v, want, "written byte {}", i);
        ensure!(!unsafe { mem::eq(&v, &src) }, "memory that differs at {} compares equal", i);
        ensure!(unsafe { mem::eq(&v, &want) }, "equal memory differs");
        v = src;
        c.step(3);
    }
    ensure!(unsafe { mem::eq(&v, &src) }, "equal memory differs");
    // Alias as uninitialized and back.
    let u = mem::as_uninit(&v);
    expect_eq!(u.as_ptr(), &raw const v, "uninitialized alias");
    expect_eq!(unsafe { *mem::assume_init(u) }, src, "initialized alias");
    let u = mem::slice_as_uninit(&v);
    expect_eq!((u.as_ptr() as *const u8, u.len()), (v.as_ptr(), N), "uninitialized slice");
    expect_eq!(unsafe { mem::slice_assume_init(u) }, &src[..], "initialized slice");
    let mut u = MaybeUninit::new(src);
    let p = u.as_ptr();
    let m = unsafe { mem::assume_init_mut(&mut u) };
    expect_eq!(&raw const *m, p, "mutable alias");
    m.reverse();
    let mut want = src;
    want.reverse();
    expect_eq!(unsafe { u.assume_init() }, want, "written alias");
    let mut u: [MaybeUninit<u8>; N] = src.map(MaybeUninit::new);
    let m = unsafe { mem::slice_assume_init_mut(&mut u) };
    expect_eq!(m.len(), N, "mutable slice");
    m.reverse();
    expect_eq!(u.map(|v| unsafe { v.assume_init() }), want, "written slice");
    c.step(8);
    Ok(())
}

#[allow(dead_code)]
mod shapes {
    #[repr(C)]
    pub struct A { pub a: u8, pub b: u64, pub c: u16, pub d: [u8; 3], pub e: u128, pub f: () }
    pub struct B { pub a: u8, pub b: u64, pub c: u16, pub d: (u8, u32), pub e: Option<u32> }
    #[repr(C, packed)]
    pub struct C { pub a: u8, pub b: u64, pub c: u16, pub d: u128 }
    #[repr(C, align(64))]
    pub struct D { pub a: [u8; 65], pub b: super::shapes::E }
    #[derive(Clone, Copy)]
    pub union E { pub a: u8, pub b: u64, pub c: [u16; 9] }
    #[repr(transparent)]
    pub struct F { pub a: (), pub b: u32 }
}

/// View slices as uninitialized and back.
fn slices<T: Clone + PartialEq>(v: &mut [T], c: &mut Case) -> CaseResult {
    let (at, n) = (v.as_ptr(), v.len());
    let u = mem::slice_as_uninit(v);
    ensure!(u.as_ptr() as *const T == at && u.len() == n, "uninitialized slice of {} of {}", u.len(), n);
    let i = unsafe { mem::slice_assume_init(core::slice::from_raw_parts(at as *const MaybeUninit<T>, n)) };
    ensure!(i.as_ptr() == at && i.len() == n, "initialized slice of {} of {}", i.len(), n);
    let m = unsafe { mem::slice_assume_init_mut(core::slice::from_raw_parts_mut(at as *mut MaybeUninit<T>, n)) };
    ensure!(m.as_ptr() == at && m.len() == n, "mutable slice of {} of {}", m.len(), n);
    c.step(3);
    c.trace();
    Ok(())
}

pub fn m01(ctx: &Ctx) {
    let sizes = around(20);
    ctx.bound(format!("views of slices of {} lengths up to {} of 8 types", sizes.len(), sizes[sizes.len() - 1]));
    ctx.explore("slices", sizes.len() as u64, |i| format!("{} elements", sizes[i as usize]), |i, c| {
        let n = sizes[i as usize];
        slices(&mut vec![(); n], c)?;
        slices(&mut vec![1u8; n], c)?;
        slices(&mut vec![1u16; n], c)?;
        slices(&mut vec![1u32; n], c)?;
        slices(&mut vec![1u64; n], c)?;
        slices(&mut vec![[1u8; 3]; n], c)?;
        slices(&mut vec![(1u8, 1u64); n], c)?;
        slices(&mut vec![Some(String::new()); n], c)?;
        c.state(&("slices", n));
        Ok(())
    });
    ctx.single("sizeless", "more elements than fit into memory", |c| {
        for n in [1 << 31, 1 << 32, usize::MAX / 2, usize::MAX] {
            slices(&mut vec![(); n], c)?;
        }
        Ok(())
    });
    ctx.bound("all pairs of sizes 0 to 20 and 31 to 33 with 3 alignments each, all sizes 0 to 40, all patterns with one byte that differs");
    macro_rules! with_size {
        ($i:expr, $k:ident) => {
            match $i {
                0 => $k!(0), 1 => $k!(1), 2 => $k!(2), 3 => $k!(3), 4 => $k!(4), 5 => $k!(5), 6 => $k!(6), 7 => $k!(7),
                8 => $k!(8), 9 => $k!(9), 10 => $k!(10), 11 => $k!(11), 12 => $k!(12), 13 => $k!(13), 14 => $k!(14),
                15 => $k!(15), 16 => $k!(16), 17 => $k!(17), 18 => $k!(18), 19 => $k!(19), 20 => $k!(20), 21 => $k!(21),
                22 => $k!(22), 23 => $k!(23), 24 => $k!(24), 25 => $k!(25), 26 => $k!(26), 27 => $k!(27), 28 => $k!(28),
                29 => $k!(29), 30 => $k!(30), 31 => $k!(31), 32 => $k!(32), 33 => $k!(33), 34 => $k!(34), 35 => $k!(35),
                36 => $k!(36), 37 => $k!(37), 38 => $k!(38), 39 => $k!(39), _ => $k!(40),
            }
        };
    }
    ctx.explore("swap", 41 * 84, |i| format!("{} bytes, pattern {}", i / 84, i % 84), |i, c| {
        macro_rules! go { ($n:expr) => {{ swap::<$n>(pattern(i % 84), c)?; alias::<$n>(pattern(i % 84), c)?; }} }
        with_size!(i / 84, go);
        c.state(&i);
        c.trace();
        Ok(())
    });
    // Wider types, which take other paths.
    ctx.explore("swap-integers", 84, |i| format!("pattern {}", i), |i, c| {
        macro_rules! int {
            ($($t:ty, $n:expr;)*) => { $({
                let b = pattern::<$n>(i);
                let mut r = b;
                r.reverse();
                let v = <$t>::from_ne_bytes(b);
                expect_eq!(unsafe { mem::bswap_copy(&v) }, <$t>::from_ne_bytes(r), "swapped {}", stringify!($t));
                let a = [v, <$t>::from_ne_bytes(r), v];
                let s = unsafe { mem::bswap_copy(&a) };
                expect_eq!(s, [<$t>::from_ne_bytes(r), v, <$t>::from_ne_bytes(r)], "swapped array of {}", stringify!($t));
                c.step(2);
            })* }
        }
        int!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; i8, 1; i16, 2; i32, 4; i64, 8; i128, 16; usize, 8;);
        let b = pattern::<4>(i);
        let f = f32::from_bits(u32::from_ne_bytes(b));
        expect_eq!(unsafe { mem::bswap_copy(&f) }.to_bits(), f.to_bits().swap_bytes(), "swapped float");
        c.trace();
        Ok(())
    });
    const PATTERNS: u64 = 12;
    ctx.explore("copy", 24 * PATTERNS, |i| format!("source #{}, pattern {}", i / PATTERNS, i % PATTERNS), |i, c| {
        macro_rules! pair {
            ($n:expr, $m:expr) => {{
                let src = pattern::<$n>(i % PATTERNS);
                for off in 0..6 {
                    copy_as::<[u8; $n], [u8; $m], $n, $m>(src, off, c)?;
                    copy_as::<[u8; $n], Over<$m>, $n, $m>(src, off, c)?;
                    copy_as::<Over<$n>, [u8; $m], $n, $m>(src, off, c)?;
                    copy_as::<Under<$n>, Over<$m>, $n, $m>(src, off, c)?;
                    copy_as::<Under<$n>, Wide<$m>, $n, $m>(src, off, c)?;
                    copy_as::<[u8; $n], Wide<$m>, $n, $m>(src, off, c)?;
                    copy_as::<Over<$n>, Under<$m>, $n, $m>(src, off, c)?;
                }
            }};
        }
        macro_rules! all {
            ($n:expr) => {{
                pair!($n, 0); pair!($n, 1); pair!($n, 2); pair!($n, 3); pair!($n, 4); pair!($n, 5); pair!($n, 7); pair!($n, 8);
                pair!($n, 9); pair!($n, 12); pair!($n, 15); pair!($n, 16); pair!($n, 17); pair!($n, 24); pair!($n, 31);
                pair!($n, 32); pair!($n, 33);
            }};
        }
        match i / PATTERNS {
            0 => all!(0), 1 => all!(1), 2 => all!(2), 3 => all!(3), 4 => all!(4), 5 => all!(5), 6 => all!(6), 7 => all!(7),
            8 => all!(8), 9 => all!(9), 10 => all!(10), 11 => all!(11), 12 => all!(12), 13 => all!(13), 14 => all!(14),
            15 => all!(15), 16 => all!(16), 17 => all!(17), 18 => all!(18), 19 => all!(23), 20 => all!(24), 21 => all!(31),
            22 => all!(32), _ => all!(33),
        }
        c.state(&i);
        c.trace();
        Ok(())
    });
    // Memory of different types and sizes.
    let k = 3u64;
    let n = seq_total(k, 4);
    ctx.explore("compare", n * n, |i| format!("{:?} and {:?}", seq_at(k, i / n), seq_at(k, i % n)), |i, c| {
        let (a, b) = (seq_at(k, i / n), seq_at(k, i % n));
        fn arr<const N: usize>(v: &[usize]) -> [u8; N] {
            core::array::from_fn(|i| [0x00, 0x01, 0x80][v[i]])
        }
        macro_rules! second {
            ($a:expr) => {
                match b.len() {
                    0 => unsafe { mem::eq(&$a, &arr::<0>(&b)) },
                    1 => unsafe { mem::eq(&$a, &arr::<1>(&b)) },
                    2 => unsafe { mem::eq(&$a, &u16::from_ne_bytes(arr(&b))) },
                    3 => unsafe { mem::eq(&$a, &arr::<3>(&b)) },
                    _ => unsafe { mem::eq(&$a, &u32::from_ne_bytes(arr(&b))) },
                }
            };
        }
        let got = match a.len() {
            0 => second!(arr::<0>(&a)),
            1 => second!(arr::<1>(&a)[0]),
            2 => second!(arr::<2>(&a)),
            3 => second!(arr::<3>(&a)),
            _ => second!(arr::<4>(&a)),
        };
        expect_eq!(got, a == b, "memory compared");
        c.step(1);
        c.state(&i);
        c.trace();
        Ok(())
    });
    ctx.single("offsets", "typed offsets of members", |c| {
        use shapes::*;
        macro_rules! off {
            ($($s:ident, $f:ident, $t:ty;)*) => { $(
                expect_eq!(
                    mem::typed_offset_of!($s, $f, $t), core::mem::offset_of!($s, $f),
                    "offset of {} in {}", stringify!($f), stringify!($s)
                );
                c.step(1);
            )* }
        }
        off!(
            A, a, u8; A, b, u64; A, c, u16; A, d, [u8; 3]; A, e, u128; A, f, ();
            B, a, u8; B, b, u64; B, c, u16; B, d, (u8, u32); B, e, Option<u32>;
            C, a, u8; C, b, u64; C, c, u16; C, d, u128;
            D, a, [u8; 65]; D, b, E; F, a, (); F, b, u32;
        );
        c.trace();
        Ok(())
    });
    large_memory(ctx);
}

/// Larger memory: one byte that differs, at every position.
fn bulk<const N: usize>(at: usize, c: &mut Case) -> CaseResult {
    let mut src = [0u8; N];
    for (i, v) in src.iter_mut().enumerate() {
        *v = (i ^ i >> 8) as u8;
    }
    let orig = src;
    src[at] ^= 0x80;
    ensure!(!unsafe { mem::eq(&src, &orig) }, "{} bytes of memory that differ at {} compare equal", N, at);
    let twin = src;
    ensure!(unsafe { mem::eq(&src, &twin) }, "equal memory of {} bytes differs", N);
    let mut want = src;
    want.reverse();
    ensure!(unsafe { mem::bswap_copy(&src) } == want, "{} swapped bytes", N);
    ensure!(unsafe { mem::as_bytes(&src) } == &src[..], "{} bytes", N);
    let less: MaybeUninit<[u8; 61]> = unsafe { mem::transmute_copy_uninit(&src) };
    let n = N.min(61);
    expect_eq!(unsafe { core::slice::from_raw_parts(less.as_ptr() as *const u8, n) }, &src[..n], "{} bytes copied as 61", N);
    let more: MaybeUninit<[u8; 70001]> = unsafe { mem::transmute_copy_uninit(&src) };
    ensure!(unsafe { core::slice::from_raw_parts(more.as_ptr() as *const u8, N) } == &src[..], "{} bytes copied as 70001", N);
    let mut dst = [0u8; N];
    unsafe { mem::as_bytes_mut(&mut dst) }.copy_from_slice(&src);
    ensure!(dst == src, "{} bytes written", N);
    c.step(7);
    Ok(())
}

fn large_memory(ctx: &Ctx) {
    ctx.bound("memory of 16 sizes up to 65537 bytes with one byte that differs around every power of two");
    const AT: u64 = 17 * 3;
    ctx.explore("large", 16 * AT, |i| format!("size #{}, byte {}", i / AT, i % AT), |i, c| {
        let at = (1usize << (i % AT / 3)) + (i % 3) as usize - 1;
        macro_rules! go {
            ($($k:literal $n:literal)*) => {
                match i / AT {
                    $($k => bulk::<$n>(if at < $n { at } else { $n - 1 }, c)?,)*
                    _ => unreachable!(),
                }
            };
        }
        go!(0 63 1 64 2 65 3 127 4 128 5 129 6 255 7 256 8 257 9 511 10 512 11 1025 12 4096 13 4097 14 65536 15 65537);
        c.state(&i);
        c.trace();
        Ok(())
    });
}

// M02

/// Convert a pointer in all ways. Each has to keep the address and the size.
fn kinds<T: ?Sized>(v: &mut T, c: &mut Case) -> CaseResult {
    let (at, size) = (&raw const *v, size_of_val(v));
    let same = |p: *const T| core::ptr::eq(p, at) && size_of_val(unsafe { &*p }) == size;
    macro_rules! all {
        ($($e:expr),* $(,)?) => { $(
            let p: *const T = $e;
            ensure!(same(p), "{} of a value of {} bytes leads elsewhere", stringify!($e), size);
            c.step(1);
        )* }
    }
    unsafe {
        let r = at as *mut T;
        all!(
            osi::ptr::nonnull_from_ref(v).as_ptr(),
            osi::ptr::nonnull_from_mut(v).as_ptr(),
            osi::ptr::nonnull_from_pin_ref(Pin::new_unchecked(&*v)).as_ptr(),
            osi::ptr::nonnull_from_pin_mut(Pin::new_unchecked(&mut *v)).as_ptr(),
            osi::pin::as_ptr(Pin::new_unchecked(&*v)),
            osi::pin::as_mut_ptr(Pin::new_unchecked(&mut *v)),
            &raw const **osi::pin::as_inner(&Pin::new_unchecked(&*v)),
            &raw const *osi::pin::map_unchecked(Pin::new_unchecked(&*v), |v| v),
            Ptr::from_ref(&*v).into_ptr(),
            Ptr::from(&*v).as_ptr(),
            Ptr::from_ptr(r).into_nonnull().as_ptr(),
            Ptr::from_ptr(r).as_nonnull().as_ptr(),
            Ptr::from_ptr(r).into_ref(),
            Ptr::from_ptr(r).into_mut(),
            Ptr::from_ptr(r).as_ref(),
            Ptr::from_ptr(r).as_mut(),
            Ptr::from_ptr(r).into(),
            Ptr::new(NonNull::new_unchecked(r)).clone().as_ptr(),
            <*mut T>::from(Ptr::from_ptr(r)),
            NonNull::from(Ptr::from_ptr(r)).as_ptr(),
            OnceRef::from_ref(&*v).into_ptr(),
            OnceRef::from_mut(&mut *v).into_ptr(),
            OnceRef::from_nonnull(NonNull::new_unchecked(r)).as_ptr(),
            OnceRef::from_ptr(r).into_nonnull().as_ptr(),
            OnceRef::from_ptr(r).as_nonnull().as_ptr(),
            OnceRef::from_ptr(r).into_ref(),
            OnceRef::from_ptr(r).into_mut(),
            OnceRef::from_ptr(r).as_ref(),
            OnceRef::from_ptr(r).as_mut(),
            &raw const *OnceRef::from_ptr(r),
            OnceRef::from_ptr(r).into(),
            <*mut T>::from(OnceRef::from_ptr(r)),
            NonNull::from(OnceRef::from_ptr(r)).as_ptr(),
            &raw const *OnceRef::pin_from_ref(Pin::new_unchecked(&*v)),
            &raw const *OnceRef::pin_from_mut(Pin::new_unchecked(&mut *v)),
            &raw const *Pin::<OnceRef<T>>::from(Pin::new_unchecked(&*v)),
            &raw const *Pin::<OnceRef<T>>::from(Pin::new_unchecked(&mut *v)),
            &raw const *<&T>::into_deref(&*v),
            &raw const *<&mut T>::into_deref(&mut *v),
            <&T>::from_deref(OnceRef::from_ptr(r)),
            <&mut T>::from_deref(OnceRef::from_ptr(r)),
        );
    }
    Ok(())
}

pub fn m02(ctx: &Ctx) {
    let len = ctx.pick(5, 6);
    ctx.bound(format!(
        "all addresses with all low bits around powers of two; all histories of up to {} operations of 17 on pointers and slices",
        len
    ));
    let mut addrs = Vec::new();
    for i in 0..64 {
        for d in -9isize..=9 {
            let a = (1usize << i).wrapping_add(d as usize);
            if a != 0 {
                addrs.push(a);
            }
        }
    }
    addrs.sort();
    addrs.dedup();
    ctx.explore("new", addrs.len() as u64, |i| format!("{:#x}", addrs[i as usize]), |i, c| {
        let a = addrs[i as usize];
        let p = NonNull::new(a as *mut u8).unwrap();
        let v = NonNull4::new(p);
        expect_eq!(v.is_some(), a % 4 == 0, "creation at {:#x}", a);
        expect_eq!(size_of::<Option<NonNull4<u8>>>(), size_of::<*const u8>(), "size of an optional pointer");
        let s = NonNull::slice_from_raw_parts(p, 5);
        expect_eq!(NonNull4::new(s).is_some(), a % 4 == 0, "creation of a slice at {:#x}", a);
        c.step(2);
        c.trace();
        c.state(&a);
        let Some(mut v) = v else { return Ok(()) };
        expect_eq!(v.ptr(), p, "pointer");
        expect_eq!(v.meta(), 0, "initial metadata");
        let mut all = Vec::new();
        // Any metadata, including bits that do not fit.
        for m in (0..16).chain([0x100, 0x103, usize::MAX, usize::MAX - 1, 1 << 63, 1 << 31 | 2]) {
            v.set_meta(m);
            expect_eq!((v.ptr(), v.meta()), (p, m % 4), "metadata {:#x}", m);
            for b in 0..64 {
                expect_eq!(v.meta_bit(b), (m % 4) >> b == 1 || (m % 4 == 3 && b == 0), "bit {} of {:#x}", b, m);
            }
            expect_eq!((v.get0(), v.get1()), (m & 1 != 0, m & 2 != 0), "bits of {:#x}", m);
            let mut w = v;
            for b in 2..64 {
                w.set_meta_bit(b, true);
                expect_eq!(w, v, "setting bit {}", b);
                w.set_meta_bit(b, false);
                expect_eq!(w, v, "clearing bit {}", b);
            }
            all.push((m % 4, v));
            c.step(190);
        }
        for x in &all {
            for y in &all {
                expect_eq!(x.1 == y.1, x.0 == y.0, "comparison of {} and {}", x.0, y.0);
                expect_eq!(tape(&x.1) == tape(&y.1), x.0 == y.0, "hash of {} and {}", x.0, y.0);
                c.step(1);
            }
        }
        Ok(())
    });
    let names = [
        "meta 0", "meta 1", "meta 2", "meta 3", "meta 6", "set0", "clear0", "set1", "clear1", "set bit 0", "clear bit 1",
        "set bit 5", "ptr 0", "ptr 1", "ptr 2", "copy", "meta max",
    ];
    let k = names.len() as u64;
    ctx.explore("histories", seq_total(k, len), |i| seq_at(k, i).into_iter().map(|v| names[v]).collect::<Vec<_>>().join(", "), |i, c| {
        let ops = seq_at(k, i);
        let ptrs = [0x1000usize, 0x7ffc, usize::MAX - 3].map(|v| NonNull::new(v as *mut u32).unwrap());
        let slices = [(0x1000usize, 1), (0x7ffc, 2), (usize::MAX - 3, 0)]
            .map(|v| NonNull::slice_from_raw_parts(NonNull::new(v.0 as *mut u8).unwrap(), v.1));
        let mut a = NonNull4::new(ptrs[0]).unwrap();
        let mut b = NonNull4::new(slices[0]).unwrap();
        let (mut at, mut meta) = (0, 0usize);
        for op in ops {
            macro_rules! both {
                ($($t:tt)*) => {{ a.$($t)*; b.$($t)*; }};
            }
            match op {
                0..=3 => { both!(set_meta(op)); meta = op; },
                4 => { both!(set_meta(6)); meta = 2; },
                5 => { both!(set0(true)); meta |= 1; },
                6 => { both!(set0(false)); meta &= 2; },
                7 => { both!(set1(true)); meta |= 2; },
                8 => { both!(set1(false)); meta &= 1; },
                9 => { both!(set_meta_bit(0, true)); meta |= 1; },
                10 => { both!(set_meta_bit(1, false)); meta &= 1; },
                11 => both!(set_meta_bit(5, true)),
                12..=14 => {
                    at = op - 12;
                    unsafe {
                        a.set_ptr_unchecked(ptrs[at]);
                        b.set_ptr_unchecked(slices[at]);
                    }
                },
                15 => {
                    let x = a;
                    a = x.clone();
                },
                _ => { both!(set_meta(usize::MAX)); meta = 3; },
            }
            expect_eq!((a.ptr(), a.meta()), (ptrs[at], meta), "pointer after {}", names[op]);
            ensure!(core::ptr::eq(b.ptr().as_ptr(), slices[at].as_ptr()), "slice after {}", names[op]);
            expect_eq!(b.meta(), meta, "metadata of a slice after {}", names[op]);
            expect_eq!((a.get0(), a.get1()), (meta & 1 != 0, meta & 2 != 0), "bits after {}", names[op]);
            c.step(1);
            c.state(&(at, meta));
        }
        c.trace();
        Ok(())
    });
    // Any address set in place of any other.
    let even: Vec<usize> = addrs.iter().copied().filter(|v| v % 4 == 0).collect();
    let n = even.len() as u64;
    ctx.bound(format!("all pairs out of {} addresses, with all metadata", n));
    ctx.explore("replaced", n, |i| format!("pointer at {:#x}", even[i as usize]), |i, c| {
        let old = NonNull::new(even[i as usize] as *mut u8).unwrap();
        for to in &even {
            let new = NonNull::new(*to as *mut u8).unwrap();
            for meta in 0..4 {
                let mut v = NonNull4::new(old).unwrap();
                v.set_meta(meta);
                unsafe { v.set_ptr_unchecked(new) };
                expect_eq!((v.ptr(), v.meta()), (new, meta), "pointer set to {:#x} with metadata {}", to, meta);
                v.set_meta(3 - meta);
                expect_eq!((v.ptr(), v.meta()), (new, 3 - meta), "pointer set to {:#x} with metadata {}", to, 3 - meta);
                let mut v = NonNull4::new(NonNull::slice_from_raw_parts(old, 5)).unwrap();
                v.set_meta(meta);
                let slice = NonNull::slice_from_raw_parts(new, 7);
                unsafe { v.set_ptr_unchecked(slice) };
                ensure!(core::ptr::eq(v.ptr().as_ptr(), slice.as_ptr()), "slice set to {:#x} with metadata {}", to, meta);
                expect_eq!(v.meta(), meta, "metadata of a slice set to {:#x}", to);
                c.step(5);
            }
            c.state(&(i, to));
        }
        c.trace();
        Ok(())
    });
    // Conversions of pointers to all kinds of values.
    ctx.bound("conversions of pointers to 24 types of values, and to slices of up to 65537 elements of 4 types");
    ctx.single("kinds", "pointers to values of all kinds", |c| {
        macro_rules! values {
            ($($v:expr),*) => { $( kinds(&mut { $v }, c)?; )* }
        }
        #[repr(align(64))]
        struct Wide(#[allow(dead_code)] [u8; 3]);
        values!(
            (), 1u8, 2u16, 3u32, 4u64, 5u128, 'x', 1.5f32, 1.5f64, true, [0u8; 0], [1u8; 1], [1u8; 3], [1u8; 5], [1u8; 7], [1u8; 12],
            [1u8; 24], [1u8; 100], [1u8; 4096], [1u16; 3], [1u32; 3], (1u8, 2u64), Some(String::new()), Wide([0; 3])
        );
        let n = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537];
        for n in n {
            kinds(&mut vec![(); n][..], c)?;
            kinds(&mut vec![1u8; n][..], c)?;
            kinds(&mut vec![1u32; n][..], c)?;
            kinds(&mut vec![[1u8; 3]; n][..], c)?;
            kinds(&mut *"x".repeat(n).into_boxed_str(), c)?;
            c.state(&("kinds", n));
        }
        let mut v: Box<dyn Debug> = Box::new([7u8; 3]);
        kinds(&mut *v, c)?;
        let mut v: Box<dyn Debug> = Box::new(());
        kinds(&mut *v, c)?;
        c.trace();
        Ok(())
    });
    // Conversions between kinds of pointers keep the address.
    ctx.explore("conversions", 32, |i| format!("element {}", i), |i, c| {
        let i = i as usize;
        let mut v: Vec<u16> = (0..32).map(|v| v * 5).collect();
        let at = &raw const v[i];
        let val = i as u16 * 5;
        expect_eq!(osi::ptr::nonnull_from_ref(&v[i]).as_ptr() as *const u16, at, "from a reference");
        expect_eq!(osi::ptr::nonnull_from_mut(&mut v[i]).as_ptr() as *const u16, at, "from a mutable reference");
        expect_eq!(osi::ptr::nonnull_from_pin_ref(Pin::new(&v[i])).as_ptr() as *const u16, at, "from a pin");
        expect_eq!(osi::ptr::nonnull_from_pin_mut(Pin::new(&mut v[i])).as_ptr() as *const u16, at, "from a mutable pin");
        expect_eq!(osi::pin::as_ptr(Pin::new(&v[i])) as *const u16, at, "pin");
        expect_eq!(osi::pin::as_mut_ptr(Pin::new(&mut v[i])) as *const u16, at, "mutable pin");
        expect_eq!(&raw const **unsafe { osi::pin::as_inner(&Pin::new(&v[i])) }, at, "inner pin");
        let p = unsafe { osi::pin::map_unchecked(Pin::new(&v[i]), |v| v) };
        expect_eq!(&raw const *p, at, "mapped pin");
        let all = [
            Ptr::from_ref(&v[i]),
            Ptr::from(&v[i]),
            unsafe { Ptr::new(NonNull::new(at as *mut u16).unwrap()) },
            unsafe { Ptr::from_ptr(at as *mut u16) },
        ];
        for p in all {
            expect_eq!(p.as_ptr() as *const u16, at, "pointer");
            expect_eq!(p.as_nonnull().as_ptr() as *const u16, at, "pointer");
            expect_eq!(p.into_ptr() as *const u16, at, "pointer");
            expect_eq!(p.into_nonnull().as_ptr() as *const u16, at, "pointer");
            expect_eq!(<*const u16>::from(p), at, "pointer");
            expect_eq!(<*mut u16>::from(p) as *const u16, at, "pointer");
            expect_eq!(NonNull::from(p).as_ptr() as *const u16, at, "pointer");
            expect_eq!(unsafe { *p.as_ref() }, val, "value");
            expect_eq!(unsafe { *p.into_ref() }, val, "value");
            for j in 0..32 {
                let q = Ptr::from_ref(&v[j]);
                expect_eq!(order(&p, &q), order_of(i.cmp(&j)), "order of pointers");
                expect_eq!(tape(&p) == tape(&q), i == j, "hash of pointers");
            }
            c.step(42);
        }
        let mut p = unsafe { Ptr::from_ptr(&raw mut v[i]) };
        *unsafe { p.as_mut() } = 1;
        expect_eq!(v[i], 1, "written");
        let p = unsafe { Ptr::from_ptr(&raw mut v[i]) };
        *unsafe { p.into_mut() } = val;
        expect_eq!(v[i], val, "written");
        let other = &raw const v[(i + 1) % 32];
        macro_rules! once {
            ($($e:expr),*) => { $(
                expect_eq!($e.as_ptr() as *const u16, at, "reference");
                expect_eq!($e.as_nonnull().as_ptr() as *const u16, at, "reference");
                expect_eq!($e.into_ptr() as *const u16, at, "reference");
                expect_eq!($e.into_nonnull().as_ptr() as *const u16, at, "reference");
                expect_eq!(<*const u16>::from($e), at, "reference");
                expect_eq!(<*mut u16>::from($e) as *const u16, at, "reference");
                expect_eq!(NonNull::from($e).as_ptr() as *const u16, at, "reference");
                expect_eq!(&raw const *$e.as_ref(), at, "reference");
                expect_eq!(&raw const *$e.into_ref(), at, "reference");
                expect_eq!(&raw const *core::ops::Deref::deref(&$e), at, "reference");
                expect_eq!(*$e, val, "value");
                expect_eq!($e == OnceRef::from_ref(unsafe { &*other }), false, "comparison");
                expect_eq!($e == OnceRef::from_ref(unsafe { &*at }), true, "comparison");
                c.step(12);
            )* }
        }
        once!(
            OnceRef::from_ref(&v[i]), OnceRef::from(&v[i]), OnceRef::from_mut(&mut v[i]), OnceRef::from(&mut v[i]),
            unsafe { OnceRef::from_ptr(at as *mut u16) },
            unsafe { OnceRef::from_nonnull(NonNull::new(at as *mut u16).unwrap()) }
        );
        let p = OnceRef::pin_from_ref(Pin::new(&v[i]));
        expect_eq!(&raw const *p, at, "pinned reference");
        let p = OnceRef::pin_from_mut(Pin::new(&mut v[i]));
        expect_eq!(&raw const *p, at, "pinned reference");
        let p = Pin::<OnceRef<u16>>::from(Pin::new(&v[i]));
        expect_eq!(&raw const *p, at, "pinned reference");
        let p = Pin::<OnceRef<u16>>::from(Pin::new(&mut v[i]));
        expect_eq!(&raw const *p, at, "pinned reference");
        let mut p = OnceRef::from_mut(&mut v[i]);
        *unsafe { p.as_mut() } = 1;
        expect_eq!(v[i], 1, "written");
        let p = OnceRef::from_mut(&mut v[i]);
        *unsafe { p.into_mut() } = val;
        expect_eq!(v[i], val, "written");
        c.step(20);
        c.trace();
        Ok(())
    });
}

// M03

#[derive(Debug, Clone, PartialEq)]
struct Half(f64);

thread_local! {
    static COPIES: core::cell::Cell<(u32, i32)> = const { core::cell::Cell::new((0, 0)) };
}

/// A value that counts how often it was cloned, and how many there are.
#[derive(Debug, Default, PartialEq)]
struct Copied<T>(T);

impl<T> Copied<T> {
    fn new(v: T) -> Self {
        COPIES.set((COPIES.get().0, COPIES.get().1 + 1));
        Self(v)
    }
}

impl<T: Clone> Clone for Copied<T> {
    fn clone(&self) -> Self {
        COPIES.set((COPIES.get().0 + 1, COPIES.get().1));
        Self::new(self.0.clone())
    }
}

impl<T> Drop for Copied<T> {
    fn drop(&mut self) {
        COPIES.set((COPIES.get().0, COPIES.get().1 - 1));
    }
}

/// Clone, move, and drop maybe-owned values. Owned values are cloned, borrowed ones never.
fn copies<T: Clone + Default + PartialEq + Debug>(ops: &[usize], owned: bool, c: &mut Case) -> CaseResult {
    COPIES.set((0, 0));
    let base = Copied::new(T::default());
    let n = if owned { 1 } else { 0 };
    let (mut want, mut clones) = (n, 0);
    let mut all: Vec<Mown<'_, Copied<T>, Copied<T>>> =
        vec![if owned { Mown::new_owned(Copied::new(T::default())) } else { Mown::new_borrowed(&base) }];
    for op in ops {
        match (op, all.is_empty()) {
            (0, false) => {
                let v = all[0].clone();
                all.push(v);
                want += n;
                clones += n;
            },
            (1, false) => {
                all.pop();
                want -= n;
            },
            (2, false) => {
                // Take the last one apart, and put it back together.
                let v = match all.pop().unwrap() {
                    Mown::Owned(v) => Mown::new_owned(v),
                    Mown::Borrowed(v) => Mown::from(v),
                };
                all.insert(0, v);
            },
            // Compare by value.
            (3, false) => ensure!(all[0] == all[all.len() - 1] && *all[0] == base, "value of a clone"),
            _ => {},
        }
        c.step(1);
        ensure!(all.iter().all(|v| v.is_owned() == owned), "ownership of a clone");
        ensure!(owned || all.iter().all(|v| core::ptr::eq(v.deref(), &base)), "address of a borrowed value");
        expect_eq!(COPIES.get(), (clones as u32, want + 1), "clones, and values in existence");
    }
    drop(all);
    expect_eq!(COPIES.get().1, 1, "values left behind");
    Ok(())
}

pub fn m03(ctx: &Ctx) {
    let alpha = ['a', 'b', '\u{0}', 'é'];
    let n = seq_total(4, 3);
    let text = |i: u64| -> String { seq_at(4, i).into_iter().map(|v| alpha[v]).collect() };
    ctx.bound(format!("all pairs of {} strings, borrowed and owned in all combinations; slices, and values without total order", n));
    type M<'a> = Mown<'a, str, String>;
    fn make(v: &str, owned: bool) -> M<'_> {
        if owned { Mown::new_owned(v.to_string()) } else { Mown::new_borrowed(v) }
    }
    ctx.explore("values", n * 2, |i| format!("{:?} {}", text(i / 2), ["borrowed", "owned"][i as usize % 2]), |i, c| {
        let s = text(i / 2);
        let owned = i % 2 == 1;
        let m = make(&s, owned);
        expect_eq!((m.is_owned(), m.is_borrowed()), (owned, !owned), "ownership");
        expect_eq!(m.deref(), s.as_str(), "value");
        expect_eq!(&*m, s.as_str(), "value");
        expect_eq!(core::ptr::eq(m.deref().as_ptr(), s.as_ptr()), !owned || (s.is_empty() && core::ptr::eq(m.deref().as_ptr(), s.as_ptr())), "address");
        let b: &[u8] = m.as_ref();
        expect_eq!(b, s.as_bytes(), "conversion");
        expect_eq!(tape(&m), tape(s.as_str()), "hash");
        expect_eq!(
            format!("{:?}", m), format!("Mown::{}({:?})", if owned { "Owned" } else { "Borrowed" }, s),
            "debug"
        );
        let k = m.clone();
        expect_eq!((k.is_owned(), k.deref()), (owned, s.as_str()), "clone");
        drop(m);
        expect_eq!(k.deref(), s.as_str(), "clone that outlives the value");
        let f = M::from(s.as_str());
        expect_eq!((f.is_owned(), f.deref()), (false, s.as_str()), "from a reference");
        let d = M::default();
        expect_eq!((d.is_owned(), d.deref()), (true, ""), "default");
        match k {
            Mown::Borrowed(v) => ensure!(!owned && v == s, "borrowed content"),
            Mown::Owned(v) => ensure!(owned && v == s, "owned content"),
        }
        c.step(11);
        c.state(&i);
        c.trace();
        Ok(())
    });
    ctx.explore("pairs", n * n * 4, |i| format!("{:?} and {:?}, {}", text(i / 4 / n), text(i / 4 % n), i % 4), |i, c| {
        let (s, t) = (text(i / 4 / n), text(i / 4 % n));
        let (a, b) = (make(&s, i & 1 != 0), make(&t, i & 2 != 0));
        expect_eq!(order(&a, &b), order_of(s.cmp(&t)), "order");
        expect_eq!(tape(&a) == tape(&b), s == t, "hash");
        c.step(2);
        c.trace();
        c.state(&i);
        Ok(())
    });
    // Long strings, which differ in one position or in length.
    let sizes = around(13);
    let m = sizes.len() as u64;
    ctx.bound(format!("strings of {} lengths up to {}, which differ in any of 4 positions or in length", m, sizes[m as usize - 1]));
    ctx.explore("long", m * 6 * 4, |i| format!("{} characters, {}, {}", sizes[(i / 24) as usize], i / 4 % 6, i % 4), |i, c| {
        let n = sizes[(i / 24) as usize];
        let s = "m".repeat(n);
        let mut t = s.clone();
        match i / 4 % 6 {
            0 => {},
            1 => t.push('a'),
            2 => t.replace_range(0..1, "l"),
            3 => t.replace_range(n - 1.., "l"),
            4 => t.replace_range(n / 2..n / 2 + 1, "z"),
            _ => drop(t.pop()),
        }
        let (a, b) = (make(&s, i & 1 != 0), make(&t, i & 2 != 0));
        expect_eq!(order(&a, &b), order_of(s.cmp(&t)), "order");
        expect_eq!(tape(&a) == tape(&b), s == t, "hash");
        expect_eq!(tape(&b), tape(t.as_str()), "hash");
        let k = b.clone();
        expect_eq!(k.deref(), t.as_str(), "clone");
        expect_eq!(k.is_owned(), b.is_owned(), "ownership of a clone");
        c.step(4);
        c.trace();
        c.state(&(1, i));
        Ok(())
    });
    // Clones and drops of owned values of all kinds.
    let max = ctx.pick(6, 8);
    ctx.bound(format!("all histories of up to {} clones, moves, and drops of owned and borrowed values of 5 kinds", max));
    ctx.explore("clones", 10 * seq_total(4, max), |i| {
        format!("operations {:?} on kind {} {}", seq_at(4, i / 10), i / 2 % 5, ["borrowed", "owned"][i as usize % 2])
    }, |i, c| {
        let ops = seq_at(4, i / 10);
        match i / 2 % 5 {
            0 => copies::<()>(&ops, i % 2 == 1, c)?,
            1 => copies::<u8>(&ops, i % 2 == 1, c)?,
            2 => copies::<String>(&ops, i % 2 == 1, c)?,
            3 => copies::<[u64; 9]>(&ops, i % 2 == 1, c)?,
            _ => copies::<Rc<u16>>(&ops, i % 2 == 1, c)?,
        }
        c.state(&(2, i));
        c.trace();
        Ok(())
    });
    let vals = [0.0, -0.0, 1.0, f64::INFINITY, f64::NAN, -1.5];
    ctx.explore("partial", 36 * 4, |i| format!("{} and {}, {}", vals[i as usize / 24], vals[i as usize / 4 % 6], i % 4), |i, c| {
        let (x, y) = (vals[i as usize / 24], vals[i as usize / 4 % 6]);
        let a: Mown<f64, f64> = if i & 1 != 0 { Mown::new_owned(x) } else { Mown::new_borrowed(&x) };
        let b: Mown<f64, f64> = if i & 2 != 0 { Mown::new_owned(y) } else { Mown::new_borrowed(&y) };
        expect_eq!((a == b, a.partial_cmp(&b), a < b, a >= b), (x == y, x.partial_cmp(&y), x < y, x >= y), "partial order");
        let (hx, hy) = (Half(x), Half(y));
        let a: Mown<Half, Half> = if i & 1 != 0 { Mown::new_owned(hx.clone()) } else { Mown::new_borrowed(&hx) };
        let b: Mown<Half, Half> = if i & 2 != 0 { Mown::new_owned(hy.clone()) } else { Mown::new_borrowed(&hy) };
        expect_eq!((a == b, a != b), (x == y, x != y), "equality only");
        // A value compared with itself.
        let same = if i & 2 != 0 { a.clone() } else { Mown::new_borrowed(a.deref()) };
        #[allow(clippy::eq_op)]
        let itself = (a == a, a == same, same == a);
        expect_eq!(itself, (x == x, x == x, x == x), "equality with itself");
        let a: Mown<f64, f64> = if i & 1 != 0 { Mown::new_owned(x) } else { Mown::new_borrowed(&x) };
        let same = Mown::<f64, f64>::new_borrowed(a.deref());
        expect_eq!((a.partial_cmp(&a), a.partial_cmp(&same), a <= same, same >= a), (x.partial_cmp(&x), x.partial_cmp(&x), x <= x, x >= x), "order with itself");
        c.step(4);
        c.trace();
        Ok(())
    });
}

// M04

thread_local! {
    static LIVE: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
}

/// A value that keeps track of its existence.
#[derive(Debug)]
struct Token(u32, Cell<u64>);

const TOKEN: u64 = 0x1122334455667788;

impl Token {
    fn new(id: u32) -> Self {
        LIVE.with(|v| v.borrow_mut()[id as usize] += 1);
        Self(id, Cell::new(TOKEN))
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        assert_eq!(self.1.replace(0), TOKEN);
        LIVE.with(|v| v.borrow_mut()[self.0 as usize] -= 1);
    }
}

fn reset(n: usize) {
    LIVE.with(|v| *v.borrow_mut() = vec![0; n]);
}

fn alive(id: usize) -> i32 {
    LIVE.with(|v| v.borrow()[id])
}

/// Everything that can be done with a counted pointer.
trait Counted: Clone + IntoDeref<Target = Token> + FromDeref {
    type Weak;
    fn make(v: Token) -> Self;
    fn count(v: &Self) -> usize;
    fn downgrade(v: &Self) -> Self::Weak;
    fn upgrade(v: &Self::Weak) -> Option<Self>;
    fn weak(v: &Self) -> usize;
}

impl Counted for Rc<Token> {
    type Weak = std::rc::Weak<Token>;

    fn downgrade(v: &Self) -> Self::Weak {
        Rc::downgrade(v)
    }

    fn upgrade(v: &Self::Weak) -> Option<Self> {
        v.upgrade()
    }

    fn weak(v: &Self) -> usize {
        Rc::weak_count(v)
    }

    fn make(v: Token) -> Self {
        Rc::new(v)
    }

    fn count(v: &Self) -> usize {
        Rc::strong_count(v)
    }
}

impl Counted for Arc<Token> {
    type Weak = std::sync::Weak<Token>;

    fn downgrade(v: &Self) -> Self::Weak {
        Arc::downgrade(v)
    }

    fn upgrade(v: &Self::Weak) -> Option<Self> {
        v.upgrade()
    }

    fn weak(v: &Self) -> usize {
        Arc::weak_count(v)
    }

    fn make(v: Token) -> Self {
        Arc::new(v)
    }

    fn count(v: &Self) -> usize {
        Arc::strong_count(v)
    }
}

/// Histories of conversions of clones of a counted pointer. Each reference is
/// either a pointer, or converted, possibly pinned.
fn counted<T: Counted + 'static>(ops: &[usize], c: &mut Case) -> CaseResult {
    enum Ref<T: IntoDeref<Target = Token> + 'static> {
        Plain(T),
        Pinned(Pin<T>),
        Once(OnceRef<'static, Token>),
        PinOnce(Pin<OnceRef<'static, Token>>),
    }
    reset(2);
    let first = T::make(Token::new(1));
    let at = &raw const *first;
    let keep = first.clone();
    let mut refs: Vec<Ref<T>> = vec![Ref::Plain(first)];
    let mut weak: Vec<T::Weak> = Vec::new();
    for op in ops {
        match op {
            // Add a clone.
            0 => refs.push(Ref::Plain(keep.clone())),
            // Drop the last reference.
            1 => match refs.pop() {
                None | Some(Ref::Plain(_)) | Some(Ref::Pinned(_)) => {},
                Some(Ref::Once(v)) => drop(unsafe { T::from_deref(v) }),
                Some(Ref::PinOnce(v)) => drop(unsafe { T::pin_from_deref(v) }),
            },
            // Convert the last reference, or back.
            2 => match refs.pop() {
                Some(Ref::Plain(v)) => refs.push(Ref::Once(T::into_deref(v))),
                Some(Ref::Pinned(v)) => refs.push(Ref::PinOnce(T::pin_into_deref(v))),
                Some(Ref::Once(v)) => refs.push(Ref::Plain(unsafe { T::from_deref(v) })),
                Some(Ref::PinOnce(v)) => refs.push(Ref::Pinned(unsafe { T::pin_from_deref(v) })),
                None => {},
            },
            // Pin the last reference.
            3 => match refs.pop() {
                Some(Ref::Plain(v)) => refs.push(Ref::Pinned(unsafe { Pin::new_unchecked(v) })),
                Some(v) => refs.push(v),
                None => {},
            },
            // Rotate.
            4 => {
                if !refs.is_empty() {
                    refs.rotate_left(1);
                }
            },
            // Add a weak reference, or drop one.
            5 => weak.push(T::downgrade(&keep)),
            _ => drop(weak.pop()),
        }
        c.step(1);
        expect_eq!(T::count(&keep), refs.len() + 1, "references");
        expect_eq!(T::weak(&keep), weak.len(), "weak references");
        expect_eq!(alive(1), 1, "value");
        for r in &refs {
            let v: &Token = match r {
                Ref::Plain(v) => v,
                Ref::Pinned(v) => v,
                Ref::Once(v) => v,
                Ref::PinOnce(v) => v,
            };
            ensure!(core::ptr::eq(v, at) && v.0 == 1 && v.1.get() == TOKEN, "reference to something else");
        }
    }
    for r in refs {
        match r {
            Ref::Plain(_) | Ref::Pinned(_) => {},
            Ref::Once(v) => drop(unsafe { T::from_deref(v) }),
            Ref::PinOnce(v) => drop(unsafe { T::pin_from_deref(v) }),
        }
    }
    expect_eq!(T::count(&keep), 1, "references");
    expect_eq!(T::weak(&keep), weak.len(), "weak references");
    for w in &weak {
        ensure!(T::upgrade(w).is_some_and(|v| core::ptr::eq(&raw const *v, at)), "weak reference to something else");
    }
    drop(keep);
    expect_eq!(alive(1), 0, "value after the last reference");
    ensure!(weak.iter().all(|v| T::upgrade(v).is_none()), "weak reference to a dropped value");
    Ok(())
}

pub fn m04(ctx: &Ctx) {
    let len = ctx.pick(8, 10);
    ctx.bound(format!("all histories of up to {} operations of 5 on counted pointers; all pairs of 24 references of 6 kinds, of all ranges of 7 elements, and of values without size", len));
    ctx.explore("counted", 2 * seq_total(5, len), |i| format!("{:?} {}", seq_at(5, i / 2), ["Rc", "Arc"][i as usize % 2]), |i, c| {
        let ops = seq_at(5, i / 2);
        if i % 2 == 0 {
            counted::<Rc<Token>>(&ops, c)?;
        } else {
            counted::<Arc<Token>>(&ops, c)?;
        }
        c.state(&i);
        c.trace();
        Ok(())
    });
    let len = ctx.pick(8, 9);
    ctx.bound(format!("all histories of up to {} operations of 7 that include weak references", len));
    ctx.explore("weak", 2 * seq_total(7, len), |i| format!("{:?} {}", seq_at(7, i / 2), ["Rc", "Arc"][i as usize % 2]), |i, c| {
        let ops = seq_at(7, i / 2);
        if i % 2 == 0 {
            counted::<Rc<Token>>(&ops, c)?;
        } else {
            counted::<Arc<Token>>(&ops, c)?;
        }
        c.state(&(i, 2));
        c.trace();
        Ok(())
    });
    ctx.bound("repeated sequences of up to 4 of these operations, up to 1200 in total");
    ctx.explore("many", 2 * seq_total(5, 4) * 3, |i| format!("{} times {:?} {}", [17, 129, 300][(i / 2 % 3) as usize], seq_at(5, i / 6), ["Rc", "Arc"][i as usize % 2]), |i, c| {
        let ops = seq_at(5, i / 6).repeat([17, 129, 300][(i / 2 % 3) as usize]);
        if i % 2 == 0 {
            counted::<Rc<Token>>(&ops, c)?;
        } else {
            counted::<Arc<Token>>(&ops, c)?;
        }
        c.state(&(i, 1));
        c.trace();
        Ok(())
    });
    ctx.explore("owned", 64, |i| format!("{} conversions", i), |i, c| {
        reset(2);
        // A box, pinned or not, is the same value after any number of round trips.
        let mut b = Box::new(Token::new(1));
        let at = &raw const *b;
        for _ in 0..i / 2 {
            let o = Box::into_deref(b);
            ensure!(core::ptr::eq(&*o, at), "address");
            expect_eq!(alive(1), 1, "value while converted");
            b = unsafe { Box::from_deref(o) };
            ensure!(core::ptr::eq(&*b, at), "address");
            c.step(2);
        }
        let mut p = unsafe { Pin::new_unchecked(b) };
        for _ in 0..i % 2 {
            let o = Box::pin_into_deref(p);
            ensure!(core::ptr::eq(&*o, at), "address");
            p = unsafe { Box::pin_from_deref(o) };
            c.step(2);
        }
        expect_eq!(alive(1), 1, "value");
        drop(p);
        expect_eq!(alive(1), 0, "dropped value");
        // References.
        reset(2);
        let mut t = Token::new(1);
        let at = &raw const t;
        let o = <&Token>::into_deref(&t);
        ensure!(core::ptr::eq(&*o, at), "address");
        let r = unsafe { <&Token>::from_deref(o) };
        ensure!(core::ptr::eq(r, at), "address");
        let o = <&mut Token>::into_deref(&mut t);
        ensure!(core::ptr::eq(&*o, at), "address");
        let r = unsafe { <&mut Token>::from_deref(o) };
        r.1.set(TOKEN);
        ensure!(core::ptr::eq(r, at), "address");
        let o = <&Token>::pin_into_deref(Pin::new(&t));
        ensure!(core::ptr::eq(&*o, at), "address");
        let r = unsafe { <&Token>::pin_from_deref(o) };
        ensure!(core::ptr::eq(&*r, at), "address");
        expect_eq!(alive(1), 1, "referenced value");
        // Unsized values.
        let n = i as usize;
        let s: Box<[u8]> = vec![7; n].into();
        let s = unsafe { Box::<[u8]>::from_deref(Box::into_deref(s)) };
        ensure!(*s == vec![7; n][..], "slice");
        let s: Rc<str> = "x".repeat(n).into();
        let s = unsafe { Rc::<str>::from_deref(Rc::into_deref(s)) };
        ensure!(*s == *"x".repeat(n), "string");
        let s: Box<dyn Debug> = Box::new(n);
        let s = unsafe { Box::<dyn Debug>::from_deref(Box::into_deref(s)) };
        expect_eq!(format!("{:?}", s), n.to_string(), "object");
        c.step(9);
        c.trace();
        Ok(())
    });
    ctx.single("identity", "all pairs of references", |c| {
        // Values that are equal but at different places, and the other way around.
        let v: Vec<u32> = (0..24).map(|v| v / 6).collect();
        for i in 0..v.len() {
            for j in 0..v.len() {
                let (a, b) = (Identity(&v[i]), Identity(&v[j]));
                expect_eq!(order(&a, &b), order_of(i.cmp(&j)), "identity of elements {} and {}", i, j);
                expect_eq!(tape(&a) == tape(&b), i == j, "hash of elements {} and {}", i, j);
                c.step(2);
            }
        }
        let b: Vec<Box<u32>> = v.iter().map(|v| Box::new(*v)).collect();
        let r: Vec<Rc<u32>> = v.iter().map(|v| Rc::new(*v)).collect();
        let a: Vec<Arc<u32>> = v.iter().map(|v| Arc::new(*v)).collect();
        for i in 0..v.len() {
            for j in 0..v.len() {
                let (x, y) = (Identity(r[i].clone()), Identity(r[j].clone()));
                let o = (&raw const *r[i]).cmp(&&raw const *r[j]);
                expect_eq!(order(&x, &y), order_of(o), "identity of counted {} and {}", i, j);
                expect_eq!(x == y, i == j, "identity of counted {} and {}", i, j);
                expect_eq!(tape(&x) == tape(&y), i == j, "hash of counted {} and {}", i, j);
                let (x, y) = (Identity(a[i].clone()), Identity(a[j].clone()));
                expect_eq!(x == y, i == j, "identity of shared {} and {}", i, j);
                let o = (&raw const *a[i]).cmp(&&raw const *a[j]);
                expect_eq!(order(&x, &y), order_of(o), "identity of shared {} and {}", i, j);
                let (x, y) = (Identity(&*b[i]), Identity(&*b[j]));
                expect_eq!(x == y, i == j, "identity of boxed {} and {}", i, j);
                c.step(5);
            }
        }
        // References to slices, strings, and values without size: the same place
        // and the same length is the same value, even if there is no content.
        let bytes = [7u8; 7];
        let words = [7u32; 7];
        let units = [(); 7];
        let text = "aaaaaaa";
        let all: Vec<(usize, usize)> = (0..8).flat_map(|x| (x..8).map(move |y| (x, y))).collect();
        for (x0, y0) in &all {
            for (x1, y1) in &all {
                let (r0, r1) = (*x0..*y0, *x1..*y1);
                let want = (x0, y0 - x0).cmp(&(x1, y1 - x1));
                let what = format!("identity of {:?} and {:?}", r0, r1);
                macro_rules! ranges {
                    ($($v:expr, $want:expr;)*) => { $({
                        let (a, b) = (Identity(&$v[r0.clone()]), Identity(&$v[r1.clone()]));
                        expect_eq!(order(&a, &b), order_of($want), "{} of {}", what, stringify!($v));
                        expect_eq!(a == b, $want.is_eq(), "{} of {}", what, stringify!($v));
                        expect_eq!(tape(&a) == tape(&b), $want.is_eq(), "hash: {} of {}", what, stringify!($v));
                        c.step(3);
                    })* }
                }
                ranges!(bytes, want; words, want; text, want; units, (y0 - x0).cmp(&(y1 - x1)););
                c.state(&(x0, y0, x1, y1));
            }
        }
        #[derive(Debug, Eq, PartialEq)]
        #[repr(align(8))]
        struct Empty;
        let places = [0u64; 8];
        let empty: Vec<&Empty> = places.iter().map(|v| unsafe { &*(&raw const *v).cast::<Empty>() }).collect();
        let objects: Vec<&dyn Debug> = empty.iter().map(|v| *v as &dyn Debug).collect();
        for i in 0..places.len() {
            for j in 0..places.len() {
                let (a, b) = (Identity(empty[i]), Identity(empty[j]));
                expect_eq!(order(&a, &b), order_of(i.cmp(&j)), "identity of values without size {} and {}", i, j);
                expect_eq!(tape(&a) == tape(&b), i == j, "hash of values without size {} and {}", i, j);
                let (a, b) = (Identity(objects[i]), Identity(objects[j]));
                expect_eq!(order(&a, &b), order_of(i.cmp(&j)), "identity of objects {} and {}", i, j);
                expect_eq!(tape(&a) == tape(&b), i == j, "hash of objects {} and {}", i, j);
                c.step(4);
            }
        }
        let x = Identity(Box::new(5u32));
        let y = x.clone();
        ensure!(x != y && x == x && y == y, "clone of a box");
        let (x, y) = (Identity(&b[0]), Identity(&b[0]));
        ensure!(x == y, "reference to a box");
        c.step(2);
        c.trace();
        Ok(())
    });
}

// M05

pub mod fields {
    use osi::mem::typed_offset_of;
    use osi::meta::Field;

    macro_rules! shape {
        ($(#[$a:meta])* $name:ident { $($f:ident: $t:ty,)* }) => {
            $(#[$a])*
            #[derive(Clone, Copy, Debug, PartialEq)]
            pub struct $name { $(pub $f: $t,)* }
            $( unsafe impl Field<{typed_offset_of!($name, $f, $t)}, $t> for $name {} )*
        };
    }

    shape!(#[repr(C)] A { a: u8, b: u64, c: u16, d: [u8; 3], e: u128, });
    shape!(B { a: u8, b: u64, c: u16, d: (u8, u32), e: Option<u32>, });
    shape!(#[repr(C, align(64))] D { a: [u8; 65], b: u32, c: [u16; 5], });
    shape!(#[repr(C)] S { only: u32, });
    shape!(#[repr(C)] Y { b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: u8, b6: u8, b7: u8, b8: u8, b9: u8, });
    shape!(#[repr(C, packed)] P { a: u8, b: u8, c: [u8; 5], d: bool, e: i8, f: [bool; 2], });
    shape!(#[repr(C)] L {
        a: [u8; 127], b: u8, c: u8, d: [u8; 126], e: u8, f: u8, g: [u8; 43], h: u32, i: u64, j: [u8; 711], k: u8, l: u128,
    });
    shape!(#[repr(C)] H {
        a: [u8; 32767], b: u8, c: u8, d: [u8; 32766], e: u8, f: u8, g: [u32; 4], h: [u8; 0xff0000], i: u8, j: u64,
    });
}

/// Larger than any memory, so only pointers to it can be made.
#[repr(C)]
struct Endless {
    a: [u8; (1 << 31) - 1],
    b: u8,
    c: u64,
    d: [u8; 1 << 31],
    e: u16,
    f: [u8; 1 << 40],
    g: u8,
}

macro_rules! endless {
    ($($f:ident: $t:ty,)*) => {
        $( unsafe impl Field<{core::mem::offset_of!(Endless, $f)}, $t> for Endless {} )*

        /// Compute addresses of members of a structure beyond the size of memory.
        fn endless(c: &mut Case) -> CaseResult {
            for i in 0..64 {
                for base in [1usize << i, (1 << i) - 1, !(1 << i)] {
                    let base = base & !7;
                    $( {
                        const OFF: usize = core::mem::offset_of!(Endless, $f);
                        let p = field_of_ptr::<OFF, $t, Endless>(base as *mut Endless);
                        expect_eq!(p as usize, base.wrapping_add(OFF), "address of {} from {:#x}", stringify!($f), base);
                        let q = container_of_ptr::<OFF, $t, Endless>(p);
                        expect_eq!(q as usize, base, "container of {} from {:#x}", stringify!($f), base);
                        c.step(2);
                        c.state(&("endless", OFF, base));
                    } )*
                }
            }
            c.trace();
            Ok(())
        }
    };
}

endless!(a: [u8; (1 << 31) - 1], b: u8, c: u64, d: [u8; 1 << 31], e: u16, f: [u8; 1 << 40], g: u8,);

pub fn m05(ctx: &Ctx) {
    ctx.bound("addresses of members up to 2^40 bytes apart, from 192 bases");
    ctx.single("endless", "members beyond the size of memory", endless);
    ctx.bound("all members of 7 structures of different layout, up to 16 MiB apart, in all elements of an array, all patterns of content");
    macro_rules! field {
        ($c:expr, $s:ident, $f:ident, $t:ty, $arr:expr, $new:expr) => {{
            const OFF: usize = mem::typed_offset_of!(fields::$s, $f, $t);
            for i in 0..$arr.len() {
                let before = $arr.clone();
                let base = &raw mut $arr[i];
                let want = unsafe { &raw mut (*base).$f };
                let p = field_of_ptr::<OFF, $t, fields::$s>(base);
                expect_eq!(p, want, "pointer to {}.{}", stringify!($s), stringify!($f));
                let q: *mut fields::$s = container_of_ptr::<OFF, $t, fields::$s>(p);
                expect_eq!(q, base, "container of {}.{}", stringify!($s), stringify!($f));
                expect_eq!(&raw const *field_of::<OFF, $t, fields::$s>(&$arr[i]), want as *const $t, "reference");
                expect_eq!(*field_of::<OFF, $t, fields::$s>(&$arr[i]), before[i].$f, "value");
                *field_of_mut::<OFF, $t, fields::$s>(&mut $arr[i]) = $new;
                let mut after = before.clone();
                after[i].$f = $new;
                expect_eq!($arr, after, "after writing {}.{}", stringify!($s), stringify!($f));
                $arr = before;
                $c.step(6);
                $c.state(&(stringify!($s), stringify!($f), i));
            }
            // Pointers are computed without access, anywhere.
            for a in [0usize, 64, 4096, usize::MAX & !63] {
                let p = field_of_ptr::<OFF, $t, fields::$s>(a as *mut fields::$s);
                expect_eq!(p as usize, a.wrapping_add(core::mem::offset_of!(fields::$s, $f)), "address of {}", stringify!($f));
                let q = container_of_ptr::<OFF, $t, fields::$s>(p);
                expect_eq!(q as usize, a, "container of {}", stringify!($f));
                $c.step(2);
            }
            fn has<const O: usize, T, C: Field<O, T>>() {}
            has::<OFF, $t, fields::$s>();
        }};
    }
    ctx.explore("members", 256, |i| format!("content {:#x}", i), |i, c| {
        let x = i as u8;
        let mut v: Vec<fields::A> = (0..5)
            .map(|k| fields::A { a: x ^ k, b: x as u64 * 3 + k as u64, c: x as u16, d: [x, k, !x], e: x as u128 })
            .collect();
        field!(c, A, a, u8, v, !x);
        field!(c, A, b, u64, v, u64::MAX - x as u64);
        field!(c, A, c, u16, v, 0x100 + x as u16);
        field!(c, A, d, [u8; 3], v, [!x; 3]);
        field!(c, A, e, u128, v, u128::MAX - x as u128);
        let mut v: Vec<fields::B> = (0..5)
            .map(|k| fields::B { a: x ^ k, b: x as u64, c: k as u16, d: (x, k as u32), e: if x % 2 == 0 { None } else { Some(x as u32) } })
            .collect();
        field!(c, B, a, u8, v, !x);
        field!(c, B, b, u64, v, u64::MAX - x as u64);
        field!(c, B, c, u16, v, 0x100 + x as u16);
        field!(c, B, d, (u8, u32), v, (!x, 0x10000 + x as u32));
        field!(c, B, e, Option<u32>, v, Some(0x1000 + x as u32));
        let mut v: Vec<fields::D> = (0..5).map(|k| fields::D { a: [x ^ k; 65], b: x as u32, c: [k as u16; 5] }).collect();
        field!(c, D, a, [u8; 65], v, [!x; 65]);
        field!(c, D, b, u32, v, 0x100 + x as u32);
        field!(c, D, c, [u16; 5], v, [0x100 + x as u16; 5]);
        let mut v: Vec<fields::S> = (0..5).map(|k| fields::S { only: x as u32 + k }).collect();
        field!(c, S, only, u32, v, 0x1000 + x as u32);
        macro_rules! bytes {
            ($x:expr, $k:ident, $($n:ident)*) => {{
                let mut at = 0u8;
                $( at = at.wrapping_add(31); let $n = $x.wrapping_mul(5) ^ at ^ $k; )*
                let _ = at;
                fields::Y { $($n,)* }
            }};
        }
        let mut v: Vec<fields::Y> = (0..5).map(|k| bytes!(x, k, b0 b1 b2 b3 b4 b5 b6 b7 b8 b9)).collect();
        macro_rules! all {
            ($($n:ident)*) => { $( let new = !v[0].$n; field!(c, Y, $n, u8, v, new); )* };
        }
        all!(b0 b1 b2 b3 b4 b5 b6 b7 b8 b9);
        let mut v: Vec<fields::P> = (0..5)
            .map(|k| fields::P { a: x, b: !x, c: [x, k, 2, 3, 4], d: k % 2 == 0, e: x as i8, f: [x % 2 == 0, k % 2 == 0] })
            .collect();
        field!(c, P, a, u8, v, !x ^ 0x10);
        field!(c, P, b, u8, v, x ^ 0x10);
        field!(c, P, c, [u8; 5], v, [!x; 5]);
        field!(c, P, d, bool, v, x % 3 == 0);
        field!(c, P, e, i8, v, 3);
        field!(c, P, f, [bool; 2], v, [x % 3 == 0, true]);
        c.trace();
        Ok(())
    });
    ctx.explore("far-members", 8, |i| format!("content {:#x}", i), |i, c| {
        let x = (i as u8).wrapping_mul(31);
        let mut v: Vec<fields::L> = (0..5)
            .map(|k| fields::L {
                a: [x ^ k; 127], b: x, c: k, d: [!x; 126], e: 1 ^ x, f: 2 ^ x, g: [3 ^ x; 43], h: 4 ^ x as u32,
                i: 5 ^ x as u64, j: [6 ^ x; 711], k: 7 ^ x, l: 8 ^ x as u128,
            })
            .collect();
        field!(c, L, a, [u8; 127], v, [0x55; 127]);
        field!(c, L, b, u8, v, !x);
        field!(c, L, c, u8, v, !x);
        field!(c, L, d, [u8; 126], v, [0x55; 126]);
        field!(c, L, e, u8, v, !x);
        field!(c, L, f, u8, v, !x);
        field!(c, L, g, [u8; 43], v, [0x55; 43]);
        field!(c, L, h, u32, v, !0);
        field!(c, L, i, u64, v, !0);
        field!(c, L, j, [u8; 711], v, [0x55; 711]);
        field!(c, L, k, u8, v, !x);
        field!(c, L, l, u128, v, !0);
        c.trace();
        Ok(())
    });
    ctx.single("remote-members", "members up to 16 MiB into a structure", |c| {
        macro_rules! remote {
            ($($f:ident: $t:ty),*) => { $({
                const OFF: usize = mem::typed_offset_of!(fields::H, $f, $t);
                let want = core::mem::offset_of!(fields::H, $f);
                let mut block = vec![0u64; size_of::<fields::H>() / 8 + 1];
                let base = block.as_mut_ptr().cast::<fields::H>();
                let p = field_of_ptr::<OFF, $t, fields::H>(base);
                expect_eq!(p as usize, base as usize + want, "pointer to {}", stringify!($f));
                expect_eq!(container_of_ptr::<OFF, $t, fields::H>(p), base, "container of {}", stringify!($f));
                let s: &mut fields::H = unsafe { &mut *base };
                expect_eq!(&raw const *field_of::<OFF, $t, fields::H>(s) as usize, base as usize + want, "reference");
                expect_eq!(&raw mut *field_of_mut::<OFF, $t, fields::H>(s) as usize, base as usize + want, "mutable reference");
                c.step(4);
                c.state(&want);
            })* };
        }
        remote!(a: [u8; 32767], b: u8, c: u8, d: [u8; 32766], e: u8, f: u8, g: [u32; 4], h: [u8; 0xff0000], i: u8, j: u64);
        c.trace();
        Ok(())
    });
}

// E01

#[derive(Debug)]
struct Plain(&'static str);

impl core::fmt::Display for Plain {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

#[derive(Debug)]
struct Chained(&'static str, Option<Box<Chained>>);

impl core::fmt::Display for Chained {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "[{}]", self.0)
    }
}

impl std::error::Error for Chained {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|v| &**v as _)
    }
}

/// Fails to format itself.
struct Broken;

impl core::fmt::Debug for Broken {
    fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result {
        Err(core::fmt::Error)
    }
}

impl core::fmt::Display for Broken {
    fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result {
        Err(core::fmt::Error)
    }
}

fn chain(depth: u64) -> Chained {
    let names = ["a", "b", "\"q\"", "é\n"];
    let mut v = Chained(names[depth as usize % 4], None);
    for i in 0..depth {
        v = Chained(names[i as usize % 4], Some(Box::new(v)));
    }
    v
}

pub fn e01(ctx: &Ctx) {
    use osi::error::Uncaught;
    use std::error::Error as _;
    let names = ["", "a", "x y", "\"q\"", "{}", "é\n\u{0}"];
    ctx.bound("all 12 ways to create an error, 6 texts or chains of up to 5 causes, output that fails at all places");
    ctx.explore("errors", 12 * 6, |i| format!("constructor {}, value {}", i / 6, i % 6), |i, c| {
        let k = i % 6;
        let s = names[k as usize];
        let plain: &'static Plain = Box::leak(Box::new(Plain(s)));
        let chained: &'static Chained = Box::leak(Box::new(chain(k)));
        let (debug, display) = (format!("{:?}", plain), format!("{}", plain));
        let (cdebug, cdisplay) = (format!("{:?}", chained), format!("{}", chained));
        // The error, its parts in debug and display format, and whether it has causes.
        let (e, name, dbg, dsp, causes): (Uncaught, &str, Option<String>, Option<String>, bool) = match i / 6 {
            0 => (Uncaught::fold_any(Box::new(Plain(s))), "Any", None, None, false),
            1 => (Uncaught::box_any(Plain(s)), "Any", None, None, false),
            2 => (Uncaught::fold_static_any(plain), "StaticAny", None, None, false),
            3 => (Uncaught::fold_debug(Box::new(Plain(s))), "Debug", Some(debug.clone()), Some(debug), false),
            4 => (Uncaught::box_debug(Plain(s)), "Debug", Some(debug.clone()), Some(debug), false),
            5 => (Uncaught::fold_static_debug(plain), "StaticDebug", Some(debug.clone()), Some(debug), false),
            6 => (Uncaught::fold_display(Box::new(Plain(s))), "Display", Some(display.clone()), Some(display), false),
            7 => (Uncaught::box_display(Plain(s)), "Display", Some(display.clone()), Some(display), false),
            8 => (Uncaught::fold_static_display(plain), "StaticDisplay", Some(display.clone()), Some(display), false),
            9 => (Uncaught::fold_error(Box::new(chain(k))), "Error", Some(cdebug), Some(cdisplay), true),
            10 => (Uncaught::box_error(chain(k)), "Error", Some(cdebug), Some(cdisplay), true),
            _ => (Uncaught::fold_static_error(chained), "StaticError", Some(cdebug), Some(cdisplay), true),
        };
        let want_debug = format!("Uncaught::{}({})", name, dbg.clone().unwrap_or_default());
        let want_display = match &dsp {
            None => format!("Uncaught({})", name),
            Some(v) => format!("Uncaught({}): {}", name, v),
        };
        expect_eq!(format!("{:?}", e), want_debug.clone(), "debug");
        expect_eq!(format!("{}", e), want_display.clone(), "display");
        expect_eq!(e.to_string(), want_display.clone(), "string");
        c.step(3);
        // The chain of causes is that of the error.
        let mut got = Vec::new();
        let mut at = e.source();
        while let Some(v) = at {
            got.push(v.to_string());
            at = v.source();
        }
        let mut want = Vec::new();
        if causes {
            let mut at = chained.source();
            while let Some(v) = at {
                want.push(v.to_string());
                at = v.source();
            }
        }
        expect_eq!(got, want, "causes");
        c.step(1);
        // Output that fails at any place is reported as such.
        for n in 0..=want_debug.len() + 1 {
            let mut w = Limited(String::new(), n);
            let r = write!(w, "{:?}", e);
            expect_eq!(r.is_ok(), n >= want_debug.len(), "debug output limited to {}", n);
            ensure!(want_debug.starts_with(&w.0), "partial debug output");
            c.step(1);
        }
        for n in 0..=want_display.len() + 1 {
            let mut w = Limited(String::new(), n);
            let r = write!(w, "{}", e);
            expect_eq!(r.is_ok(), n >= want_display.len(), "display output limited to {}", n);
            ensure!(want_display.starts_with(&w.0), "partial display output");
            c.step(1);
        }
        // The value can be retrieved.
        match &e {
            Uncaught::Any(v) => ensure!(v.downcast_ref::<Plain>().is_some_and(|v| v.0 == s), "value"),
            Uncaught::StaticAny(v) => ensure!(v.downcast_ref::<Plain>().is_some_and(|v| v.0 == s), "value"),
            Uncaught::Error(v) => ensure!(v.downcast_ref::<Chained>().is_some(), "value"),
            Uncaught::StaticError(v) => ensure!(v.downcast_ref::<Chained>().is_some(), "value"),
            _ => {},
        }
        c.state(&i);
        c.trace();
        Ok(())
    });
    ctx.explore("broken", 6, |i| format!("constructor {}", i), |i, c| {
        let e = match i {
            0 => Uncaught::fold_debug(Box::new(Broken)),
            1 => Uncaught::box_debug(Broken),
            2 => Uncaught::fold_static_debug(&Broken),
            3 => Uncaught::fold_display(Box::new(Broken)),
            4 => Uncaught::box_display(Broken),
            _ => Uncaught::fold_static_display(&Broken),
        };
        let mut s = String::new();
        ensure!(write!(s, "{:?}", e).is_err(), "debug output of a value that cannot be formatted");
        ensure!(write!(s, "{}", e).is_err(), "display output of a value that cannot be formatted");
        c.step(2);
        c.trace();
        Ok(())
    });
    ctx.explore("drops", 4, |i| format!("constructor {}", i), |i, c| {
        reset(2);
        let e = match i {
            0 => Uncaught::fold_any(Box::new(Token::new(1))),
            1 => Uncaught::box_any(Token::new(1)),
            2 => Uncaught::fold_debug(Box::new(Token::new(1))),
            _ => Uncaught::box_debug(Token::new(1)),
        };
        expect_eq!(alive(1), 1, "value");
        drop(e);
        expect_eq!(alive(1), 0, "dropped value");
        c.step(2);
        c.trace();
        Ok(())
    });
    uncaught::nested(ctx, true);
}

// C01

/// A writer that follows a script. Each entry accepts that many bytes, once the
/// script ends, everything is accepted.
struct Script {
    out: Vec<u8>,
    plan: Vec<usize>,
    at: usize,
}

const ACCEPT_1: usize = 0;
const ACCEPT_2: usize = 1;
const INTERRUPT: usize = 2;
const ZERO: usize = 3;
const FAIL: usize = 4;
const ALL: usize = 5;

impl std::io::Write for Script {
    fn write(&mut self, v: &[u8]) -> std::io::Result<usize> {
        let op = self.plan.get(self.at).copied().unwrap_or(ALL);
        self.at += 1;
        let n = match op {
            ACCEPT_1 => v.len().min(1),
            ACCEPT_2 => v.len().min(2),
            INTERRUPT => return Err(std::io::ErrorKind::Interrupted.into()),
            ZERO => 0,
            FAIL => return Err(std::io::ErrorKind::BrokenPipe.into()),
            _ => v.len(),
        };
        self.out.extend_from_slice(&v[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c01(ctx: &Ctx) {
    use osi::compat::{OsStr, Write};
    let plans = ctx.pick(5, 6);
    let texts = ["", "a", "éß", "abc", "a\u{0}\u{10348}b"];
    let t = seq_total(5, 2);
    ctx.bound(format!(
        "all scripts of up to {} write results of 6 with all pairs of 5 texts, written directly and formatted; all byte strings of up to 4 of 20 bytes",
        plans
    ));
    let p = seq_total(6, plans);
    ctx.explore("writes", p * t * 2, |i| {
        let m = mixed(i, &[2, t, p]);
        format!("{} {:?}, script {:?}", ["direct", "formatted"][m[0] as usize], seq_at(5, m[1]), seq_at(6, m[2]))
    }, |i, c| {
        let m = mixed(i, &[2, t, p]);
        let parts = seq_at(5, m[1]);
        let plan = seq_at(6, m[2]);
        let mut w = Write(Script { out: Vec::new(), plan: plan.clone(), at: 0 });
        let mut want: Vec<u8> = Vec::new();
        let mut at = 0;
        let mut failed = false;
        // Each piece is written until done, or the writer fails or accepts nothing.
        let mut model = |s: &[u8]| -> bool {
            let mut s = s;
            while !s.is_empty() {
                let op = plan.get(at).copied().unwrap_or(ALL);
                at += 1;
                let n = match op {
                    ACCEPT_1 => s.len().min(1),
                    ACCEPT_2 => s.len().min(2),
                    INTERRUPT => continue,
                    ZERO | FAIL => return false,
                    _ => s.len(),
                };
                want.extend_from_slice(&s[..n]);
                s = &s[n..];
            }
            true
        };
        for (k, part) in parts.iter().enumerate() {
            let s = texts[*part];
            let (r, ok) = if m[0] == 0 {
                (w.write_str(s), model(s.as_bytes()))
            } else {
                (write!(w, "{}-{:>3}", s, k), model(s.as_bytes()) && model(b"-") && model(format!("{:>3}", k).as_bytes()))
            };
            if m[0] == 0 {
                expect_eq!(r.is_ok(), ok, "result of write {}", k);
            } else {
                // How a format is split is up to the formatter.
                ensure!(r.is_ok() || !ok || plan.iter().any(|v| *v == ZERO || *v == FAIL), "result of write {}", k);
            }
            c.step(1);
            if r.is_err() || !ok {
                failed = true;
                break;
            }
        }
        if m[0] == 0 {
            expect_eq!(&w.0.out, &want, "output");
        } else {
            let full: String = parts.iter().enumerate().map(|(k, v)| format!("{}-{:>3}", texts[*v], k)).collect();
            ensure!(full.as_bytes().starts_with(&w.0.out), "output {:?} of {:?}", w.0.out, full);
            let fatal = plan.iter().take(w.0.at).any(|v| *v == ZERO || *v == FAIL);
            expect_eq!(w.0.out.len() == full.len() || fatal, true, "output is incomplete without an error");
            if !fatal {
                ensure!(!failed, "failure without an error of the writer");
            }
        }
        c.state(&(&w.0.out, w.0.at, failed));
        c.trace();
        Ok(())
    });
    // Errors of the writer are always seen, even when formatting.
    ctx.explore("formatted-errors", 12 * 6, |i| format!("failure after {} bytes, {}", i / 6, i % 6), |i, c| {
        struct Limit(Vec<u8>, usize);
        impl std::io::Write for Limit {
            fn write(&mut self, v: &[u8]) -> std::io::Result<usize> {
                let n = v.len().min(self.1 - self.0.len());
                if n == 0 && !v.is_empty() {
                    return Err(std::io::ErrorKind::StorageFull.into());
                }
                self.0.extend_from_slice(&v[..n]);
                Ok(n)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let n = i as usize / 6;
        let mut w = Write(Limit(Vec::new(), n));
        let (r, full) = match i % 6 {
            0 => (write!(w, "{}", "abcdef"), "abcdef".to_string()),
            1 => (write!(w, "x{}y{:03}", 1, 2), "x1y002".to_string()),
            2 => (write!(w, "{:?}", "a\"b"), format!("{:?}", "a\"b")),
            3 => (w.write_char('é'), "é".to_string()),
            4 => (w.write_str("0123456789"), "0123456789".to_string()),
            _ => (write!(w, ""), String::new()),
        };
        expect_eq!(r.is_ok(), full.len() <= n, "result");
        ensure!(full.as_bytes().starts_with(&w.0.0), "output");
        expect_eq!(w.0.0.len(), full.len().min(n), "amount of output");
        c.step(1);
        c.trace();
        Ok(())
    });
    // Long texts, in pieces.
    let sizes = around(17);
    let n = sizes.len() as u64;
    let limits = [1, 7, 4095, 4096, 8191, 8192, 8193, 65536, usize::MAX];
    ctx.bound(format!("texts of {} lengths up to {}, with a writer that accepts up to {:?} bytes at once and is interrupted or not, or fails half way", n, sizes[n as usize - 1], limits));
    ctx.explore("long", n * 9 * 4, |i| format!("{} bytes, at most {}, mode {}", sizes[(i / 36) as usize], limits[(i / 4 % 9) as usize], i % 4), |i, c| {
        struct Slow { out: Vec<u8>, limit: usize, interrupts: bool, ready: bool, fail_at: usize }
        impl std::io::Write for Slow {
            fn write(&mut self, v: &[u8]) -> std::io::Result<usize> {
                self.ready = !self.ready;
                if self.interrupts && self.ready {
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                let n = v.len().min(self.limit).min(self.fail_at - self.out.len());
                if n == 0 && !v.is_empty() {
                    return Err(std::io::ErrorKind::BrokenPipe.into());
                }
                self.out.extend_from_slice(&v[..n]);
                Ok(n)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let len = sizes[(i / 36) as usize];
        let text: String = (0..len).map(|v| (b'a' + (v % 26) as u8) as char).collect();
        let fail_at = if i & 2 != 0 { len / 2 } else { usize::MAX };
        let mut w = Write(Slow { out: Vec::new(), limit: limits[(i / 4 % 9) as usize], interrupts: i & 1 != 0, ready: false, fail_at });
        let r = w.write_str(&text);
        expect_eq!(r.is_ok(), len <= fail_at, "result");
        ensure!(w.0.out == text.as_bytes()[..len.min(fail_at)], "output of {} bytes", w.0.out.len());
        c.step(1);
        c.state(&(2, i));
        c.trace();
        // The same as a string of the operating system.
        let mut raw = text.into_bytes();
        expect_eq!(OsStr::from_utf8(&raw).ok().map(|v| v.as_encoded_bytes().len()), Some(len), "text");
        let at = len - 1 - (i / 4 % 9) as usize % len;
        raw[at] = 0x80;
        ensure!(OsStr::from_utf8(&raw).is_err(), "invalid byte {} of {}", at, len);
        let s = unsafe { OsStr::from_encoded_bytes_unchecked(&raw) };
        ensure!(s.to_str().is_err(), "invalid byte {} of {}", at, len);
        let lossy = s.to_string_lossy();
        ensure!(lossy.len() == len + 2 && lossy.find('\u{fffd}') == Some(at), "lossy text with an invalid byte {} of {}", at, len);
        c.step(3);
        Ok(())
    });
    // Strings of the operating system.
    let bytes = [
        0x00u8, b'a', b'z', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xa0, 0xed, 0x9f, 0xef, 0xf0, 0x90, 0xf4, 0x8f, 0xf5, 0xff,
    ];
    let k = bytes.len() as u64;
    let max = ctx.pick(4, 5);
    let string = |b: &[u8], c: &mut Case| -> CaseResult {
        use std::os::unix::ffi::OsStrExt;
        let native = std::ffi::OsStr::from_bytes(b);
        let s = OsStr::from_osstr(native);
        expect_eq!(s.as_encoded_bytes(), b, "bytes");
        expect_eq!(s.as_osstr(), native, "native string");
        expect_eq!(AsRef::<std::ffi::OsStr>::as_ref(s), native, "native string");
        expect_eq!(<&OsStr>::from(native).as_encoded_bytes(), b, "conversion");
        expect_eq!(unsafe { OsStr::from_encoded_bytes_unchecked(b) }.as_encoded_bytes(), b, "unchecked");
        let text = utf8(b);
        expect_eq!(s.to_str().ok().map(|v| v.as_bytes()), text.then_some(b), "text");
        expect_eq!(OsStr::from_utf8(b).ok().map(|v| v.as_encoded_bytes()), text.then_some(b), "from text");
        let lossy = s.to_string_lossy();
        if text {
            expect_eq!(lossy.as_bytes(), b, "lossy text");
            let t = core::str::from_utf8(b).unwrap();
            expect_eq!(OsStr::from_str(t).as_encoded_bytes(), b, "from a string");
            expect_eq!(<&OsStr>::from(t).as_encoded_bytes(), b, "from a string");
            c.feature("text");
        } else {
            ensure!(lossy.contains('\u{fffd}'), "lossy text without replacement");
            // Valid characters are kept in order.
            let kept: String = lossy.chars().filter(|v| *v != '\u{fffd}' && v.is_ascii()).collect();
            let want: String = b.iter().filter(|v| v.is_ascii()).map(|v| *v as char).collect();
            expect_eq!(kept, want, "lossy text");
            c.feature("not text");
        }
        c.step(9);
        c.trace();
        Ok(())
    };
    ctx.explore("strings", seq_total(k, max), |i| format!("{:02x?}", seq_at(k, i).into_iter().map(|v| bytes[v]).collect::<Vec<_>>()), |i, c| {
        let b: Vec<u8> = seq_at(k, i).into_iter().map(|v| bytes[v]).collect();
        c.state(&b);
        string(&b, c)
    });
    ctx.bound("all strings of 2 bytes, followed by one of 66 bytes; all characters at the start, the end, and in the middle of a string");
    let last: Vec<u8> = ctx.pick((0..=255u8).filter(|v| v % 8 == 0 || v % 8 == 7).chain([0xbb, 0xbd]).collect(), (0..=255).collect());
    ctx.explore("bytes", 1 << 16, |i| format!("bytes {:02x?}", [i >> 8, i & 0xff]), |i, c| {
        c.state(&(3, i));
        let b = [(i >> 8) as u8, i as u8];
        string(&b, c)?;
        for v in &last {
            string(&[b[0], b[1], *v], c)?;
        }
        Ok(())
    });
    ctx.explore("characters", 0x1100, |i| format!("characters from U+{:04X} on", i * 0x100), |i, c| {
        for ch in (i as u32 * 0x100..(i as u32 + 1) * 0x100).filter_map(char::from_u32) {
            c.state(&(4, ch));
            for s in [format!("{ch}"), format!("{ch}x"), format!("x{ch}"), format!("x{ch}x")] {
                string(s.as_bytes(), c)?;
            }
        }
        Ok(())
    });
    let n = seq_total(3, 3);
    ctx.explore("string-pairs", n * n, |i| format!("{:?} {:?}", seq_at(3, i / n), seq_at(3, i % n)), |i, c| {
        let b = |i: u64| -> Vec<u8> { seq_at(3, i).into_iter().map(|v| [b'a', 0x80, 0xff][v]).collect() };
        let (x, y) = (b(i / n), b(i % n));
        let (s, t) = unsafe { (OsStr::from_encoded_bytes_unchecked(&x), OsStr::from_encoded_bytes_unchecked(&y)) };
        expect_eq!(s == t, x == y, "equality");
        expect_eq!(s.cmp(t), x.cmp(&y), "order");
        expect_eq!(s.partial_cmp(t), Some(x.cmp(&y)), "order");
        c.step(3);
        c.trace();
        Ok(())
    });
}

/// Whether bytes are UTF-8, according to the table in the Unicode standard.
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let cont = |k: usize, lo: u8, hi: u8| b.get(i + k).is_some_and(|v| (lo..=hi).contains(v));
        let n = match b[i] {
            0x00..=0x7f => 1,
            0xc2..=0xdf if cont(1, 0x80, 0xbf) => 2,
            0xe0 if cont(1, 0xa0, 0xbf) && cont(2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee | 0xef if cont(1, 0x80, 0xbf) && cont(2, 0x80, 0xbf) => 3,
            0xed if cont(1, 0x80, 0x9f) && cont(2, 0x80, 0xbf) => 3,
            0xf0 if cont(1, 0x90, 0xbf) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if cont(1, 0x80, 0xbf) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) => 4,
            0xf4 if cont(1, 0x80, 0x8f) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("C01", c01),
        ("E01", e01),
        ("M01", m01),
        ("M02", m02),
        ("M03", m03),
        ("M04", m04),
        ("M05", m05),
    ])
}
