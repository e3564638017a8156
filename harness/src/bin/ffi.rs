//! Foreign-endian integers, integers with fixed layout, pointers, and ABIs.

use mc::engine::*;
use mc::{ensure, expect_eq};
use core::cmp::Ordering;
use core::fmt::{Debug, Display};
use core::hash::{Hash, Hasher};
use core::mem::{align_of, size_of};
use core::num::*;
use osi::align::{self, AlignAs, AlignOf, Aligned};
use osi::ffi::{self, abi, BigEndian, Integer, LittleEndian, NativeAddress, NativeEndian, Packed, Pointer};

/// Records everything that is hashed.
#[derive(Default, PartialEq, Debug)]
pub struct Tape(pub Vec<u8>);

impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }

    fn write(&mut self, v: &[u8]) {
        self.0.extend_from_slice(v);
    }
}

pub fn tape<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut t = Tape::default();
    v.hash(&mut t);
    t.0
}

/// Compare, in a function of its own to keep the callers small.
#[inline(never)]
fn same<T: PartialEq + Debug>(got: T, want: T, what: &str) -> CaseResult {
    expect_eq!(got, want, "{}", what);
    Ok(())
}

/// Some bytes of memory.
#[derive(Clone, Copy, PartialEq)]
struct Memory(usize, [u8; 16]);

impl Debug for Memory {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "{:02x?}", &self.1[..self.0])
    }
}

/// The first `n` bytes of the memory of a value.
fn memory<T>(v: &T, n: usize) -> Memory {
    assert!(n <= size_of::<T>() && n <= 16);
    let mut r = Memory(n, [0; 16]);
    r.1[..n].copy_from_slice(unsafe { core::slice::from_raw_parts(v as *const T as *const u8, n) });
    r
}

/// The representation of a number in memory.
fn encode(bits: u128, size: usize, big: bool) -> Memory {
    let mut r = Memory(size, [0; 16]);
    for i in 0..size {
        r.1[i] = (bits >> (8 * if big { size - 1 - i } else { i })) as u8;
    }
    r
}

/// A value with all given bits, unless there is no such value.
trait Bits: Copy + Ord + Hash + Debug + Display + Send + Sync {
    fn of(bits: u128) -> Option<Self>;
}

macro_rules! bits {
    ($($t:ty, $nz:ty;)*) => { $(
        impl Bits for $t {
            fn of(bits: u128) -> Option<Self> { Some(bits as $t) }
        }
        impl Bits for $nz {
            fn of(bits: u128) -> Option<Self> { <$nz>::new(bits as _) }
        }
    )* }
}

bits! {
    u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128; usize, NonZeroUsize;
    i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128; isize, NonZeroIsize;
}

macro_rules! for_each_int {
    ($m:ident, $($a:expr),*) => {
        $m!("u8", u8, $($a),*); $m!("u16", u16, $($a),*); $m!("u32", u32, $($a),*);
        $m!("u64", u64, $($a),*); $m!("u128", u128, $($a),*); $m!("usize", usize, $($a),*);
        $m!("i8", i8, $($a),*); $m!("i16", i16, $($a),*); $m!("i32", i32, $($a),*);
        $m!("i64", i64, $($a),*); $m!("i128", i128, $($a),*); $m!("isize", isize, $($a),*);
        $m!("nonzero-u8", NonZeroU8, $($a),*); $m!("nonzero-u16", NonZeroU16, $($a),*);
        $m!("nonzero-u32", NonZeroU32, $($a),*); $m!("nonzero-u64", NonZeroU64, $($a),*);
        $m!("nonzero-u128", NonZeroU128, $($a),*); $m!("nonzero-usize", NonZeroUsize, $($a),*);
        $m!("nonzero-i8", NonZeroI8, $($a),*); $m!("nonzero-i16", NonZeroI16, $($a),*);
        $m!("nonzero-i32", NonZeroI32, $($a),*); $m!("nonzero-i64", NonZeroI64, $($a),*);
        $m!("nonzero-i128", NonZeroI128, $($a),*); $m!("nonzero-isize", NonZeroIsize, $($a),*);
    }
}

/// Bit patterns of a size: all of them up to 2 bytes, all combinations of
/// selected bytes up to 8 bytes, and beyond that all combinations of the
/// extreme bytes, plus all pairs of bytes at all pairs of places.
fn patterns(size: usize, thorough: bool) -> Vec<u128> {
    let all = |set: &[u8]| -> Vec<u128> {
        let k = set.len() as u64;
        (0..k.pow(size as u32))
            .map(|mut i| {
                let mut v = 0u128;
                for _ in 0..size {
                    v = v << 8 | set[(i % k) as usize] as u128;
                    i /= k;
                }
                v
            })
            .collect()
    };
    match size {
        1 => (0..0x100).collect(),
        2 => (0..0x10000).collect(),
        4 if thorough => all(&[
            0x00, 0x01, 0x02, 0x0f, 0x10, 0x11, 0x20, 0x3f, 0x40, 0x55, 0x7e, 0x7f, 0x80, 0x81, 0xa5, 0xaa, 0xc0, 0xdf,
            0xe0, 0xef, 0xf0, 0xfe, 0xff,
        ]),
        4 => all(&[0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xa5, 0xfe, 0xff]),
        8 if thorough => all(&[0x00, 0x01, 0x7f, 0x80, 0xa5, 0xfe, 0xff]),
        8 => all(&[0x00, 0x7f, 0x80, 0xff]),
        _ => {
            let mut v = all(&[0x00, 0xff]);
            let set = [0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xa5, 0xfe, 0xff];
            for base in [0, u128::MAX, 0x000102030405060708090a0b0c0d0e0f] {
                for i in 0..size {
                    for j in 0..i {
                        for x in set {
                            for y in set {
                                let clear = base & !(0xff << (8 * i)) & !(0xff << (8 * j));
                                v.push(clear | x << (8 * i) | y << (8 * j));
                            }
                        }
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        },
    }
}

macro_rules! wrapper {
    ($one:ident, $pair:ident, $w:ident, $name:expr, $big:expr) => {
        fn $one<T: Bits + Default2>(bits: u128, v: T, c: &mut Case) -> CaseResult
        where
            $w<T>: NativeEndian<T>,
        {
            let n = size_of::<T>();
            let want = encode(bits, n, $big);
            same(size_of::<$w<T>>(), n, "size")?;
            same(align_of::<$w<T>>(), align_of::<T>(), "alignment")?;
            let e = $w::<T>::from_native(v);
            same(memory(&e, n), want, concat!($name, " memory"))?;
            same(e.to_native(), v, concat!($name, " round trip"))?;
            same(memory(&e.to_raw(), n), want, concat!($name, " raw value"))?;
            let r = $w::<T>::from_raw(e.to_raw());
            same(memory(&r, n), want, concat!($name, " from raw"))?;
            same(r.to_native(), v, concat!($name, " raw round trip"))?;
            // The value that has the same raw representation.
            let r = $w::<T>::from_raw(v);
            same(memory(&r, n), encode(bits, n, false), concat!($name, " from a raw value"))?;
            same(r.to_raw(), v, concat!($name, " raw identity"))?;
            // All other ways to convert.
            let f: $w<T> = ffi::from_native(v);
            same(memory(&f, n), want, concat!($name, " function"))?;
            same(ffi::to_native::<$w<T>, T>(f), v, concat!($name, " function"))?;
            same(memory(&ffi::to_raw::<$w<T>, T>(f), n), want, concat!($name, " function"))?;
            let f: $w<T> = ffi::from_raw(e.to_raw());
            same(memory(&f, n), want, concat!($name, " function"))?;
            let f = <$w<T> as NativeEndian<T>>::from_native(v);
            same(memory(&f, n), want, concat!($name, " trait"))?;
            same(NativeEndian::<T>::to_native(f), v, concat!($name, " trait"))?;
            same(memory(&NativeEndian::<T>::to_raw(f), n), want, concat!($name, " trait"))?;
            let f = <$w<T> as NativeEndian<T>>::from_raw(e.to_raw());
            same(memory(&f, n), want, concat!($name, " trait"))?;
            let f: $w<T> = abi::shared::num(v);
            same(memory(&f, n), want, concat!($name, " number"))?;
            // Everything but the debug format shows the value.
            same(format!("{}", e), format!("{}", v), concat!($name, " display"))?;
            same(format!("{:>+45}|{:<07}", e, e), format!("{:>+45}|{:<07}", v, v), concat!($name, " display"))?;
            same(format!("{:?}", e), format!("{}({:?})", $name, e.to_raw()), concat!($name, " debug"))?;
            let d = e.clone();
            same(memory(&d, n), want, concat!($name, " clone"))?;
            ensure!(d == e && !(d != e) && d.cmp(&e) == Ordering::Equal, "{}: {:?} differs from its clone", $name, v);
            same(tape(&d), tape(&e), concat!($name, " hash of a clone"))?;
            c.step(24);
            Ok(())
        }

        fn $pair<T: Bits>(a: T, b: T) -> CaseResult
        where
            $w<T>: NativeEndian<T>,
        {
            let (x, y) = ($w::<T>::from_native(a), $w::<T>::from_native(b));
            let o = a.cmp(&b);
            ensure!(
                x.cmp(&y) == o && x.partial_cmp(&y) == Some(o) && (x == y) == (a == b) && (x != y) == (a != b)
                    && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b),
                "{}: order of {:?} and {:?}", $name, a, b
            );
            Ok(())
        }
    };
}

/// Marker, so that the generic functions have a common bound.
trait Default2 {}
impl<T> Default2 for T {}

wrapper!(big_one, big_pair, BigEndian, "BigEndian", true);
wrapper!(little_one, little_pair, LittleEndian, "LittleEndian", false);

fn native_one<T: Bits + NativeEndian<T>>(v: T, c: &mut Case) -> CaseResult {
    ensure!(!T::NEEDS_SWAP, "native value claims to be foreign");
    same(ffi::from_native::<T, T>(v), v, "native")?;
    same(ffi::to_native::<T, T>(v), v, "native")?;
    same(ffi::from_raw::<T, T>(v), v, "native")?;
    same(ffi::to_raw::<T, T>(v), v, "native")?;
    same(<T as NativeEndian<T>>::from_native(v), v, "native")?;
    same(NativeEndian::<T>::to_native(v), v, "native")?;
    same(<T as NativeEndian<T>>::from_raw(v), v, "native")?;
    same(NativeEndian::<T>::to_raw(v), v, "native")?;
    same(abi::shared::num::<T, T>(v), v, "native")?;
    c.step(9);
    Ok(())
}

fn endian_type<T>(ctx: &Ctx, name: &str)
where
    T: Bits + NativeEndian<T>,
    BigEndian<T>: NativeEndian<T>,
    LittleEndian<T>: NativeEndian<T>,
{
    let n = size_of::<T>();
    let p = patterns(n, ctx.thorough());
    ctx.explore(&format!("values-{}", name), p.len() as u64, |i| format!("{} {:#x}", name, p[i as usize]), |i, c| {
        let bits = p[i as usize];
        let Some(v) = T::of(bits) else { return Ok(()) };
        big_one(bits, v, c)?;
        little_one(bits, v, c)?;
        native_one(v, c)?;
        c.state(&(name, bits));
        c.trace();
        Ok(())
    });
    // All pairs of some values.
    let mut q: Vec<u128> = Vec::new();
    for i in 0..8 * n {
        for d in [-2i32, -1, 0, 1, 2] {
            q.push((1u128 << i).wrapping_add(d as u128) & (u128::MAX >> (128 - 8 * n)));
        }
    }
    for i in 0..n {
        for b in [0x12, 0x34, 0xab] {
            q.push(b << (8 * i));
            q.push((b << (8 * i)) | 0x77);
        }
    }
    q.sort();
    q.dedup();
    ctx.explore(&format!("pairs-{}", name), q.len() as u64, |i| format!("{} {:#x} against all", name, q[i as usize]), |i, c| {
        let Some(a) = T::of(q[i as usize]) else { return Ok(()) };
        for &b in &q {
            let Some(b) = T::of(b) else { continue };
            big_pair(a, b)?;
            little_pair(a, b)?;
            let same = a == b;
            let t = |v: T| (tape(&BigEndian::<T>::from_native(v)), tape(&LittleEndian::<T>::from_native(v)));
            let (x, y) = (t(a), t(b));
            ensure!((x.0 == y.0) == same && (x.1 == y.1) == same, "hashes of {:?} and {:?}", a, b);
            c.step(4);
        }
        c.trace();
        c.feature("pairs compared");
        Ok(())
    });
}

pub fn f01(ctx: &Ctx) {
    ctx.bound("all values of 1 and 2 bytes, all combinations of selected bytes for larger integers; all pairs of 2-byte values");
    macro_rules! go {
        ($n:expr, $t:ty, $c:expr) => { endian_type::<$t>($c, $n); };
    }
    for_each_int!(go, ctx);
    // All pairs of all values of two bytes.
    macro_rules! all16 {
        ($n:expr, $t:ty, $c:expr) => {
            $c.explore(concat!("all-pairs-", $n), 0x10000, |i| format!("{} {:#x} against all", $n, i), |i, c| {
                let Some(a) = <$t>::of(i as u128) else { return Ok(()) };
                for j in 0..0x10000u128 {
                    let Some(b) = <$t>::of(j) else { continue };
                    big_pair(a, b)?;
                    little_pair(a, b)?;
                }
                c.step(0x20000);
                c.trace();
                Ok(())
            });
        };
    }
    all16!("u16", u16, ctx);
    all16!("i16", i16, ctx);
    // Values that are not chosen by the caller.
    ctx.single("defaults", "default values", |c| {
        macro_rules! zero {
            ($($t:ty),*) => { $(
                same(BigEndian::<$t>::default().to_native(), 0 as $t, "default")?;
                same(LittleEndian::<$t>::default().to_native(), 0 as $t, "default")?;
                c.step(2);
            )* }
        }
        zero!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
        c.trace();
        Ok(())
    });
    custom(ctx);
}

/// A floating-point number, and bytes of any number, with a byte order.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
#[repr(transparent)]
struct Float(f64);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(transparent)]
struct Octets<const N: usize>([u8; N]);

unsafe impl NativeEndian<Float> for BigEndian<Float> { const NEEDS_SWAP: bool = cfg!(target_endian = "little"); }
unsafe impl NativeEndian<Float> for LittleEndian<Float> { const NEEDS_SWAP: bool = cfg!(target_endian = "big"); }
unsafe impl<const N: usize> NativeEndian<Octets<N>> for BigEndian<Octets<N>> { const NEEDS_SWAP: bool = true; }
unsafe impl<const N: usize> NativeEndian<Octets<N>> for LittleEndian<Octets<N>> { }

const FLOATS: [f64; 9] = [0.0, -0.0, 1.0, -1.5, f64::MIN_POSITIVE, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];

fn partial<T: PartialOrd>(a: &T, b: &T) -> (Option<Ordering>, [bool; 6]) {
    (a.partial_cmp(b), [a == b, a != b, a < b, a <= b, a > b, a >= b])
}

fn octets<const N: usize>(c: &mut Case) -> CaseResult {
    let edges: Vec<Octets<N>> = (0..4 + N).map(|k| {
        Octets(core::array::from_fn(|i| match k {
            0 => 0,
            1 => 255,
            2 => i as u8 + 1,
            3 => 0xf0 - i as u8,
            _ => if i == k - 4 { 0x5a } else { 0 },
        }))
    }).collect();
    for v in &edges {
        let mut back = v.0;
        back.reverse();
        let big = BigEndian::<Octets<N>>::from_native(*v);
        let little = LittleEndian::<Octets<N>>::from_native(*v);
        same(big.to_raw().0, back, "raw reversed value")?;
        same(little.to_raw().0, v.0, "raw value")?;
        same((big.to_native(), little.to_native()), (*v, *v), "native value")?;
        same((BigEndian::from_raw(Octets(back)), LittleEndian::from_raw(*v)) == (big, little), true, "from raw")?;
        same((tape(&big), tape(&little)), (tape(v), tape(v)), "hash")?;
        for w in &edges {
            let want = (partial(v, w), v.cmp(w));
            let o = BigEndian::<Octets<N>>::from_native(*w);
            same((partial(&big, &o), big.cmp(&o)), want, "order")?;
            let o = LittleEndian::<Octets<N>>::from_native(*w);
            same((partial(&little, &o), little.cmp(&o)), want, "order")?;
        }
        c.step(5 + 2 * edges.len() as u64);
    }
    c.trace();
    Ok(())
}

fn custom(ctx: &Ctx) {
    ctx.bound("all pairs of 9 floating-point values, and values of 1 to 33 bytes, as types of the caller");
    ctx.explore("floats", 81, |i| format!("{} and {}", FLOATS[i as usize / 9], FLOATS[i as usize % 9]), |i, c| {
        let (x, y) = (FLOATS[i as usize / 9], FLOATS[i as usize % 9]);
        let (a, b) = (BigEndian::from_native(Float(x)), BigEndian::from_native(Float(y)));
        same(partial(&a, &b), partial(&x, &y), "order")?;
        same(partial(&a, &a), partial(&x, &x), "order of a value with itself")?;
        same(memory(&a, 8), encode(x.to_bits() as u128, 8, true), "memory")?;
        same(a.to_native().0.to_bits(), x.to_bits(), "value")?;
        let (a, b) = (LittleEndian::from_native(Float(x)), LittleEndian::from_native(Float(y)));
        same(partial(&a, &b), partial(&x, &y), "order")?;
        same(partial(&a, &a), partial(&x, &x), "order of a value with itself")?;
        same(memory(&a, 8), encode(x.to_bits() as u128, 8, false), "memory")?;
        same(a.to_native().0.to_bits(), x.to_bits(), "value")?;
        c.step(8);
        c.state(&i);
        c.trace();
        Ok(())
    });
    ctx.explore("octets", 12, |i| format!("size {}", i), |i, c| match i {
        0 => octets::<1>(c),
        1 => octets::<2>(c),
        2 => octets::<3>(c),
        3 => octets::<5>(c),
        4 => octets::<6>(c),
        5 => octets::<7>(c),
        6 => octets::<9>(c),
        7 => octets::<12>(c),
        8 => octets::<15>(c),
        9 => octets::<17>(c),
        10 => octets::<32>(c),
        _ => octets::<33>(c),
    });
}

// F02

/// A value with guards on both sides, at an odd address unless aligned.
#[repr(C)]
struct Guarded<T> {
    pre: [u8; 3],
    v: T,
    post: [u8; 5],
}

impl<T> Guarded<T> {
    fn new(v: T) -> Self {
        Self { pre: [0xa1, 0xa2, 0xa3], v, post: [0xb1, 0xb2, 0xb3, 0xb4, 0xb5] }
    }

    fn check(&self) -> CaseResult {
        same(self.pre, [0xa1, 0xa2, 0xa3], "memory in front")?;
        same(self.post, [0xb1, 0xb2, 0xb3, 0xb4, 0xb5], "memory behind")?;
        Ok(())
    }
}

/// What is needed of the inner value of an integer, to be compared with it.
trait Inner: Copy + Ord + Hash + Debug + Display + Send + Sync {}
impl<T: Copy + Ord + Hash + Debug + Display + Send + Sync> Inner for T {}

/// Size and offsets of an integer on its own and in containers.
fn shape<V, A: Aligned>() -> [usize; 7] {
    [
        align_of::<Integer<V, A>>(),
        size_of::<Integer<V, A>>(),
        size_of::<[Integer<V, A>; 3]>(),
        core::mem::offset_of!(Guarded<Integer<V, A>>, v),
        core::mem::offset_of!(Guarded<Integer<V, A>>, post),
        align_of::<Guarded<Integer<V, A>>>(),
        size_of::<Option<Integer<V, A>>>(),
    ]
}

fn check_shape(got: [usize; 7], size: usize, n: usize, nonzero: bool) -> CaseResult {
    let size = size.next_multiple_of(n);
    let at = 3usize.next_multiple_of(n);
    let option = if nonzero { size } else { got[6] };
    same(got, [n, size, 3 * size, at, at + size, n, option], "layout")
}

/// The order of two values according to all operators.
fn order<T: Ord>(a: &T, b: &T) -> (Ordering, Option<Ordering>, [bool; 6]) {
    (a.cmp(b), a.partial_cmp(b), [a == b, a != b, a < b, a <= b, a > b, a >= b])
}

macro_rules! behaves {
    ($name:ident, $t:ty, $label:expr, $n:expr $(, $a:ident)?) => {
        fn $name<V: Inner $(, $a: Aligned)?>(vals: &[V], c: &mut Case) -> CaseResult {
            let n = $n;
            for &v in vals {
                let mut g = Guarded::new(<$t>::new(v));
                let at = &raw const g.v as usize;
                same(at % n, 0, "address")?;
                same(g.v.as_ptr() as usize, at, "pointer to the value")?;
                same(g.v.as_mut_ptr() as usize, at, "mutable pointer to the value")?;
                same(unsafe { g.v.as_ptr().read_unaligned() }, v, "value at the pointer")?;
                same(memory(&g.v, size_of::<V>()), memory(&v, size_of::<V>()), "memory")?;
                same(g.v.get(), v, "get")?;
                same({ g.v }.into_inner(), v, "into inner")?;
                same(format!("{}|{:>+50}|{:<07}", g.v, g.v, g.v), format!("{}|{:>+50}|{:<07}", v, v, v), "display")?;
                same(format!("{:?}", g.v), format!("{}({:?})", $label, v), "debug")?;
                same(tape(&g.v), tape(&v), "hash")?;
                same(g.v.clone().get(), v, "clone")?;
                same(<$t>::from(v).get(), v, "from")?;
                for &w in vals {
                    same(order(&g.v, &<$t>::new(w)), order(&v, &w), "order")?;
                    g.v.set(w);
                    same(g.v.get(), w, "set")?;
                    same(g.v.replace(v), w, "replace")?;
                    same(g.v.get(), v, "replaced")?;
                    unsafe { g.v.as_mut_ptr().write_unaligned(w) };
                    same(g.v.get(), w, "write")?;
                    g.v.set(v);
                    c.step(5);
                }
                g.check()?;
                c.step(10);
            }
            Ok(())
        }
    };
}

behaves!(integer_behaves, Integer<V, A>, "Integer", align_of::<A::Align>(), A);
behaves!(packed_behaves, Packed<V>, "Packed", 1);

fn packed_shape<V>(nonzero: bool) -> CaseResult {
    same(size_of::<Packed<V>>(), size_of::<V>(), "packed size")?;
    same(align_of::<Packed<V>>(), 1, "packed alignment")?;
    same(core::mem::offset_of!(Guarded<Packed<V>>, v), 3, "packed offset")?;
    if nonzero {
        same(size_of::<Option<Packed<V>>>(), size_of::<V>(), "optional packed value")?;
    }
    Ok(())
}

/// Conversions between values and integers with the given inner type.
fn convert<T, E, A: Aligned>(big: bool, c: &mut Case) -> CaseResult
where
    T: Bits,
    E: NativeEndian<T>,
    Integer<E, A>: NativeEndian<T>,
{
    let n = size_of::<T>();
    for bits in edges(n) {
        let Some(v) = T::of(bits) else { continue };
        let want = encode(bits, n, big);
        let e = Integer::<E, A>::from_native(v);
        same(memory(&e, n), want, "memory")?;
        same(e.to_native(), v, "round trip")?;
        same(memory(&e.to_raw(), n), want, "raw value")?;
        let r = Integer::<E, A>::from_raw(e.to_raw());
        same(memory(&r, n), want, "from raw")?;
        let r = <Integer<E, A> as NativeEndian<T>>::from_native(v);
        same(memory(&r, n), want, "trait")?;
        same(NativeEndian::<T>::to_native(r), v, "trait")?;
        let r: Integer<E, A> = abi::shared::num(v);
        same(memory(&r, n), want, "number")?;
        c.step(7);
    }
    Ok(())
}

fn edges(n: usize) -> Vec<u128> {
    let mask = u128::MAX >> (128 - 8 * n);
    let mut v = vec![0, 1, 0x7f, 0x80, 0xff, mask, mask >> 1, (mask >> 1) + 1, mask - 1];
    v.push(0x0102030405060708090a0b0c0d0e0f10 >> (128 - 8 * n));
    v.push(0xf1e2d3c4b5a69788796a5b4c3d2e1f00 >> (128 - 8 * n));
    for i in 0..n {
        v.push(0x5a << (8 * i));
        v.push(mask & !(0xa5 << (8 * i)));
    }
    v
}

fn integer_type<T>(ctx: &Ctx, name: &str, nonzero: bool)
where
    T: Bits + NativeEndian<T>,
    BigEndian<T>: NativeEndian<T> + Inner,
    LittleEndian<T>: NativeEndian<T> + Inner,
{
    const ALIGNS: [usize; 8] = [1, 2, 4, 8, 16, 32, 64, 128];
    ctx.explore(&format!("layout-{}", name), 8, |i| format!("{} aligned to {}", name, ALIGNS[i as usize]), |i, c| {
        let vals: Vec<T> = edges(size_of::<T>()).into_iter().filter_map(T::of).collect();
        let big: Vec<BigEndian<T>> = vals.iter().map(|v| BigEndian::<T>::from_native(*v)).collect();
        let little: Vec<LittleEndian<T>> = vals.iter().map(|v| LittleEndian::<T>::from_native(*v)).collect();
        macro_rules! with {
            ($n:expr) => {{
                check_shape(shape::<T, AlignAs<$n>>(), size_of::<T>(), $n, nonzero)?;
                check_shape(shape::<BigEndian<T>, AlignAs<$n>>(), size_of::<T>(), $n, nonzero)?;
                check_shape(shape::<LittleEndian<T>, AlignAs<$n>>(), size_of::<T>(), $n, nonzero)?;
                convert::<T, BigEndian<T>, AlignAs<$n>>(true, c)?;
                convert::<T, LittleEndian<T>, AlignAs<$n>>(false, c)?;
            }};
        }
        match i {
            0 => {
                with!(1);
                integer_behaves::<T, AlignAs<1>>(&vals, c)?;
                convert::<T, T, AlignAs<1>>(false, c)?;
            },
            1 => {
                with!(2);
                integer_behaves::<BigEndian<T>, AlignAs<2>>(&big, c)?;
            },
            2 => {
                with!(4);
                integer_behaves::<LittleEndian<T>, AlignAs<4>>(&little, c)?;
            },
            3 => {
                with!(8);
                packed_shape::<T>(nonzero)?;
                packed_behaves::<T>(&vals, c)?;
                packed_behaves::<BigEndian<T>>(&big, c)?;
                packed_behaves::<LittleEndian<T>>(&little, c)?;
            },
            4 => with!(16),
            5 => {
                with!(32);
                integer_behaves::<T, AlignAs<32>>(&vals, c)?;
                convert::<T, T, AlignAs<32>>(false, c)?;
            },
            6 => with!(64),
            _ => with!(128),
        }
        c.state(&(name, i));
        c.trace();
        Ok(())
    });
}

// A value that keeps track of its existence.
thread_local! {
    static LIVE: core::cell::RefCell<Vec<i32>> = const { core::cell::RefCell::new(Vec::new()) };
}

#[derive(Debug)]
struct Token(Box<u32>, u64);

impl Token {
    fn new(id: u32) -> Self {
        LIVE.with(|v| v.borrow_mut()[id as usize] += 1);
        Self(Box::new(id), 0x1122334455667788)
    }

    fn id(&self) -> u32 {
        assert_eq!(self.1, 0x1122334455667788);
        *self.0
    }
}

impl Default for Token {
    fn default() -> Self {
        Self::new(0)
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        let id = self.id();
        self.1 = 0;
        LIVE.with(|v| v.borrow_mut()[id as usize] -= 1);
    }
}

fn live() -> Vec<i32> {
    LIVE.with(|v| v.borrow().clone())
}

/// A value that keeps track of its existence, of some size and alignment.
trait Tok: Default {
    /// What to record for a value with this identity.
    fn record(id: u32) -> u32 {
        id
    }
    fn new(id: u32) -> Self;
    fn id(&self) -> u32;
}

impl Tok for Token {
    fn new(id: u32) -> Self {
        Token::new(id)
    }

    fn id(&self) -> u32 {
        Token::id(self)
    }
}

macro_rules! tokens {
    ($($name:ident, $align:literal, $content:ty, $make:expr;)*) => { $(
        #[repr(align($align))]
        struct $name(Token, #[allow(dead_code)] $content);

        impl Default for $name {
            fn default() -> Self {
                Self::new(0)
            }
        }

        impl Tok for $name {
            fn new(id: u32) -> Self {
                Self(Token::new(id), $make)
            }

            fn id(&self) -> u32 {
                self.0.id()
            }
        }
    )* }
}

tokens! {
    Large, 8, [u64; 20], [7; 20];
    Huge, 8, [u8; 4099], [7; 4099];
    Wide32, 32, u8, 7;
    Wide256, 256, u8, 7;
}

/// A value without size, which still has to be dropped.
struct Empty;

impl Default for Empty {
    fn default() -> Self {
        Self::new(0)
    }
}

impl Drop for Empty {
    fn drop(&mut self) {
        LIVE.with(|v| v.borrow_mut()[0] -= 1);
    }
}

impl Tok for Empty {
    fn record(_: u32) -> u32 {
        0
    }

    fn new(_: u32) -> Self {
        LIVE.with(|v| v.borrow_mut()[0] += 1);
        Self
    }

    fn id(&self) -> u32 {
        0
    }
}

/// A value of one byte.
struct Small(u8);

impl Default for Small {
    fn default() -> Self {
        Self::new(0)
    }
}

impl Drop for Small {
    fn drop(&mut self) {
        LIVE.with(|v| v.borrow_mut()[self.0 as usize] -= 1);
    }
}

impl Tok for Small {
    fn new(id: u32) -> Self {
        LIVE.with(|v| v.borrow_mut()[id as usize] += 1);
        Self(id as u8)
    }

    fn id(&self) -> u32 {
        self.0 as u32
    }
}

/// Run operations on a value that must be dropped exactly once.
macro_rules! drops {
    ($ops:expr, $c:expr, $tok:ty, $new:expr) => {{
        let ops: &[usize] = $ops;
        let c: &mut Case = $c;
        let n = ops.len() + 4;
        LIVE.with(|v| *v.borrow_mut() = vec![0; n]);
        let mut g = Some(Guarded::new($new(<$tok as Tok>::new(1))));
        let mut cur = 1;
        let mut next = 2;
        let mut kept: Vec<$tok> = Vec::new();
        let mut kept_ids: Vec<u32> = Vec::new();
        for op in ops {
            let Some(v) = g.as_mut() else { break };
            match op {
                0 => {
                    v.v.set(<$tok as Tok>::new(next));
                    cur = next;
                    next += 1;
                },
                1 => {
                    let old = v.v.replace(<$tok as Tok>::new(next));
                    same(Tok::id(&old), <$tok as Tok>::record(cur), "replaced value")?;
                    kept.push(old);
                    kept_ids.push(cur);
                    cur = next;
                    next += 1;
                },
                2 => {
                    let old = v.v.take();
                    same(Tok::id(&old), <$tok as Tok>::record(cur), "taken value")?;
                    drop(old);
                    cur = 0;
                },
                3 => {
                    kept.pop();
                    kept_ids.pop();
                },
                4 => {
                    v.check()?;
                    let Guarded { v, .. } = g.take().unwrap();
                    let old = v.into_inner();
                    same(Tok::id(&old), <$tok as Tok>::record(cur), "inner value")?;
                    drop(old);
                },
                _ => {
                    let Guarded { v, .. } = g.take().unwrap();
                    drop(v);
                },
            }
            c.step(1);
            let mut want = vec![0; n];
            if let Some(v) = &g {
                v.check()?;
                want[<$tok as Tok>::record(cur) as usize] += 1;
            }
            for i in &kept_ids {
                want[<$tok as Tok>::record(*i) as usize] += 1;
            }
            same(live(), want, "values in existence after an operation")?;
        }
        drop(g);
        drop(kept);
        same(live(), vec![0; n], "values left behind")?;
    }};
}

pub fn f02(ctx: &Ctx) {
    macro_rules! go {
        ($n:expr, $t:ty, $c:expr) => { integer_type::<$t>($c, $n, $n.starts_with("nonzero")); };
    }
    for_each_int!(go, ctx);
    let max = ctx.pick(7, 9);
    ctx.bound(format!(
        "24 integer types, native and in both byte orders, with 8 alignments; histories of up to {} operations of 6 on values that must be dropped",
        max
    ));
    let names = ["set", "replace", "take", "drop a replaced value", "into inner", "drop"];
    ctx.explore("drops", 4 * seq_total(6, max), |i| {
        let ops: Vec<_> = seq_at(6, i / 4).into_iter().map(|v| names[v]).collect();
        format!("{} with {}", ops.join(", "), ["packed", "alignment 1", "alignment 8", "alignment 64"][i as usize % 4])
    }, |i, c| {
        let ops = seq_at(6, i / 4);
        match i % 4 {
            0 => drops!(&ops, c, Token, Packed::<Token>::new),
            1 => drops!(&ops, c, Token, Integer::<Token, AlignAs<1>>::new),
            2 => drops!(&ops, c, Token, Integer::<Token, AlignAs<8>>::new),
            _ => drops!(&ops, c, Token, Integer::<Token, AlignAs<64>>::new),
        }
        c.state(&ops);
        c.trace();
        Ok(())
    });
    let max = ctx.pick(5, 7);
    ctx.bound(format!("histories of up to {} operations of 6 on values of 0 bytes to 4 KiB, with alignments up to 256", max));
    ctx.explore("kinds", 18 * seq_total(6, max), |i| {
        let ops: Vec<_> = seq_at(6, i / 18).into_iter().map(|v| names[v]).collect();
        let kind = ["no size", "1 byte", "176 bytes", "4 KiB", "alignment 32", "alignment 256"][i as usize / 3 % 6];
        format!("{} with {}, value of {}", ops.join(", "), ["packed", "alignment 1", "alignment 64"][i as usize % 3], kind)
    }, |i, c| {
        let ops = seq_at(6, i / 18);
        macro_rules! kind {
            ($t:ty) => {
                match i % 3 {
                    0 => drops!(&ops, c, $t, Packed::<$t>::new),
                    1 => drops!(&ops, c, $t, Integer::<$t, AlignAs<1>>::new),
                    _ => drops!(&ops, c, $t, Integer::<$t, AlignAs<64>>::new),
                }
            };
        }
        match i / 3 % 6 {
            0 => kind!(Empty),
            1 => kind!(Small),
            2 => kind!(Large),
            3 => kind!(Huge),
            4 => kind!(Wide32),
            _ => kind!(Wide256),
        }
        c.state(&(i, 2));
        c.trace();
        Ok(())
    });
    ctx.bound("all pairs of 9 floating-point values, packed and with 3 alignments");
    ctx.explore("floats", 81, |i| format!("{} and {}", FLOATS[i as usize / 9], FLOATS[i as usize % 9]), |i, c| {
        let (x, y) = (FLOATS[i as usize / 9], FLOATS[i as usize % 9]);
        macro_rules! floats {
            ($($t:ty),*) => { $( {
                let (a, b) = (<$t>::new(x), <$t>::new(y));
                same(partial(&a, &b), partial(&x, &y), "order")?;
                same(partial(&a, &a), partial(&x, &x), "order of a value with itself")?;
                same({ a.get() }.to_bits(), x.to_bits(), "value")?;
                same(format!("{} {:+9.3}", a, a), format!("{} {:+9.3}", x, x), "display")?;
                c.step(4);
            } )* }
        }
        floats!(Packed<f64>, Integer<f64, AlignAs<1>>, Integer<f64, AlignAs<8>>, Integer<f64, AlignAs<64>>);
        c.state(&i);
        c.trace();
        Ok(())
    });
    ctx.single("alignments", "alignment types", |c| {
        macro_rules! same {
            ($($t:ty),* $(,)?) => { $(
                expect_eq!(align_of::<AlignOf<$t>>(), align_of::<$t>(), "alignment of {}", stringify!($t));
                expect_eq!(size_of::<AlignOf<$t>>(), 0, "size for {}", stringify!($t));
                expect_eq!(align_of::<Integer<u8, $t>>(), align_of::<$t>(), "integer aligned as {}", stringify!($t));
                c.step(3);
            )* }
        }
        same!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, char, bool, ());
        same!([u8; 3], [u32; 0], [u64; 5], [[u128; 2]; 2], &u8, &mut u8, *const u8, *mut u8, &u128, [*const u8; 2]);
        same(align_of::<AlignOf<str>>(), 1, "alignment of str")?;
        same(align_of::<AlignOf<[u64]>>(), align_of::<u64>(), "alignment of [u64]")?;
        same(align_of::<AlignOf<[u16]>>(), align_of::<u16>(), "alignment of [u16]")?;
        macro_rules! fixed {
            ($($n:expr, $t:ty;)*) => { $(
                expect_eq!((align_of::<AlignAs<$n>>(), size_of::<AlignAs<$n>>()), ($n, 0), "AlignAs<{}>", $n);
                expect_eq!((align_of::<$t>(), size_of::<$t>()), ($n, 0), "{}", stringify!($t));
                expect_eq!(align_of::<AlignOf<AlignAs<$n>>>(), $n, "AlignOf<AlignAs<{}>>", $n);
                ensure!(AlignAs::<$n>::default() == AlignAs::<$n>::default(), "AlignAs<{}> differs", $n);
                c.step(4);
            )* }
        }
        fixed!(
            1, align::Align1; 2, align::Align2; 4, align::Align4; 8, align::Align8;
            16, align::Align16; 32, align::Align32; 64, align::Align64; 128, align::Align128;
        );
        same(align_of::<align::AlignAny>(), 1, "any alignment")?;
        same(align_of::<align::AlignNative>(), align_of::<usize>(), "native alignment")?;
        c.trace();
        Ok(())
    });
    ctx.single("defaults", "default values and taking values", |c| {
        macro_rules! zero {
            ($($t:ty),*) => { $(
                same(Integer::<$t, AlignAs<16>>::default().get(), 0 as $t, "default")?;
                same(Packed::<$t>::default().get(), 0 as $t, "default")?;
                let mut v = Integer::<$t, AlignAs<2>>::new(0x5a);
                same(v.take(), 0x5a as $t, "take")?;
                same(v.get(), 0 as $t, "taken")?;
                let mut v = Packed::<$t>::new(0x5a);
                same(v.take(), 0x5a as $t, "take")?;
                same({ v.get() }, 0 as $t, "taken")?;
                c.step(6);
            )* }
        }
        zero!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
        c.trace();
        Ok(())
    });
}

// F03

trait Target: 'static {
    const ALIGN: usize;
    const NAME: &'static str;
}

macro_rules! targets {
    ($($t:ty),* $(,)?) => { $(
        impl Target for $t {
            const ALIGN: usize = align_of::<$t>();
            const NAME: &'static str = stringify!($t);
        }
    )* }
}

#[repr(align(4096))]
struct Page(#[allow(dead_code)] u8);

targets!(u8, u16, u64, (), [u32; 3], Page);

fn addresses() -> Vec<usize> {
    let mut v = vec![0usize, usize::MAX];
    for i in 0..64 {
        for d in -2isize..=2 {
            v.push((1usize << i).wrapping_add(d as usize));
        }
    }
    for i in 0..8 {
        v.push(0xa5 << (8 * i));
    }
    v.sort();
    v.dedup();
    v
}

fn address_type<A, T>(ctx: &Ctx, name: &str, nonzero: bool)
where
    A: NativeAddress<T> + Copy + Ord + Hash + Debug + Display,
    T: Target,
    Pointer<A, T>: NativeAddress<T>,
{
    let v = addresses();
    ctx.explore(&format!("{}-{}", name, T::NAME), v.len() as u64, |i| format!("{} to {} at {:#x}", name, T::NAME, v[i as usize]), |i, c| {
        let a = v[i as usize];
        same(size_of::<Pointer<A, T>>(), size_of::<A>(), "size")?;
        same(align_of::<Pointer<A, T>>(), align_of::<A>(), "alignment")?;
        if nonzero {
            same(size_of::<Option<Pointer<A, T>>>(), size_of::<A>(), "optional pointer")?;
        }
        same(<A as NativeAddress<T>>::dangling().to_usize(), T::ALIGN, "dangling address")?;
        same(Pointer::<A, T>::dangling().to_usize(), T::ALIGN, "dangling pointer")?;
        // All ways to create a pointer.
        let p = Pointer::<A, T>::from_usize(a);
        let all: [Option<Pointer<A, T>>; 5] = [
            p,
            <Pointer<A, T> as NativeAddress<T>>::from_usize(a),
            Pointer::<A, T>::try_from(a).ok(),
            Pointer::<A, T>::try_from(a as *const T).ok(),
            Pointer::<A, T>::try_from(a as *mut T).ok(),
        ];
        for (j, p) in all.iter().enumerate() {
            expect_eq!(p.map(|p| p.to_usize()), if a == 0 { None } else { Some(a) }, "creation {}", j);
        }
        same(<A as NativeAddress<T>>::from_usize(a).is_some(), a != 0, "address")?;
        c.step(8);
        c.state(&(name, T::NAME, a));
        c.trace();
        let Some(p) = p else { return Ok(()) };
        let u = unsafe { Pointer::<A, T>::from_usize_unchecked(a) };
        same(u.to_usize(), a, "unchecked creation")?;
        same(p.into_usize(), a, "into usize")?;
        same(NativeAddress::<T>::to_usize(&p), a, "trait")?;
        same(NativeAddress::<T>::into_usize(p), a, "trait")?;
        same(p.as_ptr() as usize, a, "as pointer")?;
        same(p.as_mut_ptr() as usize, a, "as mutable pointer")?;
        same(p.address().to_usize(), a, "address")?;
        same(p.get().to_usize(), a, "get")?;
        same(p.into_inner().to_usize(), a, "into inner")?;
        same(p.get().as_ptr() as usize, a, "address as pointer")?;
        same(p.get().as_mut_ptr() as usize, a, "address as mutable pointer")?;
        let q: Pointer<A, u8> = p.cast();
        same(q.into_inner(), p.into_inner(), "cast")?;
        let q: Pointer<A, i128> = p.cast_into();
        same(q.into_inner(), p.into_inner(), "cast into")?;
        same(format!("{}|{:>50}|{:<07}", p, p, p), format!("{}|{:>50}|{:<07}", p.get(), p.get(), p.get()), "display")?;
        same(format!("{:?}", p), format!("Pointer({:?})", p.get()), "debug")?;
        same(tape(&p), tape(&p.get()), "hash")?;
        same(p.clone().to_usize(), a, "clone")?;
        c.step(16);
        for &b in &v {
            let Some(q) = Pointer::<A, T>::from_usize(b) else { continue };
            ensure!(
                p.cmp(&q) == a.cmp(&b) && p.partial_cmp(&q) == Some(a.cmp(&b)) && (p == q) == (a == b) && (p != q) == (a != b)
                    && (p < q) == (a < b) && (p <= q) == (a <= b) && (p > q) == (a > b) && (p >= q) == (a >= b),
                "order of {:#x} and {:#x}", a, b
            );
            let mut r = p;
            r.set(q.get());
            same(r.to_usize(), b, "set")?;
            same(r.replace(p.get()).to_usize(), b, "replace")?;
            same(r.to_usize(), a, "replaced")?;
            c.step(4);
        }
        Ok(())
    });
}

pub fn f03(ctx: &Ctx) {
    ctx.bound(format!("all pairs of {} addresses, 8 address types, 6 target types; all addresses in a buffer", addresses().len()));
    macro_rules! go {
        ($($n:expr, $nz:expr, $a:ty;)*) => { $(
            address_type::<$a, u8>(ctx, $n, $nz);
            address_type::<$a, u16>(ctx, $n, $nz);
            address_type::<$a, u64>(ctx, $n, $nz);
            address_type::<$a, ()>(ctx, $n, $nz);
            address_type::<$a, [u32; 3]>(ctx, $n, $nz);
            address_type::<$a, Page>(ctx, $n, $nz);
        )* }
    }
    go!(
        "usize", false, usize;
        "nonzero-usize", true, NonZeroUsize;
        "u64", false, u64;
        "nonzero-u64", true, NonZeroU64;
        "integer-usize", false, Integer<usize, AlignAs<1>>;
        "integer-nonzero-usize", true, Integer<NonZeroUsize, AlignAs<8>>;
        "integer-u64", false, Integer<u64, AlignAs<16>>;
        "integer-nonzero-u64", true, Integer<NonZeroU64, AlignAs<4>>;
    );
    // Pointers to memory.
    ctx.explore("memory", 64, |i| format!("pointer to element {}", i), |i, c| {
        let i = i as usize;
        let mut mem: Vec<u32> = (0..64).map(|v| v * 3 + 1).collect();
        macro_rules! with {
            ($a:ty) => {{
                let p = Pointer::<$a, u32>::from(&mem[i]);
                same(p.to_usize(), &raw const mem[i] as usize, "from a reference")?;
                same(*unsafe { p.as_ref() }, i as u32 * 3 + 1, "value")?;
                same(*unsafe { p.get().as_ref() as &u32 }, i as u32 * 3 + 1, "value at the address")?;
                let p = Pointer::<$a, u32>::from(&mut mem[i]);
                same(p.to_usize(), &raw const mem[i] as usize, "from a mutable reference")?;
                *unsafe { p.as_mut() } = 7;
                for (j, v) in mem.iter().enumerate() {
                    expect_eq!(*v, if i == j { 7 } else { j as u32 * 3 + 1 }, "element {}", j);
                }
                *unsafe { p.get().as_mut() as &mut u32 } += 2;
                same(mem[i], 9, "written at the address")?;
                mem[i] = i as u32 * 3 + 1;
                c.step(6);
            }};
        }
        with!(usize);
        with!(NonZeroUsize);
        with!(u64);
        with!(NonZeroU64);
        with!(Integer<NonZeroU64, AlignAs<8>>);
        with!(Integer<usize, AlignAs<2>>);
        c.trace();
        Ok(())
    });
    // Addresses of foreign platforms.
    let v32 = patterns(4, ctx.thorough());
    ctx.explore("foreign-32", v32.len() as u64, |i| format!("address {:#x}", v32[i as usize]), |i, c| {
        let bits = v32[i as usize];
        foreign::<u32, u32>(bits, false, c)?;
        foreign::<u32, BigEndian<u32>>(bits, true, c)?;
        foreign::<u32, LittleEndian<u32>>(bits, false, c)?;
        foreign::<NonZeroU32, Integer<BigEndian<NonZeroU32>, AlignAs<4>>>(bits, true, c)?;
        foreign::<NonZeroU32, Integer<LittleEndian<NonZeroU32>, AlignAs<16>>>(bits, false, c)?;
        c.state(&bits);
        c.trace();
        Ok(())
    });
    let v64 = patterns(8, ctx.thorough());
    ctx.explore("foreign-64", v64.len() as u64, |i| format!("address {:#x}", v64[i as usize]), |i, c| {
        let bits = v64[i as usize];
        foreign::<u64, u64>(bits, false, c)?;
        foreign::<u64, BigEndian<u64>>(bits, true, c)?;
        foreign::<u64, LittleEndian<u64>>(bits, false, c)?;
        foreign::<NonZeroU64, Integer<BigEndian<NonZeroU64>, AlignAs<4>>>(bits, true, c)?;
        foreign::<NonZeroU64, Integer<LittleEndian<NonZeroU64>, AlignAs<8>>>(bits, false, c)?;
        c.state(&bits);
        c.trace();
        Ok(())
    });
}

fn foreign<T, A>(bits: u128, big: bool, c: &mut Case) -> CaseResult
where
    T: Bits,
    A: NativeEndian<T>,
    Pointer<A, u16>: NativeEndian<T>,
{
    let n = size_of::<T>();
    let Some(v) = T::of(bits) else { return Ok(()) };
    let want = encode(bits, n, big);
    let p = Pointer::<A, u16>::from_native(v);
    same(memory(&p, n), want, "memory of the pointer")?;
    same(p.to_native(), v, "round trip")?;
    same(memory(&p.to_raw(), n), want, "raw value")?;
    let r = Pointer::<A, u16>::from_raw(p.to_raw());
    same(memory(&r, n), want, "from raw")?;
    same(r.cast::<i64>().to_native(), v, "cast")?;
    same(ffi::to_native::<A, T>(p.into_inner()), v, "address")?;
    let r: Pointer<A, u16> = abi::shared::num(v);
    same(memory(&r, n), want, "number")?;
    c.step(7);
    Ok(())
}

// F04

#[repr(C)]
#[allow(dead_code)]
struct Three<A, B, C> {
    a: A,
    b: B,
    c: C,
}

/// Offsets of three members and the layout of their container.
fn three<A, B, C>() -> [usize; 5] {
    [
        core::mem::offset_of!(Three<A, B, C>, a),
        core::mem::offset_of!(Three<A, B, C>, b),
        core::mem::offset_of!(Three<A, B, C>, c),
        size_of::<Three<A, B, C>>(),
        align_of::<Three<A, B, C>>(),
    ]
}

/// The same according to the rules of C.
fn three_model(m: [(usize, usize); 3]) -> [usize; 5] {
    let mut at = 0usize;
    let mut r = [0; 5];
    let mut align = 1;
    for i in 0..3 {
        at = at.next_multiple_of(m[i].1);
        r[i] = at;
        at += m[i].0;
        align = align.max(m[i].1);
    }
    r[3] = at.next_multiple_of(align);
    r[4] = align;
    r
}

/// Name, size and alignment of all types of an ABI, in the order they are used
/// below. The last two are an address and a pointer.
fn platform(word: usize, align64: usize) -> Vec<(&'static str, usize, usize)> {
    vec![
        ("I8", 1, 1), ("I16", 2, 2), ("I32", 4, 4), ("I64", 8, align64), ("I128", 16, 16), ("Isize", word, word),
        ("U8", 1, 1), ("U16", 2, 2), ("U32", 4, 4), ("U64", 8, align64), ("U128", 16, 16), ("Usize", word, word),
        ("F32", 4, 4), ("F64", 8, align64), ("Addr", word, word), ("Ptr", word, word),
    ]
}

macro_rules! with_type {
    ($abi:ident, $i:expr, $k:ident!($($a:tt)*)) => {
        match $i {
            0 => $k!(abi::$abi::I8, $($a)*), 1 => $k!(abi::$abi::I16, $($a)*), 2 => $k!(abi::$abi::I32, $($a)*),
            3 => $k!(abi::$abi::I64, $($a)*), 4 => $k!(abi::$abi::I128, $($a)*), 5 => $k!(abi::$abi::Isize, $($a)*),
            6 => $k!(abi::$abi::U8, $($a)*), 7 => $k!(abi::$abi::U16, $($a)*), 8 => $k!(abi::$abi::U32, $($a)*),
            9 => $k!(abi::$abi::U64, $($a)*), 10 => $k!(abi::$abi::U128, $($a)*), 11 => $k!(abi::$abi::Usize, $($a)*),
            12 => $k!(abi::$abi::F32, $($a)*), 13 => $k!(abi::$abi::F64, $($a)*), 14 => $k!(abi::$abi::Addr, $($a)*),
            _ => $k!(abi::$abi::Ptr<u64>, $($a)*),
        }
    };
}

fn size_align<T>() -> (usize, usize) {
    (size_of::<T>(), align_of::<T>())
}

macro_rules! abi_check {
    ($ctx:expr, $abi:ident, $types:expr, $niche:expr) => {{
        let ctx: &Ctx = $ctx;
        let types = $types;
        let name = stringify!($abi);
        ctx.explore(&format!("types-{}", name), 16, |i| format!("{} {}", name, types[i as usize].0), |i, c| {
            let t = types[i as usize];
            macro_rules! sa { ($t:ty,) => { size_align::<$t>() } }
            let got = with_type!($abi, i, sa!());
            expect_eq!(got, (t.1, t.2), "layout of {} {}", name, t.0);
            macro_rules! sa_opt { ($t:ty,) => { size_of::<Option<$t>>() } }
            if i >= 14 {
                expect_eq!(with_type!($abi, i, sa_opt!()), t.1, "size of an optional {}", t.0);
            }
            c.step(2);
            c.state(&(name, i));
            c.trace();
            Ok(())
        });
        ctx.explore(&format!("structures-{}", name), 16 * 16, |i| {
            let m = mixed(i, &[16, 16]);
            format!("{} {{ U8, {}, {} }}", name, types[m[0] as usize].0, types[m[1] as usize].0)
        }, |i, c| {
            let m = mixed(i, &[16, 16]);
            let (x, y) = (types[m[0] as usize], types[m[1] as usize]);
            let want = three_model([(1, 1), (x.1, x.2), (y.1, y.2)]);
            macro_rules! c2 { ($y:ty, $x:ty) => { three::<abi::$abi::U8, $x, $y>() } }
            macro_rules! c1 { ($x:ty, $y:expr) => { with_type!($abi, $y, c2!($x)) } }
            let got: [usize; 5] = with_type!($abi, m[0], c1!(m[1]));
            same(got, want, "offsets, size, alignment")?;
            c.step(1);
            c.trace();
            Ok(())
        });
    }};
}

/// Conversion of a plain value to a type of an ABI and back. If the type does
/// not hold values of that kind, there is no result.
macro_rules! number {
    ($abi:ident) => {
        struct Number<T, Raw>(core::marker::PhantomData<(T, Raw)>);

        #[allow(dead_code)]
        trait Through<Raw>: Sized {
            fn through(self, _: Raw) -> Option<(Memory, Raw)> {
                None
            }
        }

        impl<T, Raw> Through<Raw> for Number<T, Raw> {}

        #[allow(dead_code)]
        impl<T: ffi::NativeEndian<Raw>, Raw: Copy> Number<T, Raw> {
            fn through(self, v: Raw) -> Option<(Memory, Raw)> {
                let e: T = abi::$abi::num(v);
                Some((memory(&e, size_of::<Raw>()), ffi::to_native::<T, Raw>(e)))
            }
        }
    };
}

macro_rules! abi_values {
    ($ctx:expr, $abi:ident, $($name:ident, $raw:ty;)*) => { $({
        number!($abi);
        let ctx: &Ctx = $ctx;
        let p = patterns(size_of::<$raw>(), ctx.thorough());
        let label = concat!(stringify!($abi), "-", stringify!($name));
        ctx.explore(&format!("values-{}", label), p.len() as u64, |i| format!("{} {:#x}", label, p[i as usize]), |i, c| {
            let bits = p[i as usize];
            let Some(v) = <$raw>::of(bits) else { return Ok(()) };
            let n = size_of::<$raw>();
            let r = Number::<abi::$abi::$name, $raw>(core::marker::PhantomData).through(v);
            let Some((at, back)) = r else { ensure!(false, "{} does not hold values of {}", label, stringify!($raw)); return Ok(()) };
            expect_eq!(at, encode(bits, n, false), "memory of {} {:?}", label, v);
            expect_eq!(back, v, "value of {}", label);
            c.step(2);
            c.state(&(label, bits));
            c.trace();
            Ok(())
        });
    })* }
}

pub fn f04(ctx: &Ctx) {
    ctx.bound("all 16 types of 4 ABIs, all structures of a byte and two members of those types, values as for the other integers");
    abi_check!(ctx, aarch64_sysv, platform(8, 8), true);
    abi_check!(ctx, x86_sysv, platform(4, 4), true);
    abi_check!(ctx, x86_64_sysv, platform(8, 8), true);
    abi_check!(ctx, native, platform(8, 8), true);
    abi_check!(ctx, target, platform(8, 8), true);
    macro_rules! values {
        ($abi:ident, $i:ty, $u:ty, $nz:ty) => {
            abi_values!(
                ctx, $abi,
                I8, i8; I16, i16; I32, i32; I64, i64; I128, i128; Isize, $i;
                U8, u8; U16, u16; U32, u32; U64, u64; U128, u128; Usize, $u; Addr, $nz;
            );
        };
    }
    values!(aarch64_sysv, i64, u64, NonZeroU64);
    values!(x86_sysv, i32, u32, NonZeroU32);
    values!(x86_64_sysv, i64, u64, NonZeroU64);
    values!(native, isize, usize, NonZeroUsize);
    values!(target, i64, u64, NonZeroU64);
    // Pointers of the fixed ABIs.
    macro_rules! pointers {
        ($($abi:ident, $nz:ty;)*) => { $({
            number!($abi);
            let p = patterns(size_of::<$nz>(), false);
            ctx.explore(concat!("pointers-", stringify!($abi)), p.len() as u64, |i| format!("{:#x}", p[i as usize]), |i, c| {
                let bits = p[i as usize];
                let Some(v) = <$nz>::of(bits) else { return Ok(()) };
                let n = size_of::<$nz>();
                let r = Number::<abi::$abi::Ptr<u64>, $nz>(core::marker::PhantomData).through(v);
                let Some((at, back)) = r else { ensure!(false, "not a pointer of {} bytes", n); return Ok(()) };
                same(at, encode(bits, n, false), "memory")?;
                same(back, v, "value")?;
                let p = unsafe { core::mem::transmute_copy::<$nz, abi::$abi::Ptr<u64>>(&v) };
                same(memory(p.address(), n), encode(bits, n, false), "address")?;
                c.step(3);
                c.trace();
                Ok(())
            });
        })* }
    }
    pointers!(aarch64_sysv, NonZeroU64; x86_sysv, NonZeroU32; x86_64_sysv, NonZeroU64;);
    ctx.assume("the platform this runs on is x86-64, which decides what the native and target ABIs are");
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("F01", f01),
        ("F02", f02),
        ("F03", f03),
        ("F04", f04),
    ])
}
