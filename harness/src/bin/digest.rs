//! Streaming digests and message authentication codes.

use mc::engine::*;
use mc::{ensure, expect_eq};
use osi::hash::{sha256, Engine as _};
use osi::hmac::HmacSha256;

/// Reference SHA-256, written from FIPS 180-4 with derived constants.
pub mod reference {
    fn primes(n: usize) -> Vec<u128> {
        let mut v: Vec<u128> = Vec::new();
        let mut c = 2u128;
        while v.len() < n {
            if v.iter().all(|p| c % p != 0) {
                v.push(c);
            }
            c += 1;
        }
        v
    }

    // Largest `r` with `r^e <= v`.
    fn root(v: u128, e: u32) -> u128 {
        let (mut lo, mut hi) = (0u128, 1u128 << (128 / e - 1));
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            if mid.checked_pow(e).map(|x| x <= v).unwrap_or(false) {
                lo = mid;
            } else {
                hi = mid - 1;
            }
        }
        lo
    }

    pub struct Consts {
        h: [u32; 8],
        k: [u32; 64],
    }

    pub fn consts() -> &'static Consts {
        static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
        C.get_or_init(|| {
            let p = primes(64);
            let mut h = [0u32; 8];
            let mut k = [0u32; 64];
            for i in 0..8 {
                h[i] = root(p[i] << 64, 2) as u32;
            }
            for i in 0..64 {
                k[i] = root(p[i] << 96, 3) as u32;
            }
            Consts { h, k }
        })
    }

    fn compress(c: &Consts, h: &mut [u32; 8], block: &[u8]) {
        let mut w = [0u32; 64];
        for t in 0..16 {
            w[t] = u32::from_be_bytes(block[t * 4..t * 4 + 4].try_into().unwrap());
        }
        for t in 16..64 {
            let a = w[t - 15];
            let b = w[t - 2];
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
            let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
            w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
        }
        let mut v = *h;
        for t in 0..64 {
            let e1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(c.k[t]).wrapping_add(w[t]);
            let e0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = e0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }

    fn tail(c: &Consts, mut h: [u32; 8], rest: &[u8], total: u64) -> [u8; 32] {
        let mut m = rest.to_vec();
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend_from_slice(&(total * 8).to_be_bytes());
        for b in m.chunks(64) {
            compress(c, &mut h, b);
        }
        let mut r = [0u8; 32];
        for i in 0..8 {
            r[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
        }
        r
    }

    pub fn sha256(m: &[u8]) -> [u8; 32] {
        let c = consts();
        let mut h = c.h;
        let full = m.len() / 64 * 64;
        for b in m[..full].chunks(64) {
            compress(c, &mut h, b);
        }
        tail(c, h, &m[full..], m.len() as u64)
    }

    /// Digest of `n` zero bytes.
    pub fn sha256_zeros(n: u64) -> [u8; 32] {
        let c = consts();
        let mut h = c.h;
        for _ in 0..n / 64 {
            compress(c, &mut h, &[0; 64]);
        }
        tail(c, h, &vec![0; (n % 64) as usize], n)
    }

    pub fn hmac(key: &[u8], m: &[u8]) -> [u8; 32] {
        let mut k = [0u8; 64];
        if key.len() > 64 {
            k[..32].copy_from_slice(&sha256(key));
        } else {
            k[..key.len()].copy_from_slice(key);
        }
        let mut i: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
        i.extend_from_slice(m);
        let mut o: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
        o.extend_from_slice(&sha256(&i));
        sha256(&o)
    }
}

/// A fixed, position dependent byte pattern without zero bytes.
fn pat(i: usize) -> u8 {
    ((i * 131 + (i >> 8) * 17 + 7) % 255) as u8 + 1
}

fn pattern(from: usize, len: usize) -> Vec<u8> {
    (from..from + len).map(pat).collect()
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Op {
    Push(usize),
    Zero(usize),
    Finalize,
    Reset,
}

fn alphabet(sizes: &[usize]) -> Vec<Op> {
    let mut v = Vec::new();
    for s in sizes {
        v.push(Op::Push(*s));
    }
    for s in sizes {
        v.push(Op::Zero(*s));
    }
    v.push(Op::Finalize);
    v.push(Op::Reset);
    v
}

fn known_answers(case: &mut Case) -> CaseResult {
    // Anchor the reference itself to published values.
    let hex = |v: &[u8]| v.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    assert_eq!(hex(&reference::sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(hex(&reference::sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
    assert_eq!(
        hex(&reference::hmac(b"Jefe", b"what do ya want for nothing?")),
        "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843",
    );
    case.trace();
    Ok(())
}

pub fn h01(ctx: &Ctx) {
    ctx.bound("every message length up to the stated limit, one push");
    ctx.bound("every split of every message of up to 200 bytes into two pieces, each pushed as data or as zeros");
    ctx.bound("every sequence of push/zero/reset/finalize of the stated depth over block-boundary sizes");
    ctx.assume("the reference digest (FIPS 180-4, constants derived from primes) is right; it is anchored to published answers in each run");
    ctx.single("reference-anchors", "published digests of the reference", known_answers);

    // All lengths, single push, and via the shortcut.
    let max = ctx.pick(4200u64, 9000);
    ctx.explore("length", max + 1, |i| format!("one push of {} bytes", i), |i, c| {
        let m = pattern(0, i as usize);
        let want = reference::sha256(&m);
        let mut e = sha256::Engine::default();
        ensure!(e.is_reset(), "fresh engine is not reset");
        e.push(&m);
        ensure!(e.is_reset() == (i == 0), "is_reset() wrong after pushing {} bytes", i);
        let got = e.finalize();
        expect_eq!(got.as_bytes(), &want, "digest of {} bytes", i);
        ensure!(e.is_reset(), "engine not reset after finalize");
        expect_eq!(osi::hash::hash::<sha256::Engine>(&m).0, want, "shortcut digest of {} bytes", i);
        // The engine must be reusable.
        e.push(b"abc");
        expect_eq!(e.finalize().0, reference::sha256(b"abc"), "digest after reuse");
        c.step(6);
        c.state(&want);
        c.trace();
        Ok(())
    });

    // All splits of all lengths, each side data or zeros.
    let max = 200u64;
    let total = (max + 1) * (max + 1) * 4;
    ctx.explore("split", total, |i| {
        let v = mixed(i, &[max + 1, max + 1, 2, 2]);
        format!("{} bytes (zeros: {}) then {} bytes (zeros: {})", v[0], v[2] == 1, v[1], v[3] == 1)
    }, |i, c| {
        let v = mixed(i, &[max + 1, max + 1, 2, 2]);
        let (a, b) = (v[0] as usize, v[1] as usize);
        let mut m = Vec::new();
        let mut e = sha256::Engine::default();
        for (n, zero) in [(a, v[2] == 1), (b, v[3] == 1)] {
            if zero {
                e.push_zero(n);
                m.resize(m.len() + n, 0);
            } else {
                let d = pattern(m.len(), n);
                e.push(&d);
                m.extend_from_slice(&d);
            }
            c.step(1);
        }
        expect_eq!(e.finalize().0, reference::sha256(&m), "digest");
        c.step(1);
        c.state(&(m.len(), v[2], v[3], a % 64));
        c.trace();
        Ok(())
    });

    // Every value of every byte of one- and two-block messages.
    let total = 120 * 256;
    ctx.explore("byte-values", total, |i| format!("byte {} set to {:#x}", i / 256, i % 256), |i, c| {
        let mut m = pattern(0, 120);
        m[(i / 256) as usize] = (i % 256) as u8;
        let n = if i / 256 < 50 { 50 } else { 120 };
        expect_eq!(osi::hash::hash::<sha256::Engine>(&m[..n]).0, reference::sha256(&m[..n]), "digest");
        c.step(1);
        c.state(&m);
        c.trace();
        Ok(())
    });

    // All sequences of operations over the block boundaries.
    let sizes = [0usize, 1, 7, 8, 55, 56, 63, 64, 65, 119, 128];
    let ops = alphabet(&sizes);
    let depth = ctx.pick(4u32, 5);
    let k = ops.len() as u64;
    ctx.explore("sequences", seq_total(k, depth), |i| {
        format!("{:?}", seq_at(k, i).iter().map(|v| ops[*v]).collect::<Vec<_>>())
    }, |i, c| {
        let seq = seq_at(k, i);
        let mut e = sha256::Engine::default();
        let mut m: Vec<u8> = Vec::new();
        for o in &seq {
            c.step(1);
            match ops[*o] {
                Op::Push(n) => {
                    let d = pattern(m.len(), n);
                    e.push(&d);
                    m.extend_from_slice(&d);
                },
                Op::Zero(n) => {
                    e.push_zero(n);
                    m.resize(m.len() + n, 0);
                },
                Op::Finalize => {
                    expect_eq!(e.finalize().0, reference::sha256(&m), "digest");
                    m.clear();
                },
                Op::Reset => {
                    e.reset();
                    m.clear();
                    ensure!(e.is_reset(), "not reset after reset()");
                },
            }
            ensure!(e.is_reset() == m.is_empty(), "is_reset() is {} with {} bytes queued", e.is_reset(), m.len());
        }
        // A copy must continue on its own.
        let mut f = e.clone();
        f.push(&[0x55]);
        let want = reference::sha256(&m);
        expect_eq!(e.finalize().0, want, "digest");
        m.push(0x55);
        expect_eq!(f.finalize().0, reference::sha256(&m), "digest of the copy");
        c.step(3);
        c.state(&want);
        c.trace();
        Ok(())
    });

    // Byte-wise streaming of all lengths: one byte at a time.
    ctx.explore("bytewise", 260, |i| format!("{} pushes of one byte", i), |i, c| {
        let m = pattern(3, i as usize);
        let mut e = sha256::Engine::default();
        for b in &m {
            e.push(core::slice::from_ref(b));
            c.step(1);
        }
        expect_eq!(e.finalize().0, reference::sha256(&m), "digest");
        c.state(&m);
        c.trace();
        Ok(())
    });

    // Large single pushes.
    let mut big: Vec<usize> = Vec::new();
    for e in [12, 13, 14, 15, 16, 17, 20] {
        for d in [0usize, 1, 8, 9, 63, 64] {
            big.push((1 << e) - d);
            big.push((1 << e) + d);
        }
    }
    let big = &big;
    ctx.explore("large-push", big.len() as u64 * 2, |i| format!("1 byte, then {} bytes", big[i as usize / 2]), |i, c| {
        let m = pattern(0, big[i as usize / 2] + 1);
        let mut e = sha256::Engine::default();
        if i % 2 == 1 {
            e.push(&m[..1]);
            e.push(&m[1..]);
        } else {
            e.push(&m);
        }
        let want = reference::sha256(&m);
        expect_eq!(e.finalize().0, want, "digest");
        c.step(3);
        c.state(&want);
        c.trace();
        Ok(())
    });

    // The bit count crosses 2^32, the byte count crosses 2^32. Expected values
    // of the latter were calculated with coreutils `sha256sum`.
    let big: &[(u64, &str)] = &[
        ((1 << 29) + 3, ""),
        ((1 << 29) - 9, ""),
        ((1 << 32) + 56, "0b27591e58a6654de4b9425e3afa6dd069101bff686c11355efa003b867c0d67"),
    ];
    ctx.explore("large-zero", big.len() as u64, |i| format!("{} zero bytes", big[i as usize].0), |i, c| {
        let (n, want) = big[i as usize];
        let mut e = sha256::Engine::default();
        e.push_zero(n as usize);
        let got = e.finalize();
        if want.is_empty() {
            expect_eq!(got.0, reference::sha256_zeros(n), "digest");
        } else {
            expect_eq!(got.to_hex(), want.to_string(), "digest");
        }
        c.step(2);
        c.state(&n);
        c.trace();
        Ok(())
    });

    // Zeros in one request of any length up to 700 bytes after any fill.
    ctx.explore("zero-runs", 64 * 700, |i| format!("{} bytes then {} zeros", i % 64, i / 64), |i, c| {
        let mut m = pattern(0, (i % 64) as usize);
        let mut e = sha256::Engine::default();
        e.push(&m);
        e.push_zero((i / 64) as usize);
        m.resize(m.len() + (i / 64) as usize, 0);
        expect_eq!(e.finalize().0, reference::sha256(&m), "digest");
        c.step(3);
        c.state(&m);
        c.trace();
        Ok(())
    });

    // One engine for many messages, ended in either way.
    let reuses = ctx.pick(400u64, 70000);
    ctx.bound(format!("{} messages in a row on one engine, with 5 lengths and 3 ways to end them; up to 70000 pushes of one byte", reuses));
    ctx.explore("cycles", 15, |i| format!("many messages of kind {}, ended by {}", i % 5, i / 5), |i, c| {
        let mut e = sha256::Engine::default();
        let len = [0usize, 3, 64, 65, 200][(i % 5) as usize];
        let all = pattern(0, len + 300);
        for n in 0..reuses {
            let m = &all[(n % 251) as usize..][..len];
            e.push(m);
            if i / 5 == 0 || (i / 5 == 1 && n % 2 == 0) || n + 1 == reuses {
                expect_eq!(e.finalize().0, reference::sha256(m), "digest of message {}", n);
            } else {
                e.reset();
            }
            ensure!(e.is_reset(), "not reset after message {}", n);
            c.step(3);
        }
        c.state(&i);
        c.trace();
        Ok(())
    });
    let counts = [511usize, 512, 513, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000];
    ctx.explore("many-pushes", counts.len() as u64 * 2, |i| format!("{} pushes of a byte", counts[i as usize / 2]), |i, c| {
        let n = counts[i as usize / 2];
        let mut m = Vec::new();
        let mut e = sha256::Engine::default();
        for v in 0..n {
            if i % 2 == 1 && v % 3 == 0 {
                e.push_zero(1);
                m.push(0);
            } else {
                e.push(&[pat(v)]);
                m.push(pat(v));
            }
            ensure!(!e.is_reset(), "reset after {} pushes", v + 1);
        }
        c.step(n as u64);
        let want = reference::sha256(&m);
        expect_eq!(e.finalize().0, want, "digest");
        c.state(&want);
        c.trace();
        Ok(())
    });

    // Hash values: hexadecimal rendering of every byte, and conversions.
    ctx.explore("hex", 32 * 256, |i| format!("byte {} = {:#x}", i / 256, i % 256), |i, c| {
        let mut b = [0xa5u8; 32];
        b[(i / 256) as usize] = (i % 256) as u8;
        let h = osi::hash::Hash::<32>::from_bytes(&b);
        expect_eq!(h.as_bytes(), &b, "bytes");
        expect_eq!(osi::hash::Hash::<32>::from(&b).0, b, "bytes via From");
        expect_eq!(h.to_hex(), b.iter().map(|v| format!("{:02x}", v)).collect::<String>(), "hex");
        expect_eq!(osi::hash::Hash::<32>::default().0, [0; 32], "default");
        c.step(4);
        c.state(&b);
        c.trace();
        Ok(())
    });
}

pub fn h02(ctx: &Ctx) {
    ctx.bound("every key length up to 200 bytes with every message length up to 140 bytes");
    ctx.bound("every sequence of push/zero/reset/finalize of the stated depth for keys around the block size");
    ctx.single("reference-anchors", "published codes of the reference", known_answers);

    let (km, mm) = (201u64, 141u64);
    ctx.explore("lengths", km * mm, |i| format!("key of {} bytes, message of {} bytes", i % km, i / km), |i, c| {
        let key = pattern(1000, (i % km) as usize);
        let m = pattern(0, (i / km) as usize);
        let want = reference::hmac(&key, &m);
        let mut h = HmacSha256::new(&key);
        h.push(&m);
        expect_eq!(h.finalize().0, want, "code");
        let mut h = HmacSha256::with_engine(&key, sha256::Engine::default());
        let (a, b) = m.split_at(m.len() / 2);
        h.push(a);
        h.push(b);
        expect_eq!(h.finalize().0, want, "code with explicit engine");
        // Discard a message halfway, and reuse.
        h.push(b"junk");
        h.reset();
        h.push(&m);
        expect_eq!(h.finalize().0, want, "code after reuse");
        c.step(9);
        c.state(&want);
        c.trace();
        Ok(())
    });

    let keys: Vec<Vec<u8>> = [0usize, 1, 32, 63, 64, 65, 127, 128, 131].iter().map(|n| pattern(500, *n))
        .chain([vec![0u8; 64], vec![0u8; 65], vec![0xffu8; 64]]).collect();
    let sizes = [0usize, 1, 55, 56, 63, 64, 65];
    let ops = alphabet(&sizes);
    let depth = ctx.pick(3u32, 4);
    let k = ops.len() as u64;
    let total = seq_total(k, depth) * keys.len() as u64;
    let nk = keys.len() as u64;
    ctx.explore("sequences", total, |i| {
        format!("key of {} bytes: {:?}", keys[(i % nk) as usize].len(), seq_at(k, i / nk).iter().map(|v| ops[*v]).collect::<Vec<_>>())
    }, |i, c| {
        let key = &keys[(i % nk) as usize];
        let mut h = HmacSha256::new(key);
        let mut m: Vec<u8> = Vec::new();
        for o in seq_at(k, i / nk) {
            c.step(1);
            match ops[o] {
                Op::Push(n) => {
                    let d = pattern(m.len(), n);
                    h.push(&d);
                    m.extend_from_slice(&d);
                },
                Op::Zero(n) => {
                    h.push_zero(n);
                    m.resize(m.len() + n, 0);
                },
                Op::Finalize => {
                    expect_eq!(h.finalize().0, reference::hmac(key, &m), "code");
                    m.clear();
                },
                Op::Reset => {
                    h.reset();
                    m.clear();
                },
            }
        }
        let want = reference::hmac(key, &m);
        expect_eq!(h.finalize().0, want, "code");
        expect_eq!(h.finalize().0, reference::hmac(key, b""), "code of the next, empty message");
        c.step(2);
        c.state(&want);
        c.trace();
        Ok(())
    });

    // Long keys and messages.
    let mut long: Vec<(usize, usize)> = (200..1100).map(|v| (v, v % 3)).collect();
    long.extend((140..2300).map(|v| (3, v)));
    long.extend([4095, 4096, 4097, 8192, 65535, 65536, 65537, 70000, 1 << 17].into_iter().flat_map(|v| [(v, 5), (5, v), (v, v)]));
    ctx.explore("long", long.len() as u64, |i| format!("key and message of {:?} bytes", long[i as usize]), |i, c| {
        let (k, m) = long[i as usize];
        let (key, m) = (pattern(3, k), pattern(4, m));
        let want = reference::hmac(&key, &m);
        let mut h = HmacSha256::new(&key);
        h.push(&m);
        expect_eq!(h.finalize().0, want, "code");
        for v in m.chunks(97) {
            h.push(v);
        }
        expect_eq!(h.finalize().0, want, "code of a message in pieces");
        c.step(4);
        c.state(&want);
        c.trace();
        Ok(())
    });

    // One key for many messages, and many pieces of one message.
    let reuses = ctx.pick(400u64, 70000);
    ctx.bound(format!("{} messages in a row with one key, with 3 ways to end them; messages of up to 70000 pieces", reuses));
    ctx.explore("cycles", 3 * nk, |i| format!("many messages with a key of {} bytes, ended by {}", keys[(i % nk) as usize].len(), i / nk), |i, c| {
        let key = &keys[(i % nk) as usize];
        let mut h = HmacSha256::new(key);
        let all = pattern(0, 400);
        for n in 0..reuses {
            let m = &all[(n % 251) as usize..][..(n % 83) as usize];
            h.push(m);
            if i / nk == 0 || (i / nk == 1 && n % 2 == 0) || n + 1 == reuses {
                expect_eq!(h.finalize().0, reference::hmac(key, m), "code of message {}", n);
            } else {
                h.reset();
            }
            c.step(2);
        }
        c.state(&i);
        c.trace();
        Ok(())
    });
    let counts = [255usize, 256, 257, 4095, 4096, 65535, 65536, 65537, 70000];
    ctx.explore("many-pushes", counts.len() as u64 * nk, |i| format!("{} pushes of a byte", counts[(i / nk) as usize]), |i, c| {
        let key = &keys[(i % nk) as usize];
        let m = pattern(11, counts[(i / nk) as usize]);
        let mut h = HmacSha256::new(key);
        for v in &m {
            h.push(core::slice::from_ref(v));
        }
        c.step(m.len() as u64);
        let want = reference::hmac(key, &m);
        expect_eq!(h.finalize().0, want, "code");
        c.state(&want);
        c.trace();
        Ok(())
    });

    // Every key byte matters.
    ctx.explore("key-bytes", 130 * 256, |i| format!("key byte {} = {:#x}", i / 256, i % 256), |i, c| {
        let p = (i / 256) as usize;
        let n = [p + 1, 64, 130].into_iter().filter(|v| *v > p).min().unwrap();
        let mut key = pattern(9, n.max(p + 1));
        key[p] = (i % 256) as u8;
        let mut h = HmacSha256::new(&key);
        h.push(b"message");
        expect_eq!(h.finalize().0, reference::hmac(&key, b"message"), "code");
        c.step(3);
        c.state(&key);
        c.trace();
        Ok(())
    });
}

// H03

/// The least an engine must provide: keeps all data, and digests it at the end.
#[derive(Default)]
struct Tape<const N: usize> {
    data: Vec<u8>,
}

fn toy<const N: usize>(data: &[u8]) -> [u8; N] {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(5);
    }
    core::array::from_fn(|_| {
        h = (h ^ 0x9e37).wrapping_mul(0x100000001b3).rotate_left(5);
        (h ^ (h >> 32)) as u8
    })
}

impl<const N: usize> osi::hash::Engine for Tape<N> {
    type Hash = osi::hash::Hash<N>;

    fn is_reset(&self) -> bool {
        self.data.is_empty()
    }

    fn reset(&mut self) {
        self.data.clear();
    }

    fn push(&mut self, data: &[u8]) {
        self.data.extend_from_slice(data);
    }

    fn finalize(&mut self) -> Self::Hash {
        let r = toy(&self.data);
        self.data.clear();
        osi::hash::Hash(r)
    }
}

fn toy_hmac<const CHUNK: usize, const N: usize>(key: &[u8], m: &[u8]) -> [u8; N] {
    let mut k = if key.len() > CHUNK { toy::<N>(key).to_vec() } else { key.to_vec() };
    k.resize(CHUNK, 0);
    let inner = toy::<N>(&k.iter().map(|v| v ^ 0x36).chain(m.iter().copied()).collect::<Vec<_>>());
    toy::<N>(&k.iter().map(|v| v ^ 0x5c).chain(inner).collect::<Vec<_>>())
}

/// All operation sequences on an authentication code over a small engine.
fn generic_hmac<const CHUNK: usize, const N: usize>(ctx: &Ctx) {
    let ops = alphabet(&[0, 1, CHUNK - 1, CHUNK, CHUNK + 1]);
    let k = ops.len() as u64;
    let seqs = seq_total(k, ctx.pick(2, 3));
    let keys = 3 * CHUNK as u64 + 2;
    ctx.explore(&format!("codes-{}-{}", CHUNK, N), keys * seqs, |i| {
        format!("key of {} bytes: {:?}", i / seqs, seq_at(k, i % seqs).iter().map(|v| ops[*v]).collect::<Vec<_>>())
    }, |i, c| {
        let key = pattern(77, (i / seqs) as usize);
        let mut h = osi::hmac::Hmac::<CHUNK, Tape<N>>::new(&key);
        let mut m: Vec<u8> = Vec::new();
        for o in seq_at(k, i % seqs) {
            match ops[o] {
                Op::Push(n) => {
                    let d = pattern(m.len(), n);
                    h.push(&d);
                    m.extend_from_slice(&d);
                },
                Op::Zero(n) => {
                    h.push_zero(n);
                    m.resize(m.len() + n, 0);
                },
                Op::Finalize => {
                    expect_eq!(h.finalize().0, toy_hmac::<CHUNK, N>(&key, &m), "code");
                    m.clear();
                },
                Op::Reset => {
                    h.reset();
                    m.clear();
                },
            }
            c.step(1);
        }
        let want = toy_hmac::<CHUNK, N>(&key, &m);
        expect_eq!(h.finalize().0, want, "code");
        expect_eq!(h.finalize().0, toy_hmac::<CHUNK, N>(&key, b""), "code of the next, empty message");
        c.step(2);
        c.state(&want);
        c.trace();
        Ok(())
    });
}

fn values<const N: usize>(c: &mut Case) -> CaseResult {
    for x in 0..=255u8 {
        let mut b = [0u8; N];
        for (i, v) in b.iter_mut().enumerate() {
            *v = x.wrapping_add((i as u8).wrapping_mul(17));
        }
        let h = osi::hash::Hash::<N>::from_bytes(&b);
        expect_eq!(h.as_bytes(), &b, "bytes of {}", N);
        expect_eq!(osi::hash::Hash::<N>::from(&b).0, b, "bytes of {}, converted", N);
        expect_eq!(h.to_hex(), b.iter().map(|v| format!("{:02x}", v)).collect::<String>(), "text of {} bytes", N);
        c.step(3);
        c.state(&b[..]);
    }
    expect_eq!(osi::hash::Hash::<N>::default().0, [0; N], "default of {} bytes", N);
    c.trace();
    Ok(())
}

pub fn h03(ctx: &Ctx) {
    let max = ctx.pick(5000, 70000);
    ctx.bound(format!("zero runs of 0 to {} bytes", max));
    ctx.bound("8 pairs of block and digest size, all keys of up to 3 blocks, all sequences of operations");
    ctx.explore("zeros", max + 1, |i| format!("{} zeros", i), |i, c| {
        let mut e = Tape::<8>::default();
        e.push(b"ab");
        e.push_zero(i as usize);
        e.push(b"c");
        expect_eq!(e.data.len() as u64, i + 3, "bytes");
        ensure!(e.data[2..2 + i as usize].iter().all(|v| *v == 0), "zeros");
        ensure!(e.data.starts_with(b"ab") && e.data.ends_with(b"c"), "other data");
        let d = e.data.clone();
        expect_eq!(e.finalize().0, toy::<8>(&d), "digest");
        expect_eq!(osi::hash::hash::<Tape<8>>(&d).0, toy::<8>(&d), "digest via the shortcut");
        c.step(5);
        c.state(&i);
        c.trace();
        Ok(())
    });
    let far = [65535usize, 65536, 65537, 65664, (1 << 20) - 1, 1 << 20, (1 << 20) + 129, 1 << 24];
    ctx.explore("far-zeros", far.len() as u64, |i| format!("{} zeros", far[i as usize]), |i, c| {
        let n = far[i as usize];
        let mut e = Tape::<1>::default();
        e.push_zero(n);
        ensure!(e.data.len() == n && e.data.iter().all(|v| *v == 0), "zeros");
        c.step(1);
        c.state(&n);
        c.trace();
        Ok(())
    });
    generic_hmac::<1, 1>(ctx);
    generic_hmac::<4, 4>(ctx);
    generic_hmac::<8, 3>(ctx);
    generic_hmac::<16, 16>(ctx);
    generic_hmac::<64, 20>(ctx);
    generic_hmac::<64, 64>(ctx);
    generic_hmac::<72, 28>(ctx);
    generic_hmac::<128, 64>(ctx);
    ctx.single("values", "values of all sizes", |c| {
        values::<0>(c)?;
        values::<1>(c)?;
        values::<2>(c)?;
        values::<16>(c)?;
        values::<20>(c)?;
        values::<28>(c)?;
        values::<48>(c)?;
        values::<64>(c)?;
        values::<129>(c)?;
        values::<300>(c)
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("H01", h01),
        ("H02", h02),
        ("H03", h03),
    ])
}
