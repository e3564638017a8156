//! Pseudo random number generators.

use mc::engine::*;
use mc::expect_eq;
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

const GAMMA: u64 = 0x9e3779b97f4a7c15;

/// Reference generators, written from the published algorithms.
mod reference {
    pub fn mix64(mut z: u64) -> u64 {
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }

    pub fn mix32(mut z: u64) -> u32 {
        z = (z ^ (z >> 33)).wrapping_mul(0x62a9d9ed799705f5);
        (((z ^ (z >> 28)).wrapping_mul(0xcb24d0a5c88c35b3)) >> 32) as u32
    }

    pub fn mix_gamma(mut z: u64) -> u64 {
        z = (z ^ (z >> 33)).wrapping_mul(0xff51afd7ed558ccd);
        z = (z ^ (z >> 33)).wrapping_mul(0xc4ceb9fe1a85ec53);
        z = (z ^ (z >> 33)) | 1;
        let n = (z ^ (z >> 1)).count_ones();
        if n < 24 { z ^ 0xaaaaaaaaaaaaaaaa } else { z }
    }

    /// The inverse of an odd number modulo 2^64.
    fn inverse(v: u64) -> u64 {
        let mut r = v;
        for _ in 0..6 {
            r = r.wrapping_mul(2u64.wrapping_sub(v.wrapping_mul(r)));
        }
        r
    }

    /// Undo `v ^ (v >> n)`.
    fn unshift(v: u64, n: u32) -> u64 {
        let mut r = v;
        for _ in 0..64 / n + 1 {
            r = v ^ (r >> n);
        }
        r
    }

    pub fn unmix64(z: u64) -> u64 {
        let z = unshift(z, 31).wrapping_mul(inverse(0x94d049bb133111eb));
        let z = unshift(z, 27).wrapping_mul(inverse(0xbf58476d1ce4e5b9));
        unshift(z, 30)
    }

    /// Undo the bijective part of `mix_gamma`.
    pub fn unmix_gamma(z: u64) -> u64 {
        let z = unshift(z, 33).wrapping_mul(inverse(0xc4ceb9fe1a85ec53));
        let z = unshift(z, 33).wrapping_mul(inverse(0xff51afd7ed558ccd));
        unshift(z, 33)
    }

    #[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
    pub struct Mix {
        pub seed: u64,
        pub gamma: u64,
    }

    impl Mix {
        fn seed(&mut self) -> u64 {
            self.seed = self.seed.wrapping_add(self.gamma);
            self.seed
        }
        pub fn next64(&mut self) -> u64 {
            mix64(self.seed())
        }
        pub fn next32(&mut self) -> u32 {
            mix32(self.seed())
        }
        pub fn split(&mut self) -> Mix {
            let seed = mix64(self.seed());
            let gamma = mix_gamma(self.seed());
            Mix { seed, gamma }
        }
    }

    #[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
    pub struct Xo(pub [u64; 4]);

    impl Xo {
        pub fn step(&mut self) {
            let s = &mut self.0;
            let t = s[1] << 17;
            s[2] ^= s[0];
            s[3] ^= s[1];
            s[1] ^= s[2];
            s[0] ^= s[3];
            s[2] ^= t;
            s[3] = (s[3] << 45) | (s[3] >> 19);
        }
        pub fn next(&mut self) -> u64 {
            let s = &self.0;
            let x = s[0].wrapping_add(s[3]);
            let r = ((x << 23) | (x >> 41)).wrapping_add(s[0]);
            self.step();
            r
        }
        pub fn apply(&self, m: &Matrix) -> Xo {
            Xo(m.mul_vec(self.0))
        }
    }

    /// A linear map over GF(2)^256, stored by its images of the unit vectors.
    #[derive(Clone)]
    pub struct Matrix(Vec<[u64; 4]>);

    impl Matrix {
        pub fn of_step() -> Matrix {
            Matrix((0..256).map(|i| {
                let mut v = [0u64; 4];
                v[i / 64] = 1 << (i % 64);
                let mut x = Xo(v);
                x.step();
                x.0
            }).collect())
        }
        pub fn mul_vec(&self, v: [u64; 4]) -> [u64; 4] {
            let mut r = [0u64; 4];
            for i in 0..256 {
                if v[i / 64] >> (i % 64) & 1 == 1 {
                    for k in 0..4 {
                        r[k] ^= self.0[i][k];
                    }
                }
            }
            r
        }
        pub fn square(&self) -> Matrix {
            Matrix(self.0.iter().map(|v| self.mul_vec(*v)).collect())
        }
        pub fn pow2(&self, n: usize) -> Matrix {
            let mut m = self.clone();
            for _ in 0..n {
                m = m.square();
            }
            m
        }
    }
}

use reference::{Matrix, Mix, Xo};

fn seeds(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).collect();
    for i in 0..64 {
        v.push(1 << i);
        v.push(!(1 << i));
        v.push(0u64.wrapping_sub(GAMMA.wrapping_mul(i + 1)));
    }
    v.push(u64::MAX);
    v.push(0x0123456789abcdef);
    v.sort();
    v.dedup();
    v
}

pub fn r01(ctx: &Ctx) {
    ctx.bound("every sequence of draws, splits and jumps of the stated depth from every seed of a boundary set");
    ctx.bound("jumps compared with the exact 2^128 and 2^192 power of the step map over GF(2)");
    ctx.assume("the published recurrences of SplitMix64 and Xoshiro256++ are restated correctly in the reference; anchored to published outputs");
    ctx.single("reference-anchors", "published output of SplitMix64 and Xoshiro256++", |c| {
        let mut m = Mix { seed: 1234567, gamma: GAMMA };
        let v: Vec<u64> = (0..3).map(|_| m.next64()).collect();
        assert_eq!(v, [6457827717110365317, 3203168211198807973, 9817491932198370423]);
        let mut x = Xo([1, 2, 3, 4]);
        let v: Vec<u64> = (0..3).map(|_| x.next()).collect();
        assert_eq!(v, [41943041, 58720359, 3588806011781223]);
        c.trace();
        Ok(())
    });

    let sd = seeds(ctx.pick(3000, 40000));
    let depth = ctx.pick(4u32, 5);

    // Mix64 and SplitMix64: every sequence of operations.
    // 0: next32, 1: next64, 2: split and continue with the parent,
    // 3: split and continue with the child, 4: copy and continue with copy.
    let k = 5u64;
    let per = seq_total(k, depth);
    ctx.explore("splitmix", sd.len() as u64 * per, |i| {
        format!("seed {:#x}, ops {:?}", sd[(i / per) as usize], seq_at(k, i % per))
    }, |i, c| {
        let seed = sd[(i / per) as usize];
        let seq = seq_at(k, i % per);
        let mut r = Mix { seed, gamma: GAMMA };
        let mut mix = Some(Mix64::with_seed(seed));
        let mut split = SplitMix64::with_seed(seed);
        for (n, o) in seq.iter().enumerate() {
            c.step(1);
            match o {
                0 => {
                    let want = r.next32();
                    if let Some(m) = &mut mix {
                        expect_eq!(m.next32(), want, "draw {} (32 bit)", n);
                    }
                    expect_eq!(split.next32(), want, "split draw {} (32 bit)", n);
                },
                1 => {
                    let want = r.next64();
                    if let Some(m) = &mut mix {
                        expect_eq!(m.next64(), want, "draw {} (64 bit)", n);
                    }
                    expect_eq!(split.next64(), want, "split draw {} (64 bit)", n);
                },
                2 | 3 => {
                    let mut child = r.split();
                    let mut a = split.split();
                    if let Some(m) = &mut mix {
                        let b = m.split();
                        expect_eq!(b, a, "split of both generators");
                        expect_eq!(SplitMix64::from(*m), split, "state after splitting");
                    }
                    if *o == 3 {
                        r = child;
                        split = a;
                        mix = None;
                    } else {
                        expect_eq!(a.next64(), child.next64(), "first draw of the child");
                    }
                },
                _ => {
                    let mut a = split;
                    a.next64();
                    if let Some(m) = mix {
                        let mut b = m;
                        b.next32();
                    }
                },
            }
        }
        let want = (r.next64(), r.next32(), r.split().next64());
        if let Some(mut m) = mix {
            expect_eq!((m.next64(), m.next32(), m.split().next64()), want, "final draws");
        }
        expect_eq!((split.next64(), split.next32(), split.split().next64()), want, "final draws of the split generator");
        c.step(3);
        c.state(&r);
        c.trace();
        Ok(())
    });

    // Xoshiro256++: seeding, draws, and jumps.
    let m = Matrix::of_step();
    let m128 = m.pow2(128);
    let m192 = m.pow2(192);
    let mut xs: Vec<[u64; 4]> = Vec::new();
    for i in 0..256 {
        let mut v = [0u64; 4];
        v[i / 64] = 1 << (i % 64);
        xs.push(v);
        let mut w = [u64::MAX; 4];
        w[i / 64] ^= 1 << (i % 64);
        xs.push(w);
    }
    for a in 0..81u64 {
        let d = mixed(a, &[3, 3, 3, 3]);
        xs.push([d[0], d[1], d[2], d[3]]);
    }
    xs.push([u64::MAX; 4]);
    let depth = ctx.pick(4u32, 6);
    let k = 3u64;
    let per = seq_total(k, depth);
    ctx.explore("xoshiro", xs.len() as u64 * per, |i| {
        format!("seed {:x?}, ops {:?}", xs[(i / per) as usize], seq_at(k, i % per))
    }, |i, c| {
        let seed = xs[(i / per) as usize];
        let mut x = Xoshiro256pp::with_seed(seed);
        let mut r = Xo(seed);
        if seed == [0; 4] {
            // Documented fallback: seeded from SplitMix64 with seed 0.
            let mut m = Mix { seed: 0, gamma: GAMMA };
            r = Xo([m.next64(), m.next64(), m.next64(), m.next64()]);
        }
        for (n, o) in seq_at(k, i % per).into_iter().enumerate() {
            c.step(1);
            match o {
                0 => expect_eq!(x.next64(), r.next(), "draw {}", n),
                1 => {
                    x.jump128();
                    r = r.apply(&m128);
                },
                _ => {
                    x.jump192();
                    r = r.apply(&m192);
                },
            }
        }
        let y = x.clone();
        for n in 0..5 {
            expect_eq!(x.next64(), r.next(), "draw {} after the sequence", n);
            c.step(1);
        }
        let mut y = y;
        y.next64();
        c.state(&r);
        c.trace();
        Ok(())
    });

    // Seeding from SplitMix64 consumes four draws and uses all of them.
    ctx.explore("xoshiro-seeding", sd.len() as u64, |i| format!("SplitMix64 seed {:#x}", sd[i as usize]), |i, c| {
        let seed = sd[i as usize];
        let mut m = Mix { seed, gamma: GAMMA };
        let mut s = SplitMix64::with_seed(seed);
        let from = SplitMix64::from_mix64(Mix64::with_seed(seed));
        expect_eq!(from, s, "both ways to create a split generator");
        let mut y = Xoshiro256pp::from(s);
        let mut x = Xoshiro256pp::from_splitmix64(&mut s);
        let mut r = Xo([m.next64(), m.next64(), m.next64(), m.next64()]);
        expect_eq!(s.next64(), m.next64(), "state of the seeding generator");
        for n in 0..8 {
            let want = r.next();
            expect_eq!(x.next64(), want, "draw {}", n);
            expect_eq!(y.next64(), want, "draw {} after From", n);
            c.step(2);
        }
        c.state(&r);
        c.trace();
        Ok(())
    });

    // Seeds calculated from what they have to yield: draws, words of the
    // state, and increments before they are adjusted.
    let mut targets: Vec<u64> = vec![0, u64::MAX, GAMMA, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555];
    for a in 0..64 {
        for b in a..64 {
            // All runs of ones.
            let v = (u64::MAX >> (63 - b)) & (u64::MAX << a);
            targets.extend([v, !v]);
        }
        // The bits alternate up to a place, so that the number of changes takes all values.
        targets.extend([0xaaaaaaaaaaaaaaaa << a, 0x5555555555555555 >> a, 0xaaaaaaaaaaaaaaaa >> a]);
    }
    targets.sort();
    targets.dedup();
    let t = targets.len() as u64;
    ctx.bound(format!("seeds for {} chosen draws and increments, at 5 places of the sequence", t));
    ctx.explore("targets", 10 * t, |i| {
        format!("{} {:#x} at draw {}", ["value", "increment"][(i / t % 2) as usize], targets[(i % t) as usize], i / t / 2)
    }, |i, c| {
        let want = targets[(i % t) as usize];
        let at = i / t / 2;
        let (seed, kind) = if i / t % 2 == 0 {
            (reference::unmix64(want), 0)
        } else {
            (reference::unmix_gamma(want), 1)
        };
        let seed = seed.wrapping_sub(GAMMA.wrapping_mul(at + 1 + kind));
        let mut r = Mix { seed, gamma: GAMMA };
        let mut s = SplitMix64::with_seed(seed);
        let mut m = Mix64::with_seed(seed);
        for n in 0..at {
            let v = r.next64();
            expect_eq!((s.next64(), m.next64()), (v, v), "draw {}", n);
        }
        if kind == 0 {
            let v = r.next64();
            assert_eq!(v, want);
            expect_eq!((s.next64(), m.next64()), (v, v), "chosen draw");
        } else {
            let mut v = r.split();
            let (mut a, mut b) = (s.split(), m.split());
            for n in 0..4 {
                let v = v.next64();
                expect_eq!((a.next64(), b.next64()), (v, v), "draw {} of the new generator", n);
            }
            let mut v = v.split();
            let (mut a, mut b) = (a.split(), b.split());
            let v = v.next32();
            expect_eq!((a.next32(), b.next32()), (v, v), "draw of the generator after the new one");
        }
        let mut q = Mix { seed, gamma: GAMMA };
        let mut y = Xoshiro256pp::from_splitmix64(&mut SplitMix64::with_seed(seed));
        let mut x = Xo([q.next64(), q.next64(), q.next64(), q.next64()]);
        for n in 0..4 {
            expect_eq!(y.next64(), x.next(), "Xoshiro256++ draw {}", n);
        }
        c.step(at + 8);
        c.state(&(r, kind));
        c.trace();
        Ok(())
    });

    // Long runs.
    let draws = ctx.pick(140_000u64, 5_000_000);
    ctx.explore("long-runs", 64, |i| format!("{} draws from seed {}", draws, i), |i, c| {
        let mut s = SplitMix64::with_seed(i);
        let mut m = Mix { seed: i, gamma: GAMMA };
        let mut x = Xoshiro256pp::with_seed([i, 1, 2, 3]);
        let mut r = Xo([i, 1, 2, 3]);
        for n in 0..draws {
            expect_eq!(s.next64(), m.next64(), "SplitMix64 draw {}", n);
            expect_eq!(x.next64(), r.next(), "Xoshiro256++ draw {}", n);
            c.step(2);
            if n < 1000 {
                c.state(&r);
            }
        }
        c.trace();
        Ok(())
    });

    // Generators split from each other many times, and many jumps.
    ctx.explore("long-chains", 64, |i| format!("1000 splits and 200 jumps from seed {}", i), |i, c| {
        let mut s = SplitMix64::with_seed(i);
        let mut r = Mix { seed: i, gamma: GAMMA };
        for n in 0..1000 {
            let (mut a, mut b) = (s.split(), r.split());
            expect_eq!(a.next32(), b.next32(), "draw of child {}", n);
            if n % 3 != 2 {
                (s, r) = (a, b);
            }
            expect_eq!(s.next64(), r.next64(), "draw after split {}", n);
            c.step(3);
            c.state(&r);
        }
        let mut x = Xoshiro256pp::with_seed([0, 0, i, 1]);
        let mut r = Xo([0, 0, i, 1]);
        for n in 0..200 {
            if n % 2 == 0 {
                x.jump128();
                r = r.apply(&m128);
            } else {
                x.jump192();
                r = r.apply(&m192);
            }
            expect_eq!(x.next64(), r.next(), "draw after jump {}", n);
            c.step(2);
            c.state(&r);
        }
        c.trace();
        Ok(())
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("R01", r01),
    ])
}
