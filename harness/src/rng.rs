//! A small deterministic generator (xoshiro256**), so that every case replays from (seed, section, index).
#[allow(unused_imports)]
use crate::prelude::*;
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            *v = mix(x);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (((self.u64() as u128) * (n as u128)) >> 64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    /// A length up to `max`, of every order of magnitude, and often next to a power of two or ten.
    pub fn long(&mut self, max: usize) -> usize {
        let n = match self.below(4) {
            0 => {
                let k = self.below(max.ilog2() as usize + 1);
                (1usize << k) + self.below(3)
            }
            1 => {
                let k = self.below(max.ilog10() as usize + 1) as u32;
                10usize.pow(k) * *self.pick(&[1, 1, 2, 3, 5]) + self.below(3)
            }
            _ => {
                let k = self.below(max.ilog2() as usize + 1);
                (1usize << k) + self.below(1 << k)
            }
        };
        n.saturating_sub(1).min(max)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// An unsigned number below 2^bits, biased to boundaries of every width.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let max = if bits == 128 {
            u128::MAX
        } else {
            (1u128 << bits) - 1
        };
        match self.below(9) {
            8 => crate::dict::number(self) & max,
            0 => self.below(4) as u128 & max,
            1 => max - (self.below(4) as u128 & max),
            2 | 3 => {
                // near a power of two
                let k = self.below(bits as usize) as u32;
                let b = 1u128 << k;
                let d = self.below(3) as u128;
                (if self.bool() {
                    b.wrapping_add(d)
                } else {
                    b.wrapping_sub(d)
                }) & max
            }
            4 => self.u128() & max & 0xff,
            5 => {
                let k = 1 + self.below(bits as usize) as u32;
                self.u128()
                    & (if k == 128 {
                        u128::MAX
                    } else {
                        (1u128 << k) - 1
                    })
            }
            6 => {
                // compact-mode boundaries
                let b = *self.pick(&[
                    63u128,
                    64,
                    16383,
                    16384,
                    (1 << 30) - 1,
                    1 << 30,
                    u32::MAX as u128,
                    u32::MAX as u128 + 1,
                    (1 << 56) - 1,
                    1 << 56,
                    u64::MAX as u128,
                    u64::MAX as u128 + 1,
                ]);
                b & max
            }
            _ => self.u128() & max,
        }
    }
    /// A signed number of the width, biased to boundaries.
    pub fn int(&mut self, bits: u32) -> i128 {
        let u = self.uint(bits);
        if self.chance(1, 3) {
            // sign extend
            let sh = 128 - bits;
            ((u << sh) as i128) >> sh
        } else {
            let half = if bits == 128 {
                i128::MAX as u128
            } else {
                (1u128 << (bits - 1)) - 1
            };
            let m = (u & half) as i128;
            if self.bool() {
                m
            } else {
                -m - if self.bool() {
                    0
                } else if m < half as i128 {
                    1
                } else {
                    0
                }
            }
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}
