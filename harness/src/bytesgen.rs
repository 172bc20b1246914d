//! Damage to encoded bytes.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::model::enc_compact;
use crate::rng::Rng;

/// Damage an encoding.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) -> &'static str {
    let pos = |r: &mut Rng, b: &Vec<u8>| {
        if b.is_empty() {
            0
        } else if r.chance(1, 3) {
            r.below(b.len().min(3))
        } else {
            r.below(b.len())
        }
    };
    match r.below(12) {
        0 | 1 => {
            let k = if b.is_empty() { 0 } else { r.below(b.len()) };
            b.truncate(k);
            "truncated"
        }
        2 | 3 => {
            if !b.is_empty() {
                let p = pos(r, b);
                b[p] ^= 1 << r.below(8);
            }
            "bit flipped"
        }
        4 => {
            if !b.is_empty() {
                let p = pos(r, b);
                b[p] = r.u64() as u8;
            }
            "byte changed"
        }
        5 | 6 | 7 => {
            // claim an enormous length
            let mut c = vec![];
            match r.below(7) {
                0 => enc_compact((1 << 30) - 1, &mut c),
                1 => enc_compact(r.uint(32), &mut c),
                2 => enc_compact(r.uint(64), &mut c),
                3 => enc_compact(r.uint(128), &mut c),
                4 => enc_compact(
                    *r.pick(&[
                        100_000_000u128,
                        100_000_001,
                        99_999_999,
                        1 << 24,
                        1 << 28,
                        1 << 31,
                        u32::MAX as u128,
                        u64::MAX as u128,
                        1 << 40,
                        1 << 62,
                        1 << 63,
                    ]),
                    &mut c,
                ),
                5 => enc_compact(
                    *r.pick(&[1u128 << 20, 1 << 14, 16383, 64, 63, 5_000_000]),
                    &mut c,
                ),
                _ => c = vec![0x03, 1, 0, 0, 0], // not canonical
            }
            let p = pos(r, b);
            let k = (p + 1).min(b.len());
            b.splice(p.min(b.len())..k, c);
            if r.bool() {
                let n = r.below(60);
                b.extend(r.bytes(n));
            }
            "length inflated"
        }
        8 => {
            let p = pos(r, b);
            let n = r.range(1, 6);
            let x = r.bytes(n);
            b.splice(p..p, x);
            "bytes inserted"
        }
        9 => {
            if !b.is_empty() {
                let p = pos(r, b);
                b.remove(p);
            }
            "byte removed"
        }
        10 => {
            let n = r.below(40);
            *b = if r.chance(1, 4) {
                vec![*r.pick(&[0u8, 1, 4, 0xff, 0xfe, 2]); n]
            } else {
                r.bytes(n)
            };
            "random"
        }
        _ => {
            let n = r.below(20);
            b.extend(r.bytes(n));
            "extended"
        }
    }
}

