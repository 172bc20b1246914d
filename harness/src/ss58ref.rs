//! A reference for SS58: own base58 and BLAKE2b.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::rng::Rng;
use core::iter::repeat_n;

const SIGMA: [[usize; 16]; 12] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
];
const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];

/// BLAKE2b with a 64 byte digest and no key (RFC 7693).
pub fn blake2b(data: &[u8]) -> [u8; 64] {
    let mut h = IV;
    h[0] ^= 0x0101_0040;
    let blocks = data.len().div_ceil(128).max(1);
    for b in 0..blocks {
        let part = &data[b * 128..data.len().min((b + 1) * 128)];
        let mut block = [0u8; 128];
        block[..part.len()].copy_from_slice(part);
        let m: Vec<u64> = (0..16).map(|i| u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap())).collect();
        let last = b + 1 == blocks;
        let t = if last { data.len() } else { (b + 1) * 128 } as u64;
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t;
        if last {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for s in SIGMA {
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut o = [0; 64];
    for i in 0..8 {
        o[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

pub const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn base58(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|b| **b == 0).count();
    let mut n: Vec<u8> = b.to_vec();
    let mut o = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in n.iter_mut() {
            let cur = rem * 256 + *x as u32;
            *x = (cur / 58) as u8;
            rem = cur % 58;
        }
        o.push(B58[rem as usize]);
    }
    o.extend(repeat_n(b'1', zeros));
    o.reverse();
    String::from_utf8(o).unwrap()
}

pub fn unbase58(s: &str) -> Option<Vec<u8>> {
    let mut n: Vec<u8> = vec![]; // little endian
    for c in s.bytes() {
        let mut carry = B58.iter().position(|b| *b == c)? as u32;
        for x in n.iter_mut() {
            carry += *x as u32 * 58;
            *x = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            n.push(carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|b| *b == b'1').count();
    n.extend(repeat_n(0, zeros));
    n.reverse();
    Some(n)
}

pub fn checksum(b: &[u8]) -> [u8; 2] {
    let h = blake2b(&[b"SS58PRE", b].concat());
    [h[0], h[1]]
}

/// The account's bytes and how long the address is.
pub fn ref_ss58(s: &str) -> Option<(Vec<u8>, usize)> {
    let word: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    if word == "true" || word == "false" || word.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let follows = s[word.len()..].chars().find(|c| !c.is_whitespace());
    if matches!(follows, Some('(') | Some('{')) {
        return None;
    }
    let b = unbase58(&word)?;
    let p = match *b.first()? {
        0..=63 => 1,
        64..=127 => 2,
        _ => return None,
    };
    if b.len() < p + 2 {
        return None;
    }
    let (data, sum) = b.split_at(b.len() - 2);
    (checksum(data) == sum).then(|| (data[p..].to_vec(), word.len()))
}


/// An address, and the account.
pub fn address(r: &mut Rng) -> (String, Vec<u8>) {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => r.below(70),
        2 if r.chance(1, 12) => crate::dict::length_to(r, 400),
        2 => *r.pick(&[1, 2, 4, 8, 20, 33]),
        _ => 32,
    };
    address_of(r, n)
}

/// One of an account of `n` bytes.
pub fn address_of(r: &mut Rng, n: usize) -> (String, Vec<u8>) {
    let mut acc = r.bytes(n);
    match r.below(5) {
        0 => acc.iter_mut().for_each(|b| *b = 0),
        1 => acc.iter_mut().for_each(|b| *b = 255),
        2 => {
            let k = r.below(n + 1);
            acc[..k].iter_mut().for_each(|b| *b = 0)
        }
        _ => {}
    }
    let mut b = if r.bool() {
        vec![if r.chance(1, 3) { *r.pick(&[0, 1, 2, 42, 62, 63]) } else { r.below(64) as u8 }]
    } else {
        vec![if r.chance(1, 3) { *r.pick(&[64, 65, 126, 127]) } else { r.range(64, 127) as u8 }, r.u64() as u8]
    };
    b.extend_from_slice(&acc);
    b.extend(checksum(&b));
    (base58(&b), acc)
}

