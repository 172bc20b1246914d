//! Material for the generators from the literals of the code under test, and texts close to them.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::rng::Rng;

/// A text like this one, but not it.
pub fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    match r.below(14) {
        0 if n > 0 => {
            c.remove(r.below(n));
        }
        1 if n > 0 => {
            let k = r.below(n);
            c.insert(k, c[k]);
        }
        2 if n > 0 => {
            let k = r.below(n);
            c[k] = flip(c[k]);
        }
        3 => c = c.into_iter().map(|x| x.to_ascii_uppercase()).collect(),
        4 => c = c.into_iter().map(|x| x.to_ascii_lowercase()).collect(),
        5 => c.insert(0, *r.pick(&[' ', '_', '\n', '0', 'x', '"', '#'])),
        6 => c.push(*r.pick(&[' ', '_', '\n', '0', 's', '"', 'é', '(', '-'])),
        7 if n > 1 => c.truncate(r.range(1, n - 1)),
        8 if n > 1 => {
            c.drain(..r.range(1, n - 1));
        }
        9 => {
            let t: String = c.iter().collect::<String>().trim_matches(|x: char| x == '_' || x == ' ').into();
            c = t.chars().collect()
        }
        10 => c = c.iter().chain(c.iter()).copied().collect(),
        11 => c.reverse(),
        12 if n > 1 => {
            let k = r.below(n - 1);
            c.swap(k, k + 1)
        }
        _ if n > 0 => {
            let k = r.below(n);
            c[k] = crate::vgen::gen_char(r)
        }
        _ => c.push('_'),
    }
    c.into_iter().collect()
}

fn flip(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else if c.is_ascii_uppercase() {
        c.to_ascii_lowercase()
    } else if c == '_' {
        '-'
    } else {
        '_'
    }
}

pub fn string(r: &mut Rng) -> String {
    let s = r.pick(&crate::dictdata::dict().strings).to_string();
    match r.below(3) {
        0 => s,
        1 => near(r, &s),
        _ => {
            let n = near(r, &s);
            if r.chance(1, 4) {
                near(r, &n)
            } else {
                n
            }
        }
    }
}

pub fn number(r: &mut Rng) -> u128 {
    let n = *r.pick(&crate::dictdata::dict().numbers);
    match r.below(4) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        _ => n,
    }
}

/// A length for something long: boundaries of the compact encoding and of integer widths, or near a number in the code.
pub fn length(r: &mut Rng) -> usize {
    if r.chance(1, 4) {
        for _ in 0..8 {
            let n = number(r);
            if (20..200_000).contains(&n) {
                return n as usize;
            }
        }
    }
    *r.pick(&[63usize, 64, 65, 255, 256, 257, 1000, 4096, 16383, 16384, 16385, 20000, 32768, 65535, 65536, 65537, 70000])
}

/// A length up to `max`, of any order of magnitude.
pub fn length_to(r: &mut Rng, max: usize) -> usize {
    if r.bool() {
        let n = length(r);
        if n <= max {
            return n;
        }
    }
    r.long(max)
}
