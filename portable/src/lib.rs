//! Workload which runs the same wherever it runs: with any of the crate's features, with or without
//! the standard library, and on machines of other word sizes and byte orders. A case writes all that
//! can be observed of it into a log, of which digests are compared (C25, C26, C27).
#![no_std]
#![allow(dead_code)]
extern crate alloc;

mod prelude {
    pub use alloc::boxed::Box;
    pub use alloc::collections::BTreeMap;
    pub use alloc::string::{String, ToString};
    pub use alloc::vec::Vec;
    pub use alloc::{format, vec};
}
#[path = "../../harness/src/bytesgen.rs"]
mod bytesgen;
#[path = "../../harness/src/coerce.rs"]
mod coerce;
#[path = "../../harness/src/dict.rs"]
mod dict;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/refwriter.rs"]
mod refwriter;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/ss58ref.rs"]
mod ss58ref;
#[path = "../../harness/src/textgen.rs"]
mod textgen;
#[path = "../../harness/src/vgen.rs"]
mod vgen;
mod dictdata {
    include!(concat!(env!("OUT_DIR"), "/dict.rs"));
    pub struct Dict {
        pub strings: &'static [&'static str],
        pub numbers: &'static [u128],
    }
    pub fn dict() -> &'static Dict {
        static D: Dict = Dict { strings: STRINGS, numbers: NUMBERS };
        &D
    }
}
mod families;
#[cfg(target_arch = "wasm32")]
mod wasm;

use prelude::*;

/// What a case does, as a digest and (if wanted) as text.
pub struct Log {
    h: u64,
    pub n: u64,
    pub index: u64,
    pub text: Option<String>,
}
impl Log {
    pub fn new(index: u64, keep: bool) -> Log {
        Log { h: 0xcbf29ce484222325, n: 0, index, text: keep.then(String::new) }
    }
    pub fn digest(&self) -> u64 {
        rng::mix(self.h ^ self.n)
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            let _ = core::fmt::Write::write_fmt(self, format_args!("{x:02x}"));
        }
    }
}
impl core::fmt::Write for Log {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.n += s.len() as u64;
        if let Some(t) = &mut self.text {
            t.push_str(s)
        }
        Ok(())
    }
}

type Family = (&'static str, fn(&mut rng::Rng, &mut Log));
pub const FAMILIES: &[Family] = &[
    ("decode", families::decode),
    ("encode", families::encode),
    ("write", families::write),
    ("lookup", families::lookup),
    ("claim", families::claim),
    ("big", families::big),
    #[cfg(feature = "from-string")]
    ("parse", families::parse::parse),
    #[cfg(feature = "parser-ss58")]
    ("ss58", families::parse::ss58),
    #[cfg(feature = "serde")]
    ("serde", families::serde::serde),
];

pub fn run(family: usize, seed: u64, index: u64, keep: bool) -> Log {
    let (name, f) = FAMILIES[family];
    let mut r = rng::Rng::new(rng::mix(seed ^ rng::mix(rng::hash_bytes(name.as_bytes()) ^ rng::mix(index))));
    let mut log = Log::new(index, keep);
    f(&mut r, &mut log);
    log
}
