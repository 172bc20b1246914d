//! Running cases, catching what they do, counting what was observed, verdicts and evidence.
use crate::alloc;
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case failed. `sig` identifies a precise known finding, if it is one.
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail {
            sig: None,
            msg: msg.to_string(),
        }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::runner::Fail::from(format!($($a)*))); } };
}

pub struct Case {
    pub r: Rng,
    pub index: u64,
    nontrivial: Option<u64>,
    pub desc: String,
    pub counts: Vec<(&'static str, u64)>,
    pub skipped: bool,
}
impl Case {
    /// Declare the case non-trivial and say what identifies it (for counting distinct ones).
    pub fn nontrivial(&mut self, key: impl AsRef<[u8]>) {
        self.nontrivial = Some(hash_bytes(key.as_ref()));
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        self.counts.push((what, n));
    }
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, u64, String)>,
    pub known: Vec<(String, String)>,
    pub known_hit: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub start: Instant,
    pub cur: Option<std::fs::File>,
    pub scale: f64,
    pub san: San,
    /// this worker's part of the cases: those whose index is .0 modulo .1
    pub shard: (u64, u64),
    pub sections: BTreeMap<String, u64>,
    pub requires: Vec<(String, u64)>,
}

/// Under a sanitizer only what the sanitizer itself reports is judged.
#[derive(Clone, Copy, PartialEq)]
pub enum San {
    No,
    Asan,
    /// cases per section, seconds per section
    Miri(u64, f64),
}
impl San {
    pub fn from_env() -> San {
        match std::env::var("SV_SAN").as_deref() {
            Ok("asan") => San::Asan,
            Ok("miri") => {
                let f = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
                San::Miri(f("SV_MIRI_CASES", 4.0) as u64, f("SV_MIRI_SECS", 20.0))
            }
            _ => San::No,
        }
    }
}

const MIRI_SKIPS: &[(&str, &str)] = &[
    ("C01", "deep"), ("C01", "long"), ("C02", "deep"), ("C02", "long"), ("C03", "deep"), ("C03", "long"), ("C07", "all_short_inputs"), ("C07", "long"), ("C08", "long"), ("C09", "long"),
    ("C11", "large"), ("C11", "characters"), ("C11", "deep"), ("C12", "long"), ("C16", "deep"), ("C17", "deep"), ("C18", "numbers"), ("C18", "long"),
    ("C20", "numbers"), ("C20", "small_numbers"), ("C21", "large"), ("C22", "exhaustive"), ("C22", "numbers"), ("C04", "long"), ("C05", "long"), ("C13", "long"), ("C16", "long"), ("C17", "long"), ("C19", "long"), ("C20", "long"), ("C22", "long"), ("C28", "long"), ("C14", "long"), ("C15", "long"), ("C15", "numbers"), ("C11", "bottomless"), ("C12", "bottomless"),
];

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} (at {at})")));
    }));
}

/// Run something that must not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if m.contains("(at src/") && !m.contains(crate::model::BUDGET_MSG) {
                // the harness itself went wrong
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(m));
                std::panic::resume_unwind(e);
            }
            Err(Fail::from(format!("{what} panicked: {m}")))
        }
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...[{} bytes]", &s[..e], s.len())
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// cases to run: `quick` of them, or `factor` times as many when thorough
    pub fn n(&self, quick: u64, factor: u64) -> u64 {
        ((quick * if self.thorough() { factor } else { 1 }) as f64 * self.scale).max(1.0) as u64
    }

    /// Run `n` cases (fewer if `secs` run out: that is a smaller exploration, not a verdict).
    pub fn section(&mut self, name: &'static str, n: u64, mut f: impl FnMut(&mut Case) -> Res) {
        // single cases which take an interpreter minutes
        if matches!(self.san, San::Miri(..)) && MIRI_SKIPS.contains(&(self.id, name)) {
            return;
        }
        let mut secs = if self.thorough() { 600.0 } else { 100.0 };
        if self.san == San::Asan {
            secs /= 2.0;
        }
        let (shard, shards) = self.shard;
        let mut pick: Box<dyn Iterator<Item = u64>> = Box::new((shard..n).step_by(shards as usize));
        if let San::Miri(k, t) = self.san {
            let seed = self.seed;
            secs = t;
            if k < n {
                pick = Box::new((0..k).map(move |i| mix(mix(seed) ^ i) % n));
            }
        }
        if let Some((s, i)) = &self.only {
            if s != name {
                return;
            }
            pick = Box::new(*i..*i + 1);
        }
        let t0 = Instant::now();
        let mut seen_here = 0u64;
        for index in pick {
            if t0.elapsed().as_secs_f64() > secs {
                self.counters
                    .insert(format!("{name}.stopped_by_time_at"), index);
                break;
            }
            if self.violations.len() >= 4 {
                break;
            }
            PROGRESS.fetch_add(1, Relaxed);
            if let Some(c) = &mut self.cur {
                let _ = c.rewind();
                let _ = c.write_all(format!("{name}:{index:<20}\n").as_bytes());
            }
            let seed = mix(self.seed ^ mix(hash_bytes(name.as_bytes()) ^ mix(index)));
            let mut case = Case {
                r: Rng::new(seed),
                index,
                nontrivial: None,
                desc: String::new(),
                counts: vec![],
                skipped: false,
            };
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            alloc::end();
            let res: Res = match res {
                Ok(r) => r,
                Err(_) => {
                    let m = LAST_PANIC
                        .with(|p| p.borrow_mut().take())
                        .unwrap_or_default();
                    if m.contains("(at src/") && !m.contains(crate::model::BUDGET_MSG) {
                        // the harness itself went wrong
                        self.errors.push(format!("{name}:{index}: {m}"));
                        return;
                    }
                    Err(Fail::from(format!("panicked: {m}")))
                }
            };
            if case.skipped {
                *self.counters.entry(format!("{name}.skipped")).or_default() += 1;
                continue;
            }
            self.evals += 1;
            seen_here += 1;
            *self.counters.entry(format!("{name}.cases")).or_default() += 1;
            for (k, v) in &case.counts {
                *self.counters.entry(format!("{name}.{k}")).or_default() += v;
            }
            if let Some(h) = case.nontrivial {
                if self.distinct.len() < 4_000_000 {
                    self.distinct.insert(mix(h ^ hash_bytes(name.as_bytes())));
                }
                *self
                    .counters
                    .entry(format!("{name}.nontrivial"))
                    .or_default() += 1;
                if (index < 2 || (index % 997 == 5 && self.samples.len() < 12))
                    && !case.desc.is_empty()
                {
                    self.samples
                        .push(trunc(&format!("{name}:{index} {}", case.desc), 500));
                }
            }
            if let (Err(e), true) = (&res, self.san != San::No) {
                // C24 judges memory errors; what a value is is for the other checks
                if e.sig.as_deref() == Some("memory") {
                    self.violations.push((name.to_string(), index, e.msg.clone()));
                } else {
                    *self.counters.entry(format!("{name}.not_judged_here")).or_default() += 1;
                }
            } else if let Err(e) = res {
                let msg = format!("{}\ncase: {}", e.msg, trunc(&case.desc, 20000));
                match e.sig {
                    Some(s) if self.known.iter().any(|(p, k)| p == self.id && *k == s) => {
                        *self.known_hit.entry(s).or_default() += 1
                    }
                    _ => self.violations.push((name.to_string(), index, msg)),
                }
            }
        }
        *self.sections.entry(name.to_string()).or_default() += seen_here;
    }

    pub fn require(&mut self, counter: &str, min: u64) {
        self.requires.push((counter.to_string(), min));
    }
}
