//! C25 the crate's features, C26 machines of other word sizes and byte orders, C27 calls which don't
//! depend on each other. The workload is that of ../../portable, which logs all that can be observed
//! of each of its cases; here it is built and run in every way, and digests of the logs are compared.
use crate::alloc;
use crate::runner::*;
use crate::{root, Check};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C25",
            run: c25,
            rule: "a case is an input processed by builds of the crate with different features, what each build does being compared with what the build with all of them does; or a build (with or without the standard library) as such. Non-trivial: at least two builds answered; distinct by what the reference did",
            mem: false,
            term: false,
        },
        Check {
            id: "C26",
            run: c26,
            rule: "a case is an input processed on a 32 bit machine without operating system or standard library (WebAssembly), or a 64 bit big endian one (s390x under Miri), what it does being compared with what the 64 bit little endian host does. Non-trivial: both answered; distinct by what the host did",
            mem: false,
            term: false,
        },
        Check {
            id: "C27",
            run: c27,
            rule: "a case is an input processed again: in another order, in a process which did nothing before, after itself, or while other threads process others, what it does being compared with the first time. Non-trivial: both answered; distinct by what happened the first time",
            mem: false,
            term: false,
        },
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum On {
    Host,
    Wasm,
    Miri(&'static str),
    /// the host, with ThreadSanitizer
    Tsan,
}

#[derive(Clone, Copy)]
struct Way {
    name: &'static str,
    features: &'static str,
    on: On,
}

const FULL: Way = Way { name: "host", features: "serde,from-string,parser-ss58", on: On::Host };
const WASM: Way = Way { name: "wasm32", features: FULL.features, on: On::Wasm };
const S390X: Way = Way { name: "s390x", features: FULL.features, on: On::Miri("s390x-unknown-linux-gnu") };
const MIRI: Way = Way { name: "miri", features: FULL.features, on: On::Miri("x86_64-unknown-linux-gnu") };
const TSAN: Way = Way { name: "tsan", features: FULL.features, on: On::Tsan };
const HOSTS: &[Way] = &[
    FULL,
    Way { name: "no-features", features: "", on: On::Host },
    Way { name: "serde", features: "serde", on: On::Host },
    Way { name: "from-string", features: "from-string", on: On::Host },
    Way { name: "parser-ss58", features: "parser-ss58", on: On::Host },
    Way { name: "serde-from-string", features: "serde,from-string", on: On::Host },
    Way { name: "wasm32-no-features", features: "", on: On::Wasm },
    WASM,
];

const FAMILIES: &[&str] = &["decode", "encode", "write", "lookup", "parse", "ss58", "serde"];

fn target(w: &Way) -> PathBuf {
    let t: PathBuf = std::env::var("CARGO_TARGET_DIR").map(Into::into).unwrap_or_else(|_| root().join("target"));
    t.join("portable").join(w.name)
}

impl Way {
    fn cargo(&self) -> Command {
        let dir = PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("../portable");
        let mut c = Command::new("cargo");
        c.current_dir(&dir).env("CARGO_NET_OFFLINE", "true").env("CARGO_TARGET_DIR", target(self)).env_remove("RUSTFLAGS").stdin(Stdio::null()).stdout(Stdio::null());
        c.arg("+nightly");
        match self.on {
            On::Host => {
                c.args(["build", "--release", "--offline"]);
            }
            On::Wasm => {
                c.args(["rustc", "--lib", "--crate-type", "cdylib", "--profile", "wasm", "--offline", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem", "-Zjson-target-spec", "--target"]);
                c.arg(dir.join("wasm32-none.json"));
            }
            On::Miri(t) => {
                c.args(["miri", "run", "--offline", "--target", t]);
            }
            On::Tsan => {
                c.env("RUSTFLAGS", "-Zsanitizer=thread").args(["build", "--release", "--offline", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]);
            }
        }
        c.args(["--features", self.features]);
        c
    }

    /// Err: whether the crate itself didn't build, and what was said.
    fn build(&self, log: &std::path::Path) -> Result<(), (bool, String)> {
        let dir = log.join(format!("build-{}", self.name));
        let out = std::fs::File::create(&dir).map_err(|e| (false, e.to_string()))?;
        let mut c = self.cargo();
        if let On::Miri(_) = self.on {
            // (no cases)
            c.args(["--", "1", "0", "0"]).env("MIRIFLAGS", "-Zmiri-disable-isolation");
        }
        let ok = c.stderr(out).status().map_err(|e| (false, e.to_string()))?.success();
        if ok {
            return Ok(());
        }
        let text = std::fs::read_to_string(&dir).unwrap_or_default();
        let own = text.contains("could not compile `scale-value`");
        let at = text.find("error").unwrap_or(0);
        Err((own, trunc(&text[at..], 3000)))
    }

    fn command(&self, args: &[String]) -> Command {
        let mut c = match self.on {
            On::Host => Command::new(target(self).join("release/sv-portable")),
            On::Tsan => Command::new(target(self).join("x86_64-unknown-linux-gnu/release/sv-portable")),
            On::Wasm => {
                let mut c = Command::new("node");
                c.arg("--stack-size=4000").arg(PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("../portable/run.mjs")).arg(target(self).join("wasm32-none/wasm/sv_portable.wasm"));
                c
            }
            On::Miri(_) => {
                let mut c = self.cargo();
                c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks").arg("--");
                c
            }
        };
        c.args(args).stdin(Stdio::null()).stderr(Stdio::null());
        c
    }

    fn run(&self, args: &[String], out: &std::path::Path, secs: u64) -> Result<(), String> {
        let f = std::fs::File::create(out).map_err(|e| e.to_string())?;
        let mut child = self.command(args).stdout(f).spawn().map_err(|e| e.to_string())?;
        let t0 = Instant::now();
        loop {
            match child.try_wait() {
                Ok(Some(s)) if s.success() => return Ok(()),
                Ok(Some(s)) => return Err(format!("{} {args:?} ended with {s}", self.name)),
                Ok(None) if t0.elapsed() < Duration::from_secs(secs) => std::thread::sleep(Duration::from_millis(20)),
                _ => {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err(format!("{} {args:?} did not end within {secs} s", self.name));
                }
            }
        }
    }

    /// What it says about one case.
    fn log(&self, seed: u64, index: u64, family: &str) -> String {
        let args = [seed.to_string(), index.to_string(), family.to_string(), "--log".to_string()];
        match self.command(&args).output() {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
            Ok(o) => format!("(panicked: {})", o.status),
            Err(e) => e.to_string(),
        }
    }
}

/// family → (first index, digest by index)
type Digests = BTreeMap<String, BTreeMap<u64, u64>>;

fn read(p: &std::path::Path, into: &mut Digests) {
    let text = std::fs::read_to_string(p).unwrap_or_default();
    for l in text.lines() {
        let mut w = l.split(' ');
        if let (Some(f), Some(Ok(i)), Some(Ok(d))) = (w.next(), w.next().map(str::parse), w.next().map(|d| u64::from_str_radix(d, 16))) {
            if let Some(m) = into.get_mut(f) {
                // (a case with different results in runs of the same kind has none that is right)
                let was = *m.entry(i).or_insert(d);
                if was != d {
                    m.insert(i, 3);
                }
            } else {
                into.insert(f.into(), [(i, d)].into());
            }
        }
    }
}

struct Job {
    way: Way,
    args: Vec<String>,
    secs: u64,
    /// which result it adds to
    to: usize,
}

/// Build, then run; gives what each of the results holds.
struct Runs {
    dir: PathBuf,
    errors: Vec<String>,
    broken: Vec<(Way, String)>,
}

impl Runs {
    fn new(id: &str) -> Self {
        let dir = root().join("work").join(id);
        let _ = std::fs::create_dir_all(&dir);
        Runs { dir, errors: vec![], broken: vec![] }
    }

    /// the ways which can be built
    fn build(&mut self, ways: &[Way]) -> Vec<Way> {
        let next = AtomicUsize::new(0);
        let res = Mutex::new(vec![]);
        let dir = &self.dir;
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Relaxed);
                    let Some(w) = ways.get(k) else { return };
                    let r = w.build(dir);
                    res.lock().unwrap().push((k, r));
                });
            }
        });
        let mut ok = vec![];
        let mut res = res.into_inner().unwrap();
        res.sort_by_key(|r| r.0);
        for (k, r) in res {
            match r {
                Ok(()) => ok.push(ways[k]),
                Err((true, e)) => self.broken.push((ways[k], e)),
                Err((false, e)) => self.errors.push(format!("the build {} fails: {e}", ways[k].name)),
            }
        }
        ok
    }

    fn run(&mut self, jobs: &[Job], results: usize) -> Vec<Digests> {
        let next = AtomicUsize::new(0);
        let errs = Mutex::new(vec![]);
        let dir = &self.dir;
        let file = |k: usize| dir.join(format!("out-{k}"));
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Relaxed);
                    let Some(j) = jobs.get(k) else { return };
                    if let Err(e) = j.way.run(&j.args, &file(k), j.secs) {
                        errs.lock().unwrap().push(e);
                    }
                });
            }
        });
        self.errors.extend(errs.into_inner().unwrap());
        let mut out = vec![Digests::new(); results];
        for (k, j) in jobs.iter().enumerate() {
            read(&file(k), &mut out[j.to]);
            let _ = std::fs::remove_file(file(k));
        }
        out
    }
}

fn args(seed: u64, from: u64, to: u64, family: &str) -> Vec<String> {
    vec![seed.to_string(), from.to_string(), to.to_string(), family.to_string()]
}

fn differs(a: &str, b: &str) -> String {
    let mut at = 0;
    for (x, y) in a.lines().zip(b.lines()) {
        at += 1;
        if x != y {
            // around the place where they part
            let p = x.char_indices().zip(y.chars()).find(|((_, a), b)| a != b).map(|((i, _), _)| i).unwrap_or(x.len().min(y.len()));
            let from = |s: &str| {
                let mut f = p.saturating_sub(60);
                while !s.is_char_boundary(f) {
                    f -= 1
                }
                trunc(&s[f..], 300)
            };
            return format!("line {at}:\n  {}\nand\n  {}", from(x), from(y));
        }
    }
    format!("after line {at} one of them stops:\n  {}\nand\n  {}", trunc(&a.lines().skip(at).collect::<Vec<_>>().join("\n"), 300), trunc(&b.lines().skip(at).collect::<Vec<_>>().join("\n"), 300))
}

/// Which cases of a section are wanted: all, one or none.
fn wanted(ctx: &Ctx, section: &str, n: u64) -> Option<(u64, u64)> {
    match &ctx.only {
        Some((s, i)) if s == section => Some((i / FAMILIES.len() as u64, i / FAMILIES.len() as u64 + 1)),
        Some(_) => None,
        None => Some((0, n)),
    }
}

/// One section: digests of `others` against those of the first.
fn compare(ctx: &mut Ctx, section: &'static str, n: u64, ways: &[(String, Way)], res: &[Digests]) {
    compare_in(ctx, section, FAMILIES, n, ways, res)
}
fn compare_in(ctx: &mut Ctx, section: &'static str, fams: &[&'static str], n: u64, ways: &[(String, Way)], res: &[Digests]) {
    let seed = ctx.seed;
    let nf = fams.len() as u64;
    ctx.section(section, n * nf, |c| {
        let (f, i) = (fams[(c.index % nf) as usize], c.index / nf);
        let get = |d: &Digests| d.get(f).and_then(|m| m.get(&i)).copied();
        let Some(want) = get(&res[0]) else {
            c.skipped = true;
            return Ok(());
        };
        c.desc = format!("{f} {i}");
        let mut answers = 0;
        for ((what, way), d) in ways.iter().zip(res).skip(1) {
            let Some(got) = get(d) else { continue };
            answers += 1;
            if got != want {
                let (a, b) = (ways[0].1.log(seed, i, f), way.log(seed, i, f));
                return Err(format!("{what} does something else than {} in case {f} {i}: {}\nthe case starts with: {}", ways[0].0, differs(&b, &a), trunc(&a, 1000)).into());
            }
        }
        if answers > 0 {
            c.nontrivial(&want.to_string());
            c.count("compared", answers);
            c.count(f, 1);
        } else {
            c.skipped = true;
        }
        Ok(())
    });
}

fn builds(ctx: &mut Ctx, ways: &[Way], broken: &[(Way, String)]) {
    ctx.section("build", ways.len() as u64, |c| {
        let w = &ways[c.index as usize];
        c.desc = format!("{} with features [{}]", w.name, w.features);
        c.nontrivial(w.name);
        match broken.iter().find(|b| b.0.name == w.name) {
            Some((_, e)) => Err(format!("the crate does not compile for {} with features [{}]: {e}", w.name, w.features).into()),
            None => Ok(()),
        }
    });
}

fn c25(ctx: &mut Ctx) {
    alloc::end();
    let mut runs = Runs::new("C25");
    let ok = runs.build(HOSTS);
    let n = ctx.n(8_000, 30);
    let mut res = vec![];
    let mut ways = vec![];
    if let Some((a, b)) = wanted(ctx, "features", n) {
        // (what the machine without features does, and the one with all of them, is for C26)
        let hosts: Vec<Way> = ok.iter().filter(|w| w.name != "wasm32").copied().collect();
        if hosts.first().is_some_and(|w| w.name == "host") {
            let mut jobs = vec![];
            for (to, w) in hosts.iter().enumerate() {
                for f in FAMILIES {
                    jobs.push(Job { way: *w, args: args(ctx.seed, a, b, f), secs: if ctx.thorough() { 1500 } else { 200 }, to });
                }
            }
            res = runs.run(&jobs, hosts.len());
            ways = hosts.iter().map(|w| (format!("the build {} with features [{}]", w.name, w.features), *w)).collect();
        }
    }
    builds(ctx, HOSTS, &runs.broken);
    if !ways.is_empty() {
        compare(ctx, "features", n, &ways, &res);
    }
    ctx.errors.extend(runs.errors);
    ctx.require("features.compared", 50_000);
    for f in FAMILIES {
        ctx.require(&format!("features.{f}"), 1000);
    }
}

fn c26(ctx: &mut Ctx) {
    alloc::end();
    let mut runs = Runs::new("C26");
    let ok = runs.build(&[FULL, WASM, S390X]);
    let has = |n: &str| ok.iter().any(|w| w.name == n);
    let n = ctx.n(12_000, 30);
    let m = ctx.n(30, 10);
    let claims = matches!(&ctx.only, None) || ctx.only.as_ref().is_some_and(|o| o.0 == "claims");
    let words = wanted(ctx, "words", n);
    let bytes = wanted(ctx, "bytes", m);
    let mut jobs = vec![];
    let secs = if ctx.thorough() { 1500 } else { 300 };
    // s390x takes longest to interpret, some families more than others: (share, parts)
    if let (Some((a, b)), true) = (bytes, has("s390x")) {
        for (f, share, parts) in [("decode", 2, 4), ("write", 7, 3), ("lookup", 7, 3), ("ss58", 3, 2), ("serde", 1, 4), ("parse", 1, 2), ("encode", 1, 2)] {
            let b = if ctx.only.is_some() { b } else { b.div_ceil(share) };
            let step = (b - a).div_ceil(parts).max(1);
            let mut x = a;
            while x < b {
                jobs.push(Job { way: S390X, args: args(ctx.seed ^ 0xb1e, x, (x + step).min(b), f), secs, to: 3 });
                x += step;
            }
            jobs.push(Job { way: FULL, args: args(ctx.seed ^ 0xb1e, a, b, f), secs, to: 2 });
        }
    }
    if let (Some((a, b)), true) = (words, has("wasm32")) {
        for f in FAMILIES {
            jobs.push(Job { way: WASM, args: args(ctx.seed, a, b, f), secs, to: 1 });
            jobs.push(Job { way: FULL, args: args(ctx.seed, a, b, f), secs, to: 0 });
        }
    }
    if claims && has("wasm32") {
        jobs.push(Job { way: WASM, args: args(0, 0, 2, "claim"), secs, to: 5 });
        jobs.push(Job { way: FULL, args: args(0, 0, 2, "claim"), secs, to: 4 });
    }
    let mut res = if has("host") { runs.run(&jobs, 6) } else { vec![Digests::new(); 6] };
    let claimed = res.split_off(4);
    let bytes = res.split_off(2);
    builds(ctx, &[FULL, WASM, S390X], &runs.broken);
    compare(ctx, "words", n, &[("the 64 bit host".into(), FULL), ("the 32 bit machine".into(), WASM)], &res);
    let seed = ctx.seed;
    ctx.seed = seed ^ 0xb1e;
    compare(ctx, "bytes", m, &[("the little endian host".into(), FULL), ("the big endian machine".into(), S390X)], &bytes);
    ctx.seed = seed;
    ctx.section("claims", 2, |c| {
        let get = |d: &Digests| d.get("claim").and_then(|m| m.get(&c.index)).copied();
        let (Some(a), Some(b)) = (get(&claimed[0]), get(&claimed[1])) else {
            c.skipped = true;
            return Ok(());
        };
        let (what, sig) = [("a sequence which claims 2^32 bytes", "sequence-lengths-cut-to-32-bits"), ("text which claims 2^32 - 1 bytes", "text-length-overflows-32-bits")][c.index as usize];
        c.desc = what.into();
        c.nontrivial(what);
        if a != b {
            let msg = format!("{what} is decoded to {} on a 32 bit machine, but to {} on a 64 bit one", WASM.log(0, c.index, "claim").trim(), FULL.log(0, c.index, "claim").trim());
            return Err(Fail { sig: Some(sig.into()), msg });
        }
        Ok(())
    });
    ctx.errors.extend(runs.errors);
    for f in FAMILIES {
        ctx.require(&format!("words.{f}"), 5000);
        ctx.require(&format!("bytes.{f}"), 10);
    }
}

/// Cheap to interpret, and something happens in it.
fn small(f: &str, log: &str) -> bool {
    let most = if f == "decode" || f == "write" || f == "encode" { 2500 } else { 1200 };
    log.len() < most && (f != "parse" || (log.contains("0x") && log.len() > 150))
}

fn c27(ctx: &mut Ctx) {
    alloc::end();
    let mut runs = Runs::new("C27");
    let ok = runs.build(&[FULL, TSAN, MIRI]);
    builds(ctx, &[FULL, TSAN, MIRI], &runs.broken);
    if ok.len() < 3 {
        ctx.errors.extend(runs.errors);
        return;
    }
    let secs = if ctx.thorough() { 1500 } else { 200 };
    let n = ctx.n(4_000, 30);
    // the modes in which everything runs again
    const MODES: &[&str] = &["backwards", "shuffled", "repeated", "threads"];
    let mut jobs = vec![];
    let (mut a, mut b) = (0, n);
    if let Some((s, _)) = &ctx.only {
        if s != "again" {
            (a, b) = (0, 0);
        }
    }
    if b > a {
        for f in FAMILIES {
            jobs.push(Job { way: FULL, args: args(ctx.seed, a, b, f), secs, to: 0 });
        }
        for (k, m) in MODES.iter().enumerate() {
            let mut x = args(ctx.seed, a, b, "all");
            x.push(format!("--{m}"));
            jobs.push(Job { way: FULL, args: x, secs, to: k + 1 });
        }
        // few at a time, in processes which did nothing before
        let fresh = if ctx.thorough() { 2000 } else { 150 };
        for k in 0..fresh {
            let i = crate::rng::mix(ctx.seed ^ crate::rng::mix(k)) % b;
            jobs.push(Job { way: FULL, args: args(ctx.seed, i, i + 1, FAMILIES[(k % FAMILIES.len() as u64) as usize]), secs, to: MODES.len() + 1 });
        }
    }
    if b > a {
        // processes in which several threads begin with the same thing
        let together = if ctx.thorough() { 20_000 } else { 2500 };
        for k in 0..together {
            let i = crate::rng::mix(ctx.seed ^ crate::rng::mix(k ^ 0x7067)) % b;
            let f = ["parse", "parse", "parse", "ss58", "encode", "decode", "serde", "write"][(k % 8) as usize];
            let mut x = args(ctx.seed, i, i + 1, f);
            x.push("--together".into());
            jobs.push(Job { way: FULL, args: x, secs, to: MODES.len() + 2 });
        }
        // processes which did a lot before
        for (f, n) in [("write", 60_000), ("lookup", 150_000), ("decode", 300_000), ("serde", 200_000), ("ss58", 500_000), ("encode", 500_000), ("parse", 900_000)] {
            let n = ctx.n(n, 8) / 4;
            let mut x = args(ctx.seed, 0, n, f);
            x.push("--soak".into());
            jobs.push(Job { way: FULL, args: x, secs: 2 * secs, to: MODES.len() + 3 });
        }
    }
    // (those which take longest first)
    jobs.reverse();
    let res = runs.run(&jobs, MODES.len() + 4);
    let ways: Vec<(String, Way)> = ["a run in order"].iter().map(|m| m.to_string()).chain(MODES.iter().map(|m| format!("the run {m}"))).chain(["a process of its own", "a process in which several threads begin with it", "a process that did a lot before"].map(|m| m.to_string())).map(|m| (m, FULL)).collect();
    compare(ctx, "again", n, &ways, &res);
    // what is nested deep or long, by all threads at the same time
    let big = ctx.n(20, 20);
    let only = match &ctx.only {
        Some((s, i)) if s == "big" => Some((*i, *i + 1)),
        Some(_) => None,
        None => Some((0, big)),
    };
    if let Some((a, b)) = only {
        let jobs: Vec<Job> = ["together", "threads", "shuffled", ""]
            .iter()
            .enumerate()
            .flat_map(|(k, m)| {
                let parts: Vec<(u64, u64)> = if *m == "threads" { vec![(a, b)] } else { (a..b).map(|i| (i, i + 1)).collect() };
                parts.into_iter().map(move |(a, b)| {
                    let mut x = args(0, a, b, "big");
                    if !m.is_empty() {
                        x.push(format!("--{m}"));
                    }
                    Job { way: FULL, args: x, secs, to: 3 - k }
                })
            })
            .map(|mut j| {
                j.args[0] = ctx.seed.to_string();
                j
            })
            .collect();
        let res = runs.run(&jobs, 4);
        let ways: Vec<(String, Way)> = ["a process of its own", "another process of its own", "several threads at once", "the same thing in several threads at once"].map(|m| (m.to_string(), FULL)).to_vec();
        ctx.counters.insert("big.processes".into(), jobs.len() as u64);
        compare_in(ctx, "big", &["big"], big, &ways, &res);
    }
    // under ThreadSanitizer, all threads doing the same things at the same time
    let rounds = ctx.n(1, 10);
    let mut errs = vec![];
    ctx.section("races", rounds, |c| {
        let seed = c.r.u64() >> 1;
        let mut x = args(seed, 0, 300, "all");
        x.push("--threads".into());
        c.desc = format!("{x:?}");
        let log = runs.dir.join("races");
        let run = std::fs::File::create(&log).map_err(|e| e.to_string()).and_then(|f| {
            TSAN.command(&x).env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66").stdout(Stdio::null()).stderr(f).status().map_err(|e| e.to_string())
        });
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        if let Some(at) = text.find("WARNING: ThreadSanitizer: data race") {
            return Err(format!("{}", trunc(&text[at..], 4000)).into());
        }
        match run {
            Ok(s) if s.success() => {
                c.nontrivial(&c.desc.clone());
                c.count("inputs", 300 * FAMILIES.len() as u64);
            }
            Ok(s) => errs.push(format!("the run under ThreadSanitizer ended with {s}: {}", trunc(&text, 500))),
            Err(e) => errs.push(e),
        }
        Ok(())
    });
    // under Miri, which schedules threads at random, in processes which did nothing before
    const FIRST: &[&str] = &["parse", "ss58", "parse", "serde", "encode", "parse", "decode", "write"];
    let rounds = if ctx.thorough() { 80 } else { 8 };
    let seeds: u64 = if ctx.thorough() { 32 } else { 16 };
    ctx.section("schedules", rounds, |c| {
        let f = FIRST[c.index as usize % FIRST.len()];
        let (seed, from) = (c.r.u64() >> 1, c.r.below(1 << 20) as u64);
        // (a small one; logs are as long as what happens in them)
        let i = (from..from + 40).find(|i| small(f, &FULL.log(seed, *i, f)));
        let Some(i) = i else {
            c.skipped = true;
            return Ok(());
        };
        let mut x = args(seed, i, i + 1, f);
        x.push("--together".into());
        c.desc = format!("{x:?}");
        let flags = format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05 -Zmiri-many-seeds={}..{}", seed % 1000, seed % 1000 + seeds);
        let log = runs.dir.join("schedules");
        let run = std::fs::File::create(&log).map_err(|e| e.to_string()).and_then(|f| MIRI.command(&x).env("MIRIFLAGS", flags).stdout(Stdio::null()).stderr(f).status().map_err(|e| e.to_string()));
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        if let Some(at) = text.find("sv-differs").or(text.find("Undefined Behavior")).or(text.find("deadlock")) {
            return Err(format!("with several threads that begin with the same thing: {}; the case: {}", trunc(&text[at..], 1500), trunc(&FULL.log(seed, i, f), 600)).into());
        }
        match run {
            Ok(s) if s.success() => {
                c.nontrivial(&c.desc.clone());
                c.count("schedules", seeds);
                c.count(f, 1);
            }
            Ok(s) => errs.push(format!("the run under Miri ended with {s}: {}", trunc(&text[text.find("error").unwrap_or(0)..], 500))),
            Err(e) => errs.push(e),
        }
        Ok(())
    });
    ctx.errors.extend(errs);
    ctx.require("races.inputs", 1000);
    ctx.require("schedules.schedules", 40);
    ctx.errors.extend(runs.errors);
    ctx.require("again.compared", 50_000);
}
