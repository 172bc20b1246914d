mod alloc;
mod dict;
mod dictdata;
mod dictscan;
/// (what the parts shared with the `portable` crate need there)
mod prelude {
    pub use std::collections::BTreeMap;
}
#[macro_use]
mod runner;
mod checks;
mod model;
mod portable_reg;
mod refparser;
mod refwriter;
mod bytesgen;
mod coerce;
mod ss58ref;
mod textgen;
mod rng;
mod vgen;

use runner::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    /// what makes a case, and what makes it non-trivial
    pub rule: &'static str,
    /// an exceeded memory bound refutes the property (otherwise: inconclusive)
    pub mem: bool,
    /// a case that does not end refutes the property (otherwise: inconclusive)
    pub term: bool,
}

pub fn root() -> std::path::PathBuf {
    std::env::var("SV_ROOT")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn known_findings() -> Vec<(String, String)> {
    // lines: KNOWN property=<id> sig=<signature> <text>; "fixed: ..." lines suppress nothing
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let mut it = l.splitn(3, ' ');
            let id = it.next()?.to_string();
            let sig = it.next()?.strip_prefix("sig=")?.to_string();
            Some((id, sig))
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "--probe" {
        std::process::exit(checks::run_probe(&args[2]));
    }
    if id == "--cost" {
        std::process::exit(checks::cost::measure(&args[2..]));
    }
    let table = checks::table();
    let Some(check) = table.iter().find(|c| c.id == id) else {
        eprintln!(
            "usage: sv-check ID [--only section:index]; ids: {}",
            table.iter().map(|c| c.id).collect::<Vec<_>>().join(" ")
        );
        std::process::exit(2);
    };
    let only = args.iter().position(|a| a == "--only").map(|p| {
        let s = &args[p + 1];
        let (a, b) = s.rsplit_once(':').expect("section:index");
        (a.to_string(), b.trim().parse().expect("index"))
    });
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let work = root().join("work").join(&id);
    std::fs::create_dir_all(&work).unwrap();
    let code = if args.iter().any(|a| a == "--worker") {
        let shard = args.iter().position(|a| a == "--shard").map(|p| (args[p + 1].parse().unwrap(), args[p + 2].parse().unwrap()));
        match shard {
            Some(s) => worker(check, tier, seed, only, &shard_dir(&work, s.0), s),
            None => worker(check, tier, seed, only, &work, (0, 1)),
        }
    } else {
        supervise(check, tier, seed, only, &work, &args)
    };
    std::process::exit(code);
}

fn shard_dir(work: &std::path::Path, k: u64) -> std::path::PathBuf {
    work.join(format!("shard{k}"))
}

/// These start processes and threads of their own.
const UNSHARDED: &[&str] = &["C23", "C24", "C25", "C26", "C27"];

fn worker(
    check: &Check,
    tier: Tier,
    seed: u64,
    only: Option<(String, u64)>,
    work: &std::path::Path,
    shard: (u64, u64),
) -> i32 {
    std::fs::create_dir_all(work).unwrap();
    alloc::init(std::fs::File::create(work.join("marker")).unwrap());
    install_panic_hook();
    let cur = std::fs::File::create(work.join("current")).ok();
    // a case that burns this much CPU time without finishing does not terminate for practical purposes
    const HANG_CPU_S: u64 = 90;
    let san = San::from_env();
    let watch = || {
        let mut last = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Relaxed);
            let c = cpu_ticks();
            if p != last.0 {
                last = (p, c);
            } else if c - last.1 > HANG_CPU_S * 100 {
                alloc::mark(&format!("HANG cpu={}s\n", HANG_CPU_S));
                std::process::abort();
            }
        }
    };
    if !cfg!(miri) {
        std::thread::spawn(watch);
    }
    let mut ctx = Ctx {
        id: check.id,
        tier,
        seed,
        only,
        evals: 0,
        distinct: Default::default(),
        counters: BTreeMap::new(),
        samples: vec![],
        violations: vec![],
        known: known_findings(),
        known_hit: BTreeMap::new(),
        errors: vec![],
        start: Instant::now(),
        cur,
        scale: std::env::var("SV_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 4.0 } else { 1.0 }),
        san,
        shard,
        sections: BTreeMap::new(),
        requires: vec![],
    };
    let run = check.run;
    let ctx = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            run(&mut ctx);
            ctx
        })
        .unwrap()
        .join();
    let Ok(ctx) = ctx else {
        eprintln!("check {} failed internally", check.id);
        return 2;
    };
    let hashes: Vec<u8> = ctx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(work.join("distinct"), hashes).unwrap();
    let out = serde_json::json!({
        "sections": ctx.sections, "requires": if ctx.san == San::No { ctx.requires } else { vec![] },
        "evals": ctx.evals, "distinct": ctx.distinct.len(), "counters": ctx.counters, "samples": ctx.samples,
        "violations": ctx.violations, "known": ctx.known_hit, "errors": ctx.errors, "wall": ctx.start.elapsed().as_secs_f64(),
    });
    std::fs::write(work.join("result.json"), out.to_string()).unwrap();
    0
}

fn write_evidence(check: &Check, tier: Tier, seed: u64, res: &serde_json::Value, wall: f64) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = res["samples"].clone();
    if samples.as_array().map(|a| a.is_empty()).unwrap_or(true) {
        samples = serde_json::json!(["(none recorded)"]);
    }
    let ev = serde_json::json!({
        "property": check.id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
        "coverage": { "evaluations": res["evals"], "distinct_nontrivial": res["distinct"], "rule": check.rule, "samples": samples,
            "observed": res["counters"], "known_findings_observed": res["known"], "inconclusive": res["errors"] },
        "wall_s": wall,
    });
    let _ = std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
}

fn violation(check: &Check, seed: u64, tier: Tier, n: usize, section: &str, index: u64, msg: &str) {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", check.id, n));
    let t = if tier == Tier::Quick {
        "quick"
    } else {
        "thorough"
    };
    let text = format!("property {}\nreplay: cd /verif && VERIF_SEED={seed} VERIF_TIER={t} ./check.sh {} --only {section}:{index}\n\n{msg}\n", check.id, check.id);
    let _ = std::fs::write(&path, text);
    println!("VIOLATION property={} replay={}", check.id, path.display());
    println!("  {}", trunc(&msg.replace('\n', "\n  "), 1500));
}

fn supervise(
    check: &Check,
    tier: Tier,
    seed: u64,
    only: Option<(String, u64)>,
    work: &std::path::Path,
    args: &[String],
) -> i32 {
    let t0 = Instant::now();
    let shards = if only.is_some() || UNSHARDED.contains(&check.id) {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8)
    };
    let dirs: Vec<_> = (0..shards).map(|k| shard_dir(work, k)).collect();
    let mut children: Vec<std::process::Child> = vec![];
    for (k, dir) in dirs.iter().enumerate() {
        let _ = std::fs::create_dir_all(dir);
        for f in ["marker", "current", "result.json", "distinct"] {
            let _ = std::fs::remove_file(dir.join(f));
        }
        children.push(
            std::process::Command::new(std::env::current_exe().unwrap())
                .args(&args[1..])
                .args(["--worker", "--shard", &k.to_string(), &shards.to_string()])
                .spawn()
                .expect("worker"),
        );
    }
    let limit = if tier == Tier::Quick { 700 } else { 3 * 3600 };
    let mut statuses: Vec<Option<std::process::ExitStatus>> = vec![None; children.len()];
    loop {
        for (c, s) in children.iter_mut().zip(&mut statuses) {
            if s.is_none() {
                *s = c.try_wait().unwrap();
            }
        }
        // one that died (rather than finding something) is answer enough
        let died = statuses.iter().flatten().any(|s| !s.success());
        let done = statuses.iter().all(|s| s.is_some());
        if done {
            break;
        }
        if died || t0.elapsed().as_secs() > limit {
            for (c, s) in children.iter_mut().zip(&mut statuses) {
                if s.is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            if !died {
                println!("INCONCLUSIVE property={}: the workload did not finish in {limit} s", check.id);
                return 2;
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let wall = t0.elapsed().as_secs_f64();
    for (status, dir) in statuses.iter().zip(&dirs) {
        if let Some(s) = status.filter(|s| !s.success()) {
            return died(check, tier, seed, dir, s, wall);
        }
    }
    let mut all = Merged::default();
    for dir in &dirs {
        let res: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(dir.join("result.json")).unwrap_or_default()).unwrap_or_default();
        if res.is_null() {
            println!("INCONCLUSIVE property={}: no result", check.id);
            return 2;
        }
        all.add(&res, &std::fs::read(dir.join("distinct")).unwrap_or_default());
        let _ = std::fs::remove_file(dir.join("distinct"));
    }
    let res = all.finish(only.is_some());
    write_evidence(check, tier, seed, &res, wall);
    if let Some(k) = res["known"].as_object() {
        for (s, n) in k {
            println!(
                "KNOWN-FINDING: property={} {s} ({n} observations)",
                check.id
            );
        }
    }
    let vs = res["violations"].as_array().cloned().unwrap_or_default();
    for (n, v) in vs.iter().enumerate() {
        violation(
            check,
            seed,
            tier,
            n,
            v[0].as_str().unwrap_or(""),
            v[1].as_u64().unwrap_or(0),
            v[2].as_str().unwrap_or(""),
        );
    }
    if !vs.is_empty() {
        return 1;
    }
    let errs = res["errors"].as_array().cloned().unwrap_or_default();
    if !errs.is_empty() {
        println!("INCONCLUSIVE property={}: {errs:?}", check.id);
        return 2;
    }
    println!(
        "HELD property={} evaluations={} distinct_nontrivial={} wall={wall:.1}s{}",
        check.id,
        res["evals"],
        res["distinct"],
        if only.is_some() { " (one case)" } else { "" }
    );
    0
}

/// A worker did not come to its end.
fn died(check: &Check, tier: Tier, seed: u64, work: &std::path::Path, status: std::process::ExitStatus, wall: f64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let cur = std::fs::read_to_string(work.join("current")).unwrap_or_default();
    let marker = std::fs::read_to_string(work.join("marker")).unwrap_or_default();
    let (section, index) = cur
        .lines()
        .next()
        .and_then(|l| l.rsplit_once(':'))
        .map(|(a, b)| (a.to_string(), b.trim().parse().unwrap_or(0)))
        .unwrap_or(("?".into(), 0));
    let (is_violation, what) = if marker.starts_with("ALLOC") {
        (check.mem, format!("memory bound exceeded: {}", marker.trim()))
    } else if marker.starts_with("HANG") {
        (check.term, format!("no end in sight: {}", marker.trim()))
    } else {
        match status.signal() {
            // SIGABRT: abort, allocation failure, stack overflow. SIGSEGV/SIGBUS/SIGILL/SIGFPE/SIGTRAP
            Some(s @ (6 | 11 | 7 | 4 | 8 | 5)) => (true, format!("the process died of signal {s} in this case")),
            s => (false, format!("worker ended with {status:?} (signal {s:?})")),
        }
    };
    let res = serde_json::json!({"evals": 0, "distinct": 0, "samples": [format!("died at {section}:{index}")], "counters": {}, "known": {}, "errors": [what.clone()]});
    write_evidence(check, tier, seed, &res, wall);
    if is_violation && section != "?" {
        violation(check, seed, tier, 0, &section, index, &what);
        return 1;
    }
    println!("INCONCLUSIVE property={}: {what} at {section}:{index}", check.id);
    2
}

/// What all workers observed together.
#[derive(Default)]
struct Merged {
    evals: u64,
    distinct: Vec<u64>,
    counters: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    sections: BTreeMap<String, u64>,
    requires: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    violations: Vec<serde_json::Value>,
    errors: Vec<serde_json::Value>,
}

impl Merged {
    fn add(&mut self, res: &serde_json::Value, hashes: &[u8]) {
        self.evals += res["evals"].as_u64().unwrap_or(0);
        self.distinct.extend(hashes.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
        for (k, into) in [("counters", &mut self.counters), ("known", &mut self.known), ("sections", &mut self.sections)] {
            for (name, n) in res[k].as_object().into_iter().flatten() {
                *into.entry(name.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
        }
        for r in res["requires"].as_array().into_iter().flatten() {
            self.requires.insert(r[0].as_str().unwrap_or("").into(), r[1].as_u64().unwrap_or(0));
        }
        for (k, into) in [("samples", &mut self.samples), ("violations", &mut self.violations), ("errors", &mut self.errors)] {
            into.extend(res[k].as_array().into_iter().flatten().cloned());
        }
    }

    fn finish(mut self, one_case: bool) -> serde_json::Value {
        self.distinct.sort_unstable();
        self.distinct.dedup();
        // spread over the sections rather than the first worker's
        let n = self.samples.len();
        if n > 14 {
            self.samples = (0..14).map(|k| self.samples[k * n / 14].clone()).collect();
        }
        self.violations.truncate(4);
        if self.violations.is_empty() && !one_case {
            for (s, n) in &self.sections {
                if *n == 0 {
                    self.errors.push(format!("section {s} observed nothing").into());
                }
            }
            for (k, min) in &self.requires {
                let got = self.counters.get(k).copied().unwrap_or(0);
                if got < *min {
                    self.errors.push(format!("too little observed: {k} = {got} < {min}").into());
                }
            }
        }
        serde_json::json!({
            "evals": self.evals, "distinct": self.distinct.len(), "counters": self.counters, "samples": self.samples,
            "violations": self.violations, "known": self.known, "errors": self.errors,
        })
    }
}
