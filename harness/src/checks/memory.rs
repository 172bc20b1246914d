//! C24: memory errors and undefined behaviour. The workloads of all the other checks run again, in a
//! build with AddressSanitizer and (a sample of them) under Miri, which are the judges here; slices
//! of text which the library hands back are judged directly.
use crate::alloc;
use crate::rng::Rng;
use crate::runner::*;
use crate::{root, Check};
use scale_value::stringify::{self, custom_parsers};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn table() -> Vec<Check> {
    vec![Check {
        id: "C24",
        run: c24,
        rule: "a case is a text parsed with what is left of it judged, or the workload of another check under AddressSanitizer or Miri (asan.cases and miri.cases count the cases inside); non-trivial when text is left over or the workload ran cases",
        mem: false,
        term: false,
    }]
}

fn memory(msg: String) -> Fail {
    Fail { sig: Some("memory".into()), msg }
}

/// What is left must be text, and the end of what was given.
fn left_over(what: &str, text: &str, rest: &str) -> Res {
    // look at the bytes only: if they aren't text, anything else is undefined
    let bytes = rest.as_bytes();
    let (a, b) = (text.as_bytes().as_ptr_range(), bytes.as_ptr_range());
    if !(a.start <= b.start && b.end == a.end) && !bytes.is_empty() {
        return Err(memory(format!("{what} leaves text which is not the end of its input {text:?}")));
    }
    if std::str::from_utf8(bytes).is_err() || !text.is_char_boundary(text.len() - bytes.len()) {
        return Err(memory(format!("{what} leaves {bytes:?} of {text:?}, which is not text")));
    }
    Ok(())
}

fn strings_ok<T>(v: &scale_value::Value<T>) -> bool {
    use scale_value::{Composite, Primitive, ValueDef};
    let s = |s: &str| std::str::from_utf8(s.as_bytes()).is_ok();
    let c = |c: &Composite<T>| match c {
        Composite::Named(v) => v.iter().all(|(n, v)| s(n) && strings_ok(v)),
        Composite::Unnamed(v) => v.iter().all(strings_ok),
    };
    match &v.value {
        ValueDef::Primitive(Primitive::String(x)) => s(x),
        ValueDef::Composite(x) => c(x),
        ValueDef::Variant(x) => s(&x.name) && c(&x.values),
        _ => true,
    }
}

/// Parse a text in every way; gives how many ways left something.
fn parse_all(text: &str) -> Result<u64, Fail> {
    type Parse = fn(&mut &str) -> Option<Result<scale_value::Value<()>, stringify::ParseError>>;
    let ways: [(&str, Parse); 5] = [
        ("from_str", |s| {
            let (r, rest) = stringify::from_str(s);
            *s = rest;
            Some(r)
        }),
        ("from_str_custom", |s| {
            let (r, rest) =
                stringify::from_str_custom().add_custom_parser(custom_parsers::parse_hex).add_custom_parser(custom_parsers::parse_ss58).parse(s);
            *s = rest;
            Some(r)
        }),
        ("parse_hex", custom_parsers::parse_hex),
        ("parse_ss58", custom_parsers::parse_ss58),
        ("a user's parser", |s| {
            let (r, rest) = stringify::from_str_custom()
                .add_custom_parser(|s: &mut &str| {
                    let at = s.char_indices().nth(1).map(|(i, _)| i).unwrap_or(s.len());
                    if s.starts_with(|c: char| c.is_alphanumeric()) {
                        return None;
                    }
                    *s = &s[at..];
                    custom_parsers::parse_hex(s)
                })
                .parse(s);
            *s = rest;
            Some(r)
        }),
    ];
    let mut n = 0;
    for (what, f) in ways {
        let mut rest = text;
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rest))) {
            Ok(r) => r,
            // other checks judge panics, but what is left must be text all the same
            Err(_) => None,
        };
        left_over(what, text, rest)?;
        n += (!rest.is_empty() && rest.len() < text.len()) as u64;
        match r {
            Some(Ok(v)) if !strings_ok(&v) => return Err(memory(format!("{what} makes strings of {text:?} which are not text"))),
            // an error's message is text too
            Some(Err(e)) if std::str::from_utf8(e.to_string().as_bytes()).is_err() => return Err(memory(format!("{what}: message of the error in {text:?}"))),
            _ => {}
        }
    }
    Ok(n)
}

const PIECES: &[&str] = &[
    "0x", "0", "1", "a", "F", "g", "é", "日", "🎉", "\u{80}", "\u{7ff}", "\u{ffff}", "ª", "²", "٣", "ａ", "\u{301}", "\u{200d}", " ", "(", ")", ",", "\"", "'",
    "\\", "<", ">", "{", "}", ":", "v\"", "_", "-", "+", "\n", "\0", "5", "G", "rwvFPo54E", "\u{a0}", "\u{2028}", "True", "true", "é1",
];

fn boundaries(c: &mut Case) -> Res {
    let r: &mut Rng = &mut c.r;
    let mut text = String::new();
    if r.bool() {
        text += r.pick(&["0x", "(0x", "{a: 0x", "0x1", "0xab", "v1 (", "\"", "<01"]);
    }
    for _ in 0..r.below(14) {
        if r.chance(1, 6) {
            text.push(crate::vgen::gen_char(r));
        } else {
            text += r.pick(PIECES);
        }
    }
    c.desc = format!("{text:?}");
    let n = parse_all(&text)?;
    if n > 0 {
        c.nontrivial(&text);
    }
    c.count("left_over", n);
    c.count("texts", 1);
    Ok(())
}

/// Every text of up to three pieces, after a hex prefix and alone.
fn short(c: &mut Case) -> Res {
    let k = PIECES.len() as u64;
    let mut i = c.index;
    let mut text = String::from(if i % 2 == 0 { "0x" } else { "" });
    i /= 2;
    while i > 0 {
        text += PIECES[((i - 1) % k) as usize];
        i = (i - 1) / k;
    }
    c.desc = format!("{text:?}");
    let n = parse_all(&text)?;
    if n > 0 {
        c.nontrivial(&text);
    }
    c.count("left_over", n);
    Ok(())
}

#[derive(Default, Clone)]
struct Done {
    violation: Option<String>,
    /// no memory error, but it ended before its time
    early: Option<String>,
    error: Option<String>,
    cases: u64,
    distinct: u64,
    not_judged: u64,
}

fn target() -> PathBuf {
    std::env::var("CARGO_TARGET_DIR").map(Into::into).unwrap_or_else(|_| root().join("target"))
}

fn cargo(miri: bool) -> Command {
    let mut c = Command::new("cargo");
    c.current_dir(env!("CARGO_MANIFEST_DIR")).env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS").env_remove("MIRIFLAGS").stdin(Stdio::null()).arg("+nightly");
    if miri {
        c.env("CARGO_TARGET_DIR", target().join("miri")).env("MIRIFLAGS", "-Zmiri-disable-isolation").args(["miri", "run", "--offline", "--"]);
    } else {
        c.env("CARGO_TARGET_DIR", target().join("asan")).env("RUSTFLAGS", "-Zsanitizer=address").args([
            "build",
            "--profile",
            "san",
            "--offline",
            "--target",
            "x86_64-unknown-linux-gnu",
        ]);
    }
    c
}

const REPORTS: &[&str] = &["ERROR: AddressSanitizer", "Undefined Behavior", "unsafe precondition(s) violated", "error: memory leaked", "runtime error:"];

/// One workload in a process of its own.
fn job(ctx_seed: u64, id: &str, miri: bool, thorough: bool) -> Done {
    let mut d = Done::default();
    let dir = root().join("work/C24").join(if miri { "miri" } else { "asan" }).join(id);
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        d.error = Some(e.to_string());
        return d;
    }
    let mut c = if miri {
        let mut c = cargo(true);
        c.env("SV_MIRI_CASES", match (id, thorough) {
            ("C24", false) => "300",
            ("C24", true) => "20000",
            (_, false) => "4",
            (_, true) => "40",
        }).env("SV_MIRI_SECS", match (id, thorough) {
            ("C24", false) => "25",
            (_, false) => "10",
            ("C24", true) => "400",
            (_, true) => "60",
        });
        c
    } else {
        let mut c = Command::new(target().join("asan/x86_64-unknown-linux-gnu/san/sv-check"));
        c.env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:symbolize=1");
        c
    };
    let log = dir.join("output");
    let Ok(out) = std::fs::File::create(&log) else {
        d.error = Some("cannot write".into());
        return d;
    };
    c.args([id, "--worker"])
        .env("SV_SAN", if miri { "miri" } else { "asan" })
        .env("SV_ROOT", &dir)
        .env("SV_SCALE", if thorough { "0.6" } else { "0.12" })
        .env("VERIF_SEED", ctx_seed.to_string())
        .env("VERIF_TIER", "quick")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(out);
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            d.error = Some(e.to_string());
            return d;
        }
    };
    let limit = Duration::from_secs(match (miri, thorough) {
        (true, false) => 100,
        (true, true) => 1500,
        (false, false) => 150,
        (false, true) => 900,
    });
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() < limit => std::thread::sleep(Duration::from_millis(50)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        }
    };
    let output = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).to_string();
    let work = dir.join("work").join(id);
    let at = std::fs::read_to_string(work.join("current")).unwrap_or_default().trim().to_string();
    let report = output.lines().position(|l| REPORTS.iter().any(|r| l.contains(r)));
    if let Some(line) = report {
        let text: Vec<&str> = output.lines().skip(line).take(40).collect();
        let text = text.join("\n");
        // running out of stack or address space ends the process in an orderly way
        if text.lines().next().is_some_and(|l| l.contains("stack-overflow") || l.contains("out-of-memory") || l.contains("allocation-size-too-big")) {
            d.early = Some(format!("{at}: {}", text.lines().next().unwrap_or("")));
        } else {
            d.violation = Some(format!("workload {id}, case {at} (seed {ctx_seed}): {text}"));
        }
        return d;
    }
    let Some(status) = status else {
        // what was run until then has been watched all the same
        d.early = Some(format!("time is up at {at}"));
        return d;
    };
    let res: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(work.join("result.json")).unwrap_or_default()).unwrap_or_default();
    if !status.success() || res.is_null() {
        use std::os::unix::process::ExitStatusExt;
        let marker = std::fs::read_to_string(work.join("marker")).unwrap_or_default();
        if matches!(status.signal(), Some(11 | 7)) && !output.contains("stack overflow") {
            d.violation = Some(format!("workload {id}, case {at} (seed {ctx_seed}): the process died of {status}"));
        } else if !marker.is_empty() || status.signal().is_some() {
            d.early = Some(format!("{at}: {status} {}", marker.trim()));
        } else {
            d.error = Some(format!("{id} at {at}: {status}: {}", trunc(output.trim(), 600)));
        }
        return d;
    }
    d.cases = res["evals"].as_u64().unwrap_or(0);
    d.distinct = res["distinct"].as_u64().unwrap_or(0);
    for (k, v) in res["counters"].as_object().into_iter().flatten() {
        if k.ends_with(".not_judged_here") {
            d.not_judged += v.as_u64().unwrap_or(0);
        }
    }
    for v in res["violations"].as_array().into_iter().flatten() {
        d.violation = Some(format!("workload {id}, case {}:{} (seed {ctx_seed}): {}", v[0].as_str().unwrap_or(""), v[1], v[2].as_str().unwrap_or("")));
    }
    if let Some(e) = res["errors"].as_array().and_then(|a| a.first()) {
        d.error = Some(format!("{id}: {e}"));
    }
    d
}

fn jobs(ctx: &mut Ctx, section: &'static str, ids: &[&'static str], miri: bool) {
    let todo: Vec<usize> = match &ctx.only {
        Some((s, i)) if s == section => vec![*i as usize],
        Some(_) => return,
        None => (0..ids.len()).collect(),
    };
    // build first, once
    let dir = root().join("work/C24");
    let _ = std::fs::create_dir_all(&dir);
    let log = dir.join(format!("build-{section}"));
    let Ok(out) = std::fs::File::create(&log) else {
        ctx.errors.push("cannot write".into());
        return;
    };
    let mut b = cargo(miri);
    if miri {
        b.arg("--nothing");
    }
    let built = b.stdout(Stdio::null()).stderr(out).status();
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let ok = match built {
        Ok(s) if miri => text.contains("usage: sv-check") || s.success(),
        Ok(s) => s.success(),
        Err(_) => false,
    };
    if !ok {
        ctx.errors.push(format!("the {section} build fails: {}", trunc(&text[text.len().saturating_sub(1500)..], 1500)));
        return;
    }
    let (next, seed, thorough) = (AtomicUsize::new(0), ctx.seed, ctx.thorough());
    let done = Mutex::new(vec![Done::default(); ids.len()]);
    std::thread::scope(|s| {
        for _ in 0..8.min(todo.len()) {
            s.spawn(|| loop {
                let Some(&k) = todo.get(next.fetch_add(1, Relaxed)) else { return };
                let d = job(seed, ids[k], miri, thorough);
                done.lock().unwrap()[k] = d;
            });
        }
    });
    let done = done.into_inner().unwrap();
    for d in &done {
        ctx.errors.extend(d.error.clone());
    }
    ctx.section(section, ids.len() as u64, |c| {
        let d = &done[c.index as usize];
        c.desc = format!("the workload of {} ({} cases) {}", ids[c.index as usize], d.cases, d.early.as_deref().unwrap_or(""));
        if d.cases > 0 || d.early.is_some() {
            c.nontrivial(ids[c.index as usize]);
        }
        c.count("inner_cases", d.cases);
        c.count("inner_distinct", d.distinct);
        c.count("inner_not_judged_here", d.not_judged);
        c.count("ended_early", d.early.is_some() as u64);
        match &d.violation {
            Some(v) => Err(Fail::from(v.clone())),
            None => Ok(()),
        }
    });
}

fn c24(ctx: &mut Ctx) {
    alloc::end();
    let n = ctx.n(200_000, 10);
    ctx.section("boundaries", n, boundaries);
    let k = PIECES.len() as u64;
    let all = 2 * (1 + k + k * k + if ctx.thorough() { k * k * k } else { 0 });
    ctx.section("short", all, short);
    if ctx.san != San::No {
        return;
    }
    const IDS: &[&str] = &[
        "C24", "C07", "C11", "C18", "C22", "C21", "C20", "C17", "C16", "C02", "C01", "C03", "C10", "C08", "C12", "C09", "C15", "C14", "C13", "C04", "C05", "C06",
        "C19",
    ];
    jobs(ctx, "asan", IDS, false);
    jobs(ctx, "miri", IDS, true);
    ctx.require("boundaries.left_over", 20_000);
    ctx.require("asan.inner_cases", 20_000);
    ctx.require("miri.inner_cases", 100);
}
