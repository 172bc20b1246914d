//! C16 text follows style, context printer and formatters; C17 failures of the writer are reported.
use crate::refwriter::{hex_of, RefWriter, Style};
use crate::rng::Rng;
use crate::runner::*;
use crate::vgen::*;
use crate::Check;
use scale_value::stringify::{self, custom_formatters::format_hex, to_writer_custom, ToWriterBuilder};
use scale_value::{Composite, Primitive, Value, ValueDef};
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C16",
            run: c16,
            rule: "a case is (value, settings); the text written, and each call of the context printer and of every formatter, are compared with the reference writer's. Non-trivial: more than one node or some setting not the default; distinct by settings + text",
            mem: false,
            term: true,
        },
        Check {
            id: "C17",
            run: c17,
            rule: "a case is (value, settings, every place where a failure can be injected: each write, byte limit, context print, formatter); the result, what was written and that nothing is attempted afterwards are checked for each. Non-trivial: at least one failure was injected; distinct by settings + text",
            mem: false,
            term: true,
        },
    ]
}

// ---------------------------------------------------------------- settings

#[derive(Clone, Debug, PartialEq)]
enum Custom {
    Never,
    Hex,
    EvenNumbers,
    Variants(String),
    NoFields,
    Everything,
    SilentBools,
    Contexts(u32),
}
impl Custom {
    /// What this formatter writes for a value, if it accepts it.
    fn apply(&self, v: &Value<u32>) -> Option<String> {
        match self {
            Custom::Never => None,
            Custom::Hex => hex_of(v),
            Custom::EvenNumbers => match &v.value {
                ValueDef::Primitive(Primitive::U128(n)) if n % 2 == 0 => Some(format!("even:{n}")),
                ValueDef::Primitive(Primitive::I128(n)) if n % 2 == 0 => Some(format!("even:{n}")),
                _ => None,
            },
            Custom::Variants(s) => match &v.value {
                ValueDef::Variant(x) if x.name.starts_with(s.as_str()) => Some(format!("«{}/{}»", x.name, x.values.len())),
                _ => None,
            },
            Custom::NoFields => match &v.value {
                ValueDef::Composite(c) if c.is_empty() => Some("∅".into()),
                ValueDef::Variant(x) if x.values.is_empty() => Some("∅v".into()),
                _ => None,
            },
            Custom::Everything => Some(format!("#{}", v.context)),
            Custom::SilentBools => match &v.value {
                ValueDef::Primitive(Primitive::Bool(_)) => Some(String::new()),
                _ => None,
            },
            Custom::Contexts(m) => (v.context % m == 0).then(|| format!("\n@{}\n", v.context)),
        }
    }
}

#[derive(Clone, Debug)]
enum Set {
    Compact,
    Pretty,
    Indent(String),
    Leading(String),
    Ctx(u8),
    Custom(Custom),
}

fn ctx_text(kind: u8, c: u32) -> String {
    match kind {
        0 => c.to_string(),
        1 => String::new(),
        2 => format!("ctx: \"{c}\"\n>é<"),
        _ => format!("{:#x}, ", c),
    }
}

fn gen_indent(r: &mut Rng) -> String {
    (*r.pick(&["", " ", "  ", "\t", "****", "→", "{", "    ", "\n"])).to_string()
}

fn gen_sets(r: &mut Rng) -> Vec<Set> {
    let mut out = vec![];
    match r.below(5) {
        0 => {}
        1 => out.push(Set::Compact),
        2 | 3 => out.push(Set::Pretty),
        _ => {
            out.push(Set::Pretty);
            out.push(Set::Compact);
            if r.bool() {
                out.push(Set::Pretty);
            }
        }
    }
    if r.chance(1, 2) {
        out.push(Set::Indent(gen_indent(r)));
    }
    if r.chance(1, 3) {
        out.push(Set::Leading(gen_indent(r)));
    }
    if r.chance(1, 2) {
        out.push(Set::Ctx(r.below(4) as u8));
        if r.chance(1, 10) {
            out.push(Set::Ctx(r.below(4) as u8));
        }
    }
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3, 4]) {
        out.push(Set::Custom(match r.below(10) {
            0 | 1 => Custom::Never,
            2 | 3 => Custom::Hex,
            4 => Custom::EvenNumbers,
            5 => Custom::Variants(gen_char(r).to_string()),
            6 => Custom::NoFields,
            7 => Custom::SilentBools,
            8 => Custom::Contexts(r.range(2, 8) as u32),
            _ => {
                if r.chance(1, 4) {
                    Custom::Everything
                } else {
                    Custom::Variants(String::new())
                }
            }
        }));
    }
    // the settings other than formatters may come in any order
    if r.bool() {
        r.shuffle(&mut out);
    }
    out
}

// ---------------------------------------------------------------- what is observed

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Ctx(u32),
    Offer(usize, u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    Write(usize),
    Bytes(usize),
    Ctx(usize),
    Accept(usize),
}

#[derive(Default)]
struct Log {
    out: String,
    events: Vec<Ev>,
    writes: usize,
    ctxs: usize,
    accepts: usize,
    fault: Option<Fault>,
    failed: bool,
    after: usize,
}
type Shared = Rc<RefCell<Log>>;

/// A writer which records what it is given and fails where told to.
struct W(Shared);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut l = self.0.borrow_mut();
        if l.failed {
            l.after += 1;
            return Err(std::fmt::Error);
        }
        let n = l.writes;
        l.writes += 1;
        match l.fault {
            Some(Fault::Write(k)) if k == n => {
                l.failed = true;
                return Err(std::fmt::Error);
            }
            Some(Fault::Bytes(k)) if l.out.len() + s.len() > k => {
                let mut e = k - l.out.len();
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                l.out.push_str(&s[..e]);
                l.failed = true;
                return Err(std::fmt::Error);
            }
            _ => {}
        }
        l.out.push_str(s);
        Ok(())
    }
}

fn half(s: &str) -> &str {
    let mut e = s.len() / 2;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    &s[..e]
}

fn builder(sets: &[Set], log: &Shared) -> ToWriterBuilder<u32, W> {
    let mut b = to_writer_custom::<u32, W>();
    let mut k = 0;
    for s in sets {
        b = match s {
            Set::Compact => b.compact(),
            Set::Pretty => b.pretty(),
            Set::Indent(s) => b.indent_by(s.as_str()),
            Set::Leading(s) => b.leading_indent(s.clone()),
            Set::Ctx(kind) => {
                let (kind, log) = (*kind, log.clone());
                b.format_context(move |c: &u32, w: &mut W| {
                    let fail = {
                        let mut l = log.borrow_mut();
                        if l.failed {
                            l.after += 1;
                        }
                        l.events.push(Ev::Ctx(*c));
                        l.ctxs += 1;
                        l.fault == Some(Fault::Ctx(l.ctxs - 1))
                    };
                    let text = ctx_text(kind, *c);
                    if fail {
                        w.write_str(half(&text))?;
                        log.borrow_mut().failed = true;
                        return Err(std::fmt::Error);
                    }
                    w.write_str(&text)
                })
            }
            Set::Custom(c) => {
                let (c, log, id) = (c.clone(), log.clone(), k);
                k += 1;
                b.add_custom_formatter(move |v: &Value<u32>, w: &mut W| {
                    {
                        let mut l = log.borrow_mut();
                        if l.failed {
                            l.after += 1;
                        }
                        l.events.push(Ev::Offer(id, v.context));
                    }
                    let text = c.apply(v);
                    let fail = {
                        let mut l = log.borrow_mut();
                        l.accepts += text.is_some() as usize;
                        text.is_some() && l.fault == Some(Fault::Accept(l.accepts - 1))
                    };
                    if fail {
                        if let Err(e) = w.write_str(half(&text.unwrap())) {
                            return Some(Err(e));
                        }
                        log.borrow_mut().failed = true;
                        return Some(Err(std::fmt::Error));
                    }
                    if c == Custom::Hex {
                        return format_hex(v, w);
                    }
                    text.map(|t| w.write_str(&t))
                })
            }
        };
    }
    b
}

/// The reference writer for the same settings, and where it logs.
fn reference(sets: &[Set]) -> (RefWriter<'static, u32>, Rc<RefCell<Vec<Ev>>>) {
    let ev = Rc::new(RefCell::new(vec![]));
    let mut w = RefWriter::new(Style::Normal);
    let mut k = 0;
    for s in sets {
        match s {
            Set::Compact => w.style = Style::Compact,
            Set::Pretty => w.style = Style::Pretty,
            Set::Indent(s) => w.indent = s.clone(),
            Set::Leading(s) => w.leading = s.clone(),
            Set::Ctx(kind) => {
                let (kind, ev) = (*kind, ev.clone());
                w.ctx = Some(Box::new(move |c: &u32| {
                    ev.borrow_mut().push(Ev::Ctx(*c));
                    ctx_text(kind, *c)
                }));
            }
            Set::Custom(c) => {
                let (c, ev, id) = (c.clone(), ev.clone(), k);
                k += 1;
                w.custom.push(Box::new(move |v: &Value<u32>| {
                    ev.borrow_mut().push(Ev::Offer(id, v.context));
                    c.apply(v)
                }));
            }
        }
    }
    (w, ev)
}

fn gen_with_ids(r: &mut Rng, o: &VOpts) -> Value<u32> {
    let mut n = 0u32;
    gen_value(r, o, o.depth, &mut |_| {
        n += 1;
        n * 7 % 1009
    })
}

/// A value nested `depth` deep, in every way of nesting.
fn deep(r: &mut Rng, depth: usize) -> Value<u32> {
    let mut v = gen_with_ids(r, &VOpts { depth: 1, ..Default::default() });
    for k in 0..depth {
        let c = match r.below(4) {
            0 => Composite::Named(vec![(gen_name(r), v)]),
            1 => Composite::Unnamed(vec![v]),
            2 => Composite::Named(vec![("a".into(), Value::with_context(ValueDef::from(1u8), 5)), (gen_name(r), v)]),
            _ => Composite::Unnamed(vec![v, Value::with_context(ValueDef::from("x"), 6)]),
        };
        let value = if r.chance(1, 3) {
            ValueDef::Variant(scale_value::Variant { name: gen_name(r), values: c })
        } else {
            ValueDef::Composite(c)
        };
        v = Value { value, context: k as u32 };
    }
    v
}

fn compare(c: &mut Case, sets: &[Set], v: &Value<u32>, big: bool) -> Res {
    let (rw, rev) = reference(sets);
    let want = rw.text(v);
    let want_ev = rev.borrow().clone();
    let log: Shared = Default::default();
    let b = builder(sets, &log);
    c.desc = format!("{sets:?} {}", super::text::show(v));
    let text = match &want {
        Ok(t) | Err(t) => t.clone(),
    };
    if nodes(v) > 1 || !sets.is_empty() {
        c.nontrivial(format!("{sets:?}{text}"));
    }
    for round in 0..2 {
        *log.borrow_mut() = Log::default();
        let got = no_panic("write", || b.write(v, W(log.clone())))?;
        let l = log.borrow();
        ensure!(
            got.is_ok() == want.is_ok(),
            "write {round}: result {got:?}, expected {}\nwrote    {:?}\nexpected {text:?}",
            if want.is_ok() { "success" } else { "failure (256 bit number)" },
            l.out
        );
        if want.is_err() {
            ensure!(text.starts_with(&l.out), "write {round}: wrote\n{:?}\nexpected a beginning of\n{text:?}", l.out);
            continue;
        }
        ensure!(l.out == text, "write {round}: wrote\n{:?}\nexpected\n{text:?}", l.out);
        ensure!(
            l.events == want_ev,
            "write {round}: calls of printer and formatters\n{:?}\nexpected\n{want_ev:?}",
            l.events
        );
        c.count("printer_and_formatter_calls", l.events.len() as u64);
        c.count("formatters_accepted", l.accepts as u64);
        c.count("writes", l.writes as u64);
    }
    if want.is_err() {
        c.count("unwritable", 1);
        ensure!(big, "harness: unwritable value");
    }
    Ok(())
}

fn displays(c: &mut Case, v: &Value<u32>) -> Res {
    c.desc = super::text::show(v);
    let want = RefWriter::new(Style::Normal).text(v);
    let pretty = RefWriter::new(Style::Pretty).text(v);
    let text = |x: &Result<String, String>| match x {
        Ok(t) | Err(t) => t.clone(),
    };
    c.nontrivial(text(&want));
    fn check(what: &str, want: &Result<String, String>, f: impl FnOnce(&mut String) -> std::fmt::Result) -> Res {
        let mut s = String::new();
        let got = no_panic(what, || f(&mut s))?;
        let t = match want {
            Ok(t) | Err(t) => t,
        };
        ensure!(got.is_ok() == want.is_ok(), "{what}: result {got:?}, expected {:?}", want.is_ok());
        if want.is_err() {
            ensure!(t.starts_with(&s), "{what} wrote\n{s:?}\nexpected a beginning of\n{t:?}");
        } else {
            ensure!(s == *t, "{what} wrote\n{s:?}\nexpected\n{t:?}");
        }
        Ok(())
    }
    check("Display of a value", &want, |s| write!(s, "{v}"))?;
    check("alternate Display of a value", &pretty, |s| write!(s, "{v:#}"))?;
    check("padded Display of a value", &want, |s| write!(s, "{v:>60}"))?;
    check("signed Display of a value", &want, |s| write!(s, "{v:+010.3}"))?;
    check("alternate padded Display of a value", &pretty, |s| write!(s, "{v:<#60}"))?;
    check("Display of a definition", &want, |s| write!(s, "{}", v.value))?;
    check("alternate Display of a definition", &pretty, |s| write!(s, "{:#}", v.value))?;
    check("to_writer", &want, |s| stringify::to_writer(v, s))?;
    check("default builder", &want, |s| to_writer_custom().write(v, s))?;
    check("pretty builder", &pretty, |s| to_writer_custom().pretty().write(v, s))?;
    if let Ok(w) = &want {
        let got = no_panic("to_string", || (stringify::to_string(v), v.to_string(), format!("{:#}", v)))?;
        ensure!(got.0 == *w, "to_string gave\n{:?}\nexpected\n{w:?}", got.0);
        ensure!(got.1 == *w, "ToString gave\n{:?}\nexpected\n{w:?}", got.1);
        ensure!(got.2 == text(&pretty), "format! gave\n{:?}\nexpected\n{:?}", got.2, text(&pretty));
    }
    match &v.value {
        ValueDef::Composite(x) => {
            check("Display of a composite", &want, |s| write!(s, "{x}"))?;
            check("alternate Display of a composite", &pretty, |s| write!(s, "{x:#}"))?;
        }
        ValueDef::Variant(x) => {
            check("Display of a variant", &want, |s| write!(s, "{x}"))?;
            check("alternate Display of a variant", &pretty, |s| write!(s, "{x:#}"))?;
        }
        ValueDef::Primitive(x) => {
            check("Display of a primitive", &want, |s| write!(s, "{x}"))?;
            check("alternate Display of a primitive", &pretty, |s| write!(s, "{x:#}"))?;
            check("padded Display of a primitive", &want, |s| write!(s, "{x:+9}"))?;
        }
        _ => {}
    }
    // the context plays no part
    let w2 = Value { value: v.value.clone(), context: 77u8 as u32 };
    check("Display with another context", &want, |s| write!(s, "{w2}"))
}

fn opts(r: &mut Rng, big: bool) -> VOpts {
    VOpts { depth: r.range(0, 5), wide: *r.pick(&[1, 2, 4, 4, 6]), big256: big, unique_names: false }
}

fn c16(ctx: &mut Ctx) {
    let n = ctx.n(60_000, 12);
    ctx.section("settings", n, |c| {
        let sets = gen_sets(&mut c.r);
        let o = opts(&mut c.r, false);
        let v = gen_with_ids(&mut c.r, &o);
        compare(c, &sets, &v, false)
    });
    let n = ctx.n(8_000, 10);
    ctx.section("unwritable", n, |c| {
        let sets = gen_sets(&mut c.r);
        let o = opts(&mut c.r, true);
        let v = gen_with_ids(&mut c.r, &o);
        compare(c, &sets, &v, true)
    });
    let n = ctx.n(400, 10);
    ctx.section("deep", n, |c| {
        let sets = gen_sets(&mut c.r);
        let d = c.r.range(10, 300);
        let v = deep(&mut c.r, d);
        compare(c, &sets, &v, false)
    });
    let n = ctx.n(200, 10);
    ctx.section("long", n, |c| {
        let n = crate::dict::length_to(&mut c.r, 20_000);
        let mut id = 0;
        let v = long_value(&mut c.r, n, &mut |_| {
            id += 1;
            id
        });
        if c.r.bool() {
            displays(c, &v)
        } else {
            let sets = gen_sets(&mut c.r);
            compare(c, &sets, &v, false)
        }
    });
    let n = ctx.n(20_000, 12);
    ctx.section("display", n, |c| {
        let big = c.r.chance(1, 5);
        let o = opts(&mut c.r, big);
        let v = gen_with_ids(&mut c.r, &o);
        displays(c, &v)
    });
    // one builder, many values: nothing carries over from one write to the next
    let n = ctx.n(3_000, 10);
    ctx.section("reuse", n, |c| {
        let sets = gen_sets(&mut c.r);
        let log: Shared = Default::default();
        let b = builder(&sets, &log);
        let mut key = format!("{sets:?}");
        for k in 0..6 {
            let o = opts(&mut c.r, k % 2 == 0);
            let v = gen_with_ids(&mut c.r, &o);
            let (rw, _) = reference(&sets);
            let want = rw.text(&v);
            let fault = match c.r.below(3) {
                0 => Some(Fault::Write(c.r.below(6))),
                _ => None,
            };
            *log.borrow_mut() = Log { fault, ..Default::default() };
            let got = no_panic("write", || b.write(&v, W(log.clone())))?;
            c.desc = format!("value {k}: {sets:?} {}", super::text::show(&v));
            let l = log.borrow();
            if l.failed {
                c.count("failed_between", 1);
                continue;
            }
            let text = match &want {
                Ok(t) | Err(t) => t,
            };
            key.push_str(text);
            ensure!(got.is_ok() == want.is_ok(), "result {got:?} for value {k} of the same builder");
            ensure!(
                l.out == *text || (want.is_err() && text.starts_with(&l.out)),
                "value {k} of the same builder wrote\n{:?}\nexpected\n{text:?}",
                l.out
            );
        }
        c.nontrivial(key);
        Ok(())
    });
    ctx.require("settings.printer_and_formatter_calls", 10_000);
    ctx.require("settings.formatters_accepted", 1_000);
    ctx.require("unwritable.unwritable", 100);
    ctx.require("reuse.failed_between", 100);
}

fn c17(ctx: &mut Ctx) {
    let n = ctx.n(2_500, 12);
    ctx.section("faults", n, |c| {
        let sets = gen_sets(&mut c.r);
        let big = c.r.chance(1, 4);
        let o = VOpts { depth: c.r.range(0, 4), wide: 3, big256: big, unique_names: false };
        let v = gen_with_ids(&mut c.r, &o);
        faults(c, &sets, &v)
    });
    let n = ctx.n(30, 10);
    ctx.section("deep", n, |c| {
        let sets = gen_sets(&mut c.r);
        let d = c.r.range(5, 40);
        let v = deep(&mut c.r, d);
        faults(c, &sets, &v)
    });
    let n = ctx.n(8, 10);
    ctx.section("long", n, |c| {
        let sets = gen_sets(&mut c.r);
        let n = crate::dict::length_to(&mut c.r, 2_000);
        let mut id = 0;
        let v = long_value(&mut c.r, n, &mut |_| {
            id += 1;
            id
        });
        faults(c, &sets, &v)
    });
    let n = ctx.n(2_500, 12);
    ctx.section("display", n, |c| {
        let big = c.r.chance(1, 4);
        let o = VOpts { depth: c.r.range(0, 4), wide: 3, big256: big, unique_names: false };
        let v = gen_with_ids(&mut c.r, &o);
        c.desc = super::text::show(&v);
        for alternate in [false, true] {
            let want = RefWriter::new(if alternate { Style::Pretty } else { Style::Normal }).text(&v);
            let (full, ok) = match &want {
                Ok(t) => (t, true),
                Err(t) => (t, false),
            };
            c.nontrivial(full);
            let limit = full.chars().count() * 3 + 4;
            let mut k = 0;
            loop {
                let fault = if c.index % 2 == 0 { Fault::Write(k) } else { Fault::Bytes(k) };
                let log: Shared = Rc::new(RefCell::new(Log { fault: Some(fault), ..Default::default() }));
                let mut w = W(log.clone());
                let got = no_panic("Display", || {
                    if alternate {
                        write!(w, "{v:#}")
                    } else {
                        write!(w, "{v}")
                    }
                })?;
                let l = log.borrow();
                judge(c, fault, got.is_ok(), &l, full, ok)?;
                if !l.failed {
                    break;
                }
                k += 1;
                ensure!(k < limit, "harness: endless faults");
            }
        }
        Ok(())
    });
    let n = ctx.n(20_000, 12);
    ctx.section("no_fault", n, |c| {
        let sets = gen_sets(&mut c.r);
        let big = c.r.chance(1, 3);
        let o = opts(&mut c.r, big);
        let v = gen_with_ids(&mut c.r, &o);
        let want = reference(&sets).0.text(&v);
        let (full, ok) = match &want {
            Ok(t) => (t, true),
            Err(t) => (t, false),
        };
        c.desc = format!("{sets:?} {}", super::text::show(&v));
        c.nontrivial(format!("{sets:?}{full}"));
        let log: Shared = Default::default();
        let b = builder(&sets, &log);
        let got = no_panic("write", || b.write(&v, W(log.clone())))?;
        let l = log.borrow();
        c.count(if ok { "writable" } else { "unwritable" }, 1);
        judge(c, Fault::None, got.is_ok(), &l, full, ok)
    });
    ctx.require("faults.write_failures", 10_000);
    ctx.require("faults.limit_failures", 10_000);
    ctx.require("faults.printer_failures", 1_000);
    ctx.require("faults.formatter_failures", 200);
    ctx.require("no_fault.unwritable", 200);
}

fn judge(c: &mut Case, fault: Fault, got_ok: bool, l: &Log, full: &str, writable: bool) -> Res {
    if l.failed {
        c.count(
            match fault {
                Fault::Write(_) => "write_failures",
                Fault::Bytes(_) => "limit_failures",
                Fault::Ctx(_) => "printer_failures",
                Fault::Accept(_) => "formatter_failures",
                Fault::None => "?",
            },
            1,
        );
        ensure!(!got_ok, "{fault:?}: a failure was swallowed; written until then: {:?}", l.out);
        ensure!(l.after == 0, "{fault:?}: writing went on after the failure ({} more calls)", l.after);
        ensure!(full.starts_with(&l.out), "{fault:?}: written\n{:?}\nwhich does not begin the full output\n{full:?}", l.out);
    } else {
        ensure!(
            got_ok == writable,
            "{fault:?}: nothing failed, yet the result is {}; written {:?}",
            if got_ok { "success for a value with 256 bit numbers" } else { "an error" },
            l.out
        );
        if writable {
            ensure!(l.out == full, "{fault:?}: wrote\n{:?}\nexpected\n{full:?}", l.out);
        } else {
            ensure!(full.starts_with(&l.out), "{fault:?}: wrote\n{:?}\nexpected a beginning of\n{full:?}", l.out);
        }
    }
    Ok(())
}

fn faults(c: &mut Case, sets: &[Set], v: &Value<u32>) -> Res {
    let want = reference(sets).0.text(v);
    let (full, ok) = match &want {
        Ok(t) => (t, true),
        Err(t) => (t, false),
    };
    c.desc = format!("{sets:?} {}", super::text::show(v));
    c.nontrivial(format!("{sets:?}{full}"));
    let makers: [fn(usize) -> Fault; 4] = [Fault::Write, Fault::Bytes, Fault::Ctx, Fault::Accept];
    for make in makers {
        // every place in turn; long outputs: all the first and last ones and a sample between
        let mut places: Vec<usize> = (0..200).collect();
        for _ in 0..40 {
            places.push(200 + c.r.below(full.len().max(1)));
        }
        for k in full.len().saturating_sub(20)..full.len() {
            places.push(k);
        }
        for k in places {
            let log: Shared = Rc::new(RefCell::new(Log { fault: Some(make(k)), ..Default::default() }));
            let b = builder(sets, &log);
            let got = no_panic("write", || b.write(v, W(log.clone())))?;
            let l = log.borrow();
            judge(c, make(k), got.is_ok(), &l, full, ok)?;
            if !l.failed && k < 200 {
                break;
            }
        }
    }
    Ok(())
}
