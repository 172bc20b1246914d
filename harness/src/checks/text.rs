//! C11 round trip through text, C12 the parser's syntax, C13 custom parsers.
use crate::model::unbits;
use crate::refparser::{self, RefParser};
use crate::refwriter::Style;
use crate::rng::Rng;
use crate::runner::*;
use crate::vgen::*;
use crate::textgen::*;
use crate::Check;
use scale_value::stringify::{self, from_str, from_str_custom, ParseError, ParseErrorKind};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use std::cell::RefCell;
use std::rc::Rc;

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            run: c11,
            rule: "a case is a value; it is written by every style (and Display) and each text parsed back. Non-trivial: more than one node, or a primitive that needs escaping; distinct by the value's text",
            mem: false,
            term: true,
        },
        Check {
            id: "C12",
            run: c12,
            rule: "a case is a string, parsed by the crate and by the reference parser; value, rest and error are compared. Non-trivial: not the empty string; distinct by string",
            mem: false,
            term: true,
        },
        Check {
            id: "C13",
            run: c13,
            rule: "a case is (string, list of custom parsers); what each parser was offered, the result and the rest are compared with the reference. Non-trivial: a custom parser accepted, raised an error, or declined after changing its cursor; distinct by string + parsers",
            mem: false,
            term: true,
        },
    ]
}

/// What a value looks like after a round trip.
pub fn normal<T>(v: &Value<T>) -> Value<()> {
    fn c<T>(x: &Composite<T>) -> Composite<()> {
        match x {
            Composite::Named(f) => Composite::Named(f.iter().map(|(n, x)| (n.clone(), normal(x))).collect()),
            Composite::Unnamed(f) => Composite::Unnamed(f.iter().map(normal).collect()),
        }
    }
    let value = match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(c(x)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: c(&x.values) }),
        ValueDef::Primitive(Primitive::I128(n)) if *n >= 0 => ValueDef::Primitive(Primitive::U128(*n as u128)),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
    };
    Value { value, context: () }
}

/// A description in which every difference shows.
pub fn show<T>(v: &Value<T>) -> String {
    let mut o = String::new();
    fn c<T>(x: &Composite<T>, o: &mut String) {
        match x {
            Composite::Named(f) => {
                o.push('{');
                for (n, x) in f {
                    o.push_str(&format!("{n:?}: "));
                    d(x, o);
                    o.push_str(", ");
                }
                o.push('}');
            }
            Composite::Unnamed(f) => {
                o.push('(');
                for x in f {
                    d(x, o);
                    o.push_str(", ");
                }
                o.push(')');
            }
        }
    }
    fn d<T>(v: &Value<T>, o: &mut String) {
        match &v.value {
            ValueDef::Composite(x) => c(x, o),
            ValueDef::Variant(x) => {
                o.push_str(&format!("variant {:?} ", x.name));
                c(&x.values, o)
            }
            ValueDef::Primitive(p) => o.push_str(&format!("{p:?}")),
            ValueDef::BitSequence(b) => o.push_str(&format!("bits {:?}", unbits(b).iter().map(|b| *b as u8).collect::<Vec<_>>())),
        }
    }
    d(v, &mut o);
    o
}

fn write(v: &Value<()>, style: Style, indent: &str, leading: &str) -> Result<String, std::fmt::Error> {
    let mut s = String::new();
    {
        let mut b = stringify::to_writer_custom::<(), &mut String>().indent_by(indent).leading_indent(leading);
        b = match style {
            Style::Compact => b.compact(),
            Style::Normal => b,
            Style::Pretty => b.pretty(),
        };
        b.write(v, &mut s)?;
    }
    Ok(s)
}

fn c11_case(c: &mut Case, v: &Value<()>) -> Res {
    let want = normal(v);
    let (indent, leading) = (gen_ws(&mut c.r, 4), gen_ws(&mut c.r, 3));
    c.desc = format!("{} indents {indent:?} {leading:?}", show(v));
    if nodes(v) > 1 || c.desc.contains('\\') {
        c.nontrivial(&c.desc.clone());
    }
    c.count("nodes", nodes(v) as u64);
    let mut texts: Vec<(String, String)> = vec![];
    for st in [Style::Compact, Style::Normal, Style::Pretty] {
        let t = no_panic("write", || write(v, st, &indent, &leading))?;
        texts.push((format!("{st:?}"), t.map_err(|_| Fail::from("writing failed"))?));
    }
    texts.push(("Display".into(), no_panic("Display", || format!("{v}"))?));
    texts.push(("Display pretty".into(), no_panic("Display", || format!("{v:#}"))?));
    texts.push(("to_string".into(), no_panic("to_string", || stringify::to_string(v))?));
    let mut s = String::new();
    no_panic("to_writer", || stringify::to_writer(v, &mut s))?.map_err(|_| Fail::from("to_writer failed"))?;
    texts.push(("to_writer".into(), s));
    texts.push((
        "Display of its definition".into(),
        no_panic("Display", || match &v.value {
            ValueDef::Composite(x) => format!("{x}"),
            ValueDef::Variant(x) => format!("{x:#}"),
            ValueDef::Primitive(x) => format!("{x}"),
            x => format!("{x:#}"),
        })?,
    ));
    texts.push(("Display of ValueDef".into(), no_panic("Display", || format!("{}", v.value))?));
    texts.dedup_by(|a, b| a.1 == b.1);
    for (how, t) in texts {
        let (res, rest) = no_panic("parse", || from_str(&t))?;
        match res {
            Err(e) => return Err(format!("{how}: {t:?} does not parse: {e}").into()),
            Ok(x) => {
                ensure!(x == want, "{how}: {t:?} parses to {}", show(&x));
                ensure!(rest.is_empty(), "{how}: {t:?} parses but leaves {rest:?}");
            }
        }
        c.count("round trips", 1);
        // followed by something else
        if c.r.chance(1, 3) {
            let tail = *c.r.pick(&[",", ")", "}", ":", " ", " x", "\n", ">", "]", "日"]);
            let t2 = format!("{t}{tail}");
            let (res, rest) = no_panic("parse", || from_str(&t2))?;
            // (digits and letters would go on, but none of these does)
            ensure!(res.as_ref().ok() == Some(&want) && rest == tail, "{how}: {t2:?} parses to {res:?} and leaves {rest:?}");
        }
    }
    Ok(())
}

fn c11(ctx: &mut Ctx) {
    let n = ctx.n(50_000, 40);
    ctx.section("values", n, |c| {
        let o = VOpts { depth: 1 + c.r.below(5), ..Default::default() };
        let v = value0(&mut c.r, &o);
        c11_case(c, &v)
    });
    // one character, name or number at a time
    let n = ctx.n(60_000, 40);
    ctx.section("leaves", n, |c| {
        let r = &mut c.r;
        let k = r.below(6);
        let v: Value<()> = match k {
            0 => Value::char(gen_char(r)),
            1 => Value::string(gen_string(r, 10)),
            2 => Value::named_composite([(gen_name(r), Value::bool(true)), (gen_name(r), Value::u128(1))]),
            3 => Value::unnamed_variant(gen_name(r), [Value::bool(false)]),
            4 => Value::named_variant(gen_name(r), [(gen_name(r), Value::u128(5))]),
            _ => Value::primitive(gen_primitive(r, &VOpts::default())),
        };
        c11_case(c, &v)
    });
    // every character of the basic plane and samples of the others
    let per = 64u32;
    let all = 0x110000 / per;
    let step = if ctx.thorough() { 1 } else { 4 };
    ctx.section("characters", (all / step) as u64, |c| {
        let start = if step == 1 { c.index as u32 * per } else { (c.index as u32 * step + c.r.below(step as usize) as u32) * per };
        let chars: Vec<char> = (start..start + per).filter_map(char::from_u32).collect();
        if chars.is_empty() {
            c.skipped = true;
            return Ok(());
        }
        let s: String = chars.iter().collect();
        let mut items: Vec<Value<()>> = chars.iter().map(|x| Value::char(*x)).collect();
        items.push(Value::string(s));
        for x in &chars {
            items.push(Value::unnamed_variant(x.to_string(), []));
            items.push(Value::named_composite([(format!("a{x}"), Value::bool(true)), (x.to_string(), Value::bool(true))]));
        }
        c11_case(c, &Value::unnamed_composite(items))
    });
    let n = ctx.n(300, 20);
    ctx.section("large", n, |c| {
        let r = &mut c.r;
        let v = match r.below(3) {
            0 => {
                // deep
                let mut v: Value<()> = Value::u128(1);
                for _ in 0..r.range(20, 250) {
                    v = match r.below(4) {
                        0 => Value::unnamed_composite([v]),
                        1 => Value::named_composite([(gen_name(r), v)]),
                        2 => Value::unnamed_variant(gen_name(r), [v]),
                        _ => Value::named_variant(gen_name(r), [(gen_name(r), v), ("z".to_string(), Value::bool(true))]),
                    };
                }
                v
            }
            1 => {
                let n = r.range(100, 2000);
                let b: Vec<bool> = (0..n).map(|_| r.bool()).collect();
                Value::bit_sequence(crate::model::mk_bits(&b))
            }
            _ => {
                let n = r.range(100, 1500);
                Value::unnamed_composite((0..n).map(|_| gen_value(r, &VOpts::default(), 1, &mut |_| ())))
            }
        };
        c11_case(c, &v)
    });
    ctx.require("values.round trips", 10_000);
}

// ------------------------------------------------------------------------------ C12

fn same(got: &Result<Value<()>, ParseError>, rest: &str, s: &str, want: &Result<(Value<()>, usize), ParseError>) -> Res {
    // whatever is handed back must be the end of the input
    let off = (rest.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
    ensure!(off <= s.len() && off + rest.len() == s.len() && s.is_char_boundary(off), "the rest handed back is not the end of the input: {rest:?}");
    match (got, want) {
        (Ok(v), Ok((w, n))) => {
            ensure!(v == w, "parsed as {} instead of {}", show(v), show(w));
            ensure!(rest.len() == s.len() - n, "left {rest:?} instead of {:?}", &s[*n..]);
        }
        (Err(e), Err(w)) => ensure!(e == w, "error {e:?} instead of {w:?}"),
        (Ok(v), Err(w)) => return Err(format!("parsed as {} (leaving {rest:?}), though it is wrong: {w:?}", show(v)).into()),
        (Err(e), Ok((w, _))) => return Err(format!("refused ({e:?}), though it is {}", show(w)).into()),
    }
    Ok(())
}

fn c12_case(c: &mut Case, s: &str) -> Res {
    c.desc = format!("{s:?}");
    if !s.is_empty() {
        c.nontrivial(s);
    }
    let want = refparser::parse(s);
    let (got, rest) = no_panic("from_str", || from_str(s))?;
    c.count(if got.is_ok() { "accepted" } else { "refused" }, 1);
    same(&got, rest, s, &want)?;
    if let Err(e) = &got {
        ensure!(e.start_loc <= s.len(), "error located at {} of {} bytes", e.start_loc, s.len());
        let t = no_panic("Display", || format!("{e} / {}", e.err))?;
        ensure!(t.contains(&e.start_loc.to_string()), "the error's text does not say where: {t}");
        let k = match &e.err {
            ParseErrorKind::ExpectedValue => "error: value expected",
            ParseErrorKind::Complex(_) => "error: composite",
            ParseErrorKind::Char(_) => "error: char",
            ParseErrorKind::String(_) => "error: string",
            ParseErrorKind::Number(_) => "error: number",
            ParseErrorKind::BitSequence(_) => "error: bits",
            ParseErrorKind::Custom(_) => "error: custom",
        };
        c.count(k, 1);
    }
    // the other entry point, without any custom parsers
    if c.r.chance(1, 8) {
        let b = from_str_custom();
        let (got2, rest2) = no_panic("parse", || b.parse(s))?;
        ensure!(got2 == got && rest2 == rest, "from_str_custom gives {got2:?}");
    }
    Ok(())
}

fn c12(ctx: &mut Ctx) {
    let n = ctx.n(250_000, 40);
    ctx.section("soup", n, |c| {
        let s = soup(&mut c.r, 10);
        c12_case(c, &s)
    });
    let n = ctx.n(80_000, 40);
    ctx.section("loose", n, |c| {
        let o = VOpts { depth: 1 + c.r.below(4), ..Default::default() };
        let v = value0(&mut c.r, &o);
        let mut s = String::new();
        loose(&v, &mut c.r, &mut s);
        // what it spells, from the value itself: not by way of any parser
        let mut want = v;
        fn neg(v: &mut Value<()>) {
            match &mut v.value {
                ValueDef::Composite(c) => cneg(c),
                ValueDef::Variant(x) => cneg(&mut x.values),
                ValueDef::Primitive(Primitive::I128(n)) => *n = (n.unsigned_abs() as i128).wrapping_neg(),
                _ => {}
            }
        }
        fn cneg(c: &mut Composite<()>) {
            match c {
                Composite::Named(f) => f.iter_mut().for_each(|f| neg(&mut f.1)),
                Composite::Unnamed(f) => f.iter_mut().for_each(neg),
            }
        }
        neg(&mut want);
        c12_case(c, &s)?;
        let (got, rest) = from_str(&s);
        ensure!(got.as_ref().ok() == Some(&want), "parsed as {got:?} instead of {}", show(&want));
        ensure!(rest.is_empty(), "left {rest:?}");
        Ok(())
    });
    let n = ctx.n(150_000, 40);
    ctx.section("mutated", n, |c| {
        let o = VOpts { depth: 1 + c.r.below(4), ..Default::default() };
        let v = value0(&mut c.r, &o);
        let mut s = String::new();
        loose(&v, &mut c.r, &mut s);
        for _ in 0..c.r.range(1, 3) {
            mutate_text(&mut s, &mut c.r);
        }
        c12_case(c, &s)
    });
    let n = ctx.n(100_000, 40);
    ctx.section("unicode", n, |c| {
        let k = c.r.below(20);
        let s: String = (0..k).map(|_| gen_char(&mut c.r)).collect();
        c12_case(c, &s)
    });
    let n = ctx.n(100_000, 40);
    ctx.section("numbers", n, |c| {
        let r = &mut c.r;
        let b = *r.pick(&[3, 64, 120, 127, 128, 128, 128]);
        let mut s = r.uint(b).to_string();
        if r.chance(1, 2) {
            let lim = *r.pick(&["340282366920938463463374607431768211455", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "18446744073709551615", "9223372036854775808", "4294967295"]);
            s = lim.to_string();
            // the last digits nearby
            let k = r.below(4);
            for _ in 0..k {
                let at = s.len() - 1 - r.below(3);
                s.replace_range(at..at + 1, &r.below(10).to_string());
            }
        }
        if r.chance(1, 4) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
        if r.chance(1, 4) {
            let z = r.below(60);
            s.insert_str(0, &"0".repeat(z));
        }
        for _ in 0..r.below(4) {
            let mut at = r.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert(at, if r.chance(9, 10) { '_' } else { *r.pick(&['-', '+', '.', 'e', 'x', '٣']) });
        }
        let sign = *r.pick(&["", "", "-", "-", "+", "--", "+-", "- "]);
        s.insert_str(0, sign);
        if r.chance(1, 3) {
            s = format!("({s})");
        }
        c12_case(c, &s)
    });
    // all short strings over the characters that matter
    let alphabet: Vec<char> = "{}()<>,:\"'\\_-+01av é".chars().collect();
    let len = if ctx.thorough() { 5 } else { 4 };
    let k = alphabet.len() as u64;
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    let scale = ctx.scale.min(1.0);
    ctx.section("exhaustive", (total as f64 * scale) as u64, |c| {
        let mut i = c.index;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let s: String = (0..l)
            .map(|_| {
                let x = alphabet[(i % k) as usize];
                i /= k;
                x
            })
            .collect();
        c12_case(c, &s)
    });
    // long ones: time and memory are bounded
    let n = ctx.n(60, 20);
    ctx.section("long", n, |c| {
        let r = &mut c.r;
        let n = r.range(10_000, 60_000);
        let unit = *r.pick(&["a", "1", "0_", "\"", "\\\"", "(1),", "a:1,", "<0", "0", " ", "'a',", "true,", "Foo(1),", "日", "\\"]);
        let s = format!("{}{}{}", *r.pick(&["", "(", "{", "\"", "<", "v\""]), unit.repeat(n / unit.len()), *r.pick(&["", ")", "}", "\"", ">", "1)", "a:1}"]));
        let r = c12_case(c, &s);
        c.desc = format!("{} bytes of {unit:?}", s.len());
        r
    });
    // nesting without bound
    ctx.section("bottomless", 1, |c| {
        c.desc = "a million opening brackets".into();
        super::probe("parse").map_err(|m| Fail { sig: Some("unbounded-nesting-exhausts-the-stack".into()), msg: m })
    });
    for k in ["error: value expected", "error: composite", "error: char", "error: string", "error: number", "error: bits"] {
        ctx.require(&format!("soup.{k}"), 200);
    }
    ctx.require("mutated.accepted", 5000);
    ctx.require("mutated.refused", 5000);
}

// ------------------------------------------------------------------------------ C13

/// What a custom parser does, as a function of the text it is offered alone.
#[derive(Clone, Debug)]
struct Act {
    /// applies where the text starts with this
    start: String,
    what: What,
}
#[derive(Clone, Debug)]
enum What {
    /// take the start, and what follows up to (not including) one of these
    Accept { until: String, tag: u32 },
    /// take the start and `n` more characters
    AcceptN { n: usize, tag: u32 },
    /// take everything
    AcceptAll { tag: u32 },
    /// take nothing, but give a value
    AcceptNone { tag: u32 },
    Error { start: usize, end: Option<usize> },
    /// read ahead, then decline, leaving the cursor somewhere else
    Decline { how: usize },
    Hex,
    Ss58,
    /// parse a value with the ordinary parser and wrap it
    Nested,
}

enum Out {
    Declined,
    Accepted(Value<()>, usize),
    Failed(ParseError),
}

impl Act {
    fn run(&self, t: &str) -> Out {
        match &self.what {
            What::Hex => {
                let mut c = t;
                return match stringify::custom_parsers::parse_hex(&mut c) {
                    None => Out::Declined,
                    Some(Ok(v)) => Out::Accepted(v, t.len() - c.len()),
                    Some(Err(e)) => Out::Failed(e),
                };
            }
            What::Ss58 => {
                let mut c = t;
                return match stringify::custom_parsers::parse_ss58(&mut c) {
                    None => Out::Declined,
                    Some(Ok(v)) => Out::Accepted(v, t.len() - c.len()),
                    Some(Err(e)) => Out::Failed(e),
                };
            }
            _ => {}
        }
        if !t.starts_with(&self.start) {
            return Out::Declined;
        }
        let n = self.start.len();
        let val = |tag: &u32, n: usize| Value::unnamed_variant(format!("custom{tag}"), [Value::string(&t[..n])]);
        match &self.what {
            What::Accept { until, tag } => {
                let k = t[n..].find(|c| until.contains(c)).map(|k| n + k).unwrap_or(t.len());
                Out::Accepted(val(tag, k), k)
            }
            What::AcceptN { n: more, tag } => {
                let k = n + t[n..].chars().take(*more).map(|c| c.len_utf8()).sum::<usize>();
                Out::Accepted(val(tag, k), k)
            }
            What::AcceptAll { tag } => Out::Accepted(val(tag, t.len()), t.len()),
            What::AcceptNone { tag } => Out::Accepted(val(tag, 0), 0),
            What::Error { start, end } => Out::Failed(ParseError { start_loc: *start, end_loc: *end, err: ParseErrorKind::custom("custom failure ✗") }),
            What::Decline { .. } => Out::Declined,
            What::Nested => match refparser::parse(&t[n..]) {
                Ok((v, k)) => Out::Accepted(Value::unnamed_composite([v]), n + k),
                Err(_) => Out::Declined,
            },
            What::Hex | What::Ss58 => unreachable!(),
        }
    }
    /// As the crate calls it.
    fn call(&self, t: &mut &str) -> Option<Result<Value<()>, ParseError>> {
        let text: &str = t;
        match self.run(text) {
            Out::Accepted(v, n) => {
                *t = &text[n..];
                Some(Ok(v))
            }
            Out::Failed(e) => Some(Err(e)),
            Out::Declined => {
                if let (What::Decline { how }, true) = (&self.what, text.starts_with(&self.start)) {
                    *t = match how {
                        0 => "",
                        1 => text.char_indices().nth(1).map(|(i, _)| &text[i..]).unwrap_or(""),
                        2 => &text[self.start.len()..],
                        3 => text.char_indices().last().map(|(i, _)| &text[i..]).unwrap_or(""),
                        4 => "something else entirely",
                        _ => text,
                    };
                }
                None
            }
        }
    }
}

const STARTS: [&str; 26] = ["", "§", "日本", "0x", "v", "true", "t", "(", "{", "1", "-", "\"", "'", "<", "🎉", "a", "Foo", "é", " ", ",", ")", "5", "x", "§§", "custom", "@"];

fn gen_acts(r: &mut Rng) -> Vec<Act> {
    (0..r.range(1, 5))
        .map(|k| {
            let start = STARTS[r.below(STARTS.len())].to_string();
            let tag = k as u32;
            let mut start = start;
            let what = match r.below(16) {
                0..=2 => What::Accept { until: (*r.pick(&[",)}", ", ", "§", "日)}", ",)} "])).to_string(), tag },
                3..=5 => What::AcceptN { n: r.below(4), tag },
                6 => What::AcceptAll { tag },
                7 => What::AcceptNone { tag },
                8 | 9 => {
                    let start = r.below(12);
                    What::Error { start, end: r.bool().then(|| start + r.below(5)) }
                }
                10..=12 => What::Decline { how: r.below(6) },
                13 => What::Hex,
                14 => What::Ss58,
                _ => What::Nested,
            };
            if start.is_empty() && !matches!(what, What::Decline { .. }) && r.chance(9, 10) {
                start = "§".into();
            }
            Act { start, what }
        })
        .collect()
}

fn c13_text(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(2, 3) {
        // a value with strange things in the place of others
        let o = VOpts { depth: 1 + r.below(4), ..Default::default() };
        let v = value0(r, &o);
        let mut t = String::new();
        loose(&v, r, &mut t);
        // swap in markers at places where a value may start
        let marks = ["§", "日本x", "0x01ff", "🎉é", "@", "true", "§§", "5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY", "customλ", "0x0", "Foo(§)", "(§日, 🎉)"];
        for c in t.chars() {
            s.push(c);
            if matches!(c, '(' | ':' | ',') && r.chance(1, 3) {
                if r.bool() {
                    s.push(' ');
                }
                s.push_str(marks[r.below(marks.len())]);
                if c == ',' || r.bool() {
                    s.push(',');
                }
            }
        }
    } else {
        for _ in 0..r.range(1, 8) {
            s.push_str(STARTS[r.below(STARTS.len())]);
            if r.chance(1, 3) {
                s.push_str(*r.pick(&[",", " ", "(", ")", ", 1", "日", "ab"]));
            }
        }
        if r.bool() {
            s = format!("(1, {{ \"日本\": {s}, b: 2 }})");
        }
    }
    if r.chance(1, 5) {
        mutate_text(&mut s, r);
    }
    s
}

fn c13_case(c: &mut Case, s: &str, acts: &[Act]) -> Res {
    c.desc = format!("{s:?} with {acts:?}");
    // the reference
    let want_log: Rc<RefCell<Vec<(usize, usize)>>> = Default::default();
    let mut interesting = false;
    let (mut accepted, mut failed, mut shifted) = (0, 0, 0);
    let want = {
        let log = want_log.clone();
        let mut f = |t: &str| {
            for (k, a) in acts.iter().enumerate() {
                log.borrow_mut().push((k, t.len()));
                match a.run(t) {
                    Out::Declined => {
                        if matches!(a.what, What::Decline { .. }) && t.starts_with(&a.start) {
                            interesting = true;
                            shifted += 1;
                        }
                    }
                    Out::Accepted(v, n) => {
                        interesting = true;
                        accepted += 1;
                        return Some(Ok((v, n)));
                    }
                    Out::Failed(e) => {
                        interesting = true;
                        failed += 1;
                        return Some(Err(e));
                    }
                }
            }
            None
        };
        let mut p = RefParser { s, pos: 0, custom: Some(&mut f) };
        let r = p.value();
        let pos = p.pos;
        r.map(|v| (v, pos))
    };
    c.count("accepted by a custom parser", accepted);
    c.count("custom errors", failed);
    c.count("declined after moving the cursor", shifted);
    if interesting {
        c.nontrivial(&c.desc.clone());
    }
    // the crate
    let log: Rc<RefCell<Vec<(usize, usize)>>> = Default::default();
    let wrong: Rc<RefCell<Option<String>>> = Default::default();
    let (base, len) = (s.as_ptr() as usize, s.len());
    let whole = s.to_string();
    let mut b = from_str_custom();
    for (k, a) in acts.iter().cloned().enumerate() {
        let (log, wrong, whole) = (log.clone(), wrong.clone(), whole.clone());
        b = b.add_custom_parser(move |t| {
            log.borrow_mut().push((k, t.len()));
            let off = (t.as_ptr() as usize).wrapping_sub(base);
            if off + t.len() != len || !whole.ends_with(*t) {
                *wrong.borrow_mut() = Some(format!("parser {k} was offered {t:?}, which is not the rest of the input"));
            }
            a.call(t)
        });
    }
    let (got, rest) = no_panic("parse", || b.parse(s))?;
    if let Some(w) = wrong.borrow().clone() {
        return Err(w.into());
    }
    let dedup = |l: &[(usize, usize)]| {
        let mut seen = std::collections::HashSet::new();
        l.iter().copied().filter(|x| seen.insert(*x)).collect::<Vec<_>>()
    };
    let (l, w) = (log.take(), want_log.take());
    c.count("offers", l.len() as u64);
    let (l, w) = (dedup(&l), dedup(&w));
    same(&got, rest, s, &want)?;
    ensure!(l == w, "the parsers were offered (parser, bytes left) {l:?} instead of {w:?}");
    // a builder serves many texts
    if c.r.chance(1, 8) {
        let (again, rest2) = no_panic("parse", || b.parse(s))?;
        ensure!(again == got && rest2 == rest, "the second time it gives {again:?}");
    }
    Ok(())
}

fn c13(ctx: &mut Ctx) {
    let n = ctx.n(150_000, 40);
    ctx.section("parsers", n, |c| {
        let s = c13_text(&mut c.r);
        let acts = gen_acts(&mut c.r);
        c13_case(c, &s, &acts)
    });
    let n = ctx.n(40_000, 40);
    ctx.section("hex_and_ss58", n, |c| {
        let r = &mut c.r;
        let mut acts = vec![Act { start: String::new(), what: What::Hex }, Act { start: String::new(), what: What::Ss58 }];
        if r.bool() {
            acts.reverse();
        }
        let o = VOpts { depth: 1 + r.below(3), ..Default::default() };
        let v = value0(r, &o);
        let mut s = String::new();
        loose(&v, r, &mut s);
        let mut t = String::new();
        for ch in s.chars() {
            t.push(ch);
            if matches!(ch, '(' | ':' | ',') && r.chance(1, 3) {
                t.push_str(*r.pick(&["0x01Ff", "0x", "5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY", "5FHneW46xGXgs5mUiveU4sbTyGBzmstUspZC92UhjJM694ty", "0x1", "0xé"]));
                if ch == ',' || r.bool() {
                    t.push(',');
                }
            }
        }
        if r.chance(1, 4) {
            mutate_text(&mut t, r);
        }
        c13_case(c, &t, &acts)
    });
    let n = ctx.n(60, 20);
    ctx.section("long", n, |c| {
        let n = crate::dict::length_to(&mut c.r, 1500);
        let v = long_value(&mut c.r, n, &mut |_| ());
        let mut s = String::new();
        loose(&v, &mut c.r, &mut s);
        let acts = gen_acts(&mut c.r);
        c13_case(c, &s, &acts)
    });
    ctx.require("parsers.accepted by a custom parser", 10_000);
    ctx.require("parsers.custom errors", 1000);
    ctx.require("parsers.declined after moving the cursor", 5000);
}
