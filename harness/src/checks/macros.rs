//! C23: the `value!` macro. Literals are generated, compiled against the crate and run: each must
//! give the value that it spells, and text outside the macro's syntax must not compile.
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::{root, Check};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub fn table() -> Vec<Check> {
    vec![Check {
        id: "C23",
        run: c23,
        rule: "a case is one value!(..) literal, compiled and run (or compiled and refused); non-trivial when it holds at least two values",
        mem: false,
        term: false,
    }]
}

struct Lit {
    /// the text given to the macro
    text: String,
    /// the same value, spelled with the plain constructors of the data types
    want: String,
    /// the same value in the syntax of the parser, if it can be written in both
    parse: Option<String>,
    nodes: usize,
    exprs: usize,
    named: usize,
    variants: usize,
    quoted: usize,
}

struct Gen<'r> {
    r: &'r mut Rng,
    exprs: usize,
    nodes: usize,
    named: usize,
    variants: usize,
    quoted: usize,
    parseable: bool,
    /// literals only, no expressions
    plain: bool,
}

struct Out {
    text: String,
    want: String,
    parse: String,
}

fn prim(p: &str) -> String {
    format!("P({p})")
}

/// how a string can be written in Rust (and in the parser's syntax, where it can)
fn str_lit(r: &mut Rng, s: &str, parseable: &mut bool) -> String {
    match r.below(6) {
        0 if !s.contains('"') && !s.contains('\r') && !s.contains('\n') => {
            if s.contains('\\') {
                *parseable = false;
            }
            *parseable = false; // raw strings are Rust's
            format!("r\"{s}\"")
        }
        1 if !s.contains("\"##") && !s.contains('\r') && !s.contains('\n') => {
            *parseable = false;
            format!("r##\"{s}\"##")
        }
        2 => {
            *parseable = false;
            let mut o = String::from("\"");
            for c in s.chars() {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
            o + "\""
        }
        _ => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\r' => o.push_str("\\r"),
                    '\t' => o.push_str("\\t"),
                    '\0' => o.push_str("\\0"),
                    c => o.push(c),
                }
            }
            o + "\""
        }
    }
}
/// the one spelling used on the other side
fn plain_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || c == ' ' {
            o.push(c)
        } else {
            let _ = write!(o, "\\u{{{:x}}}", c as u32);
        }
    }
    o + "\""
}

fn text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| {
            *r.pick(&[
                'a', 'Z', '0', ' ', '_', '"', '\'', '\\', '\n', '\t', '\r', '\0', ':', ',', '(', ')', '{', '}', '<', '#', '!', '$',
                'é', '日', '🎉', '-', '.', '/', '*', 'r', 'n',
            ])
        })
        .collect()
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "foo", "bar", "Foo", "V1", "v1", "POST", "fields", "field_name", "variant_name", "value", "token", "v", "x1",
    "snake_case_name", "CamelCase", "é", "r", "e", "t", "key", "rest", "named", "unnamed", "array", "map", "val", "name", "String",
    "Vec", "Value", "Some", "None", "Ok", "self_", "_x", "__", "union", "auto", "macro_rules", "default", "raw", "vec", "stringify",
    "value_internal", "std", "core", "Composite", "Z_9",
];

impl Gen<'_> {
    fn sp(&mut self) -> &'static str {
        *self.r.pick(&["", "", " ", " ", "  ", " /* , */ "])
    }
    /// white space in the parser's text and Rust's
    fn leaf(&mut self) -> Out {
        let same = |t: String, want: String| Out { parse: t.clone(), text: t, want };
        match self.r.below(if self.plain { 8 } else { 12 }) {
            0 | 1 => {
                let n = self.r.int(32) as i32;
                let n = if self.r.bool() { n } else { self.r.below(200) as i32 - 100 };
                let n = if n == i32::MIN { 7 } else { n };
                same(format!("{n}"), prim(&format!("I128({n}i128)")))
            }
            2 => same(self.r.pick(&["true", "false"]).to_string(), String::new()).fix_bool(),
            3 => {
                let c = loop {
                    if let Some(c) = text(self.r, 1).chars().next() {
                        break c;
                    }
                };
                let lit = match c {
                    '\'' => "\\'".to_string(),
                    '\\' => "\\\\".to_string(),
                    '\n' => "\\n".to_string(),
                    '\r' => "\\r".to_string(),
                    '\t' => "\\t".to_string(),
                    '\0' => "\\0".to_string(),
                    c => c.to_string(),
                };
                same(format!("'{lit}'"), prim(&format!("Char('\\u{{{:x}}}')", c as u32)))
            }
            4 | 5 => {
                let s = text(self.r, 8);
                let l = str_lit(self.r, &s, &mut self.parseable);
                same(l, prim(&format!("String({}.to_string())", plain_str(&s))))
            }
            6 | 7 => {
                // a number with its type
                self.parseable = false;
                let (ty, bits, signed) = *self.r.pick(&[
                    ("u8", 8u32, false),
                    ("u16", 16, false),
                    ("u32", 32, false),
                    ("u64", 64, false),
                    ("u128", 128, false),
                    ("usize", 64, false),
                    ("i8", 8, true),
                    ("i16", 16, true),
                    ("i32", 32, true),
                    ("i64", 64, true),
                    ("i128", 128, true),
                    ("isize", 64, true),
                ]);
                if signed {
                    let n = match self.r.below(4) {
                        0 => i128::MAX >> (128 - bits),
                        1 => i128::MIN >> (128 - bits),
                        _ => self.r.int(bits),
                    };
                    let want = if n == i128::MIN { "I128(i128::MIN)".to_string() } else { format!("I128({n}i128)") };
                    same(format!("{n}{ty}"), prim(&want))
                } else {
                    let n = match self.r.below(4) {
                        0 => u128::MAX >> (128 - bits),
                        1 => 0,
                        _ => self.r.uint(bits),
                    };
                    let t = match self.r.below(4) {
                        0 => format!("0x{n:X}{ty}"),
                        1 => format!("0b{n:b}_{ty}"),
                        2 => format!("0o{n:o}{ty}"),
                        _ => format!("{n}_{ty}"),
                    };
                    same(t, prim(&format!("U128({n}u128)")))
                }
            }
            8 => {
                // a name in scope
                self.parseable = false;
                let (t, w) = *self.r.pick(&[
                    ("s", "P(String(\"owned\".to_string()))"),
                    ("sr", "P(String(\"borrowed\".to_string()))"),
                    ("n", "P(U128(200u128))"),
                    ("flag", "P(Bool(true))"),
                    ("val", "N(vec![(\"in\".to_string(), P(U128(1u128)))])"),
                    ("comp", "U(vec![P(Char('c'))])"),
                    ("vari", "V(\"Va\", Composite::Unnamed(vec![]))"),
                    ("bits", "B(&[true, false, true])"),
                    ("fields", "P(U128(11u128))"),
                    ("field_name", "P(U128(12u128))"),
                    ("variant_name", "P(U128(13u128))"),
                    ("token", "P(U128(14u128))"),
                    ("big", "P(U256([255u8; 32]))"),
                ]);
                let t = if self.r.bool() { format!("{t}.clone()") } else { t.to_string() };
                // the first four may be used up by an earlier use
                let t = if t.ends_with(')') || ["n", "flag", "sr", "fields", "field_name", "variant_name", "token"].contains(&&*t) {
                    t
                } else {
                    format!("{t}.clone()")
                };
                same(t, w.to_string())
            }
            9 => {
                // evaluated once, in its turn
                self.parseable = false;
                let k = self.exprs;
                self.exprs += 1;
                match self.r.below(4) {
                    0 => same(format!("t.e({k}, {}u8)", k % 251), prim(&format!("U128({}u128)", k % 251))),
                    1 => same(format!("t.e({k}, {{ let z = \"x\"; z }})"), prim("String(\"x\".to_string())")),
                    2 => same(format!("T::f(&t, {k})"), prim(&format!("I128({k}i128)"))),
                    _ => same(format!("if t.e({k}, true) {{ 1u8 }} else {{ 2u8 }}"), prim("U128(1u128)")),
                }
            }
            _ => {
                self.parseable = false;
                let (t, w) = *self.r.pick(&[
                    ("1 + 2 * 3", "P(I128(7i128))"),
                    ("-n2", "P(I128(-5i128))"),
                    ("!flag", "P(Bool(false))"),
                    ("n as u16", "P(U128(200u128))"),
                    ("n2 as i64", "P(I128(5i128))"),
                    ("n < 201 && flag", "P(Bool(true))"),
                    ("u8::MAX", "P(U128(255u128))"),
                    ("Value::string(\"made\")", "P(String(\"made\".to_string()))"),
                    ("scale_value::Value::char('q')", "P(Char('q'))"),
                    ("vec![1u8, 2]", "U(vec![P(U128(1u128)), P(U128(2u128))])"),
                    ("vec![(\"k\", 1u8)]", "N(vec![(\"k\".to_string(), P(U128(1u128)))])"),
                    ("Vec::<u8>::new()", "U(vec![])"),
                    ("arr[1]", "P(U128(9u128))"),
                    ("pair.1", "P(U128(8u128))"),
                    ("&*s", "P(String(\"owned\".to_string()))"),
                    ("s.clone() + \"!\"", "P(String(\"owned!\".to_string()))"),
                    ("format!(\"{}-{}\", n, 1)", "P(String(\"200-1\".to_string()))"),
                    ("value!((1u8, {a: 2u8}))", "U(vec![P(U128(1u128)), N(vec![(\"a\".to_string(), P(U128(2u128)))])])"),
                    ("value!(In(3u8))", "V(\"In\", Composite::Unnamed(vec![P(U128(3u128))]))"),
                    ("b'a'", "P(U128(97u128))"),
                    ("5u8.pow(2)", "P(U128(25u128))"),
                    ("match n { 200 => \"two\", _ => \"else\" }", "P(String(\"two\".to_string()))"),
                    ("if flag { 'y' } else { 'z' }", "P(Char('y'))"),
                    ("Value::primitive(Primitive::U128(4))", "P(U128(4u128))"),
                    ("(n, 2).0", "P(U128(200u128))"),
                    ("std::convert::identity(n)", "P(U128(200u128))"),
                    ("-1i64 as u8", "P(U128(255u128))"),
                    ("0 - 3", "P(I128(-3i128))"),
                    ("\"lit\".to_string()", "P(String(\"lit\".to_string()))"),
                    ("'x' as u32", "P(U128(120u128))"),
                    ("i128::MIN", "P(I128(i128::MIN))"),
                    ("u128::MAX", "P(U128(u128::MAX))"),
                ]);
                // `(n, 2).0` starts like a composite
                if t.starts_with('(') {
                    return same("pair.1".into(), "P(U128(8u128))".into());
                }
                same(t.to_string(), w.to_string())
            }
        }
    }

    fn key(&mut self) -> (String, String) {
        if self.r.chance(2, 3) {
            let k = *self.r.pick(IDENTS);
            if k.starts_with('_') {
                self.parseable = false;
            }
            (k.to_string(), k.to_string())
        } else {
            let s = if self.r.chance(1, 4) { self.r.pick(IDENTS).to_string() } else { text(self.r, 8) };
            self.quoted += 1;
            (str_lit(self.r, &s, &mut self.parseable), s)
        }
    }

    /// the text between the brackets, and the fields
    fn fields(&mut self, named: bool, depth: usize) -> Out {
        let n = match self.r.below(12) {
            0 | 1 => 0,
            2 => self.r.range(5, 16),
            _ => self.r.range(1, 4),
        };
        let (mut t, mut w, mut p) = (String::new(), String::new(), String::new());
        for i in 0..n {
            let depth = if n > 4 { depth.min(1) } else { depth };
            t += self.sp();
            if named {
                self.named += 1;
                let (kt, k) = self.key();
                let (a, b) = (self.sp(), self.sp());
                let _ = write!(t, "{kt}{a}:{b}");
                let _ = write!(p, "{kt} : ");
                let _ = write!(w, "({}.to_string(), ", plain_str(&k));
            }
            let o = self.node(depth);
            t += &o.text;
            t += self.sp();
            p += &o.parse;
            w += &o.want;
            if named {
                w += ")";
            }
            w += ", ";
            if i + 1 < n {
                t += ",";
                p += ",";
            } else if self.r.chance(1, 3) {
                t += ",";
                t += self.sp();
            }
        }
        Out { text: t, want: w, parse: p }
    }

    fn node(&mut self, depth: usize) -> Out {
        self.nodes += 1;
        if depth == 0 || self.r.chance(2, 5) {
            return self.leaf();
        }
        let named = self.r.bool();
        let variant = self.r.bool();
        let name = *self.r.pick(IDENTS);
        let f = self.fields(named, depth - 1);
        let (open, close) = if named { ("{", "}") } else { ("(", ")") };
        let comp = format!("Composite::{}(vec![{}])", if named { "Named" } else { "Unnamed" }, f.want);
        if variant {
            self.variants += 1;
            if name.starts_with('_') {
                self.parseable = false;
            }
            let gap = *self.r.pick(&["", " "]);
            Out {
                text: format!("{name}{gap}{open}{}{close}", f.text),
                parse: format!("{name} {open} {} {close}", f.parse),
                want: format!("V({}, {comp})", plain_str(name)),
            }
        } else {
            Out { text: format!("{open}{}{close}", f.text), parse: format!("{open}{}{close}", f.parse), want: format!("C({comp})") }
        }
    }
}
impl Out {
    fn fix_bool(mut self) -> Out {
        self.want = prim(&format!("Bool({})", self.text));
        self
    }
}

fn literal(seed: u64, i: u64) -> Lit {
    let mut r = Rng::new(mix(seed ^ mix(0xC23 ^ mix(i))));
    if i == 0 {
        return Lit { text: String::new(), want: "U(vec![])".into(), parse: None, nodes: 1, exprs: 0, named: 0, variants: 0, quoted: 0 };
    }
    let depth = r.below(6);
    let mut g = Gen { r: &mut r, exprs: 0, nodes: 0, named: 0, variants: 0, quoted: 0, parseable: true, plain: false };
    let o = g.node(depth);
    Lit {
        parse: g.parseable.then_some(o.parse),
        nodes: g.nodes,
        exprs: g.exprs,
        named: g.named,
        variants: g.variants,
        quoted: g.quoted,
        text: o.text,
        want: o.want,
    }
}

/// Text which is not in the macro's syntax.
fn bad_literal(seed: u64, i: u64) -> String {
    let mut r = Rng::new(mix(seed ^ mix(0xBAD ^ mix(i))));
    let plain = |r: &mut Rng| -> String {
        let mut g = Gen { r, exprs: 0, nodes: 0, named: 0, variants: 0, quoted: 0, parseable: true, plain: true };
        let depth = g.r.below(3);
        g.node(depth).text
    };
    // what cannot be continued by the next literal
    let closed = |r: &mut Rng| r.pick(&["1", "\"a\"", "'c'", "true", "{a: 1}", "(1, 2)", "V(1)", "V{ a: 1 }", "()", "{}", "2u8"]).to_string();
    let opens = |r: &mut Rng| r.pick(&["1", "\"a\"", "'c'", "true", "2u8", "1_000"]).to_string();
    let (a, b, v) = (closed(&mut r), opens(&mut r), plain(&mut r));
    let k = *r.pick(&["a", "\"k\"", "foo"]);
    let sub = match i % 17 {
        0 => format!("({a} {b})"),
        1 => format!("({v}, {a} {b},)"),
        2 => format!("{{{k}: {a} {b}: {v}}}"),
        3 => format!("{{{k}}}"),
        4 => format!("{{{k}:}}"),
        5 => format!("{{: {v}}}"),
        6 => format!("{{{k}, b: {v}}}"),
        7 => format!("{{{k}: {v}, b}}"),
        8 => format!("{{{k}: {v}, : 2}}"),
        9 => "(,)".to_string(),
        10 => format!("({v},, {a})"),
        11 => "{,}".to_string(),
        12 => format!("{{{k}: {v},, b: 1}}"),
        13 => format!("{{{k}: {a}; b: 1}}"),
        14 => format!("({a}; {b})"),
        15 => format!("{{{k} {a}}}"),
        _ => format!("{{{k}: {v}, b: }}"),
    };
    let sub = if r.bool() && i % 17 != 9 { format!("V{sub}") } else { sub };
    match r.below(5) {
        0 => format!("(1, {sub})"),
        1 => format!("{{a: {sub}, b: 2}}"),
        2 => format!("W((({sub})), 1)"),
        3 => format!("{{a: {{ b: {sub} }}}}"),
        _ => sub,
    }
}

const PRELUDE: &str = r##"#![allow(warnings)]
#![recursion_limit = "512"]
use scale_value::{value, BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use Primitive::{Bool, Char, String as Str, I128, U128, U256};
use std::cell::RefCell;
fn P(p: Primitive) -> Value<()> { Value { value: ValueDef::Primitive(p), context: () } }
fn C(c: Composite<()>) -> Value<()> { Value { value: ValueDef::Composite(c), context: () } }
fn U(v: Vec<Value<()>>) -> Value<()> { C(Composite::Unnamed(v)) }
fn N(v: Vec<(String, Value<()>)>) -> Value<()> { C(Composite::Named(v)) }
fn V(n: &str, c: Composite<()>) -> Value<()> { Value { value: ValueDef::Variant(Variant { name: n.to_string(), values: c }), context: () } }
fn B(b: &[bool]) -> Value<()> { let mut s = BitSequence::new(); for x in b { s.push(*x) } Value { value: ValueDef::BitSequence(s), context: () } }
struct T { log: RefCell<Vec<usize>> }
impl T {
    fn e<X>(&self, k: usize, x: X) -> X { self.log.borrow_mut().push(k); x }
    fn f(t: &T, k: usize) -> i64 { t.e(k, k as i64) }
}
fn norm(v: Value<()>) -> Value<()> {
    let value = match v.value {
        ValueDef::Primitive(I128(n)) if n >= 0 => ValueDef::Primitive(U128(n as u128)),
        ValueDef::Composite(c) => ValueDef::Composite(norm_c(c)),
        ValueDef::Variant(v) => ValueDef::Variant(Variant { name: v.name, values: norm_c(v.values) }),
        o => o,
    };
    Value { value, context: () }
}
fn norm_c(c: Composite<()>) -> Composite<()> {
    match c {
        Composite::Named(v) => Composite::Named(v.into_iter().map(|(n, v)| (n, norm(v))).collect()),
        Composite::Unnamed(v) => Composite::Unnamed(v.into_iter().map(norm).collect()),
    }
}
fn judge(got: Value<()>, want: Value<()>, t: T, exprs: usize, text: Option<&str>) -> Result<(), String> {
    if got != want || format!("{got:?}") != format!("{want:?}") {
        return Err(format!("expands to {got:?}, not {want:?}"));
    }
    let log = t.log.into_inner();
    if log != (0..exprs).collect::<Vec<_>>() {
        return Err(format!("the {exprs} embedded expressions were evaluated in this order: {log:?}"));
    }
    if let Some(text) = text {
        match scale_value::stringify::from_str(text) {
            (Ok(v), "") if v == norm(got.clone()) => {}
            o => return Err(format!("expands to {got:?}, but the text {text:?} parses to {o:?}")),
        }
    }
    Ok(())
}
fn run(i: u64, f: fn() -> Result<(), String>) {
    match std::panic::catch_unwind(f) {
        Ok(Ok(())) => println!("{i} OK"),
        Ok(Err(e)) => println!("{i} FAIL {}", e.replace('\n', "\\n")),
        Err(_) => println!("{i} FAIL panicked"),
    }
}
"##;

const CARGO: &str = r#"[package]
name = "macrolits"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
scale-value = { path = "/repo" }
[profile.dev]
opt-level = 0
debug = false
incremental = false
"#;

/// Builds the crate; gives per binary whether it was built, and the lines with errors.
struct Built {
    built: BTreeMap<String, std::path::PathBuf>,
    errors: BTreeMap<String, BTreeMap<u64, String>>,
    elsewhere: Vec<String>,
}

fn build(dir: &std::path::Path, check: bool) -> Result<Built, String> {
    let target = std::env::var("CARGO_TARGET_DIR").map(Into::into).unwrap_or_else(|_| root().join("target"));
    let target: std::path::PathBuf = target;
    let mut cmd = std::process::Command::new("cargo");
    cmd.current_dir(dir)
        .args([if check { "check" } else { "build" }, "--offline", "--keep-going", "--bins", "--message-format=json"])
        .env("CARGO_TARGET_DIR", target.join("macrolits"))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .stdin(std::process::Stdio::null())
        .stderr(std::fs::File::create(dir.join("stderr")).map_err(|e| e.to_string())?);
    let out = cmd.output().map_err(|e| format!("cargo: {e}"))?;
    let mut b = Built { built: BTreeMap::new(), errors: BTreeMap::new(), elsewhere: vec![] };
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(m) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        let name = m["target"]["name"].as_str().unwrap_or("").to_string();
        match m["reason"].as_str() {
            Some("compiler-artifact") => {
                if let Some(e) = m["executable"].as_str() {
                    b.built.insert(name, e.into());
                }
            }
            Some("compiler-message") if m["message"]["level"] == "error" => {
                let msg = m["message"]["message"].as_str().unwrap_or("").to_string();
                let rendered = m["message"]["rendered"].as_str().unwrap_or("").to_string();
                let mut at = None;
                for s in m["message"]["spans"].as_array().into_iter().flatten() {
                    let mut s = s;
                    while s["expansion"].is_object() {
                        s = &s["expansion"]["span"];
                    }
                    let file = s["file_name"].as_str().unwrap_or("");
                    if file.starts_with("src/bin/") {
                        at = s["line_start"].as_u64();
                        if at.is_some() {
                            break;
                        }
                    }
                }
                match at {
                    Some(l) => {
                        b.errors.entry(name).or_default().entry(l).or_insert(format!("{msg}\n{}", trunc(&rendered, 600)));
                    }
                    None if msg.starts_with("aborting due to") || msg.starts_with("could not compile") => {}
                    None => b.elsewhere.push(trunc(&rendered, 600)),
                }
            }
            _ => {}
        }
    }
    if !out.status.success() && b.errors.is_empty() && b.elsewhere.is_empty() {
        b.elsewhere.push(std::fs::read_to_string(dir.join("stderr")).unwrap_or_default());
    }
    Ok(b)
}

fn setup(dir: &std::path::Path) -> std::io::Result<()> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("src/bin"))?;
    std::fs::write(dir.join("Cargo.toml"), CARGO)?;
    // the harness' lock file: the same versions of everything
    std::fs::copy(concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.lock"), dir.join("Cargo.lock"))?;
    Ok(())
}

/// cases -> verdicts
fn literals(ctx: &mut Ctx, which: &[u64], verdicts: &mut BTreeMap<u64, Result<(), String>>) -> Result<(), String> {
    const BATCH: usize = 150;
    let dir = root().join("work/C23/good");
    setup(&dir).map_err(|e| format!("{e}"))?;
    let mut lines: BTreeMap<String, BTreeMap<u64, u64>> = BTreeMap::new();
    for (b, chunk) in which.chunks(BATCH).enumerate() {
        let name = format!("b{b}");
        let mut src = PRELUDE.to_string();
        let mut at = src.lines().count() as u64;
        for &i in chunk {
            let l = literal(ctx.seed, i);
            let (o, c) = [("(", ")"), ("{", "}"), ("[", "]")][(i % 3) as usize];
            let parse = match &l.parse {
                Some(p) => format!("Some({p:?})"),
                None => "None".into(),
            };
            let mut s = format!("fn c{i}() -> Result<(), String> {{\nlet t = T {{ log: RefCell::new(vec![]) }}; let (s, sr, n, n2, flag) = (\"owned\".to_string(), \"borrowed\", 200u8, 5i8, true); let val = N(vec![(\"in\".to_string(), P(U128(1)))]); let comp: Composite<()> = Composite::Unnamed(vec![P(Char('c'))]); let vari: Variant<()> = Variant {{ name: \"Va\".to_string(), values: Composite::Unnamed(vec![]) }}; let bits = {{ let mut b = BitSequence::new(); b.push(true); b.push(false); b.push(true); b }}; let (fields, field_name, variant_name, token, arr, pair, big) = (11u8, 12u8, 13u8, 14u8, [7u8, 9], (1u8, 8u8), P(U256([255u8; 32])));\n");
            let _ = write!(s, "let got: Value<()> = value!{o}{}{c};\n", l.text);
            let _ = write!(s, "judge(got, {}, t, {}, {parse})\n}}\n", l.want.replace("P(String(", "P(Str("), l.exprs);
            // the function's third line is the literal
            lines.entry(name.clone()).or_default().insert(at + 3, i);
            at += s.lines().count() as u64;
            src += &s;
        }
        src += "fn main() {\nstd::panic::set_hook(Box::new(|_| {}));\n";
        for &i in chunk {
            let _ = write!(src, "run({i}, c{i});\n");
        }
        src += "}\n";
        std::fs::write(dir.join(format!("src/bin/{name}.rs")), src).map_err(|e| e.to_string())?;
    }
    let b = build(&dir, false)?;
    for (bin, errs) in &b.errors {
        for (line, msg) in errs {
            match lines.get(bin).and_then(|l| l.get(line)) {
                Some(i) => {
                    verdicts.insert(*i, Err(format!("does not compile: {msg}")));
                }
                None => ctx.errors.push(format!("{bin}:{line}: {msg}")),
            }
        }
    }
    ctx.errors.extend(b.elsewhere);
    for exe in b.built.values() {
        let out = std::process::Command::new(exe).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
        let mut n = 0;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Some((i, rest)) = l.split_once(' ') else { continue };
            let Ok(i) = i.parse::<u64>() else { continue };
            n += 1;
            verdicts.insert(i, if rest == "OK" { Ok(()) } else { Err(rest.trim_start_matches("FAIL ").to_string()) });
        }
        if !out.status.success() {
            ctx.errors.push(format!("{} ended with {} after {n} cases", exe.display(), out.status));
        }
    }
    Ok(())
}

fn refused(ctx: &mut Ctx, which: &[u64], verdicts: &mut BTreeMap<u64, Result<(), String>>, again: bool) -> Result<(), String> {
    let dir = root().join("work/C23/bad");
    setup(&dir).map_err(|e| format!("{e}"))?;
    let mut src = PRELUDE.to_string();
    let at = src.lines().count() as u64;
    let mut lines = BTreeMap::new();
    for (k, &i) in which.iter().enumerate() {
        let _ = write!(src, "fn c{i}() {{ let got: Value<()> = value!({}); }}\n", bad_literal(ctx.seed, i));
        lines.insert(at + 1 + k as u64, i);
    }
    src += "fn main() {}\n";
    std::fs::write(dir.join("src/bin/bad.rs"), src).map_err(|e| e.to_string())?;
    let b = build(&dir, true)?;
    ctx.errors.extend(b.elsewhere);
    let errs: BTreeSet<u64> = b.errors.get("bad").into_iter().flat_map(|e| e.keys().copied()).collect();
    for (line, i) in lines {
        verdicts.insert(i, if errs.contains(&line) { Ok(()) } else { Err("the compiler accepts it".to_string()) });
    }
    // errors of a later pass of the compiler do not show beside those of an earlier one
    let left: Vec<u64> = which.iter().copied().filter(|i| verdicts[i].is_err()).collect();
    if !left.is_empty() && again {
        return refused(ctx, &left, verdicts, false);
    }
    Ok(())
}

fn c23(ctx: &mut Ctx) {
    let n = ctx.n(5_000, 8);
    let which = |ctx: &Ctx, name: &str, n: u64| -> Vec<u64> {
        match &ctx.only {
            Some((s, i)) if s == name => vec![*i],
            Some(_) => vec![],
            None => (0..n).collect(),
        }
    };
    let mut verdicts = BTreeMap::new();
    let w = which(ctx, "literals", n);
    if !w.is_empty() {
        if let Err(e) = literals(ctx, &w, &mut verdicts) {
            ctx.errors.push(e);
        }
    }
    let failed: Vec<u64> = verdicts.iter().filter(|(_, v)| v.is_err()).map(|(i, _)| *i).collect();
    if !ctx.errors.is_empty() && failed.is_empty() {
        return;
    }
    ctx.section("literals", n, |c| {
        let l = literal(ctx_seed(), c.index);
        c.desc = format!("value!({})", l.text);
        match verdicts.get(&c.index) {
            // its binary was not built, because of another case
            None => {
                c.skipped = true;
                return Ok(());
            }
            Some(Err(e)) => return Err(Fail::from(format!("value!({}) {e}", l.text))),
            Some(Ok(())) => {}
        }
        if l.nodes > 1 {
            c.nontrivial(&c.desc.clone());
        }
        c.count("values", l.nodes as u64);
        c.count("expressions", l.exprs as u64);
        c.count("named_fields", l.named as u64);
        c.count("variants", l.variants as u64);
        c.count("quoted_names", l.quoted as u64);
        c.count("parsed_too", l.parse.is_some() as u64);
        Ok(())
    });
    let m = ctx.n(340, 10);
    let mut verdicts = BTreeMap::new();
    let w = which(ctx, "refused", m);
    if !w.is_empty() {
        if let Err(e) = refused(ctx, &w, &mut verdicts, true) {
            ctx.errors.push(e);
        }
    }
    if !ctx.errors.is_empty() && failed.is_empty() {
        return;
    }
    ctx.section("refused", m, |c| {
        let t = bad_literal(ctx_seed(), c.index);
        c.desc = format!("value!({t})");
        c.nontrivial(&t);
        match verdicts.get(&c.index) {
            None => c.skipped = true,
            Some(Err(e)) => return Err(Fail::from(format!("value!({t}) is outside the syntax, but {e}"))),
            Some(Ok(())) => c.count("refused", 1),
        }
        Ok(())
    });
    ctx.require("literals.values", 3_000);
    ctx.require("literals.expressions", 100);
    ctx.require("literals.quoted_names", 100);
    ctx.require("literals.parsed_too", 50);
    ctx.require("refused.refused", 300);
}

fn ctx_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
