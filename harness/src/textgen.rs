//! Generators of texts.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::refwriter::{RefWriter, Style};
use crate::rng::Rng;
use crate::vgen::*;
use scale_value::{Composite, Primitive, Value, ValueDef};

pub fn gen_ws(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(&[' ', ' ', '\t', '\n', '\r', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{2028}', '\u{b}', '\u{c}'])).collect()
}

pub fn soup(r: &mut Rng, max: usize) -> String {
    let toks = [
        "{", "}", "(", ")", "<", ">", ",", ":", "\"", "'", "\\", "\"a\"", "'a'", "'\\n'", "\"\\\"\"", "'\\''", "''", "\"\"", "true", "false", "tru", "1", "0", "-1", "+1", "12_3", "_", "-", "+", "<01>", "<>", "<012>", "a", "Foo", "v\"x y\"", "v", "v\"", "é", "日本", "a1_", "x:1", "a: 1", ": ", ", ", " ", "\n", "\u{a0}", "()", "{}", "Foo()", "Foo {}", "0x01", "-(", "--1", "1.5", "1e3", "٣", "²", "\u{301}", "\0", "//", "#", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    ];
    let n = r.below(max) + 1;
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(toks[r.below(toks.len())]);
        if r.chance(1, 4) {
            s.push_str(&gen_ws(r, 2));
        }
    }
    s
}

/// Text written by hand, so to speak: arbitrary spacing, number forms and escapes.
pub fn loose(v: &Value<()>, r: &mut Rng, o: &mut String) {
    fn q(s: &str, r: &mut Rng, o: &mut String) {
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\'' if r.bool() => o.push_str("\\'"),
                '\n' if r.bool() => o.push_str("\\n"),
                '\t' if r.bool() => o.push_str("\\t"),
                '\r' if r.bool() => o.push_str("\\r"),
                '\0' if r.bool() => o.push_str("\\0"),
                c => o.push(c),
            }
        }
        o.push('"');
    }
    fn digits(n: u128, r: &mut Rng, o: &mut String) {
        if r.chance(1, 6) {
            o.push_str(*r.pick(&["0", "00", "0_", "0_0__"]));
        }
        for (k, c) in n.to_string().chars().enumerate() {
            if k > 0 && r.chance(1, 6) {
                o.push_str(*r.pick(&["_", "__"]));
            }
            o.push(c);
        }
        if r.chance(1, 10) {
            o.push('_');
        }
    }
    fn comp(c: &Composite<()>, r: &mut Rng, o: &mut String) {
        let (open, close) = if matches!(c, Composite::Named(_)) { ('{', '}') } else { ('(', ')') };
        o.push(open);
        o.push_str(&gen_ws(r, 2));
        let n = c.len();
        let names: Vec<Option<&String>> = match c {
            Composite::Named(f) => f.iter().map(|f| Some(&f.0)).collect(),
            Composite::Unnamed(f) => f.iter().map(|_| None).collect(),
        };
        for (k, (name, x)) in names.into_iter().zip(c.values()).enumerate() {
            if let Some(name) = name {
                if crate::refwriter::is_ident(name) && r.chance(3, 4) {
                    o.push_str(name);
                } else {
                    q(name, r, o);
                }
                o.push_str(&gen_ws(r, 2));
                o.push(':');
                o.push_str(&gen_ws(r, 2));
            }
            loose(x, r, o);
            o.push_str(&gen_ws(r, 2));
            if k + 1 < n {
                o.push(',');
                o.push_str(&gen_ws(r, 2));
            }
        }
        o.push(close);
    }
    match &v.value {
        ValueDef::Composite(c) => comp(c, r, o),
        ValueDef::Variant(x) => {
            if crate::refwriter::is_ident(&x.name) && r.chance(3, 4) {
                o.push_str(&x.name);
            } else {
                o.push('v');
                q(&x.name, r, o);
            }
            o.push_str(&gen_ws(r, 2));
            comp(&x.values, r, o)
        }
        ValueDef::Primitive(Primitive::String(s)) => q(s, r, o),
        ValueDef::Primitive(Primitive::U128(n)) => {
            if r.chance(1, 6) {
                o.push('+');
            }
            digits(*n, r, o)
        }
        ValueDef::Primitive(Primitive::I128(n)) => {
            o.push('-');
            digits(n.unsigned_abs(), r, o)
        }
        d => o.push_str(&RefWriter::<()>::new(Style::Normal).text_def(d).unwrap()),
    }
}

pub fn mutate_text(s: &mut String, r: &mut Rng) {
    let mut cs: Vec<char> = s.chars().collect();
    let at = r.below(cs.len() + 1);
    match r.below(7) {
        0 if !cs.is_empty() => {
            cs.remove(at.min(cs.len() - 1));
        }
        1 => cs.insert(at, gen_char(r)),
        2 => cs.insert(at, *r.pick(&['{', '}', '(', ')', '<', '>', ',', ':', '"', '\'', '\\', '_', '-', '+', '0', '9', 'v', 't', ' '])),
        3 if !cs.is_empty() => {
            let k = at.min(cs.len() - 1);
            cs[k] = gen_char(r);
        }
        4 => cs.truncate(at),
        5 if cs.len() > 1 => {
            let k = r.below(cs.len() - 1);
            cs.swap(k, k + 1);
        }
        _ => {
            let t: Vec<char> = soup(r, 2).chars().collect();
            cs.splice(at..at, t);
        }
    }
    *s = cs.into_iter().collect();
}

