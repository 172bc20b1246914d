//! Generators of strings, characters and arbitrary values.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::model::mk_bits;
use crate::rng::Rng;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=3 => (b' ' + r.below(95) as u8) as char,
        4 => *r.pick(&['\n', '\t', '"', '\'', '\r', '\\', '\0', 'v', '0', 'n']),
        5 => char::from_u32(r.below(128) as u32).unwrap(),
        6 => *r.pick(&[
            'é',
            'ß',
            'λ',
            '日',
            '本',
            '🎉',
            '\u{200d}',
            '\u{301}',
            '\u{feff}',
            '\u{7f}',
            '\u{80}',
            '\u{a0}',
            '\u{2028}',
            '²',
            '½',
            '٣',
            'Ⅷ',
            'ª',
            '\u{10ffff}',
            '\u{d7ff}',
            '\u{e000}',
            '\u{fffd}',
        ]),
        _ => loop {
            let hi = *r.pick(&[0x250u32, 0x3000, 0x10000, 0x110000]);
            if let Some(c) = char::from_u32(r.below(hi as usize) as u32) {
                break c;
            }
        },
    }
}

pub fn gen_string(r: &mut Rng, max: usize) -> String {
    match r.below(13) {
        12 => crate::dict::string(r),
        0 => String::new(),
        1 => (*r.pick(&[
            "true",
            "false",
            "0x",
            "0x0g",
            "1_000",
            "-1",
            "v\"a\"",
            "<01>",
            "{a:1}",
            "(",
            "\\",
            "\\\"",
            "'",
            "//",
            "null",
            "__bitvec__values__",
            "__bitvec__values__ ",
        ]))
        .to_string(),
        _ => {
            let n = r.below(max + 1);
            (0..n).map(|_| gen_char(r)).collect()
        }
    }
}

/// An identifier by the crate's rules (letter, then letters/digits/underscores; Unicode).
pub fn gen_ident(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return (*r.pick(&[
            "a", "b", "foo", "bar", "Foo", "Bar", "hello", "names", "values", "name", "x1", "y_2",
            "z__9", "é", "日本", "λx", "v", "n", "V", "truth", "trueish", "falsey", "true",
            "false", "True", "t", "f", "tru", "fals", "true_", "false1", "e0x", "Some", "Ok", "x0",
            "deadbeef", "hex0x12",
        ]))
        .to_string();
    }
    if r.chance(1, 4) {
        let s = crate::dict::string(r);
        if s.starts_with(char::is_alphabetic) && s.chars().all(|c| c.is_alphanumeric() || c == '_') {
            return s;
        }
    }
    let mut s = String::new();
    while s.is_empty() {
        let c = gen_char(r);
        if c.is_alphabetic() {
            s.push(c)
        }
    }
    for _ in 0..r.below(6) {
        let c = if r.chance(1, 4) { '_' } else { gen_char(r) };
        if c.is_alphanumeric() || c == '_' {
            s.push(c)
        }
    }
    s
}

pub fn gen_name(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        gen_ident(r)
    } else {
        gen_string(r, 6)
    }
}

#[derive(Clone, Copy)]
pub struct VOpts {
    pub depth: usize,
    pub wide: usize,
    pub big256: bool,
    pub unique_names: bool,
}
impl Default for VOpts {
    fn default() -> Self {
        VOpts {
            depth: 4,
            wide: 4,
            big256: false,
            unique_names: false,
        }
    }
}

pub fn gen_primitive(r: &mut Rng, o: &VOpts) -> Primitive {
    match r.below(if o.big256 { 14 } else { 12 }) {
        0 | 1 => Primitive::Bool(r.bool()),
        2 | 3 => Primitive::Char(gen_char(r)),
        4 | 5 => Primitive::String(gen_string(r, 12)),
        6..=8 => {
            let b = *r.pick(&[8, 16, 32, 64, 128]);
            Primitive::U128(r.uint(b))
        }
        9..=11 => {
            let b = *r.pick(&[8, 16, 32, 64, 128]);
            Primitive::I128(r.int(b))
        }
        12 => Primitive::U256(r.bytes(32).try_into().unwrap()),
        _ => Primitive::I256(r.bytes(32).try_into().unwrap()),
    }
}

fn gen_composite<T>(
    r: &mut Rng,
    o: &VOpts,
    depth: usize,
    ctx: &mut dyn FnMut(&mut Rng) -> T,
) -> Composite<T> {
    let n = if r.chance(1, 50) {
        r.range(10, 40)
    } else {
        r.below(o.wide + 1)
    };
    if r.bool() {
        let mut xs: Vec<(String, Value<T>)> = vec![];
        for _ in 0..n {
            let mut name = gen_name(r);
            if o.unique_names {
                while xs.iter().any(|x| x.0 == name) {
                    name = format!("{}{}", gen_ident(r), r.below(1000));
                }
            }
            let v = gen_value(r, o, depth.saturating_sub(1), ctx);
            xs.push((name, v));
        }
        Composite::Named(xs)
    } else if r.chance(1, 6) {
        // byte list
        Composite::Unnamed(
            (0..n)
                .map(|_| {
                    let b = r.u64() as u8;
                    Value {
                        value: ValueDef::Primitive(Primitive::U128(b as u128)),
                        context: ctx(r),
                    }
                })
                .collect(),
        )
    } else {
        Composite::Unnamed(
            (0..n)
                .map(|_| gen_value(r, o, depth.saturating_sub(1), ctx))
                .collect(),
        )
    }
}

pub fn gen_value<T>(
    r: &mut Rng,
    o: &VOpts,
    depth: usize,
    ctx: &mut dyn FnMut(&mut Rng) -> T,
) -> Value<T> {
    let context = ctx(r);
    let k = if depth == 0 { r.below(5) } else { r.below(12) };
    let value = match k {
        0..=3 => ValueDef::Primitive(gen_primitive(r, o)),
        4 => {
            let n = r.below(20);
            let b: Vec<bool> = (0..n).map(|_| r.bool()).collect();
            ValueDef::BitSequence(mk_bits(&b))
        }
        5..=8 => ValueDef::Composite(gen_composite(r, o, depth, ctx)),
        _ => {
            let name = gen_name(r);
            ValueDef::Variant(Variant {
                name,
                values: gen_composite(r, o, depth, ctx),
            })
        }
    };
    Value { value, context }
}

pub fn value0(r: &mut Rng, o: &VOpts) -> Value<()> {
    gen_value(r, o, o.depth, &mut |_| ())
}

pub fn nodes<T>(v: &Value<T>) -> usize {
    1 + match &v.value {
        ValueDef::Composite(c) => cnodes(c),
        ValueDef::Variant(x) => cnodes(&x.values),
        _ => 0,
    }
}
fn cnodes<T>(c: &Composite<T>) -> usize {
    match c {
        Composite::Named(x) => x.iter().map(|(_, v)| nodes(v)).sum(),
        Composite::Unnamed(x) => x.iter().map(nodes).sum(),
    }
}

/// Apply `f` to every node of a value, outermost first.
pub fn walk<T>(v: &Value<T>, f: &mut dyn FnMut(&Value<T>)) {
    f(v);
    let c = match &v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &x.values,
        _ => return,
    };
    match c {
        Composite::Named(x) => x.iter().for_each(|(_, v)| walk(v, f)),
        Composite::Unnamed(x) => x.iter().for_each(|v| walk(v, f)),
    }
}

/// Rebuild a value without its contexts, by hand (not with the crate's own mapping).
pub fn strip<T>(v: &Value<T>) -> Value<()> {
    Value {
        context: (),
        value: strip_def(&v.value),
    }
}
fn strip_def<T>(v: &ValueDef<T>) -> ValueDef<()> {
    match v {
        ValueDef::Composite(c) => ValueDef::Composite(strip_c(c)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant {
            name: x.name.clone(),
            values: strip_c(&x.values),
        }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    }
}
pub fn strip_c<T>(c: &Composite<T>) -> Composite<()> {
    match c {
        Composite::Named(x) => {
            Composite::Named(x.iter().map(|(n, v)| (n.clone(), strip(v))).collect())
        }
        Composite::Unnamed(x) => Composite::Unnamed(x.iter().map(strip).collect()),
    }
}

/// A value with something long in it: a list, fields, text, bits or a name.
pub fn long_value<T>(r: &mut Rng, n: usize, ctx: &mut impl FnMut(&mut Rng) -> T) -> Value<T> {
    let o = VOpts { depth: 1, wide: 2, ..Default::default() };
    let same = r.bool();
    let mut item = |r: &mut Rng, ctx: &mut dyn FnMut(&mut Rng) -> T| {
        let depth = if same { 0 } else { r.below(2) };
        let mut v = gen_value(r, &o, depth, &mut |r| ctx(r));
        if let (0, ValueDef::Composite(Composite::Unnamed(x))) = (depth, &v.value) {
            if x.is_empty() {
                v.value = ValueDef::Primitive(Primitive::U128(r.uint(8)));
            }
        }
        v
    };
    let list = |r: &mut Rng, ctx: &mut dyn FnMut(&mut Rng) -> T, item: &mut dyn FnMut(&mut Rng, &mut dyn FnMut(&mut Rng) -> T) -> Value<T>| -> Composite<T> {
        if r.chance(2, 3) {
            Composite::Unnamed((0..n).map(|_| item(r, ctx)).collect())
        } else {
            Composite::Named((0..n).map(|k| (format!("k{k}"), item(r, ctx))).collect())
        }
    };
    let text = |r: &mut Rng| -> String {
        match r.below(3) {
            0 => "a".repeat(n),
            1 => (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
            _ => (0..n).map(|_| gen_char(r)).collect(),
        }
    };
    let value = match r.below(8) {
        0..=2 => ValueDef::Composite(list(r, ctx, &mut item)),
        3 => ValueDef::Variant(Variant { name: gen_ident(r), values: list(r, ctx, &mut item) }),
        4 => ValueDef::Primitive(Primitive::String(text(r))),
        5 => ValueDef::BitSequence(crate::model::mk_bits(&(0..n).map(|_| r.bool()).collect::<Vec<_>>())),
        6 => ValueDef::Composite(Composite::Named(vec![(text(r), item(r, ctx))])),
        _ => {
            let inner = ValueDef::Composite(list(r, ctx, &mut item));
            let inner = Value { value: inner, context: ctx(r) };
            ValueDef::Composite(Composite::Unnamed(vec![item(r, ctx), inner, item(r, ctx)]))
        }
    };
    Value { value, context: ctx(r) }
}
