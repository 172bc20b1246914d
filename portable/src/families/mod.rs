//! What the cases do.
use crate::bytesgen::mutate;
use crate::coerce::Coercer;
use crate::model::*;
use crate::prelude::*;
use crate::rng::Rng;
use crate::vgen::*;
use crate::Log;
use core::fmt::Write;
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_type_resolver::Field;
use scale_value::stringify::{self, custom_formatters::format_hex};
use scale_value::{scale, At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};

#[cfg(feature = "from-string")]
pub mod parse;
#[cfg(feature = "serde")]
pub mod serde;

macro_rules! say {
    ($log:expr, $($a:tt)*) => { let _ = writeln!($log, $($a)*); };
}
pub(crate) use say;

/// (not for lists of zero-sized items, of which damage may claim any number)
fn typed(r: &mut Rng, zst_seq: bool) -> (Reg, Id, Mv) {
    let o = TyOpts { depth: 1 + r.below(4), wide: 1 + r.below(5), wrappers: r.chance(1, 4), zst_seq };
    gen_typed(r, &o)
}

fn fields<'a>(reg: &'a Reg, id: Id) -> Option<Vec<Field<'a, u32>>> {
    match reg.ty(id) {
        Ty::Struct(fs) => Some(fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty }).collect()),
        Ty::Tuple(ids) => Some(ids.iter().map(|i| Field { name: None, id: *i }).collect()),
        _ => None,
    }
}

pub fn decode(r: &mut Rng, log: &mut Log) {
    let damage = r.chance(2, 3);
    let (reg, id, m) = typed(r, !damage);
    let mut b = reg.encode(id, &m);
    if damage {
        for _ in 0..r.range(1, 2) {
            say!(log, "{}", mutate(r, &mut b));
        }
    }
    // (scale-decode cuts such lengths to the machine's word size: a known finding of C26)
    let _ = reg.decode(id, &mut &b[..], &mut (1 << 20));
    if reg.claims.get() {
        say!(log, "claims");
        return;
    }
    let mut c = &b[..];
    match scale::decode_as_type(&mut c, id, &reg) {
        Ok(v) => {
            say!(log, "plain {v:?}");
            say!(log, "{v}");
        }
        Err(e) => {
            say!(log, "plain error {e} {e:?}");
        }
    }
    say!(log, "left {}", c.len());
    let mut c = &b[..];
    match scale::tracing::decode_as_type(&mut c, id, &reg) {
        Ok(v) => {
            say!(log, "tracing {v:?}");
        }
        Err(e) => {
            say!(log, "tracing error {e}");
        }
    }
    say!(log, "left {}", c.len());
    let ids = TidReg(&reg);
    let mut c = &b[..];
    match scale::decode_as_type(&mut c, Tid::of(id), &ids) {
        Ok(v) => {
            say!(log, "string ids {v:?}");
        }
        Err(e) => {
            say!(log, "string ids error {e}");
        }
    }
    say!(log, "left {}", c.len());
    if let Some(fs) = fields(&reg, id) {
        let mut c = &b[..];
        match scale::decode_as_fields(&mut c, &mut fs.iter().copied(), &reg) {
            Ok(v) => {
                say!(log, "fields {v:?}");
            }
            Err(e) => {
                say!(log, "fields error {e}");
            }
        }
        say!(log, "left {}", c.len());
    }
}

/// Claims of 2^32 bytes, and of text nearly as long.
pub fn claim(r: &mut Rng, log: &mut Log) {
    let mut reg = Reg::default();
    let u8_ = reg.add(Ty::Prim(PrimTy::U8));
    let seq = reg.add(Ty::Seq(u8_));
    let text = reg.add(Ty::Prim(PrimTy::Str));
    let _ = r;
    let got = match log.index {
        0 => scale::decode_as_type(&mut &[0x07, 0, 0, 0, 0, 1, 2, 3][..], seq, &reg),
        _ => scale::decode_as_type(&mut &[0x03, 0xff, 0xff, 0xff, 0xff, 1, 2, 3][..], text, &reg),
    };
    say!(log, "{got:?}");
}

/// Change one thing somewhere.
fn spoil<T: Clone>(v: &mut Value<T>, r: &mut Rng) {
    let c = match &mut v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => {
            if r.chance(1, 4) {
                x.name = gen_name(r);
                return;
            }
            &mut x.values
        }
        d => {
            *d = if r.chance(1, 8) { ValueDef::BitSequence(mk_bits(&[true, false])) } else { ValueDef::Primitive(gen_primitive(r, &VOpts { big256: true, ..Default::default() })) };
            return;
        }
    };
    let n = c.len();
    if n == 0 {
        return;
    }
    let k = r.below(n);
    match c {
        Composite::Named(x) => match r.below(6) {
            0 => {
                x.remove(k);
            }
            1 => x[k].0 = gen_name(r),
            2 => x.push(x[k].clone()),
            _ => spoil(&mut x[k].1, r),
        },
        Composite::Unnamed(x) => match r.below(6) {
            0 => {
                x.remove(k);
            }
            1 => x.push(x[k].clone()),
            _ => spoil(&mut x[k], r),
        },
    }
}

pub fn encode(r: &mut Rng, log: &mut Log) {
    let (reg, id, m) = typed(r, true);
    let v: Value<u64> = match r.below(4) {
        0 => Coercer { reg: &reg, used: Default::default() }.coerce(id, &m, r),
        1 | 2 => {
            let mut v = Coercer { reg: &reg, used: Default::default() }.coerce(id, &m, r);
            spoil(&mut v, r);
            v
        }
        _ => gen_value(r, &VOpts { big256: true, ..Default::default() }, 3, &mut |r| r.u64()),
    };
    let n = r.below(3);
    let mut out = r.bytes(n);
    match scale::encode_as_type(&v, id, &reg, &mut out) {
        Ok(()) => {
            say!(log, "encoded");
            log.bytes(&out);
        }
        Err(e) => {
            say!(log, "error {e} {e:?}");
        }
    }
    let other = r.below(reg.types.len()) as Id;
    match strip(&v).encode_as_type(Tid::of(other), &TidReg(&reg)) {
        Ok(b) => {
            say!(log, "\nto another");
            log.bytes(&b);
        }
        Err(e) => {
            say!(log, "\nto another error {e}");
        }
    }
    if let (Some(fs), ValueDef::Composite(c)) = (fields(&reg, id), &v.value) {
        let mut out = vec![];
        match c.encode_as_fields_to(&mut fs.iter().copied(), &reg, &mut out) {
            Ok(()) => {
                say!(log, "\nfields");
                log.bytes(&out);
            }
            Err(e) => {
                say!(log, "\nfields error {e}");
            }
        }
    }
}

pub fn write(r: &mut Rng, log: &mut Log) {
    let o = VOpts { depth: 1 + r.below(4), big256: r.chance(1, 6), ..Default::default() };
    let v: Value<u64> = gen_value(r, &o, o.depth, &mut |r| r.u64());
    let s = strip(&v);
    say!(log, "{v:?}\n{s:?}\n{s:#?}");
    // (256 bit numbers can't be written)
    let ok = write!(log, "{v}");
    say!(log, "\n{ok:?}");
    let ok = write!(log, "{v:#}");
    say!(log, "\n{ok:?}");
    if ok.is_ok() {
        say!(log, "{} {s:#}", stringify::to_string(&s));
    }
    let ok = stringify::to_writer(&v, &mut *log);
    say!(log, "\n{ok:?}");
    let (style, indent, leading, hex, ctx) = (r.below(3), crate::textgen::gen_ws(r, 4), crate::textgen::gen_ws(r, 4), r.bool(), r.bool());
    let mut text = String::new();
    let mut b = stringify::to_writer_custom::<u64, &mut String>().indent_by(indent).leading_indent(leading);
    if hex {
        b = b.add_custom_formatter(|v, w| format_hex(v, w));
    }
    if ctx {
        b = b.format_context(|c, w| write!(w, "<{c}>"));
    }
    b = match style {
        0 => b.compact(),
        1 => b.pretty(),
        _ => b,
    };
    let ok = b.write(&v, &mut text);
    drop(b);
    say!(log, "{ok:?} {text}");
    let k = r.below(40);
    let bytes = Value::from_bytes(r.bytes(k));
    let mut text = String::new();
    let ok = format_hex(&bytes, &mut text);
    say!(log, "{ok:?} {text}");
    match &v.value {
        ValueDef::Composite(c) => {
            say!(log, "{c:?}");
        }
        ValueDef::Variant(c) => {
            say!(log, "{c:?}");
        }
        d => {
            say!(log, "{d:?}");
            say!(log, "{d}");
        }
    }
}

pub fn lookup(r: &mut Rng, log: &mut Log) {
    let o = VOpts { depth: 2 + r.below(3), big256: r.chance(1, 6), ..Default::default() };
    let v: Value<u64> = gen_value(r, &o, o.depth, &mut |r| r.u64());
    let mut names: Vec<String> = vec!["a".into(), "foo".into()];
    walk(&v, &mut |v| {
        let c = match &v.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(x) => &x.values,
            _ => return,
        };
        if let Composite::Named(x) = c {
            names.extend(x.iter().map(|x| x.0.clone()));
        }
    });
    for _ in 0..4 {
        let mut at = Some(&v);
        for _ in 0..r.range(1, 3) {
            let Some(v) = at else { break };
            at = match r.below(3) {
                0 => v.at(&names[r.below(names.len())]),
                1 => v.at(names[r.below(names.len())].as_str()),
                _ => v.at(*r.pick(&[0usize, 1, 2, 3, 9, usize::MAX, 1 << 16])),
            };
        }
        say!(log, "{at:?} {:?}", v.at(&names[r.below(names.len())]).at(r.below(2)).at("a"));
    }
    walk(&v, &mut |v| {
        say!(log, "{:?} {:?} {:?} {:?} {:?}", v.as_bool(), v.as_char(), v.as_u128(), v.as_i128(), v.as_str());
        match &v.value {
            ValueDef::Composite(c) => {
                say!(log, "{} {} {:?}", c.len(), c.is_empty(), c.values().len());
            }
            ValueDef::Variant(c) => {
                say!(log, "{} {}", c.name, c.values.len());
            }
            _ => {}
        }
    });
    let n = core::cell::Cell::new(0u64);
    let mapped = v.clone().map_context(|c| {
        n.set(n.get() + 1);
        format!("{} {c}", n.get())
    });
    say!(log, "{mapped:?} {}", n.get());
    say!(log, "{:?} {}", v.clone().remove_context(), v.clone().remove_context() == strip(&v));
    let (a, b) = (r.uint(64), r.int(64));
    let c = gen_char(r);
    let s = gen_string(r, 8);
    let vs: Vec<Value<()>> = vec![
        (a as u8).into(),
        (a as u16).into(),
        (a as u32).into(),
        (a as u64).into(),
        (a as u32 as usize).into(),
        a.into(),
        (b as i8).into(),
        (b as i16).into(),
        (b as i32).into(),
        (b as i64).into(),
        (b as i32 as isize).into(),
        b.into(),
        c.into(),
        s.as_str().into(),
        s.clone().into(),
        r.bool().into(),
        BitSequence::from_iter([r.bool(), r.bool(), true]).into(),
        vec![a, 1].into(),
        vec![(s.clone(), b)].into(),
        Value::named_variant(s.clone(), [("x", Value::char(c))]),
        Value::unnamed_variant(s.clone(), [Value::u128(a)]),
        Value::named_composite([(s.clone(), Value::i128(b))]),
        Value::unnamed_composite([Value::bool(true), Value::string(s.clone())]),
        Value::variant("V", Composite::from(vec![a as u8])),
        Value::primitive(Primitive::from(c)),
        Value::from(Variant::named_fields("x", [("y", Value::u128(1))])),
        Value::from(Variant::unnamed_fields("x", [Value::u128(1)])),
        scale_value::value!({ a: a, "b c": (1, -2i8, s.clone()), V: Some { x: c } }),
        scale_value::value!((1, 'c', "x", None(), { d: true })),
    ];
    for v in &vs {
        say!(log, "{v:?} {}", vs.iter().filter(|w| *w == v).count());
    }
    for v in vs {
        if let ValueDef::Composite(c) = v.value {
            let k = c.len();
            let it = c.into_values();
            say!(log, "{k} {} {:?}", it.len(), it.collect::<Vec<_>>());
        }
    }
}

/// What is nested deep, or long: everything that can be done with it, several times over.
pub fn big(r: &mut Rng, log: &mut Log) {
    let deep = r.bool();
    let mut reg = Reg::default();
    let leaf = reg.add(Ty::Prim(*r.pick(&[PrimTy::U8, PrimTy::U64, PrimTy::Bool, PrimTy::Char])));
    let mut budget = 10;
    let m;
    let id;
    if deep {
        // a list of lists
        let n = *r.pick(&[50, 100, 200, 400, 800, 1500]) + r.below(60);
        id = reg.add(Ty::Enum(vec![]));
        let inner = match r.below(3) {
            0 => id,
            1 => reg.add(Ty::Seq(id)),
            _ => reg.add(Ty::Tuple(vec![id, leaf])),
        };
        let named = r.bool();
        let name = |n: &str| named.then(|| n.to_string());
        reg.types[id as usize] = Ty::Enum(vec![
            V { name: "Nil".into(), index: 0, fields: vec![] },
            V { name: "Cons".into(), index: 1, fields: vec![F { name: name("head"), ty: leaf }, F { name: name("tail"), ty: inner }] },
        ]);
        let mut x = Mv::Var(0, vec![]);
        for _ in 0..n {
            let head = gen_mv(&reg, r, leaf, &mut budget);
            x = match reg.ty(inner) {
                Ty::Seq(_) => Mv::List(vec![x]),
                Ty::Tuple(_) => Mv::List(vec![x, gen_mv(&reg, r, leaf, &mut budget)]),
                _ => x,
            };
            x = Mv::Var(1, vec![head, x]);
        }
        m = x;
    } else {
        let n = r.long(20_000);
        let item = if r.bool() { leaf } else { reg.add(Ty::Struct(vec![F { name: Some("a".into()), ty: leaf }, F { name: Some("b".into()), ty: leaf }])) };
        id = reg.add(Ty::Seq(item));
        m = Mv::List((0..n).map(|_| gen_mv(&reg, r, item, &mut budget)).collect());
    }
    let b = reg.encode(id, &m);
    let v = match scale::decode_as_type(&mut &b[..], id, &reg) {
        Ok(v) => v,
        Err(e) => {
            say!(log, "error {e}");
            return;
        }
    };
    for round in 0..3 {
        say!(log, "{round}: {v}");
        if !deep {
            say!(log, "{v:#}");
        }
        // (which takes quadratic time, as each level has its own path)
        if !deep || b.len() < 1500 {
            match scale::tracing::decode_as_type(&mut &b[..], id, &reg) {
            Ok(w) => {
                say!(log, "tracing {}", w.remove_context() == strip(&v));
            }
            Err(e) => {
                say!(log, "tracing error {e}");
            }
            }
        }
        let mut o = vec![];
        match scale::encode_as_type(&v, id, &reg, &mut o) {
            Ok(()) => {
                say!(log, "encoded {}", o == b);
            }
            Err(e) => {
                say!(log, "error {e}");
            }
        }
        // and what ends too soon
        let cut = &mut &b[..b.len() - b.len() / 8 - 1];
        if !deep {
            say!(log, "cut {:?}", scale::decode_as_type(cut, id, &reg).map_err(|e| e.to_string()));
        }
        #[cfg(feature = "from-string")]
        {
            let s = v.to_string();
            let (p, rest) = stringify::from_str(&s);
            match p {
                Ok(p) => {
                    say!(log, "parsed {} {rest:?}", p == strip(&v));
                }
                Err(e) => {
                    say!(log, "parse error {e}");
                }
            }
            let (p, rest) = stringify::from_str(&s[..s.len() - 1]);
            say!(log, "cut {:?} {}", p.map_err(|e| e.to_string()).is_ok(), rest.len());
        }
        #[cfg(feature = "serde")]
        {
            use ::serde::Deserialize;
            match scale_value::serde::to_value(strip(&v)) {
                Ok(w) => {
                    say!(log, "serialized {w}");
                    match Value::<()>::deserialize(w) {
                        Ok(u) => {
                            say!(log, "deserialized {u}");
                        }
                        Err(e) => {
                            say!(log, "error {e}");
                        }
                    }
                }
                Err(e) => {
                    say!(log, "error {e}");
                }
            }
        }
    }
}
