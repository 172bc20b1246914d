//! C03 coercions, C04 nothing misrepresented, C05 append-only, C06 bounded work.
use super::decode::{deep_case, hex, long_case, u256_case};
use crate::coerce::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::vgen::*;
use crate::Check;
use scale_encode::EncodeAsType;
use scale_value::{scale, Composite, Primitive, Value, ValueDef, Variant};

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            run: c03,
            rule: "a case is (type, value of it written with random coercions and contexts); the encoding is compared with the model's. Non-trivial: at least one coercion was applied; distinct by type description + value",
            mem: false,
            term: false,
        },
        Check {
            id: "C04",
            run: c04,
            rule: "a case is (type, value that may or may not fit); a successful encode is decoded by the model and its leaves compared with the value's; values known not to fit must be refused. Non-trivial: the encode succeeded for a value that is not exactly what decoding gives, or was refused as expected; distinct by type + value",
            mem: false,
            term: false,
        },
        Check {
            id: "C05",
            run: c05,
            rule: "a case is (type, value, prefix of the buffer); the buffer is compared before and after. Non-trivial: the prefix is not empty and the value a composite; distinct by type + value",
            mem: false,
            term: false,
        },
        Check {
            id: "C06",
            run: c06,
            rule: "a case is (nesting on the value's side, on the type's side, base, matching or not); resolver calls and allocations are counted against a polynomial bound. Non-trivial: combined nesting of at least 6; distinct by nesting, wrappers, base",
            mem: false,
            term: true,
        },
    ]
}

// ------------------------------------------------------------------------------ coercions

fn c03_case(c: &mut Case, reg: &Reg, id: Id, m: &Mv) -> Res {
    let want = reg.encode(id, m);
    let mut co = Coercer { reg, used: Default::default() };
    let value = co.coerce(id, m, &mut c.r);
    c.desc = format!("type {} value {:?}", reg.describe(id), strip(&value));
    for (k, n) in &co.used {
        c.count(k, *n);
    }
    if !co.used.is_empty() {
        c.nontrivial(&c.desc.clone());
    }
    let pr = reg.portable();
    for which in 0..3 {
        let mut out = vec![];
        let r = no_panic("encode", || match which {
            0 => scale::encode_as_type(&value, id, reg, &mut out),
            1 => strip(&value).encode_as_type_to(id, reg, &mut out),
            _ => value.encode_as_type_to(id, &pr, &mut out),
        })?;
        if let Err(e) = r {
            return Err(format!("refused a value that fits ({}): {e}", ["with contexts", "without contexts", "portable registry"][which]).into());
        }
        ensure!(out == want, "encoded as {} instead of {} ({})", hex(&out), hex(&want), ["with contexts", "without contexts", "portable registry"][which]);
    }
    Ok(())
}

fn c03(ctx: &mut Ctx) {
    let n = ctx.n(120_000, 40);
    ctx.section("typed", n, |c| {
        let o = TyOpts { depth: 1 + c.r.below(5), ..Default::default() };
        let (reg, id, m) = gen_typed(&mut c.r, &o);
        c03_case(c, &reg, id, &m)
    });
    let n = ctx.n(100_000, 40);
    ctx.section("wrappers", n, |c| {
        let o = TyOpts { depth: 2 + c.r.below(4), wide: 2 + c.r.below(2), wrappers: true, ..Default::default() };
        let (reg, id, m) = gen_typed(&mut c.r, &o);
        c03_case(c, &reg, id, &m)
    });
    let n = ctx.n(40_000, 40);
    ctx.section("rust", n, |c| {
        let m = super::rust_types::any_made(&mut c.r);
        let x = m.reg.decode(m.id, &mut &m.bytes[..], &mut (1 << 20)).expect("model decodes");
        c03_case(c, &m.reg, m.id, &x)
    });
    let n = ctx.n(3000, 40);
    ctx.section("bits256", n, |c| {
        let (reg, id, m) = u256_case(&mut c.r);
        c03_case(c, &reg, id, &m)
    });
    let n = ctx.n(600, 40);
    ctx.section("long", n, |c| {
        let (reg, id, m) = long_case(&mut c.r);
        c03_case(c, &reg, id, &m)
    });
    let n = ctx.n(600, 40);
    ctx.section("deep", n, |c| {
        let (reg, id, m) = deep_case(&mut c.r);
        c03_case(c, &reg, id, &m)
    });
    for k in ["fields reordered", "unused fields", "unnamed for named", "named for unnamed", "wrappers missing", "wrappers added", "signed as unsigned", "unsigned as signed", "list of booleans and 0/1 as bits", "named list"] {
        ctx.require(&format!("typed.{k}"), 500);
    }
}

// ------------------------------------------------------------------------------ C04

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Bool(bool),
    Num(i128, u128), // negative part, or the number itself
    Char(char),
    Str(String),
    Bit(bool),
    B256([u8; 32]),
    Var(String),
}

fn num_i(n: i128) -> Tok {
    if n < 0 { Tok::Num(n, 0) } else { Tok::Num(0, n as u128) }
}

fn value_toks<T>(v: &Value<T>, o: &mut Vec<Tok>, named: &mut bool) {
    match &v.value {
        ValueDef::Primitive(p) => o.push(match p {
            Primitive::Bool(b) => Tok::Bool(*b),
            Primitive::Char(b) => Tok::Char(*b),
            Primitive::String(b) => Tok::Str(b.clone()),
            Primitive::U128(n) => Tok::Num(0, *n),
            Primitive::I128(n) => num_i(*n),
            Primitive::U256(b) | Primitive::I256(b) => Tok::B256(*b),
        }),
        ValueDef::BitSequence(b) => o.extend(unbits(b).into_iter().map(Tok::Bit)),
        ValueDef::Variant(x) => {
            o.push(Tok::Var(x.name.clone()));
            composite_toks(&x.values, o, named)
        }
        ValueDef::Composite(c) => composite_toks(c, o, named),
    }
}
fn composite_toks<T>(c: &Composite<T>, o: &mut Vec<Tok>, named: &mut bool) {
    match c {
        Composite::Named(x) => {
            *named = true;
            x.iter().for_each(|x| value_toks(&x.1, o, named))
        }
        Composite::Unnamed(x) => x.iter().for_each(|x| value_toks(x, o, named)),
    }
}
fn mv_toks(reg: &Reg, id: Id, m: &Mv, o: &mut Vec<Tok>) {
    match (reg.ty(id), m) {
        (Ty::Compact(i), m) => mv_toks(reg, *i, m, o),
        (_, Mv::Bool(b)) => o.push(Tok::Bool(*b)),
        (_, Mv::Char(b)) => o.push(Tok::Char(*b)),
        (_, Mv::Str(b)) => o.push(Tok::Str(b.clone())),
        (_, Mv::U(n)) => o.push(Tok::Num(0, *n)),
        (_, Mv::I(n)) => o.push(num_i(*n)),
        (_, Mv::B256(n)) => o.push(Tok::B256(*n)),
        (_, Mv::Bits(b)) => o.extend(b.iter().map(|b| Tok::Bit(*b))),
        (Ty::Seq(i) | Ty::Array(i, _), Mv::List(xs)) => xs.iter().for_each(|x| mv_toks(reg, *i, x, o)),
        (Ty::Tuple(ids), Mv::List(xs)) => ids.iter().zip(xs).for_each(|(i, x)| mv_toks(reg, *i, x, o)),
        (Ty::Struct(fs), Mv::List(xs)) => fs.iter().zip(xs).for_each(|(f, x)| mv_toks(reg, f.ty, x, o)),
        (Ty::Enum(vs), Mv::Var(k, xs)) => {
            o.push(Tok::Var(vs[*k].name.clone()));
            vs[*k].fields.iter().zip(xs).for_each(|(f, x)| mv_toks(reg, f.ty, x, o))
        }
        (t, m) => panic!("{t:?} {m:?}"),
    }
}

/// May the leaf of the value become this leaf of the encoding?
fn fits(src: &Tok, dst: &Tok) -> bool {
    match (src, dst) {
        (a, b) if a == b => true,
        (Tok::Char(c), Tok::Num(0, n)) => *c as u128 == *n,
        (Tok::Bool(b), Tok::Bit(x)) => b == x,
        (Tok::Num(0, n), Tok::Bit(x)) => *n == *x as u128,
        _ => false,
    }
}

fn judge_leaves(src: Vec<Tok>, dst: Vec<Tok>, named: bool) -> Result<(), String> {
    // a 256-bit number may become that number or its bytes
    fn bytes(src: Vec<Tok>) -> Vec<Tok> {
        let mut s = vec![];
        for t in src {
            match &t {
                Tok::B256(b) => s.extend(b.iter().map(|b| Tok::Num(0, *b as u128))),
                _ => s.push(t),
            }
        }
        s
    }
    let (s, dst) = (bytes(src), bytes(dst));
    if !named {
        if s.len() == dst.len() && s.iter().zip(&dst).all(|(a, b)| fits(a, b)) {
            return Ok(());
        }
        return Err(format!("leaves of the encoding: {dst:?}\nleaves of the value: {s:?}"));
    }
    // each leaf of the encoding must use up one of the value's
    let mut left = s.clone();
    let mut pending = dst.clone();
    for pass in 0..4 {
        pending.retain(|d| {
            let k = left.iter().position(|x| match pass {
                // what can only come from its like; characters before numbers
                0 => x == d && !matches!(d, Tok::Num(..)),
                1 => matches!((x, d), (Tok::Char(_), Tok::Num(..))) && fits(x, d),
                2 => x == d,
                _ => fits(x, d),
            });
            match k {
                Some(k) => {
                    left.remove(k);
                    false
                }
                None => true,
            }
        });
    }
    if pending.is_empty() {
        Ok(())
    } else {
        Err(format!("leaves that the value does not have: {pending:?}\nleaves of the value: {s:?}"))
    }
}

/// Change something in a value.
fn spoil<T: Clone>(x: &mut Value<T>, r: &mut Rng, pool: &[Value<T>], ctx: &mut dyn FnMut(&mut Rng) -> T) {
    let kids = match &x.value {
        ValueDef::Composite(c) => c.len(),
        ValueDef::Variant(v) => v.values.len(),
        _ => 0,
    };
    if kids > 0 && r.chance(2, 3) {
        let k = r.below(kids);
        let c = match &mut x.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(v) => &mut v.values,
            _ => unreachable!(),
        };
        let kid = match c {
            Composite::Named(f) => &mut f[k].1,
            Composite::Unnamed(f) => &mut f[k],
        };
        return spoil(kid, r, pool, ctx);
    }
    let c = ctx(r);
    let old = x.clone();
    let mk = |v: ValueDef<T>| Value { value: v, context: c.clone() };
    *x = match (r.below(12), old.value.clone()) {
        (0 | 1, _) => mk(ValueDef::Composite(Composite::Unnamed(vec![old]))),
        (2, _) => mk(ValueDef::Composite(Composite::Named(vec![(gen_name(r), old)]))),
        (3, ValueDef::Composite(c)) if c.len() == 1 => c.into_values().next().unwrap(),
        (4, ValueDef::Composite(c)) => {
            // an element more, or less
            let mut xs: Vec<Value<T>> = c.into_values().collect();
            if xs.is_empty() || r.bool() {
                let at = r.below(xs.len() + 1);
                xs.insert(at, pool[r.below(pool.len())].clone());
            } else {
                let at = r.below(xs.len());
                xs.remove(at);
            }
            mk(ValueDef::Composite(Composite::Unnamed(xs)))
        }
        (5, ValueDef::Composite(Composite::Named(mut f))) if !f.is_empty() => {
            let k = r.below(f.len());
            match r.below(3) {
                0 => f[k].0 = gen_name(r),
                1 => {
                    f.remove(k);
                }
                _ => {
                    let d = f[k].clone();
                    f.push(d);
                }
            }
            mk(ValueDef::Composite(Composite::Named(f)))
        }
        (5 | 6, ValueDef::Composite(Composite::Unnamed(f))) => mk(ValueDef::Composite(Composite::Named(f.into_iter().map(|x| (gen_name(r), x)).collect()))),
        (6, ValueDef::Composite(Composite::Named(f))) => mk(ValueDef::Composite(Composite::Unnamed(f.into_iter().map(|x| x.1).collect()))),
        (7, ValueDef::Variant(mut v)) => {
            v.name = gen_name(r);
            mk(ValueDef::Variant(v))
        }
        (7, ValueDef::Primitive(Primitive::U128(_) | Primitive::I128(_))) => {
            let b = *r.pick(&[8, 16, 32, 64, 128]);
            let (u, i) = (r.uint(b), r.int(b));
            let near = *r.pick(&[-129i128, -128, 127, 128, 255, 256, -32769, -32768, 32767, 32768, 65535, 65536, -2147483649, 2147483647, 2147483648, 4294967295, 4294967296, -9223372036854775809, 9223372036854775808, 18446744073709551615, 18446744073709551616, i128::MAX, i128::MIN, -1]);
            mk(ValueDef::Primitive(match r.below(3) {
                0 => Primitive::U128(u),
                1 => Primitive::I128(i),
                _ => Primitive::I128(near),
            }))
        }
        (8, ValueDef::Variant(v)) => mk(ValueDef::Composite(v.values)),
        (8, ValueDef::Composite(c)) => mk(ValueDef::Variant(Variant { name: gen_name(r), values: c })),
        (9, _) => mk(ValueDef::Primitive(gen_primitive(r, &VOpts { big256: true, ..Default::default() }))),
        (10, _) => gen_value(r, &VOpts { big256: true, ..Default::default() }, 2, ctx),
        _ => pool[r.below(pool.len())].clone(),
    };
}

fn pool_of<T: Clone>(x: &Value<T>) -> Vec<Value<T>> {
    let mut p = vec![];
    walk(x, &mut |v| {
        if p.len() < 200 {
            p.push(v.clone())
        }
    });
    p
}

fn c04_judge(c: &mut Case, reg: &Reg, id: Id, value: &Value<u64>, exact: bool) -> Res {
    c.desc = format!("type {} value {:?}", reg.describe(id), strip(value));
    let mut out = vec![];
    let r = no_panic("encode", || scale::encode_as_type(value, id, reg, &mut out))?;
    match r {
        Err(_) => {
            c.count("refused", 1);
            Ok(())
        }
        Ok(()) => {
            c.count("encoded", 1);
            if !exact {
                c.nontrivial(&c.desc.clone());
            }
            let cur = &mut &out[..];
            let mut reg256 = reg.clone();
            let m = decode_anywhere(&mut reg256, id, cur).map_err(|_| format!("the bytes {} are no valid encoding of the type", hex(&out)))?;
            ensure!(cur.is_empty(), "the bytes {} go on after a complete encoding", hex(&out));
            let (mut src, mut dst, mut named) = (vec![], vec![], false);
            value_toks(value, &mut src, &mut named);
            mv_toks(reg, id, &m, &mut dst);
            judge_leaves(src, dst, named).map_err(|e| format!("encoded as {}\n{e}", hex(&out)))?;
            Ok(())
        }
    }
}

/// The model's decoder, with 256-bit numbers anywhere.
fn decode_anywhere(reg: &mut Reg, id: Id, b: &mut &[u8]) -> Result<Mv, bool> {
    let subst: Vec<usize> = (0..reg.types.len()).filter(|i| matches!(reg.types[*i], Ty::Prim(PrimTy::U256 | PrimTy::I256))).collect();
    if subst.is_empty() {
        return reg.decode(id, b, &mut (1 << 20));
    }
    let kinds: Vec<(usize, Ty)> = subst.iter().map(|i| (*i, reg.types[*i].clone())).collect();
    let u = reg.add(Ty::Prim(PrimTy::U8));
    for i in subst {
        reg.types[i] = Ty::Array(u, 32);
    }
    let m = reg.decode(id, b, &mut (1 << 20))?;
    fn back(reg: &Reg, kinds: &[(usize, Ty)], id: Id, m: Mv) -> Mv {
        if kinds.iter().any(|k| k.0 == id as usize) {
            let Mv::List(xs) = m else { unreachable!() };
            let b: Vec<u8> = xs.iter().map(|x| if let Mv::U(n) = x { *n as u8 } else { 0 }).collect();
            return Mv::B256(b.try_into().unwrap());
        }
        match (reg.ty(id), m) {
            (Ty::Compact(i), m) => back(reg, kinds, *i, m),
            (Ty::Seq(i) | Ty::Array(i, _), Mv::List(xs)) => Mv::List(xs.into_iter().map(|x| back(reg, kinds, *i, x)).collect()),
            (Ty::Tuple(ids), Mv::List(xs)) => Mv::List(ids.iter().zip(xs).map(|(i, x)| back(reg, kinds, *i, x)).collect()),
            (Ty::Struct(fs), Mv::List(xs)) => Mv::List(fs.iter().zip(xs).map(|(f, x)| back(reg, kinds, f.ty, x)).collect()),
            (Ty::Enum(vs), Mv::Var(k, xs)) => Mv::Var(k, vs[k].fields.iter().zip(xs).map(|(f, x)| back(reg, kinds, f.ty, x)).collect()),
            (_, m) => m,
        }
    }
    Ok(back(reg, &kinds, id, m))
}

/// A value for a type and how close it is to fitting.
fn near_value(c: &mut Case, reg: &Reg, id: Id, m: &Mv) -> (Value<u64>, bool) {
    let r = &mut c.r;
    let mut x = match r.below(4) {
        0 => Coercer { reg, used: Default::default() }.coerce(id, m, r),
        _ => with_ctx(&reg.to_value(id, m), r),
    };
    let mut exact = true;
    for _ in 0..r.below(4) {
        let pool = pool_of(&x);
        spoil(&mut x, r, &pool, &mut |r| r.u64());
        exact = false;
    }
    (x, exact)
}

fn with_ctx<T>(x: &Value<T>, r: &mut Rng) -> Value<u64> {
    fn c<T>(x: &Composite<T>, r: &mut Rng) -> Composite<u64> {
        match x {
            Composite::Named(f) => Composite::Named(f.iter().map(|(n, x)| (n.clone(), with_ctx(x, r))).collect()),
            Composite::Unnamed(f) => Composite::Unnamed(f.iter().map(|x| with_ctx(x, r)).collect()),
        }
    }
    let def = match &x.value {
        ValueDef::Composite(x) => ValueDef::Composite(c(x, r)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: c(&x.values, r) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    };
    v(def, r)
}

fn c04_type(c: &mut Case) -> (Reg, Id, Mv) {
    let r = &mut c.r;
    match r.below(12) {
        0 => u256_case(r),
        1..=4 => {
            let o = TyOpts { depth: 2 + r.below(3), wide: 2, wrappers: true, ..Default::default() };
            gen_typed(r, &o)
        }
        5 | 6 => {
            // nested sequences and wrappers of something small
            let mut reg = Reg::default();
            let mut id = match r.below(5) {
                0 => reg.add(Ty::Bits(scale_type_resolver::BitsStoreFormat::U8, scale_type_resolver::BitsOrderFormat::Lsb0)),
                1 => {
                    let a = reg.add(Ty::Prim(PrimTy::U8));
                    let b = reg.add(Ty::Prim(PrimTy::Bool));
                    reg.add(Ty::Struct(vec![F { name: Some("a".into()), ty: a }, F { name: Some("b".into()), ty: b }]))
                }
                _ => {
                    let p = *r.pick(&ALL_PRIMS);
                    reg.add(Ty::Prim(p))
                }
            };
            for _ in 0..r.range(1, 4) {
                id = match r.below(5) {
                    0 | 1 => reg.add(Ty::Seq(id)),
                    2 => {
                        let n = r.below(4);
                        reg.add(Ty::Array(id, n))
                    }
                    3 => reg.add(Ty::Tuple(vec![id])),
                    _ => {
                        let n = r.bool().then(|| gen_name(r));
                        reg.add(Ty::Struct(vec![F { name: n, ty: id }]))
                    }
                };
            }
            let mut budget = 40;
            let m = gen_mv(&reg, r, id, &mut budget);
            (reg, id, m)
        }
        _ => {
            let o = TyOpts { depth: 1 + r.below(4), ..Default::default() };
            gen_typed(r, &o)
        }
    }
}

fn c04(ctx: &mut Ctx) {
    let n = ctx.n(200_000, 40);
    ctx.section("near", n, |c| {
        let (reg, id, m) = c04_type(c);
        let (value, exact) = near_value(c, &reg, id, &m);
        // (trying alternatives takes long where many are nested; that is C06's subject)
        reg.budget.set(0);
        c04_judge(c, &reg, id, &value, exact)
    });
    let n = ctx.n(100_000, 40);
    ctx.section("other_type", n, |c| {
        // a value of one type encoded as another
        let o = TyOpts { depth: 1 + c.r.below(3), wrappers: c.r.bool(), ..Default::default() };
        let (reg, id, m) = gen_typed(&mut c.r, &o);
        let other = c.r.below(reg.types.len()) as Id;
        let value = with_ctx(&reg.to_value(id, &m), &mut c.r);
        if c.r.bool() {
            c04_judge(c, &reg, other, &value, other == id)
        } else {
            // or a value for a part of it
            let pool = pool_of(&value);
            let part = pool[c.r.below(pool.len())].clone();
            c04_judge(c, &reg, id, &part, false)
        }
    });
    let n = ctx.n(60_000, 40);
    ctx.section("arbitrary", n, |c| {
        let o = TyOpts { depth: c.r.below(3), ..Default::default() };
        let (reg, id, _) = gen_typed(&mut c.r, &o);
        let value = gen_value(&mut c.r, &VOpts { big256: true, ..Default::default() }, 3, &mut |r| r.u64());
        c04_judge(c, &reg, id, &value, false)
    });
    let n = ctx.n(200, 40);
    ctx.section("long", n, |c| {
        // (the oracle takes quadratic time)
        let n = crate::dict::length_to(&mut c.r, 1500);
        let (reg, id, m) = super::decode::long_case_of(&mut c.r, n);
        let mut value = with_ctx(&reg.to_value(id, &m), &mut c.r);
        let mut exact = true;
        if c.r.bool() {
            exact = false;
            if let (ValueDef::Composite(Composite::Unnamed(x)), true) = (&mut value.value, n > 0) {
                let k = c.r.below(x.len());
                match c.r.below(3) {
                    0 => {
                        x.remove(k);
                    }
                    1 => x.insert(k, x[k].clone()),
                    _ => x[k].value = ValueDef::Primitive(crate::vgen::gen_primitive(&mut c.r, &VOpts::default())),
                }
            }
        }
        c04_judge(c, &reg, id, &value, exact)
    });
    // values that certainly do not fit
    let n = ctx.n(100_000, 40);
    ctx.section("must_refuse", n, |c| {
        let (reg, id, value, what) = misfit(&mut c.r);
        c.desc = format!("{what}: type {} value {:?}", reg.describe(id), strip(&value));
        c.nontrivial(&c.desc.clone());
        c.count(what, 1);
        let mut out = vec![];
        let r = no_panic("encode", || scale::encode_as_type(&value, id, &reg, &mut out))?;
        ensure!(r.is_err(), "accepted, as {}", hex(&out));
        Ok(())
    });
    // fields are found by name if both sides have names, else taken by position, and all must be there
    let n = ctx.n(60_000, 40);
    ctx.section("as_fields", n, as_fields);
    ctx.require("as_fields.missing", 5_000);
    ctx.require("as_fields.encoded", 5_000);
    ctx.require("near.encoded", 10_000);
    ctx.require("near.refused", 10_000);
    ctx.require("other_type.encoded", 1000);
}

fn as_fields(c: &mut Case) -> Res {
    let r = &mut c.r;
    let mut reg = Reg::default();
    let k = r.below(5);
    let named_ty = r.chance(3, 4);
    let named_val = r.chance(3, 4);
    let o = TyOpts { depth: 1, ..Default::default() };
    let mut fs: Vec<F> = vec![];
    let mut items: Vec<(String, Value<u64>)> = vec![];
    let mut bytes = vec![];
    for i in 0..k {
        let d = r.below(2);
        let ty = gen_ty(&mut reg, r, &o, d);
        let mut budget = 20;
        let m = gen_mv(&reg, r, ty, &mut budget);
        let mut name = gen_name(r);
        while name.is_empty() || fs.iter().any(|f| f.name.as_deref() == Some(&name)) {
            name.push_str(&format!("{i}"));
        }
        fs.push(F { name: Some(name.clone()), ty });
        items.push((name, with_ctx(&reg.to_value(ty, &m), r)));
        bytes.push(reg.encode(ty, &m));
    }
    let by_name = named_ty && named_val;
    let mut ok = true;
    let fresh = |r: &mut Rng, items: &[(String, Value<u64>)], fs: &[F], from: Option<usize>| loop {
        let s = match from {
            Some(i) if r.chance(2, 3) => crate::dict::near(r, fs[i].name.as_ref().unwrap()),
            _ => gen_name(r),
        };
        if !items.iter().any(|x| x.0 == s) && !fs.iter().any(|f| f.name.as_deref() == Some(&s)) {
            return s;
        }
    };
    let what = match r.below(5) {
        0 if k > 0 => {
            // renamed
            let i = r.below(k);
            items[i].0 = fresh(r, &items, &fs, Some(i));
            ok = !by_name;
            "renamed"
        }
        1 if k > 0 => {
            items.remove(r.below(k));
            ok = false;
            "removed"
        }
        2 => {
            // one more
            let i = r.below(k + 1);
            let name = fresh(r, &items, &fs, None);
            let x = match items.first() {
                Some(x) => x.1.clone(),
                None => p(Primitive::U128(3), r),
            };
            items.insert(i, (name, x));
            ok = by_name;
            "extra"
        }
        3 if by_name => {
            r.shuffle(&mut items);
            "shuffled"
        }
        _ => "exact",
    };
    if !named_ty {
        fs.iter_mut().for_each(|f| f.name = None);
    }
    let comp = if named_val { Composite::Named(items) } else { Composite::Unnamed(items.into_iter().map(|x| x.1).collect()) };
    // an empty list without fields has no names to go by, whatever it is called
    if k == 0 && what == "extra" && named_ty {
        ok = false;
    }
    c.desc = format!("{what}: fields {:?} composite {:?}", fs.iter().map(|f| (&f.name, reg.describe(f.ty))).collect::<Vec<_>>(), strip_c(&comp));
    c.nontrivial(&c.desc.clone());
    let whole = v(ValueDef::Composite(comp.clone()), &mut c.r);
    for w in 0..2 {
        let mut it = fs.iter().map(|f| scale_type_resolver::Field { name: f.name.as_deref(), id: f.ty });
        let mut out = vec![7u8];
        let res = no_panic("encode_as_fields", || match w {
            0 => scale_encode::EncodeAsFields::encode_as_fields_to(&comp, &mut it, &reg, &mut out),
            _ => scale_encode::EncodeAsFields::encode_as_fields_to(&whole, &mut it, &reg, &mut out),
        })?;
        if ok {
            c.count("encoded", 1);
            if let Err(e) = res {
                return Err(format!("refused: {e}").into());
            }
            ensure!(out[0] == 7 && out[1..] == bytes.concat()[..], "encoded as {} instead of {}", hex(&out[1..]), hex(&bytes.concat()));
        } else {
            c.count("missing", 1);
            ensure!(res.is_err(), "encoded as {} although the fields do not match", hex(&out[1..]));
        }
    }
    Ok(())
}

/// A flat type and a value it cannot represent.
fn misfit(r: &mut Rng) -> (Reg, Id, Value<u64>, &'static str) {
    let mut reg = Reg::default();
    let mut wrap_ty = r.below(3);
    let mut wrap_val = r.below(3);
    let (mut id, mut x, what): (Id, Value<u64>, &'static str) = match r.below(10) {
        0 | 1 => {
            // number out of range
            let t = *r.pick(&[PrimTy::U8, PrimTy::U16, PrimTy::U32, PrimTy::U64, PrimTy::U128, PrimTy::I8, PrimTy::I16, PrimTy::I32, PrimTy::I64, PrimTy::I128]);
            let id = reg.add(Ty::Prim(t));
            let n = loop {
                let n = if r.bool() {
                    let b = *r.pick(&[8, 9, 16, 17, 32, 33, 64, 65, 128]);
                    Primitive::U128(r.uint(b))
                } else {
                    let b = *r.pick(&[8, 9, 16, 17, 32, 33, 64, 65, 128]);
                    Primitive::I128(r.int(b))
                };
                let out = match (ubits(t), &n) {
                    (Some(b), Primitive::U128(n)) => *n > umax(b),
                    (Some(b), Primitive::I128(n)) => *n < 0 || *n as u128 > umax(b),
                    (None, Primitive::U128(n)) => *n > umax(ibits(t).unwrap() - 1),
                    (None, Primitive::I128(n)) => {
                        let b = ibits(t).unwrap();
                        b < 128 && (*n < -(1i128 << (b - 1)) || *n >= 1i128 << (b - 1))
                    }
                    _ => false,
                };
                if out {
                    break n;
                }
                if r.chance(1, 4) {
                    // by one
                    let e = match (ubits(t), ibits(t)) {
                        (Some(128), _) | (_, Some(128)) => continue,
                        (Some(b), _) => Primitive::U128(umax(b) + 1),
                        (_, Some(b)) => {
                            if r.bool() {
                                Primitive::I128(1i128 << (b - 1))
                            } else {
                                Primitive::I128(-(1i128 << (b - 1)) - 1)
                            }
                        }
                        _ => continue,
                    };
                    break e;
                }
            };
            let id = if ubits(t).is_some() && r.chance(1, 3) { reg.add(Ty::Compact(id)) } else { id };
            (id, p(n, r), "number out of range")
        }
        2 | 3 => {
            // unknown variant
            let n = r.below(4);
            let vs: Vec<V> = (0..n).map(|k| V { name: format!("V{k}"), index: k as u8, fields: vec![] }).collect();
            let id = reg.add(Ty::Enum(vs));
            let name = (*r.pick(&["V", "v0", "V00", "V9", "", " V0", "V0 ", "V1\0", "V4", "_"])).to_string();
            (id, v(ValueDef::Variant(Variant { name, values: Composite::Unnamed(vec![]) }), r), "unknown variant")
        }
        4 => {
            // missing or misnamed field, three of them at least for a struct (a value with a single
            // field stands for the field's value, and so needn't be misnamed)
            let t = reg.add(Ty::Prim(PrimTy::U8));
            let k = r.range(1, 6);
            let fs: Vec<F> = (0..k).map(|i| F { name: Some(format!("f{i}")), ty: t }).collect();
            let variant = k < 3 || r.bool();
            let id = if variant { reg.add(Ty::Enum(vec![V { name: "A".into(), index: 3, fields: fs.clone() }])) } else { reg.add(Ty::Struct(fs)) };
            let mut items: Vec<(String, Value<u64>)> = (0..k).map(|i| (format!("f{i}"), p(Primitive::U128(i as u128), r))).collect();
            let at = r.below(k);
            let c = match r.below(3) {
                0 => {
                    items[at].0 = (*r.pick(&["", "f", "F0", "f00", "g"])).to_string();
                    Composite::Named(items)
                }
                1 => {
                    items.remove(at);
                    Composite::Named(items)
                }
                _ => {
                    if r.bool() {
                        items.remove(at);
                    } else {
                        items.push(items[0].clone());
                    }
                    Composite::Unnamed(items.into_iter().map(|x| x.1).collect())
                }
            };
            let x = if variant { ValueDef::Variant(Variant { name: "A".into(), values: c }) } else { ValueDef::Composite(c) };
            (id, v(x, r), "missing field")
        }
        5 | 6 => {
            // array length
            let t = reg.add(Ty::Prim(PrimTy::U16));
            let n = r.range(0, 6);
            let id = reg.add(Ty::Array(t, n));
            let k = loop {
                let k = r.below(8);
                // a single number stands for an array of one
                if k != n {
                    break k;
                }
            };
            let xs: Vec<Value<u64>> = (0..k).map(|i| p(Primitive::U128(i as u128), r)).collect();
            let c = if r.bool() { Composite::Unnamed(xs) } else { Composite::Named(xs.into_iter().enumerate().map(|(i, x)| (format!("n{i}"), x)).collect()) };
            // a wrapper on the value's side would be an element; on the type's side it is no matter
            wrap_val = 0;
            if n == 1 {
                wrap_ty = 0;
            }
            (id, v(ValueDef::Composite(c), r), "array length")
        }
        7 => {
            // non-bit in bit sequence
            let id = reg.add(Ty::Bits(*r.pick(&[scale_type_resolver::BitsStoreFormat::U8, scale_type_resolver::BitsStoreFormat::U32]), *r.pick(&[scale_type_resolver::BitsOrderFormat::Lsb0, scale_type_resolver::BitsOrderFormat::Msb0])));
            let n = r.range(2, 20);
            let mut xs: Vec<Value<u64>> = (0..n).map(|_| p(Primitive::Bool(true), r)).collect();
            let at = r.below(n);
            xs[at] = match r.below(5) {
                0 => p(Primitive::U128(*r.pick(&[2, 3, 255, 256, u128::MAX, 1 << 64])), r),
                1 => p(Primitive::I128(*r.pick(&[-1, 2, i128::MIN, -2, 1 << 64, 257])), r),
                2 => p(Primitive::Char(*r.pick(&['0', '1', '\0', '\u{1}'])), r),
                3 => p(Primitive::String((*r.pick(&["1", "0", "", "true"])).into()), r),
                _ => v(ValueDef::Composite(Composite::Unnamed(vec![])), r),
            };
            let c = if r.bool() { Composite::Unnamed(xs) } else { Composite::Named(xs.into_iter().enumerate().map(|(i, x)| (format!("n{i}"), x)).collect()) };
            (id, v(ValueDef::Composite(c), r), "non-bit in bit sequence")
        }
        _ => {
            // mismatching kinds
            let t = match r.below(8) {
                0 => reg.add(Ty::Prim(PrimTy::Bool)),
                1 => reg.add(Ty::Prim(PrimTy::Char)),
                2 => reg.add(Ty::Prim(PrimTy::Str)),
                3 => reg.add(Ty::Prim(PrimTy::U64)),
                4 => reg.add(Ty::Enum(vec![V { name: "true".into(), index: 0, fields: vec![] }, V { name: "a".into(), index: 1, fields: vec![] }])),
                5 => reg.add(Ty::Bits(scale_type_resolver::BitsStoreFormat::U8, scale_type_resolver::BitsOrderFormat::Lsb0)),
                6 => {
                    let a = reg.add(Ty::Prim(PrimTy::Bool));
                    reg.add(Ty::Seq(a))
                }
                _ => {
                    let a = reg.add(Ty::Prim(PrimTy::Bool));
                    reg.add(Ty::Tuple(vec![a, a]))
                }
            };
            let x = loop {
                let x = match r.below(6) {
                    0 => p(Primitive::Bool(r.bool()), r),
                    1 => p(Primitive::Char('a'), r),
                    2 => p(Primitive::String((*r.pick(&["a", "true", "", "1"])).into()), r),
                    3 => p(Primitive::U128(r.uint(8)), r),
                    4 => v(ValueDef::Variant(Variant { name: "Nope".into(), values: Composite::Unnamed(vec![]) }), r),
                    _ => v(ValueDef::BitSequence(mk_bits(&[true, false])), r),
                };
                let ok = match (reg.ty(t), &x.value) {
                    (Ty::Prim(PrimTy::Bool), ValueDef::Primitive(Primitive::Bool(_))) => true,
                    (Ty::Prim(PrimTy::Char), ValueDef::Primitive(Primitive::Char(_))) => true,
                    (Ty::Prim(PrimTy::Str), ValueDef::Primitive(Primitive::String(_))) => true,
                    // characters are accepted as numbers
                    (Ty::Prim(PrimTy::U64), ValueDef::Primitive(Primitive::U128(_) | Primitive::Char(_))) => true,
                    (Ty::Bits(..), ValueDef::BitSequence(_)) => true,
                    _ => false,
                };
                // wrapped, a lone element is a sequence (or bits) of one
                if matches!(reg.ty(t), Ty::Seq(_) | Ty::Bits(..)) {
                    wrap_val = 0;
                }
                if !ok {
                    break x;
                }
            };
            (t, x, "mismatching kind")
        }
    };
    for _ in 0..wrap_ty {
        id = match r.below(3) {
            0 => reg.add(Ty::Tuple(vec![id])),
            1 => reg.add(Ty::Struct(vec![F { name: None, ty: id }])),
            _ => reg.add(Ty::Struct(vec![F { name: Some("w".into()), ty: id }])),
        };
    }
    for _ in 0..wrap_val {
        x = if r.bool() { v(ValueDef::Composite(Composite::Unnamed(vec![x])), r) } else { v(ValueDef::Composite(Composite::Named(vec![("w".into(), x)])), r) };
    }
    (reg, id, x, what)
}

// ------------------------------------------------------------------------------ C05

fn c05(ctx: &mut Ctx) {
    let n = ctx.n(150_000, 40);
    ctx.section("append", n, |c| {
        let (reg, id, m) = c04_type(c);
        let (mut value, _) = near_value(c, &reg, id, &m);
        if c.r.chance(1, 2) {
            // something that fails late: the last leaf does not fit
            spoil_last(&mut value);
        }
        append(c, &reg, id, value)
    });
    let n = ctx.n(100, 40);
    ctx.section("long", n, |c| {
        let (reg, id, m) = long_case(&mut c.r);
        let mut value = with_ctx(&reg.to_value(id, &m), &mut c.r);
        if c.r.bool() {
            spoil_last(&mut value);
        }
        append(c, &reg, id, value)
    });
    ctx.require("append.succeeded", 5000);
    ctx.require("append.composite_failed", 10_000);
}

fn append(c: &mut Case, reg: &Reg, id: Id, value: Value<u64>) -> Res {
    {
        let k = c.r.below(40);
        let prefix = c.r.bytes(k);
        c.desc = format!("type {} value {:?} prefix {}", reg.describe(id), strip(&value), hex(&prefix));
        let composite = matches!(value.value, ValueDef::Composite(_));
        if composite && !prefix.is_empty() {
            c.nontrivial(&c.desc.clone());
        }
        let mut plain = vec![];
        let r0 = no_panic("encode", || scale::encode_as_type(&value, id, reg, &mut plain))?;
        for spare in [0usize, 1, 4096] {
            let mut out = Vec::with_capacity(prefix.len() + spare);
            out.extend_from_slice(&prefix);
            let r = no_panic("encode", || value.encode_as_type_to(id, reg, &mut out))?;
            ensure!(r.is_ok() == r0.is_ok(), "whether it succeeds depends on the buffer");
            ensure!(out.len() >= prefix.len() && out[..prefix.len()] == prefix[..], "the buffer's bytes changed: {} became {}", hex(&prefix), hex(&out));
            if r.is_ok() {
                ensure!(out[prefix.len()..] == plain[..], "the bytes appended depend on the buffer: {} or {}", hex(&out[prefix.len()..]), hex(&plain));
            } else if composite {
                ensure!(out.len() == prefix.len(), "a failed encode of a composite appended {}", hex(&out[prefix.len()..]));
                ensure!(plain.is_empty(), "a failed encode of a composite appended {}", hex(&plain));
            }
        }
        c.count(
            match (r0.is_ok(), composite) {
                (true, _) => "succeeded",
                (false, true) => "composite_failed",
                (false, false) => "other_failed",
            },
            1,
        );
        // twice into the same buffer
        if r0.is_ok() {
            let mut out = prefix.clone();
            let _ = value.encode_as_type_to(id, reg, &mut out);
            let _ = value.encode_as_type_to(id, reg, &mut out);
            ensure!(out == [&prefix[..], &plain[..], &plain[..]].concat(), "encoding twice into one buffer gives {}", hex(&out));
        }
        Ok(())
    }
}

fn spoil_last<T>(x: &mut Value<T>) {
    let c = match &mut x.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(v) => &mut v.values,
        _ => {
            x.value = ValueDef::Variant(Variant { name: "no such variant ✗".into(), values: Composite::Unnamed(vec![]) });
            return;
        }
    };
    match c {
        Composite::Named(f) => {
            if let Some(l) = f.last_mut() {
                spoil_last(&mut l.1)
            }
        }
        Composite::Unnamed(f) => {
            if let Some(l) = f.last_mut() {
                spoil_last(l)
            }
        }
    }
}

// ------------------------------------------------------------------------------ C06

fn c06(ctx: &mut Ctx) {
    let maxd = if ctx.thorough() { 40 } else { 24 };
    let n = ctx.n(40_000, 20);
    let mut worst = (0.0f64, String::new());
    ctx.section("nested", n, |c| {
        let r = &mut c.r;
        let mut reg = Reg::default();
        let base = r.below(6);
        let u8_ = reg.add(Ty::Prim(PrimTy::U8));
        let (mut id, mut x): (Id, Value<u64>) = match base {
            0 => (u8_, p(Primitive::U128(7), r)),
            1 => (reg.add(Ty::Enum(vec![V { name: "A".into(), index: 1, fields: vec![F { name: None, ty: u8_ }] }])), v(ValueDef::Variant(Variant { name: "A".into(), values: Composite::Unnamed(vec![Value { value: ValueDef::Primitive(Primitive::U128(3)), context: 0 }]) }), r)),
            2 => {
                let s = reg.add(Ty::Struct(vec![F { name: Some("a".into()), ty: u8_ }, F { name: Some("b".into()), ty: u8_ }]));
                let one = |n: u128| Value { value: ValueDef::Primitive(Primitive::U128(n)), context: 0 };
                (s, v(ValueDef::Composite(Composite::Named(vec![("a".into(), one(1)), ("b".into(), one(2))])), r))
            }
            3 => {
                let s = reg.add(Ty::Seq(u8_));
                let one = |n: u128| Value { value: ValueDef::Primitive(Primitive::U128(n)), context: 0 };
                (s, v(ValueDef::Composite(Composite::Unnamed(vec![one(1), one(2)])), r))
            }
            4 => (reg.add(Ty::Bits(scale_type_resolver::BitsStoreFormat::U8, scale_type_resolver::BitsOrderFormat::Lsb0)), v(ValueDef::BitSequence(mk_bits(&[true, false, true])), r)),
            _ => (reg.add(Ty::Compact(u8_)), p(Primitive::U128(7), r)),
        };
        // does it fit?
        let fit = r.below(3);
        if fit == 0 {
            x = match r.below(4) {
                0 => p(Primitive::String("nope".into()), r),
                1 => p(Primitive::I128(-300), r),
                2 => v(ValueDef::Variant(Variant { name: "Nope".into(), values: Composite::Unnamed(vec![]) }), r),
                _ => v(ValueDef::Composite(Composite::Unnamed(vec![])), r),
            };
        }
        let (dt, dv) = match r.below(4) {
            0 => (r.range(0, maxd), 0),
            1 => (0, r.range(0, maxd)),
            2 => {
                let d = r.range(0, maxd);
                (d, d)
            }
            _ => (r.range(0, maxd), r.range(0, maxd)),
        };
        let kinds = r.below(6);
        let mut shape = String::new();
        for _ in 0..dt {
            let k = if kinds < 4 { kinds } else { r.below(4) };
            shape.push(['t', 's', 'n', 'a'][k]);
            id = match k {
                0 => reg.add(Ty::Tuple(vec![id])),
                1 => reg.add(Ty::Struct(vec![F { name: None, ty: id }])),
                2 => reg.add(Ty::Struct(vec![F { name: Some("w".into()), ty: id }])),
                _ => reg.add(Ty::Array(id, 1)),
            };
        }
        shape.push('/');
        let vk = r.below(4);
        for _ in 0..dv {
            let k = if vk < 2 { vk } else { r.below(3) };
            shape.push(['u', 'n', 'm'][k]);
            let c = match k {
                0 => Composite::Unnamed(vec![x]),
                1 => Composite::Named(vec![("w".into(), x)]),
                _ => Composite::Named(vec![("other".into(), x)]),
            };
            x = v(ValueDef::Composite(c), r);
        }
        c.desc = format!("base {base}, fitting {}, nesting {dt} (type) {dv} (value): {shape}", fit != 0);
        if dt + dv >= 6 {
            c.nontrivial(&c.desc.clone());
        }
        let d = (dt + dv + 4) as u64;
        reg.calls.set(0);
        reg.budget.set(C06_FACTOR * d * d * d);
        let mut out = vec![];
        crate::alloc::begin(0);
        let res = no_panic("encode", || x.encode_as_type_to(id, &reg, &mut out));
        let (_, allocs) = crate::alloc::end();
        let calls = reg.calls.get();
        reg.budget.set(0);
        if let Err(e) = res {
            if e.msg.contains(BUDGET_MSG) {
                return Err(format!("needs more than {} type lookups at a combined nesting of {}", C06_FACTOR * d * d * d, d - 4).into());
            }
            return Err(e);
        }
        c.count("lookups", calls);
        c.count("allocations", allocs);
        c.count(if res.is_ok_and(|r| r.is_ok()) { "encoded" } else { "refused" }, 1);
        ensure!(allocs <= C06_FACTOR * 4 * d * d * d, "{allocs} allocations at a combined nesting of {}", d - 4);
        let ratio = calls as f64 / (d * d * d) as f64;
        if ratio > worst.0 {
            worst = (ratio, c.desc.clone());
        }
        Ok(())
    });
    // layers which are no wrappers themselves, with wrappers between them
    let n = ctx.n(30_000, 20);
    let mut worst2 = (0.0f64, String::new());
    ctx.section("layers", n, |c| {
        let r = &mut c.r;
        let mut reg = Reg::default();
        let u8_ = reg.add(Ty::Prim(PrimTy::U8));
        let small = |n: u128| Value { value: ValueDef::Primitive(Primitive::U128(n)), context: 0u64 };
        let f = |n: Option<&str>, ty: Id| F { name: n.map(|n| n.to_string()), ty };
        let layers = r.range(1, maxd);
        let bad = r.below(4);
        let bad_at = r.below(layers + 1);
        let spoil = |k: usize| bad > 0 && (bad == 3 || k == bad_at);
        let (mut id, mut x) = (u8_, if spoil(0) { p(Primitive::String("nope".into()), r) } else { small(7) });
        let kinds = r.below(9);
        let most = r.below(3);
        let only_type = r.chance(1, 3);
        let mut shape = String::new();
        let mut nest = 0;
        for layer in 0..layers {
            let k = if kinds < 6 { kinds } else { r.below(6) };
            let broken = spoil(layer + 1) && (bad == 3 || r.bool());
            shape.push(['e', 'E', 't', 's', 'S', '2'][k]);
            if broken {
                shape.push('!');
            }
            let (name_b, drop_b) = ("b".to_string(), broken);
            let mut named = |x: Value<u64>| {
                let mut fs = vec![("a".to_string(), x)];
                if !drop_b {
                    fs.push((name_b.clone(), small(1)));
                }
                Composite::Named(fs)
            };
            let (ty, def) = match k {
                0 => (Ty::Enum(vec![V { name: "C".into(), index: 1, fields: vec![f(None, id)] }]), ValueDef::Variant(Variant { name: if broken { "D" } else { "C" }.into(), values: Composite::Unnamed(vec![x]) })),
                1 => (Ty::Enum(vec![V { name: "C".into(), index: 1, fields: vec![f(Some("a"), id), f(Some("b"), u8_)] }]), ValueDef::Variant(Variant { name: "C".into(), values: named(x) })),
                2 => (Ty::Tuple(vec![u8_, id]), ValueDef::Composite(Composite::Unnamed(if broken { vec![x] } else { vec![small(1), x] }))),
                3 => (Ty::Struct(vec![f(Some("a"), id), f(Some("b"), u8_)]), ValueDef::Composite(named(x))),
                4 => (Ty::Struct(vec![f(None, u8_), f(None, id)]), ValueDef::Composite(Composite::Unnamed(if broken { vec![x, small(1), small(1)] } else { vec![small(1), x] }))),
                _ => (Ty::Array(id, 2), ValueDef::Composite(Composite::Unnamed(vec![if broken { small(300) } else { x.clone() }, x]))),
            };
            // (each array holds two of what is within)
            if k == 5 && nest > 6 {
                x = match def {
                    ValueDef::Composite(Composite::Unnamed(mut v)) => v.pop().unwrap(),
                    _ => unreachable!(),
                };
                continue;
            }
            id = reg.add(ty);
            x = v(def, r);
            nest += 1;
            for _ in 0..r.below(most + 1) {
                let k = r.below(4);
                shape.push(['T', 'U', 'W', 'A'][k]);
                id = match k {
                    0 => reg.add(Ty::Tuple(vec![id])),
                    1 => reg.add(Ty::Struct(vec![f(None, id)])),
                    2 => reg.add(Ty::Struct(vec![f(Some("w"), id)])),
                    _ => reg.add(Ty::Array(id, 1)),
                };
                nest += 1;
                if only_type || r.chance(1, 4) {
                    continue;
                }
                shape.push(',');
                x = v(ValueDef::Composite(if k == 2 && r.bool() { Composite::Named(vec![("w".into(), x)]) } else { Composite::Unnamed(vec![x]) }), r);
            }
            if r.chance(1, 8) && most > 0 {
                shape.push('+');
                nest += 1;
                x = v(ValueDef::Composite(Composite::Unnamed(vec![x])), r);
            }
        }
        c.desc = format!("{layers} layers, spoiled {bad} {bad_at}: {shape}");
        if nest >= 6 {
            c.nontrivial(&c.desc.clone());
        }
        let d = (nest + 4) as u64;
        let leaves = 1 << shape.matches('2').count().min(8) as u64;
        let most = C06_FACTOR * d * d * d * leaves;
        reg.calls.set(0);
        reg.budget.set(most);
        let mut out = vec![];
        crate::alloc::begin(0);
        let res = no_panic("encode", || x.encode_as_type_to(id, &reg, &mut out));
        let (_, allocs) = crate::alloc::end();
        reg.budget.set(0);
        match res {
            Err(e) if e.msg.contains(BUDGET_MSG) => return Err(format!("needs more than {most} type lookups").into()),
            Err(e) => return Err(e),
            Ok(r) => c.count(if r.is_ok() { "encoded" } else { "refused" }, 1),
        }
        ensure!(allocs <= 4 * most, "{allocs} allocations");
        let ratio = reg.calls.get() as f64 / (d * d * d * leaves) as f64;
        if ratio > worst2.0 {
            worst2 = (ratio, c.desc.clone());
        }
        Ok(())
    });
    ctx.require("layers.encoded", 2000);
    ctx.require("layers.refused", 5000);
    // many elements, each with wrappers of its own: the work adds up, it does not multiply
    let n = ctx.n(1500, 20);
    ctx.section("wide", n, |c| {
        let r = &mut c.r;
        let mut reg = Reg::default();
        let u8_ = reg.add(Ty::Prim(PrimTy::U8));
        let mut id = u8_;
        let (dt, dv, count) = (r.below(6), r.below(6), *r.pick(&[1usize, 2, 10, 100, 700]));
        for _ in 0..dt {
            let name = r.bool().then(|| "w".to_string());
            id = reg.add(Ty::Struct(vec![F { name, ty: id }]));
        }
        let kind = r.below(4);
        let bad_at = r.bool().then(|| r.below(count));
        let xs: Vec<Value<u64>> = (0..count)
            .map(|k| {
                let mut x = if bad_at == Some(k) { p(Primitive::String("nope".into()), r) } else { p(Primitive::U128(k as u128 & 127), r) };
                for _ in 0..dv {
                    x = v(ValueDef::Composite(Composite::Unnamed(vec![x])), r);
                }
                x
            })
            .collect();
        let name = |k: usize| format!("f{k}");
        let (id, x) = match kind {
            0 => (reg.add(Ty::Seq(id)), ValueDef::Composite(Composite::Unnamed(xs))),
            1 => (reg.add(Ty::Tuple(vec![id; count])), ValueDef::Composite(Composite::Unnamed(xs))),
            2 => {
                let fs = (0..count).map(|k| F { name: Some(name(k)), ty: id }).collect();
                (reg.add(Ty::Struct(fs)), ValueDef::Composite(Composite::Named(xs.into_iter().enumerate().map(|(k, x)| (name(k), x)).collect())))
            }
            _ => {
                let fs = (0..count).map(|_| F { name: None, ty: id }).collect();
                (reg.add(Ty::Enum(vec![V { name: "A".into(), index: 0, fields: fs }])), ValueDef::Variant(Variant { name: "A".into(), values: Composite::Unnamed(xs) }))
            }
        };
        let x = v(x, r);
        c.desc = format!("kind {kind}, {count} elements, nesting {dt} (type) {dv} (value), failing {bad_at:?}");
        if count > 1 {
            c.nontrivial(&c.desc.clone());
        }
        let d = (dt + dv + 4) as u64;
        let most = C06_FACTOR * d * d * d * (count as u64 + 4);
        reg.calls.set(0);
        reg.budget.set(most);
        let mut out = vec![];
        crate::alloc::begin(0);
        let res = no_panic("encode", || x.encode_as_type_to(id, &reg, &mut out));
        let (_, allocs) = crate::alloc::end();
        reg.budget.set(0);
        match res {
            Err(e) if e.msg.contains(BUDGET_MSG) => return Err(format!("needs more than {most} type lookups").into()),
            Err(e) => return Err(e),
            Ok(r) => ensure!(r.is_ok() == bad_at.is_none() || count == 1, "succeeded: {}", r.is_ok()),
        }
        ensure!(allocs <= most * 4, "{allocs} allocations for {count} elements at a combined nesting of {}", d - 4);
        Ok(())
    });
    ctx.samples.push(format!("most type lookups relative to nesting^3: {:.3} at {}", worst.0, worst.1));
    ctx.samples.push(format!("most type lookups relative to nesting^3, with layers: {:.3} at {}", worst2.0, worst2.1));
    ctx.require("nested.encoded", 500);
    ctx.require("nested.refused", 500);
}
const C06_FACTOR: u64 = 2;
