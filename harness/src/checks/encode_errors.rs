//! C28: encode errors say what does not fit, and where.
use super::decode::{deep_case, long_case};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::Check;
use scale_encode::error::{ErrorKind, Kind, Location};
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_type_resolver::{Field, Primitive as Prim};
use scale_value::{scale, Composite, Primitive, Value, ValueDef};

pub fn table() -> Vec<Check> {
    vec![Check {
        id: "C28",
        run: c28,
        rule: "a case is (type, value shaped exactly like it but for one place); the error's path and reason are compared with the place and what was done to it. Non-trivial: the place is at least one step down; distinct by type + value",
        mem: false,
        term: false,
    }]
}

/// A step down from a value, and the reference to what is there.
#[derive(Clone, Debug)]
enum Step {
    Field(String),
    Idx(usize),
}

struct Place {
    path: Vec<Step>,
    /// where in the value: position at each level
    at: Vec<usize>,
    ty: Id,
}

fn children(reg: &Reg, ty: Id, v: &Value<u32>) -> Vec<(Step, Id)> {
    let named = |fs: &[F], c: &Composite<u32>| -> Vec<(Step, Id)> {
        match c {
            Composite::Named(vs) => fs.iter().zip(vs).map(|(f, (n, _))| (Step::Field(n.clone()), f.ty)).collect(),
            Composite::Unnamed(vs) => fs.iter().zip(vs).enumerate().map(|(k, (f, _))| (Step::Idx(k), f.ty)).collect(),
        }
    };
    match (reg.ty(ty), &v.value) {
        (Ty::Seq(i) | Ty::Array(i, _), ValueDef::Composite(c)) => (0..c.len()).map(|k| (Step::Idx(k), *i)).collect(),
        (Ty::Tuple(ids), ValueDef::Composite(_)) => ids.iter().enumerate().map(|(k, i)| (Step::Idx(k), *i)).collect(),
        (Ty::Struct(fs), ValueDef::Composite(c)) => named(fs, c),
        (Ty::Enum(vs), ValueDef::Variant(x)) => match vs.iter().find(|w| w.name == x.name) {
            Some(w) => named(&w.fields, &x.values),
            None => vec![],
        },
        _ => vec![],
    }
}

fn child(v: &Value<u32>, k: usize) -> &Value<u32> {
    let c = match &v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &x.values,
        _ => unreachable!(),
    };
    match c {
        Composite::Named(f) => &f[k].1,
        Composite::Unnamed(f) => &f[k],
    }
}

fn child_mut(v: &mut Value<u32>, k: usize) -> &mut Value<u32> {
    let c = match &mut v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &mut x.values,
        _ => unreachable!(),
    };
    match c {
        Composite::Named(f) => &mut f[k].1,
        Composite::Unnamed(f) => &mut f[k],
    }
}

fn places(reg: &Reg, ty: Id, v: &Value<u32>, path: &mut Vec<Step>, at: &mut Vec<usize>, out: &mut Vec<Place>) {
    if out.len() > 3000 {
        return;
    }
    out.push(Place { path: path.clone(), at: at.clone(), ty });
    for (k, (s, i)) in children(reg, ty, v).into_iter().enumerate() {
        path.push(s);
        at.push(k);
        places(reg, i, child(v, k), path, at, out);
        path.pop();
        at.pop();
    }
}

/// What the error should say.
#[derive(Debug)]
enum Why {
    Range(String),
    Variant(String),
    Field(String),
    Length(usize, usize),
    Shape(Kind),
    Custom,
}

/// Make it unfit for its type; what the error should say, where below.
fn spoil_here(reg: &Reg, ty: Id, v: &mut Value<u32>, r: &mut Rng) -> Option<(Why, Vec<Step>, &'static str)> {
    let base = match reg.ty(ty) {
        Ty::Compact(i) => *i,
        _ => ty,
    };
    if base != ty && !matches!(reg.ty(base), Ty::Prim(_)) {
        return None;
    }
    let p = |p: Primitive| ValueDef::Primitive(p);
    match reg.ty(base).clone() {
        Ty::Prim(q) => {
            if let (Some(bits), true) = (ubits(q).or(ibits(q)), r.chance(1, 2)) {
                // a number which is too large or small
                let (def, shown) = if ubits(q).is_some() {
                    if r.bool() {
                        let n = -(r.range(1, 1000) as i128);
                        (Primitive::I128(n), n.to_string())
                    } else if bits < 128 {
                        let n = umax(bits) + 1 + r.range(0, 5) as u128;
                        (Primitive::U128(n), n.to_string())
                    } else {
                        return None;
                    }
                } else {
                    let n = umax(bits - 1) + 1 + r.range(0, 5) as u128;
                    if r.bool() || bits == 128 {
                        (Primitive::U128(n), n.to_string())
                    } else {
                        let n = -(n as i128) - 1;
                        (Primitive::I128(n), n.to_string())
                    }
                };
                v.value = p(def);
                return Some((Why::Range(shown), vec![], "out of range"));
            }
            let wrong: Vec<(Primitive, Kind)> = vec![
                (Primitive::Bool(r.bool()), Kind::Bool),
                (Primitive::String(["", "x", "a longer one"][r.below(3)].into()), Kind::Str),
                (Primitive::U128(r.below(300) as u128), Kind::Number),
                (Primitive::I128(-(r.below(300) as i128)), Kind::Number),
            ];
            let fits = |k: &Kind| match q {
                Prim::Bool => *k == Kind::Bool,
                Prim::Str => *k == Kind::Str,
                // (numbers may well be put into these)
                _ => *k == Kind::Number,
            };
            let wrong: Vec<_> = wrong.into_iter().filter(|(_, k)| !fits(k)).collect();
            let (w, k) = r.pick(&wrong).clone();
            v.value = p(w);
            Some((Why::Shape(k), vec![], "wrong kind of primitive"))
        }
        Ty::Bits(..) => {
            if r.bool() {
                v.value = p(Primitive::String("0101".into()));
                Some((Why::Shape(Kind::Str), vec![], "text for bits"))
            } else {
                let n = r.range(1, 20);
                let bad = r.below(n);
                let bit = |k: usize| if k == bad { Value::u128(2) } else if k % 3 == 0 { Value::bool(true) } else { Value::u128((k % 2) as u128) };
                v.value = ValueDef::Composite(Composite::Unnamed((0..n).map(|k| bit(k).map_context(|_| 7)).collect()));
                Some((Why::Custom, vec![Step::Idx(bad)], "wrong bit"))
            }
        }
        Ty::Enum(vs) => {
            let ValueDef::Variant(x) = &mut v.value else { return None };
            if r.chance(1, 3) || x.values.is_empty() {
                if r.bool() {
                    let n = format!("{}{}", x.name, ["x", "'", " "][r.below(3)]);
                    if vs.iter().any(|w| w.name == n) {
                        return None;
                    }
                    x.name = n.clone();
                    return Some((Why::Variant(n), vec![], "no such variant"));
                }
                v.value = p(Primitive::Bool(true));
                return Some((Why::Shape(Kind::Bool), vec![], "primitive for a variant"));
            }
            drop_one(&mut x.values, r)
        }
        Ty::Struct(_) | Ty::Tuple(_) => {
            let n = match &v.value {
                ValueDef::Composite(x) => x.len(),
                _ => return None,
            };
            if n >= 2 && r.chance(1, 3) {
                v.value = p(Primitive::String("no composite".into()));
                return Some((Why::Shape(Kind::Str), vec![], "primitive for a composite"));
            }
            let ValueDef::Composite(x) = &mut v.value else { return None };
            if n == 0 {
                return None;
            }
            drop_one(x, r)
        }
        Ty::Array(_, n) => {
            let ValueDef::Composite(Composite::Unnamed(x)) = &mut v.value else { return None };
            let by = if r.bool() { 1 } else { r.long(300).max(1) };
            if n > 0 && r.bool() {
                x.truncate(n.saturating_sub(by));
            } else {
                let y = x.first().cloned().unwrap_or(Value { value: p(Primitive::Bool(true)), context: 1 });
                x.extend(core::iter::repeat_n(y, by));
            }
            Some((Why::Length(x.len(), n), vec![], "array of the wrong length"))
        }
        Ty::Seq(_) => {
            v.value = p(Primitive::Bool(false));
            Some((Why::Shape(Kind::Bool), vec![], "primitive for a sequence"))
        }
        Ty::Compact(_) => None,
    }
}

fn drop_one(c: &mut Composite<u32>, r: &mut Rng) -> Option<(Why, Vec<Step>, &'static str)> {
    match c {
        Composite::Named(f) => {
            let k = r.below(f.len());
            let n = f.len();
            let (name, _) = f.remove(k);
            Some(if f.is_empty() { (Why::Length(0, n), vec![], "field missing") } else { (Why::Field(name), vec![], "field missing") })
        }
        Composite::Unnamed(f) => {
            let n = f.len();
            if r.bool() {
                for _ in 0..if r.bool() { 1 } else { r.range(1, n) } {
                    f.remove(r.below(f.len()));
                }
            } else {
                for _ in 0..if r.bool() { 1 } else { r.long(60).max(1) } {
                    let k = r.below(n);
                    let x = f[k].clone();
                    f.insert(k, x);
                }
            }
            Some((Why::Length(f.len(), n), vec![], "wrong number of fields"))
        }
    }
}

fn case(c: &mut Case, reg: &Reg, id: Id, m: &Mv) -> Res {
    let mut value = reg.to_value(id, m);
    let mut all = vec![];
    places(reg, id, &value, &mut vec![], &mut vec![], &mut all);
    // prefer those far down
    let mut pick = c.r.below(all.len());
    for _ in 0..2 {
        let k = c.r.below(all.len());
        if all[k].at.len() > all[pick].at.len() {
            pick = k;
        }
    }
    let place = all.swap_remove(pick);
    let mut v = &mut value;
    for k in &place.at {
        v = child_mut(v, *k);
    }
    let Some((why, below, what)) = spoil_here(reg, place.ty, v, &mut c.r) else {
        c.skipped = true;
        return Ok(());
    };
    let mut path = place.path.clone();
    path.extend(below);
    c.desc = format!("{what} at {path:?}: type {} value {:?}", reg.describe(id), value.clone().map_context(|_| ()));
    let pr = reg.portable();
    let mut checked = false;
    for which in 0..3 {
        let mut out = vec![];
        let e = match no_panic("encode", || match which {
            0 => scale::encode_as_type(&value, id, reg, &mut out),
            1 => value.clone().map_context(|_| ()).encode_as_type_to(id, reg, &mut out),
            _ => value.encode_as_type_to(id, &pr, &mut out),
        })? {
            // (it fits in some other way)
            Ok(()) => {
                c.count("fits nevertheless", 1);
                c.skipped = true;
                return Ok(());
            }
            Err(e) => e,
        };
        judge(&e, &path, &why)?;
        checked = true;
    }
    // the fields on their own
    if let (Ty::Struct(fs), ValueDef::Composite(comp), false) = (reg.ty(id), &value.value, place.at.is_empty()) {
        for which in 0..2 {
            let mut out = vec![];
            let mut it = fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty });
            let r = no_panic("encode_as_fields", || match which {
                0 => comp.encode_as_fields_to(&mut it, reg, &mut out),
                _ => value.encode_as_fields_to(&mut it, reg, &mut out),
            })?;
            match r {
                Ok(()) => return Err("what doesn't fit on the whole was encoded as fields".into()),
                Err(e) => judge(&e, &path, &why)?,
            }
            c.count("as fields", 1);
        }
    }
    if checked && !path.is_empty() {
        c.nontrivial(&c.desc.clone());
    }
    c.count(what, 1);
    if path.len() >= 4 {
        c.count("four or more steps", 1);
    }
    Ok(())
}

fn judge(e: &scale_encode::Error, path: &[Step], why: &Why) -> Res {
    let want: Vec<Location> = path
        .iter()
        .rev()
        .map(|s| match s {
            Step::Field(n) => Location::field(n.clone()),
            Step::Idx(k) => Location::idx(*k),
        })
        .collect();
    let got: Vec<Location> = e.context().path().locations().cloned().collect();
    ensure!(got == want, "the error is said to be at {:?} instead of {:?}: {e}", e.context().path().to_string(), want);
    let ok = match (why, e.kind()) {
        (Why::Range(n), ErrorKind::NumberOutOfRange { value, .. }) => value == n,
        (Why::Variant(n), ErrorKind::CannotFindVariant { name, .. }) => name == n,
        (Why::Field(n), ErrorKind::CannotFindField { name }) => name == n,
        (Why::Length(a, b), ErrorKind::WrongLength { actual_len, expected_len }) => a == actual_len && b == expected_len,
        (Why::Shape(k), ErrorKind::WrongShape { actual, .. }) => k == actual,
        (Why::Custom, ErrorKind::Custom(_)) => true,
        _ => false,
    };
    ensure!(ok, "the error is {e} instead of {why:?}");
    Ok(())
}

fn c28(ctx: &mut Ctx) {
    let n = ctx.n(100_000, 40);
    ctx.section("typed", n, |c| {
        let o = TyOpts { depth: 1 + c.r.below(6), ..Default::default() };
        let (reg, id, m) = gen_typed(&mut c.r, &o);
        case(c, &reg, id, &m)
    });
    let n = ctx.n(60_000, 40);
    ctx.section("wrappers", n, |c| {
        let o = TyOpts { depth: 2 + c.r.below(5), wide: 2 + c.r.below(2), wrappers: true, ..Default::default() };
        let (reg, id, m) = gen_typed(&mut c.r, &o);
        case(c, &reg, id, &m)
    });
    let n = ctx.n(400, 40);
    ctx.section("deep", n, |c| {
        let (reg, id, m) = deep_case(&mut c.r);
        case(c, &reg, id, &m)
    });
    let n = ctx.n(400, 20);
    ctx.section("long", n, |c| {
        let (reg, id, m) = long_case(&mut c.r);
        case(c, &reg, id, &m)
    });
    for k in ["out of range", "wrong kind of primitive", "wrong bit", "no such variant", "primitive for a variant", "field missing", "wrong number of fields", "primitive for a composite", "array of the wrong length", "primitive for a sequence", "as fields", "four or more steps"] {
        ctx.require(&format!("typed.{k}"), 300);
    }
}
