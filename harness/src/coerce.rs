//! Values changed in ways that encoding supports.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::model::*;
use crate::rng::Rng;
use crate::vgen::*;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

pub fn v(def: ValueDef<u64>, r: &mut Rng) -> Value<u64> {
    Value { value: def, context: r.u64() }
}
pub fn p(x: Primitive, r: &mut Rng) -> Value<u64> {
    v(ValueDef::Primitive(x), r)
}

pub struct Coercer<'a> {
    pub reg: &'a Reg,
    pub used: BTreeMap<&'static str, u64>,
}

impl<'a> Coercer<'a> {
    fn note(&mut self, w: &'static str) {
        *self.used.entry(w).or_default() += 1;
    }

    fn number(&mut self, m: &Mv, r: &mut Rng) -> Primitive {
        match m {
            Mv::U(n) if *n <= i128::MAX as u128 && r.chance(1, 3) => {
                self.note("unsigned as signed");
                Primitive::I128(*n as i128)
            }
            Mv::U(n) => Primitive::U128(*n),
            Mv::I(n) if *n >= 0 && r.chance(1, 3) => {
                self.note("signed as unsigned");
                Primitive::U128(*n as u128)
            }
            Mv::I(n) => Primitive::I128(*n),
            _ => unreachable!(),
        }
    }

    /// Are there several fields within the wrappers? None if what's there is a list.
    fn inside(&self, id: Id) -> Option<bool> {
        match self.reg.ty(id) {
            Ty::Tuple(ids) if ids.len() == 1 => self.inside(ids[0]),
            Ty::Struct(fs) if fs.len() == 1 => self.inside(fs[0].ty),
            Ty::Array(i, 1) => self.inside(*i),
            Ty::Tuple(x) if x.len() > 1 => Some(true),
            Ty::Struct(x) if x.len() > 1 => Some(true),
            Ty::Prim(_) | Ty::Enum(_) => Some(false),
            _ => None,
        }
    }

    /// A value for `m` of type `id`, changed in ways that encoding supports.
    pub fn coerce(&mut self, id: Id, m: &Mv, r: &mut Rng) -> Value<u64> {
        // peel wrappers off the type
        let mut chain: Vec<Option<String>> = vec![];
        let (mut ty, mut x) = (id, m);
        let mut in_compact = false;
        let mut arrays = false;
        let mut one = false;
        loop {
            match (self.reg.ty(ty), x) {
                (Ty::Compact(i), x2) => {
                    in_compact = true;
                    ty = *i;
                    x = x2;
                }
                (Ty::Tuple(ids), Mv::List(xs)) if ids.len() == 1 => {
                    chain.push(None);
                    ty = ids[0];
                    x = &xs[0];
                }
                (Ty::Struct(fs), Mv::List(xs)) if fs.len() == 1 => {
                    chain.push(fs[0].name.clone());
                    ty = fs[0].ty;
                    x = &xs[0];
                }
                // an array of one is a wrapper as well (around what isn't a composite, if the value has some wrapper)
                (Ty::Array(i, 1), Mv::List(xs)) if !in_compact && self.inside(*i).is_some() => {
                    one |= self.inside(*i) == Some(false);
                    chain.push(None);
                    arrays = true;
                    ty = *i;
                    x = &xs[0];
                }
                _ => break,
            }
        }
        let _ = in_compact;
        let (mut out, may_strip, names): (Value<u64>, bool, Vec<String>) = match (self.reg.ty(ty), x) {
            (Ty::Prim(_), Mv::U(_) | Mv::I(_)) => {
                let n = self.number(x, r);
                (p(n, r), true, vec![])
            }
            (Ty::Prim(PrimTy::I256), Mv::B256(b)) => (p(Primitive::I256(*b), r), true, vec![]),
            (Ty::Prim(_), Mv::B256(b)) => (p(Primitive::U256(*b), r), true, vec![]),
            (Ty::Prim(_), Mv::Bool(b)) => (p(Primitive::Bool(*b), r), true, vec![]),
            (Ty::Prim(_), Mv::Char(b)) => (p(Primitive::Char(*b), r), true, vec![]),
            (Ty::Prim(_), Mv::Str(b)) => (p(Primitive::String(b.clone()), r), true, vec![]),
            (Ty::Enum(vs), Mv::Var(k, xs)) => {
                let fs = &vs[*k].fields;
                let values = self.fields(fs, xs, r);
                (v(ValueDef::Variant(Variant { name: vs[*k].name.clone(), values }), r), true, vec![])
            }
            (Ty::Tuple(ids), Mv::List(xs)) => {
                let fs: Vec<F> = ids.iter().map(|i| F { name: None, ty: *i }).collect();
                let c = self.fields(&fs, xs, r);
                let names = names_of(&c);
                (v(ValueDef::Composite(c), r), ids.len() >= 2, names)
            }
            (Ty::Struct(fs), Mv::List(xs)) => {
                let c = self.fields(fs, xs, r);
                let names = names_of(&c);
                (v(ValueDef::Composite(c), r), fs.len() >= 2, names)
            }
            (Ty::Seq(i) | Ty::Array(i, _), Mv::List(xs)) => {
                let xs: Vec<Value<u64>> = xs.iter().map(|x| self.coerce(*i, x, r)).collect();
                (self.list(xs, r), false, vec![])
            }
            (Ty::Bits(..), Mv::Bits(bits)) => match r.below(4) {
                0 => {
                    self.note("list of booleans and 0/1 as bits");
                    let xs = bits
                        .iter()
                        .map(|b| {
                            let x = match r.below(3) {
                                0 => Primitive::Bool(*b),
                                1 => Primitive::U128(*b as u128),
                                _ => Primitive::I128(*b as i128),
                            };
                            p(x, r)
                        })
                        .collect();
                    (self.list(xs, r), false, vec![])
                }
                _ => (v(ValueDef::BitSequence(mk_bits(bits)), r), false, vec![]),
            },
            (t, x) => panic!("{t:?} {x:?}"),
        };
        let collide = chain.iter().any(|n| n.as_ref().map(|n| names.contains(n)).unwrap_or(false));
        if may_strip && !collide && r.chance(1, 2) {
            // any number of wrappers instead of the type's
            let k = if r.chance(1, 2) { 0 } else { r.below(4) }.max(one as usize);
            if k < chain.len() {
                self.note("wrappers missing");
                if arrays {
                    self.note(if one { "arrays of one missing around one" } else { "arrays of one missing" });
                }
            }
            if k > chain.len() {
                self.note("wrappers added");
            }
            for _ in 0..k {
                out = if r.chance(1, 3) {
                    let mut n = gen_name(r);
                    // (a name that one of the type's wrappers has would be lined up with that)
                    while chain.iter().any(|c| c.as_ref() == Some(&n)) || self.reg.types.iter().any(|t| matches!(t, Ty::Struct(f) if f.iter().any(|f| f.name.as_ref() == Some(&n)))) {
                        n.push('w');
                    }
                    v(ValueDef::Composite(Composite::Named(vec![(n, out)])), r)
                } else {
                    v(ValueDef::Composite(Composite::Unnamed(vec![out])), r)
                };
            }
        } else {
            // maybe an unused field beside the only one of a wrapper, and maybe without the wrappers around that
            let named: Vec<usize> = (0..chain.len()).filter(|k| chain[*k].is_some()).collect();
            let beside = if in_compact || named.is_empty() || !r.chance(1, 4) { None } else { Some(*r.pick(&named)) };
            for (k, name) in chain.iter().enumerate().rev() {
                out = match name {
                    Some(n) => {
                        let mut fields = vec![(n.clone(), out)];
                        if beside == Some(k) {
                            self.note("unused field beside the only one");
                            let x = if r.bool() { fields[0].1.clone() } else { gen_value(r, &VOpts::default(), 1, &mut |r| r.u64()) };
                            fields.insert(r.below(2), (format!("{n}{}", r.pick(&[" ", "_", "2"])), x));
                        }
                        v(ValueDef::Composite(Composite::Named(fields)), r)
                    }
                    None => v(ValueDef::Composite(Composite::Unnamed(vec![out])), r),
                };
                if beside == Some(k) && !arrays && chain[..k].iter().all(|n| n.is_none()) && r.bool() {
                    if k > 0 {
                        self.note("unused field, and wrappers missing");
                    }
                    break;
                }
            }
        }
        out
    }

    fn list(&mut self, xs: Vec<Value<u64>>, r: &mut Rng) -> Value<u64> {
        if r.chance(1, 5) {
            self.note("named list");
            let c = Composite::Named(xs.into_iter().map(|x| (gen_name(r), x)).collect());
            v(ValueDef::Composite(c), r)
        } else {
            v(ValueDef::Composite(Composite::Unnamed(xs)), r)
        }
    }

    fn fields(&mut self, fs: &[F], xs: &[Mv], r: &mut Rng) -> Composite<u64> {
        let vals: Vec<Value<u64>> = fs.iter().zip(xs).map(|(f, x)| self.coerce(f.ty, x, r)).collect();
        let named = !fs.is_empty() && fs.iter().all(|f| f.name.is_some());
        match (named, r.below(4)) {
            (true, 0) => {
                self.note("unnamed for named");
                Composite::Unnamed(vals)
            }
            (true, 1) => Composite::Named(fs.iter().map(|f| f.name.clone().unwrap()).zip(vals).collect()),
            (true, _) => {
                let mut items: Vec<(String, Value<u64>)> = fs.iter().map(|f| f.name.clone().unwrap()).zip(vals).collect();
                let before: Vec<String> = items.iter().map(|x| x.0.clone()).collect();
                r.shuffle(&mut items);
                if before.iter().zip(&items).any(|(a, b)| *a != b.0) {
                    self.note("fields reordered");
                }
                if r.bool() && items.len() > 1 {
                    self.note("unused fields");
                    for k in 0..r.range(1, 3) {
                        let at = r.below(items.len() + 1);
                        let mut n = format!("unused {k}");
                        if r.bool() {
                            // a near miss of a name in use
                            n = format!("{}{}", before[r.below(before.len())], *r.pick(&[" ", "_", "2", "\0"]));
                        }
                        if before.contains(&n) || items.iter().any(|x| x.0 == n) {
                            continue;
                        }
                        let x = if r.bool() { items[r.below(items.len())].1.clone() } else { gen_value(r, &VOpts::default(), 1, &mut |r| r.u64()) };
                        items.insert(at, (n, x));
                    }
                }
                Composite::Named(items)
            }
            (false, 0) if !fs.is_empty() && fs.iter().all(|f| f.name.is_none()) => {
                self.note("named for unnamed");
                let mut names: Vec<String> = vec![];
                for _ in 0..vals.len() {
                    let mut n = gen_name(r);
                    while names.contains(&n) {
                        n.push('x');
                    }
                    names.push(n);
                }
                Composite::Named(names.into_iter().zip(vals).collect())
            }
            _ => Composite::Unnamed(vals),
        }
    }
}

pub fn names_of<T>(c: &Composite<T>) -> Vec<String> {
    match c {
        Composite::Named(x) => x.iter().map(|x| x.0.clone()).collect(),
        _ => vec![],
    }
}

