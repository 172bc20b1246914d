//! C21 and C22: mapping contexts; lookups, accessors, constructors and conversions.
use super::text::show;
use crate::model::{mk_bits, unbits};
use crate::rng::Rng;
use crate::runner::*;
use crate::vgen::*;
use crate::Check;
use scale_value::{At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::rc::Rc;

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C21",
            run: c21,
            rule: "a case is a value with a distinct context on every node, mapped as a value, definition, composite and variant; non-trivial: more than one node; distinct by content",
            mem: false,
            term: true,
        },
        Check {
            id: "C22",
            run: c22,
            rule: "a case is a value with the locations looked up in it, or a number, string, list or map converted by every constructor there is; non-trivial: more than one node, or a number; distinct by content",
            mem: false,
            term: true,
        },
    ]
}

// ---------------------------------------------------------------- structure by hand

/// Equal in every part, without the crate's own notion of equality.
fn same<T>(a: &Value<T>, b: &Value<T>, ctx: &dyn Fn(&T, &T) -> bool) -> bool {
    ctx(&a.context, &b.context) && same_def(&a.value, &b.value, ctx)
}
fn same_def<T>(a: &ValueDef<T>, b: &ValueDef<T>, ctx: &dyn Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (ValueDef::Primitive(a), ValueDef::Primitive(b)) => same_prim(a, b),
        (ValueDef::BitSequence(a), ValueDef::BitSequence(b)) => unbits(a) == unbits(b),
        (ValueDef::Composite(a), ValueDef::Composite(b)) => same_comp(a, b, ctx),
        (ValueDef::Variant(a), ValueDef::Variant(b)) => a.name == b.name && same_comp(&a.values, &b.values, ctx),
        _ => false,
    }
}
fn same_comp<T>(a: &Composite<T>, b: &Composite<T>, ctx: &dyn Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (Composite::Named(a), Composite::Named(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1, ctx)),
        (Composite::Unnamed(a), Composite::Unnamed(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b, ctx)),
        _ => false,
    }
}
fn same_prim(a: &Primitive, b: &Primitive) -> bool {
    match (a, b) {
        (Primitive::Bool(a), Primitive::Bool(b)) => a == b,
        (Primitive::Char(a), Primitive::Char(b)) => a == b,
        (Primitive::String(a), Primitive::String(b)) => a == b,
        (Primitive::U128(a), Primitive::U128(b)) => a == b,
        (Primitive::I128(a), Primitive::I128(b)) => a == b,
        (Primitive::U256(a), Primitive::U256(b)) => a == b,
        (Primitive::I256(a), Primitive::I256(b)) => a == b,
        _ => false,
    }
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
/// Contexts replaced from outside in, in order.
fn mapped<T, U>(v: &Value<T>, f: &dyn Fn(&T) -> U) -> Value<U> {
    Value { context: f(&v.context), value: mapped_def(&v.value, f) }
}
fn mapped_def<T, U>(v: &ValueDef<T>, f: &dyn Fn(&T) -> U) -> ValueDef<U> {
    match v {
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Composite(c) => ValueDef::Composite(mapped_comp(c, f)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: mapped_comp(&x.values, f) }),
    }
}
fn mapped_comp<T, U>(c: &Composite<T>, f: &dyn Fn(&T) -> U) -> Composite<U> {
    match c {
        Composite::Named(x) => Composite::Named(x.iter().map(|(n, v)| (n.clone(), mapped(v, f))).collect()),
        Composite::Unnamed(x) => Composite::Unnamed(x.iter().map(|v| mapped(v, f)).collect()),
    }
}

// ---------------------------------------------------------------- C21

/// A context that can only be moved, and says so when it goes.
#[derive(Debug)]
struct Token {
    id: usize,
    gone: Rc<RefCell<Vec<u32>>>,
}
impl Drop for Token {
    fn drop(&mut self) {
        self.gone.borrow_mut()[self.id] += 1;
    }
}

fn numbered(r: &mut Rng, v: &Value<()>) -> (Value<u64>, usize) {
    // ids in an order of their own: not that of any walk
    let n = nodes(v);
    let mut ids: Vec<u64> = (0..n as u64).collect();
    r.shuffle(&mut ids);
    let k = Cell::new(0);
    let v = mapped(v, &|_| {
        let i = k.get();
        k.set(i + 1);
        ids[i]
    });
    (v, n)
}

fn map_all(c: &mut Case, v: &Value<u64>, n: usize) -> Res {
    // every context once, and in its place
    let f = |x: &u64| format!("{x}!");
    let want = mapped(v, &f);
    let log = Rc::new(RefCell::new(vec![]));
    let logging = |log: &Rc<RefCell<Vec<u64>>>| {
        let log = log.clone();
        move |x: u64| {
            log.borrow_mut().push(x);
            format!("{x}!")
        }
    };
    let check = |what: &str, log: &Rc<RefCell<Vec<u64>>>, lo: usize| -> Res {
        let mut l = log.take();
        l.sort();
        let n = l.len();
        l.dedup();
        ensure!(l.len() == n && n == lo, "{what}: {n} calls for {} different contexts of {lo}", l.len());
        Ok(())
    };
    let v1 = v.clone();
    let got = no_panic("Value::map_context", || v1.map_context(logging(&log)))?;
    ensure!(same(&got, &want, &eq), "mapping gave {got:?}\nexpected {want:?}");
    check("Value::map_context", &log, n)?;
    let v1 = v.value.clone();
    let got = no_panic("ValueDef::map_context", || v1.map_context(logging(&log)))?;
    ensure!(same_def(&got, &want.value, &eq), "mapping gave {got:?}\nexpected {want:?}");
    check("ValueDef::map_context", &log, n - 1)?;
    match (&v.value, &want.value) {
        (ValueDef::Composite(x), ValueDef::Composite(w)) => {
            let x = x.clone();
            let got = no_panic("Composite::map_context", || x.map_context(logging(&log)))?;
            ensure!(same_comp(&got, w, &eq), "mapping gave {got:?}\nexpected {w:?}");
            check("Composite::map_context", &log, n - 1)?;
            c.count("composites", 1);
        }
        (ValueDef::Variant(x), ValueDef::Variant(w)) => {
            let x = x.clone();
            let got = no_panic("Variant::map_context", || x.map_context(logging(&log)))?;
            ensure!(got.name == w.name && same_comp(&got.values, &w.values, &eq), "mapping gave {got:?}\nexpected {w:?}");
            check("Variant::map_context", &log, n - 1)?;
            c.count("variants", 1);
        }
        _ => {}
    }
    // none, the same, and the same again
    let v1 = v.clone();
    let got = no_panic("remove_context", || v1.remove_context())?;
    let want = mapped(v, &|_| ());
    ensure!(same(&got, &want, &|_, _| true), "remove_context gave {got:?}\nexpected {want:?}");
    let got = v.clone().map_context(|x| x);
    ensure!(same(&got, v, &eq), "mapping by identity gave {got:?}\nexpected {v:?}");
    let (f, g) = (|x: u64| x.wrapping_mul(3) ^ 5, |x: u64| (x, x % 7));
    let once = v.clone().map_context(move |x| g(f(x)));
    let twice = v.clone().map_context(f).map_context(g);
    ensure!(same(&once, &twice, &eq), "mapping twice gave {twice:?}\nonce {once:?}");
    c.count("contexts", n as u64);
    // contexts are handed over, not copied
    let gone = Rc::new(RefCell::new(vec![0; n]));
    let owned = mapped(v, &|x| Token { id: *x as usize, gone: gone.clone() });
    let kept = owned.map_context(|t| (t, 1u8));
    ensure!(gone.borrow().iter().all(|x| *x == 0), "contexts were dropped when mapped");
    ensure!(same(&mapped(&kept, &|t| t.0.id as u64), v, &eq), "contexts were moved elsewhere");
    drop(kept);
    ensure!(gone.borrow().iter().all(|x| *x == 1), "contexts were lost: {:?}", gone.borrow());
    // and gone once if the function gives up on the way
    let gone = Rc::new(RefCell::new(vec![0; n]));
    let owned = mapped(v, &|x| Token { id: *x as usize, gone: gone.clone() });
    let stop = c.r.below(n);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        owned.map_context(move |t| {
            if t.id == stop {
                std::panic::resume_unwind(Box::new(()));
            }
            t
        })
    }));
    ensure!(r.is_err(), "the function was not asked about every context");
    ensure!(gone.borrow().iter().all(|x| *x == 1), "contexts were lost or dropped twice: {:?}", gone.borrow());
    Ok(())
}

fn c21(ctx: &mut Ctx) {
    let n = ctx.n(40_000, 15);
    ctx.section("map", n, |c| {
        let o = VOpts { depth: c.r.range(0, 6), wide: c.r.range(1, 5), big256: true, unique_names: c.r.bool() };
        let v = value0(&mut c.r, &o);
        let (v, n) = numbered(&mut c.r, &v);
        c.desc = show(&v);
        if n > 1 {
            c.nontrivial(&c.desc.clone());
        }
        map_all(c, &v, n)
    });
    let n = ctx.n(20, 10);
    ctx.section("large", n, |c| {
        // long, and deep
        let k = c.r.range(500, 3_000);
        let mut v: Value<()> = Value::u128(0);
        if c.r.bool() {
            for i in 0..k / 4 {
                v = match c.r.below(4) {
                    0 => Value::unnamed_composite([Value::bool(true), v]),
                    1 => Value::named_composite([("a", v), ("b", Value::u128(i as u128))]),
                    2 => Value::unnamed_variant("V", [v]),
                    _ => Value::named_variant("W", [("x", v)]),
                };
            }
        } else {
            let xs = (0..k).map(|i| Value::u128(i as u128)).collect::<Vec<_>>();
            v = match c.r.below(3) {
                0 => Value::unnamed_composite(xs),
                1 => Value::named_composite(xs.into_iter().enumerate().map(|(i, x)| (format!("f{i}"), x))),
                _ => Value::unnamed_variant("V", xs),
            };
        }
        let (v, n) = numbered(&mut c.r, &v);
        c.nontrivial(format!("{n}"));
        map_all(c, &v, n)
    });
    ctx.require("map.composites", 5_000);
    ctx.require("map.variants", 2_000);
    ctx.require("map.contexts", 100_000);
}

// ---------------------------------------------------------------- C22: lookups

#[derive(Clone, Debug)]
enum Loc {
    Index(usize),
    Name(String),
}
fn find_comp<'a, T>(c: &'a Composite<T>, l: &Loc) -> Option<&'a Value<T>> {
    match (c, l) {
        (Composite::Named(x), Loc::Index(i)) => {
            let mut k = 0;
            for (_, v) in x {
                if k == *i {
                    return Some(v);
                }
                k += 1;
            }
            None
        }
        (Composite::Unnamed(x), Loc::Index(i)) => {
            let mut k = 0;
            for v in x {
                if k == *i {
                    return Some(v);
                }
                k += 1;
            }
            None
        }
        (Composite::Named(x), Loc::Name(n)) => {
            for (m, v) in x {
                if m == n {
                    return Some(v);
                }
            }
            None
        }
        _ => None,
    }
}
fn comp_of<T>(v: &Value<T>) -> Option<&Composite<T>> {
    match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
fn gen_loc<T>(r: &mut Rng, c: Option<&Composite<T>>) -> Loc {
    let n = c.map_or(0, |c| match c {
        Composite::Named(x) => x.len(),
        Composite::Unnamed(x) => x.len(),
    });
    if r.bool() {
        Loc::Index(match r.below(8) {
            0 => n,
            1 => n + 1,
            2 => usize::MAX,
            3 => *r.pick(&[1 << 32, 1 << 16, 256, usize::MAX / 2]),
            _ => r.below(n.max(1)),
        })
    } else {
        let name = match c {
            Some(Composite::Named(x)) if !x.is_empty() => r.pick(x).0.clone(),
            _ => gen_name(r),
        };
        Loc::Name(match r.below(10) {
            0 => name.to_uppercase(),
            1 => format!("{name} "),
            2 => name.chars().skip(1).collect(),
            3 => {
                let mut s = name;
                s.pop();
                s
            }
            4 => r.below(n + 1).to_string(),
            5 => gen_name(r),
            _ => name,
        })
    }
}
/// The same location in every form it can have.
fn at_all<'a, T, A: At<T>>(x: &'a A, l: &Loc, k: usize) -> Option<&'a Value<T>> {
    match l {
        Loc::Index(i) => match k % 3 {
            0 => x.at(*i),
            1 => x.at(i),
            _ => x.at(&i),
        },
        Loc::Name(n) => match k % 4 {
            0 => x.at(n.as_str()),
            1 => x.at(n.clone()),
            2 => x.at(n),
            _ => x.at(&n.as_str()),
        },
    }
}
fn same_ref<T>(a: Option<&Value<T>>, b: Option<&Value<T>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        (None, None) => true,
        _ => false,
    }
}

/// Look up further and further into what was found.
fn follow<T>(x: &Option<&Value<T>>, path: &[Loc], k: usize) -> Option<*const Value<T>> {
    match path {
        [] => x.map(|x| x as *const _),
        [l, rest @ ..] => follow(&at_all(x, l, k), rest, k),
    }
}
fn lookups(c: &mut Case) -> Res {
    let o = VOpts { depth: c.r.range(0, 5), wide: c.r.range(1, 6), big256: true, unique_names: c.r.chance(1, 3) };
    let mut k = 0u32;
    let v: Value<u32> = gen_value(&mut c.r, &o, o.depth, &mut |_| {
        k += 1;
        k
    });
    c.desc = show(&v);
    if k > 1 {
        c.nontrivial(&c.desc.clone());
    }
    for _ in 0..12 {
        // a path into it
        let mut path = vec![];
        let mut want = Some(&v);
        for _ in 0..c.r.range(1, 5) {
            let l = gen_loc(&mut c.r, want.and_then(comp_of));
            want = want.and_then(comp_of).and_then(|x| find_comp(x, &l));
            path.push(l);
        }
        let form = c.r.below(12);
        let got = no_panic("at", || follow(&at_all(&v, &path[0], form), &path[1..], form))?;
        ensure!(got == want.map(|x| x as *const _), "{path:?} did not find {want:?}, but another place");
        // from a composite or variant on
        let l = &path[0];
        let want = comp_of(&v).and_then(|x| find_comp(x, l));
        if let Some(x) = comp_of(&v) {
            ensure!(same_ref(at_all(x, l, form), want), "{l:?} of a composite found {:?}", at_all(x, l, form));
            ensure!(same_ref(at_all(&Some(x), l, form), want), "{l:?} of an optional composite found {:?}", at_all(&Some(x), l, form));
        }
        if let ValueDef::Variant(x) = &v.value {
            ensure!(same_ref(at_all(x, l, form), want), "{l:?} of a variant found {:?}", at_all(x, l, form));
            ensure!(same_ref(at_all(&Some(x), l, form), want), "{l:?} of an optional variant found {:?}", at_all(&Some(x), l, form));
        }
        ensure!(at_all(&None::<&Value<u32>>, l, form).is_none(), "something was found in nothing");
        ensure!(at_all(&None::<&Composite<u32>>, l, form).is_none(), "something was found in nothing");
        c.count(if want.is_some() { "found" } else { "absent" }, 1);
    }
    // every name and index there is
    let mut err = None;
    let mut looked = 0;
    walk(&v, &mut |v| {
        let x = comp_of(v);
        let n = match x {
            Some(Composite::Named(x)) => {
                for (n, _) in x {
                    let first = x.iter().find(|y| y.0 == *n).map(|y| &y.1);
                    looked += 1;
                    if !same_ref(v.at(n.as_str()), first) {
                        err = Some(format!("{n:?} found {:?}", v.at(n.as_str())));
                    }
                }
                x.len()
            }
            Some(Composite::Unnamed(x)) => x.len(),
            None => 0,
        };
        for i in 0..n + 2 {
            looked += 1;
            if !same_ref(v.at(i), x.and_then(|x| find_comp(x, &Loc::Index(i)))) {
                err = Some(format!("{i} found {:?}", v.at(i)));
            }
        }
        // accessors
        if let Err(e) = accessors(v) {
            err = Some(e);
        }
    });
    c.count("looked_up", looked);
    match err {
        Some(e) => Err(Fail::from(e)),
        None => Ok(()),
    }
}

fn accessors<T: Debug + Clone + PartialEq>(v: &Value<T>) -> Result<(), String> {
    let p = match &v.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    let b = match p {
        Some(Primitive::Bool(b)) => Some(*b),
        _ => None,
    };
    let ch = match p {
        Some(Primitive::Char(b)) => Some(*b),
        _ => None,
    };
    let u = match p {
        Some(Primitive::U128(b)) => Some(*b),
        _ => None,
    };
    let i = match p {
        Some(Primitive::I128(b)) => Some(*b),
        _ => None,
    };
    let s = match p {
        Some(Primitive::String(b)) => Some(b.as_str()),
        _ => None,
    };
    let bad = |what: &str| Err(format!("{what} of {v:?} is wrong"));
    if v.as_bool() != b || p.is_some_and(|p| p.as_bool() != b) {
        return bad("as_bool");
    }
    if v.as_char() != ch || p.is_some_and(|p| p.as_char() != ch) {
        return bad("as_char");
    }
    if v.as_u128() != u || p.is_some_and(|p| p.as_u128() != u) {
        return bad("as_u128");
    }
    if v.as_i128() != i || p.is_some_and(|p| p.as_i128() != i) {
        return bad("as_i128");
    }
    if v.as_str() != s || p.is_some_and(|p| p.as_str() != s) {
        return bad("as_str");
    }
    if let Some(c) = comp_of(v) {
        let items: Vec<&Value<T>> = match c {
            Composite::Named(x) => x.iter().map(|x| &x.1).collect(),
            Composite::Unnamed(x) => x.iter().collect(),
        };
        if c.len() != items.len() || c.is_empty() != items.is_empty() {
            return bad("len or is_empty");
        }
        let mut it = c.values();
        for k in 0..items.len() {
            if it.len() != items.len() - k || it.size_hint() != (items.len() - k, Some(items.len() - k)) {
                return bad("length of values()");
            }
            if !same_ref(it.next(), Some(items[k])) {
                return bad("values()");
            }
        }
        if it.len() != 0 || it.next().is_some() {
            return bad("end of values()");
        }
        let mut it = c.clone().into_values();
        for k in 0..items.len() {
            if it.len() != items.len() - k {
                return bad("length of into_values()");
            }
            if !it.next().is_some_and(|x| same(&x, items[k], &eq)) {
                return bad("into_values()");
            }
        }
        if it.len() != 0 || it.next().is_some() {
            return bad("end of into_values()");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22: constructors

fn prim(p: Primitive) -> Value<()> {
    Value { value: ValueDef::Primitive(p), context: () }
}
fn is(what: &str, got: Value<()>, want: &Value<()>) -> Res {
    ensure!(same(&got, want, &|_, _| true), "{what} gave {got:?}\nexpected {want:?}");
    Ok(())
}
fn is_def<T: Debug>(what: &str, got: ValueDef<T>, want: &ValueDef<T>) -> Res {
    ensure!(same_def(&got, want, &|_, _| true), "{what} gave {got:?}\nexpected {want:?}");
    Ok(())
}
fn is_prim(what: &str, got: Primitive, want: &Primitive) -> Res {
    ensure!(same_prim(&got, want), "{what} gave {got:?}\nexpected {want:?}");
    Ok(())
}
fn from_all<T>(what: &str, x: T, want: Primitive) -> Res
where
    T: Clone,
    Primitive: From<T>,
    ValueDef<()>: From<T>,
    ValueDef<u8>: From<T>,
    Value<()>: From<T>,
{
    is_prim(what, Primitive::from(x.clone()), &want)?;
    is_def(what, ValueDef::<()>::from(x.clone()), &ValueDef::Primitive(want.clone()))?;
    is_def(what, ValueDef::<u8>::from(x.clone()), &ValueDef::Primitive(want.clone()))?;
    is(what, Value::from(x), &prim(want))
}

fn number(u: u128) -> Res {
    let i = u as i128;
    is("Value::u128", Value::u128(u), &prim(Primitive::U128(u)))?;
    is("Value::i128", Value::i128(i), &prim(Primitive::I128(i)))?;
    is_prim("Primitive::u128", Primitive::u128(u), &Primitive::U128(u))?;
    is_prim("Primitive::i128", Primitive::i128(i), &Primitive::I128(i))?;
    macro_rules! from { ($v:ident $w:ty: $($t:ty),*) => { $(
        from_all(concat!("from ", stringify!($t)), u as $t, Primitive::$v((u as $t) as $w))?;
    )* } }
    from!(U128 u128: u8, u16, u32, u64, usize, u128);
    from!(I128 i128: i8, i16, i32, i64, isize, i128);
    Ok(())
}

fn constructors(c: &mut Case) -> Res {
    let o = VOpts { depth: 2, wide: 3, big256: true, unique_names: false };
    let n = c.r.below(5);
    let vals: Vec<Value<()>> = (0..n).map(|_| value0(&mut c.r, &o)).collect();
    let names: Vec<String> = (0..n).map(|_| gen_name(&mut c.r)).collect();
    let name = gen_name(&mut c.r);
    let pairs: Vec<(String, Value<()>)> = names.iter().cloned().zip(vals.iter().cloned()).collect();
    c.desc = format!("{name:?} {names:?} {vals:?}");
    c.nontrivial(&c.desc.clone());
    let comp = |x| Value { value: ValueDef::Composite(x), context: () };
    let var = |x| Value { value: ValueDef::Variant(Variant { name: name.clone(), values: x }), context: () };
    let un = Composite::Unnamed(vals.clone());
    let na = Composite::Named(pairs.clone());
    let refs = || names.iter().map(|s| s.as_str()).zip(vals.iter().cloned());
    is("named_composite", Value::named_composite(pairs.clone()), &comp(na.clone()))?;
    is("named_composite of &str", Value::named_composite(refs()), &comp(na.clone()))?;
    is("unnamed_composite", Value::unnamed_composite(vals.clone()), &comp(un.clone()))?;
    is("unnamed_composite of an iterator", Value::unnamed_composite(vals.iter().cloned()), &comp(un.clone()))?;
    is("variant", Value::variant(name.clone(), na.clone()), &var(na.clone()))?;
    is("variant of &str", Value::variant(name.as_str(), un.clone()), &var(un.clone()))?;
    is("named_variant", Value::named_variant(name.clone(), pairs.clone()), &var(na.clone()))?;
    is("named_variant of &str", Value::named_variant(name.as_str(), refs()), &var(na.clone()))?;
    is("unnamed_variant", Value::unnamed_variant(name.as_str(), vals.clone()), &var(un.clone()))?;
    for (what, got, want) in [
        ("Composite::named", Composite::named(pairs.clone()), &na),
        ("Composite::named of &str", Composite::named(refs()), &na),
        ("Composite::unnamed", Composite::unnamed(vals.clone()), &un),
        ("Composite from pairs", Composite::from(pairs.clone()), &na),
        ("Composite from pairs with &str", Composite::from(refs().collect::<Vec<_>>()), &na),
        ("Composite from values", Composite::from(vals.clone()), &un),
        ("fields of named_fields", Variant::named_fields(name.as_str(), pairs.clone()).values, &na),
        ("fields of unnamed_fields", Variant::unnamed_fields(name.as_str(), vals.clone()).values, &un),
    ] {
        ensure!(same_comp(&got, want, &|_, _| true), "{what} gave {got:?}\nexpected {want:?}");
    }
    ensure!(Variant::<()>::named_fields(name.clone(), pairs.clone()).name == name, "named_fields changed the name");
    ensure!(Variant::<()>::unnamed_fields(name.clone(), vals.clone()).name == name, "unnamed_fields changed the name");
    is("Value from pairs", Value::from(pairs.clone()), &comp(na.clone()))?;
    is_def("ValueDef from pairs", ValueDef::from(pairs.clone()), &comp(na.clone()).value)?;
    is("Value from values", Value::from(vals.clone()), &comp(un.clone()))?;
    is_def("ValueDef from values", ValueDef::from(vals.clone()), &comp(un.clone()).value)?;
    is("Value from Composite", Value::from(na.clone()), &comp(na.clone()))?;
    is_def("ValueDef from Composite", ValueDef::from(un.clone()), &comp(un.clone()).value)?;
    let x = Variant { name: name.clone(), values: na.clone() };
    is("Value from Variant", Value::from(x.clone()), &var(na.clone()))?;
    is_def("ValueDef from Variant", ValueDef::from(x), &var(na.clone()).value)?;
    // lists and maps of things that are values themselves
    let bytes = {
        let n = c.r.below(40);
        c.r.bytes(n)
    };
    let of = |b: &[u8]| comp(Composite::Unnamed(b.iter().map(|b| prim(Primitive::U128(*b as u128))).collect()));
    is("from_bytes", Value::from_bytes(&bytes), &of(&bytes))?;
    is("from_bytes of an array", Value::from_bytes([1u8, 0, 255]), &of(&[1, 0, 255]))?;
    is("from_bytes of a string", Value::from_bytes(&name), &of(name.as_bytes()))?;
    is("Value from bytes", Value::from(bytes.clone()), &of(&bytes))?;
    let strs = |x: &[String]| comp(Composite::Unnamed(x.iter().map(|s| prim(Primitive::String(s.clone()))).collect()));
    is("Value from strings", Value::from(names.clone()), &strs(&names))?;
    is("Value from strs", Value::from(names.iter().map(|s| s.as_str()).collect::<Vec<_>>()), &strs(&names))?;
    let map: Vec<(&str, i64)> = names.iter().map(|s| (s.as_str(), c.r.int(64) as i64)).collect();
    let want = comp(Composite::Named(map.iter().map(|(k, v)| (k.to_string(), prim(Primitive::I128(*v as i128)))).collect()));
    is("Value from names and numbers", Value::from(map), &want)?;
    // primitives
    let s = gen_string(&mut c.r, 12);
    is("Value::string", Value::string(s.clone()), &prim(Primitive::String(s.clone())))?;
    is("Value::string of &str", Value::string(s.as_str()), &prim(Primitive::String(s.clone())))?;
    from_all("from String", s.clone(), Primitive::String(s.clone()))?;
    from_all("from &str", s.as_str(), Primitive::String(s.clone()))?;
    let ch = gen_char(&mut c.r);
    is("Value::char", Value::char(ch), &prim(Primitive::Char(ch)))?;
    from_all("from char", ch, Primitive::Char(ch))?;
    let b = c.r.bool();
    is("Value::bool", Value::bool(b), &prim(Primitive::Bool(b)))?;
    from_all("from bool", b, Primitive::Bool(b))?;
    let p = gen_primitive(&mut c.r, &o);
    is("Value::primitive", Value::primitive(p.clone()), &prim(p.clone()))?;
    is_def("ValueDef from Primitive", ValueDef::<()>::from(p.clone()), &ValueDef::Primitive(p))?;
    let n = c.r.below(70);
    let bits: Vec<bool> = (0..n).map(|_| c.r.bool()).collect();
    let bv: BitSequence = mk_bits(&bits);
    let want = Value { value: ValueDef::BitSequence(bv.clone()), context: () };
    is("bit_sequence", Value::bit_sequence(bv.clone()), &want)?;
    is("Value from bits", Value::from(bv.clone()), &want)?;
    is_def("ValueDef from bits", ValueDef::<u8>::from(bv.clone()), &ValueDef::BitSequence(bv))?;
    // contexts
    let d = var(na).value;
    is("without_context", Value::without_context(d.clone()), &Value { value: d.clone(), context: () })?;
    let k = c.r.u64();
    let d: ValueDef<u64> = mapped_def(&d, &|_| 7);
    let got = Value::with_context(d.clone(), k);
    ensure!(got.context == k && same_def(&got.value, &d, &eq), "with_context gave {got:?}");
    number(c.r.uint(128))
}

// ---------------------------------------------------------------- C22: equality

/// Change one thing about one node.
fn change(r: &mut Rng, v: &mut Value<u32>) {
    let n = nodes(v);
    let mut k = r.below(n);
    fn at<'a>(v: &'a mut Value<u32>, k: &mut usize) -> Option<&'a mut Value<u32>> {
        if *k == 0 {
            return Some(v);
        }
        *k -= 1;
        let c = match &mut v.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(x) => &mut x.values,
            _ => return None,
        };
        match c {
            Composite::Named(x) => x.iter_mut().find_map(|x| at(&mut x.1, k)),
            Composite::Unnamed(x) => x.iter_mut().find_map(|x| at(x, k)),
        }
    }
    let Some(v) = at(v, &mut k) else { return };
    if r.chance(1, 5) {
        v.context ^= 1;
        return;
    }
    fn comp(r: &mut Rng, c: &mut Composite<u32>) {
        *c = match std::mem::replace(c, Composite::Unnamed(vec![])) {
            Composite::Named(mut x) if !x.is_empty() => {
                let i = r.below(x.len());
                match r.below(5) {
                    0 => {
                        x[i].0.push('x');
                    }
                    1 => {
                        x.remove(i);
                    }
                    2 => {
                        let y = x[i].clone();
                        x.push(y);
                    }
                    3 if x.len() > 1 => x.rotate_left(1),
                    _ => {
                        *c = Composite::Unnamed(x.into_iter().map(|x| x.1).collect());
                        return;
                    }
                }
                Composite::Named(x)
            }
            Composite::Unnamed(mut x) if !x.is_empty() => {
                let i = r.below(x.len());
                match r.below(4) {
                    0 => {
                        x.remove(i);
                    }
                    1 => {
                        let y = x[i].clone();
                        x.push(y);
                    }
                    2 if x.len() > 1 => x.rotate_left(1),
                    _ => {
                        *c = Composite::Named(x.into_iter().map(|x| (String::new(), x)).collect());
                        return;
                    }
                }
                Composite::Unnamed(x)
            }
            Composite::Named(_) => Composite::Unnamed(vec![]),
            Composite::Unnamed(_) => Composite::Named(vec![]),
        };
    }
    match &mut v.value {
        ValueDef::Primitive(p) => {
            *p = match p {
                Primitive::Bool(b) => Primitive::Bool(!*b),
                Primitive::U128(n) if r.bool() => Primitive::I128(*n as i128),
                Primitive::I128(n) if r.bool() => Primitive::U128(*n as u128),
                Primitive::U128(n) => Primitive::U128(*n ^ (1 << r.below(128))),
                Primitive::I128(n) => Primitive::I128(*n ^ (1 << r.below(128))),
                Primitive::U256(b) if r.bool() => Primitive::I256(*b),
                Primitive::I256(b) if r.bool() => Primitive::U256(*b),
                Primitive::U256(b) => {
                    let mut b = *b;
                    b[r.below(32)] ^= 1 << r.below(8);
                    Primitive::U256(b)
                }
                Primitive::I256(b) => {
                    let mut b = *b;
                    b[r.below(32)] ^= 1 << r.below(8);
                    Primitive::I256(b)
                }
                Primitive::Char(c) if r.bool() => Primitive::String(c.to_string()),
                Primitive::Char(_) => Primitive::Char(gen_char(r)),
                Primitive::String(s) => match r.below(3) {
                    0 => Primitive::String(format!("{s}\0")),
                    1 => Primitive::String(s.to_uppercase()),
                    _ => Primitive::String(gen_string(r, 4)),
                },
            }
        }
        ValueDef::BitSequence(b) => {
            let mut x = unbits(b);
            match r.below(3) {
                0 => x.push(false),
                1 if !x.is_empty() => {
                    let i = r.below(x.len());
                    x[i] = !x[i];
                }
                _ => {
                    x.pop();
                }
            }
            *b = mk_bits(&x);
        }
        ValueDef::Composite(c) if r.chance(1, 4) => {
            v.value = ValueDef::Variant(Variant { name: "".into(), values: c.clone() });
        }
        ValueDef::Variant(x) if r.chance(1, 4) => {
            v.value = ValueDef::Composite(x.values.clone());
        }
        ValueDef::Variant(x) if r.chance(1, 3) => x.name.push('_'),
        ValueDef::Composite(c) => comp(r, c),
        ValueDef::Variant(x) => comp(r, &mut x.values),
    }
}
fn equality(c: &mut Case) -> Res {
    let o = VOpts { depth: c.r.range(0, 4), wide: 4, big256: true, unique_names: false };
    let v: Value<u32> = gen_value(&mut c.r, &o, o.depth, &mut |r| r.below(3) as u32);
    c.desc = show(&v);
    c.nontrivial(&c.desc.clone());
    let copy = no_panic("clone", || v.clone())?;
    ensure!(same(&copy, &v, &eq), "a clone of {v:?} is {copy:?}");
    ensure!(copy == v && v == copy && !(copy != v), "a clone is not equal to its original {v:?}");
    for _ in 0..6 {
        let mut w = v.clone();
        for _ in 0..c.r.range(1, 3) {
            change(&mut c.r, &mut w);
        }
        let want = same(&v, &w, &eq);
        ensure!((v == w) == want && (w == v) == want && (v != w) != want, "{v:?} and {w:?} are {} equal", if want { "not" } else { "" });
        ensure!((v.value == w.value) == same_def(&v.value, &w.value, &eq), "definitions {v:?} and {w:?} compare wrongly");
        c.count(if want { "equal" } else { "different" }, 1);
    }
    Ok(())
}

fn c22(ctx: &mut Ctx) {
    let n = ctx.n(40_000, 15);
    ctx.section("lookups", n, lookups);
    let n = ctx.n(20_000, 15);
    ctx.section("constructors", n, constructors);
    let n = ctx.n(20_000, 15);
    ctx.section("equality", n, equality);
    ctx.section("numbers", 129, |c| {
        let bit = c.index as u32;
        c.nontrivial(bit.to_string());
        let mut n = 0;
        for d in -3i128..=3 {
            let u = if bit == 128 { u128::MAX } else { 1u128 << bit };
            for u in [u.wrapping_add(d as u128), u.wrapping_neg().wrapping_add(d as u128)] {
                number(u)?;
                let p = Value { value: ValueDef::Primitive(if d & 1 == 0 { Primitive::U128(u) } else { Primitive::I128(u as i128) }), context: 3u8 };
                accessors(&p).map_err(Fail::from)?;
                n += 1;
            }
        }
        c.count("converted", n);
        Ok(())
    });
    let n = ctx.n(200, 15);
    ctx.section("long", n, |c| {
        let n = crate::dict::length_to(&mut c.r, 100_000).max(1);
        let mut id = 0u32;
        let mut item = || {
            id += 1;
            Value { value: ValueDef::Primitive(Primitive::U128(id as u128)), context: id }
        };
        let named = c.r.bool();
        let mut whole: Value<u32> = if named {
            Value { value: ValueDef::Composite(Composite::Named((0..n).map(|k| (format!("k{k}"), item())).collect())), context: 0 }
        } else {
            Value { value: ValueDef::Composite(Composite::Unnamed((0..n).map(|_| item()).collect())), context: 0 }
        };
        c.desc = format!("{n} values, with names: {named}");
        c.nontrivial(&c.desc.clone());
        if c.r.bool() {
            let ValueDef::Composite(values) = whole.value else { unreachable!() };
            whole.value = ValueDef::Variant(Variant { name: "V".into(), values });
        }
        for k in [0, n - 1, n, n + 1, n / 2, c.r.below(n), c.r.below(n), usize::MAX - 1, n + (1 << 32), n + (1 << 16)] {
            let want = (k < n).then(|| k as u32 + 1);
            ensure!(whole.at(k).map(|v| v.context) == want, "at({k}) gives {:?}", whole.at(k));
            let name = format!("k{k}");
            let want = want.filter(|_| named);
            ensure!(whole.at(&name).map(|v| v.context) == want, "at({name:?}) gives {:?}", whole.at(&name));
        }
        let comp = match &whole.value {
            ValueDef::Composite(x) => x,
            ValueDef::Variant(x) => &x.values,
            _ => unreachable!(),
        };
        ensure!(comp.len() == n && !comp.is_empty(), "its length is {}", comp.len());
        ensure!(comp.values().map(|v| v.context).eq(1..=n as u32), "its values are others");
        ensure!(comp.values().len() == n && comp.values().size_hint() == (n, Some(n)), "there are as many as {:?} values", comp.values().size_hint());
        let k = c.r.below(n);
        let mut other = whole.clone();
        ensure!(other == whole, "a clone is not equal to its original");
        let comp = match &mut other.value {
            ValueDef::Composite(x) => x,
            ValueDef::Variant(x) => &mut x.values,
            _ => unreachable!(),
        };
        match comp {
            Composite::Unnamed(x) => x[k].value = ValueDef::Primitive(Primitive::Bool(true)),
            Composite::Named(x) => x[k].0.push('x'),
        }
        ensure!(other != whole && other.value != whole.value, "equal although the item {k} differs");
        Ok(())
    });
    // all numbers of 16 bits, and all characters of the basic plane
    ctx.section("exhaustive", 1, |c| {
        for n in 0..=u16::MAX {
            number(n as u128)?;
            number((n as i16) as u128)?;
            if let Some(ch) = char::from_u32(n as u32) {
                from_all("from char", ch, Primitive::Char(ch))?;
                accessors(&Value::char(ch)).map_err(Fail::from)?;
            }
        }
        c.count("converted", 3 << 16);
        Ok(())
    });
    ctx.require("lookups.found", 20_000);
    ctx.require("lookups.absent", 20_000);
    ctx.require("equality.different", 20_000);
    ctx.require("equality.equal", 100);
    ctx.require("numbers.converted", 1_000);
}
