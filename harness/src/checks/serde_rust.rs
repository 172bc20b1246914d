//! C19 and C20: Rust data to values and back, and values into Rust types.
use super::rust_types::Arb;
use super::text::show;
use crate::model::unbits;
use crate::rng::Rng;
use crate::runner::*;
use crate::vgen::*;
use crate::Check;
use codec::{Compact, Encode};
use scale_info::TypeInfo;
use scale_value::serde::{from_value, to_value, DeserializerError};
use scale_value::{Composite, Primitive, Value, ValueDef};
use serde::de::{self, DeserializeOwned};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::{self, Debug};
use std::num::{NonZeroI16, NonZeroU64, NonZeroU8, Wrapping};

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            run: c19,
            rule: "a case is an instance of a Rust type, converted to a value, from it, from equivalent shapes of it and from its SCALE bytes; non-trivial: the shape has more than one node, distinct by type and shape",
            mem: false,
            term: true,
        },
        Check {
            id: "C20",
            run: c20,
            rule: "a case is a value converted into a Rust type through every deserializer; non-trivial: a composite, variant or bit sequence, or a number at a boundary; distinct by type and value",
            mem: false,
            term: true,
        },
    ]
}

type Val = Value<()>;

// ---------------------------------------------------------------- the model

/// How to write down the shape of some data.
pub struct Shaper {
    /// leave newtype structs out
    transparent: bool,
    /// vary it in ways that make no difference
    vary: Option<Rng>,
    /// a newtype struct was written
    newtypes: bool,
    pub varied: u64,
}
impl Shaper {
    fn plain(transparent: bool) -> Self {
        Shaper { transparent, vary: None, newtypes: false, varied: 0 }
    }
    fn one_in(&mut self, n: usize) -> bool {
        match &mut self.vary {
            Some(r) => {
                let b = r.chance(1, n);
                self.varied += b as u64;
                b
            }
            None => false,
        }
    }
}

pub trait Model: Serialize + DeserializeOwned + Arb + PartialEq + Debug + Clone + 'static {
    fn shape(&self, s: &mut Shaper) -> Val;
    /// Could this have been read from that?
    fn reflects(v: &Val, t: &Self) -> bool;
    /// What stands for a field which is not there
    fn absent() -> Option<Self> {
        None
    }
}

fn values_of(v: &Val) -> Option<&Composite<()>> {
    match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
/// Items of anything that has any, names ignored.
fn items(v: &Val) -> Option<Vec<&Val>> {
    values_of(v).map(|c| c.values().collect())
}
fn list<'a>(x: impl IntoIterator<Item = Val>) -> Val {
    Value::unnamed_composite(x)
}
fn variant(n: &str, c: Composite<()>) -> Val {
    Value::variant(n, c)
}

macro_rules! model_int {
    ($($t:ty: $sign:ident),*) => { $(impl Model for $t {
        fn shape(&self, s: &mut Shaper) -> Val {
            let other = s.one_in(3);
            let big = || Value::$sign((*self).into());
            if !other { return big(); }
            // the other signedness, if it can be
            match (u128::try_from(*self), i128::try_from(*self)) {
                (Ok(u), Ok(i)) => match big().value {
                    ValueDef::Primitive(Primitive::U128(_)) => Value::i128(i),
                    _ => Value::u128(u),
                },
                _ => big(),
            }
        }
        fn reflects(v: &Val, t: &Self) -> bool {
            match &v.value {
                ValueDef::Primitive(Primitive::U128(n)) => u128::try_from(*t) == Ok(*n),
                ValueDef::Primitive(Primitive::I128(n)) => i128::try_from(*t) == Ok(*n),
                _ => false,
            }
        }
    })* };
}
model_int!(u8: u128, u16: u128, u32: u128, u64: u128, u128: u128, i8: i128, i16: i128, i32: i128, i64: i128, i128: i128);

impl Model for bool {
    fn shape(&self, _: &mut Shaper) -> Val {
        Value::bool(*self)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        v.value == ValueDef::Primitive(Primitive::Bool(*t))
    }
}
impl Model for char {
    fn shape(&self, s: &mut Shaper) -> Val {
        if s.one_in(3) {
            return Value::string(self.to_string());
        }
        Value::char(*self)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        match &v.value {
            ValueDef::Primitive(Primitive::Char(c)) => c == t,
            ValueDef::Primitive(Primitive::String(s)) => *s == t.to_string(),
            _ => false,
        }
    }
}
fn reflects_str(v: &Val, t: &str) -> bool {
    match &v.value {
        ValueDef::Primitive(Primitive::Char(c)) => c.to_string() == t,
        ValueDef::Primitive(Primitive::String(s)) => s == t,
        ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => std::str::from_utf8(b) == Ok(t),
        _ => false,
    }
}
impl Model for String {
    fn shape(&self, s: &mut Shaper) -> Val {
        let mut cs = self.chars();
        if let (Some(c), None) = (cs.next(), cs.next()) {
            if s.one_in(3) {
                return Value::char(c);
            }
        }
        Value::string(self.clone())
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_str(v, t)
    }
}
impl Arb for Cow<'static, str> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Cow::Owned(String::arb(r, d))
    }
}
impl Model for Cow<'static, str> {
    fn shape(&self, s: &mut Shaper) -> Val {
        self.to_string().shape(s)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_str(v, t)
    }
}
impl Model for () {
    fn shape(&self, _: &mut Shaper) -> Val {
        list([])
    }
    fn reflects(v: &Val, _: &Self) -> bool {
        items(v).is_some_and(|x| x.is_empty())
    }
}
impl<T: Model> Model for Option<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        match self {
            None => variant("None", Composite::Unnamed(vec![])),
            Some(x) => variant("Some", Composite::Unnamed(vec![x.shape(s)])),
        }
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        let ValueDef::Variant(x) = &v.value else { return false };
        let Composite::Unnamed(xs) = &x.values else { return false };
        match t {
            None => x.name == "None" && xs.is_empty(),
            Some(t) => x.name == "Some" && xs.len() == 1 && T::reflects(&xs[0], t),
        }
    }
    fn absent() -> Option<Self> {
        Some(None)
    }
}
fn vary_list(s: &mut Shaper, xs: Vec<Val>) -> Val {
    // names make no difference to a list
    if s.one_in(12) {
        let mut named = vec![];
        for x in xs {
            named.push((gen_name(s.vary.as_mut().unwrap()), x));
        }
        return Value::named_composite(named);
    }
    list(xs)
}
fn reflects_seq<'a, T: Model>(v: &Val, t: impl ExactSizeIterator<Item = &'a T>) -> bool {
    items(v).is_some_and(|x| x.len() == t.len() && x.iter().zip(t).all(|(v, t)| T::reflects(v, t)))
}
impl<T: Model> Model for Vec<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        let xs = self.iter().map(|x| x.shape(s)).collect();
        vary_list(s, xs)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_seq(v, t.iter())
    }
}
impl<T: Arb> Arb for VecDeque<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Vec::arb(r, d).into()
    }
}
impl<T: Model> Model for VecDeque<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        let xs = self.iter().map(|x| x.shape(s)).collect();
        vary_list(s, xs)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_seq(v, t.iter())
    }
}
impl<T: Arb + Ord> Arb for BTreeSet<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Vec::arb(r, d).into_iter().collect()
    }
}
impl<T: Model + Ord> Model for BTreeSet<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        let xs = self.iter().map(|x| x.shape(s)).collect();
        vary_list(s, xs)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        // each item is some element and each element some item
        items(v).is_some_and(|x| x.iter().all(|v| t.iter().any(|t| T::reflects(v, t))) && t.iter().all(|t| x.iter().any(|v| T::reflects(v, t))))
    }
}
macro_rules! model_array { ($($n:literal),*) => { $(impl<T: Model> Model for [T; $n] where [T; $n]: Serialize + DeserializeOwned {
    fn shape(&self, s: &mut Shaper) -> Val {
        let xs = self.iter().map(|x| x.shape(s)).collect();
        vary_list(s, xs)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_seq(v, t.iter())
    }
})* } }
model_array!(0, 1, 2, 3, 32);
impl<T: Model> Model for Box<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        (**self).shape(s)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        T::reflects(v, t)
    }
    fn absent() -> Option<Self> {
        T::absent().map(Box::new)
    }
}
macro_rules! model_tuple { ($k:literal: $($n:ident $i:tt),*) => { impl<$($n: Model),*> Model for ($($n,)*) {
    fn shape(&self, s: &mut Shaper) -> Val {
        let xs = vec![$(self.$i.shape(s)),*];
        vary_list(s, xs)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        let Some(x) = items(v) else { return false };
        x.len() == $k $(&& $n::reflects(x[$i], &t.$i))*
    }
} } }
model_tuple!(1: A 0);
model_tuple!(2: A 0, B 1);
model_tuple!(3: A 0, B 1, C 2);
model_tuple!(4: A 0, B 1, C 2, D 3);

/// Fields written by name: the last of each name counts.
fn reflects_map<K: Model + Ord, T: Model>(v: &Val, t: &BTreeMap<K, T>) -> bool {
    let Some(Composite::Named(xs)) = values_of(v) else { return false };
    let find = |k: &K| xs.iter().rev().find(|x| K::reflects(&Value::string(x.0.clone()), k));
    t.iter().all(|(k, t)| find(k).is_some_and(|x| T::reflects(&x.1, t)))
        && xs.iter().all(|x| t.keys().any(|k| K::reflects(&Value::string(x.0.clone()), k)))
}
/// What is a string of some kind in a map.
pub trait Key: Model + Ord {
    fn name(&self) -> String;
}
impl Key for String {
    fn name(&self) -> String {
        self.clone()
    }
}
impl Key for char {
    fn name(&self) -> String {
        self.to_string()
    }
}
impl Key for Cow<'static, str> {
    fn name(&self) -> String {
        self.to_string()
    }
}
impl<K: Key, T: Model> Model for BTreeMap<K, T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        let mut xs: Vec<(String, Val)> = self.iter().map(|(k, x)| (k.name(), x.shape(s))).collect();
        if s.one_in(3) {
            s.vary.as_mut().unwrap().shuffle(&mut xs);
        }
        Value::named_composite(xs)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_map(v, t)
    }
}

// std types with representations of their own

macro_rules! model_nonzero { ($($t:ty: $i:ty),*) => { $(
    impl Arb for $t {
        fn arb(r: &mut Rng, d: usize) -> Self {
            loop { if let Some(x) = <$t>::new(<$i>::arb(r, d)) { return x; } }
        }
    }
    impl Model for $t {
        fn shape(&self, s: &mut Shaper) -> Val {
            self.get().shape(s)
        }
        fn reflects(v: &Val, t: &Self) -> bool {
            <$i>::reflects(v, &t.get())
        }
    }
)* } }
model_nonzero!(NonZeroU8: u8, NonZeroU64: u64, NonZeroI16: i16);
impl<T: Arb> Arb for Wrapping<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Wrapping(T::arb(r, d))
    }
}
impl<T: Model> Model for Wrapping<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        self.0.shape(s)
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        T::reflects(v, &t.0)
    }
}
impl Arb for std::time::Duration {
    fn arb(r: &mut Rng, _: usize) -> Self {
        std::time::Duration::new(r.uint(64) as u64, r.below(1_000_000_000) as u32)
    }
}
impl Model for std::time::Duration {
    fn shape(&self, s: &mut Shaper) -> Val {
        let f = vec![("secs".to_string(), self.as_secs().shape(s), false), ("nanos".to_string(), self.subsec_nanos().shape(s), false)];
        Value { value: ValueDef::Composite(shape_some_fields(s, f, false)), context: () }
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        let Some(c) = values_of(v) else { return false };
        let (Some(Some(a)), Some(Some(b))) = (field(c, "secs", 0, 2), field(c, "nanos", 1, 2)) else { return false };
        let num = |v: &Val| match &v.value {
            ValueDef::Primitive(Primitive::U128(n)) => Some(*n),
            ValueDef::Primitive(Primitive::I128(n)) => u128::try_from(*n).ok(),
            _ => None,
        };
        // (more than a second's worth of nanoseconds is carried over)
        matches!((num(a), num(b)), (Some(a), Some(b)) if a <= u64::MAX as u128 && b <= u32::MAX as u128 && a * 1_000_000_000 + b == t.as_nanos())
    }
}
impl<T: Arb> Arb for std::ops::Range<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        T::arb(r, d)..T::arb(r, d)
    }
}
impl<T: Model> Model for std::ops::Range<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        let f = vec![("start".to_string(), self.start.shape(s), false), ("end".to_string(), self.end.shape(s), false)];
        Value { value: ValueDef::Composite(shape_some_fields(s, f, false)), context: () }
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        let Some(c) = values_of(v) else { return false };
        let (Some(Some(a)), Some(Some(b))) = (field(c, "start", 0, 2), field(c, "end", 1, 2)) else { return false };
        T::reflects(a, &t.start) && T::reflects(b, &t.end)
    }
}
impl Arb for std::net::Ipv4Addr {
    fn arb(r: &mut Rng, _: usize) -> Self {
        (r.u64() as u32).into()
    }
}
impl Model for std::net::Ipv4Addr {
    fn shape(&self, _: &mut Shaper) -> Val {
        Value::string(self.to_string())
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        reflects_str(v, &t.to_string())
    }
}
impl<T> Arb for std::marker::PhantomData<T> {
    fn arb(_: &mut Rng, _: usize) -> Self {
        std::marker::PhantomData
    }
}
impl<T: 'static> Model for std::marker::PhantomData<T> {
    fn shape(&self, s: &mut Shaper) -> Val {
        ().shape(s)
    }
    fn reflects(v: &Val, _: &Self) -> bool {
        <()>::reflects(v, &())
    }
}
impl<T: Model, E: Model> Model for Result<T, E> {
    fn shape(&self, s: &mut Shaper) -> Val {
        match self {
            Ok(x) => variant("Ok", Composite::Unnamed(vec![x.shape(s)])),
            Err(x) => variant("Err", Composite::Unnamed(vec![x.shape(s)])),
        }
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        match t {
            Ok(t) => newtype_variant(v, "Ok").is_some_and(|v| T::reflects(&v, t)),
            Err(t) => newtype_variant(v, "Err").is_some_and(|v| E::reflects(&v, t)),
        }
    }
}

/// Bytes that are given and taken as such.
#[derive(Clone, PartialEq, Debug)]
pub struct Blob<const OWNED: bool>(Vec<u8>);
impl<const O: bool> Serialize for Blob<O> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de, const O: bool> Deserialize<'de> for Blob<O> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Vec<u8>, E> {
                Ok(b.into())
            }
        }
        if O {
            d.deserialize_byte_buf(V).map(Blob)
        } else {
            d.deserialize_bytes(V).map(Blob)
        }
    }
}
impl<const O: bool> Arb for Blob<O> {
    fn arb(r: &mut Rng, _: usize) -> Self {
        let n = *r.pick(&[0, 1, 2, 5, 32, 33]);
        Blob(r.bytes(n))
    }
}
impl<const O: bool> Model for Blob<O> {
    fn shape(&self, _: &mut Shaper) -> Val {
        list(self.0.iter().map(|b| Value::u128(*b as u128)))
    }
    fn reflects(v: &Val, t: &Self) -> bool {
        match &v.value {
            ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => b[..] == t.0,
            _ => reflects_seq(v, t.0.iter()),
        }
    }
}

// ---------------------------------------------------------------- structs and enums

/// A field by name (`None`: given more than once; `Some(None)`: not given) or by position.
fn field<'a>(c: &'a Composite<()>, name: &str, i: usize, n: usize) -> Option<Option<&'a Val>> {
    match c {
        Composite::Named(xs) => {
            let mut it = xs.iter().filter(|x| x.0 == name);
            let first = it.next();
            if it.next().is_some() {
                return None;
            }
            Some(first.map(|x| &x.1))
        }
        Composite::Unnamed(xs) => (xs.len() == n).then(|| Some(&xs[i])),
    }
}
fn reflects_field<T: Model>(c: &Composite<()>, name: &str, i: usize, n: usize, t: &T) -> bool {
    match field(c, name, i, n) {
        None => false,
        Some(None) => T::absent().as_ref() == Some(t),
        Some(Some(v)) => T::reflects(v, t),
    }
}
/// A bit sequence shows itself as a map to who asks for a struct.
fn struct_values(v: &Val) -> Option<Cow<'_, Composite<()>>> {
    match &v.value {
        ValueDef::BitSequence(b) => {
            let bits = list(unbits(b).into_iter().map(Value::bool));
            Some(Cow::Owned(Composite::Named(vec![(super::serde_tree::BITS_KEY.into(), bits)])))
        }
        _ => values_of(v).map(Cow::Borrowed),
    }
}
/// Fields in order; the flag says that the field may be left out.
fn shape_fields(s: &mut Shaper, fs: Vec<(String, Val, bool)>) -> Composite<()> {
    shape_some_fields(s, fs, true)
}
/// `more`: unknown fields are ignored.
fn shape_some_fields(s: &mut Shaper, mut fs: Vec<(String, Val, bool)>, more: bool) -> Composite<()> {
    if s.one_in(6) {
        return Composite::Unnamed(fs.into_iter().map(|x| x.1).collect());
    }
    if s.one_in(4) {
        s.vary.as_mut().unwrap().shuffle(&mut fs);
    }
    if s.one_in(4) {
        fs.retain(|x| !x.2);
    }
    if more && s.one_in(6) {
        let names: Vec<String> = fs.iter().map(|x| x.0.clone()).collect();
        let r = s.vary.as_mut().unwrap();
        for _ in 0..r.range(1, 3) {
            let n = format!("{}~", gen_name(r));
            assert!(!names.contains(&n));
            let o = VOpts { depth: 2, wide: 3, big256: true, unique_names: false };
            let v = value0(r, &o);
            let at = r.below(fs.len() + 1);
            fs.insert(at, (n, v, false));
        }
    }
    Composite::Named(fs.into_iter().map(|x| (x.0, x.1)).collect())
}
/// What the content of a variant with one field is read from.
fn newtype_variant(v: &Val, name: &str) -> Option<Val> {
    let ValueDef::Variant(x) = &v.value else { return None };
    if x.name != name {
        return None;
    }
    Some(match &x.values {
        Composite::Unnamed(xs) if xs.len() == 1 => xs[0].clone(),
        c => Value { value: ValueDef::Composite(c.clone()), context: () },
    })
}
fn variant_values<'a>(v: &'a Val, name: &str) -> Option<&'a Composite<()>> {
    match &v.value {
        ValueDef::Variant(x) if x.name == name => Some(&x.values),
        _ => None,
    }
}

macro_rules! count { () => { 0 }; ($a:ident $($r:ident)*) => { 1 + count!($($r)*) }; }
macro_rules! data_struct {
    ($(#[$m:meta])* $n:ident $(<$g:ident>)? { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Encode, TypeInfo)]
        $(#[$m])*
        pub struct $n $(<$g>)? { $($(#[$fm])* $f: $t),* }
        impl$(<$g: Arb>)? Arb for $n$(<$g>)? {
            fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); $n { $($f: Arb::arb(r, d + 1)),* } }
        }
        impl$(<$g: Model>)? Model for $n$(<$g>)? {
            fn shape(&self, s: &mut Shaper) -> Val {
                let fs: Vec<(String, Val, bool)> = vec![$((stringify!($f).into(), self.$f.shape(s), <$t as Model>::absent().as_ref() == Some(&self.$f))),*];
                Value { value: ValueDef::Composite(shape_fields(s, fs)), context: () }
            }
            fn reflects(v: &Val, t: &Self) -> bool {
                let Some(c) = struct_values(v) else { return false };
                let n: usize = count!($($f)*);
                #[allow(unused_mut)]
                let mut i = 0usize;
                if let Composite::Unnamed(x) = &*c { if x.len() != n { return false; } }
                $( if !reflects_field(&c, stringify!($f), i, n, &t.$f) { return false; } i += 1; )*
                let _ = (i, t);
                true
            }
        }
    };
}
macro_rules! data_tuple {
    ($n:ident ( $($i:tt $a:ident: $t:ty),* )) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Encode, TypeInfo)]
        pub struct $n($($t),*);
        impl Arb for $n { fn arb(r: &mut Rng, d: usize) -> Self { $n($(<$t>::arb(r, d + 1)),*) } }
        impl Model for $n {
            fn shape(&self, s: &mut Shaper) -> Val {
                let xs = vec![$(self.$i.shape(s)),*];
                vary_list(s, xs)
            }
            fn reflects(v: &Val, t: &Self) -> bool {
                let Some(x) = items(v) else { return false };
                x.len() == count!($($a)*) $(&& <$t>::reflects(x[$i], &t.$i))*
            }
        }
    };
}
macro_rules! data_newtype {
    ($n:ident $(<$g:ident>)? ($t:ty)) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Encode, TypeInfo)]
        pub struct $n$(<$g>)?($t);
        impl$(<$g: Arb>)? Arb for $n$(<$g>)? { fn arb(r: &mut Rng, d: usize) -> Self { $n(Arb::arb(r, d + 1)) } }
        impl$(<$g: Model>)? Model for $n$(<$g>)? {
            fn shape(&self, s: &mut Shaper) -> Val {
                let v = self.0.shape(s);
                s.newtypes = true;
                if s.transparent { v } else { list([v]) }
            }
            fn reflects(v: &Val, t: &Self) -> bool {
                <$t>::reflects(v, &t.0)
            }
        }
    };
}
macro_rules! data_enum {
    (@shape $s:ident $v:ident) => { Composite::Unnamed(vec![]) };
    (@shape $s:ident $v:ident ($($a:ident: $t:ty),*)) => { Composite::Unnamed(vec![$($a.shape($s)),*]) };
    (@shape $s:ident $v:ident {$($f:ident: $t:ty),*}) => {{
        let fs = vec![$((stringify!($f).to_string(), $f.shape($s), <$t as Model>::absent().as_ref() == Some($f))),*];
        shape_fields($s, fs)
    }};
    (@refl $v:ident $n:ident) => { variant_values($v, stringify!($n)).is_some_and(|c| c.is_empty()) };
    (@refl $v:ident $n:ident ($a:ident: $t:ty)) => { newtype_variant($v, stringify!($n)).is_some_and(|v| <$t>::reflects(&v, $a)) };
    (@refl $v:ident $n:ident ($($a:ident: $t:ty),*)) => {
        variant_values($v, stringify!($n)).is_some_and(|c| {
            let x: Vec<&Val> = c.values().collect();
            let mut i = 0;
            if x.len() != count!($($a)*) { return false; }
            $( if !<$t>::reflects(x[i], $a) { return false; } i += 1; )*
            let _ = i;
            true
        })
    };
    (@refl $v:ident $n:ident {$($f:ident: $t:ty),*}) => {
        variant_values($v, stringify!($n)).is_some_and(|c| {
            let n: usize = count!($($f)*);
            let mut i = 0usize;
            if let Composite::Unnamed(x) = c { if x.len() != n { return false; } }
            $( if !reflects_field(c, stringify!($f), i, n, $f) { return false; } i += 1; )*
            let _ = i;
            true
        })
    };
    ($n:ident { $($v:ident $(($($a:ident: $t:ty),*))? $({$($f:ident: $ft:ty),*})? $(box $bx:literal)?),* $(,)? }) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Encode, TypeInfo)]
        pub enum $n { $($v $(($($t),*))? $({$($f: $ft),*})?),* }
        impl Arb for $n {
            fn arb(r: &mut Rng, d: usize) -> Self {
                let _ = d;
                // (the first variants are those without anything of their own kind)
                let n = [$(stringify!($v)),*].len();
                let k = if d > 5 { r.below(n.min(2)) } else { r.below(n) };
                let mut i = 0;
                $( if i == k { return $n::$v $(($(<$t>::arb(r, d + 1)),*))? $({$($f: <$ft>::arb(r, d + 1)),*})?; } i += 1; )*
                let _ = i;
                unreachable!()
            }
        }
        impl Model for $n {
            fn shape(&self, s: &mut Shaper) -> Val {
                let _ = &s;
                match self { $( $n::$v $(($($a),*))? $({$($f),*})? => variant(stringify!($v), data_enum!(@shape s $v $(($($a: $t),*))? $({$($f: $ft),*})?)), )* }
            }
            fn reflects(v: &Val, t: &Self) -> bool {
                match t { $( $n::$v $(($($a),*))? $({$($f),*})? => data_enum!(@refl v $v $(($($a: $t),*))? $({$($f: $ft),*})?), )* }
            }
        }
    };
}

data_struct!(Nums { a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: u128, j: i128 });
data_struct!(Mixed { id: u32, name: String, tag: Option<bool>, list: Vec<Option<u16>>, unit: (), pair: (i64, String) });
data_struct!(AllOptional { a: Option<u8>, b: Option<Vec<bool>>, c: Option<Option<i32>> });
data_struct!(Empty {});
data_struct!(One { only: Vec<u8> });
data_struct!(Outer { inner: Mixed, other: One, opt: Option<One>, boxed: Box<AllOptional> });
data_struct!(Tree { value: i16, kids: Vec<Tree> });
data_struct!(Gen<T> { first: T, second: Vec<T> });
data_tuple!(Pair(0 a: u8, 1 b: String));
data_tuple!(Triple(0 a: Pair, 1 b: Option<i32>, 2 c: Vec<One>));
data_newtype!(New<T>(T));
data_newtype!(Id([u8; 32]));
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Encode, TypeInfo)]
pub struct UnitStruct;
impl Arb for UnitStruct {
    fn arb(_: &mut Rng, _: usize) -> Self {
        UnitStruct
    }
}
impl Model for UnitStruct {
    fn shape(&self, s: &mut Shaper) -> Val {
        ().shape(s)
    }
    fn reflects(v: &Val, _: &Self) -> bool {
        <()>::reflects(v, &())
    }
}
data_enum!(Kinds {
    Unit,
    New(x: u32),
    List(x: Vec<u8>),
    Bytes(x: [u8; 3]),
    Opt(x: Option<u8>),
    Text(x: String),
    Nothing(x: ()),
    Two(x: u8, y: String),
    Three(x: (u8, u8), y: Option<i64>, z: Vec<Kinds>),
    Fields { a: u128, b: Option<String>, c: Vec<One> },
    One { a: i8 },
    Rec(x: Box<Kinds>),
    Struct(x: Mixed),
    Enum(x: Other),
    Tup(x: (u16, bool)),
});
data_enum!(Other { A, B(x: i32), Some(x: u8), None, Ok { v: Vec<Other> } });
data_enum!(WithNew { Plain(x: u8), Inner(x: New<u8>), Deep(x: New<New<Vec<u16>>>), F { n: New<Option<u8>>, o: Option<New<String>> } });
data_struct!(StructWithNew { id: Id, w: New<Mixed>, k: New<Kinds>, o: Option<New<Kinds>>, v: Vec<New<u8>> });

// ---------------------------------------------------------------- types that serde buffers

/// Types with serde attributes; these cannot hold enums, options or numbers of 128 bits where
/// serde buffers the content itself.
macro_rules! attr { ($($i:item)*) => { $(#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)] $i)* } }
attr! {
    #[serde(tag = "t")]
    pub enum Internal { A { x: u32, y: Vec<String>, z: i64 }, B(Plain), C, #[serde(rename = "d-e")] D { u: u64 } }
    #[serde(tag = "t", content = "c")]
    pub enum Adjacent { A { x: u32, y: Vec<String> }, B(Plain), C, D(u8, i8), E(u64), F(Vec<u16>) }
    #[serde(untagged)]
    pub enum Untagged { Num(u64), Neg(i64), Str(String), Flag(bool), Fields { a: u8, b: i64, c: (bool, char) }, List(Vec<i32>), Strs(Vec<String>) }
    pub struct Plain { p: u64, q: Vec<bool>, r: String, s: i64 }
    pub struct Flat { id: u32, #[serde(flatten)] plain: Plain, #[serde(flatten)] rest: BTreeMap<String, u64> }
    #[serde(rename_all = "camelCase")]
    pub struct Renamed { some_field: u8, #[serde(rename = "type")] ty: String, #[serde(default, skip_serializing_if = "Option::is_none")] maybe: Option<u8>, #[serde(default)] dflt: u32, #[serde(skip)] skipped: u8, #[serde(alias = "other")] ali_as: i16 }
    #[serde(transparent)]
    pub struct Transparent { x: Vec<Option<u128>> }
    #[serde(from = "(u8, i128)", into = "(u8, i128)")]
    pub struct Via { a: u8, b: i128 }
    #[serde(deny_unknown_fields)]
    pub struct Strict { a: u8, b: Option<u8> }
    #[serde(rename_all = "snake_case")]
    pub enum Snake { FirstOne, SecondOne { #[serde(rename = "a b")] ab: u8 }, #[serde(rename = "")] Third(u8) }
}
impl From<(u8, i128)> for Via {
    fn from(x: (u8, i128)) -> Self {
        Via { a: x.0, b: x.1 }
    }
}
impl From<Via> for (u8, i128) {
    fn from(x: Via) -> Self {
        (x.a, x.b)
    }
}
macro_rules! arb_fields { ($($n:ident { $($f:ident),* };)*) => { $(impl Arb for $n { fn arb(r: &mut Rng, d: usize) -> Self { $n { $($f: Arb::arb(r, d + 1)),* } } })* } }
arb_fields!(Plain { p, q, r, s }; Transparent { x }; Via { a, b }; Strict { a, b };);
impl Arb for Flat {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let mut rest = BTreeMap::<String, u64>::arb(r, d);
        rest.retain(|k, _| !["id", "p", "q", "r", "s"].contains(&k.as_str()));
        Flat { id: Arb::arb(r, d), plain: Arb::arb(r, d), rest }
    }
}
impl Arb for Renamed {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Renamed { some_field: Arb::arb(r, d), ty: Arb::arb(r, d), maybe: Arb::arb(r, d), dflt: Arb::arb(r, d), skipped: 0, ali_as: Arb::arb(r, d) }
    }
}
impl Arb for Internal {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Internal::A { x: Arb::arb(r, d), y: Arb::arb(r, d), z: Arb::arb(r, d) },
            1 => Internal::B(Arb::arb(r, d)),
            2 => Internal::D { u: Arb::arb(r, d) },
            _ => Internal::C,
        }
    }
}
impl Arb for Adjacent {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(6) {
            0 => Adjacent::A { x: Arb::arb(r, d), y: Arb::arb(r, d) },
            1 => Adjacent::B(Arb::arb(r, d)),
            2 => Adjacent::D(Arb::arb(r, d), Arb::arb(r, d)),
            3 => Adjacent::E(Arb::arb(r, d)),
            4 => Adjacent::F(Arb::arb(r, d)),
            _ => Adjacent::C,
        }
    }
}
impl Arb for Untagged {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(7) {
            0 => Untagged::Num(Arb::arb(r, d)),
            // (others are read as Num)
            1 => Untagged::Neg(i64::arb(r, d) | i64::MIN),
            2 => Untagged::Str(Arb::arb(r, d)),
            3 => Untagged::Flag(Arb::arb(r, d)),
            4 => Untagged::Fields { a: Arb::arb(r, d), b: Arb::arb(r, d), c: Arb::arb(r, d) },
            5 => Untagged::List(Arb::arb(r, d)),
            _ => {
                let mut v = Vec::<String>::arb(r, d);
                v.push("x".into());
                Untagged::Strs(v)
            }
        }
    }
}
impl Arb for Snake {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(3) {
            0 => Snake::FirstOne,
            1 => Snake::SecondOne { ab: Arb::arb(r, d) },
            _ => Snake::Third(Arb::arb(r, d)),
        }
    }
}
fn named<const N: usize>(x: [(&str, Val); N]) -> Val {
    Value::named_composite(x.map(|(k, v)| (k.to_string(), v)))
}
/// The documented shape of each of these, and whether a reading of some value must consist of
/// parts of that value.
pub trait Shaped: Serialize + DeserializeOwned + Arb + PartialEq + Debug + Clone {
    fn wire(&self) -> Val;
}
fn sh<T: Model>(x: &T) -> Val {
    x.shape(&mut Shaper::plain(true))
}
fn plain_fields(p: &Plain) -> Vec<(String, Val)> {
    vec![("p".into(), sh(&p.p)), ("q".into(), sh(&p.q)), ("r".into(), sh(&p.r)), ("s".into(), sh(&p.s))]
}
impl Shaped for Plain {
    fn wire(&self) -> Val {
        Value::named_composite(plain_fields(self))
    }
}
impl Shaped for Internal {
    fn wire(&self) -> Val {
        match self {
            Internal::A { x, y, z } => named([("t", Value::string("A")), ("x", sh(x)), ("y", sh(y)), ("z", sh(z))]),
            Internal::B(p) => {
                let mut f = vec![("t".to_string(), Value::string("B"))];
                f.extend(plain_fields(p));
                Value::named_composite(f)
            }
            Internal::C => named([("t", Value::string("C"))]),
            Internal::D { u } => named([("t", Value::string("d-e")), ("u", sh(u))]),
        }
    }
}
impl Shaped for Adjacent {
    fn wire(&self) -> Val {
        let (t, c) = match self {
            Adjacent::A { x, y } => ("A", named([("x", sh(x)), ("y", sh(y))])),
            Adjacent::B(p) => ("B", p.wire()),
            Adjacent::C => return named([("t", variant("C", Composite::Unnamed(vec![])))]),
            Adjacent::D(x, y) => ("D", list([sh(x), sh(y)])),
            Adjacent::E(x) => ("E", sh(x)),
            Adjacent::F(x) => ("F", sh(x)),
        };
        named([("t", variant(t, Composite::Unnamed(vec![]))), ("c", c)])
    }
}
impl Shaped for Untagged {
    fn wire(&self) -> Val {
        match self {
            Untagged::Num(x) => sh(x),
            Untagged::Neg(x) => sh(x),
            Untagged::Str(x) => sh(x),
            Untagged::Flag(x) => sh(x),
            Untagged::Fields { a, b, c } => named([("a", sh(a)), ("b", sh(b)), ("c", sh(c))]),
            Untagged::List(x) => sh(x),
            Untagged::Strs(x) => sh(x),
        }
    }
}
impl Shaped for Flat {
    fn wire(&self) -> Val {
        let mut f = vec![("id".to_string(), sh(&self.id))];
        f.extend(plain_fields(&self.plain));
        f.extend(self.rest.iter().map(|(k, v)| (k.clone(), sh(v))));
        Value::named_composite(f)
    }
}
impl Shaped for Renamed {
    fn wire(&self) -> Val {
        let mut f = vec![("someField".to_string(), sh(&self.some_field)), ("type".into(), sh(&self.ty))];
        if self.maybe.is_some() {
            f.push(("maybe".into(), sh(&self.maybe)));
        }
        f.push(("dflt".into(), sh(&self.dflt)));
        f.push(("aliAs".into(), sh(&self.ali_as)));
        Value::named_composite(f)
    }
}
impl Shaped for Transparent {
    fn wire(&self) -> Val {
        sh(&self.x)
    }
}
impl Shaped for Via {
    fn wire(&self) -> Val {
        list([sh(&self.a), sh(&self.b)])
    }
}
impl Shaped for Strict {
    fn wire(&self) -> Val {
        named([("a", sh(&self.a)), ("b", sh(&self.b))])
    }
}
impl Shaped for Snake {
    fn wire(&self) -> Val {
        match self {
            Snake::FirstOne => variant("first_one", Composite::Unnamed(vec![])),
            Snake::SecondOne { ab } => variant("second_one", Composite::Named(vec![("a b".into(), sh(ab))])),
            Snake::Third(x) => variant("", Composite::Unnamed(vec![sh(x)])),
        }
    }
}

// ---------------------------------------------------------------- C19

fn nodes_of(v: &Val) -> usize {
    nodes(v)
}

fn round<T: Model>(c: &mut Case, ty: &'static str) -> Res {
    let x = T::arb(&mut c.r, 0);
    c.desc = format!("{ty}: {x:?}");
    let mut s = Shaper::plain(false);
    let shape = x.shape(&mut s);
    let newtypes = s.newtypes;
    if nodes_of(&shape) > 1 {
        c.nontrivial(&c.desc.clone());
    }
    // there
    let got = no_panic("to_value", || to_value(&x))?;
    ensure!(got.as_ref() == Ok(&shape), "{ty}: to_value gave {got:?}\nexpected {shape:?}");
    let ser = no_panic("serialize", || x.serialize(scale_value::serde::ValueSerializer))?;
    ensure!(ser.as_ref() == Ok(&shape), "{ty}: the serializer gave {ser:?}\nexpected {shape:?}");
    // and back
    let transparent = x.shape(&mut Shaper::plain(true));
    back::<T>(ty, "the same content", &transparent, &x)?;
    // in shapes that make no difference
    for _ in 0..3 {
        let mut s = Shaper { transparent: true, vary: Some(Rng::new(c.r.u64())), newtypes: false, varied: 0 };
        let v = x.shape(&mut s);
        back::<T>(ty, "an equivalent shape", &v, &x)?;
        if s.varied > 0 {
            c.count("varied", 1);
        }
    }
    if newtypes {
        c.count("newtypes", 1);
        let v = shape.clone();
        let got = no_panic("from_value", || from_value::<_, T>(v))?;
        if got.as_ref() != Ok(&x) {
            return Err(Fail {
                sig: Some("newtype-structs-do-not-convert-back".into()),
                msg: format!("{ty}: the value {} of {x:?} gave {got:?}", show(&shape)),
            });
        }
    } else {
        back::<T>(ty, "its own value", &shape, &x)?;
        c.count("strict", 1);
    }
    Ok(())
}

fn back<T: Model>(ty: &str, what: &str, v: &Val, x: &T) -> Res {
    debug_assert!(T::reflects(v, x), "{ty}: model disagrees with itself on {v:?}");
    for (how, got) in all_ways::<T>(v)? {
        // (a struct's variant-ness is only looked through on its own)
        ensure!(got.as_ref() == Ok(x), "{ty}: {what}, {}, gave {got:?} ({how})\nexpected {x:?}", show(v));
    }
    Ok(())
}

/// Every deserializer there is for a value.
fn all_ways<T: DeserializeOwned>(v: &Val) -> Result<Vec<(&'static str, Result<T, DeserializerError>)>, Fail> {
    let mut out = vec![];
    let v1 = v.clone();
    out.push(("from_value", no_panic("from_value", || from_value::<_, T>(v1))?));
    let v1 = v.clone().map_context(|_| String::from("context"));
    out.push(("from_value with contexts", no_panic("from_value", || from_value::<_, T>(v1))?));
    let v1 = v.clone();
    out.push(("Value", no_panic("deserialize", || T::deserialize(de::IntoDeserializer::into_deserializer(v1)))?));
    let v1 = v.value.clone();
    out.push(("ValueDef", no_panic("deserialize", || T::deserialize(v1))?));
    match &v.value {
        ValueDef::Composite(x) => {
            let x = x.clone();
            out.push(("Composite", no_panic("deserialize", || T::deserialize(x))?));
        }
        ValueDef::Variant(x) => {
            let x = x.clone();
            out.push(("Variant", no_panic("deserialize", || T::deserialize(x))?));
        }
        ValueDef::Primitive(x) => {
            let x = x.clone();
            out.push(("Primitive", no_panic("deserialize", || T::deserialize(x))?));
        }
        ValueDef::BitSequence(_) => {}
    }
    Ok(out)
}

fn attrs<T: Shaped>(c: &mut Case, ty: &'static str) -> Res {
    let x = T::arb(&mut c.r, 0);
    c.desc = format!("{ty}: {x:?}");
    c.nontrivial(&c.desc.clone());
    let want = x.wire();
    let got = no_panic("to_value", || to_value(&x))?;
    ensure!(got.as_ref() == Ok(&want), "{ty}: to_value gave {got:?}\nexpected {want:?}");
    for (how, got) in all_ways::<T>(&want)? {
        ensure!(got.as_ref() == Ok(&x), "{ty}: {} gave {got:?} ({how})\nexpected {x:?}", show(&want));
    }
    Ok(())
}

fn from_scale<T: Model + Encode + TypeInfo>(c: &mut Case, ty: &'static str) -> Res {
    let x = T::arb(&mut c.r, 0);
    c.desc = format!("{ty}: {x:?}");
    c.nontrivial(&c.desc.clone());
    let mut types = scale_info::Registry::new();
    let id = types.register_type(&scale_info::MetaType::new::<T>()).id;
    let types: scale_info::PortableRegistry = types.into();
    let bytes = x.encode();
    let v = no_panic("decode", || scale_value::scale::decode_as_type(&mut &*bytes, id, &types))?
        .map_err(|e| Fail::from(format!("{ty}: {x:?} does not decode: {e}")))?;
    let text = show(&v);
    let got = no_panic("from_value", || from_value::<_, T>(v))?;
    if got.as_ref() != Ok(&x) {
        let mut s = Shaper::plain(false);
        x.shape(&mut s);
        return Err(Fail {
            sig: s.newtypes.then(|| "newtype-structs-do-not-convert-back".into()),
            msg: format!("{ty}: {x:?} decoded as {text} gave {got:?}"),
        });
    }
    Ok(())
}

macro_rules! dispatch {
    ($f:ident($a:expr) $k:expr; $($t:ty),* $(,)?) => {{
        let n = [$(stringify!($t)),*].len();
        let k = ($k) as usize % n;
        let mut i = 0;
        let mut r = None;
        $( if i == k { r = Some($f::<$t>($a, stringify!($t))); } i += 1; )*
        let _ = i;
        r.unwrap()
    }};
}
macro_rules! all_types {
    ($f:ident($a:expr) $k:expr) => {
        dispatch!($f($a) $k;
            u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, String, Cow<'static, str>, (),
            Option<u8>, Option<Option<()>>, Option<Vec<String>>, Vec<u8>, Vec<Vec<i64>>, Vec<(u8, char)>, VecDeque<u16>, BTreeSet<i8>, BTreeSet<String>,
            [u8; 0], [u8; 1], [u8; 32], [Option<bool>; 3], [Vec<String>; 2], (u8,), (u8, String), (Option<char>, (), Vec<u32>), (u8, (i8, (u16, i16)), [u8; 2], bool),
            BTreeMap<String, u32>, BTreeMap<char, Vec<bool>>, BTreeMap<Cow<'static, str>, BTreeMap<String, Option<i128>>>, BTreeMap<String, Mixed>,
            NonZeroU8, NonZeroU64, NonZeroI16, Wrapping<i32>, Wrapping<Vec<u8>>, std::time::Duration, std::ops::Range<u8>, std::ops::Range<i128>, std::net::Ipv4Addr,
            std::marker::PhantomData<u8>, Result<u8, String>, Result<(), Vec<u8>>, Result<Option<u8>, Kinds>, Box<u64>, Box<Option<u8>>, Blob<true>, Blob<false>, Vec<Blob<true>>, Option<Blob<false>>,
            Nums, Mixed, AllOptional, Empty, One, Outer, Tree, Gen<u8>, Gen<Kinds>, Gen<Gen<Option<String>>>, Pair, Triple, UnitStruct,
            Kinds, Vec<Kinds>, Option<Kinds>, Other, Option<Other>, Result<Other, Kinds>, BTreeMap<String, Kinds>,
            New<u8>, New<u128>, New<String>, New<char>, New<()>, New<Vec<u8>>, New<Option<u8>>, New<Kinds>, New<Mixed>, New<New<Vec<i16>>>, New<(u8, bool)>, New<BTreeMap<String, u8>>, New<Box<Tree>>,
            Id, WithNew, Option<New<Kinds>>, Vec<New<One>>, StructWithNew, New<UnitStruct>, New<Other>, New<Option<New<Other>>>
        )
    };
}

/// Data that values cannot hold is refused.
fn refused(c: &mut Case) -> Res {
    macro_rules! no { ($x:expr) => {{
        let x = $x;
        let got = no_panic("to_value", || to_value(&x))?;
        ensure!(got.is_err(), "{x:?} was turned into {got:?}");
        c.count("refused", 1);
    }} }
    for f in [0.0, -0.0, 1.0, 2.5, f64::NAN, f64::INFINITY, 1e300] {
        no!(f);
        no!(f as f32);
        no!(vec![f]);
        no!((1u8, f));
        no!(Some(f as f32));
        no!(BTreeMap::from([("k".to_string(), f)]));
    }
    no!(BTreeMap::from([(1u8, 1u8)]));
    no!(BTreeMap::from([(-1i64, 1u8)]));
    no!(BTreeMap::from([(true, 1u8)]));
    no!(BTreeMap::from([((), 1u8)]));
    no!(BTreeMap::from([((1u8, 2u8), 1u8)]));
    no!(BTreeMap::from([(vec![1u8], 1u8)]));
    no!(BTreeMap::from([(Some("s"), 1u8)]));
    no!(HashMap::from([(u128::MAX, "x")]));
    Ok(())
}

fn long_list<T>(c: &mut Case, n: usize) -> Res
where
    T: Serialize + de::DeserializeOwned + PartialEq + std::fmt::Debug + IntoIterator + FromIterator<T::Item> + Clone,
    T::Item: Serialize + Arb,
{
    let x: T = (0..n).map(|_| T::Item::arb(&mut c.r, 3)).collect();
    let v = no_panic("to_value", || to_value(&x))?.map_err(|e| e.to_string())?;
    let items: Vec<Val> = x.clone().into_iter().map(|i| to_value(&i).unwrap()).collect();
    let ok = matches!(&v.value, ValueDef::Composite(Composite::Unnamed(y)) if *y == items);
    ensure!(ok, "a list of {n} is not the list of what its items become");
    let back = no_panic("from_value", || from_value::<_, T>(v.clone()))?;
    ensure!(back.as_ref().ok() == Some(&x), "a list of {n} is not what it was: {:?}", back.err());
    Ok(())
}

fn c19(ctx: &mut Ctx) {
    let n = ctx.n(45_000, 12);
    ctx.section("round_trip", n, |c| {
        let k = c.index;
        all_types!(round(c) k)
    });
    let n = ctx.n(12_000, 12);
    ctx.section("serde_attributes", n, |c| {
        let k = c.index;
        dispatch!(attrs(c) k; Plain, Internal, Adjacent, Untagged, Flat, Renamed, Transparent, Via, Strict, Snake)
    });
    let n = ctx.n(12_000, 12);
    ctx.section("from_scale", n, |c| {
        let k = c.index;
        dispatch!(from_scale(c) k;
            u8, u128, i128, bool, String, (), Option<u8>, Option<Option<()>>, Vec<Vec<i64>>, [u8; 32], (u8,), (u8, String), (u8, (i8, (u16, i16)), [u8; 2], bool),
            Result<u8, String>, Result<Option<u8>, Kinds>, Box<u64>, Nums, Mixed, AllOptional, Empty, One, Outer, Tree, Gen<u8>, Gen<Kinds>, Pair, Triple, UnitStruct, Kinds, Vec<Kinds>,
            Other, Option<Other>, VecDeque<u16>, Call, WithNew, StructWithNew, New<Vec<u8>>)
    });
    let n = ctx.n(100, 12);
    ctx.section("long", n, |c| {
        let n = crate::dict::length_to(&mut c.r, 70_000);
        c.desc = format!("{n} items");
        c.nontrivial((c.index % 8, n).0.to_string() + &n.to_string());
        match c.index % 8 {
            0 => long_list::<Vec<u8>>(c, n),
            1 => long_list::<VecDeque<u128>>(c, n),
            2 => long_list::<Vec<Option<bool>>>(c, n),
            3 => long_list::<Vec<Kinds>>(c, n),
            4 => long_list::<Vec<(u8, char)>>(c, n),
            5 => long_list::<Vec<Vec<i64>>>(c, n.min(10_000)),
            6 => {
                let x: BTreeMap<String, u16> = (0..n).map(|k| (format!("k{k}"), c.r.u64() as u16)).collect();
                let v = no_panic("to_value", || to_value(&x))?.map_err(|e| e.to_string())?;
                let ok = match &v.value {
                    ValueDef::Composite(Composite::Named(y)) => y.len() == n && y.iter().zip(&x).all(|(y, x)| y.0 == *x.0 && y.1.as_u128() == Some(*x.1 as u128)),
                    _ => n == 0,
                };
                ensure!(ok, "a map of {n} became {}", super::super::runner::trunc(&show(&v), 300));
                let back = no_panic("from_value", || from_value::<_, BTreeMap<String, u16>>(v))?;
                ensure!(back.as_ref().ok() == Some(&x), "a map of {n} is not what it was");
                Ok(())
            }
            _ => {
                let s: String = (0..n).map(|_| gen_char(&mut c.r)).collect();
                let v = no_panic("to_value", || to_value(&s))?.map_err(|e| e.to_string())?;
                ensure!(v.as_str() == Some(&s[..]), "text of {n} characters became other text");
                let back = no_panic("from_value", || from_value::<_, String>(v))?;
                ensure!(back.as_ref().ok() == Some(&s), "text of {n} characters is not what it was");
                Ok(())
            }
        }
    });
    ctx.section("refused", 1, refused);
    ctx.require("round_trip.strict", 10_000);
    ctx.require("round_trip.varied", 5_000);
    ctx.require("refused.refused", 20);
}

/// Compact numbers and indices of its own.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Encode, TypeInfo)]
pub enum Call {
    #[codec(index = 9)]
    Transfer {
        to: Other,
        #[codec(compact)]
        amount: u128,
    },
    #[codec(index = 3)]
    Remark(Vec<u8>),
    #[codec(index = 250)]
    Batch(Vec<Call>),
}
impl Arb for Call {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(if d > 4 { 2 } else { 3 }) {
            0 => Call::Transfer { to: Arb::arb(r, d + 1), amount: Compact::<u128>::arb(r, d).0 },
            1 => Call::Remark(Arb::arb(r, d)),
            _ => Call::Batch(Arb::arb(r, d + 1)),
        }
    }
}
impl Model for Call {
    fn shape(&self, _: &mut Shaper) -> Val {
        to_value(self).unwrap()
    }
    fn reflects(_: &Val, _: &Self) -> bool {
        true
    }
}

// ---------------------------------------------------------------- C20

/// Change something somewhere.
fn spoil(r: &mut Rng, v: &mut Val) {
    // pick a node
    let n = nodes(v);
    let mut k = r.below(n);
    fn at<'a>(v: &'a mut Val, k: &mut usize) -> Option<&'a mut Val> {
        if *k == 0 {
            return Some(v);
        }
        *k -= 1;
        let c = match &mut v.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(x) => &mut x.values,
            _ => return None,
        };
        match c {
            Composite::Named(x) => x.iter_mut().find_map(|x| at(&mut x.1, k)),
            Composite::Unnamed(x) => x.iter_mut().find_map(|x| at(x, k)),
        }
    }
    let Some(v) = at(v, &mut k) else { return };
    let o = VOpts { depth: 1, wide: 3, big256: true, unique_names: false };
    fn comp(r: &mut Rng, c: &mut Composite<()>, o: &VOpts) {
        let old = std::mem::replace(c, Composite::Unnamed(vec![]));
        *c = match old {
            Composite::Named(mut x) => {
                let n = x.len();
                match r.below(9) {
                    0 if n > 0 => {
                        x.remove(r.below(n));
                    }
                    1 if n > 0 => {
                        let i = r.below(n);
                        let y = x[i].clone();
                        x.insert(r.below(n + 1), y);
                    }
                    2 => x.insert(r.below(n + 1), (gen_name(r), value0(r, o))),
                    3 if n > 0 => {
                        let i = r.below(n);
                        x[i].0 = gen_name(r);
                    }
                    4 if n > 1 => {
                        let (i, j) = (r.below(n), r.below(n));
                        let t = x[i].0.clone();
                        x[i].0 = x[j].0.clone();
                        x[j].0 = t;
                    }
                    5 if n > 1 => {
                        let (i, j) = (r.below(n), r.below(n));
                        x[i].0 = x[j].0.clone();
                    }
                    6 => {
                        *c = Composite::Unnamed(x.into_iter().map(|x| x.1).collect());
                        return;
                    }
                    7 if n > 0 => {
                        // a name's case, or a piece of it
                        let i = r.below(n);
                        x[i].0 = if r.bool() { x[i].0.to_uppercase() } else { format!("{} ", x[i].0) };
                    }
                    _ => x.push((gen_name(r), value0(r, o))),
                }
                Composite::Named(x)
            }
            Composite::Unnamed(mut x) => {
                let n = x.len();
                match r.below(7) {
                    0 | 1 if n > 0 => {
                        x.remove(r.below(n));
                    }
                    2 if n > 0 => {
                        let i = r.below(n);
                        let y = x[i].clone();
                        x.insert(r.below(n + 1), y);
                    }
                    3 => x.insert(r.below(n + 1), value0(r, o)),
                    4 if n > 1 => {
                        let (i, j) = (r.below(n), r.below(n));
                        x.swap(i, j);
                    }
                    5 => {
                        *c = Composite::Named(x.into_iter().map(|x| (gen_name(r), x)).collect());
                        return;
                    }
                    _ => x.push(value0(r, o)),
                }
                Composite::Unnamed(x)
            }
        };
    }
    match r.below(12) {
        0 => {
            let old = v.clone();
            *v = match r.below(4) {
                0 => list([old]),
                1 => variant("Some", Composite::Unnamed(vec![old])),
                2 => variant(*r.pick(&["A", "B", "New", "Ok", "Err", "List", "Rec", "None"]), Composite::Unnamed(vec![old])),
                _ => Value::named_composite([(gen_name(r), old)]),
            };
            return;
        }
        1 => {
            *v = value0(r, &o);
            return;
        }
        2 => {
            *v = match r.below(3) {
                0 => variant("None", Composite::Unnamed(vec![])),
                1 => list([]),
                _ => Value::named_composite(Vec::<(String, Val)>::new()),
            };
            return;
        }
        3 => {
            if let Some(c) = values_of(v) {
                let c = c.clone();
                *v = match &v.value {
                    ValueDef::Composite(_) => variant(*r.pick(&["Some", "None", "Fields", "Two", "Ok", "x"]), c),
                    _ => Value { value: ValueDef::Composite(c), context: () },
                };
                return;
            }
        }
        _ => {}
    }
    match &mut v.value {
        ValueDef::Primitive(p) => *p = near(r, p),
        ValueDef::Composite(c) => comp(r, c, &o),
        ValueDef::Variant(x) => match r.below(3) {
            0 => {
                x.name = match r.below(3) {
                    0 => (*r.pick(&["Unit", "New", "List", "Two", "Three", "Fields", "Some", "None", "Ok", "Err", "A", "B", "0", "1"])).into(),
                    1 => x.name.to_lowercase(),
                    _ => gen_name(r),
                }
            }
            _ => comp(r, &mut x.values, &o),
        },
        ValueDef::BitSequence(_) => {}
    }
}
/// Another primitive close to one.
fn near(r: &mut Rng, p: &Primitive) -> Primitive {
    let o = VOpts { depth: 0, wide: 0, big256: true, unique_names: false };
    match p {
        Primitive::U128(_) | Primitive::I128(_) => boundary(r),
        Primitive::Char(c) if r.bool() => Primitive::String(if r.bool() { format!("{c}{c}") } else { c.to_string() }),
        Primitive::String(s) if r.bool() => s.chars().next().map(Primitive::Char).unwrap_or(Primitive::U128(0)),
        Primitive::Bool(b) if r.bool() => Primitive::U128(*b as u128),
        _ => gen_primitive(r, &o),
    }
}
fn boundary(r: &mut Rng) -> Primitive {
    let b = *r.pick(&[0u32, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
    let u = if b == 128 { u128::MAX } else { 1u128 << b };
    let u = u.wrapping_add(r.below(4) as u128).wrapping_sub(2);
    match r.below(3) {
        0 => Primitive::U128(u),
        1 => Primitive::I128(u as i128),
        _ => Primitive::I128((u as i128).wrapping_neg()),
    }
}

fn exact<T: Model>(c: &mut Case, v: &Val, ty: &'static str) -> Res {
    c.desc = format!("{} into {ty}", show(v));
    if !matches!(v.value, ValueDef::Primitive(_)) {
        c.nontrivial(&c.desc.clone());
    }
    for (how, got) in all_ways::<T>(v)? {
        match got {
            Ok(t) => {
                ensure!(T::reflects(v, &t), "{} became the {ty} {t:?} ({how})", show(v));
                c.count("accepted", 1);
            }
            Err(e) => {
                no_panic("displaying an error", || e.to_string())?;
                c.count("refused", 1);
            }
        }
    }
    Ok(())
}
fn misfit<T: Model>(c: &mut Case, ty: &'static str) -> Res {
    let x = T::arb(&mut c.r, 0);
    let mut s = Shaper { transparent: c.r.chance(7, 8), vary: c.r.bool().then(|| Rng::new(c.r.u64())), newtypes: false, varied: 0 };
    let mut v = x.shape(&mut s);
    for _ in 0..c.r.range(1, 3) {
        spoil(&mut c.r, &mut v);
    }
    exact::<T>(c, &v, ty)
}
fn shape_of<T: Model>(r: &mut Rng, _: &'static str) -> Val {
    let x = T::arb(r, 1);
    let transparent = r.bool();
    x.shape(&mut Shaper::plain(transparent))
}
fn other_types<T: Model>(c: &mut Case, ty: &'static str) -> Res {
    let k = c.r.below(10_000);
    let v = {
        let r = &mut c.r;
        all_types!(shape_of(r) k)
    };
    exact::<T>(c, &v, ty)
}
fn anything<T: Model>(c: &mut Case, ty: &'static str) -> Res {
    let o = VOpts { depth: c.r.range(0, 3), wide: 3, big256: true, unique_names: c.r.bool() };
    let v = value0(&mut c.r, &o);
    exact::<T>(c, &v, ty)
}

/// Numbers into every number type: they fit exactly if they are in range.
fn number(c: &mut Case, p: &Primitive) -> Res {
    let v = Value { value: ValueDef::Primitive(p.clone()), context: () };
    macro_rules! into { ($($t:ty),*) => { $({
        let want: Option<$t> = match p {
            Primitive::U128(n) => <$t>::try_from(*n).ok(),
            Primitive::I128(n) => <$t>::try_from(*n).ok(),
            _ => unreachable!(),
        };
        for (how, got) in all_ways::<$t>(&v)? {
            ensure!(got.as_ref().ok() == want.as_ref(), "{p:?} became {got:?} as {} ({how})", stringify!($t));
            c.count("conversions", 1);
        }
        // within other things
        let got = no_panic("from_value", || from_value::<_, (Vec<$t>, Option<$t>)>(list([list([v.clone()]), variant("Some", Composite::Unnamed(vec![v.clone()]))])))?;
        ensure!(got.as_ref().ok() == want.map(|x| (vec![x], Some(x))).as_ref(), "{p:?} became {got:?} within Vec<{0}> and Option<{0}>", stringify!($t));
        let got = no_panic("from_value", || from_value::<_, BTreeMap<String, New<$t>>>(named([("k", v.clone())])))?;
        ensure!(got.as_ref().ok() == want.map(|x| BTreeMap::from([("k".to_string(), New(x))])).as_ref(), "{p:?} became {got:?} within a map to newtypes of {}", stringify!($t));
        let got = no_panic("from_value", || from_value::<_, Result<$t, ()>>(variant("Ok", Composite::Unnamed(vec![v.clone()]))))?;
        ensure!(got.as_ref().ok() == want.map(Ok).as_ref(), "{p:?} became {got:?} within Result<{},_>", stringify!($t));
    })* } }
    into!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    // floats would lose digits
    for (how, got) in all_ways::<f64>(&v)? {
        ensure!(got.is_err(), "{p:?} became the float {got:?} ({how})");
    }
    for (how, got) in all_ways::<f32>(&v)? {
        ensure!(got.is_err(), "{p:?} became the float {got:?} ({how})");
    }
    Ok(())
}

/// A value read as the data of a self-describing format.
fn json_reflects(v: &Val, j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    fn comp(c: &Composite<()>, j: &J) -> bool {
        match (c, j) {
            (Composite::Unnamed(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| json_reflects(x, y)),
            (Composite::Named(x), J::Object(y)) => {
                x.iter().all(|x| y.contains_key(&x.0)) && y.iter().all(|(k, y)| x.iter().rev().find(|x| x.0 == *k).is_some_and(|x| json_reflects(&x.1, y)))
            }
            _ => false,
        }
    }
    match (&v.value, j) {
        (ValueDef::Primitive(p), j) => match (p, j) {
            (Primitive::Bool(b), J::Bool(c)) => b == c,
            (Primitive::U128(n), J::Number(m)) => !m.is_f64() && m.to_string() == n.to_string(),
            (Primitive::I128(n), J::Number(m)) => !m.is_f64() && m.to_string() == n.to_string(),
            (Primitive::Char(c), J::String(s)) => *s == c.to_string(),
            (Primitive::String(c), J::String(s)) => s == c,
            (Primitive::U256(b) | Primitive::I256(b), J::Array(y)) => {
                y.len() == 32 && b.iter().zip(y).all(|(x, y)| y.as_u64() == Some(*x as u64))
            }
            _ => false,
        },
        (ValueDef::Composite(c), j) => comp(c, j),
        (ValueDef::BitSequence(b), J::Object(y)) => {
            y.len() == 1
                && y.get(super::serde_tree::BITS_KEY)
                    .is_some_and(|y| *y == J::Array(unbits(b).into_iter().map(J::Bool).collect()))
        }
        // (not what serde_json takes today)
        (ValueDef::Variant(x), J::Object(y)) => y.len() == 1 && y.get(&x.name).is_some_and(|y| comp(&x.values, y)),
        _ => false,
    }
}

/// Every leaf of what was read must have been in what it was read from.
fn leaves(v: &Val) -> Vec<String> {
    let mut out = vec![];
    walk(v, &mut |v| {
        if let ValueDef::Primitive(p) = &v.value {
            out.push(match p {
                Primitive::Bool(b) => format!("b{b}"),
                Primitive::U128(n) => format!("n{n}"),
                Primitive::I128(n) => format!("n{n}"),
                Primitive::Char(c) => format!("s{c}"),
                Primitive::String(c) => format!("s{c}"),
                Primitive::U256(b) | Primitive::I256(b) => format!("s{}", String::from_utf8_lossy(b)),
            });
        }
        if let ValueDef::Variant(x) = &v.value {
            out.push(format!("s{}", x.name));
        }
    });
    out
}
fn attrs_exact<T: Shaped>(c: &mut Case, ty: &'static str) -> Res {
    let x = T::arb(&mut c.r, 0);
    let mut v = x.wire();
    for _ in 0..c.r.range(1, 3) {
        spoil(&mut c.r, &mut v);
    }
    c.desc = format!("{} into {ty}", show(&v));
    c.nontrivial(&c.desc.clone());
    for (how, got) in all_ways::<T>(&v)? {
        let Ok(t) = got else {
            c.count("refused", 1);
            continue;
        };
        c.count("accepted", 1);
        let mut have = leaves(&v);
        // what defaults stand for
        have.push("n0".into());
        have.push("sNone".into());
        for l in leaves(&t.wire()) {
            match have.iter().position(|h| *h == l) {
                Some(i) => {
                    have.swap_remove(i);
                }
                // (options nest without a trace if a field is absent)
                None if l == "sNone" || l == "sSome" => {}
                // (tags may be given by number)
                None if ["sA", "sB", "sC", "sD", "sE", "sF", "sd-e"].contains(&l.as_str()) && have.iter().any(|h| ["n0", "n1", "n2", "n3", "n4", "n5"].contains(&h.as_str())) => {}
                None => return Err(Fail::from(format!("{} became the {ty} {t:?} ({how}), which has {l} from nowhere", show(&v)))),
            }
        }
    }
    Ok(())
}

fn c20(ctx: &mut Ctx) {
    let n = ctx.n(80_000, 12);
    ctx.section("misfits", n, |c| {
        let k = c.index;
        all_types!(misfit(c) k)
    });
    let n = ctx.n(40_000, 12);
    ctx.section("other_types", n, |c| {
        let k = c.index;
        all_types!(other_types(c) k)
    });
    let n = ctx.n(40_000, 12);
    ctx.section("anything", n, |c| {
        let k = c.index;
        all_types!(anything(c) k)
    });
    let n = ctx.n(30_000, 12);
    ctx.section("serde_attributes", n, |c| {
        let k = c.index;
        dispatch!(attrs_exact(c) k; Plain, Internal, Adjacent, Untagged, Flat, Renamed, Transparent, Via, Strict, Snake)
    });
    let n = ctx.n(20_000, 12);
    ctx.section("self_describing", n, |c| {
        let o = VOpts { depth: c.r.range(0, 4), wide: 3, big256: true, unique_names: c.r.bool() };
        let v = value0(&mut c.r, &o);
        c.desc = show(&v);
        c.nontrivial(&c.desc.clone());
        for (how, got) in all_ways::<serde_json::Value>(&v)? {
            if let Ok(j) = got {
                ensure!(json_reflects(&v, &j), "{} became {j} ({how})", show(&v));
                c.count("accepted", 1);
            }
        }
        // and nothing at all can always be read
        for (how, got) in all_ways::<de::IgnoredAny>(&v)? {
            ensure!(got.is_ok(), "{} cannot be ignored: {got:?} ({how})", show(&v));
        }
        Ok(())
    });
    let n = ctx.n(100, 12);
    ctx.section("long", n, |c| {
        let n = crate::dict::length_to(&mut c.r, 50_000).max(1);
        let item = |k: usize| Value::u128(k as u128 % 256);
        let mut items: Vec<Val> = (0..n).map(item).collect();
        let k = c.r.below(n);
        c.desc = format!("{n} items");
        c.nontrivial(&c.desc.clone());
        let want: Vec<u8> = (0..n).map(|k| k as u8).collect();
        let check = |items: &[Val], fits: bool| -> Res {
            let named = Composite::Named(items.iter().enumerate().map(|(k, v)| (format!("k{k}"), v.clone())).collect());
            let list = Value::from(Composite::Unnamed(items.to_vec()));
            for (how, got) in all_ways::<Vec<u8>>(&list)? {
                ensure!(got.as_ref().ok() == fits.then_some(&want), "a list of {n} as numbers of 8 bits ({how}): {:?}", got.map(|x| x.len()));
            }
            let map = Value::from(named);
            for (how, got) in all_ways::<BTreeMap<String, u8>>(&map)? {
                let ok = match &got {
                    Ok(m) => fits && m.len() == n && want.iter().enumerate().all(|(k, b)| m.get(&format!("k{k}")) == Some(b)),
                    Err(_) => !fits,
                };
                ensure!(ok, "fields of {n} as numbers of 8 bits ({how}): {:?}", got.map(|x| x.len()));
            }
            Ok(())
        };
        check(&items, true)?;
        items[k] = [Value::u128(256 + k as u128), Value::i128(-1), Value::bool(true), Value::string("1")][c.r.below(4)].clone();
        check(&items, false)?;
        c.count("accepted_and_refused", 1);
        Ok(())
    });
    // every boundary of every width
    ctx.section("numbers", 129, |c| {
        let bit = c.index as u32;
        c.nontrivial(bit.to_string());
        for d in -2i128..=2 {
            let u = if bit == 128 { u128::MAX } else { (1u128 << bit).wrapping_add(d as u128) };
            for p in [Primitive::U128(u), Primitive::I128(u as i128), Primitive::I128((u as i128).wrapping_neg())] {
                c.desc = format!("{p:?}");
                number(c, &p)?;
            }
        }
        Ok(())
    });
    // every number of 8 bits, and some above and below
    ctx.section("small_numbers", 1, |c| {
        for n in -300i128..=70_000 {
            if n > 600 && !(65_000..=66_000).contains(&n) {
                continue;
            }
            number(c, &Primitive::I128(n))?;
            if n >= 0 {
                number(c, &Primitive::U128(n as u128))?;
            }
        }
        Ok(())
    });
    ctx.require("misfits.accepted", 10_000);
    ctx.require("misfits.refused", 10_000);
    ctx.require("other_types.accepted", 1_000);
    ctx.require("self_describing.accepted", 1_000);
    ctx.require("numbers.conversions", 10_000);
}
