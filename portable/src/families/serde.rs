use super::say;
use crate::prelude::*;
use crate::rng::Rng;
use crate::vgen::*;
use crate::Log;
use ::serde::de::DeserializeOwned;
use ::serde::{Deserialize, Serialize};
use core::fmt::{Debug, Write};
use scale_value::serde::{from_value, to_value};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

trait Gen: Sized + Debug + Serialize + DeserializeOwned {
    fn gen(r: &mut Rng) -> Self;
}
macro_rules! gens {
    ($($t:ty => |$r:ident| $e:expr;)*) => {$( impl Gen for $t { fn gen($r: &mut Rng) -> Self { $e } } )*};
}
gens! {
    bool => |r| r.bool();
    u8 => |r| r.uint(8) as u8;
    u16 => |r| r.uint(16) as u16;
    u32 => |r| r.uint(32) as u32;
    u64 => |r| r.uint(64) as u64;
    u128 => |r| r.uint(128);
    i8 => |r| r.int(8) as i8;
    i16 => |r| r.int(16) as i16;
    i32 => |r| r.int(32) as i32;
    i64 => |r| r.int(64) as i64;
    i128 => |r| r.int(128);
    char => |r| gen_char(r);
    String => |r| gen_string(r, 8);
    () => |_r| ();
    Unit => |_r| Unit;
    New => |r| New(Gen::gen(r));
    Pair => |r| Pair(Gen::gen(r), Gen::gen(r));
    Data => |r| Data { a: Gen::gen(r), b: Gen::gen(r), names: Gen::gen(r), list: Gen::gen(r) };
    Kind => |r| match r.below(5) { 0 => Kind::A, 1 => Kind::B(Gen::gen(r)), 2 => Kind::C(Gen::gen(r), Gen::gen(r)), 3 => Kind::D { x: Gen::gen(r), y: Gen::gen(r) }, _ => Kind::E(Box::new(Gen::gen(r))) };
    Strict => |r| Strict { name: Gen::gen(r), values: Gen::gen(r) };
    BTreeMap<String, u32> => |r| (0..r.below(4)).map(|_| (gen_name(r), Gen::gen(r))).collect();
    Float => |r| Float(r.below(100) as f64 / 4.0);
    Value<()> => |r| { let o = VOpts { depth: 3, big256: r.chance(1, 8), ..Default::default() }; value0(r, &o) };
    Composite<()> => |r| loop { if let ValueDef::Composite(c) = value0(r, &VOpts { depth: 3, ..Default::default() }).value { break c } };
    Variant<()> => |r| Variant { name: gen_name(r), values: Gen::gen(r) };
    Primitive => |r| gen_primitive(r, &VOpts { big256: true, ..Default::default() });
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        r.bool().then(|| T::gen(r))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| T::gen(r)).collect()
    }
}
impl<T: Gen, U: Gen> Gen for (T, U) {
    fn gen(r: &mut Rng) -> Self {
        (T::gen(r), U::gen(r))
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct Unit;
#[derive(Debug, Serialize, Deserialize)]
struct New(u16);
#[derive(Debug, Serialize, Deserialize)]
struct Pair(u8, Option<String>);
#[derive(Debug, Serialize, Deserialize)]
struct Data {
    a: u32,
    b: Option<Kind>,
    names: Vec<(String, i64)>,
    #[serde(default)]
    list: Vec<u8>,
}
#[derive(Debug, Serialize, Deserialize)]
enum Kind {
    A,
    B(i32),
    C(u8, String),
    D { x: Option<u8>, y: char },
    E(Box<Strict>),
}
#[derive(Debug, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    name: String,
    values: u64,
}
#[derive(Debug, Serialize, Deserialize)]
struct Float(f64);

fn into<T: Gen>(v: &Value<()>, log: &mut Log) {
    match from_value::<(), T>(v.clone()) {
        Ok(x) => {
            say!(log, "{x:?}");
        }
        Err(e) => {
            say!(log, "error {e} {e:?}");
        }
    }
}
fn both<T: Gen>(r: &mut Rng, log: &mut Log) -> Value<()> {
    let x = T::gen(r);
    say!(log, "{x:?}");
    let mut v = match to_value(&x) {
        Ok(v) => v,
        Err(e) => {
            say!(log, "to_value {e} {e:?}");
            T::gen(r);
            return Value::bool(true);
        }
    };
    say!(log, "{v:?}");
    into::<T>(&v, log);
    for _ in 0..r.below(3) {
        super::spoil(&mut v, r);
    }
    into::<T>(&v, log);
    v
}

macro_rules! any {
    ($r:ident, $log:ident, $f:ident $(, $v:ident)?; $($t:ty),* $(,)?) => {{
        type F = fn(any!(@a $($v)?), &mut Log) -> any!(@r $($v)?);
        let all: &[F] = &[$($f::<$t>),*];
        all[$r.below(all.len())]
    }};
    (@a $v:ident) => { &Value<()> };
    (@a) => { &mut Rng };
    (@r $v:ident) => { () };
    (@r) => { Value<()> };
}
macro_rules! types {
    ($($h:tt)*) => { any!($($h)*; bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, char, String, (), Unit, New, Pair, Data, Kind, Strict, BTreeMap<String, u32>, Float, Value<()>, Composite<()>, Variant<()>, Primitive, Option<u8>, Vec<u16>, (u8, String), Vec<Kind>, Option<Kind>, Vec<Option<i8>>, (Data, Kind), Option<Option<bool>>) };
}

/// A format which tells every call that it gets.
struct Calls<'a>(&'a mut Log, bool);
#[derive(Debug)]
struct No;
impl core::fmt::Display for No {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("no")
    }
}
impl core::error::Error for No {}
impl ::serde::ser::Error for No {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        No
    }
}
impl ::serde::de::Error for No {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        No
    }
}
macro_rules! calls {
    ($($f:ident $t:ty),*) => { $(fn $f(self, x: $t) -> Result<(), No> { say!(self.0, "{} {x:?}", stringify!($f)); Ok(()) })* };
}
macro_rules! parts {
    ($($tr:ident { $($f:ident ( $($k:ident : $kt:ty),* ))* })*) => { $(
        impl ::serde::ser::$tr for Calls<'_> {
            type Ok = ();
            type Error = No;
            $(fn $f<T: Serialize + ?Sized>(&mut self, $($k: $kt,)* x: &T) -> Result<(), No> {
                say!(self.0, "{} {:?}", stringify!($f), ($($k,)*));
                x.serialize(Calls(self.0, self.1))
            })*
            fn end(self) -> Result<(), No> {
                say!(self.0, "end");
                Ok(())
            }
        }
    )* };
}
parts! {
    SerializeSeq { serialize_element() }
    SerializeTuple { serialize_element() }
    SerializeTupleStruct { serialize_field() }
    SerializeTupleVariant { serialize_field() }
    SerializeMap { serialize_key() serialize_value() }
    SerializeStruct { serialize_field(k: &'static str) }
    SerializeStructVariant { serialize_field(k: &'static str) }
}
impl ::serde::Serializer for Calls<'_> {
    type Ok = ();
    type Error = No;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    calls!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn serialize_none(self) -> Result<(), No> {
        say!(self.0, "none");
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<(), No> {
        say!(self.0, "some");
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), No> {
        say!(self.0, "unit");
        Ok(())
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), No> {
        say!(self.0, "unit variant {n} {i} {v}");
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, x: &T) -> Result<(), No> {
        say!(self.0, "newtype {n}");
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, v: &'static str, x: &T) -> Result<(), No> {
        say!(self.0, "newtype variant {n} {i} {v}");
        x.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, No> {
        say!(self.0, "seq {n:?}");
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, No> {
        say!(self.0, "tuple {n}");
        Ok(self)
    }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Self, No> {
        say!(self.0, "tuple struct {s} {n}");
        Ok(self)
    }
    fn serialize_tuple_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self, No> {
        say!(self.0, "tuple variant {s} {i} {v} {n}");
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, No> {
        say!(self.0, "map {n:?}");
        Ok(self)
    }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Self, No> {
        say!(self.0, "struct {s} {n}");
        Ok(self)
    }
    fn serialize_struct_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self, No> {
        say!(self.0, "struct variant {s} {i} {v} {n}");
        Ok(self)
    }
}

/// Tells what it is given, whatever that is.
struct Seen(String);
macro_rules! seen {
    ($($f:ident $t:ty),*) => { $(fn $f<E>(self, x: $t) -> Result<Seen, E> { Ok(Seen(format!("{} {x:?};", stringify!($f)))) })* };
}
struct See;
impl<'de> ::serde::de::Visitor<'de> for See {
    type Value = Seen;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("anything")
    }
    seen!(visit_bool bool, visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128, visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128, visit_f32 f32, visit_f64 f64, visit_char char, visit_str &str, visit_borrowed_str &'de str, visit_string String, visit_bytes &[u8], visit_borrowed_bytes &'de [u8], visit_byte_buf Vec<u8>);
    fn visit_none<E>(self) -> Result<Seen, E> {
        Ok(Seen("none;".into()))
    }
    fn visit_unit<E>(self) -> Result<Seen, E> {
        Ok(Seen("unit;".into()))
    }
    fn visit_some<D: ::serde::Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen(format!("some {}", Seen::deserialize(d)?.0)))
    }
    fn visit_newtype_struct<D: ::serde::Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen(format!("newtype {}", Seen::deserialize(d)?.0)))
    }
    fn visit_seq<A: ::serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut s = format!("seq {:?} [", a.size_hint());
        while let Some(x) = a.next_element::<Seen>()? {
            s += &x.0;
        }
        Ok(Seen(s + "];"))
    }
    fn visit_map<A: ::serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut s = format!("map {:?} [", a.size_hint());
        while let Some(k) = a.next_key::<Seen>()? {
            s += &k.0;
            s += &a.next_value::<Seen>()?.0;
        }
        Ok(Seen(s + "];"))
    }
    fn visit_enum<A: ::serde::de::EnumAccess<'de>>(self, a: A) -> Result<Seen, A::Error> {
        let (k, v) = a.variant::<Seen>()?;
        // (one of the ways in which this might be a variant)
        let s = format!("variant {}", k.0);
        let rest = match s.len() % 4 {
            0 => ::serde::de::VariantAccess::newtype_variant::<Seen>(v)?,
            1 => ::serde::de::VariantAccess::tuple_variant(v, 2, See)?,
            2 => ::serde::de::VariantAccess::struct_variant(v, &["a", "x"], See)?,
            _ => {
                ::serde::de::VariantAccess::unit_variant(v)?;
                Seen(String::new())
            }
        };
        Ok(Seen(s + &rest.0))
    }
}
impl<'de> Deserialize<'de> for Seen {
    fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Seen, D::Error> {
        d.deserialize_any(See)
    }
}
struct Hinted<const K: u8>(String);
impl<'de, const K: u8> Deserialize<'de> for Hinted<K> {
    fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = match K {
            0 => d.deserialize_u8(See),
            1 => d.deserialize_i32(See),
            2 => d.deserialize_u64(See),
            3 => d.deserialize_i128(See),
            4 => d.deserialize_str(See),
            5 => d.deserialize_bytes(See),
            6 => d.deserialize_option(See),
            7 => d.deserialize_seq(See),
            8 => d.deserialize_tuple(2, See),
            9 => d.deserialize_map(See),
            10 => d.deserialize_struct("S", &["a", "x"], See),
            11 => d.deserialize_enum("E", &["A", "Foo"], See),
            12 => d.deserialize_identifier(See),
            13 => d.deserialize_newtype_struct("N", See),
            14 => d.deserialize_f64(See),
            _ => d.deserialize_ignored_any(See),
        }?;
        Ok(Hinted(s.0))
    }
}
fn see(v: &Value<()>, log: &mut Log, r: &mut Rng) {
    fn hinted<const K: u8>(v: &Value<()>) -> Result<String, String> {
        from_value::<(), Hinted<K>>(v.clone()).map(|x| x.0).map_err(|e| format!("{e} {e:?}"))
    }
    say!(log, "seen as {:?}", from_value::<(), Seen>(v.clone()).map(|x| x.0));
    type F = fn(&Value<()>) -> Result<String, String>;
    const ALL: [F; 16] = [hinted::<0>, hinted::<1>, hinted::<2>, hinted::<3>, hinted::<4>, hinted::<5>, hinted::<6>, hinted::<7>, hinted::<8>, hinted::<9>, hinted::<10>, hinted::<11>, hinted::<12>, hinted::<13>, hinted::<14>, hinted::<15>];
    for _ in 0..2 {
        let k = r.below(ALL.len());
        say!(log, "hint {k}: {:?}", ALL[k](v));
    }
}

/// What other formats hold.
fn given(r: &mut Rng, log: &mut Log) {
    use ::serde::de::value::*;
    use ::serde::de::IntoDeserializer;
    fn one<'de, D: ::serde::Deserializer<'de>>(d: impl Fn() -> D, log: &mut Log) {
        say!(log, "{:?}", Value::<()>::deserialize(d()).map_err(|_| ()));
        say!(log, "{:?}", Primitive::deserialize(d()).map_err(|_| ()));
        say!(log, "{:?}", Composite::<()>::deserialize(d()).map_err(|_| ()));
        say!(log, "{:?}", Variant::<()>::deserialize(d()).map_err(|_| ()));
    }
    macro_rules! of {
        ($t:ty) => {{
            let x: $t = Gen::gen(r);
            one(|| IntoDeserializer::<No>::into_deserializer(x.clone()), log)
        }};
    }
    match r.below(16) {
        0 => of!(u8),
        1 => of!(u16),
        2 => of!(u32),
        3 => of!(u64),
        4 => of!(u128),
        5 => of!(i8),
        6 => of!(i16),
        7 => of!(i32),
        8 => of!(i64),
        9 => of!(i128),
        10 => of!(char),
        11 => of!(bool),
        12 => of!(String),
        13 => {
            let x = Vec::<u64>::gen(r);
            one(|| SeqDeserializer::<_, No>::new(x.iter().copied()), log)
        }
        14 => {
            let x = BTreeMap::<String, u32>::gen(r);
            one(|| MapDeserializer::<_, No>::new(x.iter().map(|(k, v)| (k.as_str(), *v))), log)
        }
        _ => {
            let b: Vec<u8> = (0..r.below(40)).map(|_| r.uint(8) as u8).collect();
            one(|| BytesDeserializer::<No>::new(&b), log)
        }
    }
}

pub fn serde(r: &mut Rng, log: &mut Log) {
    let f = types!(r, log, both);
    let v = f(r, log);
    for _ in 0..3 {
        types!(r, log, into, v)(&v, log);
    }
    let o = VOpts { depth: 1 + r.below(3), big256: r.chance(1, 6), ..Default::default() };
    let w = value0(r, &o);
    say!(log, "{:?}", to_value(&w));
    let human = r.bool();
    for x in [&v, &w] {
        if x.serialize(Calls(log, human)).is_err() {
            say!(log, "failed");
        }
        see(x, log, r);
    }
    given(r, log);
    for _ in 0..3 {
        types!(r, log, into, v)(&w, log);
    }
}
