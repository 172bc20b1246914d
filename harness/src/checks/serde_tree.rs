//! C18: values through serde, by way of a tree which records and replays every call of the data model.
use super::text::show;
use crate::alloc;
use crate::model::{mk_bits, unbits};
use crate::rng::Rng;
use crate::runner::*;
use crate::vgen::*;
use crate::Check;
use scale_value::serde::{from_value, to_value, DeserializerError};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;
use std::fmt;

pub fn table() -> Vec<Check> {
    vec![Check {
        id: "C18",
        run: c18,
        rule: "a case is a value serialized into a recording tree (and JSON), a tree of serde data replayed into each deserializable type, or a value converted into a value; each is compared with the model. Non-trivial: more than one node, or a number, character or string; distinct by content",
        mem: true,
        term: true,
    }]
}

pub const BITS_KEY: &str = "__bitvec__values__";

// ---------------------------------------------------------------- the tree

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Bool(bool),
    /// a number given in so many bits
    U(u128, u32),
    I(i128, u32),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String, u8),
    Bytes(Vec<u8>, u8),
    None,
    Some(Box<Tree>),
    Unit,
    Newtype(Box<Tree>),
    /// items, and the length announced
    Seq(Vec<Tree>, Option<usize>),
    Map(Vec<(Tree, Tree)>, Option<usize>),
    Enum(String, Box<Tree>),
    Other(&'static str),
}

// ---------------------------------------------------------------- recording

#[derive(Debug)]
pub struct Bad(String);
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}
impl de::Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}

/// A serializer that fails after so many calls, if asked to.
#[derive(Clone, Copy)]
struct Rec<'a> {
    human: bool,
    left: Option<&'a std::cell::Cell<u64>>,
    /// fails once, then works again
    once: bool,
}
impl Rec<'_> {
    fn step(&self) -> Result<(), Bad> {
        if let Some(l) = self.left {
            if l.get() == 0 {
                if self.once {
                    l.set(u64::MAX);
                }
                return Err(Bad("format refused".into()));
            }
            l.set(l.get() - 1);
        }
        Ok(())
    }
}
struct RecSeq<'a>(Rec<'a>, Vec<Tree>, Option<usize>);
struct RecMap<'a>(Rec<'a>, Vec<(Tree, Tree)>, Option<Tree>, Option<usize>);

macro_rules! rec_num { ($($m:ident $t:ty, $v:ident $as:ty, $b:expr;)*) => { $(fn $m(self, v: $t) -> Result<Tree, Bad> { self.step()?; Ok(Tree::$v(v as $as, $b)) })* } }
impl<'a> ser::Serializer for Rec<'a> {
    type Ok = Tree;
    type Error = Bad;
    type SerializeSeq = RecSeq<'a>;
    type SerializeTuple = RecSeq<'a>;
    type SerializeTupleStruct = ser::Impossible<Tree, Bad>;
    type SerializeTupleVariant = ser::Impossible<Tree, Bad>;
    type SerializeMap = RecMap<'a>;
    type SerializeStruct = RecMap<'a>;
    type SerializeStructVariant = ser::Impossible<Tree, Bad>;
    rec_num! {
        serialize_u8 u8, U u128, 8; serialize_u16 u16, U u128, 16; serialize_u32 u32, U u128, 32; serialize_u64 u64, U u128, 64; serialize_u128 u128, U u128, 128;
        serialize_i8 i8, I i128, 8; serialize_i16 i16, I i128, 16; serialize_i32 i32, I i128, 32; serialize_i64 i64, I i128, 64; serialize_i128 i128, I i128, 128;
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> Result<Tree, Bad> {
        self.step()?;
        Ok(Tree::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Tree, Bad> {
        Ok(Tree::F32(v))
    }
    fn serialize_f64(self, v: f64) -> Result<Tree, Bad> {
        Ok(Tree::F64(v))
    }
    fn serialize_char(self, v: char) -> Result<Tree, Bad> {
        self.step()?;
        Ok(Tree::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<Tree, Bad> {
        self.step()?;
        Ok(Tree::Str(v.into(), 0))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tree, Bad> {
        self.step()?;
        Ok(Tree::Bytes(v.into(), 0))
    }
    fn serialize_none(self) -> Result<Tree, Bad> {
        Ok(Tree::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tree, Bad> {
        Ok(Tree::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Tree, Bad> {
        Ok(Tree::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, Bad> {
        Ok(Tree::Other("unit struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tree, Bad> {
        Ok(Tree::Enum(v.into(), Box::new(Tree::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tree, Bad> {
        Ok(Tree::Newtype(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Tree, Bad> {
        Ok(Tree::Enum(n.into(), Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq<'a>, Bad> {
        self.step()?;
        Ok(RecSeq(self, vec![], n))
    }
    fn serialize_tuple(self, n: usize) -> Result<RecSeq<'a>, Bad> {
        self.step()?;
        Ok(RecSeq(self, vec![], Some(n)))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
        Err(Bad("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad("tuple variant".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap<'a>, Bad> {
        self.step()?;
        Ok(RecMap(self, vec![], None, n))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<RecMap<'a>, Bad> {
        self.step()?;
        Ok(RecMap(self, vec![], None, Some(n)))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad("struct variant".into()))
    }
}
impl ser::SerializeSeq for RecSeq<'_> {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        self.0.step()?;
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Tree, Bad> {
        self.0.step()?;
        Ok(Tree::Seq(self.1, self.2))
    }
}
impl ser::SerializeTuple for RecSeq<'_> {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Tree, Bad> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeMap for RecMap<'_> {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        self.0.step()?;
        self.2 = Some(v.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        let k = self.2.take().ok_or_else(|| Bad("value without key".into()))?;
        self.0.step()?;
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Tree, Bad> {
        self.0.step()?;
        Ok(Tree::Map(self.1, self.3))
    }
}
impl ser::SerializeStruct for RecMap<'_> {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
        self.0.step()?;
        self.1.push((Tree::Str(k.into(), 0), v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Tree, Bad> {
        ser::SerializeMap::end(self)
    }
}

// ---------------------------------------------------------------- replaying

/// Replays a tree as a self-describing format would.
pub struct Play<'a> {
    t: &'a Tree,
    human: bool,
}
struct PlaySeq<'a>(std::slice::Iter<'a, Tree>, Option<usize>, bool);
struct PlayMap<'a>(std::slice::Iter<'a, (Tree, Tree)>, Option<&'a Tree>, Option<usize>, bool);
struct PlayEnum<'a>(&'a str, &'a Tree, bool);

impl<'a> de::SeqAccess<'a> for PlaySeq<'a> {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        self.0.next().map(|t| s.deserialize(Play { t, human: self.2 })).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
impl<'a> de::MapAccess<'a> for PlayMap<'a> {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(Play { t: k, human: self.3 }).map(Some)
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<S::Value, Bad> {
        let t = self.1.take().ok_or_else(|| Bad("value without key".into()))?;
        s.deserialize(Play { t, human: self.3 })
    }
    fn size_hint(&self) -> Option<usize> {
        self.2
    }
}
impl<'a> de::EnumAccess<'a> for PlayEnum<'a> {
    type Error = Bad;
    type Variant = Play<'a>;
    fn variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<(S::Value, Play<'a>), Bad> {
        let n = s.deserialize(IntoDeserializer::<Bad>::into_deserializer(self.0))?;
        Ok((n, Play { t: self.1, human: self.2 }))
    }
}
// whichever kind of variant is asked for, its content is replayed as it is
impl<'a> de::VariantAccess<'a> for Play<'a> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        match self.t {
            Tree::Unit => Ok(()),
            _ => Err(Bad("not a unit variant".into())),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<S::Value, Bad> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        de::Deserializer::deserialize_any(self, v)
    }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        de::Deserializer::deserialize_any(self, v)
    }
}
impl<'de> de::Deserializer<'de> for Play<'de> {
    type Error = Bad;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        let human = self.human;
        match self.t {
            Tree::Bool(b) => v.visit_bool(*b),
            Tree::U(n, 8) => v.visit_u8(*n as u8),
            Tree::U(n, 16) => v.visit_u16(*n as u16),
            Tree::U(n, 32) => v.visit_u32(*n as u32),
            Tree::U(n, 64) => v.visit_u64(*n as u64),
            Tree::U(n, _) => v.visit_u128(*n),
            Tree::I(n, 8) => v.visit_i8(*n as i8),
            Tree::I(n, 16) => v.visit_i16(*n as i16),
            Tree::I(n, 32) => v.visit_i32(*n as i32),
            Tree::I(n, 64) => v.visit_i64(*n as i64),
            Tree::I(n, _) => v.visit_i128(*n),
            Tree::F32(f) => v.visit_f32(*f),
            Tree::F64(f) => v.visit_f64(*f),
            Tree::Char(c) => v.visit_char(*c),
            Tree::Str(s, 0) => v.visit_str(s),
            Tree::Str(s, 1) => v.visit_borrowed_str(s),
            Tree::Str(s, _) => v.visit_string(s.clone()),
            Tree::Bytes(s, 0) => v.visit_bytes(s),
            Tree::Bytes(s, 1) => v.visit_borrowed_bytes(s),
            Tree::Bytes(s, _) => v.visit_byte_buf(s.clone()),
            Tree::None => v.visit_none(),
            Tree::Some(t) => v.visit_some(Play { t, human }),
            Tree::Unit => v.visit_unit(),
            Tree::Newtype(t) => v.visit_newtype_struct(Play { t, human }),
            Tree::Seq(ts, n) => v.visit_seq(PlaySeq(ts.iter(), *n, human)),
            Tree::Map(ts, n) => v.visit_map(PlayMap(ts.iter(), None, *n, human)),
            Tree::Enum(n, t) => v.visit_enum(PlayEnum(n, t, human)),
            Tree::Other(m) => Err(Bad(m.to_string())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ---------------------------------------------------------------- what a value serializes to

fn tree_prim(p: &Primitive) -> Tree {
    match p {
        Primitive::Bool(b) => Tree::Bool(*b),
        Primitive::Char(c) => Tree::Char(*c),
        Primitive::String(s) => Tree::Str(s.clone(), 0),
        Primitive::U128(n) => Tree::U(*n, 0),
        Primitive::I128(n) => Tree::I(*n, 0),
        Primitive::U256(b) | Primitive::I256(b) => Tree::Seq(b.iter().map(|b| Tree::U(*b as u128, 0)).collect(), Some(32)),
    }
}
fn tree_comp<T>(c: &Composite<T>) -> Tree {
    match c {
        Composite::Named(x) => Tree::Map(x.iter().map(|(n, v)| (Tree::Str(n.clone(), 0), tree_def(&v.value))).collect(), Some(x.len())),
        Composite::Unnamed(x) => Tree::Seq(x.iter().map(|v| tree_def(&v.value)).collect(), Some(x.len())),
    }
}
fn tree_variant<T>(v: &Variant<T>) -> Tree {
    Tree::Map(
        vec![
            (Tree::Str("name".into(), 0), Tree::Str(v.name.clone(), 0)),
            (Tree::Str("values".into(), 0), tree_comp(&v.values)),
        ],
        Some(2),
    )
}
pub fn tree_def<T>(v: &ValueDef<T>) -> Tree {
    match v {
        ValueDef::Primitive(p) => tree_prim(p),
        ValueDef::Composite(c) => tree_comp(c),
        ValueDef::Variant(x) => tree_variant(x),
        ValueDef::BitSequence(b) => Tree::Map(
            vec![(Tree::Str(BITS_KEY.into(), 0), {
                let b = unbits(b);
                let n = b.len();
                Tree::Seq(b.into_iter().map(Tree::Bool).collect(), Some(n))
            })],
            Some(1),
        ),
    }
}

/// Does what was recorded say what was expected? Numbers may come in any width that holds them,
/// but within 64 bits if they fit; lengths must be announced, as many formats need them, and be true.
fn agree(got: &Tree, want: &Tree) -> Result<(), String> {
    let no = || Err(format!("recorded {got:?}, expected {want:?}"));
    match (got, want) {
        (Tree::U(a, w), Tree::U(b, _)) => {
            if a != b {
                return no();
            }
            if *w > 64 && u64::try_from(*a).is_ok() {
                return Err(format!("{a} was given in {w} bits"));
            }
        }
        (Tree::I(a, w), Tree::I(b, _)) => {
            if a != b {
                return no();
            }
            if *w > 64 && i64::try_from(*a).is_ok() {
                return Err(format!("{a} was given in {w} bits"));
            }
        }
        (Tree::Seq(a, n), Tree::Seq(b, _)) => {
            if a.len() != b.len() || *n != Some(a.len()) {
                return no();
            }
            for (x, y) in a.iter().zip(b) {
                agree(x, y)?;
            }
        }
        (Tree::Map(a, n), Tree::Map(b, _)) => {
            if a.len() != b.len() || *n != Some(a.len()) {
                return no();
            }
            for ((k, x), (l, y)) in a.iter().zip(b) {
                agree(k, l)?;
                agree(x, y)?;
            }
        }
        (a, b) => {
            if a != b {
                return no();
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- what a tree deserializes to

type R<T> = Result<T, ()>;
fn from_prim(t: &Tree) -> R<Primitive> {
    Ok(match t {
        Tree::Bool(b) => Primitive::Bool(*b),
        Tree::U(n, _) => Primitive::U128(*n),
        Tree::I(n, _) => Primitive::I128(*n),
        Tree::Char(c) => Primitive::Char(*c),
        Tree::Str(s, _) => Primitive::String(s.clone()),
        _ => return Err(()),
    })
}
fn from_any(t: &Tree) -> R<ValueDef<()>> {
    Ok(match t {
        Tree::None => ValueDef::Variant(Variant { name: "None".into(), values: Composite::Unnamed(vec![]) }),
        Tree::Some(x) => ValueDef::Variant(Variant { name: "Some".into(), values: Composite::Unnamed(vec![from_value_tree(x)?]) }),
        Tree::Newtype(x) => from_any(x)?,
        Tree::Enum(..) => ValueDef::Variant(from_variant(t)?),
        Tree::Map(xs, _) if matches!(xs.first(), Some((Tree::Str(k, _), _)) if k == BITS_KEY) => {
            // (other shapes with this key are not used)
            let Tree::Seq(bs, _) = &xs[0].1 else { return Err(()) };
            let mut out = vec![];
            for b in bs {
                let Tree::Bool(b) = b else { return Err(()) };
                out.push(*b);
            }
            ValueDef::BitSequence(mk_bits(&out))
        }
        Tree::Unit | Tree::Bytes(..) | Tree::Seq(..) | Tree::Map(..) => ValueDef::Composite(from_comp(t)?),
        t => ValueDef::Primitive(from_prim(t)?),
    })
}
fn from_value_tree(t: &Tree) -> R<Value<()>> {
    Ok(Value { value: from_any(t)?, context: () })
}
/// What serde makes a string of.
fn stringy(t: &Tree) -> R<String> {
    match t {
        Tree::Str(s, _) => Ok(s.clone()),
        Tree::Char(c) => Ok(c.to_string()),
        Tree::Bytes(b, _) => String::from_utf8(b.clone()).map_err(|_| ()),
        _ => Err(()),
    }
}
fn from_comp(t: &Tree) -> R<Composite<()>> {
    Ok(match t {
        Tree::Unit => Composite::Unnamed(vec![]),
        Tree::Newtype(x) => from_comp(x)?,
        Tree::Bytes(b, _) => Composite::Unnamed(b.iter().map(|b| Value::u128(*b as u128)).collect()),
        Tree::Seq(xs, _) => Composite::Unnamed(xs.iter().map(from_value_tree).collect::<R<_>>()?),
        Tree::Map(xs, _) => Composite::Named(
            xs.iter()
                .map(|(k, v)| Ok((stringy(k)?, from_value_tree(v)?)))
                .collect::<R<_>>()?,
        ),
        _ => return Err(()),
    })
}
fn from_variant(t: &Tree) -> R<Variant<()>> {
    Ok(match t {
        Tree::Enum(n, x) => Variant { name: n.clone(), values: from_comp(x)? },
        Tree::None => Variant { name: "None".into(), values: Composite::Unnamed(vec![]) },
        Tree::Some(x) => Variant { name: "Some".into(), values: Composite::Unnamed(vec![from_value_tree(x)?]) },
        Tree::Map(xs, _) => {
            let (mut name, mut values) = (None, None);
            for (k, v) in xs {
                // (no key is given twice)
                match stringy(k)?.as_str() {
                    "name" => name = Some(stringy(v)?),
                    "values" => values = Some(from_comp(v)?),
                    _ => return Err(()),
                }
            }
            Variant { name: name.ok_or(())?, values: values.ok_or(())? }
        }
        _ => return Err(()),
    })
}

fn gen_tree(r: &mut Rng, depth: usize) -> Tree {
    let k = if depth == 0 { r.below(7) } else { r.below(16) };
    let hint = |r: &mut Rng, n: usize| match r.below(8) {
        0 => None,
        1 => Some(0),
        2 => Some(usize::MAX),
        3 => Some(1 << 40),
        4 => Some(r.below(100)),
        _ => Some(n),
    };
    match k {
        0 => Tree::Bool(r.bool()),
        1 | 2 => {
            let w = *r.pick(&[8, 16, 32, 64, 128]);
            Tree::U(r.uint(w), w)
        }
        3 => {
            let w = *r.pick(&[8, 16, 32, 64, 128]);
            Tree::I(r.int(w), w)
        }
        4 => Tree::Char(gen_char(r)),
        5 => Tree::Str(gen_string(r, 8), r.below(3) as u8),
        6 => match r.below(8) {
            0 => Tree::F32(1.5),
            1 => Tree::F64(r.below(1000) as f64),
            2 => {
                let n = *r.pick(&[0, 1, 31, 32, 32, 33]);
                Tree::Bytes(r.bytes(n), r.below(3) as u8)
            }
            3 => Tree::None,
            4 | 5 => Tree::Unit,
            _ => Tree::Bool(r.bool()),
        },
        7 => Tree::Some(Box::new(gen_tree(r, depth - 1))),
        8 => Tree::Newtype(Box::new(gen_tree(r, depth - 1))),
        9 | 10 => {
            let n = r.below(5);
            let v = (0..n).map(|_| gen_tree(r, depth - 1)).collect();
            Tree::Seq(v, hint(r, n))
        }
        11 | 12 => {
            let n = r.below(5);
            let v = (0..n)
                .map(|_| {
                    let k = match r.below(40) {
                        0 => Tree::Char(gen_char(r)),
                        1 => gen_tree(r, 0),
                        _ => loop {
                            let s = gen_name(r);
                            if s != BITS_KEY {
                                break Tree::Str(s, r.below(3) as u8);
                            }
                        },
                    };
                    (k, gen_tree(r, depth - 1))
                })
                .collect();
            Tree::Map(v, hint(r, n))
        }
        13 => {
            let n = r.below(20);
            Tree::Map(vec![(Tree::Str(BITS_KEY.into(), 0), Tree::Seq((0..n).map(|_| Tree::Bool(r.bool())).collect(), hint(r, n)))], hint(r, 1))
        }
        14 => {
            let c = match r.below(6) {
                0 => Tree::Unit,
                _ => gen_tree(r, depth - 1),
            };
            Tree::Enum(gen_name(r), Box::new(c))
        }
        _ => {
            // the documented form of a variant, or something close to it
            fn other(r: &mut Rng) -> String {
                loop {
                    let s = gen_name(r);
                    if s != "name" && s != "values" && s != BITS_KEY {
                        return s;
                    }
                }
            }
            let mut m = vec![
                (Tree::Str("name".into(), r.below(3) as u8), Tree::Str(gen_name(r), r.below(3) as u8)),
                (Tree::Str("values".into(), r.below(3) as u8), gen_tree(r, depth - 1)),
            ];
            match r.below(12) {
                0 => {
                    m.pop();
                }
                1 => {
                    m.remove(0);
                }
                2 => m.push((Tree::Str(other(r), 0), gen_tree(r, 0))),
                3 => m[0].0 = Tree::Str(other(r), 0),
                4 | 5 => m.reverse(),
                _ => {}
            }
            Tree::Map(m, hint(r, 2))
        }
    }
}

// ---------------------------------------------------------------- checks

fn from_tree(c: &mut Case, t: &Tree) -> Res {
    c.desc = format!("{t:?}");
    c.nontrivial(&c.desc.clone());
    let human = c.r.bool();
    fn one<'a, T: Deserialize<'a> + PartialEq + fmt::Debug>(what: &str, t: &'a Tree, human: bool, want: R<T>) -> Result<bool, Fail> {
        alloc::begin(64 << 20);
        let got = no_panic(what, || T::deserialize(Play { t, human }));
        alloc::end();
        match (got?, want) {
            (Ok(g), Ok(w)) if g == w => Ok(true),
            (Err(_), Err(())) => Ok(false),
            (g, w) => Err(Fail::from(format!("{what} from a format gave {g:?}\nexpected {w:?}"))),
        }
    }
    if one("Value", t, human, from_value_tree(t))? {
        c.count("values", 1);
    } else {
        c.count("refused", 1);
    }
    one("ValueDef", t, human, from_any(t))?;
    if one("Composite", t, human, from_comp(t))? {
        c.count("composites", 1);
    }
    if one("Variant", t, human, from_variant(t))? {
        c.count("variants", 1);
    }
    // 32 bytes make a 256 bit number if a primitive is asked for
    let want = match t {
        Tree::Bytes(b, _) => b.clone().try_into().map(Primitive::U256).map_err(|_| ()),
        Tree::Seq(xs, _) => xs
            .iter()
            .map(|x| match x {
                Tree::U(n, _) => u8::try_from(*n).map_err(|_| ()),
                Tree::I(n, _) => u8::try_from(*n).map_err(|_| ()),
                _ => Err(()),
            })
            .collect::<R<Vec<u8>>>()
            .and_then(|b| b.try_into().map(Primitive::U256).map_err(|_| ())),
        t => from_prim(t),
    };
    // (a 128 bit call is not understood by u8 itself: not ours to decide)
    if !matches!(t, Tree::Seq(xs, _) if xs.iter().any(|x| matches!(x, Tree::U(_, 128) | Tree::I(_, 128)))) {
        if one("Primitive", t, human, want)? {
            c.count("primitives", 1);
        }
    }
    Ok(())
}

/// 256 bit numbers become lists of their bytes, all else stays.
fn as_value(v: &ValueDef<u32>) -> Value<()> {
    fn comp(c: &Composite<u32>) -> Composite<()> {
        match c {
            Composite::Named(x) => Composite::Named(x.iter().map(|(n, v)| (n.clone(), as_value(&v.value))).collect()),
            Composite::Unnamed(x) => Composite::Unnamed(x.iter().map(|v| as_value(&v.value)).collect()),
        }
    }
    let value = match v {
        ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => {
            ValueDef::Composite(Composite::Unnamed(b.iter().map(|b| Value::u128(*b as u128)).collect()))
        }
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Composite(c) => ValueDef::Composite(comp(c)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: comp(&x.values) }),
    };
    Value { value, context: () }
}

/// What `to_value` of a value is: variants as maps of name and values, bits as a map.
fn as_serialized(t: &Tree) -> Value<()> {
    match t {
        Tree::Seq(x, _) => Value::unnamed_composite(x.iter().map(as_serialized)),
        Tree::Map(x, _) => Value::named_composite(x.iter().map(|(k, v)| {
            let Tree::Str(k, _) = k else { unreachable!() };
            (k.clone(), as_serialized(v))
        })),
        t => Value::primitive(from_prim(t).unwrap()),
    }
}

/// Values with a named composite that begins with the key kept for bit sequences are read as such.
fn has_bits_key(v: &Value<u32>) -> bool {
    let mut found = false;
    walk(v, &mut |v| {
        let c = match &v.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(x) => &x.values,
            _ => return,
        };
        if let Composite::Named(x) = c {
            found |= x.first().is_some_and(|x| x.0 == BITS_KEY);
        }
    });
    found
}

fn gen_ctx(r: &mut Rng, big: bool) -> Value<u32> {
    let o = VOpts { depth: r.range(0, 5), wide: 4, big256: big, unique_names: r.bool() };
    loop {
        let v = gen_value(r, &o, o.depth, &mut |r| r.u64() as u32);
        if !has_bits_key(&v) {
            return v;
        }
    }
}

fn serialize_one<T: Serialize>(c: &mut Case, what: &str, x: &T, want: &Tree) -> Res {
    for human in [false, true] {
        let got = no_panic(what, || x.serialize(Rec { human, left: None, once: false }))?;
        match got {
            Ok(t) => agree(&t, want).map_err(|e| Fail::from(format!("{what}: {e}")))?,
            Err(e) => return Err(Fail::from(format!("{what} does not serialize: {e}"))),
        }
    }
    // a format that fails must be heard
    let total = {
        let once = false;
        let cell = std::cell::Cell::new(u64::MAX);
        let _ = x.serialize(Rec { human: true, left: Some(&cell), once });
        u64::MAX - cell.get()
    };
    for once in [false, false, true, true] {
        if total == 0 {
            break;
        }
        let cell = std::cell::Cell::new(c.r.below(total as usize) as u64);
        let got = no_panic(what, || x.serialize(Rec { human: true, left: Some(&cell), once }))?;
        ensure!(got.is_err(), "{what}: a failure of the format was swallowed");
        c.count("format_failures", 1);
    }
    Ok(())
}

fn serialize(c: &mut Case, v: &Value<u32>) -> Res {
    c.desc = show(v);
    c.nontrivial(&c.desc.clone());
    let want = tree_def(&v.value);
    serialize_one(c, "Value", v, &want)?;
    serialize_one(c, "ValueDef", &v.value, &want)?;
    match &v.value {
        ValueDef::Composite(x) => serialize_one(c, "Composite", x, &want)?,
        ValueDef::Variant(x) => serialize_one(c, "Variant", x, &want)?,
        ValueDef::Primitive(x) => serialize_one(c, "Primitive", x, &want)?,
        _ => {}
    }
    // and the same through the crate's own serializer
    let want = as_serialized(&want);
    let got = no_panic("to_value", || to_value(v))?;
    ensure!(got.as_ref() == Ok(&want), "to_value of a value gave {got:?}\nexpected {want:?}");
    // JSON: text and back
    let json = no_panic("to JSON", || serde_json::to_string(v))?.map_err(|e| Fail::from(format!("JSON: {e}")))?;
    let mut huge = false;
    walk(&want, &mut |v| match &v.value {
        ValueDef::Primitive(Primitive::U128(n)) => huge |= *n > u64::MAX as u128,
        ValueDef::Primitive(Primitive::I128(n)) => huge |= *n < i64::MIN as i128 || *n > u64::MAX as i128,
        _ => {}
    });
    let got = no_panic("from JSON", || serde_json::from_str::<Value<()>>(&json))?;
    if huge {
        // such numbers are beyond what serde_json hands on exactly
        ensure!(got.is_err(), "JSON {json} gave {got:?}");
        c.count("json_huge", 1);
    } else {
        let want = json_value(&tree_def(&v.value));
        match got {
            Ok(g) => ensure!(g == want, "JSON {json} gave {g:?}\nexpected {want:?}"),
            Err(e) => return Err(Fail::from(format!("JSON {json} was refused: {e}"))),
        }
        c.count("json", 1);
        // by way of serde_json's own values, which merge equal keys
        if !super::serde_tree::dup_names(v) {
            let j = no_panic("to JSON value", || serde_json::to_value(v))?.map_err(|e| Fail::from(format!("JSON value: {e}")))?;
            let k: serde_json::Value = serde_json::from_str(&json).unwrap();
            ensure!(j == k, "JSON value {j} differs from JSON text {json}");
        }
    }
    Ok(())
}

fn dup_names(v: &Value<u32>) -> bool {
    let mut found = false;
    walk(v, &mut |v| {
        let c = match &v.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(x) => &x.values,
            _ => return,
        };
        if let Composite::Named(x) = c {
            let mut s = std::collections::HashSet::new();
            found |= x.iter().any(|x| !s.insert(&x.0));
        }
    });
    found
}

/// What comes back from JSON: characters as strings, signed numbers as unsigned if they can be,
/// variants as maps, bits as bits.
fn json_value(t: &Tree) -> Value<()> {
    match t {
        Tree::I(n, _) if *n >= 0 => Value::u128(*n as u128),
        Tree::Char(c) => Value::string(c.to_string()),
        Tree::Seq(x, _) => Value::unnamed_composite(x.iter().map(json_value)),
        Tree::Map(x, _) => {
            if let Some((Tree::Str(k, _), Tree::Seq(bs, _))) = x.first() {
                if k == BITS_KEY {
                    let bs: Vec<bool> = bs.iter().map(|b| *b == Tree::Bool(true)).collect();
                    return Value::bit_sequence(mk_bits(&bs));
                }
            }
            Value::named_composite(x.iter().map(|(k, v)| {
                let Tree::Str(k, _) = k else { unreachable!() };
                (k.clone(), json_value(v))
            }))
        }
        t => Value::primitive(from_prim(t).unwrap()),
    }
}

#[derive(Deserialize, Debug, PartialEq)]
struct Part {
    a: Value<()>,
    b: Option<Value<()>>,
    c: Vec<Value<()>>,
    d: (Value<()>, Value<()>),
}

fn convert(c: &mut Case, v: &Value<u32>) -> Res {
    c.desc = show(v);
    c.nontrivial(&c.desc.clone());
    fn eq<T: PartialEq + fmt::Debug>(what: &str, got: Result<T, DeserializerError>, want: &T) -> Res {
        ensure!(got.as_ref() == Ok(want), "{what} gave {got:?}\nexpected {want:?}");
        Ok(())
    }
    let want = as_value(&v.value);
    let v2 = v.clone();
    eq("Value to Value", no_panic("from_value", || from_value::<_, Value<()>>(v2))?, &want)?;
    let v2 = v.clone();
    eq("Value to ValueDef", no_panic("from_value", || from_value::<_, ValueDef<()>>(v2))?, &want.value)?;
    let v2 = v.value.clone();
    eq("ValueDef to Value", no_panic("deserialize", || Value::deserialize(v2))?, &want)?;
    match &v.value {
        ValueDef::Composite(x) => {
            let ValueDef::Composite(w) = &want.value else { unreachable!() };
            let (x1, x2, x3) = (x.clone(), x.clone(), v.clone());
            eq("Composite to Composite", no_panic("deserialize", || Composite::deserialize(x1))?, w)?;
            eq("Composite to Value", no_panic("deserialize", || Value::deserialize(x2))?, &want)?;
            eq("Value to Composite", no_panic("deserialize", || from_value::<_, Composite<()>>(x3))?, w)?;
        }
        ValueDef::Variant(x) => {
            let ValueDef::Variant(w) = &want.value else { unreachable!() };
            let (x1, x2, x3) = (x.clone(), x.clone(), v.clone());
            eq("Variant to Variant", no_panic("deserialize", || Variant::deserialize(x1))?, w)?;
            eq("Variant to Value", no_panic("deserialize", || Value::deserialize(x2))?, &want)?;
            eq("Value to Variant", no_panic("deserialize", || from_value::<_, Variant<()>>(x3))?, w)?;
            c.count("variants", 1);
        }
        ValueDef::Primitive(x) => {
            let w = match x {
                Primitive::I256(b) => Primitive::U256(*b),
                p => p.clone(),
            };
            let (x1, x3) = (x.clone(), v.clone());
            eq("Primitive to Primitive", no_panic("deserialize", || Primitive::deserialize(x1))?, &w)?;
            eq("Value to Primitive", no_panic("deserialize", || from_value::<_, Primitive>(x3))?, &w)?;
        }
        ValueDef::BitSequence(_) => c.count("bits", 1),
    }
    // parts of a value within Rust data
    let wrap = |xs: Vec<Value<u32>>| Value { value: ValueDef::Composite(Composite::Unnamed(xs)), context: 0 };
    let whole = Value {
        value: ValueDef::Composite(Composite::Named(vec![
            ("d".into(), wrap(vec![v.clone(), v.clone()])),
            ("a".into(), v.clone()),
            (
                "b".into(),
                Value { value: ValueDef::Variant(Variant { name: "Some".into(), values: Composite::Unnamed(vec![v.clone()]) }), context: 9 },
            ),
            ("c".into(), wrap(vec![v.clone(), v.clone(), v.clone()])),
        ])),
        context: 1,
    };
    let w = || want.clone();
    let expect = Part { a: w(), b: Some(w()), c: vec![w(), w(), w()], d: (w(), w()) };
    eq("Values within Rust data", no_panic("from_value", || from_value::<_, Part>(whole))?, &expect)
}

fn c18(ctx: &mut Ctx) {
    let n = ctx.n(25_000, 12);
    ctx.section("serialize", n, |c| {
        let big = c.r.chance(1, 4);
        let v = gen_ctx(&mut c.r, big);
        serialize(c, &v)
    });
    let n = ctx.n(60_000, 12);
    ctx.section("deserialize", n, |c| {
        let d = c.r.range(0, 4);
        let t = gen_tree(&mut c.r, d);
        from_tree(c, &t)
    });
    let n = ctx.n(25_000, 12);
    ctx.section("convert", n, |c| {
        let big = c.r.chance(1, 4);
        let v = gen_ctx(&mut c.r, big);
        convert(c, &v)
    });
    // every boundary of every width, on its own and within a list
    ctx.section("numbers", 1, |c| {
        let mut n = 0;
        for bit in 0..=128u32 {
            for d in -2i128..=2 {
                let u = if bit == 128 { u128::MAX } else { (1u128 << bit).wrapping_add(d as u128) };
                for p in [Primitive::U128(u), Primitive::I128(u as i128), Primitive::I128((u as i128).wrapping_neg())] {
                    let v = Value { value: ValueDef::Primitive(p), context: 3 };
                    serialize(c, &v)?;
                    convert(c, &v)?;
                    n += 1;
                }
            }
        }
        c.count("boundaries", n);
        Ok(())
    });
    let n = ctx.n(30, 5);
    ctx.section("long", n, |c| {
        let k = crate::dict::length(&mut c.r);
        let bits: Vec<bool> = (0..k).map(|_| c.r.bool()).collect();
        let v: Value<u32> = match c.r.below(3) {
            0 => Value { value: ValueDef::BitSequence(mk_bits(&bits)), context: 0 },
            1 => Value {
                value: ValueDef::Composite(Composite::Unnamed(bits.iter().map(|b| Value { value: ValueDef::from(*b), context: 0 }).collect())),
                context: 0,
            },
            _ => Value {
                value: ValueDef::Composite(Composite::Named(
                    bits.iter().enumerate().map(|(i, b)| (format!("k{i}"), Value { value: ValueDef::from(*b), context: 0 })).collect(),
                )),
                context: 0,
            },
        };
        serialize(c, &v)?;
        convert(c, &v)
    });
    ctx.require("serialize.json", 5_000);
    ctx.require("serialize.format_failures", 5_000);
    ctx.require("deserialize.values", 5_000);
    ctx.require("deserialize.refused", 1_000);
    ctx.require("deserialize.variants", 1_000);
    ctx.require("convert.variants", 1_000);
    ctx.require("convert.bits", 500);
}
