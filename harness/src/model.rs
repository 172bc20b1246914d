//! Independent executable model of SCALE types, values and their encoding.
//! Nothing here uses scale-value, scale-encode or scale-decode to compute an answer.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::rng::Rng;
use scale_type_resolver::{
    self as str_, BitsOrderFormat, BitsStoreFormat, Field, Primitive as Prim, ResolvedTypeVisitor,
    TypeResolver, Variant as RVariant,
};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use core::cell::Cell;

pub type Id = u32;

#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub name: Option<String>,
    pub ty: Id,
}

#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub name: String,
    pub index: u8,
    pub fields: Vec<F>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(Prim),
    Compact(Id),
    Seq(Id),
    Array(Id, usize),
    Tuple(Vec<Id>),
    Struct(Vec<F>),
    Enum(Vec<V>),
    Bits(BitsStoreFormat, BitsOrderFormat),
}

/// A typed model value.
#[derive(Clone, Debug, PartialEq)]
pub enum Mv {
    Bool(bool),
    Char(char),
    Str(String),
    U(u128),
    I(i128),
    B256([u8; 32]),
    /// seq, array, tuple, struct
    List(Vec<Mv>),
    /// position in the list of variants, fields
    Var(usize, Vec<Mv>),
    Bits(Vec<bool>),
}

#[derive(Clone, Debug, Default)]
pub struct Reg {
    pub types: Vec<Ty>,
    /// how often the resolver was called
    pub calls: Cell<u64>,
    /// stop (panic) beyond this many calls; 0 = no bound
    pub budget: Cell<u64>,
    /// decoding met a sequence which claims more items than 32 bits can count, or text of (nearly) as many bytes
    pub claims: Cell<bool>,
}

/// A resolver type id which is not a plain number.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Tid(pub String);
impl Tid {
    pub fn of(id: Id) -> Tid {
        Tid(format!("t{}", id as u64 * 3 + 1))
    }
    pub fn id(&self) -> Option<Id> {
        let n: u64 = self.0.strip_prefix('t')?.parse().ok()?;
        if n % 3 == 1 {
            Some((n / 3) as Id)
        } else {
            None
        }
    }
}

/// The same registry through string ids.
pub struct TidReg<'a>(pub &'a Reg);

pub const BUDGET_MSG: &str = "resolver call budget exhausted";

impl TypeResolver for Reg {
    type TypeId = u32;
    type Error = String;
    fn resolve_type<'this, W: ResolvedTypeVisitor<'this, TypeId = u32>>(
        &'this self,
        id: u32,
        v: W,
    ) -> Result<W::Value, String> {
        self.calls.set(self.calls.get() + 1);
        if self.budget.get() != 0 && self.calls.get() > self.budget.get() {
            panic!("{}", BUDGET_MSG);
        }
        let Some(t) = self.types.get(id as usize) else {
            return Ok(v.visit_not_found());
        };
        let path = ["model", "T"].into_iter();
        Ok(match t {
            Ty::Prim(p) => v.visit_primitive(*p),
            Ty::Compact(i) => v.visit_compact(*i),
            Ty::Seq(i) => v.visit_sequence(path, *i),
            Ty::Array(i, n) => v.visit_array(*i, *n),
            Ty::Tuple(ids) => v.visit_tuple(ids.iter().copied()),
            Ty::Struct(fs) => v.visit_composite(
                path,
                fs.iter().map(|f| Field {
                    name: f.name.as_deref(),
                    id: f.ty,
                }),
            ),
            Ty::Enum(vs) => v.visit_variant(
                path,
                vs.iter().map(|x| RVariant {
                    index: x.index,
                    name: &x.name,
                    fields: x.fields.iter().map(|f| Field {
                        name: f.name.as_deref(),
                        id: f.ty,
                    }),
                }),
            ),
            Ty::Bits(s, o) => v.visit_bit_sequence(*s, *o),
        })
    }
}

impl<'a> TypeResolver for TidReg<'a> {
    type TypeId = Tid;
    type Error = String;
    fn resolve_type<'this, W: ResolvedTypeVisitor<'this, TypeId = Tid>>(
        &'this self,
        id: Tid,
        v: W,
    ) -> Result<W::Value, String> {
        let t = match id.id().and_then(|i| self.0.types.get(i as usize)) {
            Some(t) => t,
            None => return Ok(v.visit_not_found()),
        };
        let path = ["other", "Path"].into_iter();
        Ok(match t {
            Ty::Prim(p) => v.visit_primitive(*p),
            Ty::Compact(i) => v.visit_compact(Tid::of(*i)),
            Ty::Seq(i) => v.visit_sequence(path, Tid::of(*i)),
            Ty::Array(i, n) => v.visit_array(Tid::of(*i), *n),
            Ty::Tuple(ids) => v.visit_tuple(ids.iter().map(|i| Tid::of(*i))),
            Ty::Struct(fs) => v.visit_composite(
                path,
                fs.iter().map(|f| Field {
                    name: f.name.as_deref(),
                    id: Tid::of(f.ty),
                }),
            ),
            Ty::Enum(vs) => v.visit_variant(
                path,
                vs.iter().map(|x| RVariant {
                    index: x.index,
                    name: &x.name,
                    fields: x.fields.iter().map(|f| Field {
                        name: f.name.as_deref(),
                        id: Tid::of(f.ty),
                    }),
                }),
            ),
            Ty::Bits(s, o) => v.visit_bit_sequence(*s, *o),
        })
    }
}

pub fn ubits(p: Prim) -> Option<u32> {
    Some(match p {
        Prim::U8 => 8,
        Prim::U16 => 16,
        Prim::U32 => 32,
        Prim::U64 => 64,
        Prim::U128 => 128,
        _ => return None,
    })
}
pub fn ibits(p: Prim) -> Option<u32> {
    Some(match p {
        Prim::I8 => 8,
        Prim::I16 => 16,
        Prim::I32 => 32,
        Prim::I64 => 64,
        Prim::I128 => 128,
        _ => return None,
    })
}
pub fn umax(bits: u32) -> u128 {
    if bits == 128 {
        u128::MAX
    } else {
        (1 << bits) - 1
    }
}

pub fn store_bits(s: BitsStoreFormat) -> usize {
    match s {
        BitsStoreFormat::U8 => 8,
        BitsStoreFormat::U16 => 16,
        BitsStoreFormat::U32 => 32,
        BitsStoreFormat::U64 => 64,
    }
}

/// Canonical compact encoding of a number.
pub fn enc_compact(n: u128, out: &mut Vec<u8>) {
    if n < 1 << 6 {
        out.push((n as u8) << 2);
    } else if n < 1 << 14 {
        out.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes());
    } else if n < 1 << 30 {
        out.extend_from_slice(&(((n as u32) << 2) | 2).to_le_bytes());
    } else {
        let mut b = n.to_le_bytes().to_vec();
        while b.len() > 4 && *b.last().unwrap() == 0 {
            b.pop();
        }
        out.push((((b.len() - 4) as u8) << 2) | 3);
        out.extend_from_slice(&b);
    }
}

/// Canonical compact decoding; None if malformed, not canonical or too short.
pub fn dec_compact(b: &mut &[u8], max: u128) -> Option<u128> {
    let first = *b.first()?;
    let (n, used): (u128, usize) = match first & 3 {
        0 => ((first >> 2) as u128, 1),
        1 => (
            u16::from_le_bytes(b.get(..2)?.try_into().unwrap()) as u128 >> 2,
            2,
        ),
        2 => (
            u32::from_le_bytes(b.get(..4)?.try_into().unwrap()) as u128 >> 2,
            4,
        ),
        _ => {
            let k = (first >> 2) as usize + 4;
            if k > 16 {
                return None;
            }
            let body = b.get(1..1 + k)?;
            let mut a = [0u8; 16];
            a[..k].copy_from_slice(body);
            (u128::from_le_bytes(a), 1 + k)
        }
    };
    let mut canon = vec![];
    enc_compact(n, &mut canon);
    if canon.len() != used || n > max {
        return None;
    }
    *b = &b[used..];
    Some(n)
}

impl Reg {
    pub fn add(&mut self, t: Ty) -> Id {
        self.types.push(t);
        (self.types.len() - 1) as Id
    }
    pub fn ty(&self, id: Id) -> &Ty {
        &self.types[id as usize]
    }

    /// The primitive at the bottom of single-field structs and tuples, as for compact types.
    pub fn compact_base(&self, id: Id) -> Option<Prim> {
        match self.ty(id) {
            Ty::Prim(p) => Some(*p),
            Ty::Tuple(x) if x.len() == 1 => self.compact_base(x[0]),
            Ty::Struct(x) if x.len() == 1 => self.compact_base(x[0].ty),
            Ty::Compact(x) => self.compact_base(*x),
            _ => None,
        }
    }

    pub fn encode(&self, id: Id, v: &Mv) -> Vec<u8> {
        let mut o = vec![];
        self.enc(id, v, false, &mut o);
        o
    }

    fn enc(&self, id: Id, v: &Mv, compact: bool, o: &mut Vec<u8>) {
        match (self.ty(id), v) {
            (Ty::Prim(p), Mv::U(n)) if compact => {
                ubits(*p).unwrap();
                enc_compact(*n, o)
            }
            (Ty::Prim(Prim::Bool), Mv::Bool(b)) => o.push(*b as u8),
            (Ty::Prim(Prim::Char), Mv::Char(c)) => o.extend_from_slice(&(*c as u32).to_le_bytes()),
            (Ty::Prim(Prim::Str), Mv::Str(s)) => {
                enc_compact(s.len() as u128, o);
                o.extend_from_slice(s.as_bytes());
            }
            (Ty::Prim(p), Mv::U(n)) => {
                let k = ubits(*p).unwrap() as usize / 8;
                o.extend_from_slice(&n.to_le_bytes()[..k]);
            }
            (Ty::Prim(p), Mv::I(n)) => {
                let k = ibits(*p).unwrap() as usize / 8;
                o.extend_from_slice(&n.to_le_bytes()[..k]);
            }
            (Ty::Prim(Prim::U256 | Prim::I256), Mv::B256(b)) => o.extend_from_slice(b),
            (Ty::Compact(i), v) => self.enc(*i, v, true, o),
            (Ty::Seq(i), Mv::List(xs)) => {
                enc_compact(xs.len() as u128, o);
                for x in xs {
                    self.enc(*i, x, false, o)
                }
            }
            (Ty::Array(i, n), Mv::List(xs)) => {
                assert_eq!(*n, xs.len());
                for x in xs {
                    self.enc(*i, x, false, o)
                }
            }
            (Ty::Tuple(ids), Mv::List(xs)) => {
                for (i, x) in ids.iter().zip(xs) {
                    self.enc(*i, x, compact, o)
                }
            }
            (Ty::Struct(fs), Mv::List(xs)) => {
                for (f, x) in fs.iter().zip(xs) {
                    self.enc(f.ty, x, compact, o)
                }
            }
            (Ty::Enum(vs), Mv::Var(i, xs)) => {
                o.push(vs[*i].index);
                for (f, x) in vs[*i].fields.iter().zip(xs) {
                    self.enc(f.ty, x, false, o)
                }
            }
            (Ty::Bits(s, ord), Mv::Bits(bits)) => {
                enc_compact(bits.len() as u128, o);
                let w = store_bits(*s);
                for chunk in bits.chunks(w) {
                    let mut word: u64 = 0;
                    for (k, b) in chunk.iter().enumerate() {
                        if *b {
                            word |= 1u64
                                << match ord {
                                    BitsOrderFormat::Lsb0 => k,
                                    BitsOrderFormat::Msb0 => w - 1 - k,
                                };
                        }
                    }
                    o.extend_from_slice(&word.to_le_bytes()[..w / 8]);
                }
            }
            (t, v) => panic!("model: {t:?} does not fit {v:?}"),
        }
    }

    /// Reference decoder. `steps` bounds the work for zero-sized elements (Err(true) = gave up).
    pub fn decode(&self, id: Id, b: &mut &[u8], steps: &mut usize) -> Result<Mv, bool> {
        self.dec(id, b, false, steps)
    }

    fn dec(&self, id: Id, b: &mut &[u8], compact: bool, steps: &mut usize) -> Result<Mv, bool> {
        if *steps == 0 {
            return Err(true);
        }
        *steps -= 1;
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], bool> {
            if b.len() < n {
                return Err(false);
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Ok(x)
        }
        Ok(match self.ty(id) {
            Ty::Prim(p) => {
                if let (Some(w), true) = (ubits(*p), compact) {
                    return Ok(Mv::U(dec_compact(b, umax(w)).ok_or(false)?));
                }
                if compact {
                    return Err(false);
                }
                match p {
                    Prim::Bool => match take(b, 1)?[0] {
                        0 => Mv::Bool(false),
                        1 => Mv::Bool(true),
                        _ => return Err(false),
                    },
                    Prim::Char => {
                        let n = u32::from_le_bytes(take(b, 4)?.try_into().unwrap());
                        if n > 0x10FFFF || (0xD800..0xE000).contains(&n) {
                            return Err(false);
                        }
                        Mv::Char(char::from_u32(n).unwrap())
                    }
                    Prim::Str => {
                        let n = dec_compact(b, u32::MAX as u128).ok_or(false)?;
                        if n > u32::MAX as u128 - 16 {
                            self.claims.set(true)
                        }
                        let s = take(b, n as usize)?;
                        Mv::Str(String::from_utf8(s.to_vec()).map_err(|_| false)?)
                    }
                    // scale-decode 0.16 accepts these only as the very last 32 bytes of the input
                    Prim::U256 | Prim::I256 => {
                        if b.len() != 32 {
                            return Err(false);
                        }
                        Mv::B256(take(b, 32)?.try_into().unwrap())
                    }
                    p => {
                        if let Some(w) = ubits(*p) {
                            let mut a = [0u8; 16];
                            a[..w as usize / 8].copy_from_slice(take(b, w as usize / 8)?);
                            Mv::U(u128::from_le_bytes(a))
                        } else {
                            let w = ibits(*p).unwrap();
                            let bytes = take(b, w as usize / 8)?;
                            let mut a = if bytes[bytes.len() - 1] & 0x80 != 0 {
                                [0xffu8; 16]
                            } else {
                                [0u8; 16]
                            };
                            a[..w as usize / 8].copy_from_slice(bytes);
                            Mv::I(i128::from_le_bytes(a))
                        }
                    }
                }
            }
            Ty::Compact(i) => self.dec(*i, b, true, steps)?,
            Ty::Seq(i) if !compact => {
                let n = dec_compact(b, u64::MAX as u128).ok_or(false)?;
                if n > u32::MAX as u128 {
                    self.claims.set(true)
                }
                let mut xs = vec![];
                let mut k = 0u128;
                while k < n {
                    xs.push(self.dec(*i, b, false, steps)?);
                    k += 1;
                }
                Mv::List(xs)
            }
            Ty::Array(i, n) if !compact => {
                let mut xs = vec![];
                for _ in 0..*n {
                    xs.push(self.dec(*i, b, false, steps)?);
                }
                Mv::List(xs)
            }
            Ty::Tuple(ids) => {
                if compact && ids.len() != 1 {
                    return Err(false);
                }
                let mut xs = vec![];
                for i in ids {
                    xs.push(self.dec(*i, b, compact, steps)?);
                }
                Mv::List(xs)
            }
            Ty::Struct(fs) => {
                if compact && fs.len() != 1 {
                    return Err(false);
                }
                let mut xs = vec![];
                for f in fs {
                    xs.push(self.dec(f.ty, b, compact, steps)?);
                }
                Mv::List(xs)
            }
            Ty::Enum(vs) if !compact => {
                let idx = take(b, 1)?[0];
                let k = vs.iter().position(|v| v.index == idx).ok_or(false)?;
                let mut xs = vec![];
                for f in &vs[k].fields {
                    xs.push(self.dec(f.ty, b, false, steps)?);
                }
                Mv::Var(k, xs)
            }
            Ty::Bits(s, ord) if !compact => {
                let n = dec_compact(b, u32::MAX as u128).ok_or(false)? as usize;
                let w = store_bits(*s);
                let bytes = take(b, n.div_ceil(w) * (w / 8))?;
                let mut bits = vec![];
                for k in 0..n {
                    let wi = k / w;
                    let in_word = match ord {
                        BitsOrderFormat::Lsb0 => k % w,
                        BitsOrderFormat::Msb0 => w - 1 - k % w,
                    };
                    let byte = bytes[wi * (w / 8) + in_word / 8];
                    bits.push(byte >> (in_word % 8) & 1 == 1);
                }
                Mv::Bits(bits)
            }
            _ => return Err(false),
        })
    }

    /// What decoding should hand back for this model value, with type ids.
    pub fn to_value(&self, id: Id, v: &Mv) -> Value<u32> {
        let def = match (self.ty(id), v) {
            (Ty::Compact(i), v) => return self.to_value(*i, v),
            (_, Mv::Bool(b)) => ValueDef::Primitive(Primitive::Bool(*b)),
            (_, Mv::Char(b)) => ValueDef::Primitive(Primitive::Char(*b)),
            (_, Mv::Str(b)) => ValueDef::Primitive(Primitive::String(b.clone())),
            (_, Mv::U(b)) => ValueDef::Primitive(Primitive::U128(*b)),
            (_, Mv::I(b)) => ValueDef::Primitive(Primitive::I128(*b)),
            (Ty::Prim(Prim::I256), Mv::B256(b)) => ValueDef::Primitive(Primitive::I256(*b)),
            (_, Mv::B256(b)) => ValueDef::Primitive(Primitive::U256(*b)),
            (_, Mv::Bits(b)) => ValueDef::BitSequence(mk_bits(b)),
            (Ty::Seq(i) | Ty::Array(i, _), Mv::List(xs)) => ValueDef::Composite(
                Composite::Unnamed(xs.iter().map(|x| self.to_value(*i, x)).collect()),
            ),
            (Ty::Tuple(ids), Mv::List(xs)) => ValueDef::Composite(Composite::Unnamed(
                ids.iter()
                    .zip(xs)
                    .map(|(i, x)| self.to_value(*i, x))
                    .collect(),
            )),
            (Ty::Struct(fs), Mv::List(xs)) => ValueDef::Composite(self.fields_to_composite(fs, xs)),
            (Ty::Enum(vs), Mv::Var(k, xs)) => ValueDef::Variant(Variant {
                name: vs[*k].name.clone(),
                values: self.fields_to_composite(&vs[*k].fields, xs),
            }),
            (t, v) => panic!("model: {t:?} does not fit {v:?}"),
        };
        Value {
            value: def,
            context: id,
        }
    }

    pub fn fields_to_composite(&self, fs: &[F], xs: &[Mv]) -> Composite<u32> {
        if fs.is_empty() || fs.iter().any(|f| f.name.is_none()) {
            Composite::Unnamed(
                fs.iter()
                    .zip(xs)
                    .map(|(f, x)| self.to_value(f.ty, x))
                    .collect(),
            )
        } else {
            Composite::Named(
                fs.iter()
                    .zip(xs)
                    .map(|(f, x)| (f.name.clone().unwrap(), self.to_value(f.ty, x)))
                    .collect(),
            )
        }
    }

    /// Smallest number of bytes a value of the type can take (0 = may be zero-sized).
    pub fn min_size(&self, id: Id) -> usize {
        self.min_size_d(id, 0)
    }
    fn min_size_d(&self, id: Id, d: usize) -> usize {
        if d > 40 {
            return 1;
        }
        match self.ty(id) {
            Ty::Prim(p) => match p {
                Prim::Bool | Prim::U8 | Prim::I8 | Prim::Str => 1,
                Prim::U16 | Prim::I16 => 2,
                Prim::Char | Prim::U32 | Prim::I32 => 4,
                Prim::U64 | Prim::I64 => 8,
                Prim::U128 | Prim::I128 => 16,
                Prim::U256 | Prim::I256 => 32,
            },
            Ty::Compact(_) | Ty::Seq(_) | Ty::Enum(_) | Ty::Bits(..) => 1,
            Ty::Array(i, n) => self.min_size_d(*i, d + 1) * n,
            Ty::Tuple(ids) => ids.iter().map(|i| self.min_size_d(*i, d + 1)).sum(),
            Ty::Struct(fs) => fs.iter().map(|f| self.min_size_d(f.ty, d + 1)).sum(),
        }
    }

    /// Types reachable from one.
    pub fn reach(&self, id: Id) -> Vec<Id> {
        let mut seen = vec![id];
        let mut i = 0;
        while i < seen.len() {
            let kids: Vec<Id> = match self.ty(seen[i]) {
                Ty::Prim(_) | Ty::Bits(..) => vec![],
                Ty::Compact(x) | Ty::Seq(x) | Ty::Array(x, _) => vec![*x],
                Ty::Tuple(xs) => xs.clone(),
                Ty::Struct(fs) => fs.iter().map(|f| f.ty).collect(),
                Ty::Enum(vs) => vs
                    .iter()
                    .flat_map(|v| v.fields.iter().map(|f| f.ty))
                    .collect(),
            };
            for k in kids {
                if !seen.contains(&k) {
                    seen.push(k)
                }
            }
            i += 1;
        }
        seen
    }
    pub fn has_256(&self, id: Id) -> bool {
        self.reach(id)
            .iter()
            .any(|i| matches!(self.ty(*i), Ty::Prim(Prim::U256 | Prim::I256)))
    }
    pub fn describe(&self, id: Id) -> String {
        let mut out = String::new();
        self.desc_d(id, &mut vec![], &mut out);
        out
    }
    fn desc_d(&self, id: Id, seen: &mut Vec<Id>, o: &mut String) {
        use core::fmt::Write;
        if o.len() > 3000
            || (seen.contains(&id) && !matches!(self.types.get(id as usize), Some(Ty::Prim(_))))
        {
            let _ = write!(o, "#{id}");
            return;
        }
        if id as usize >= self.types.len() {
            let _ = write!(o, "missing#{id}");
            return;
        }
        seen.push(id);
        let fs = |fs: &Vec<F>, seen: &mut Vec<Id>, o: &mut String| {
            for (k, f) in fs.iter().enumerate() {
                let _ = write!(o, "{}", if k > 0 { ", " } else { "" });
                if let Some(n) = &f.name {
                    let _ = write!(o, "{n:?}: ");
                }
                self.desc_d(f.ty, seen, o);
            }
        };
        match self.ty(id) {
            Ty::Prim(p) => o.push_str(&format!("{p:?}").to_lowercase()),
            Ty::Compact(i) => {
                o.push_str("Compact<");
                self.desc_d(*i, seen, o);
                o.push('>');
            }
            Ty::Seq(i) => {
                o.push_str("Vec<");
                self.desc_d(*i, seen, o);
                o.push('>');
            }
            Ty::Array(i, n) => {
                o.push('[');
                self.desc_d(*i, seen, o);
                let _ = write!(o, "; {n}]");
            }
            Ty::Tuple(ids) => {
                o.push('(');
                for i in ids {
                    self.desc_d(*i, seen, o);
                    o.push(',');
                }
                o.push(')');
            }
            Ty::Struct(f) => {
                let _ = write!(o, "struct#{id} {{");
                fs(f, seen, o);
                o.push('}');
            }
            Ty::Enum(vs) => {
                let _ = write!(o, "enum#{id} {{");
                for (k, v) in vs.iter().enumerate() {
                    let _ = write!(
                        o,
                        "{}{:?}={}(",
                        if k > 0 { " | " } else { "" },
                        v.name,
                        v.index
                    );
                    fs(&v.fields, seen, o);
                    o.push(')');
                }
                o.push('}');
            }
            Ty::Bits(s, ord) => {
                let _ = write!(o, "Bits<{s:?},{ord:?}>");
            }
        }
    }
}

pub fn mk_bits(b: &[bool]) -> BitSequence {
    let mut s = BitSequence::new();
    for x in b {
        s.push(*x);
    }
    s
}
pub fn unbits(b: &BitSequence) -> Vec<bool> {
    b.iter().collect()
}

// ---------------------------------------------------------------- generation

pub const ALL_PRIMS: [Prim; 13] = [
    Prim::Bool,
    Prim::Char,
    Prim::Str,
    Prim::U8,
    Prim::U16,
    Prim::U32,
    Prim::U64,
    Prim::U128,
    Prim::I8,
    Prim::I16,
    Prim::I32,
    Prim::I64,
    Prim::I128,
];

#[derive(Clone, Copy)]
pub struct TyOpts {
    pub depth: usize,
    /// allow sequences (and arrays) of types that may be zero-sized
    pub zst_seq: bool,
    pub wide: usize,
    /// prefer single-field wrappers
    pub wrappers: bool,
}
impl Default for TyOpts {
    fn default() -> Self {
        TyOpts {
            depth: 4,
            zst_seq: true,
            wide: 4,
            wrappers: false,
        }
    }
}

fn gen_name(r: &mut Rng, used: &[String]) -> String {
    loop {
        let s = match r.below(12) {
            0..=8 => (*r.pick(&[
                "a", "b", "c", "foo", "bar", "baz", "value", "name", "names", "values", "Some",
                "None", "Ok", "Err", "r#type", "x1", "y_2", "len", "id", "hash", "TRUE", "Foo",
                "Bar",
            ]))
            .to_string(),
            9 => format!("f{}", r.below(1000)),
            10 => crate::vgen::gen_string(r, 6),
            _ => (*r.pick(&[
                "",
                " ",
                "ß",
                "日本",
                "a b",
                "0",
                "1",
                "_",
                "\"",
                "__bitvec__values__x",
                "true",
                "false",
            ]))
            .to_string(),
        };
        if !used.contains(&s) {
            return s;
        }
        if r.chance(1, 3) {
            let s = format!("n{}", r.below(100000));
            if !used.contains(&s) {
                return s;
            }
        }
    }
}

fn gen_fields(reg: &mut Reg, r: &mut Rng, o: &TyOpts, depth: usize, rec: Option<Id>) -> Vec<F> {
    let n = if o.wrappers && r.chance(1, 2) {
        1
    } else {
        r.below(o.wide + 1)
    };
    let named = r.bool();
    // (now and then some fields have names and others none: such a composite counts as unnamed)
    let mixed = if named && n >= 2 && r.chance(1, 12) { 1 + r.below(4) } else { 0 };
    let odd = r.below(n.max(1));
    let mut used = vec![];
    (0..n)
        .map(|k| {
            let bare = match mixed {
                0 => false,
                1 => r.bool(),
                2 => k != odd,
                _ => k == odd,
            };
            let name = (named && !bare).then(|| {
                let n = gen_name(r, &used);
                used.push(n.clone());
                n
            });
            let ty = match rec {
                Some(id) if r.chance(1, 4) => {
                    // recursion through a sequence or directly (only reached from a non-first variant)
                    if r.bool() {
                        reg.add(Ty::Seq(id))
                    } else {
                        id
                    }
                }
                _ => gen_ty(reg, r, o, depth.saturating_sub(1)),
            };
            F { name, ty }
        })
        .collect()
}

/// Many fields, variants or elements.
fn wide_ty(reg: &mut Reg, r: &mut Rng, o: &TyOpts) -> Id {
    let n = match r.below(4) {
        0 => r.range(9, 20),
        1 => r.range(20, 70),
        2 => *r.pick(&[16, 17, 32, 33, 63, 64, 65]),
        _ => r.range(9, 35),
    };
    match r.below(5) {
        0 => {
            let ids = (0..n).map(|_| gen_ty(reg, r, o, 0)).collect();
            reg.add(Ty::Tuple(ids))
        }
        1 | 2 => {
            let named = r.chance(3, 4);
            let fs = (0..n).map(|k| F { name: named.then(|| format!("field{k}")), ty: gen_ty(reg, r, o, 0) }).collect();
            reg.add(Ty::Struct(fs))
        }
        3 => {
            let n = *r.pick(&[n, n, 200, 256]);
            let off = r.u64() as u8;
            let step = *r.pick(&[1u8, 3, 5, 255]);
            let vs = (0..n)
                .map(|k| V {
                    name: format!("Var{k}"),
                    index: off.wrapping_add((k as u8).wrapping_mul(step)),
                    fields: if r.chance(1, 6) { gen_fields(reg, r, o, 1, None) } else { vec![] },
                })
                .collect();
            reg.add(Ty::Enum(vs))
        }
        _ => {
            let i = gen_ty(reg, r, o, 0);
            if !o.zst_seq && reg.min_size(i) == 0 {
                return i;
            }
            reg.add(Ty::Array(i, n))
        }
    }
}

pub fn gen_ty(reg: &mut Reg, r: &mut Rng, o: &TyOpts, depth: usize) -> Id {
    // reuse an existing type now and then
    if !reg.types.is_empty() && r.chance(1, 8) {
        let id = r.below(reg.types.len()) as Id;
        if !matches!(reg.ty(id), Ty::Enum(v) if v.is_empty()) {
            return id;
        }
    }
    if depth == 0 || r.chance(1, 5) {
        return match r.below(16) {
            0 => reg.add(Ty::Tuple(vec![])),
            1 | 2 => {
                let s = *r.pick(&[
                    BitsStoreFormat::U8,
                    BitsStoreFormat::U16,
                    BitsStoreFormat::U32,
                    BitsStoreFormat::U64,
                ]);
                let ord = *r.pick(&[BitsOrderFormat::Lsb0, BitsOrderFormat::Msb0]);
                reg.add(Ty::Bits(s, ord))
            }
            3 | 4 => {
                let p = *r.pick(&[Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::U128]);
                let mut i = reg.add(Ty::Prim(p));
                for _ in 0..(if r.chance(1, 3) { r.range(1, 2) } else { 0 }) {
                    i = if r.bool() {
                        reg.add(Ty::Tuple(vec![i]))
                    } else {
                        reg.add(Ty::Struct(vec![F {
                            name: if r.bool() { Some("inner".into()) } else { None },
                            ty: i,
                        }]))
                    };
                }
                reg.add(Ty::Compact(i))
            }
            _ => {
                let p = *r.pick(&ALL_PRIMS);
                reg.add(Ty::Prim(p))
            }
        };
    }
    if depth > 0 && r.chance(1, 60) {
        return wide_ty(reg, r, o);
    }
    match r.below(if o.wrappers { 20 } else { 14 }) {
        0..=2 => {
            let i = gen_ty(reg, r, o, depth - 1);
            if !o.zst_seq && reg.min_size(i) == 0 {
                return i;
            }
            reg.add(Ty::Seq(i))
        }
        3 => {
            let i = gen_ty(reg, r, o, depth - 1);
            if !o.zst_seq && reg.min_size(i) == 0 {
                return i;
            }
            let n = *r.pick(&[0, 1, 1, 2, 3, 4, 5, 8]);
            reg.add(Ty::Array(i, n))
        }
        4 | 5 => {
            let n = r.below(o.wide + 1);
            let ids = (0..n).map(|_| gen_ty(reg, r, o, depth - 1)).collect();
            reg.add(Ty::Tuple(ids))
        }
        6..=9 => {
            let fs = gen_fields(reg, r, o, depth, None);
            reg.add(Ty::Struct(fs))
        }
        10..=13 => {
            let n = r.range(1, o.wide + 1);
            // reserve the id so that variants can be recursive
            let id = reg.add(Ty::Enum(vec![]));
            let mut names = vec![];
            let mut idxs: Vec<u8> = vec![];
            let mut vs = vec![];
            let recursive = r.chance(1, 5);
            for k in 0..n {
                let name = gen_name(r, &names);
                names.push(name.clone());
                let index = loop {
                    let i = if r.chance(1, 2) {
                        k as u8
                    } else {
                        r.u64() as u8
                    };
                    if !idxs.contains(&i) {
                        break i;
                    }
                };
                idxs.push(index);
                let fields = gen_fields(
                    reg,
                    r,
                    o,
                    depth,
                    if recursive && k > 0 { Some(id) } else { None },
                );
                vs.push(V {
                    name,
                    index,
                    fields,
                });
            }
            reg.types[id as usize] = Ty::Enum(vs);
            id
        }
        14 | 15 => {
            let i = gen_ty(reg, r, o, depth - 1);
            reg.add(Ty::Tuple(vec![i]))
        }
        16 | 17 => {
            let i = gen_ty(reg, r, o, depth - 1);
            reg.add(Ty::Struct(vec![F { name: None, ty: i }]))
        }
        18 => {
            let i = gen_ty(reg, r, o, depth - 1);
            let n = gen_name(r, &[]);
            reg.add(Ty::Struct(vec![F {
                name: Some(n),
                ty: i,
            }]))
        }
        _ => {
            let i = gen_ty(reg, r, o, depth - 1);
            reg.add(Ty::Array(i, 1))
        }
    }
}

/// A value of the type. `budget` bounds the number of nodes.
pub fn gen_mv(reg: &Reg, r: &mut Rng, id: Id, budget: &mut isize) -> Mv {
    gen_mv_d(reg, r, id, budget, 0, false)
}

fn gen_mv_d(reg: &Reg, r: &mut Rng, id: Id, budget: &mut isize, d: usize, compact: bool) -> Mv {
    *budget -= 1;
    match reg.ty(id) {
        Ty::Prim(p) => match p {
            Prim::Bool => Mv::Bool(r.bool()),
            Prim::Char => Mv::Char(crate::vgen::gen_char(r)),
            Prim::Str => Mv::Str(crate::vgen::gen_string(r, 12)),
            Prim::U256 | Prim::I256 => Mv::B256(r.bytes(32).try_into().unwrap()),
            p => match ubits(*p) {
                Some(w) => Mv::U(r.uint(w)),
                None => Mv::I(r.int(ibits(*p).unwrap())),
            },
        },
        Ty::Compact(i) => gen_mv_d(reg, r, *i, budget, d, true),
        Ty::Seq(i) => {
            let max = if *budget <= 0 || d > 12 {
                0
            } else {
                (*budget as usize).min(8)
            };
            let n = if r.chance(1, 40) && *budget > 100 && d < 3 {
                r.range(60, 70)
            } else {
                r.below(max + 1)
            };
            Mv::List(
                (0..n)
                    .map(|_| gen_mv_d(reg, r, *i, budget, d + 1, false))
                    .collect(),
            )
        }
        Ty::Array(i, n) => Mv::List(
            (0..*n)
                .map(|_| gen_mv_d(reg, r, *i, budget, d + 1, false))
                .collect(),
        ),
        Ty::Tuple(ids) => Mv::List(
            ids.iter()
                .map(|i| gen_mv_d(reg, r, *i, budget, d + 1, compact))
                .collect(),
        ),
        Ty::Struct(fs) => Mv::List(
            fs.iter()
                .map(|f| gen_mv_d(reg, r, f.ty, budget, d + 1, compact))
                .collect(),
        ),
        Ty::Enum(vs) => {
            let k = if *budget <= 0 || d > 12 {
                0
            } else {
                r.below(vs.len())
            };
            Mv::Var(
                k,
                vs[k]
                    .fields
                    .iter()
                    .map(|f| gen_mv_d(reg, r, f.ty, budget, d + 1, false))
                    .collect(),
            )
        }
        Ty::Bits(..) => {
            let n = match r.below(6) {
                0 => 0,
                1 => r.below(9),
                2 => *r.pick(&[
                    7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129,
                ]),
                _ => r.below(70),
            };
            Mv::Bits((0..n).map(|_| r.bool()).collect())
        }
    }
}

/// A registry with one root type and a value of it, its node count kept moderate.
pub fn gen_typed(r: &mut Rng, o: &TyOpts) -> (Reg, Id, Mv) {
    loop {
        let mut reg = Reg::default();
        let id = gen_ty(&mut reg, r, o, o.depth);
        let mut budget = 150isize;
        let v = gen_mv(&reg, r, id, &mut budget);
        if budget > -3000 {
            return (reg, id, v);
        }
    }
}

pub fn mv_nodes(v: &Mv) -> usize {
    match v {
        Mv::List(x) | Mv::Var(_, x) => 1 + x.iter().map(mv_nodes).sum::<usize>(),
        _ => 1,
    }
}

#[allow(unused)]
pub use str_::Primitive as PrimTy;
