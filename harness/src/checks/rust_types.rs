//! Rust types with derived SCALE encoding and type information: an oracle of its own
//! (parity-scale-codec), which also checks the model.
use crate::model::*;
use crate::rng::Rng;
use crate::vgen::{gen_char, gen_string};
use codec::{Compact, Encode};
use scale_info::{form::PortableForm, PortableRegistry, TypeDef, TypeDefPrimitive, TypeInfo};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive as Prim};
use std::collections::BTreeMap;

/// Turn a scale-info registry into the model's.
pub fn reg_of_portable(p: &PortableRegistry) -> Reg {
    let mut reg = Reg::default();
    let fields = |fs: &Vec<scale_info::Field<PortableForm>>| {
        fs.iter()
            .map(|f| F {
                name: f.name.as_ref().map(|s| s.to_string()),
                ty: f.ty.id,
            })
            .collect::<Vec<_>>()
    };
    for t in &p.types {
        let ty = match &t.ty.type_def {
            TypeDef::Composite(c) => Ty::Struct(fields(&c.fields)),
            TypeDef::Variant(v) => Ty::Enum(
                v.variants
                    .iter()
                    .map(|v| V {
                        name: v.name.to_string(),
                        index: v.index,
                        fields: fields(&v.fields),
                    })
                    .collect(),
            ),
            TypeDef::Sequence(s) => Ty::Seq(s.type_param.id),
            TypeDef::Array(a) => Ty::Array(a.type_param.id, a.len as usize),
            TypeDef::Tuple(t) => Ty::Tuple(t.fields.iter().map(|f| f.id).collect()),
            TypeDef::Compact(c) => Ty::Compact(c.type_param.id),
            TypeDef::Primitive(q) => Ty::Prim(match q {
                TypeDefPrimitive::Bool => Prim::Bool,
                TypeDefPrimitive::Char => Prim::Char,
                TypeDefPrimitive::Str => Prim::Str,
                TypeDefPrimitive::U8 => Prim::U8,
                TypeDefPrimitive::U16 => Prim::U16,
                TypeDefPrimitive::U32 => Prim::U32,
                TypeDefPrimitive::U64 => Prim::U64,
                TypeDefPrimitive::U128 => Prim::U128,
                TypeDefPrimitive::U256 => Prim::U256,
                TypeDefPrimitive::I8 => Prim::I8,
                TypeDefPrimitive::I16 => Prim::I16,
                TypeDefPrimitive::I32 => Prim::I32,
                TypeDefPrimitive::I64 => Prim::I64,
                TypeDefPrimitive::I128 => Prim::I128,
                TypeDefPrimitive::I256 => Prim::I256,
            }),
            TypeDef::BitSequence(b) => {
                let store = match &p.resolve(b.bit_store_type.id).unwrap().type_def {
                    TypeDef::Primitive(TypeDefPrimitive::U8) => BitsStoreFormat::U8,
                    TypeDef::Primitive(TypeDefPrimitive::U16) => BitsStoreFormat::U16,
                    TypeDef::Primitive(TypeDefPrimitive::U32) => BitsStoreFormat::U32,
                    _ => BitsStoreFormat::U64,
                };
                let order = if p
                    .resolve(b.bit_order_type.id)
                    .unwrap()
                    .path
                    .ident()
                    .as_deref()
                    == Some("Lsb0")
                {
                    BitsOrderFormat::Lsb0
                } else {
                    BitsOrderFormat::Msb0
                };
                Ty::Bits(store, order)
            }
        };
        reg.types.push(ty);
    }
    reg
}

/// Random Rust data.
pub trait Arb: Sized {
    fn arb(r: &mut Rng, d: usize) -> Self;
}
macro_rules! arb_int { ($($t:ty: $m:ident $w:expr),*) => { $(impl Arb for $t { fn arb(r: &mut Rng, _: usize) -> Self { r.$m($w) as $t } })* } }
arb_int!(u8: uint 8, u16: uint 16, u32: uint 32, u64: uint 64, u128: uint 128, i8: int 8, i16: int 16, i32: int 32, i64: int 64, i128: int 128);
impl Arb for bool {
    fn arb(r: &mut Rng, _: usize) -> Self {
        r.bool()
    }
}
impl Arb for char {
    fn arb(r: &mut Rng, _: usize) -> Self {
        gen_char(r)
    }
}
impl Arb for String {
    fn arb(r: &mut Rng, _: usize) -> Self {
        gen_string(r, 10)
    }
}
impl Arb for () {
    fn arb(_: &mut Rng, _: usize) -> Self {}
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = if d > 5 { 0 } else { r.below(5) };
        (0..n).map(|_| T::arb(r, d + 1)).collect()
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        if d > 6 || r.bool() {
            None
        } else {
            Some(T::arb(r, d + 1))
        }
    }
}
impl<T: Arb, E: Arb> Arb for Result<T, E> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            Ok(T::arb(r, d + 1))
        } else {
            Err(E::arb(r, d + 1))
        }
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Box::new(T::arb(r, d + 1))
    }
}
impl<T: Arb> Arb for Compact<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Compact(T::arb(r, d))
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(r: &mut Rng, d: usize) -> Self {
        core::array::from_fn(|_| T::arb(r, d + 1))
    }
}
impl<K: Arb + Ord, T: Arb> Arb for BTreeMap<K, T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = if d > 5 { 0 } else { r.below(4) };
        (0..n)
            .map(|_| (K::arb(r, d + 1), T::arb(r, d + 1)))
            .collect()
    }
}
macro_rules! arb_tuple { ($($n:ident),*) => { impl<$($n: Arb),*> Arb for ($($n,)*) { fn arb(r: &mut Rng, d: usize) -> Self { ($($n::arb(r, d + 1),)*) } } } }
arb_tuple!(A);
arb_tuple!(A, B);
arb_tuple!(A, B, C);
arb_tuple!(A, B, C, D);

macro_rules! arb_struct {
    ($n:ident $(<$g:ident>)? { $($f:ident),* }) => { impl$(<$g: Arb>)? Arb for $n$(<$g>)? { fn arb(r: &mut Rng, d: usize) -> Self { let _ = (&r, d); $n { $($f: Arb::arb(r, d + 1)),* } } } };
}

#[derive(Encode, TypeInfo, Debug)]
pub struct Bounded<T>(pub Vec<T>);
impl<T: Arb> Arb for Bounded<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Bounded(Arb::arb(r, d))
    }
}
#[derive(Encode, TypeInfo, Debug)]
pub struct Wrap<T>(pub T);
impl<T: Arb> Arb for Wrap<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Wrap(Arb::arb(r, d))
    }
}
#[derive(Encode, TypeInfo, Debug)]
pub struct Named1<T> {
    pub inner: T,
}
arb_struct!(Named1<T> { inner });
#[derive(Encode, TypeInfo, Debug)]
pub struct Account {
    pub id: [u8; 32],
    #[codec(compact)]
    pub nonce: u32,
    pub name: Option<String>,
    pub data: Wrap<Bounded<u8>>,
    pub flags: (bool, bool, u8),
}
arb_struct!(Account {
    id,
    nonce,
    name,
    data,
    flags
});
#[derive(Encode, TypeInfo, Debug)]
pub struct Unit;
arb_struct!(Unit {});
#[derive(Encode, TypeInfo, Debug)]
pub enum Call {
    Nothing,
    #[codec(index = 200)]
    Transfer {
        dest: Dest,
        #[codec(compact)]
        value: u128,
    },
    Remark(Vec<u8>),
    Batch(Vec<Call>),
    #[codec(index = 17)]
    Pair(i16, Box<Call>),
    Signed(i8, i32, i64, i128),
}
impl Arb for Call {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(if d > 6 { 3 } else { 6 }) {
            0 => Call::Nothing,
            1 => Call::Transfer {
                dest: Arb::arb(r, d + 1),
                value: Arb::arb(r, d),
            },
            2 => Call::Remark(Arb::arb(r, d)),
            3 => Call::Batch(Arb::arb(r, d + 1)),
            4 => Call::Pair(Arb::arb(r, d), Arb::arb(r, d + 1)),
            _ => Call::Signed(
                Arb::arb(r, d),
                Arb::arb(r, d),
                Arb::arb(r, d),
                Arb::arb(r, d),
            ),
        }
    }
}
#[derive(Encode, TypeInfo, Debug)]
pub enum Dest {
    Id([u8; 32]),
    Index(Compact<u32>),
    Raw(Vec<u8>),
    Here,
}
impl Arb for Dest {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Dest::Id(Arb::arb(r, d)),
            1 => Dest::Index(Arb::arb(r, d)),
            2 => Dest::Raw(Arb::arb(r, d)),
            _ => Dest::Here,
        }
    }
}
#[derive(Encode, TypeInfo, Debug)]
pub struct Tree {
    pub v: u16,
    pub kids: Vec<Tree>,
}
impl Arb for Tree {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = if d > 4 { 0 } else { r.below(4) };
        Tree {
            v: Arb::arb(r, d),
            kids: (0..n).map(|_| Tree::arb(r, d + 1)).collect(),
        }
    }
}

pub struct Made {
    pub reg: Reg,
    pub portable: PortableRegistry,
    pub id: Id,
    pub bytes: Vec<u8>,
    pub what: String,
}

fn make<T: Encode + TypeInfo + 'static + core::fmt::Debug>(t: T) -> Made {
    let mut types = scale_info::Registry::new();
    let id = types.register_type(&scale_info::MetaType::new::<T>()).id;
    let portable: PortableRegistry = types.into();
    Made {
        reg: reg_of_portable(&portable),
        portable,
        id,
        bytes: t.encode(),
        what: format!("{}: {t:?}", core::any::type_name::<T>()),
    }
}

/// `char` itself implements neither Encode nor TypeInfo consistently; as u32 here.
pub fn any_made(r: &mut Rng) -> Made {
    macro_rules! go { ($($t:ty),* $(,)?) => {{
        let n = [$(stringify!($t)),*].len();
        let k = r.below(n);
        let mut i = 0;
        $( if i == k { return make(<$t>::arb(r, 0)); } i += 1; )*
        let _ = i;
        unreachable!()
    }} }
    go!(
        bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String, (),
        Compact<u8>, Compact<u16>, Compact<u32>, Compact<u64>, Compact<u128>,
        Vec<u8>, Vec<u16>, Vec<Vec<u8>>, Vec<Vec<Vec<u16>>>, [u8; 32], [u16; 1], [[u8; 1]; 1], [Vec<u8>; 2],
        (u8,), (u8, u16), (Vec<u8>,), ((Vec<Vec<u8>>,),), ((u8, (bool,)),), (String, i32, Option<u8>),
        Option<u8>, Option<Option<bool>>, Option<Vec<Vec<u8>>>, Result<u8, String>, Result<(), Vec<u8>>,
        Bounded<u8>, Bounded<Bounded<u8>>, Wrap<Bounded<Bounded<u8>>>, Wrap<Wrap<Vec<Wrap<u8>>>>, Wrap<Named1<Wrap<Vec<Vec<i8>>>>>,
        Named1<Named1<Vec<Vec<u8>>>>, Wrap<[Bounded<u8>; 1]>, Wrap<[[u8; 2]; 1]>, Wrap<Wrap<[Vec<u8>; 1]>>, Bounded<(Vec<u8>,)>, Wrap<(Bounded<[u8; 1]>,)>,
        Unit, Vec<Unit>, Wrap<Unit>, Option<Unit>, Named1<()>,
        BTreeMap<String, u32>, BTreeMap<u8, Vec<u8>>, Wrap<BTreeMap<u8, Option<u8>>>,
        Account, Vec<Account>, Call, Vec<Call>, Option<Call>, Wrap<Call>, Dest, Tree, Wrap<Tree>,
        (Account, Call), Result<Call, Dest>
    )
}
