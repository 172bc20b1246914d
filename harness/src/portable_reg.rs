//! A model's registry as scale-info hands it out.
use crate::model::*;
use scale_info::form::PortableForm;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive as Prim};

impl Reg {
    /// The same registry as scale-info would hand it out. Ids are the same.
    pub fn portable(&self) -> scale_info::PortableRegistry {
        use scale_info::*;
        let n = self.types.len() as u32;
        // helper types follow: u8 u16 u32 u64 Lsb0 Msb0
        let sym = |i: u32| -> interner::UntrackedSymbol<core::any::TypeId> { i.into() };
        let fields = |fs: &Vec<F>| -> Vec<scale_info::Field<PortableForm>> {
            fs.iter()
                .map(|f| scale_info::Field {
                    name: f.name.clone(),
                    ty: sym(f.ty),
                    type_name: None,
                    docs: vec![],
                })
                .collect()
        };
        let mk = |path: Vec<&str>, def: TypeDef<PortableForm>| -> Type<PortableForm> {
            Type {
                path: Path {
                    segments: path.into_iter().map(|s| s.to_string()).collect(),
                },
                type_params: vec![],
                type_def: def,
                docs: vec![],
            }
        };
        let prim = |p: Prim| match p {
            Prim::Bool => TypeDefPrimitive::Bool,
            Prim::Char => TypeDefPrimitive::Char,
            Prim::Str => TypeDefPrimitive::Str,
            Prim::U8 => TypeDefPrimitive::U8,
            Prim::U16 => TypeDefPrimitive::U16,
            Prim::U32 => TypeDefPrimitive::U32,
            Prim::U64 => TypeDefPrimitive::U64,
            Prim::U128 => TypeDefPrimitive::U128,
            Prim::U256 => TypeDefPrimitive::U256,
            Prim::I8 => TypeDefPrimitive::I8,
            Prim::I16 => TypeDefPrimitive::I16,
            Prim::I32 => TypeDefPrimitive::I32,
            Prim::I64 => TypeDefPrimitive::I64,
            Prim::I128 => TypeDefPrimitive::I128,
            Prim::I256 => TypeDefPrimitive::I256,
        };
        let mut types = vec![];
        for (i, t) in self.types.iter().enumerate() {
            let (path, def) = match t {
                Ty::Prim(p) => (vec![], TypeDef::Primitive(prim(*p))),
                Ty::Compact(x) => (
                    vec![],
                    TypeDef::Compact(TypeDefCompact {
                        type_param: sym(*x),
                    }),
                ),
                Ty::Seq(x) => (
                    vec![],
                    TypeDef::Sequence(TypeDefSequence {
                        type_param: sym(*x),
                    }),
                ),
                Ty::Array(x, k) => (
                    vec![],
                    TypeDef::Array(TypeDefArray {
                        len: *k as u32,
                        type_param: sym(*x),
                    }),
                ),
                Ty::Tuple(xs) => (
                    vec![],
                    TypeDef::Tuple(TypeDefTuple {
                        fields: xs.iter().map(|x| sym(*x)).collect(),
                    }),
                ),
                Ty::Struct(fs) => (
                    vec!["m", "S"],
                    TypeDef::Composite(TypeDefComposite { fields: fields(fs) }),
                ),
                Ty::Enum(vs) => (
                    vec!["m", "E"],
                    TypeDef::Variant(TypeDefVariant {
                        variants: vs
                            .iter()
                            .map(|v| scale_info::Variant {
                                name: v.name.clone(),
                                fields: fields(&v.fields),
                                index: v.index,
                                docs: vec![],
                            })
                            .collect(),
                    }),
                ),
                Ty::Bits(s, o) => {
                    let st = n + match s {
                        BitsStoreFormat::U8 => 0,
                        BitsStoreFormat::U16 => 1,
                        BitsStoreFormat::U32 => 2,
                        BitsStoreFormat::U64 => 3,
                    };
                    let or = n + match o {
                        BitsOrderFormat::Lsb0 => 4,
                        BitsOrderFormat::Msb0 => 5,
                    };
                    (
                        vec![],
                        TypeDef::BitSequence(TypeDefBitSequence {
                            bit_store_type: sym(st),
                            bit_order_type: sym(or),
                        }),
                    )
                }
            };
            types.push(PortableType {
                id: i as u32,
                ty: mk(path, def),
            });
        }
        for (k, p) in [
            TypeDefPrimitive::U8,
            TypeDefPrimitive::U16,
            TypeDefPrimitive::U32,
            TypeDefPrimitive::U64,
        ]
        .into_iter()
        .enumerate()
        {
            types.push(PortableType {
                id: n + k as u32,
                ty: mk(vec![], TypeDef::Primitive(p)),
            });
        }
        for (k, o) in ["Lsb0", "Msb0"].into_iter().enumerate() {
            types.push(PortableType {
                id: n + 4 + k as u32,
                ty: mk(
                    vec!["bitvec", "order", o],
                    TypeDef::Composite(TypeDefComposite { fields: vec![] }),
                ),
            });
        }
        PortableRegistry { types }
    }
}
