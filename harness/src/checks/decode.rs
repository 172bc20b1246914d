use super::rust_types;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::runner::*;
use crate::vgen::strip;
use crate::Check;
use scale_value::scale;

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        format!("{s}..({} bytes)", b.len())
    } else {
        s
    }
}

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            run: c01,
            rule: "a case is (type registry, value, trailing bytes); the model encodes the value, the crate decodes it, and value, type ids and unread bytes are compared. Non-trivial: the encoding has at least 2 bytes or the value at least 2 nodes; distinct by type description + bytes",
            mem: false,
            term: false,
        },
        Check {
            id: "C02",
            run: c02,
            rule: "a case is (type registry, canonical bytes) decoded and encoded back by the crate; bytes compared. Non-trivial: the value has at least 2 nodes; distinct by type description + bytes",
            mem: false,
            term: false,
        },
    ]
}

/// Registries of special interest.
pub fn u256_case(r: &mut crate::rng::Rng) -> (Reg, Id, Mv) {
    let mut reg = Reg::default();
    let p = reg.add(Ty::Prim(if r.bool() { Prim_U256 } else { Prim_I256 }));
    let mut id = p;
    let mut v = Mv::B256(r.bytes(32).try_into().unwrap());
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 => {
                id = reg.add(Ty::Tuple(vec![id]));
                v = Mv::List(vec![v]);
            }
            1 => {
                id = reg.add(Ty::Struct(vec![F {
                    name: if r.bool() { Some("n".into()) } else { None },
                    ty: id,
                }]));
                v = Mv::List(vec![v]);
            }
            2 => {
                let u = reg.add(Ty::Prim(PrimTy::U16));
                id = reg.add(Ty::Struct(vec![
                    F {
                        name: Some("first".into()),
                        ty: u,
                    },
                    F {
                        name: Some("second".into()),
                        ty: id,
                    },
                ]));
                v = Mv::List(vec![Mv::U(r.uint(16)), v]);
            }
            3 => {
                id = reg.add(Ty::Enum(vec![
                    V {
                        name: "A".into(),
                        index: 9,
                        fields: vec![],
                    },
                    V {
                        name: "B".into(),
                        index: 3,
                        fields: vec![F { name: None, ty: id }],
                    },
                ]));
                v = Mv::Var(1, vec![v]);
            }
            _ => {
                let u = reg.add(Ty::Prim(PrimTy::U8));
                let s = reg.add(Ty::Seq(u));
                id = reg.add(Ty::Tuple(vec![s, id]));
                v = Mv::List(vec![
                    Mv::List((0..r.below(4)).map(|_| Mv::U(r.uint(8))).collect()),
                    v,
                ]);
            }
        }
    }
    (reg, id, v)
}
#[allow(non_upper_case_globals)]
const Prim_U256: PrimTy = PrimTy::U256;
#[allow(non_upper_case_globals)]
const Prim_I256: PrimTy = PrimTy::I256;

/// Long collections: every compact length mode.
pub fn long_case(r: &mut crate::rng::Rng) -> (Reg, Id, Mv) {
    let n = crate::dict::length(r);
    if r.chance(1, 4) {
        return wide_case(r, n);
    }
    long_case_of(r, n)
}
/// Types with many fields.
fn wide_case(r: &mut crate::rng::Rng, n: usize) -> (Reg, Id, Mv) {
    let n = if n > 400 { 250 + n % 150 } else { n };
    let mut reg = Reg::default();
    let tys = [reg.add(Ty::Prim(PrimTy::U8)), reg.add(Ty::Prim(PrimTy::Str)), reg.add(Ty::Tuple(vec![])), reg.add(Ty::Prim(PrimTy::I32))];
    let ids: Vec<Id> = (0..n).map(|_| *r.pick(&tys)).collect();
    let vals: Vec<Mv> = ids
        .iter()
        .map(|id| match reg.ty(*id) {
            Ty::Prim(PrimTy::U8) => Mv::U(r.uint(8)),
            Ty::Prim(PrimTy::Str) => Mv::Str((0..r.below(3)).map(|_| crate::vgen::gen_char(r)).collect()),
            Ty::Prim(_) => Mv::I(r.int(32)),
            _ => Mv::List(vec![]),
        })
        .collect();
    let named = r.bool();
    let fields = || ids.iter().enumerate().map(|(k, ty)| F { name: named.then(|| format!("f{k}")), ty: *ty }).collect::<Vec<_>>();
    match r.below(3) {
        0 => {
            let id = reg.add(Ty::Tuple(ids));
            (reg, id, Mv::List(vals))
        }
        1 => {
            let id = reg.add(Ty::Struct(fields()));
            (reg, id, Mv::List(vals))
        }
        _ => {
            let mut vs = vec![V { name: "First".into(), index: 200, fields: vec![] }];
            vs.push(V { name: "Wide".into(), index: 7, fields: fields() });
            let id = reg.add(Ty::Enum(vs));
            (reg, id, Mv::Var(1, vals))
        }
    }
}
pub fn long_case_of(r: &mut crate::rng::Rng, n: usize) -> (Reg, Id, Mv) {
    let mut reg = Reg::default();
    let (id, v) = match r.below(7) {
        5 => {
            let u = reg.add(Ty::Prim(PrimTy::U16));
            (reg.add(Ty::Array(u, n)), Mv::List((0..n).map(|_| Mv::U(r.uint(16))).collect()))
        }
        6 => {
            let a = reg.add(Ty::Prim(PrimTy::I8));
            let b = reg.add(Ty::Prim(PrimTy::Bool));
            let e = reg.add(Ty::Tuple(vec![a, b]));
            (reg.add(Ty::Array(e, n)), Mv::List((0..n).map(|_| Mv::List(vec![Mv::I(r.int(8)), Mv::Bool(r.bool())])).collect()))
        }
        0 => {
            let u = reg.add(Ty::Prim(PrimTy::U8));
            (
                reg.add(Ty::Seq(u)),
                Mv::List((0..n).map(|_| Mv::U(r.uint(8))).collect()),
            )
        }
        1 => (
            reg.add(Ty::Prim(PrimTy::Str)),
            Mv::Str((0..n).map(|_| crate::vgen::gen_char(r)).collect()),
        ),
        2 => (
            reg.add(Ty::Bits(
                *r.pick(&[
                    scale_type_resolver::BitsStoreFormat::U8,
                    scale_type_resolver::BitsStoreFormat::U64,
                ]),
                *r.pick(&[
                    scale_type_resolver::BitsOrderFormat::Lsb0,
                    scale_type_resolver::BitsOrderFormat::Msb0,
                ]),
            )),
            Mv::Bits((0..n).map(|_| r.bool()).collect()),
        ),
        3 => {
            let u = reg.add(Ty::Tuple(vec![]));
            (
                reg.add(Ty::Seq(u)),
                Mv::List((0..n).map(|_| Mv::List(vec![])).collect()),
            )
        }
        _ => {
            let c = reg.add(Ty::Prim(PrimTy::U32));
            let c = reg.add(Ty::Compact(c));
            let s = reg.add(Ty::Prim(PrimTy::I16));
            let e = reg.add(Ty::Struct(vec![
                F {
                    name: Some("k".into()),
                    ty: c,
                },
                F {
                    name: Some("v".into()),
                    ty: s,
                },
            ]));
            (
                reg.add(Ty::Seq(e)),
                Mv::List(
                    (0..n)
                        .map(|_| Mv::List(vec![Mv::U(r.uint(32)), Mv::I(r.int(16))]))
                        .collect(),
                ),
            )
        }
    };
    (reg, id, v)
}

/// A chain through a recursive type.
pub fn deep_case(r: &mut crate::rng::Rng) -> (Reg, Id, Mv) {
    let mut reg = Reg::default();
    let u = reg.add(Ty::Prim(PrimTy::U8));
    let id = reg.add(Ty::Enum(vec![]));
    let wrap = r.below(3);
    let inner = match wrap {
        0 => id,
        1 => reg.add(Ty::Seq(id)),
        _ => reg.add(Ty::Tuple(vec![id])),
    };
    reg.types[id as usize] = Ty::Enum(vec![
        V {
            name: "Nil".into(),
            index: 0,
            fields: vec![],
        },
        V {
            name: "Cons".into(),
            index: 1,
            fields: vec![
                F {
                    name: Some("head".into()),
                    ty: u,
                },
                F {
                    name: Some("tail".into()),
                    ty: inner,
                },
            ],
        },
    ]);
    let mut v = Mv::Var(0, vec![]);
    for _ in 0..r.range(5, 60) {
        let t = match wrap {
            0 => v,
            _ => Mv::List(vec![v]),
        };
        v = Mv::Var(1, vec![Mv::U(r.uint(8)), t]);
    }
    (reg, id, v)
}

pub fn describe(reg: &Reg, id: Id, bytes: &[u8]) -> String {
    format!("type {} bytes {}", reg.describe(id), hex(bytes))
}

fn check_decode(c: &mut Case, reg: &Reg, id: Id, v: &Mv, bytes: &[u8], trailing: &[u8]) -> Res {
    let mut all = bytes.to_vec();
    all.extend_from_slice(trailing);
    c.desc = describe(reg, id, &all);
    if bytes.len() > 1 || mv_nodes(v) > 1 {
        c.nontrivial(&c.desc.clone());
    }
    c.count("bytes", bytes.len() as u64);
    c.count("nodes", mv_nodes(v) as u64);
    let want = reg.to_value(id, v);
    let portable = reg.portable();
    let cur = &mut &all[..];
    let got = no_panic("decode_as_type", || {
        scale::decode_as_type(cur, id, &portable)
    })?;
    let got = got.map_err(|e| format!("a valid encoding was refused: {e}"))?;
    if got != want {
        if strip(&got) == strip(&want) {
            return Err(
                format!("decoded with wrong type ids:\n got {got:?}\nwant {want:?}").into(),
            );
        }
        return Err(format!(
            "decoded wrongly:\n got {:?}\nwant {:?}",
            strip(&got),
            strip(&want)
        )
        .into());
    }
    ensure!(
        *cur == trailing,
        "wrong bytes left unread: {} instead of {}",
        hex(cur),
        hex(trailing)
    );
    // and through a different resolver
    let cur = &mut &all[..];
    let got = no_panic("decode_as_type", || scale::decode_as_type(cur, id, reg))?
        .map_err(|e| format!("refused with the model resolver: {e}"))?;
    ensure!(
        got == want && *cur == trailing,
        "differs with another resolver: {got:?}"
    );
    Ok(())
}

fn c01(ctx: &mut Ctx) {
    let n = ctx.n(150000, 30);
    ctx.section("typed", n, |c| {
        let o = TyOpts {
            depth: 1 + c.r.below(5),
            ..Default::default()
        };
        let (reg, id, v) = gen_typed(&mut c.r, &o);
        let b = reg.encode(id, &v);
        let k = if c.r.bool() { 0 } else { c.r.below(40) };
        let t = c.r.bytes(k);
        check_decode(c, &reg, id, &v, &b, &t)
    });
    let n = ctx.n(60000, 30);
    ctx.section("rust", n, |c| {
        let m = rust_types::any_made(&mut c.r);
        let mut steps = 1 << 20;
        let cur = &mut &m.bytes[..];
        let v = m
            .reg
            .decode(m.id, cur, &mut steps)
            .expect("model reads parity-scale-codec's bytes");
        assert!(
            cur.is_empty() && m.reg.encode(m.id, &v) == m.bytes,
            "model disagrees with parity-scale-codec on {}",
            m.what
        );
        let k = c.r.below(5);
        let t = c.r.bytes(k);
        check_decode(c, &m.reg, m.id, &v, &m.bytes, &t)
    });
    let n = ctx.n(3000, 20);
    ctx.section("bits256", n, |c| {
        let (reg, id, v) = u256_case(&mut c.r);
        let b = reg.encode(id, &v);
        check_decode(c, &reg, id, &v, &b, &[])
    });
    let n = ctx.n(1000, 20);
    ctx.section("long", n, |c| {
        let (reg, id, v) = long_case(&mut c.r);
        let b = reg.encode(id, &v);
        let k = c.r.below(5);
        let t = c.r.bytes(k);
        check_decode(c, &reg, id, &v, &b, &t)
    });
    let n = ctx.n(2000, 20);
    ctx.section("deep", n, |c| {
        let (reg, id, v) = deep_case(&mut c.r);
        let b = reg.encode(id, &v);
        let k = c.r.below(5);
        let t = c.r.bytes(k);
        check_decode(c, &reg, id, &v, &b, &t)
    });
    // a 256-bit integer followed by anything
    ctx.section("bits256_followed", 20, |c| {
        let (reg, id, v) = u256_case(&mut c.r);
        let b = reg.encode(id, &v);
        let k = c.r.range(1, 5);
        let t = c.r.bytes(k);
        check_decode(c, &reg, id, &v, &b, &t).map_err(|e| Fail {
            sig: e
                .msg
                .contains("refused")
                .then(|| "256-bit-integer-not-at-end-of-input".to_string()),
            ..e
        })
    });
}

fn check_roundtrip(c: &mut Case, reg: &Reg, id: Id, bytes: &[u8], nodes: usize) -> Res {
    c.desc = describe(reg, id, bytes);
    if nodes > 1 {
        c.nontrivial(&c.desc.clone());
    }
    let portable = reg.portable();
    let cur = &mut &bytes[..];
    let v = no_panic("decode", || scale::decode_as_type(cur, id, &portable))?
        .map_err(|e| format!("decode failed: {e}"))?;
    let mut out = vec![];
    no_panic("encode", || {
        scale::encode_as_type(&v, id, &portable, &mut out)
    })?
    .map_err(|e| {
        format!(
            "encoding what was just decoded failed: {e}\nvalue: {:?}",
            strip(&v)
        )
    })?;
    ensure!(
        out == bytes,
        "encoding what was just decoded gives other bytes: {}\nvalue: {:?}",
        hex(&out),
        strip(&v)
    );
    let mut out = vec![];
    let v = strip(&v);
    no_panic("encode", || scale::encode_as_type(&v, id, reg, &mut out))?
        .map_err(|e| format!("encoding without contexts failed: {e}"))?;
    ensure!(
        out == bytes,
        "encoding without contexts gives other bytes: {}",
        hex(&out)
    );
    c.count("bytes", bytes.len() as u64);
    Ok(())
}

fn c02(ctx: &mut Ctx) {
    let n = ctx.n(100000, 30);
    ctx.section("typed", n, |c| {
        let o = TyOpts {
            depth: 1 + c.r.below(5),
            ..Default::default()
        };
        let (reg, id, v) = gen_typed(&mut c.r, &o);
        let b = reg.encode(id, &v);
        check_roundtrip(c, &reg, id, &b, mv_nodes(&v))
    });
    let n = ctx.n(100000, 30);
    ctx.section("wrappers", n, |c| {
        let o = TyOpts {
            depth: 2 + c.r.below(5),
            wide: 2,
            wrappers: true,
            ..Default::default()
        };
        let (reg, id, v) = gen_typed(&mut c.r, &o);
        let b = reg.encode(id, &v);
        check_roundtrip(c, &reg, id, &b, mv_nodes(&v))
    });
    let n = ctx.n(60000, 30);
    ctx.section("rust", n, |c| {
        let m = rust_types::any_made(&mut c.r);
        c.count("distinct_rust_types_seen", 0);
        check_roundtrip(c, &m.reg, m.id, &m.bytes, m.bytes.len())
    });
    let n = ctx.n(3000, 20);
    ctx.section("bits256", n, |c| {
        let (reg, id, v) = u256_case(&mut c.r);
        let b = reg.encode(id, &v);
        check_roundtrip(c, &reg, id, &b, 2)
    });
    let n = ctx.n(1000, 20);
    ctx.section("long", n, |c| {
        let (reg, id, v) = long_case(&mut c.r);
        let b = reg.encode(id, &v);
        check_roundtrip(c, &reg, id, &b, mv_nodes(&v))
    });
    let n = ctx.n(1000, 20);
    ctx.section("deep", n, |c| {
        let (reg, id, v) = deep_case(&mut c.r);
        let b = reg.encode(id, &v);
        check_roundtrip(c, &reg, id, &b, mv_nodes(&v))
    });
    let _ = hash_bytes;
}
