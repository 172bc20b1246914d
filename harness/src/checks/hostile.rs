//! C07 hostile bytes, C08 tracing = plain, C09 tracing errors, C10 entry points agree.
use super::decode::{deep_case, describe, hex, long_case, u256_case};
use super::rust_types;
use crate::alloc;
use crate::bytesgen::mutate;
use crate::model::*;
use crate::refwriter::{hex_of, RefWriter, Style};
use crate::runner::*;
use crate::vgen::{strip, strip_c};
use crate::Check;
use scale_decode::{DecodeAsFields, DecodeAsType};
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_type_resolver::Field;
use scale_value::{scale, Composite, Value, ValueDef, Variant};

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C07",
            run: c07,
            rule: "a case is (type, hostile bytes) given to every decoding entry point under an allocation bound of 64 MB + 4000 x input length; result, value and unread bytes are compared with a reference decoder's. Non-trivial: the bytes are refused by the reference, or accepted with at least 2 bytes; distinct by type description + bytes",
            mem: true,
            term: true,
        },
        Check {
            id: "C08",
            run: c08,
            rule: "a case is (type, bytes) given to the plain and the tracing decoder; results compared. Non-trivial: refused, or at least 2 nodes; distinct by type description + bytes",
            mem: false,
            term: true,
        },
        Check {
            id: "C09",
            run: c09,
            rule: "a case is (type, undecodable bytes); the tracing error's text is compared with the path, reason and partial value computed by a reference walk. Non-trivial: the failing item is inside the value (a path of at least one step); distinct by type description + bytes",
            mem: false,
            term: false,
        },
        Check {
            id: "C10",
            run: c10,
            rule: "a case is (type, bytes or value) given to alternative entry points, results compared. Non-trivial: at least one field; distinct by type description + bytes",
            mem: false,
            term: false,
        },
    ]
}

pub struct TFail {
    pub path: Vec<String>,
    pub partial: Option<Value<u32>>,
    pub gave_up: bool,
}
fn leaf() -> TFail {
    TFail {
        path: vec![],
        partial: None,
        gave_up: false,
    }
}

pub struct Tracer<'a> {
    pub reg: &'a Reg,
    pub steps: usize,
    pub depth: usize,
    /// sequences claiming more than 100M entries are refused as such (as the tracing decoder does)
    pub limit: bool,
    pub limit_hit: bool,
}

impl<'a> Tracer<'a> {
    pub fn new(reg: &'a Reg, limit: bool) -> Self {
        Tracer {
            reg,
            steps: 200_000,
            depth: 0,
            limit,
            limit_hit: false,
        }
    }
    /// Decode, or tell where it goes wrong and what was decoded until then.
    pub fn run(
        &mut self,
        id: Id,
        b: &mut &[u8],
        compact: bool,
        d: usize,
    ) -> Result<Value<u32>, TFail> {
        self.depth = self.depth.max(d);
        if self.steps == 0 || d > 60 {
            return Err(TFail {
                gave_up: true,
                ..leaf()
            });
        }
        self.steps -= 1;
        let reg = self.reg;
        let Some(ty) = reg.types.get(id as usize) else {
            return Err(leaf());
        };
        let unnamed = |vals: Vec<Value<u32>>| Composite::Unnamed(vals);
        match ty {
            Ty::Compact(i) => self.run(*i, b, true, d),
            Ty::Seq(i) if !compact => {
                let n = dec_compact(b, u64::MAX as u128).ok_or(leaf())?;
                if n > 100_000_000 {
                    self.limit_hit = true;
                    if self.limit {
                        return Err(leaf());
                    }
                }
                self.items((0..n).map(|_| (None, *i)), b, false, d)
                    .map(|c| comp(c, id))
                    .map_err(|(mut e, c)| {
                        e.partial = Some(comp(unnamed_of(c), id));
                        e
                    })
            }
            Ty::Array(i, n) if !compact => self
                .items((0..*n as u128).map(|_| (None, *i)), b, false, d)
                .map(|c| comp(c, id))
                .map_err(|(mut e, c)| {
                    e.partial = Some(comp(unnamed_of(c), id));
                    e
                }),
            Ty::Tuple(ids) => {
                if compact && ids.len() != 1 {
                    return Err(leaf());
                }
                self.items(ids.iter().map(|i| (None, *i)), b, compact, d)
                    .map(|c| comp(c, id))
                    .map_err(|(mut e, c)| {
                        e.partial = Some(comp(unnamed_of(c), id));
                        e
                    })
            }
            Ty::Struct(fs) => {
                if compact && fs.len() != 1 {
                    return Err(leaf());
                }
                self.fields(fs, b, compact, d)
                    .map(|c| comp(c, id))
                    .map_err(|(mut e, c)| {
                        e.partial = Some(comp(c, id));
                        e
                    })
            }
            Ty::Enum(vs) if !compact => {
                let Some(x) = b.first() else {
                    return Err(leaf());
                };
                let Some(v) = vs.iter().find(|v| v.index == *x) else {
                    return Err(leaf());
                };
                *b = &b[1..];
                let mk = |values| Value {
                    value: ValueDef::Variant(Variant {
                        name: v.name.clone(),
                        values,
                    }),
                    context: id,
                };
                self.fields(&v.fields, b, false, d)
                    .map(mk)
                    .map_err(|(mut e, c)| {
                        e.path.insert(0, v.name.clone());
                        e.partial = Some(mk(c));
                        e
                    })
            }
            _ => {
                let mut r = Reg::default();
                // a leaf: the model's decoder, in a registry of its own
                let i = r.add(ty.clone());
                let i = if compact { r.add(Ty::Compact(i)) } else { i };
                let mut steps = 10;
                match r.decode(i, b, &mut steps) {
                    Ok(v) => Ok(Value {
                        context: id,
                        ..r.to_value(i, &v)
                    }),
                    Err(_) => Err(leaf()),
                }
            }
        }
        .map_err(|mut e: TFail| {
            if e.path.is_empty() && e.partial.is_some() && !e.gave_up {
                // cannot be: containers add to the path
                e.gave_up = true;
            }
            let _ = unnamed;
            e
        })
    }
    fn fields(
        &mut self,
        fs: &[F],
        b: &mut &[u8],
        compact: bool,
        d: usize,
    ) -> Result<Composite<u32>, (TFail, Composite<u32>)> {
        let named = !fs.is_empty() && fs.iter().all(|f| f.name.is_some());
        let r = self.items(
            fs.iter()
                .map(|f| (if named { f.name.clone() } else { None }, f.ty)),
            b,
            compact,
            d,
        );
        match r {
            // nothing decoded yet: an empty composite of the right kind
            Err((e, Composite::Unnamed(x))) if named && x.is_empty() => {
                Err((e, Composite::Named(vec![])))
            }
            r => r,
        }
    }
    fn items(
        &mut self,
        it: impl Iterator<Item = (Option<String>, Id)>,
        b: &mut &[u8],
        compact: bool,
        d: usize,
    ) -> Result<Composite<u32>, (TFail, Composite<u32>)> {
        let mut un = vec![];
        let mut na = vec![];
        let mk = |un: Vec<Value<u32>>, na: Vec<(String, Value<u32>)>| {
            if na.is_empty() {
                Composite::Unnamed(un)
            } else {
                Composite::Named(na)
            }
        };
        for (k, (name, ty)) in it.enumerate() {
            match self.run(ty, b, compact, d + 1) {
                Ok(v) => match name {
                    Some(n) => na.push((n, v)),
                    None => un.push(v),
                },
                Err(mut e) => {
                    e.path.insert(0, name.clone().unwrap_or(format!("[{k}]")));
                    if let Some(p) = e.partial.take() {
                        match name {
                            Some(n) => na.push((n, p)),
                            None => un.push(p),
                        }
                    }
                    return Err((e, mk(un, na)));
                }
            }
        }
        Ok(mk(un, na))
    }
}
fn comp(c: Composite<u32>, id: Id) -> Value<u32> {
    Value {
        value: ValueDef::Composite(c),
        context: id,
    }
}
fn unnamed_of(c: Composite<u32>) -> Composite<u32> {
    c
}

/// A type, bytes for it (usually damaged), and what was done.
fn workload(c: &mut Case, zst: bool, with256: bool) -> (Reg, Id, Vec<u8>) {
    let r = &mut c.r;
    let mut zst_now = false;
    let (mut reg, id, mut b) = match r.below(14) {
        0..=8 => {
            zst_now = zst && r.chance(1, 6);
            let o = TyOpts {
                depth: 1 + r.below(5),
                zst_seq: zst_now,
                wrappers: r.chance(1, 4),
                ..Default::default()
            };
            let (reg, id, v) = gen_typed(r, &o);
            let b = reg.encode(id, &v);
            (reg, id, b)
        }
        9 | 10 => {
            let m = rust_types::any_made(r);
            (m.reg, m.id, m.bytes)
        }
        11 if with256 => {
            let (reg, id, v) = u256_case(r);
            let b = reg.encode(id, &v);
            (reg, id, b)
        }
        12 => {
            let (reg, id, v) = deep_case(r);
            let b = reg.encode(id, &v);
            (reg, id, b)
        }
        _ => {
            // collections of something small: length prefixes everywhere
            let mut reg = Reg::default();
            let mut id = match r.below(4) {
                0 => reg.add(Ty::Prim(PrimTy::U8)),
                1 => reg.add(Ty::Prim(PrimTy::Str)),
                2 => reg.add(Ty::Bits(
                    *r.pick(&[
                        scale_type_resolver::BitsStoreFormat::U8,
                        scale_type_resolver::BitsStoreFormat::U16,
                        scale_type_resolver::BitsStoreFormat::U32,
                        scale_type_resolver::BitsStoreFormat::U64,
                    ]),
                    *r.pick(&[
                        scale_type_resolver::BitsOrderFormat::Lsb0,
                        scale_type_resolver::BitsOrderFormat::Msb0,
                    ]),
                )),
                _ => {
                    let i = reg.add(Ty::Prim(PrimTy::U32));
                    reg.add(Ty::Compact(i))
                }
            };
            for _ in 0..r.below(4) {
                id = if r.chance(1, 4) {
                    reg.add(Ty::Struct(vec![F {
                        name: Some("f".into()),
                        ty: id,
                    }]))
                } else {
                    reg.add(Ty::Seq(id))
                };
            }
            let mut budget = 60;
            let v = gen_mv(&reg, r, id, &mut budget);
            let b = reg.encode(id, &v);
            (reg, id, b)
        }
    };
    let mut what = "intact";
    // damaged lengths of sequences of nothing would keep any decoder busy
    if !zst_now && !r.chance(1, 12) {
        for _ in 0..(if r.chance(1, 4) { 2 } else { 1 }) {
            what = mutate(r, &mut b);
        }
    }
    if r.chance(1, 40) {
        // a type id that does not exist
        let reach = reg.reach(id);
        let k = reach[r.below(reach.len())] as usize;
        let missing = 1_000_000;
        match &mut reg.types[k] {
            Ty::Seq(i) | Ty::Array(i, _) => *i = missing,
            Ty::Tuple(x) if !x.is_empty() => x[0] = missing,
            Ty::Struct(x) if !x.is_empty() => x[0].ty = missing,
            Ty::Enum(x) if x.iter().any(|v| !v.fields.is_empty()) => {
                x.iter_mut().find(|v| !v.fields.is_empty()).unwrap().fields[0].ty = missing
            }
            _ => {}
        }
    }
    c.count(
        match what {
            "intact" => "intact",
            "truncated" => "truncated",
            "length inflated" => "length_inflated",
            "random" => "random",
            _ => "other_damage",
        },
        1,
    );
    c.desc = format!("{} ({what})", describe(&reg, id, &b));
    (reg, id, b)
}

fn has_missing(reg: &Reg) -> bool {
    reg.types.iter().any(|t| match t {
        Ty::Seq(i) | Ty::Array(i, _) | Ty::Compact(i) => *i == 1_000_000,
        Ty::Tuple(x) => x.contains(&1_000_000),
        Ty::Struct(x) => x.iter().any(|f| f.ty == 1_000_000),
        Ty::Enum(x) => x.iter().any(|v| v.fields.iter().any(|f| f.ty == 1_000_000)),
        _ => false,
    })
}

/// What the reference says: value and number of bytes used, or None; Err if it cannot tell.
fn reference(reg: &Reg, id: Id, b: &[u8]) -> Result<Option<(Value<u32>, usize)>, ()> {
    let mut t = Tracer::new(reg, false);
    let cur = &mut &b[..];
    let r = t.run(id, cur, false, 0);
    match r {
        Err(e) if e.gave_up => Err(()),
        // the dependency's error path takes time exponential in the nesting depth of what it skips
        Err(_) if t.depth > 12 => Err(()),
        Err(_) => {
            if !has_missing(reg) {
                let mut steps = 1 << 20;
                assert!(
                    reg.decode(id, &mut &b[..], &mut steps).is_err(),
                    "the two references disagree"
                );
            }
            Ok(None)
        }
        Ok(v) => {
            if !has_missing(reg) {
                let mut steps = 1 << 20;
                let m = reg
                    .decode(id, &mut &b[..], &mut steps)
                    .expect("the two references agree");
                assert!(reg.to_value(id, &m) == v, "the two references disagree");
            }
            Ok(Some((v, b.len() - cur.len())))
        }
    }
}

fn bounded<T>(c: &mut Case, what: &str, len: usize, f: impl FnOnce() -> T) -> Result<T, Fail> {
    alloc::begin((64 << 20) + 4000 * len);
    let r = no_panic(what, f);
    let (peak, calls) = alloc::end();
    c.count("allocations", calls);
    c.count("peak_bytes_summed", peak as u64);
    r
}

fn compare(
    what: &str,
    want: &Option<(Value<u32>, usize)>,
    got: Result<Value<u32>, String>,
    b: &[u8],
    left: usize,
) -> Res {
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (Some((w, used)), Ok(g)) => {
            ensure!(*w == g, "{what}: wrong value:\n got {g:?}\nwant {w:?}");
            ensure!(
                left == b.len() - used,
                "{what}: {left} bytes left instead of {}",
                b.len() - used
            );
            Ok(())
        }
        (None, Ok(g)) => Err(format!(
            "{what} accepted bytes that are no valid encoding, as {:?}",
            strip(&g)
        )
        .into()),
        (Some((w, _)), Err(e)) => {
            Err(format!("{what} refused a valid encoding of {:?}: {e}", strip(w)).into())
        }
    }
}

fn fields_of(reg: &Reg, id: Id) -> Option<Vec<(Option<String>, Id)>> {
    match reg.ty(id) {
        Ty::Struct(fs) => Some(fs.iter().map(|f| (f.name.clone(), f.ty)).collect()),
        Ty::Tuple(ids) => Some(ids.iter().map(|i| (None, *i)).collect()),
        _ => None,
    }
}

/// Long collections, whole or damaged near the end (where everything before counts).
fn long_workload(c: &mut Case) -> (Reg, Id, Vec<u8>) {
    let r = &mut c.r;
    let (mut reg, mut id, v) = long_case(r);
    if r.chance(1, 3) {
        let u = reg.add(Ty::Prim(PrimTy::Bool));
        id = reg.add(Ty::Struct(vec![F { name: Some("long".into()), ty: id }, F { name: Some("after".into()), ty: u }]));
        let m = Mv::List(vec![v, Mv::Bool(r.bool())]);
        let b = reg.encode(id, &m);
        return damage(c, reg, id, b);
    }
    let b = reg.encode(id, &v);
    damage(c, reg, id, b)
}
fn damage(c: &mut Case, reg: Reg, id: Id, mut b: Vec<u8>) -> (Reg, Id, Vec<u8>) {
    let r = &mut c.r;
    let what = match r.below(6) {
        0..=2 => "intact",
        3 => {
            let n = r.range(1, b.len().min(10));
            b.truncate(b.len() - n);
            "truncated"
        }
        4 => {
            let n = b.len();
            for _ in 0..3 {
                let k = n - 1 - r.below(n.min(20));
                b[k] = r.u64() as u8;
            }
            "damaged at the end"
        }
        _ => {
            b.truncate(r.below(b.len()));
            "cut short"
        }
    };
    c.count(what, 1);
    c.desc = format!("{} ({what})", describe(&reg, id, &b));
    (reg, id, b)
}

fn c07(ctx: &mut Ctx) {
    let n = ctx.n(150_000, 40);
    ctx.section("hostile", n, |c| {
        let (reg, id, b) = workload(c, false, true);
        hostile(c, reg, id, b)
    });
    let n = ctx.n(150, 40);
    ctx.section("long", n, |c| {
        let (reg, id, b) = long_workload(c);
        hostile(c, reg, id, b)
    });
    short_inputs(ctx);
    ctx.require("hostile.accepted", 1000);
    ctx.require("hostile.refused", 10000);
    ctx.require("hostile.as_fields", 1000);
}

fn hostile(c: &mut Case, reg: Reg, id: Id, b: Vec<u8>) -> Res {
        let Ok(want) = reference(&reg, id, &b) else {
            c.skipped = true;
            return Ok(());
        };
        c.count(
            if want.is_some() {
                "accepted"
            } else {
                "refused"
            },
            1,
        );
        if want.is_none() || b.len() > 1 {
            c.nontrivial(&c.desc.clone());
        }
        let p = reg.portable();
        let cur = &mut &b[..];
        let got = bounded(c, "decode_as_type", b.len(), || {
            scale::decode_as_type(cur, id, &p)
        })?;
        compare(
            "decode_as_type",
            &want,
            got.map_err(|e| e.to_string()),
            &b,
            cur.len(),
        )?;
        let cur = &mut &b[..];
        let got = bounded(c, "tracing::decode_as_type", b.len(), || {
            scale::tracing::decode_as_type(cur, id, &p)
        })?;
        if let Err(e) = &got {
            let _ = no_panic("displaying a tracing error", || e.to_string())?;
        }
        compare(
            "tracing::decode_as_type",
            &want,
            got.map_err(|_| String::new()),
            &b,
            cur.len(),
        )?;
        // the rest of the entry points
        let want0 = want.as_ref().map(|(v, n)| (strip(v), *n));
        let cur = &mut &b[..];
        let got = bounded(c, "Value::decode_as_type", b.len(), || {
            Value::<()>::decode_as_type(cur, id, &reg)
        })?;
        match (&want0, got) {
            (None, Err(_)) => {}
            (Some((w, n)), Ok(g)) if g == *w && cur.len() == b.len() - n => {}
            (w, g) => {
                return Err(format!(
                    "Value::decode_as_type gives {g:?} with {} left, expected {w:?}",
                    cur.len()
                )
                .into())
            }
        }
        let cur = &mut &b[..];
        let got = bounded(c, "ValueVisitor", b.len(), || {
            scale_decode::visitor::decode_with_visitor(
                cur,
                id,
                &reg,
                scale::ValueVisitor::<Reg>::new(),
            )
        })?;
        compare(
            "ValueVisitor",
            &want,
            got.map_err(|e| e.to_string()),
            &b,
            cur.len(),
        )?;
        if let Some(fs) = fields_of(&reg, id) {
            let it = || {
                fs.iter().map(|(n, i)| Field {
                    name: n.as_deref(),
                    id: *i,
                })
            };
            let cur = &mut &b[..];
            let got = bounded(c, "decode_as_fields", b.len(), || {
                scale::decode_as_fields(cur, &mut it(), &p)
            })?;
            compare(
                "decode_as_fields",
                &want,
                got.map(|x| comp(x, id)).map_err(|e| e.to_string()),
                &b,
                cur.len(),
            )?;
            let cur = &mut &b[..];
            let got = bounded(c, "Composite::decode_as_fields", b.len(), || {
                Composite::<()>::decode_as_fields(cur, &mut it(), &reg)
            })?;
            match (&want0, got) {
                (None, Err(_)) => {}
                (Some((w, n)), Ok(g))
                    if ValueDef::Composite(g.clone()) == w.value && cur.len() == b.len() - n => {}
                (w, g) => {
                    return Err(format!(
                        "Composite::decode_as_fields gives {g:?} with {} left, expected {w:?}",
                        cur.len()
                    )
                    .into())
                }
            }
            let cur = &mut &b[..];
            let got = bounded(c, "Value::decode_as_fields", b.len(), || {
                Value::<()>::decode_as_fields(cur, &mut it(), &reg)
            })?;
            match (&want0, got) {
                (None, Err(_)) => {}
                (Some((w, n)), Ok(g)) if g == *w && cur.len() == b.len() - n => {}
                (w, g) => {
                    return Err(format!(
                        "Value::decode_as_fields gives {g:?} with {} left, expected {w:?}",
                        cur.len()
                    )
                    .into())
                }
            }
            c.count("as_fields", 1);
        }
        Ok(())
}

fn short_inputs(ctx: &mut Ctx) {
    // every short input against small types: nothing sampled
    ctx.section("all_short_inputs", 6 * 257, |c| {
        let mut reg = Reg::default();
        let u8_ = reg.add(Ty::Prim(PrimTy::U8));
        let bool_ = reg.add(Ty::Prim(PrimTy::Bool));
        let u32_ = reg.add(Ty::Prim(PrimTy::U32));
        let id = match c.index % 6 {
            0 => reg.add(Ty::Seq(bool_)),
            1 => reg.add(Ty::Prim(PrimTy::Str)),
            2 => reg.add(Ty::Compact(u32_)),
            3 => reg.add(Ty::Bits(
                scale_type_resolver::BitsStoreFormat::U8,
                scale_type_resolver::BitsOrderFormat::Msb0,
            )),
            4 => {
                let s = reg.add(Ty::Seq(u8_));
                reg.add(Ty::Enum(vec![
                    V {
                        name: "A".into(),
                        index: 0,
                        fields: vec![F { name: None, ty: s }],
                    },
                    V {
                        name: "B".into(),
                        index: 7,
                        fields: vec![
                            F {
                                name: Some("x".into()),
                                ty: bool_,
                            },
                            F {
                                name: Some("y".into()),
                                ty: u8_,
                            },
                        ],
                    },
                ]))
            }
            _ => {
                let s = reg.add(Ty::Seq(u8_));
                reg.add(Ty::Seq(s))
            }
        };
        let first = c.index / 6;
        c.desc = format!(
            "type {} all inputs of up to 3 bytes beginning with {first}",
            reg.describe(id)
        );
        c.nontrivial(&c.desc.clone());
        let mut inputs: Vec<Vec<u8>> = vec![];
        if first == 256 {
            inputs.push(vec![]);
        } else {
            let a = first as u8;
            inputs.push(vec![a]);
            for x in 0..=255u8 {
                inputs.push(vec![a, x]);
                for y in [0u8, 1, 4, 8, 0x7f, 0x80, 0xbf, 0xc2, 0xe0, 0xff, x] {
                    inputs.push(vec![a, x, y]);
                }
            }
        }
        let p = reg.portable();
        for b in inputs {
            let want = reference(&reg, id, &b).expect("bounded");
            let cur = &mut &b[..];
            let got = bounded(c, "decode_as_type", b.len(), || {
                scale::decode_as_type(cur, id, &p)
            })?;
            compare(
                "decode_as_type",
                &want,
                got.map_err(|e| e.to_string()),
                &b,
                cur.len(),
            )
            .map_err(|e| Fail {
                msg: format!("{} on bytes {}", e.msg, hex(&b)),
                ..e
            })?;
            c.count("inputs", 1);
        }
        Ok(())
    });
}

fn c08(ctx: &mut Ctx) {
    let n = ctx.n(200_000, 40);
    ctx.section("both", n, |c| {
        let (reg, id, b) = workload(c, true, true);
        both(c, reg, id, b)
    });
    let n = ctx.n(250, 40);
    ctx.section("long", n, |c| {
        let (reg, id, b) = long_workload(c);
        both(c, reg, id, b)
    });
    ctx.require("both.both_ok", 5000);
    ctx.require("both.both_err", 20000);
}

fn both(c: &mut Case, reg: Reg, id: Id, b: Vec<u8>) -> Res {
        // only bounds the work
        let Ok(w) = reference(&reg, id, &b) else {
            c.skipped = true;
            return Ok(());
        };
        let p = reg.portable();
        let (c1, c2) = (&mut &b[..], &mut &b[..]);
        let plain = no_panic("decode_as_type", || scale::decode_as_type(c1, id, &p))?;
        let traced = no_panic("tracing::decode_as_type", || {
            scale::tracing::decode_as_type(c2, id, &p)
        })?;
        match (plain, traced) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "values differ:\n plain {a:?}\ntraced {b:?}");
                ensure!(
                    c1 == c2,
                    "plain leaves {}, tracing leaves {}",
                    hex(c1),
                    hex(c2)
                );
                c.count("both_ok", 1);
                if crate::vgen::nodes(&a) > 1 {
                    c.nontrivial(&c.desc.clone());
                }
            }
            (Err(_), Err(_)) => {
                c.count("both_err", 1);
                c.nontrivial(&c.desc.clone());
            }
            (a, b) => return Err(format!("plain: {a:?}\ntracing: {b:?}").into()),
        }
        // and with another resolver, through the visitor
        let (c1, c2) = (&mut &b[..], &mut &b[..]);
        let plain = no_panic("plain visitor", || {
            scale_decode::visitor::decode_with_visitor(
                c1,
                id,
                &reg,
                scale::ValueVisitor::<Reg>::new(),
            )
        })?;
        let traced = no_panic("tracing visitor", || {
            scale_decode::visitor::decode_with_visitor(
                c2,
                id,
                &reg,
                scale::tracing::TraceDecodingVisitor::<Reg>::new(),
            )
        })?;
        match (plain, traced) {
            (Ok(a), Ok(b)) => ensure!(
                a == b && c1 == c2,
                "visitors differ:\n plain {a:?}\ntraced {b:?}"
            ),
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("plain visitor: {a:?}\ntracing: {b:?}").into()),
        }
        let _ = w;
        Ok(())
}

fn pretty_partial(v: &Value<u32>) -> Option<String> {
    let mut w = RefWriter::new(Style::Pretty);
    w.ctx = Some(Box::new(|c: &u32| format!("{c:?}")));
    w.custom.push(Box::new(hex_of));
    w.text(v).ok()
}

fn trace_case(c: &mut Case, reg: &Reg, id: Id, b: &[u8]) -> Res {
    match reference(reg, id, b) {
        Ok(None) => {}
        _ => {
            c.skipped = true;
            return Ok(());
        }
    }
    let p = reg.portable();
    let plain = no_panic("decode_as_type", || {
        scale::decode_as_type(&mut &b[..], id, &p)
    })?;
    let traced = no_panic("tracing::decode_as_type", || {
        scale::tracing::decode_as_type(&mut &b[..], id, &p)
    })?;
    // success where the reference says failure is for C07 to judge
    let (Err(plain), Err(traced)) = (plain, traced) else {
        return Ok(());
    };
    let text = no_panic("displaying a tracing error", || traced.to_string())?;
    let (r1, r2) = (
        no_panic("Debug", || format!("{traced:?}"))?,
        plain.to_string(),
    );
    ensure!(!r1.is_empty(), "empty Debug text");
    let text2 = no_panic("displaying again", || traced.to_string())?;
    ensure!(text == text2, "displaying twice gives different texts");
    let mut problems = vec![];
    let mut limit_hit = false;
    for limit in [false, true] {
        if limit && !limit_hit {
            break;
        }
        let mut t = Tracer::new(reg, limit);
        let Err(f) = t.run(id, &mut &b[..], false, 0) else {
            return Err("reference changed its mind".into());
        };
        limit_hit = t.limit_hit;
        if f.path.len() >= 1 {
            c.nontrivial(&c.desc.clone());
            c.count("path_steps", f.path.len() as u64);
            if f.path.iter().any(|s| !s.starts_with('[')) {
                c.count("with_names", 1);
            }
        }
        let mut pr = vec![];
        if f.path.is_empty() {
            if !limit && !text.contains(&r2) {
                pr.push(format!("the reason ({r2}) is not in the text"));
            }
        } else {
            let path: String = f.path.iter().map(|s| format!(".{s}")).collect();
            let reason = if limit { String::new() } else { r2.clone() };
            if !text.contains(&format!("at {path}: {reason}")) {
                pr.push(format!(
                    "the text does not name the place and reason: at {path}: {reason}"
                ));
            }
            match &f.partial {
                None => pr.push("reference has no partial value".into()),
                Some(v) => match pretty_partial(v) {
                    Some(s) => {
                        c.count("partial_bytes", s.len() as u64);
                        if !text.ends_with(&format!("\n{s}")) {
                            pr.push(format!(
                                "the text does not end with what was decoded so far:\n{s}"
                            ));
                        }
                    }
                    None => {
                        c.count("with_256_bit_numbers", 1);
                    }
                },
            }
        }
        if pr.is_empty() {
            return Ok(());
        }
        problems.extend(pr);
    }
    Err(format!("{}\ntext: {text}", problems.join("\n")).into())
}

fn c09(ctx: &mut Ctx) {
    let n = ctx.n(200_000, 40);
    ctx.section("errors", n, |c| {
        let (reg, id, b) = workload(c, true, true);
        trace_case(c, &reg, id, &b)
    });
    let n = ctx.n(100, 40);
    ctx.section("long", n, |c| {
        let (reg, id, b) = long_workload(c);
        trace_case(c, &reg, id, &b)
    });
    // a 256 bit number was decoded before something else could not be
    let n = ctx.n(3000, 40);
    ctx.section("after_256", n, |c| {
        let (mut reg, id, v) = u256_case(&mut c.r);
        let b = reg.encode(id, &v);
        let next = gen_ty(
            &mut reg,
            &mut c.r,
            &TyOpts {
                depth: 1,
                zst_seq: false,
                ..Default::default()
            },
            1,
        );
        let id = if c.r.bool() {
            reg.add(Ty::Tuple(vec![id, next]))
        } else {
            reg.add(Ty::Struct(vec![
                F {
                    name: Some("x".into()),
                    ty: id,
                },
                F {
                    name: Some("y".into()),
                    ty: next,
                },
            ]))
        };
        c.desc = describe(&reg, id, &b);
        trace_case(c, &reg, id, &b)
    });
    ctx.require("errors.nontrivial", 20000);
    ctx.require("errors.with_names", 10000);
    ctx.require("after_256.with_256_bit_numbers", 500);
}

fn c10(ctx: &mut Ctx) {
    let n = ctx.n(80_000, 40);
    ctx.section("decode_fields", n, |c| {
        // a struct type
        let o = TyOpts {
            depth: 1 + c.r.below(4),
            ..Default::default()
        };
        let (mut reg, id, v) = if c.r.chance(1, 1500) { long_case(&mut c.r) } else { gen_typed(&mut c.r, &o) };
        let (id, v) = match (reg.ty(id), v) {
            (Ty::Struct(_) | Ty::Tuple(_), v) => (id, v),
            (_, v) => {
                let (o2, d) = (TyOpts { depth: 2, ..o }, c.r.below(3));
                let other = gen_ty(&mut reg, &mut c.r, &o2, d);
                let mut budget = 60;
                let w = gen_mv(&reg, &mut c.r, other, &mut budget);
                let named = c.r.bool();
                let half = c.r.chance(1, 8); // one named, one not: unnamed
                let id = reg.add(Ty::Struct(vec![
                    F {
                        name: named.then(|| "first".into()),
                        ty: id,
                    },
                    F {
                        name: (named ^ half).then(|| "second".into()),
                        ty: other,
                    },
                ]));
                (id, Mv::List(vec![v, w]))
            }
        };
        let mut b = reg.encode(id, &v);
        let k = c.r.below(6);
        b.extend(c.r.bytes(k));
        c.desc = describe(&reg, id, &b);
        let fs = fields_of(&reg, id).unwrap();
        if !fs.is_empty() {
            c.nontrivial(&c.desc.clone());
        }
        let it = || {
            fs.iter().map(|(n, i)| Field {
                name: n.as_deref(),
                id: *i,
            })
        };
        let cur = &mut &b[..];
        let whole = no_panic("decode", || scale::decode_as_type(cur, id, &reg))?
            .map_err(|e| format!("valid encoding refused: {e}"))?;
        let left = cur.len();
        // fields, three ways, and two more resolvers
        let cur = &mut &b[..];
        let f = no_panic("decode_as_fields", || {
            scale::decode_as_fields(cur, &mut it(), &reg)
        })?
        .map_err(|e| format!("decode_as_fields refused: {e}"))?;
        ensure!(
            ValueDef::Composite(f.clone()) == whole.value,
            "decode_as_fields gives {f:?}, not {whole:?}"
        );
        ensure!(
            cur.len() == left,
            "decode_as_fields leaves {} bytes, not {left}",
            cur.len()
        );
        let cur = &mut &b[..];
        let g = no_panic("Composite::decode_as_fields", || {
            Composite::<()>::decode_as_fields(cur, &mut it(), &reg)
        })?
        .map_err(|e| format!("Composite::decode_as_fields refused: {e}"))?;
        ensure!(
            g == strip_c(&f) && cur.len() == left,
            "Composite::decode_as_fields gives {g:?} leaving {}",
            cur.len()
        );
        let cur = &mut &b[..];
        let g = no_panic("Value::decode_as_fields", || {
            Value::<()>::decode_as_fields(cur, &mut it(), &reg)
        })?
        .map_err(|e| format!("Value::decode_as_fields refused: {e}"))?;
        ensure!(
            g == strip(&whole) && cur.len() == left,
            "Value::decode_as_fields gives {g:?} leaving {}",
            cur.len()
        );
        let cur = &mut &b[..];
        let g = no_panic("Value::decode_as_type", || {
            Value::<()>::decode_as_type(cur, id, &reg)
        })?
        .map_err(|e| format!("Value::decode_as_type refused: {e}"))?;
        ensure!(
            g == strip(&whole) && cur.len() == left,
            "Value::decode_as_type gives {g:?} leaving {}",
            cur.len()
        );
        let cur = &mut &b[..];
        let p = reg.portable();
        let g = no_panic("decode", || scale::decode_as_type(cur, id, &p))?
            .map_err(|e| format!("refused with a portable registry: {e}"))?;
        ensure!(
            g == whole && cur.len() == left,
            "the resolver makes a difference: {g:?}"
        );
        let cur = &mut &b[..];
        let t = TidReg(&reg);
        let g = no_panic("decode", || scale::decode_as_type(cur, Tid::of(id), &t))?
            .map_err(|e| format!("refused with string ids: {e}"))?;
        ensure!(
            strip(&g) == strip(&whole) && cur.len() == left,
            "the resolver makes a difference: {g:?}"
        );
        let (mut ids1, mut ids2) = (vec![], vec![]);
        crate::vgen::walk(&whole, &mut |v| ids1.push(v.context));
        crate::vgen::walk(&g, &mut |v| ids2.push(v.context.id().unwrap()));
        ensure!(
            ids1 == ids2,
            "type ids differ between resolvers: {ids1:?} {ids2:?}"
        );
        let cur = &mut &b[..];
        let g = no_panic("tracing", || {
            scale::tracing::decode_as_type(cur, Tid::of(id), &t)
        })?
        .map_err(|_| "tracing refused with string ids")?;
        let mut ids2 = vec![];
        crate::vgen::walk(&g, &mut |v| ids2.push(v.context.id().unwrap()));
        ensure!(
            strip(&g) == strip(&whole) && ids1 == ids2 && cur.len() == left,
            "tracing with string ids: {g:?}"
        );
        // encoding: as the struct, as fields of a composite, as fields of a value; any resolver
        let exact = &b[..b.len() - left];
        let fc = &f;
        let mut outs: Vec<(&str, Result<(), String>, Vec<u8>)> = vec![];
        let mut run = |what: &'static str,
                       f: &mut dyn FnMut(&mut Vec<u8>) -> Result<(), scale_encode::Error>|
         -> Res {
            let mut out = vec![];
            let r = no_panic(what, || f(&mut out))?.map_err(|e| e.to_string());
            outs.push((what, r, out));
            Ok(())
        };
        run("encode_as_type", &mut |o| {
            scale::encode_as_type(&whole, id, &reg, o)
        })?;
        run("EncodeAsType", &mut |o| {
            whole.encode_as_type_to(id, &reg, o)
        })?;
        run("EncodeAsType portable", &mut |o| {
            whole.encode_as_type_to(id, &p, o)
        })?;
        run("EncodeAsType string ids", &mut |o| {
            whole.encode_as_type_to(Tid::of(id), &t, o)
        })?;
        run("Composite as fields", &mut |o| {
            fc.encode_as_fields_to(&mut it(), &reg, o)
        })?;
        run("Value as fields", &mut |o| {
            whole.encode_as_fields_to(&mut it(), &reg, o)
        })?;
        run("Value as fields portable", &mut |o| {
            whole.encode_as_fields_to(&mut it(), &p, o)
        })?;
        for (what, r, out) in outs {
            if let Err(e) = r {
                return Err(format!("{what} failed: {e}").into());
            }
            ensure!(
                out == exact,
                "{what} gives {} instead of {}",
                hex(&out),
                hex(exact)
            );
        }
        Ok(())
    });
    let n = ctx.n(60_000, 40);
    ctx.section("encode_fields", n, |c| {
        // composites that do not line up with the fields directly
        let o = TyOpts {
            depth: 2,
            ..Default::default()
        };
        let mut reg = Reg::default();
        let k = c.r.range(3, 5); // a single value may be looked into, which fields know nothing of
        let named = c.r.chance(2, 3);
        let mut fs = vec![];
        let mut vs = vec![];
        for i in 0..k {
            let ty = gen_ty(&mut reg, &mut c.r, &o, 2);
            fs.push(F {
                name: named.then(|| format!("f{i}")),
                ty,
            });
            let mut budget = 30;
            vs.push(gen_mv(&reg, &mut c.r, ty, &mut budget));
        }
        let id = reg.add(Ty::Struct(fs.clone()));
        let mut items: Vec<(String, Value<u32>)> = fs
            .iter()
            .zip(&vs)
            .enumerate()
            .map(|(i, (f, v))| (format!("f{i}"), reg.to_value(f.ty, v)))
            .collect();
        let mut expect = Some(reg.encode(id, &Mv::List(vs.clone())));
        let comp: Composite<u32> = match c.r.below(6) {
            0 | 1 => {
                if named {
                    c.r.shuffle(&mut items);
                    for _ in 0..c.r.below(3) {
                        let at = c.r.below(items.len() + 1);
                        let v = items[0].1.clone();
                        items.insert(at, (format!("unused{at}{}", c.r.below(1000)), v));
                    }
                }
                Composite::Named(items)
            }
            2 => Composite::Unnamed(items.into_iter().map(|x| x.1).collect()),
            3 => {
                // one missing
                let i = c.r.below(items.len());
                items.remove(i);
                expect = None;
                if c.r.bool() {
                    Composite::Named(items)
                } else {
                    Composite::Unnamed(items.into_iter().map(|x| x.1).collect())
                }
            }
            4 => {
                // one too many, without names
                let v = items[0].1.clone();
                items.push(("x".into(), v));
                expect = None;
                Composite::Unnamed(items.into_iter().map(|x| x.1).collect())
            }
            _ => {
                // a field that cannot be encoded, last
                let n = items.len() - 1;
                items[n].1 = Value {
                    value: ValueDef::Variant(Variant {
                        name: "no such variant ✗".into(),
                        values: Composite::Unnamed(vec![]),
                    }),
                    context: 0,
                };
                expect = None;
                Composite::Named(items)
            }
        };
        c.desc = format!("type {} composite {:?}", reg.describe(id), strip_c(&comp));
        c.nontrivial(&c.desc.clone());
        let it = || {
            fs.iter().map(|f| Field {
                name: f.name.as_deref(),
                id: f.ty,
            })
        };
        let value = Value {
            value: ValueDef::Composite(comp.clone()),
            context: 7,
        };
        let mut res = vec![];
        for w in 0..3 {
            let mut out = vec![0xAA];
            let r = no_panic("encode", || match w {
                0 => comp.encode_as_fields_to(&mut it(), &reg, &mut out),
                1 => value.encode_as_fields_to(&mut it(), &reg, &mut out),
                _ => value.encode_as_type_to(id, &reg, &mut out),
            })?;
            res.push((r.map_err(|e| e.to_string()), out));
        }
        for (w, (r, out)) in res.iter().enumerate() {
            let what = [
                "Composite::encode_as_fields",
                "Value::encode_as_fields",
                "encode_as_type",
            ][w];
            ensure!(out[0] == 0xAA, "{what} changed the buffer");
            match (&expect, r) {
                (Some(b), Ok(())) => ensure!(
                    out[1..] == b[..],
                    "{what} gives {} instead of {}",
                    hex(&out[1..]),
                    hex(b)
                ),
                (None, Err(_)) => {
                    c.count("refused", 1);
                    // whether encode_as_fields appends on failure is not claimed
                }
                (e, r) => {
                    return Err(format!(
                        "{what}: {r:?}, expected {}",
                        if e.is_some() { "success" } else { "failure" }
                    )
                    .into())
                }
            }
        }
        Ok(())
    });
    let n = ctx.n(10_000, 40);
    ctx.section("not_composites", n, |c| {
        let v = crate::vgen::gen_value(
            &mut c.r,
            &crate::vgen::VOpts {
                big256: true,
                ..Default::default()
            },
            2,
            &mut |_| (),
        );
        if matches!(v.value, ValueDef::Composite(_)) {
            c.skipped = true;
            return Ok(());
        }
        let mut reg = Reg::default();
        let mut fs = vec![];
        for _ in 0..c.r.below(3) {
            fs.push(gen_ty(
                &mut reg,
                &mut c.r,
                &TyOpts {
                    depth: 1,
                    ..Default::default()
                },
                1,
            ));
        }
        c.desc = format!(
            "{v:?} as fields {:?}",
            fs.iter().map(|i| reg.describe(*i)).collect::<Vec<_>>()
        );
        c.nontrivial(&c.desc.clone());
        let mut out = vec![1, 2, 3];
        let r = no_panic("encode_as_fields", || {
            v.encode_as_fields_to(
                &mut fs.iter().map(|i| Field { name: None, id: *i }),
                &reg,
                &mut out,
            )
        })?;
        ensure!(
            r.is_err(),
            "something that is no composite was encoded as fields: {}",
            hex(&out)
        );
        ensure!(out == [1, 2, 3], "a failed encode left {}", hex(&out));
        Ok(())
    });
    ctx.require("encode_fields.refused", 1000);
}
