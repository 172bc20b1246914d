//! C29: what things cost, in instructions counted by callgrind.
use super::decode::{deep_case, long_case_of};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::textgen::*;
use crate::vgen::*;
use crate::Check;
use scale_encode::EncodeAsType;
use scale_value::stringify::custom_formatters::format_hex;
use scale_value::stringify::custom_parsers::{parse_hex, parse_ss58};
use scale_value::stringify::{from_str, from_str_custom, to_writer_custom};
use scale_value::{scale, At, Composite, Primitive, Value, ValueDef, Variant};
use serde::Deserialize;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn table() -> Vec<Check> {
    vec![Check {
        id: "C29",
        run: c29,
        rule: "a case is an operation with inputs of the same shape and three sizes; the instructions executed per byte or value of input and output are compared between the sizes. Non-trivial: the operation takes more than 20 instructions per unit (it doesn't give up at the start); distinct by operation and shape",
        mem: false,
        term: true,
    }]
}

/// What is measured happens in here: callgrind collects in this function only.
#[no_mangle]
#[inline(never)]
pub fn sv_cost_op(f: &mut dyn FnMut()) {
    f();
    std::hint::black_box(());
}

struct Job {
    what: String,
    /// how much goes in
    size: usize,
    /// gives how much comes out
    op: Box<dyn FnOnce() -> usize>,
}

/// (What there is to choose from is chosen in turn, by the number of the case.)
type Op = (&'static str, fn(&mut Rng, usize, usize) -> Job);
const OPS: &[Op] = &[
    ("parse", parse),
    ("write", write),
    ("decode", decode),
    ("trace", trace),
    ("encode", encode),
    ("values", values),
    ("serde", serde_),
    ("hex", hex),
    ("lookup", lookup),
    ("nested", nested),
];

fn job(what: impl Into<String>, size: usize, op: impl FnOnce() -> usize + 'static) -> Job {
    Job { what: what.into(), size, op: Box::new(op) }
}

fn show(s: &str) -> String {
    format!("{:?}", trunc(s, 60))
}

/// A text of the given shape, and what to call it. `by` is for the shape, which is the same for all sizes.
fn text(r: &mut Rng, n: usize, i: usize) -> (String, String) {
    match i % 4 {
        0 => {
            let mut r = fork(r);
            let r = &mut r;
            let v = long_value(r, n, &mut |_| ());
            let mut s = String::new();
            loose(&v, r, &mut s);
            (format!("the text of a long value {}", show(&s)), s)
        }
        _ => {
            let pre = *r.pick(&["(", "{", "(", "A(", "A{", "<", "\"", "v\"", "0x", "", "(((", "{a:(", "(1,"]);
            let frag = match r.below(8) {
                0 => soup(r, 3),
                1 => gen_ws(r, 3),
                2 => (*r.pick(&["a", "1", "z", "_", "\\n", "\\\"", "é", "0", "1_", "-", "01", "F"])).to_string(),
                3 | 4 => {
                    let mut s = String::new();
                    loose(&value0(r, &VOpts { depth: 2, wide: 3, ..Default::default() }), r, &mut s);
                    s + &gen_ws(r, 2) + "," + &gen_ws(r, 2)
                }
                5 | 6 => {
                    let mut s = format!("{}:", gen_ident(r));
                    loose(&value0(r, &VOpts { depth: 1, wide: 3, ..Default::default() }), r, &mut s);
                    s + ","
                }
                _ => soup(r, 2) + ",",
            };
            let post = match r.below(4) {
                0 => String::new(),
                1 => soup(r, 2),
                _ => match pre.chars().next() {
                    Some('"') | Some('v') => "\"",
                    Some('<') => ">",
                    Some('{') => "1}",
                    _ if pre.ends_with('{') => "}",
                    Some('0') | None => "",
                    _ => "1)",
                }
                .into(),
            };
            (format!("{} followed by {n} times {frag:?} and {post:?}", show(pre)), format!("{pre}{}{post}", frag.repeat(n)))
        }
    }
}

fn read(what: String, s: String, i: usize) -> Job {
    match i % 3 {
        0 => job(format!("parsing {what}"), s.len(), move || {
            let (v, rest) = from_str(&s);
            v.is_ok() as usize + rest.len() % 2
        }),
        1 => job(format!("parsing, with parsers for hex and SS58, {what}"), s.len(), move || {
            let b = from_str_custom().add_custom_parser(parse_hex).add_custom_parser(parse_ss58);
            let (v, rest) = b.parse(&s);
            v.is_ok() as usize + rest.len() % 2
        }),
        _ => job(format!("parsing, with parsers of its own, {what}"), s.len(), move || {
            let b = from_str_custom().add_custom_parser(|s| {
                *s = s.get(1..)?;
                None
            });
            let b = b.add_custom_parser(|s| {
                *s = s.strip_prefix("é")?;
                Some(Ok(Value::bool(true)))
            });
            let (v, rest) = b.parse(&s);
            v.is_ok() as usize + rest.len() % 2
        }),
    }
}

fn parse(r: &mut Rng, n: usize, i: usize) -> Job {
    let (what, s) = text(r, n, i);
    read(what, s, i)
}

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

fn put(what: &str, v: Value<u32>, k: usize) -> Job {
    let size = size_of(&v);
    let k = k % 6;
    let w = ["writing", "writing in compact style", "writing prettily", "writing with contexts", "writing as hex where possible", "writing the Debug form of"][k];
    job(format!("{w} {what}"), size, move || {
        let mut s = Sink(0);
        if k == 5 {
            use std::fmt::Write;
            let _ = write!(s, "{v:?}");
            return s.0;
        }
        let b = to_writer_custom::<u32, &mut Sink>();
        let b = match k {
            0 => b,
            1 => b.compact(),
            2 => b.pretty(),
            3 => b.format_context(|c, w: &mut &mut Sink| {
                use std::fmt::Write;
                write!(w, "{c}")
            }),
            _ => b.add_custom_formatter(|v, w: &mut &mut Sink| format_hex(v, w)),
        };
        let _ = b.write(&v, &mut s);
        drop(b);
        s.0
    })
}

/// Chooses on its own, however much that takes, so that what follows has the same shape for all sizes.
fn fork(r: &mut Rng) -> Rng {
    Rng::new(r.u64())
}

fn long(r: &mut Rng, n: usize) -> Value<u32> {
    long_value(&mut fork(r), n, &mut |r| r.below(9) as u32)
}

/// The size of a value: its nodes, and the bytes of its text.
fn size_of(v: &Value<u32>) -> usize {
    let mut n = 0;
    walk(v, &mut |v| {
        n += 1 + match &v.value {
            ValueDef::Composite(Composite::Named(x)) => x.iter().map(|x| x.0.len()).sum(),
            ValueDef::Variant(Variant { name, values: Composite::Named(x) }) => name.len() + x.iter().map(|x| x.0.len()).sum::<usize>(),
            ValueDef::Variant(x) => x.name.len(),
            ValueDef::Primitive(Primitive::String(s)) => s.len(),
            ValueDef::BitSequence(b) => b.len(),
            _ => 0,
        }
    });
    n
}

fn write(r: &mut Rng, n: usize, i: usize) -> Job {
    let v = long(r, n);
    put(&format!("a long value {}", trunc(&super::text::show(&v), 60)), v, i)
}

/// A type, a value and its encoding, all of the same shape for every size.
fn typed(r: &mut Rng, n: usize, i: usize) -> (String, Reg, Id, Mv) {
    let r = &mut fork(r);
    match i % 4 {
        0 => {
            let (reg, id, m) = long_case_of(r, n);
            (reg.describe(id), reg, id, m)
        }
        1 | 2 => {
            // a list of something
            let o = TyOpts { depth: 2, wide: 3, zst_seq: false, ..Default::default() };
            let (mut reg, item, one) = gen_typed(r, &o);
            let mut some: Vec<Mv> = (0..7)
                .map(|_| {
                    let mut budget = 12;
                    gen_mv(&reg, r, item, &mut budget)
                })
                .collect();
            some.push(one);
            // not that many large ones
            let each = some.iter().map(|m| reg.encode(item, m).len()).sum::<usize>() / 8;
            let n = (n * 20 / (20 + each)).max(8);
            let id = if r.chance(3, 4) || reg.min_size(item) == 0 { reg.add(Ty::Seq(item)) } else { reg.add(Ty::Array(item, n)) };
            if reg.min_size(item) == 0 {
                let u = reg.add(Ty::Prim(PrimTy::U8));
                let id = reg.add(Ty::Seq(u));
                return ("a list of bytes".into(), reg, id, Mv::List((0..n).map(|_| Mv::U(r.uint(8))).collect()));
            }
            (reg.describe(id), reg, id, Mv::List((0..n).map(|k| some[k % 8].clone()).collect()))
        }
        _ => {
            // many fields
            let mut reg = Reg::default();
            let u = reg.add(Ty::Prim(*r.pick(&[PrimTy::U8, PrimTy::Bool, PrimTy::U32])));
            let w = if r.bool() { u } else { reg.add(Ty::Tuple(vec![u])) };
            let kind = r.below(3);
            let fs: Vec<F> = (0..n).map(|k| F { name: (kind > 0).then(|| format!("field{k}")), ty: if k % 3 == 0 { w } else { u } }).collect();
            let mut vals = vec![];
            for f in &fs {
                let mut budget = 3;
                vals.push(gen_mv(&reg, r, f.ty, &mut budget));
            }
            let (id, m) = match kind {
                2 => (reg.add(Ty::Enum(vec![V { name: "V".into(), index: 7, fields: fs }])), Mv::Var(0, vals)),
                1 => (reg.add(Ty::Struct(fs)), Mv::List(vals)),
                _ => (reg.add(Ty::Tuple(fs.iter().map(|f| f.ty).collect())), Mv::List(vals)),
            };
            (format!("{} fields, kind {kind}", n), reg, id, m)
        }
    }
}

fn bytes(r: &mut Rng, n: usize, i: usize) -> (String, Reg, Id, Vec<u8>) {
    let (what, reg, id, m) = typed(r, n, i);
    let mut b = reg.encode(id, &m);
    let mut how = "";
    match r.below(4) {
        0 => {
            b.pop();
            how = ", cut short";
        }
        1 => {
            b.extend(r.bytes(3));
            how = ", and more";
        }
        _ => {}
    }
    (format!("{}{how}", trunc(&what, 80)), reg, id, b)
}

fn decode(r: &mut Rng, n: usize, i: usize) -> Job {
    let (what, reg, id, b) = bytes(r, n, i);
    job(format!("decoding {what}"), b.len(), move || scale::decode_as_type(&mut &b[..], id, &reg).map(|v| nodes(&v)).unwrap_or(1))
}

fn trace(r: &mut Rng, n: usize, i: usize) -> Job {
    let (what, reg, id, b) = bytes(r, n, i);
    job(format!("tracing the decoding of {what}"), b.len(), move || scale::tracing::decode_as_type(&mut &b[..], id, &reg).map(|v| nodes(&v)).unwrap_or(1))
}

fn encode(r: &mut Rng, n: usize, i: usize) -> Job {
    let (what, reg, id, m) = typed(r, n, i);
    let mut v: Value<u32> = reg.to_value(id, &m).map_context(|_| 1);
    let mut how = "";
    {
        let c = match &mut v.value {
            ValueDef::Composite(c) => Some(c),
            ValueDef::Variant(x) => Some(&mut x.values),
            _ => None,
        };
        if let Some(c) = c {
            let wrong = Value { value: ValueDef::Variant(Variant { name: "none".into(), values: Composite::Unnamed(vec![]) }), context: 2 };
            match (r.below(4), c) {
                (0, Composite::Unnamed(x)) if !x.is_empty() => {
                    *x.last_mut().unwrap() = wrong;
                    how = ", the last wrong";
                }
                (0, Composite::Named(x)) if !x.is_empty() => {
                    x.last_mut().unwrap().1 = wrong;
                    how = ", the last wrong";
                }
                (1, Composite::Named(x)) => {
                    fork(r).shuffle(x);
                    how = ", in another order";
                }
                (2, Composite::Named(x)) => {
                    for k in 0..x.len() {
                        x.push((format!("unused{k}"), wrong.clone()));
                    }
                    how = ", with unused ones";
                }
                _ => {}
            }
        }
    }
    let size = size_of(&v);
    job(format!("encoding {}{how}", trunc(&what, 80)), size, move || {
        let mut o = vec![];
        let _ = v.encode_as_type_to(id, &reg, &mut o);
        o.len()
    })
}

fn touch(what: &str, v: Value<u32>, k: usize) -> Job {
    let size = size_of(&v);
    let k = k % 5;
    let w = ["cloning", "comparing", "mapping the contexts of", "removing the contexts of", "dropping"][k];
    job(format!("{w} {what}"), size, move || match k {
        0 => nodes(&v.clone()) % 2,
        1 => {
            let w = v.clone();
            (w == v) as usize
        }
        2 => v.map_context(|c| c as u64 + 1).context as usize % 2,
        3 => {
            let w = v.remove_context();
            matches!(w.value, ValueDef::Composite(_)) as usize
        }
        _ => {
            drop(v);
            1
        }
    })
}

fn values(r: &mut Rng, n: usize, i: usize) -> Job {
    let v = long(r, n);
    touch(&format!("a long value {}", trunc(&super::text::show(&v), 60)), v, i)
}

fn convert(what: &str, v: Value<u32>, k: usize) -> Job {
    let size = size_of(&v);
    let v = strip(&v);
    let k = k % 5;
    let w = ["serializing", "deserializing from a value", "to a value", "deserializing as JSON", "deserializing from JSON"][k];
    let json = if k == 4 { serde_json::to_string(&v).unwrap_or_default() } else { String::new() };
    job(format!("{w} {what}"), size + json.len(), move || match k {
        0 => serde_json::to_string(&v).map(|s| s.len()).unwrap_or(1),
        1 => Value::<()>::deserialize(v).map(|v| nodes(&v)).unwrap_or(1),
        2 => scale_value::serde::to_value(&v).map(|v| nodes(&v)).unwrap_or(1),
        3 => serde_json::Value::deserialize(v).is_ok() as usize,
        _ => serde_json::from_str::<Value<()>>(&json).map(|v| nodes(&v)).unwrap_or(1),
    })
}

fn serde_(r: &mut Rng, n: usize, i: usize) -> Job {
    match i % 11 {
        0 => {
            let x: Vec<(u8, Option<bool>)> = (0..n).map(|k| (k as u8, [None, Some(true)][k % 2])).collect();
            job("a Rust list to a value", n, move || scale_value::serde::to_value(&x).is_ok() as usize)
        }
        1 | 2 => {
            use std::collections::BTreeMap;
            let x: BTreeMap<String, (char, i8)> = (0..n).map(|k| (format!("k{k:06}"), ('é', k as i8))).collect();
            let back = i % 11 % 2 == 1;
            let v = scale_value::serde::to_value(&x).unwrap();
            job(if back { "a value to a Rust map" } else { "a Rust map to a value" }, n * 8, move || match back {
                true => scale_value::serde::from_value::<_, BTreeMap<String, (char, i8)>>(v).unwrap().len(),
                false => scale_value::serde::to_value(&x).is_ok() as usize,
            })
        }
        3 | 4 => {
            let mut b = scale_bits::Bits::new();
            (0..n).for_each(|k| b.push(k % 3 == 0));
            let back = i % 11 % 2 == 1;
            let v = scale_value::serde::to_value(&b).unwrap();
            job(if back { "a value to bits" } else { "bits to a value" }, n, move || match back {
                true => scale_value::serde::from_value::<_, scale_bits::Bits>(v).unwrap().len(),
                false => scale_value::serde::to_value(&b).is_ok() as usize,
            })
        }
        5 => {
            let x: Vec<(u8, String)> = (0..n).map(|k| (k as u8, "abc".into())).collect();
            let v = scale_value::serde::to_value(&x).unwrap();
            job("a value to a Rust list", n, move || scale_value::serde::from_value::<_, Vec<(u8, String)>>(v).unwrap().len())
        }
        _ => {
            let v = long(r, n);
            convert(&format!("a long value {}", trunc(&super::text::show(&v), 60)), v, i)
        }
    }
}

fn hex(r: &mut Rng, n: usize, i: usize) -> Job {
    let b = fork(r).bytes(n);
    let mut v = super::hexss::bytes_value(&b);
    let spoil = i / 2 % 3;
    if let (ValueDef::Composite(Composite::Unnamed(x)), 0, true) = (&mut v.value, spoil, n > 0) {
        x[n - 1].value = ValueDef::Primitive(Primitive::U128(256));
    }
    if i % 2 == 0 {
        job("formatting as hex", n, move || {
            let mut s = Sink(0);
            let _ = format_hex(&v, &mut s);
            s.0
        })
    } else {
        let mut s: String = "0x".into();
        for x in b {
            s.push_str(&format!("{x:02x}"));
        }
        if spoil == 1 {
            s.push('g');
        }
        job("parsing hex", s.len(), move || parse_hex(&mut &s[..]).is_some() as usize)
    }
}

fn lookup(r: &mut Rng, n: usize, _: usize) -> Job {
    let v = long(r, n);
    let size = size_of(&v);
    let name = format!("k{}", n - 1);
    job(format!("lookups in a long value {}", trunc(&super::text::show(&v), 60)), size, move || {
        let inner = v.at(1).at(0).is_some() as usize;
        let inner = inner + match &v.value {
            ValueDef::Composite(c) => c.values().count() + c.clone().into_values().count() + c.len(),
            ValueDef::Variant(x) => x.values.values().count(),
            _ => 0,
        };
        inner + v.at(n - 1).is_some() as usize + v.at(n).is_some() as usize + v.at(&name).is_some() as usize + v.at("none").is_some() as usize
    })
}

/// What is nested deep. (Tracing keeps a path for each level, so it isn't part of this.)
fn nested(r: &mut Rng, n: usize, i: usize) -> Job {
    if i % 3 == 0 {
        let (open, close) = *r.pick(&[("(", ")"), ("{a:", "}"), ("A(", ")"), ("A{b:", "}"), ("(1,", ")"), ("{a:1,b:", "}"), ("v\"x y\"(", ",1)"), ("( ", " , 2 )"), ("(", ",x:1)"), ("{", "}")]);
        let mid = *r.pick(&["", "1", "x", "()", "\"", "é"]);
        let close = if r.chance(1, 4) { String::new() } else { close.repeat(n) };
        let s = format!("{}{mid}{close}", open.repeat(n));
        return read(format!("{n} times nested {open} {mid} {}", trunc(&close, 10)), s, i);
    }
    let (mut reg, id, _) = deep_case(r);
    let link = |r: &mut Rng, reg: &Reg, tail: Mv| {
        let mut budget = 2;
        let Ty::Enum(vs) = reg.ty(id) else { unreachable!() };
        let fs = &vs[1].fields;
        let head = gen_mv(reg, r, fs[0].ty, &mut budget);
        let tail = if fs[1].ty == id { tail } else { Mv::List(vec![tail]) };
        Mv::Var(1, vec![head, tail])
    };
    let mut m = Mv::Var(0, vec![]);
    let mut own = fork(r);
    for _ in 0..n {
        m = link(&mut own, &reg, m);
    }
    let b = reg.encode(id, &m);
    reg.budget = Default::default();
    let v: Value<u32> = reg.to_value(id, &m).map_context(|_| 3);
    // (neither is of interest here, and both recurse)
    std::mem::forget(m);
    let what = format!("{n} levels of {}", trunc(&reg.describe(id), 60));
    match (i / 3 * 2 + i % 3 - 1) % 6 {
        0 => {
            let mut b = b;
            let cut = r.bool();
            if cut {
                b.pop();
            }
            job(format!("decoding {what}, cut {cut}"), b.len(), move || scale::decode_as_type(&mut &b[..], id, &reg).is_ok() as usize)
        }
        1 => job(format!("encoding {what}"), size_of(&v), move || {
            let mut o = vec![];
            let _ = v.encode_as_type_to(id, &reg, &mut o);
            o.len()
        }),
        2 => put(&what, v, r.below(6)),
        3 => touch(&what, v, r.below(5)),
        4 => convert(&what, v, r.below(4)),
        _ => job(format!("lookups in {what}"), size_of(&v), move || {
            let mut x = Some(&v);
            let mut k = 0;
            while let Some(y) = x {
                x = y.at(if k % 2 == 0 { "tail" } else { "head" }).or(y.at("tail")).or(y.at(0));
                k += 1;
            }
            k
        }),
    }
}

/// How large, and how often larger.
fn sizes(op: &str) -> [usize; 3] {
    match op {
        "nested" => [100, 600, 3600],
        _ => [500, 4000, 32000],
    }
}

/// In a process of its own, under callgrind: do it in every size, and say how much went in and out.
pub fn measure(args: &[String]) -> i32 {
    let (op, seed, index): (usize, u64, usize) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap());
    let run = move || {
        let (name, make) = OPS[op];
        for n in sizes(name) {
            let mut r = Rng::new(seed);
            let Job { what, size, op } = make(&mut r, n, index);
            let mut op = Some(op);
            let mut out = 0;
            sv_cost_op(&mut || out = op.take().unwrap()());
            println!("{} {what}", size + out);
            let _ = std::io::stdout().flush();
        }
    };
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().map(|_| 0).unwrap_or(1)
}

fn c29(ctx: &mut Ctx) {
    let dir = crate::root().join("work").join("C29").join(format!("grind{}", ctx.shard.0));
    let mut errors = vec![];
    let thorough = ctx.thorough();
    let n = ctx.n(75, 12);
    let seed = ctx.seed;
    ctx.section("growth", n, |c| {
        let (k, s) = ((c.index % OPS.len() as u64) as usize, crate::rng::mix(seed ^ crate::rng::mix(c.index)));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let out = dir.join("stdout");
        let file = |p: &std::path::Path| std::fs::File::create(p).map_err(|e| e.to_string());
        let mut child = Command::new("valgrind")
            .args(["--tool=callgrind", "--collect-atstart=no", "--toggle-collect=sv_cost_op", "--dump-after=sv_cost_op", "--main-stacksize=8388608"])
            .arg(format!("--callgrind-out-file={}", dir.join("out").display()))
            .arg(std::env::current_exe().map_err(|e| e.to_string())?)
            .args(["--cost", &k.to_string(), &s.to_string(), &(c.index / OPS.len() as u64).to_string()])
            .stdin(Stdio::null())
            .stdout(file(&out)?)
            .stderr(file(&dir.join("stderr"))?)
            .spawn()
            .map_err(|e| format!("valgrind: {e}"))
            .unwrap();
        let t0 = Instant::now();
        let limit = if thorough { 600 } else { 150 };
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t0.elapsed() < Duration::from_secs(limit) => std::thread::sleep(Duration::from_millis(10)),
                _ => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
            }
        };
        let said = std::fs::read_to_string(&out).unwrap_or_default();
        let mut seen = vec![];
        for (i, l) in said.lines().enumerate() {
            let Some((size, what)) = l.split_once(' ') else { continue };
            let dump = std::fs::read_to_string(dir.join(format!("out.{}", i + 1))).unwrap_or_default();
            let cost = dump.lines().find_map(|l| l.strip_prefix("summary: ").or(l.strip_prefix("totals: "))).and_then(|n| n.trim().parse::<u64>().ok());
            if let (Ok(size), Some(cost)) = (size.parse::<u64>(), cost) {
                seen.push((size, cost, what.to_string()));
            }
        }
        c.desc = format!("{} {:?}", OPS[k].0, seen);
        let per: Vec<f64> = seen.iter().map(|s| s.1 as f64 / s.0.max(1) as f64).collect();
        if std::env::var("SV_COSTS").is_ok() {
            eprintln!("{:.2} {:?} {:.0?} {:?}", per.last().unwrap_or(&0.0) / per.first().unwrap_or(&1.0), t0.elapsed(), per, seen.last());
        }
        for (s, p) in seen.iter().zip(&per).skip(1) {
            ensure!(*p < LIMIT * per[0] + 20.0, "{} takes {} instructions for {} in and out, which is {:.1} times as much for each as with {} of them", s.2, s.1, s.0, p / per[0], seen[0].0);
        }
        let ok = status.is_some_and(|s| s.success());
        if seen.len() < 3 {
            let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
            errors.push(format!("growth:{}: {} of 3 sizes measured, ended: {ok}, {}", c.index, seen.len(), trunc(&err, 600)));
            c.skipped = true;
            return Ok(());
        }
        if per[2] > 20.0 {
            c.nontrivial(seen[2].2.as_bytes());
        }
        c.count(OPS[k].0, 1);
        c.count("instructions", seen.iter().map(|s| s.1).sum());
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    ctx.errors.extend(errors);
    ctx.require("growth.nontrivial", 40);
}

/// (On top of some instructions, where each takes few.) How much more for each unit of some 64 times as many is still in proportion.
const LIMIT: f64 = 2.0;
