//! C14 hex, C15 SS58 addresses.
use super::text::show;
use crate::ss58ref::*;
use crate::refwriter::hex_of;
use crate::runner::*;
use crate::vgen::*;
use crate::Check;
use scale_value::stringify::custom_formatters::format_hex;
use scale_value::stringify::custom_parsers::{parse_hex, parse_ss58, ParseHexError};
use scale_value::stringify::{from_str_custom, to_writer_custom, ParseError, ParseErrorKind};
use scale_value::{Composite, Primitive, Value, ValueDef};

pub fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            run: c14,
            rule: "a case is a text offered to the hex parser, or a value offered to the hex formatter; each is compared with a reference. Non-trivial: the text starts with 0x, or the value is a composite; distinct by text or value",
            mem: false,
            term: true,
        },
        Check {
            id: "C15",
            run: c15,
            rule: "a case is a text offered to the SS58 parser (directly, and nested in other text); compared with a reference decoder (own base58 and BLAKE2b). Non-trivial: the text starts with at least 5 base58 characters; distinct by text",
            mem: false,
            term: true,
        },
    ]
}

pub fn bytes_value(b: &[u8]) -> Value<()> {
    Value { value: ValueDef::Composite(Composite::Unnamed(b.iter().map(|b| Value { value: ValueDef::Primitive(Primitive::U128(*b as u128)), context: () }).collect())), context: () }
}

/// None: declined; otherwise the bytes and how long the text was, or the error.
#[allow(clippy::type_complexity)]
pub fn ref_hex(s: &str) -> Option<Result<(Vec<u8>, usize), ParseError>> {
    let t = s.strip_prefix("0x")?;
    let word: String = t.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    if let Some((k, c)) = word.char_indices().find(|(_, c)| !c.is_ascii_hexdigit()) {
        return Some(Err(ParseError { start_loc: k + 2, end_loc: None, err: ParseErrorKind::Custom(ParseHexError::InvalidChar(c).to_string()) }));
    }
    if word.len() % 2 == 1 {
        return Some(Err(ParseError { start_loc: 0, end_loc: Some(word.len() + 2), err: ParseErrorKind::Custom(ParseHexError::WrongLength.to_string()) }));
    }
    let b = (0..word.len() / 2).map(|k| u8::from_str_radix(&word[2 * k..2 * k + 2], 16).unwrap()).collect();
    Some(Ok((b, word.len() + 2)))
}

fn is_end_of(rest: &str, s: &str) -> bool {
    let off = (rest.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
    off <= s.len() && off + rest.len() == s.len() && s.is_char_boundary(off)
}

fn hex_case(c: &mut Case, s: &str) -> Res {
    c.desc = format!("{s:?}");
    if s.starts_with("0x") {
        c.nontrivial(s);
    }
    let mut cur = s;
    let got = no_panic("parse_hex", || parse_hex(&mut cur))?;
    ensure!(is_end_of(cur, s), "the cursor is left at something which is not the end of the input");
    match (&got, ref_hex(s)) {
        (None, None) => {
            ensure!(cur == s, "declined, but moved to {cur:?}");
            c.count("declined", 1);
        }
        (Some(Err(e)), Some(Err(w))) => {
            ensure!(*e == w, "error {e:?} instead of {w:?}");
            ensure!(cur == s, "failed, but moved to {cur:?}");
            c.count("refused", 1);
        }
        (Some(Ok(v)), Some(Ok((b, n)))) => {
            ensure!(*v == bytes_value(&b), "parsed as {} instead of bytes {b:?}", show(v));
            ensure!(cur == &s[n..], "left {cur:?} instead of {:?}", &s[n..]);
            c.count("parsed", 1);
            if !b.is_empty() {
                let mut o = String::new();
                let r = no_panic("format_hex", || format_hex(v, &mut o))?;
                ensure!(r == Some(Ok(())) && o.eq_ignore_ascii_case(&s[..n]) && o.starts_with("0x") && !o[2..].contains(|c: char| c.is_ascii_lowercase()), "written back as {o:?} ({r:?})");
            }
        }
        (g, w) => return Err(format!("gives {g:?} instead of {w:?}").into()),
    }
    // as a custom parser, in a place of its own
    if c.r.chance(1, 4) {
        let text = format!("(1, {s}, 日)");
        let b = from_str_custom().add_custom_parser(parse_hex);
        let (got, _) = no_panic("parse", || b.parse(&text))?;
        match ref_hex(&text[4..]) {
            Some(Err(w)) => {
                let w = ParseError { start_loc: w.start_loc + 4, end_loc: w.end_loc.map(|e| e + 4), err: w.err };
                ensure!(got.as_ref().err() == Some(&w), "within {text:?}: {got:?} instead of {w:?}");
            }
            Some(Ok((b, n))) if text[4 + n..].starts_with(", 日") => {
                // goes on to fail at the character after it, which only shows where it resumed
                let at = 4 + n + 2;
                ensure!(got.as_ref().err().map(|e| e.start_loc) == Some(at), "within {text:?}: {got:?}, though {b:?} end before {at}");
            }
            _ => {}
        }
    }
    Ok(())
}

fn c14(ctx: &mut Ctx) {
    let n = ctx.n(200_000, 40);
    ctx.section("texts", n, |c| {
        let r = &mut c.r;
        let mut s = match r.below(8) {
            0 => (*r.pick(&["", "0", "0X", "x", " 0x", "00x", "0x0x", "0x", "-0x", "0", "٠x"])).to_string(),
            _ => "0x".to_string(),
        };
        let n = if r.chance(1, 20) { r.below(300) } else { r.below(12) };
        for _ in 0..n {
            if r.chance(14, 15) {
                s.push(*r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F']));
            } else {
                match r.below(4) {
                    0 => s.push(*r.pick(&['g', 'G', 'z', 'x', 'X', '_', '-', '@', '`', '/', ':', '[', '{', ' '])),
                    1 => s.push(char::from_u32(r.below(128) as u32).unwrap()),
                    _ => s.push(gen_char(r)),
                }
            }
        }
        hex_case(c, &s)
    });
    // every pair of ASCII characters, before and after a full byte
    ctx.section("pairs", 2 * 128 * 128, |c| {
        let i = c.index as u32;
        let (a, b) = (char::from_u32(i & 127).unwrap(), char::from_u32((i >> 7) & 127).unwrap());
        let s = if i >> 14 == 0 { format!("0x{a}{b}") } else { format!("0xa9{a}{b}") };
        hex_case(c, &s)
    });
    // every character after hex digits
    let step = if ctx.thorough() { 1 } else { 16 };
    ctx.section("characters", 0x110000 / step, |c| {
        let x = c.index as u32 * step as u32 + c.r.below(step as usize) as u32;
        let Some(ch) = char::from_u32(x) else {
            c.skipped = true;
            return Ok(());
        };
        let digits = *c.r.pick(&["", "0", "f0", "f0E", "0102"]);
        hex_case(c, &format!("0x{digits}{ch}"))
    });
    let n = ctx.n(200_000, 40);
    ctx.section("values", n, |c| {
        let r = &mut c.r;
        let mut v: Value<u32> = if r.bool() {
            gen_value(r, &VOpts { big256: true, ..Default::default() }, 2, &mut |r| r.u64() as u32)
        } else {
            let n = if r.chance(1, 20) { r.below(500) } else { r.below(6) };
            let xs = r.bytes(n).into_iter().map(|b| Value { value: ValueDef::Primitive(Primitive::U128(b as u128)), context: b as u32 }).collect();
            Value { value: ValueDef::Composite(Composite::Unnamed(xs)), context: 7 }
        };
        // one element which may not be a byte
        if r.chance(1, 2) {
            let odd: ValueDef<u32> = match r.below(12) {
                0 => ValueDef::Primitive(Primitive::U128(255)),
                1 => ValueDef::Primitive(Primitive::U128(256)),
                2 => ValueDef::Primitive(Primitive::U128(*r.pick(&[257, 511, 512, 1 << 16, 1 << 32, 1 << 64, u128::MAX, 1 << 127, (1 << 64) + 1]))),
                3 => ValueDef::Primitive(Primitive::I128(-1)),
                4 => ValueDef::Primitive(Primitive::I128(-256)),
                5 => ValueDef::Primitive(Primitive::U128(0)),
                6 => ValueDef::Primitive(Primitive::Char('a')),
                7 => ValueDef::Primitive(Primitive::Bool(true)),
                8 => ValueDef::Composite(Composite::Unnamed(vec![Value { value: ValueDef::Primitive(Primitive::U128(1)), context: 0 }])),
                9 => ValueDef::Primitive(Primitive::U256([0; 32])),
                10 => ValueDef::Primitive(Primitive::String("1".into())),
                _ => ValueDef::BitSequence(crate::model::mk_bits(&[true])),
            };
            if let ValueDef::Composite(Composite::Unnamed(xs)) = &mut v.value {
                let at = r.below(xs.len() + 1);
                xs.insert(at, Value { value: odd, context: 1 });
            }
        }
        if r.chance(1, 10) {
            // names make it something else
            if let ValueDef::Composite(Composite::Unnamed(xs)) = v.value {
                v.value = ValueDef::Composite(Composite::Named(xs.into_iter().map(|x| (gen_ident(r), x)).collect()));
            }
        }
        c.desc = show(&v);
        if matches!(v.value, ValueDef::Composite(_)) {
            c.nontrivial(&c.desc.clone());
        }
        let mut o = "before".to_string();
        let got = no_panic("format_hex", || format_hex(&v, &mut o))?;
        match hex_of(&v) {
            None => {
                ensure!(got.is_none(), "accepted: {got:?}, {o:?}");
                ensure!(o == "before", "declined, but wrote {o:?}");
                c.count("declined", 1);
            }
            Some(w) => {
                ensure!(got == Some(Ok(())) && o == format!("before{w}"), "gives {got:?} and {o:?} instead of {w:?}");
                let mut cur = &o[6..];
                let back = no_panic("parse_hex", || parse_hex(&mut cur))?;
                ensure!(back == Some(Ok(strip(&v))) && cur.is_empty(), "parses back to {back:?}");
                c.count("written", 1);
                // by way of the builders
                if c.r.chance(1, 4) {
                    let outer = Value::named_composite([("a", strip(&v)), ("日", strip(&v))]);
                    let mut s = String::new();
                    to_writer_custom().add_custom_formatter(|v, w: &mut &mut String| format_hex(v, w)).write(&outer, &mut s).map_err(|_| Fail::from("write failed"))?;
                    ensure!(s == format!("{{ a: {w}, 日: {w} }}"), "within a composite: {s:?}");
                    let (back, rest) = from_str_custom().add_custom_parser(parse_hex).parse(&s);
                    ensure!(back.as_ref() == Ok(&outer) && rest.is_empty(), "{s:?} parses to {back:?}");
                }
            }
        }
        Ok(())
    });
    // long ones
    let n = ctx.n(300, 20);
    ctx.section("long", n, |c| {
        let r = &mut c.r;
        let n = crate::dict::length_to(r, 150_000);
        let mut b = r.bytes(n);
        let mut s: String = "0x".into();
        let lower = r.bool();
        for x in &b {
            s.push_str(&if lower { format!("{x:02x}") } else { format!("{x:02X}") });
        }
        let at = 2 + r.below(s.len() - 1);
        match r.below(6) {
            0 => s.insert(at, *r.pick(&['0', 'f', 'g', 'z', '_', ' '])),
            1 => s.truncate(at),
            2 => s.push_str(*r.pick(&["g", "F", "Z9", " ", ",1", "é"])),
            _ => {}
        }
        let odd = r.below(6);
        hex_case(c, &s)?;
        let r = &mut c.r;
        let mut v = bytes_value(&b);
        if odd == 0 && n > 0 {
            let at = r.below(n);
            let ValueDef::Composite(Composite::Unnamed(x)) = &mut v.value else { unreachable!() };
            x[at].value = ValueDef::Primitive(Primitive::U128(*r.pick(&[256, 1 << 64])));
            b.clear();
        }
        let mut o = String::new();
        let got = no_panic("format_hex", || format_hex(&v, &mut o))?;
        let want = hex_of(&v);
        ensure!(got == want.is_some().then_some(Ok(())) && o == want.clone().unwrap_or_default(), "{n} bytes: gives {got:?} and {} characters instead of {:?}", o.len(), want.map(|w| w.len()));
        c.desc = format!("{n} bytes");
        c.count("bytes", n as u64);
        Ok(())
    });
    ctx.require("texts.parsed", 5000);
    ctx.require("texts.refused", 5000);
    ctx.require("texts.declined", 1000);
    ctx.require("values.written", 5000);
    ctx.require("values.declined", 5000);
}

// ------------------------------------------------------------------------------ C15

fn ss_case(c: &mut Case, s: &str) -> Res {
    c.desc = format!("{s:?}");
    if s.bytes().take_while(|b| B58.contains(b)).count() >= 5 {
        c.nontrivial(s);
    }
    let mut cur = s;
    let got = no_panic("parse_ss58", || parse_ss58(&mut cur))?;
    ensure!(is_end_of(cur, s), "the cursor is left at something which is not the end of the input");
    match (&got, ref_ss58(s)) {
        (None, None) => {
            ensure!(cur == s, "declined, but moved to {cur:?}");
            c.count("declined", 1);
        }
        // more than the base58 library can decode
        (None, Some((b, _))) if b.len() + 4 > 128 => {
            ensure!(cur == s, "declined, but moved to {cur:?}");
            c.count("beyond_the_library", 1);
        }
        (Some(Ok(v)), Some((b, n))) => {
            ensure!(*v == bytes_value(&b), "parsed as {} instead of bytes {b:?}", show(v));
            ensure!(cur == &s[n..], "left {cur:?} instead of {:?}", &s[n..]);
            c.count("parsed", 1);
            if c.r.chance(1, 4) {
                let inner = &s[..n];
                let text = format!("Foo {{ 日: ({inner} ,{inner}), b: {inner}}}");
                let builder = from_str_custom().add_custom_parser(parse_ss58);
                let (got, rest) = no_panic("parse", || builder.parse(&text))?;
                let w = bytes_value(&b);
                let want = Value::named_variant("Foo", [("日", Value::unnamed_composite([w.clone(), w.clone()])), ("b", w)]);
                ensure!(got.as_ref() == Ok(&want) && rest.is_empty(), "{text:?} parses to {got:?}, leaving {rest:?}");
                c.count("nested", 1);
            }
        }
        (g, w) => return Err(format!("gives {g:?} instead of {w:?}").into()),
    }
    Ok(())
}

const AFTER: [&str; 30] = ["", " ", ",", ")", "}", " }", ",1,2", "-100", "_", ".", "é", "日本", "\u{2003}", "\n", "\u{301}", "²", "(", "{", " (", "\n\t {", "\u{a0}(", "\u{3000}{", " x(", ",(", ")(", " : (", "<01>", "\"", "\0", "  ,{"];

fn c15(ctx: &mut Ctx) {
    // the reference itself, against published vectors
    ctx.section("reference", 1, |c| {
        c.desc = "known answers".into();
        let h = blake2b(b"abc");
        if h[..8] != [0xba, 0x80, 0xa5, 0x3f, 0x98, 0x1c, 0x4d, 0x0d] || h[63] != 0x23 {
            panic!("reference BLAKE2b is wrong");
        }
        let a = ref_ss58("5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY ");
        if a.as_ref().map(|a| (a.0.len(), a.0[0], a.0[31], a.1)) != Some((32, 0xd4, 0x7d, 48)) {
            panic!("reference SS58 is wrong");
        }
        Ok(())
    });
    let n = ctx.n(60_000, 40);
    ctx.section("addresses", n, |c| {
        let (mut a, acc) = address(&mut c.r);
        let plain = a.clone();
        a.push_str(AFTER[c.r.below(AFTER.len())]);
        ss_case(c, &a)?;
        // the address alone must parse, unless it looks like something else
        if acc.len() + 4 <= 128 && !plain.bytes().all(|b| b.is_ascii_digit()) && plain != "true" && plain != "false" {
            let mut cur = &plain[..];
            let got = parse_ss58(&mut cur);
            ensure!(got == Some(Ok(bytes_value(&acc))) && cur.is_empty(), "the address {plain:?} alone gives {got:?}");
        }
        Ok(())
    });
    let n = ctx.n(400, 20);
    ctx.section("long", n, |c| {
        let n = if c.r.bool() { c.r.range(60, 140) } else { crate::dict::length_to(&mut c.r, 3000) };
        let (mut a, acc) = address_of(&mut c.r, n);
        c.desc = format!("{a:?}");
        let mut cur = &a[..];
        let got = no_panic("parse_ss58", || parse_ss58(&mut cur))?;
        ensure!(got == Some(Ok(bytes_value(&acc))) && cur.is_empty() || n + 4 > 128 && got.is_none() && cur == a, "the address {a:?} of {n} bytes alone gives {got:?}");
        match c.r.below(8) {
            0 | 1 => {
                let at = c.r.below(a.len());
                a.insert(at, B58[c.r.below(58)] as char);
            }
            // leading zeros
            2 => a = "1".repeat(crate::dict::length_to(&mut c.r, 300)) + &a,
            3 => {
                let (few, _) = address(&mut c.r);
                a = "1".repeat(c.r.range(100, 150)) + &few;
            }
            4 => a = "1".repeat(c.r.long(5000)) + &*c.r.pick(&["2", "z", "a1", "1o0"]),
            _ => {}
        }
        a.push_str(AFTER[c.r.below(AFTER.len())]);
        ss_case(c, &a)
    });
    let n = ctx.n(120_000, 40);
    ctx.section("corrupted", n, |c| {
        let r = &mut c.r;
        let (a, _) = address(r);
        let mut s: Vec<u8> = a.into_bytes();
        for _ in 0..r.range(1, 2) {
            if s.is_empty() {
                break;
            }
            let at = r.below(s.len());
            match r.below(6) {
                0..=2 => s[at] = B58[r.below(58)],
                3 => {
                    s.remove(at);
                }
                4 => s.insert(at, B58[r.below(58)]),
                _ => s[at] = *r.pick(b"0OIl_ -(\0"),
            }
        }
        let mut s = String::from_utf8(s).unwrap();
        s.push_str(AFTER[r.below(AFTER.len())]);
        ss_case(c, &s)
    });
    // right checksum, but not right otherwise; or a checksum nearly right
    let n = ctx.n(60_000, 40);
    ctx.section("made_up", n, |c| {
        let r = &mut c.r;
        let n = r.below(40);
        let mut b = r.bytes(n);
        match r.below(4) {
            0 => b.extend(checksum(&b)),
            1 => {
                let mut s = checksum(&b);
                s[r.below(2)] ^= 1 << r.below(8);
                b.extend(s);
            }
            2 => {
                // of the account alone, of everything, swapped
                let s = match r.below(3) {
                    0 => checksum(&b[b.len().min(1)..]),
                    1 => {
                        let h = blake2b(&b);
                        [h[0], h[1]]
                    }
                    _ => {
                        let s = checksum(&b);
                        [s[1], s[0]]
                    }
                };
                b.extend(s);
            }
            _ => {
                let s = checksum(&b);
                b.push(s[0]);
                if r.bool() {
                    b.push(s[1]);
                    b.push(s[1]);
                }
            }
        }
        let mut s = base58(&b);
        s.push_str(AFTER[r.below(AFTER.len())]);
        ss_case(c, &s)
    });
    let n = ctx.n(60_000, 40);
    ctx.section("other_text", n, |c| {
        let r = &mut c.r;
        let mut s = match r.below(4) {
            0 => gen_ident(r),
            1 => crate::textgen::soup(r, 4),
            2 => {
                let n = r.below(12);
                (0..n).map(|_| B58[r.below(58)] as char).collect()
            }
            _ => {
                let n = r.below(60);
                (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
            }
        };
        s.push_str(AFTER[r.below(AFTER.len())]);
        ss_case(c, &s)?;
        // it must not get in the way of anything: what it declines parses as it does without it
        let b = from_str_custom().add_custom_parser(parse_ss58);
        if ref_ss58(&s).is_none() && !s.contains(|c| matches!(c, '(' | '{' | ',')) {
            let (got, rest) = no_panic("parse", || b.parse(&s))?;
            let (want, wrest) = scale_value::stringify::from_str(&s);
            ensure!(got == want && rest == wrest, "{s:?} parses to {got:?} with the custom parser and {want:?} without");
        }
        Ok(())
    });
    // all words of up to three characters
    ctx.section("short", 58 + 58 * 58 + 58 * 58 * 58, |c| {
        let mut i = c.index as usize;
        let mut s = String::new();
        let mut k = 58;
        let mut l = 1;
        while i >= k {
            i -= k;
            k *= 58;
            l += 1;
        }
        for _ in 0..l {
            s.push(B58[i % 58] as char);
            i /= 58;
        }
        ss_case(c, &s)
    });
    // numbers that would be addresses (one in 65536 has the right checksum)
    let max = if ctx.thorough() { 7 } else { 6 };
    ctx.section("numbers", 81, |c| {
        let first = [b'1' + (c.index / 9) as u8, b'1' + (c.index % 9) as u8];
        c.desc = format!("numbers of up to {max} digits that begin with {}", String::from_utf8_lossy(&first));
        for l in 2..=max - 2 {
            for k in 0..9u32.pow(l as u32) {
                let mut s = first.to_vec();
                let mut k = k;
                for _ in 0..l {
                    s.push(b'1' + (k % 9) as u8);
                    k /= 9;
                }
                let s = String::from_utf8(s).unwrap();
                let b = unbase58(&s).unwrap();
                let prefix = 1 + (b[0] / 64) as usize;
                if prefix < 3 && b.len() >= prefix + 2 && checksum(&b[..b.len() - 2]) == b[b.len() - 2..] {
                    c.count("numbers with a valid checksum", 1);
                    c.nontrivial(s.as_bytes());
                    ss_case(c, &s)?;
                    ss_case(c, &(s + ")"))?;
                }
            }
        }
        Ok(())
    });
    ctx.require("numbers.numbers with a valid checksum", 3);
    ctx.require("addresses.parsed", 5000);
    ctx.require("addresses.nested", 1000);
    ctx.require("corrupted.declined", 5000);
}
