use super::say;
use crate::prelude::*;
use crate::rng::Rng;
use crate::textgen::*;
use crate::vgen::*;
use crate::Log;
use core::fmt::Write;
use scale_value::stringify::{custom_parsers, from_str, from_str_custom, FromStrBuilder, ParseError, ParseErrorKind};
use scale_value::Value;

fn hexy(r: &mut Rng) -> String {
    let mut s: String = (*r.pick(&["0x", "0x", "0x", "0X", "x", "0"])).into();
    for _ in 0..r.below(20) {
        s.push(*r.pick(&['0', '1', '9', 'a', 'f', 'A', 'F', '7', 'c', 'c', 'b', 'B', '3']));
    }
    if r.chance(1, 3) {
        s.push(*r.pick(&['g', '_', ' ', 'é', ',', '(', 'G', 'x']));
    }
    s
}

fn show(log: &mut Log, got: (Result<Value<()>, ParseError>, &str)) {
    match got.0 {
        Ok(v) => {
            say!(log, "{v:?} left {:?}", got.1);
        }
        Err(e) => {
            say!(log, "{e} {e:?} left {:?}", got.1);
        }
    }
}

fn custom() -> FromStrBuilder {
    from_str_custom().add_custom_parser(custom_parsers::parse_hex).add_custom_parser(|s| {
        let rest = s.strip_prefix("nil")?;
        *s = rest;
        if rest.starts_with('!') {
            return Some(Err(ParseErrorKind::custom("nothing to be surprised at").at(0)));
        }
        Some(Ok(Value::string("nil")))
    })
}

pub fn parse(r: &mut Rng, log: &mut Log) {
    let mut s = String::new();
    match r.below(9) {
        0 | 1 => s = soup(r, 10),
        2 | 3 => s = hexy(r),
        // (which means something only if the parser for that is in use)
        4 => s = crate::ss58ref::address(r).0,
        _ => {
            let o = VOpts { depth: 1 + r.below(4), ..Default::default() };
            loose(&value0(r, &o), r, &mut s);
        }
    }
    for _ in 0..r.below(3) {
        match r.below(4) {
            0 => {
                let k = r.below(s.chars().count() + 1);
                let at = s.char_indices().nth(k).map(|x| x.0).unwrap_or(s.len());
                let x = match r.below(8) {
                    0..=3 => hexy(r),
                    4 => crate::ss58ref::address(r).0,
                    _ => (*r.pick(&["nil", "nil!", "nil "])).into(),
                };
                s.insert_str(at, &x);
            }
            _ => mutate_text(&mut s, r),
        }
    }
    say!(log, "{s:?}");
    show(log, from_str(&s));
    show(log, custom().parse(&s));
    let mut c = s.as_str();
    let got = custom_parsers::parse_hex(&mut c);
    say!(log, "{got:?} left {c:?}");
}

#[cfg(feature = "parser-ss58")]
pub fn ss58(r: &mut Rng, log: &mut Log) {
    let (mut s, _) = crate::ss58ref::address(r);
    if r.chance(1, 4) {
        s = format!("( {s} , {{a:{s}}})");
    }
    if r.bool() {
        s.push_str(*r.pick(&[" ", ",", ")", "(", "{", "é", "_", " (", "1"]));
    }
    if r.chance(1, 3) {
        mutate_text(&mut s, r);
    }
    say!(log, "{s:?}");
    let mut c = s.as_str();
    let got = custom_parsers::parse_ss58(&mut c);
    say!(log, "{got:?} left {c:?}");
    show(log, from_str(&s));
    show(log, from_str_custom().add_custom_parser(custom_parsers::parse_ss58).add_custom_parser(custom_parsers::parse_hex).parse(&s));
}
