//! Independent reference for writing values as text.
#[allow(unused_imports)]
use crate::prelude::*;
use crate::model::unbits;
use scale_value::{Composite, Primitive, Value, ValueDef};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Compact,
    Normal,
    Pretty,
}

pub type Fmt<'a, T> = Box<dyn Fn(&Value<T>) -> Option<String> + 'a>;
pub type CtxFmt<'a, T> = Box<dyn Fn(&T) -> String + 'a>;

pub struct RefWriter<'a, T> {
    pub style: Style,
    pub indent: String,
    pub leading: String,
    pub ctx: Option<CtxFmt<'a, T>>,
    pub custom: Vec<Fmt<'a, T>>,
}

pub fn is_ident(s: &str) -> bool {
    let mut it = s.chars();
    matches!(it.next(), Some(c) if c.is_alphabetic()) && it.all(|c| c.is_alphanumeric() || c == '_')
}

pub fn quoted(s: &str, q: char) -> String {
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        let e = match c {
            '\n' => "\\n",
            '\t' => "\\t",
            '"' => "\\\"",
            '\'' => "\\'",
            '\r' => "\\r",
            '\\' => "\\\\",
            '\0' => "\\0",
            c => {
                o.push(c);
                continue;
            }
        };
        o.push_str(e);
    }
    o.push(q);
    o
}

pub fn hex_of<T>(v: &Value<T>) -> Option<String> {
    let ValueDef::Composite(Composite::Unnamed(xs)) = &v.value else {
        return None;
    };
    if xs.is_empty() {
        return None;
    }
    let mut o = "0x".to_string();
    for x in xs {
        match &x.value {
            ValueDef::Primitive(Primitive::U128(n)) if *n <= 255 => {
                o.push_str(&format!("{:02X}", n))
            }
            _ => return None,
        }
    }
    Some(o)
}

impl<'a, T> RefWriter<'a, T> {
    pub fn new(style: Style) -> Self {
        RefWriter {
            style,
            indent: "  ".into(),
            leading: "".into(),
            ctx: None,
            custom: vec![],
        }
    }
    /// The text, or None if there is none (256-bit numbers), together with all that comes before
    /// the place where there is none.
    pub fn text(&self, v: &Value<T>) -> Result<String, String> {
        let mut o = String::new();
        if self.value(v, 0, &mut o) {
            Ok(o)
        } else {
            Err(o)
        }
    }
    pub fn text_def(&self, v: &ValueDef<T>) -> Result<String, String> {
        let mut o = String::new();
        if self.def(v, 0, &mut o) {
            Ok(o)
        } else {
            Err(o)
        }
    }
    fn value(&self, v: &Value<T>, depth: usize, o: &mut String) -> bool {
        if let Some(c) = &self.ctx {
            o.push('<');
            o.push_str(&c(&v.context));
            o.push_str("> ");
        }
        for c in &self.custom {
            if let Some(s) = c(v) {
                o.push_str(&s);
                return true;
            }
        }
        self.def(&v.value, depth, o)
    }
    fn def(&self, v: &ValueDef<T>, depth: usize, o: &mut String) -> bool {
        match v {
            ValueDef::Primitive(p) => match p {
                Primitive::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
                Primitive::Char(c) => o.push_str(&quoted(&c.to_string(), '\'')),
                Primitive::String(s) => o.push_str(&quoted(s, '"')),
                Primitive::U128(n) => o.push_str(&n.to_string()),
                Primitive::I128(n) => o.push_str(&n.to_string()),
                Primitive::U256(_) | Primitive::I256(_) => return false,
            },
            ValueDef::BitSequence(b) => {
                o.push('<');
                for x in unbits(b) {
                    o.push(if x { '1' } else { '0' });
                }
                o.push('>');
            }
            ValueDef::Composite(c) => return self.composite(c, depth, o),
            ValueDef::Variant(x) => {
                if is_ident(&x.name) {
                    o.push_str(&x.name);
                } else {
                    o.push('v');
                    o.push_str(&quoted(&x.name, '"'));
                }
                if self.style != Style::Compact {
                    o.push(' ');
                }
                return self.composite(&x.values, depth, o);
            }
        }
        true
    }
    fn line(&self, depth: usize, o: &mut String) {
        o.push('\n');
        o.push_str(&self.leading);
        o.push_str(&self.indent.repeat(depth));
    }
    pub fn composite(&self, c: &Composite<T>, depth: usize, o: &mut String) -> bool {
        let (items, open, close): (Vec<(Option<&String>, &Value<T>)>, _, _) = match c {
            Composite::Named(x) => (x.iter().map(|(n, v)| (Some(n), v)).collect(), '{', '}'),
            Composite::Unnamed(x) => (x.iter().map(|v| (None, v)).collect(), '(', ')'),
        };
        o.push(open);
        let n = items.len();
        for (k, (name, v)) in items.into_iter().enumerate() {
            match self.style {
                Style::Pretty => self.line(depth + 1, o),
                Style::Normal if k > 0 || name.is_some() => o.push(' '),
                _ => {}
            }
            if let Some(name) = name {
                o.push_str(&if is_ident(name) {
                    name.clone()
                } else {
                    quoted(name, '"')
                });
                o.push(':');
                if self.style != Style::Compact {
                    o.push(' ');
                }
            }
            if !self.value(v, depth + 1, o) {
                return false;
            }
            if k + 1 < n {
                o.push(',');
            } else {
                match self.style {
                    Style::Pretty => self.line(depth, o),
                    Style::Normal if name.is_some() => o.push(' '),
                    _ => {}
                }
            }
        }
        o.push(close);
        true
    }
}
