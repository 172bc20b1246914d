//! Independent reference parser of the text syntax: a plain recursive descent over the characters.
use scale_value::stringify::*;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

pub type PErr = ParseError;
/// Given the text left: decline, or give a value and how many bytes it took, or an error (located
/// relative to that text).
pub type Custom<'a> = dyn FnMut(&str) -> Option<Result<(Value<()>, usize), PErr>> + 'a;

pub struct RefParser<'s, 'c> {
    pub s: &'s str,
    pub pos: usize,
    pub custom: Option<&'c mut Custom<'c>>,
}

fn err(kind: impl Into<ParseErrorKind>, start: usize, end: Option<usize>) -> PErr {
    ParseError {
        start_loc: start,
        end_loc: end,
        err: kind.into(),
    }
}

pub fn escape(c: char) -> Option<char> {
    Some(match c {
        'n' => '\n',
        't' => '\t',
        '"' | '\'' | '\\' => c,
        'r' => '\r',
        '0' => '\0',
        _ => return None,
    })
}

/// What the standard library says about a number which is too large or small.
fn overflow(positive: bool) -> ParseNumberError {
    ParseNumberError::ParsingFailed(if positive {
        "256".parse::<u8>().unwrap_err()
    } else {
        "-129".parse::<i8>().unwrap_err()
    })
}

impl<'s, 'c> RefParser<'s, 'c> {
    pub fn new(s: &'s str) -> Self {
        RefParser {
            s,
            pos: 0,
            custom: None,
        }
    }
    fn peek(&self) -> Option<char> {
        self.s[self.pos..].chars().next()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.pos += c.len_utf8();
        Some(c)
    }
    fn eat(&mut self, c: char) -> bool {
        let hit = self.peek() == Some(c);
        if hit {
            self.pos += c.len_utf8();
        }
        hit
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(|c| c.is_whitespace()) {
            self.next();
        }
    }
    fn ident(&mut self) -> Option<String> {
        let start = self.pos;
        if !self.peek()?.is_alphabetic() {
            return None;
        }
        while self.peek().is_some_and(|c| c.is_alphanumeric() || c == '_') {
            self.next();
        }
        Some(self.s[start..self.pos].to_string())
    }

    pub fn value(&mut self) -> Result<Value<()>, PErr> {
        let def = {
            let at = self.pos;
            if let Some(f) = &mut self.custom {
                match f(&self.s[at..]) {
                    Some(Ok((v, n))) => {
                        self.pos += n;
                        return Ok(v);
                    }
                    Some(Err(e)) => {
                        return Err(ParseError {
                            start_loc: e.start_loc + at,
                            end_loc: e.end_loc.map(|l| l + at),
                            err: e.err,
                        });
                    }
                    None => {}
                }
            }
            self.def()?
        };
        Ok(Value {
            value: def,
            context: (),
        })
    }

    fn def(&mut self) -> Result<ValueDef<()>, PErr> {
        let start = self.pos;
        match self.peek() {
            Some('\'') => return Ok(ValueDef::Primitive(Primitive::Char(self.character()?))),
            Some('"') => return Ok(ValueDef::Primitive(Primitive::String(self.string()?))),
            Some('{') | Some('(') => return Ok(ValueDef::Composite(self.composite()?)),
            Some('<') => return self.bits(),
            Some(c) if c == '+' || c == '-' || c.is_ascii_digit() => {
                return Ok(ValueDef::Primitive(self.number()?))
            }
            _ => {}
        }
        // a variant?
        let name = match self.peek() {
            Some('v') if self.s[start + 1..].starts_with('"') => {
                self.pos += 1;
                match self.string() {
                    Ok(s) => Some(s),
                    Err(_) => None,
                }
            }
            _ => self.ident(),
        };
        if let Some(name) = name {
            self.ws();
            if matches!(self.peek(), Some('{') | Some('(')) {
                let values = self.composite()?;
                return Ok(ValueDef::Variant(Variant { name, values }));
            }
        }
        self.pos = start;
        for (text, b) in [("true", true), ("false", false)] {
            if self.s[start..].starts_with(text) {
                self.pos += text.len();
                return Ok(ValueDef::Primitive(Primitive::Bool(b)));
            }
        }
        Err(err(ParseErrorKind::ExpectedValue, start, None))
    }

    fn character(&mut self) -> Result<char, PErr> {
        let start = self.pos;
        self.next();
        let mut c = match self.next() {
            None => {
                return Err(err(
                    ParseCharError::ExpectedValidCharacter,
                    self.pos,
                    Some(self.pos + 1),
                ))
            }
            Some(c) => c,
        };
        if c == '\\' {
            let at = self.pos;
            c = match self.next().and_then(escape) {
                Some(c) => c,
                None => {
                    return Err(err(
                        ParseCharError::ExpectedValidEscapeCode,
                        at,
                        Some(at + 1),
                    ))
                }
            };
        }
        if !self.eat('\'') {
            return Err(err(
                ParseCharError::ExpectedClosingQuoteToMatch(start),
                self.pos,
                Some(self.pos + 1),
            ));
        }
        Ok(c)
    }

    fn string(&mut self) -> Result<String, PErr> {
        let start = self.pos;
        self.next();
        let mut o = String::new();
        loop {
            match self.next() {
                Some('"') => return Ok(o),
                Some('\\') => {
                    let at = self.pos;
                    match self.next() {
                        Some(c) => match escape(c) {
                            Some(c) => o.push(c),
                            None => {
                                return Err(err(
                                    ParseStringError::ExpectedValidEscapeCode,
                                    at,
                                    Some(at + 1),
                                ))
                            }
                        },
                        None => break,
                    }
                }
                Some(c) => o.push(c),
                None => break,
            }
        }
        Err(err(
            ParseStringError::ExpectedClosingQuoteToMatch(start),
            self.pos,
            Some(self.pos + 1),
        ))
    }

    fn number(&mut self) -> Result<Primitive, PErr> {
        let start = self.pos;
        let negative = match self.peek() {
            Some('-') => {
                self.pos += 1;
                true
            }
            Some('+') => {
                self.pos += 1;
                false
            }
            _ => false,
        };
        if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
            return Err(err(
                ParseNumberError::ExpectedDigit,
                self.pos,
                Some(self.pos + 1),
            ));
        }
        let mut n = Some(0u128);
        while let Some(c) = self.peek() {
            if let Some(d) = c.to_digit(10).filter(|_| c.is_ascii_digit()) {
                n = n
                    .and_then(|n| n.checked_mul(10))
                    .and_then(|n| n.checked_add(d as u128));
            } else if c != '_' {
                break;
            }
            self.pos += 1;
        }
        let out = match (negative, n) {
            (false, Some(n)) => Some(Primitive::U128(n)),
            (true, Some(n)) if n <= 1 << 127 => Some(Primitive::I128((n as i128).wrapping_neg())),
            _ => None,
        };
        out.ok_or_else(|| err(overflow(!negative), start, Some(self.pos)))
    }

    fn bits(&mut self) -> Result<ValueDef<()>, PErr> {
        let start = self.pos;
        self.next();
        let mut b = vec![];
        while let Some(c @ ('0' | '1')) = self.peek() {
            b.push(c == '1');
            self.pos += 1;
        }
        if !self.eat('>') {
            return Err(err(
                ParseBitSequenceError::ExpectedClosingBracketToMatch(start),
                self.pos,
                Some(self.pos + 1),
            ));
        }
        Ok(ValueDef::BitSequence(crate::model::mk_bits(&b)))
    }

    fn composite(&mut self) -> Result<Composite<()>, PErr> {
        let start = self.pos;
        let named = self.next() == Some('{');
        let close = if named { '}' } else { ')' };
        let (mut names, mut values) = (vec![], vec![]);
        self.ws();
        if !self.eat(close) {
            loop {
                if named {
                    let name = if self.peek() == Some('"') {
                        self.string()?
                    } else {
                        let at = self.pos;
                        match self.ident() {
                            Some(n) => n,
                            None => {
                                return Err(err(
                                    ParseComplexError::InvalidStartingCharacterInIdent,
                                    at,
                                    Some(at + 1),
                                ))
                            }
                        }
                    };
                    self.ws();
                    if !self.eat(':') {
                        return Err(err(
                            ParseComplexError::MissingFieldSeparator(':'),
                            self.pos,
                            Some(self.pos + 1),
                        ));
                    }
                    self.ws();
                    names.push(name);
                }
                values.push(self.value()?);
                self.ws();
                if self.eat(',') {
                    self.ws();
                    continue;
                }
                if self.eat(close) {
                    break;
                }
                return Err(err(
                    ParseComplexError::ExpectedCloserToMatch(close, start),
                    self.pos,
                    Some(self.pos + 1),
                ));
            }
        }
        Ok(if named {
            Composite::Named(names.into_iter().zip(values).collect())
        } else {
            Composite::Unnamed(values)
        })
    }
}

/// Parse some text: the value and how many bytes it took.
pub fn parse(s: &str) -> Result<(Value<()>, usize), PErr> {
    let mut p = RefParser::new(s);
    let v = p.value()?;
    Ok((v, p.pos))
}
