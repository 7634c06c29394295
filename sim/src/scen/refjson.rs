//! Independent strict JSON reader (RFC 8259) and its mapping to typed values.
use super::gen::{Ty, Val, P};
use cathlamet::core::value::PrimitiveValue as V;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct R<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}

type Res<T> = Result<T, String>;

impl<'a> R<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Res<T> {
        Err(format!("{} at byte {}", m, self.i))
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self, w: &str, j: J) -> Res<J> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(j)
        } else {
            self.err("invalid literal")
        }
    }
    fn hex4(&mut self) -> Res<u32> {
        let h = match self.s.get(self.i..self.i + 4) {
            Some(h) if h.bytes().all(|c| c.is_ascii_hexdigit()) => h,
            _ => return self.err("invalid \\u escape"),
        };
        self.i += 4;
        Ok(u32::from_str_radix(h, 16).unwrap())
    }
    fn string(&mut self) -> Res<String> {
        let mut out = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() {
                None => return self.err("string is not ended"),
                Some(c) => c,
            };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                c if (c as u32) < 0x20 => return self.err("control character in a string"),
                '\\' => {
                    let e = match self.s[self.i..].chars().next() {
                        None => return self.err("string is not ended"),
                        Some(e) => e,
                    };
                    self.i += e.len_utf8();
                    out.push(match e {
                        '"' => '"',
                        '\\' => '\\',
                        '/' => '/',
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if !(self.eat(b'\\') && self.eat(b'u')) {
                                    return self.err("half of a surrogate pair");
                                }
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return self.err("half of a surrogate pair");
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            match char::from_u32(u) {
                                Some(c) => c,
                                None => return self.err("half of a surrogate pair"),
                            }
                        }
                        _ => return self.err("invalid escape"),
                    });
                }
                c => out.push(c),
            }
        }
    }
    fn digits(&mut self) -> Res<()> {
        let from = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        if self.i == from {
            return self.err("digit expected");
        }
        Ok(())
    }
    fn number(&mut self) -> Res<J> {
        let from = self.i;
        self.eat(b'-');
        if !self.eat(b'0') {
            self.digits()?;
        }
        if self.eat(b'.') {
            self.digits()?;
        }
        if self.eat(b'e') || self.eat(b'E') {
            if !self.eat(b'+') {
                self.eat(b'-');
            }
            self.digits()?;
        }
        Ok(J::Num(self.s[from..self.i].to_string()))
    }
    fn value(&mut self) -> Res<J> {
        self.ws();
        match self.b.get(self.i) {
            None => self.err("value expected"),
            Some(b'n') => self.word("null", J::Null),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'"') => {
                self.i += 1;
                Ok(J::Str(self.string()?))
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat(b']') {
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.eat(b']') {
                        return Ok(J::Arr(v));
                    }
                    if !self.eat(b',') {
                        return self.err("',' expected");
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v: Vec<(String, J)> = Vec::new();
                self.ws();
                if self.eat(b'}') {
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if !self.eat(b'"') {
                        return self.err("label expected");
                    }
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(b':') {
                        return self.err("':' expected");
                    }
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if self.eat(b'}') {
                        return Ok(J::Obj(v));
                    }
                    if !self.eat(b',') {
                        return self.err("',' expected");
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            Some(_) => self.err("value expected"),
        }
    }
}

pub fn parse(s: &str) -> Res<J> {
    let mut r = R { b: s.as_bytes(), s, i: 0 };
    let j = r.value()?;
    r.ws();
    if r.i != s.len() {
        return r.err("more behind the end of the document");
    }
    Ok(j)
}

/// The value of type `t` that a document spells out.
pub fn typed(j: &J, t: &Ty) -> Res<Val> {
    Ok(match (t, j) {
        (Ty::Unit, J::Null) => Val::Unit,
        (Ty::Str, J::Str(s)) => Val::Str(s.clone()),
        (Ty::Prim(P::Bool), J::Bool(b)) => Val::Prim(V::Bool(*b)),
        (Ty::Prim(P::Char), J::Str(s)) => {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Val::Prim(V::Char(c)),
                _ => return Err("not one character".into()),
            }
        }
        // numbers may be quoted
        (Ty::Prim(p), J::Num(n) | J::Str(n)) => {
            fn num<T: std::str::FromStr>(n: &str) -> Res<T> {
                n.parse::<T>().map_err(|_| format!("{} is not a number of the type", n))
            }
            Val::Prim(match p {
                P::U8 => V::U8(num(n)?),
                P::U16 => V::U16(num(n)?),
                P::U32 => V::U32(num(n)?),
                P::U64 => V::U64(num(n)?),
                P::U128 => V::U128(num(n)?),
                P::I8 => V::I8(num(n)?),
                P::I16 => V::I16(num(n)?),
                P::I32 => V::I32(num(n)?),
                P::I64 => V::I64(num(n)?),
                P::I128 => V::I128(num(n)?),
                P::F32 => V::F32(num(n)?),
                P::F64 => V::F64(num(n)?),
                _ => return Err("not of the type".into()),
            })
        }
        (Ty::Tuple(c), J::Arr(v)) => {
            if c.len() != v.len() {
                return Err(format!("{} components instead of {}", v.len(), c.len()));
            }
            Val::Seq(c.iter().zip(v).map(|(t, j)| typed(j, t)).collect::<Res<_>>()?)
        }
        (Ty::Struct(f), J::Obj(v)) => {
            if f.len() != v.len() {
                return Err(format!("{} fields instead of {}", v.len(), f.len()));
            }
            let mut out = Vec::new();
            for (l, t) in f {
                let m: Vec<&J> = v.iter().filter(|x| x.0 == *l).map(|x| &x.1).collect();
                if m.len() != 1 {
                    return Err(format!("{} values for field {:?}", m.len(), l));
                }
                out.push(typed(m[0], t)?);
            }
            Val::Seq(out)
        }
        (Ty::Enum(f), J::Obj(v)) => {
            let get = |l: &str| v.iter().find(|x| x.0 == l).map(|x| &x.1);
            match (v.len(), get("kind"), get("value")) {
                (2, Some(J::Str(k)), Some(j)) => match f.iter().position(|c| c.0 == *k) {
                    Some(i) => Val::Enum(i, Box::new(typed(j, &f[i].1)?)),
                    None => return Err(format!("no case {:?}", k)),
                },
                _ => return Err("not kind and value".into()),
            }
        }
        _ => return Err("not of the type".into()),
    })
}
