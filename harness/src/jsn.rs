//! A strict JSON reader (RFC 8259) and a small writer.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// The number as written.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn n(v: impl std::fmt::Display) -> J {
        J::Num(v.to_string())
    }
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Num(s) => s.parse().ok(),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn write(&self) -> String {
        let mut o = String::new();
        self.put(&mut o);
        o
    }
    fn put(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => quote(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.put(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    x.put(o);
                }
                o.push('}');
            }
        }
    }
}

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), s, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return p.err("trailing characters");
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
    depth: usize,
}

impl P<'_> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{} at byte {}", m, self.i))
    }
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c as char))
        }
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 64 {
            return self.err("too deep");
        }
        let r = match self.b.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(b':')?;
                        self.ws();
                        let x = self.value()?;
                        if v.iter().any(|(n, _)| *n == k) {
                            return self.err("duplicate member");
                        }
                        v.push((k, x));
                        self.ws();
                        if self.b.get(self.i) == Some(&b',') {
                            self.i += 1;
                            continue;
                        }
                        self.eat(b'}')?;
                        break;
                    }
                }
                Ok(J::Obj(v))
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        if self.b.get(self.i) == Some(&b',') {
                            self.i += 1;
                            continue;
                        }
                        self.eat(b']')?;
                        break;
                    }
                }
                Ok(J::Arr(v))
            }
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'n') => self.word("null", J::Null),
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => self.err("expected a value"),
        };
        self.depth -= 1;
        r
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while matches!(self.b.get(self.i), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        self.i - s
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.i;
        if self.b[self.i] == b'-' {
            self.i += 1;
        }
        let z = self.b.get(self.i) == Some(&b'0');
        let n = self.digits();
        if n == 0 || (z && n > 1) {
            return self.err("bad number");
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            if self.digits() == 0 {
                return self.err("bad fraction");
            }
        }
        if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if self.digits() == 0 {
                return self.err("bad exponent");
            }
        }
        Ok(J::Num(self.s[s..self.i].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("bad \\u escape")?;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return self.err("bad \\u escape");
        }
        self.i += 4;
        Ok(u32::from_str_radix(h, 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut o = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() {
                Some(c) => c,
                None => return self.err("unterminated string"),
            };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                c if (c as u32) < 0x20 => return self.err("control character in string"),
                '\\' => {
                    let e = self.b.get(self.i).copied().ok_or("bad escape")?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e as char),
                        b'b' => o.push('\u{8}'),
                        b'f' => o.push('\u{c}'),
                        b'n' => o.push('\n'),
                        b'r' => o.push('\r'),
                        b't' => o.push('\t'),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xD800..0xDC00).contains(&u) {
                                if !self.b[self.i..].starts_with(b"\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return self.err("lone surrogate");
                                }
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                            }
                            match char::from_u32(u) {
                                Some(c) => o.push(c),
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                c => o.push(c),
            }
        }
    }
}
