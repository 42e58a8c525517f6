//! A strict reader for XML 1.0 documents of one element tree without DTD.

#[derive(Clone, Debug, PartialEq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<El>,
    /// Character data other than whitespace directly inside.
    pub text: String,
}

impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

fn name_start(c: char) -> bool {
    matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}

fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn parse(s: &str) -> Result<El, String> {
    let mut p = P { s, i: 0 };
    if p.rest().starts_with("<?xml") {
        let e = p.rest().find("?>").ok_or("unterminated XML declaration")?;
        p.i += e + 2;
    }
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if p.i != s.len() {
        return p.err("content after the document element");
    }
    Ok(e)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let near: String = self.rest().chars().take(20).collect();
        Err(format!("{} at byte {} near {:?}", m, self.i, near))
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while let Some(c) = self.peek().filter(|&c| is_ws(c)) {
            self.i += c.len_utf8();
        }
        self.i > s
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if !self.comment()? {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> Result<bool, String> {
        if !self.rest().starts_with("<!--") {
            return Ok(false);
        }
        let body = &self.rest()[4..];
        let e = body.find("--").ok_or("unterminated comment")?;
        if !body[e..].starts_with("-->") {
            return self.err("-- in comment");
        }
        if !body[..e].chars().all(is_char) {
            return self.err("character not allowed");
        }
        self.i += 4 + e + 3;
        Ok(true)
    }
    fn name(&mut self) -> Result<String, String> {
        let s = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += c.len_utf8(),
            _ => return self.err("expected a name"),
        }
        while let Some(c) = self.peek().filter(|&c| name_char(c)) {
            self.i += c.len_utf8();
        }
        Ok(self.s[s..self.i].to_string())
    }
    fn eat(&mut self, t: &str) -> Result<(), String> {
        if self.rest().starts_with(t) {
            self.i += t.len();
            Ok(())
        } else {
            self.err(&format!("expected {:?}", t))
        }
    }
    fn reference(&mut self) -> Result<char, String> {
        self.eat("&")?;
        let e = match self.rest().find(';') {
            Some(e) => e,
            None => return self.err("unterminated reference"),
        };
        let n = &self.rest()[..e];
        let c = match n {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        None
                    } else {
                        u32::from_str_radix(h, 16).ok()
                    }
                } else if let Some(d) = n.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        None
                    } else {
                        d.parse().ok()
                    }
                } else {
                    None
                };
                match v.and_then(char::from_u32).filter(|&c| is_char(c)) {
                    Some(c) => c,
                    None => return self.err("undefined entity or bad character reference"),
                }
            }
        };
        self.i += e + 1;
        Ok(c)
    }
    fn attr_value(&mut self) -> Result<String, String> {
        let q = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err("expected a quoted value"),
        };
        self.i += 1;
        let mut o = String::new();
        loop {
            match self.peek() {
                None => return self.err("unterminated attribute value"),
                Some(c) if c == q => {
                    self.i += 1;
                    return Ok(o);
                }
                Some('<') => return self.err("< in attribute value"),
                Some('&') => o.push(self.reference()?),
                Some(c) if !is_char(c) => return self.err("character not allowed"),
                Some('\r') => {
                    self.i += 1;
                    if self.peek() == Some('\n') {
                        self.i += 1;
                    }
                    o.push(' ');
                }
                Some(c) => {
                    self.i += c.len_utf8();
                    o.push(if is_ws(c) { ' ' } else { c });
                }
            }
        }
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 64 {
            return self.err("too deep");
        }
        self.eat("<")?;
        let mut el = El { name: self.name()?, ..El::default() };
        loop {
            let ws = self.ws();
            if self.rest().starts_with("/>") {
                self.i += 2;
                return Ok(el);
            }
            if self.rest().starts_with('>') {
                self.i += 1;
                break;
            }
            if !ws {
                return self.err("expected white space before an attribute");
            }
            let n = self.name()?;
            self.ws();
            self.eat("=")?;
            self.ws();
            let v = self.attr_value()?;
            if el.attr(&n).is_some() {
                return self.err("duplicate attribute");
            }
            el.attrs.push((n, v));
        }
        loop {
            if self.rest().starts_with("</") {
                self.i += 2;
                let n = self.name()?;
                self.ws();
                self.eat(">")?;
                if n != el.name {
                    return self.err("mismatched end tag");
                }
                return Ok(el);
            }
            if self.comment()? {
                continue;
            }
            match self.peek() {
                None => return self.err("unterminated element"),
                Some('<') => {
                    let c = self.element(depth + 1)?;
                    el.children.push(c);
                }
                Some('&') => {
                    let c = self.reference()?;
                    el.text.push(c);
                }
                Some(c) if !is_char(c) => return self.err("character not allowed"),
                Some(c) => {
                    if self.rest().starts_with("]]>") {
                        return self.err("]]> in text");
                    }
                    self.i += c.len_utf8();
                    if !is_ws(c) {
                        el.text.push(c);
                    }
                }
            }
        }
    }
}
