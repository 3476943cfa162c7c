//! A small JSON reader (numbers by the correctly rounded std parser) and writer helpers.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        if let J::Num(x) = self {
            Some(*x)
        } else {
            None
        }
    }
    pub fn str(&self) -> Option<&str> {
        if let J::Str(x) = self {
            Some(x)
        } else {
            None
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        if let J::Arr(x) = self {
            Some(x)
        } else {
            None
        }
    }
}
struct R<'a> {
    b: &'a [u8],
    i: usize,
}
pub fn parse(s: &str) -> Option<J> {
    let mut r = R { b: s.as_bytes(), i: 0 };
    let v = r.value()?;
    r.ws();
    if r.i == r.b.len() {
        Some(v)
    } else {
        None
    }
}
impl<'a> R<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b'}').is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    if self.eat(b',').is_none() {
                        self.eat(b'}')?;
                        return Some(J::Obj(v));
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b']').is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.eat(b',').is_none() {
                        self.eat(b']')?;
                        return Some(J::Arr(v));
                    }
                }
            }
            b'"' => self.string().map(J::Str),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'n' => self.word("null", J::Null),
            _ => {
                let a = self.i;
                while self.i < self.b.len() && b"+-.eE0123456789".contains(&self.b[self.i]) {
                    self.i += 1;
                }
                std::str::from_utf8(&self.b[a..self.i]).ok()?.parse().ok().map(J::Num)
            }
        }
    }
    fn word(&mut self, w: &str, v: J) -> Option<J> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Some(v)
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        if self.b.get(self.i) != Some(&b'"') {
            return None;
        }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                b'\\' => {
                    let c = *self.b.get(self.i)?;
                    self.i += 1;
                    match c {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let mut u = self.hex()?;
                            if (0xd800..0xdc00).contains(&u) && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                u = 0x10000 + ((u - 0xd800) << 10) + (self.hex()?.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            let mut t = [0; 4];
                            o.extend_from_slice(char::from_u32(u)?.encode_utf8(&mut t).as_bytes());
                        }
                        c => o.push(c),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn hex(&mut self) -> Option<u32> {
        let s = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
        self.i += 4;
        u32::from_str_radix(s, 16).ok()
    }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
