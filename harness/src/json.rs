//! A small JSON value, writer and parser (the harness has no dependencies).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(t: T) -> J {
    J::Str(t.into())
}
pub fn n(v: u64) -> J {
    J::Num(v as f64)
}
pub fn obj(fields: Vec<(&str, J)>) -> J {
    J::Obj(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(f) => f.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(v) => Some(*v),
            _ => None,
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(v) => {
                if v.fract() == 0.0 && v.abs() < 9e15 {
                    o.push_str(&format!("{}", *v as i64))
                } else {
                    o.push_str(&format!("{:?}", v))
                }
            }
            J::Str(t) => esc(t, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(f) => {
                o.push('{');
                for (i, (k, v)) in f.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    /// Indented, for files people read.
    pub fn pretty(&self) -> String {
        fn go(j: &J, ind: usize, o: &mut String) {
            let pad = " ".repeat(ind + 1);
            match j {
                J::Arr(a) if !a.is_empty() => {
                    o.push_str("[\n");
                    for (i, x) in a.iter().enumerate() {
                        o.push_str(&pad);
                        go(x, ind + 1, o);
                        o.push_str(if i + 1 < a.len() { ",\n" } else { "\n" });
                    }
                    o.push_str(&" ".repeat(ind));
                    o.push(']');
                }
                J::Obj(f) if !f.is_empty() => {
                    o.push_str("{\n");
                    for (i, (k, v)) in f.iter().enumerate() {
                        o.push_str(&pad);
                        esc(k, o);
                        o.push_str(": ");
                        go(v, ind + 1, o);
                        o.push_str(if i + 1 < f.len() { ",\n" } else { "\n" });
                    }
                    o.push_str(&" ".repeat(ind));
                    o.push('}');
                }
                _ => j.write(o),
            }
        }
        let mut o = String::new();
        go(self, 0, &mut o);
        o.push('\n');
        o
    }
}

fn esc(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn parse(t: &str) -> Result<J, String> {
    let mut p = P { b: t.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing data at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \n\r\t".contains(&self.b[self.i]) {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.peek() != c {
            return Err(format!("expected '{}' at {}", c as char, self.i));
        }
        self.i += 1;
        Ok(())
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.expect(b']')?;
                        return Ok(J::Arr(a));
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut f = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(f));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.expect(b':')?;
                    let v = self.value()?;
                    f.push((k, v));
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.expect(b'}')?;
                        return Ok(J::Obj(f));
                    }
                }
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && b"+-.eE0123456789".contains(&self.b[self.i]) {
                    self.i += 1;
                }
                std::str::from_utf8(&self.b[st..self.i])
                    .unwrap()
                    .parse::<f64>()
                    .map(J::Num)
                    .map_err(|_| format!("bad value at {}", st))
            }
        }
    }
    fn lit(&mut self, w: &str, j: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(j)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = std::str::from_utf8(self.b.get(self.i..self.i + 4).ok_or("short escape")?).map_err(|e| e.to_string())?;
        self.i += 4;
        u32::from_str_radix(h, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        self.expect(b'"')?;
        let mut o: Vec<u8> = Vec::new();
        loop {
            match self.peek() {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(o).map_err(|e| e.to_string());
                }
                b'\\' => {
                    self.i += 2;
                    let c = match self.b[self.i - 1] {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'u' => {
                            let mut h = self.hex4()?;
                            if (0xd800..0xdc00).contains(&h) && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                let l = self.hex4()?;
                                h = 0x10000 + ((h - 0xd800) << 10) + (l.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            char::from_u32(h).unwrap_or('\u{fffd}')
                        }
                        c => c as char,
                    };
                    let mut t = [0; 4];
                    o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                }
                0 if self.i >= self.b.len() => return Err("unterminated string".into()),
                c => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
