//! A reference parser for schema text, written from the documented syntax. Some texts are
//! clearly schemas, some clearly are not, and about the rest it makes no claim.
use crate::model::*;

#[derive(Debug, PartialEq)]
pub enum Ref {
    /// must parse as this
    Is(Schema),
    /// must be refused
    Not,
    /// no claim
    Unclear,
}

pub fn parse(text: &str) -> Ref {
    let c: Vec<char> = text.chars().collect();
    if let Some(s) = (Strict { c: &c, i: 0 }).schema() {
        return Ref::Is(s);
    }
    // a lone carriage return may or may not end a comment
    let lone = c.iter().enumerate().any(|(i, ch)| *ch == '\r' && c.get(i + 1).map(|n| *n != '\n').unwrap_or(true));
    if lone && c.contains(&'#') {
        return Ref::Unclear;
    }
    match tokens(&c) {
        Some(t) if (Lenient { t: &t, i: 0 }).schema().is_some() => Ref::Unclear,
        _ => Ref::Not,
    }
}

fn wordch(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
fn ident(w: &str) -> bool {
    !w.is_empty() && !w.starts_with(|c: char| c.is_ascii_digit()) && !reserved(w)
}

struct Strict<'a> {
    c: &'a [char],
    i: usize,
}
impl<'a> Strict<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn eat(&mut self, ch: char) -> bool {
        if self.peek() == Some(ch) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, ch: char) -> Option<()> {
        if self.eat(ch) {
            Some(())
        } else {
            None
        }
    }
    fn blanks(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\t')) {
            self.i += 1;
        }
    }
    /// one line end
    fn eol(&mut self) -> bool {
        if self.peek() == Some('\r') && self.c.get(self.i + 1) == Some(&'\n') {
            self.i += 2;
            return true;
        }
        self.eat('\n')
    }
    /// blanks and line ends; how many characters
    fn space(&mut self) -> usize {
        let st = self.i;
        loop {
            self.blanks();
            if !self.eol() {
                return self.i - st;
            }
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.peek().map(wordch).unwrap_or(false) {
            self.i += 1;
        }
        self.c[st..self.i].iter().collect()
    }
    /// Some(true) when there was a comment
    fn comment(&mut self) -> Option<bool> {
        if !self.eat('#') {
            return Some(false);
        }
        loop {
            match self.peek() {
                None => return Some(true),
                Some('\n') => {
                    self.i += 1;
                    return Some(true);
                }
                Some('\r') if self.c.get(self.i + 1) != Some(&'\n') => return None,
                _ => self.i += 1,
            }
        }
    }
    fn schema(&mut self) -> Option<Schema> {
        let mut out = Vec::new();
        loop {
            self.space();
            if self.peek().is_none() {
                return Some(out);
            }
            if self.comment()? {
                continue;
            }
            let w = self.word();
            if w == "export" {
                let st = self.i;
                self.blanks();
                if st == self.i {
                    return None;
                }
                let n = self.word();
                if !ident(&n) {
                    return None;
                }
                out.push(Item::Export(n));
            } else {
                if !ident(&w) {
                    return None;
                }
                self.blanks();
                self.need(':')?;
                self.blanks();
                let k = self.word();
                self.blanks();
                self.need('{')?;
                let kind = match k.as_str() {
                    "enum" => Kind::Enum(self.variants()?),
                    "struct" => Kind::Struct(self.fields()?),
                    _ => return None,
                };
                out.push(Item::Decl(w, kind));
            }
            // items are on lines of their own
            self.blanks();
            match self.peek() {
                None | Some('#') => (),
                _ if self.eol() => (),
                _ => return None,
            }
        }
    }
    fn variants(&mut self) -> Option<Vec<String>> {
        let mut out = Vec::new();
        self.space();
        loop {
            if self.eat('}') {
                return Some(out);
            }
            let w = self.word();
            if !ident(&w) {
                return None;
            }
            out.push(w);
            let sp = self.space();
            if self.eat(',') {
                self.space();
            } else if sp == 0 && self.peek() != Some('}') {
                return None;
            }
        }
    }
    fn fields(&mut self) -> Option<Vec<Field>> {
        let mut out = Vec::new();
        self.space();
        loop {
            if self.eat('}') {
                return Some(out);
            }
            if self.comment()? {
                self.space();
                continue;
            }
            let name = self.word();
            if !ident(&name) {
                return None;
            }
            self.blanks();
            let optional = self.eat('?');
            self.need(':')?;
            self.blanks();
            let ty = self.word();
            if builtin(&ty).is_none() && !ident(&ty) {
                return None;
            }
            let array = if self.eat('[') {
                self.need(']')?;
                true
            } else {
                false
            };
            out.push(Field { name, ty, array, optional });
            let sp = self.space();
            if self.eat(',') {
                self.space();
            } else if sp == 0 && !matches!(self.peek(), Some('}') | Some('#')) {
                return None;
            }
        }
    }
}

#[derive(Debug, PartialEq)]
enum Tok {
    Word(String),
    Punct(char),
    /// `[]` directly after what comes before it
    Array,
}

fn tokens(c: &[char]) -> Option<Vec<Tok>> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if wordch(ch) {
            let st = i;
            while i < c.len() && wordch(c[i]) {
                i += 1;
            }
            o.push(Tok::Word(c[st..i].iter().collect()));
            continue;
        }
        match ch {
            '#' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '[' => {
                // documented as part of the type, and refused when set apart from it
                let apart = i > 0 && c[i - 1].is_whitespace() && matches!(o.last(), Some(Tok::Word(_)));
                if c.get(i + 1) != Some(&']') || apart {
                    return None;
                }
                i += 1;
                o.push(Tok::Array);
            }
            '{' | '}' | ':' | ',' | '?' => o.push(Tok::Punct(ch)),
            _ if ch.is_whitespace() => (),
            _ => return None,
        }
        i += 1;
    }
    Some(o)
}

struct Lenient<'a> {
    t: &'a [Tok],
    i: usize,
}
impl<'a> Lenient<'a> {
    fn punct(&mut self, c: char) -> bool {
        if self.t.get(self.i) == Some(&Tok::Punct(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> Option<&'a str> {
        if let Some(Tok::Word(w)) = self.t.get(self.i) {
            self.i += 1;
            Some(w)
        } else {
            None
        }
    }
    fn after(&self, k: usize, cs: &[char]) -> bool {
        matches!(self.t.get(self.i + k), Some(Tok::Punct(c)) if cs.contains(c))
    }
    fn schema(&mut self) -> Option<()> {
        let mut todo = vec![0];
        let mut seen = std::collections::BTreeSet::new();
        while let Some(i) = todo.pop() {
            if i >= self.t.len() {
                return Some(());
            }
            if !seen.insert(i) {
                continue;
            }
            self.i = i;
            if self.t[i] == Tok::Word("export".into()) {
                // the name may be missing
                todo.push(i + 1);
                if matches!(self.t.get(i + 1), Some(Tok::Word(_))) {
                    todo.push(i + 2);
                }
            }
            if self.decl().is_some() {
                todo.push(self.i);
            }
        }
        None
    }
    fn decl(&mut self) -> Option<()> {
        if !ident(self.word()?) || !self.punct(':') {
            return None;
        }
        let k = self.word()?;
        if !self.punct('{') {
            return None;
        }
        match k {
            "enum" => {
                while !self.punct('}') {
                    if !ident(self.word()?) {
                        return None;
                    }
                    self.punct(',');
                }
            }
            "struct" => {
                while !self.punct('}') {
                    if !ident(self.word()?) {
                        return None;
                    }
                    self.punct('?');
                    if !self.punct(':') {
                        return None;
                    }
                    // the type may be missing
                    if matches!(self.t.get(self.i), Some(Tok::Word(_))) && !self.after(1, &[':', '?']) {
                        self.i += 1;
                    }
                    if self.t.get(self.i) == Some(&Tok::Array) {
                        self.i += 1;
                    }
                    self.punct(',');
                }
            }
            _ => return None,
        }
        Some(())
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn examples() {
        let is = |t: &str| matches!(parse(t), Ref::Is(_));
        assert!(is("a: struct { x?: uint8, y: b[] }\nexport a"));
        assert!(is(""));
        assert!(is("# x"));
        assert_eq!(parse("a: struct { v: uint8 [] }"), Ref::Not);
        assert_eq!(parse("a: struct { v: uint8[ }"), Ref::Not);
        assert_eq!(parse("uint8: struct {}"), Ref::Not);
        assert_eq!(parse("a: enum { A # c\n }"), Ref::Unclear);
        assert_eq!(parse("a: enum { A,,B }"), Ref::Not);
    }
}
