//! Schemas: the model, generators of names and schemas, and the renderer with layout choices.
use crate::dict;
use crate::engine::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    U8,
    U16,
    U32,
    I8,
    I16,
    I32,
    Float,
    Str,
}
pub const BUILTINS: [(B, &str); 8] = [
    (B::U8, "uint8"),
    (B::U16, "uint16"),
    (B::U32, "uint32"),
    (B::I8, "int8"),
    (B::I16, "int16"),
    (B::I32, "int32"),
    (B::Float, "float"),
    (B::Str, "string"),
];
pub fn builtin(name: &str) -> Option<B> {
    BUILTINS.iter().find(|x| x.1 == name).map(|x| x.0)
}
/// Words that cannot be names in a schema.
pub fn reserved(name: &str) -> bool {
    builtin(name).is_some() || name == "enum" || name == "struct"
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub array: bool,
    pub optional: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Enum(Vec<String>),
    Struct(Vec<Field>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Decl(String, Kind),
    Export(String),
}
pub type Schema = Vec<Item>;

pub fn dump(s: &[Item]) -> String {
    let mut o = String::new();
    for i in s {
        match i {
            Item::Export(n) => o.push_str(&format!("export {}\n", n)),
            Item::Decl(n, Kind::Enum(v)) => {
                o.push_str(&format!("enum {}\n", n));
                v.iter().for_each(|v| o.push_str(&format!("  {}\n", v)));
            }
            Item::Decl(n, Kind::Struct(f)) => {
                o.push_str(&format!("struct {}\n", n));
                f.iter().for_each(|f| {
                    o.push_str(&format!("  {} {} array={} optional={}\n", f.name, f.ty, f.array, f.optional))
                });
            }
        }
    }
    o
}

pub fn export_of(s: &[Item]) -> &str {
    s.iter().find_map(|i| if let Item::Export(n) = i { Some(n.as_str()) } else { None }).unwrap_or("")
}
pub fn decls(s: &[Item]) -> BTreeMap<&str, &Kind> {
    s.iter().filter_map(|i| if let Item::Decl(n, k) = i { Some((n.as_str(), k)) } else { None }).collect()
}
/// Names of the declared types the export uses, directly or not, without the export itself.
pub fn used(s: &[Item]) -> BTreeSet<String> {
    let d = decls(s);
    let mut seen = BTreeSet::new();
    let mut todo = vec![export_of(s).to_string()];
    while let Some(n) = todo.pop() {
        if let Some(Kind::Struct(f)) = d.get(n.as_str()) {
            for f in f {
                if d.contains_key(f.ty.as_str()) && builtin(&f.ty).is_none() && seen.insert(f.ty.clone()) {
                    todo.push(f.ty.clone());
                }
            }
        }
    }
    seen
}

// ---------------------------------------------------------------- names

const TS_RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null",
    "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "let",
    "static", "yield", "implements", "interface", "package", "private", "protected", "public", "await",
    "arguments", "eval",
];
const TS_TYPES: &[&str] = &[
    "any", "unknown", "never", "number", "boolean", "symbol", "object", "undefined", "bigint", "string", "void",
    "null", "NaN", "Infinity", "globalThis",
];
/// Names the generated class needs for itself.
const EXPORT_TAKEN: &[&str] = &[
    "Reader", "Writer", "Object", "Array", "ArrayBuffer", "output", "reader", "data", "exports", "require", "module",
];
/// Members of functions and of the generated class that a field of the exported struct cannot be called.
const TOP_FIELD_TAKEN: &[&str] =
    &["name", "length", "prototype", "caller", "arguments", "constructor", "write", "__proto__", "undefined"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Export,
    Type,
    TopField,
    Field,
    Variant,
}

/// Whether the name is within the domain of the properties about generated code.
pub fn ts_ok(name: &str, role: Role) -> bool {
    if reserved(name) {
        return false;
    }
    match role {
        Role::Export => {
            !TS_RESERVED.contains(&name)
                && !TS_TYPES.contains(&name)
                && !EXPORT_TAKEN.contains(&name)
                && !name.starts_with("output_")
                && name != "export"
        }
        Role::Type => !TS_RESERVED.contains(&name) && !TS_TYPES.contains(&name) && !["export", "read", "prototype"].contains(&name),
        Role::TopField => !TS_RESERVED.contains(&name) && !TOP_FIELD_TAKEN.contains(&name),
        Role::Field => name != "__proto__",
        Role::Variant => !["NaN", "Infinity", "__proto__"].contains(&name),
    }
}

const SHORT: &[&str] = &["a", "b", "c", "d", "e", "x", "y", "z", "A", "B", "C", "T"];
const PARTS: &[&str] = &[
    "a", "b", "_", "len", "item", "index", "temp", "output", "this", "reader", "writer", "data", "buffer", "x", "0",
    "1", "9", "Z", "aa",
];
const KEYWORDISH: &[&str] = &[
    "uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "enum", "struct", "export",
];
const WORDS: &[&str] = &[
    "Position", "Flag", "Value", "Player", "id", "flag", "pos", "names", "values", "position", "velocity", "state",
    "Entity", "read", "failed", "finish", "toString", "valueOf", "hasOwnProperty", "then", "call", "apply", "bind",
    "get", "set", "of", "async", "type", "namespace", "declare", "module", "require", "exports", "Map", "Symbol",
    "self", "window", "global", "process", "Number", "String", "Error", "Promise", "key", "entries", "size", "keys",
    "isArray", "create", "i", "j", "n", "item", "len", "index", "output", "reader", "writer", "data", "buffer", "this_",
    "constructor", "prototype", "name", "length", "write", "caller", "undefined", "number", "object", "Object", "Array",
    "Reader", "Writer", "__defineGetter__", "isPrototypeOf", "propertyIsEnumerable",
    "output_a", "this_a", "a_item", "a_index", "a_len", "a_temp", "a_", "_a", "_", "__", "item_", "a_b", "a_b_c", "b_c",
];
const HOT: &[&str] = &["class", "default", "new", "function", "in", "delete", "return", "if", "let", "static", "null", "true"];

pub fn name(src: &mut Src, hot: bool) -> String {
    match src.weighted(&[10, 6, 4, 4, 1, 3, 2, if hot { 2 } else { 0 }]) {
        0 => src.pick(SHORT).to_string(),
        1 => src.pick(WORDS).to_string(),
        2 => {
            let mut o = String::new();
            let k = src.range(1, 4);
            for i in 0..k {
                if i > 0 && src.chance(2, 3) {
                    o.push('_');
                }
                o.push_str(*src.pick(PARTS));
            }
            if o.starts_with(|c: char| c.is_ascii_digit()) {
                o.insert(0, '_');
            }
            if src.chance(1, 6) {
                o.push('_');
            }
            o
        }
        3 => {
            let k = *src.pick(KEYWORDISH);
            match src.below(5) {
                0 => format!("{}{}", k, *src.pick(&["x", "s", "_", "8", "0", "_t", "er", "A", "2_"])),
                1 => format!("{}{}", *src.pick(&["a", "_", "u", "my_", "X"]), k),
                2 => k[..k.len() - 1].to_string(),
                3 => format!("{}{}", k, *src.pick(KEYWORDISH)),
                _ => {
                    let mut t = k.to_string();
                    t[..1].make_ascii_uppercase();
                    t
                }
            }
        }
        4 => {
            let len = if src.chance(1, 2) { dict::number(src, 1, 1000) as usize } else { [20usize, 40, 100, 256, 300, 1000][src.below(6) as usize] };
            let c = src.below(26) as u8;
            (0..len).map(|i| (b'a' + ((c as usize + i * 7) % 26) as u8) as char).collect()
        }
        5 => {
            const CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
            let k = src.range(1, 7);
            (0..k).map(|i| CHARS[src.below(if i == 0 { 53 } else { 63 }) as usize] as char).collect()
        }
        6 => dict::ident(src),
        _ => src.pick(HOT).to_string(),
    }
}

/// A name not in `taken`, legal for its role.
pub fn fresh(src: &mut Src, taken: &mut BTreeSet<String>, role: Role, ts: bool) -> String {
    let mut n = name(src, !ts || matches!(role, Role::Field | Role::Variant));
    let mut i = 0;
    loop {
        let ok = !reserved(&n)
            && !taken.contains(&n)
            && (!ts || ts_ok(&n, role))
            // a declaration called `export` is outside the documented syntax
            && !(n == "export" && matches!(role, Role::Export | Role::Type));
        if ok {
            taken.insert(n.clone());
            return n;
        }
        i += 1;
        n = match i % 3 {
            1 => format!("{}_", n),
            2 => format!("{}{}", n, i),
            _ => format!("n{}", n),
        };
    }
}

// ---------------------------------------------------------------- schemas

#[derive(Clone, Debug)]
pub struct Opt {
    pub ts: bool,
    pub max_types: usize,
    pub max_fields: usize,
    /// bound on the number of leaves after expanding every nested struct
    pub leaves: usize,
    pub max_depth: usize,
    pub unused: bool,
    /// least number of auxiliary types, and of fields of the exported struct
    pub min_types: usize,
    pub min_fields: usize,
    /// every struct refers to the one before it and to little else: a long chain
    pub thin: bool,
    /// the exported struct has a field of every type
    pub all: bool,
}
impl Opt {
    pub fn normal() -> Opt {
        Opt { ts: true, max_types: 9, max_fields: 9, leaves: 120, max_depth: 9, unused: true, min_types: 0, min_fields: 0, thin: false, all: false }
    }
}

pub fn variants(src: &mut Src, ts: bool, count: usize) -> Vec<String> {
    let mut taken = BTreeSet::new();
    let odd = if count > 6 && src.chance(1, 4) { count } else { 6 };
    (0..count)
        .map(|i| {
            // beyond a few, usually plain names: the interesting part of a long enum is its length
            if i < odd {
                fresh(src, &mut taken, Role::Variant, ts)
            } else {
                let mut n = format!("V{}", i);
                while !taken.insert(n.clone()) {
                    n.push('_');
                }
                n
            }
        })
        .collect()
}
/// Variants of their own, or names of another enum's variants in another order.
pub fn enum_like(src: &mut Src, s: &[Item], ts: bool) -> Vec<String> {
    let c = variant_count(src);
    let enums: Vec<&Vec<String>> = s
        .iter()
        .filter_map(|i| match i {
            Item::Decl(_, Kind::Enum(v)) => Some(v),
            _ => None,
        })
        .collect();
    if enums.is_empty() || !src.chance(1, 3) {
        return variants(src, ts, c);
    }
    let mut v = (*src.pick(&enums)).clone();
    src.shuffle(&mut v);
    match src.below(3) {
        0 => v.truncate(c),
        1 => {
            for x in variants(src, ts, c) {
                if v.len() < 32 && !v.contains(&x) {
                    let at = src.below(v.len() as u64 + 1) as usize;
                    v.insert(at, x);
                }
            }
        }
        _ => (),
    }
    v
}
pub fn variant_count(src: &mut Src) -> usize {
    match src.weighted(&[6, 5, 3, 1]) {
        0 => src.range(1, 4) as usize,
        3 => dict::number(src, 1, 32) as usize,
        1 => *src.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32]),
        _ => src.range(1, 32) as usize,
    }
}

struct Built {
    name: String,
    leaves: usize,
    depth: usize,
}

fn fields(src: &mut Src, o: &Opt, known: &[Built], role: Role, budget: usize, avg: u64) -> (Vec<Field>, usize, usize) {
    let mut taken = BTreeSet::new();
    let mut out = Vec::new();
    let (mut leaves, mut depth) = (1usize, 0usize);
    let mut min = (*src.pick(&[1usize, 1, 1, 2, 2, 3, 1, 0, 2, 4, 1, 3])).min(o.max_fields);
    if role == Role::TopField {
        min = min.max(o.min_fields);
    }
    // sometimes only references, so that resolution order matters as much as possible
    let refs = *src.pick(&[5u64, 7, 9, 3]);
    while src.more(out.len(), min, o.max_fields, avg) {
        let n = fresh(src, &mut taken, role, o.ts);
        let mut ty = None;
        if !known.is_empty() && src.chance(refs, 10) {
            // prefer recently made types: deep nesting
            let k = known.len() as u64;
            let i = if src.chance(1, 2) { k - 1 - src.below(k.min(2)) } else { src.below(k) } as usize;
            let b = &known[i];
            if leaves + b.leaves <= budget && b.depth + 1 <= o.max_depth {
                leaves += b.leaves;
                depth = depth.max(b.depth + 1);
                ty = Some(b.name.clone());
            }
        }
        let ty = ty.unwrap_or_else(|| {
            leaves += 1;
            src.pick(&BUILTINS).1.to_string()
        });
        let (array, optional) = match src.weighted(&[5, 3, 3]) {
            0 => (false, false),
            1 => (true, false),
            _ => (false, true),
        };
        out.push(Field { name: n, ty, array, optional });
        if leaves >= budget {
            break;
        }
    }
    (out, leaves, depth)
}

/// A valid schema. Types are made so that each refers to earlier ones only, then the
/// declarations are put in some order with the export line somewhere among them.
pub fn schema(src: &mut Src, o: &Opt) -> Schema {
    let mut taken = BTreeSet::new();
    let ename = fresh(src, &mut taken, Role::Export, o.ts);
    let mut known: Vec<Built> = Vec::new();
    let mut out: Vec<Item> = Vec::new();
    let avg = *src.pick(&[2u64, 3, 5]);
    let min = (*src.pick(&[0usize, 1, 2, 2, 3, 4])).min(o.max_types).max(o.min_types);
    while src.more(known.len(), min, o.max_types, 2) {
        let n = fresh(src, &mut taken, Role::Type, o.ts);
        if o.thin && !known.is_empty() {
            let last = known.last().unwrap();
            let mut t2 = BTreeSet::new();
            let mut f = Vec::new();
            let (before, after) = *src.pick(&[(0, 0), (1, 0), (0, 1), (1, 1)]);
            for k in 0..before + 1 + after {
                let (array, optional) = *src.pick(&[(false, false), (false, true), (true, false), (false, false)]);
                let ty = if k == before { last.name.clone() } else { src.pick(&BUILTINS).1.to_string() };
                f.push(Field { name: fresh(src, &mut t2, Role::Field, o.ts), ty, array, optional });
            }
            let (leaves, depth) = (last.leaves + f.len(), last.depth + 1);
            out.push(Item::Decl(n.clone(), Kind::Struct(f)));
            known.push(Built { name: n, leaves, depth });
        } else if src.chance(1, 3) {
            let v = enum_like(src, &out, o.ts);
            out.push(Item::Decl(n.clone(), Kind::Enum(v)));
            known.push(Built { name: n, leaves: 1, depth: 0 });
        } else {
            let (mut f, mut leaves, depth) = fields(src, o, &known, Role::Field, o.leaves / 2, avg);
            let room = (o.leaves / 2).saturating_sub(leaves) as i64;
            if src.chance(1, 20) && room > 0 {
                // many fields in front of these, or behind
                let k = if src.chance(1, 2) { *src.pick(&[9i64, 17, 33, 40, 50]) } else { dict::number(src, 1, 60) }.min(room);
                leaves += k as usize;
                let at = if src.chance(2, 3) { 0 } else { f.len() };
                for i in (0..k).rev() {
                    let mut name = format!("w{}", i);
                    while f.iter().any(|f| f.name == name) {
                        name.push('_');
                    }
                    let ty = BUILTINS[i as usize % 8].1.into();
                    f.insert(at, Field { name, ty, array: false, optional: i % 5 == 3 });
                }
            }
            out.push(Item::Decl(n.clone(), Kind::Struct(f)));
            known.push(Built { name: n, leaves, depth });
        }
    }
    let (mut f, _, _) = fields(src, o, &known, Role::TopField, o.leaves, avg + 1);
    if o.all {
        let mut t2 = f.iter().map(|f| f.name.clone()).collect();
        for b in &known {
            let n = fresh(src, &mut t2, Role::TopField, o.ts);
            f.push(Field { name: n, ty: b.name.clone(), array: src.chance(1, 3), optional: false });
        }
    }
    out.push(Item::Decl(ename.clone(), Kind::Struct(f)));
    if o.unused {
        // declarations that use the exported type, which nothing uses
        let mut k = 0;
        while src.more(k, 0, 2, 1) && src.chance(1, 4) {
            k += 1;
            let n = fresh(src, &mut taken, Role::Type, o.ts);
            let mut t2 = BTreeSet::new();
            let f = Field { name: fresh(src, &mut t2, Role::Field, o.ts), ty: ename.clone(), array: src.chance(1, 2), optional: false };
            out.push(Item::Decl(n, Kind::Struct(vec![f])));
        }
    }
    if src.chance(2, 3) {
        src.shuffle(&mut out);
    }
    let span = if src.chance(1, 3) { out.len() as u64 + 1 } else { 1 };
    let at = out.len() - src.below(span) as usize;
    out.insert(at, Item::Export(ename));
    out
}

// ---------------------------------------------------------------- text

/// How freely to lay text out.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    Plain,
    Free,
}

/// A piece of rendered text: tokens are kept apart so that checks can insert or cut between them.
#[derive(Clone, Debug)]
pub struct Piece {
    pub text: String,
    /// a comment or white space rather than a token
    pub space: bool,
    /// a comment
    pub comment: bool,
    /// the text up to and including this piece ends in the middle of a declaration
    pub open: bool,
}

pub struct Text {
    pub pieces: Vec<Piece>,
}
impl Text {
    pub fn text(&self) -> String {
        self.pieces.iter().map(|p| p.text.as_str()).collect()
    }
    pub fn upto(&self, n: usize) -> String {
        self.pieces[..n].iter().map(|p| p.text.as_str()).collect()
    }
}

struct R<'a> {
    src: &'a mut Src,
    free: bool,
    nl: &'static str,
    out: Vec<Piece>,
    open: bool,
    ascii: bool,
}
impl<'a> R<'a> {
    fn tok(&mut self, t: &str) {
        let open = self.open;
        self.out.push(Piece { text: t.to_string(), space: false, comment: false, open });
    }
    fn sp(&mut self, t: String) {
        if !t.is_empty() {
            let open = self.open;
            self.out.push(Piece { text: t, space: true, comment: false, open });
        }
    }
    /// blanks only
    fn blank(&mut self, default: &str) {
        let t = if self.free {
            match self.src.weighted(&[6, 3, 2, 1, 1]) {
                0 => default.to_string(),
                1 => "".to_string(),
                2 => " ".to_string(),
                3 => "\t".to_string(),
                _ => " \t  ".to_string(),
            }
        } else {
            default.to_string()
        };
        self.sp(t)
    }
    /// at least one blank
    fn blank1(&mut self) {
        let t = if self.free { self.src.pick(&[" ", "  ", "\t", " \t "]).to_string() } else { " ".to_string() };
        self.sp(t)
    }
    fn newline(&mut self) -> String {
        if self.free && self.src.chance(1, 12) {
            (if self.nl == "\n" { "\r\n" } else { "\n" }).to_string()
        } else {
            self.nl.to_string()
        }
    }
    /// blanks and line ends
    fn gap(&mut self, default: &str) {
        let mut t = default.replace('\n', self.nl);
        if self.free && self.src.chance(1, 2) {
            t = String::new();
            let mut k = 0;
            while self.src.more(k, 0, 6, 1) {
                k += 1;
                match self.src.below(4) {
                    0 => t.push(' '),
                    1 => t.push('\t'),
                    2 => t.push_str(&self.newline()),
                    _ => t.push_str("    "),
                }
            }
        }
        self.sp(t)
    }
    /// at least one blank or line end
    fn gap1(&mut self, default: &str) {
        self.gap(default);
        if !self.out.last().map(|p| p.space && !p.comment).unwrap_or(false) {
            let t = if self.src.chance(1, 2) { self.newline() } else { " ".to_string() };
            self.sp(t);
        }
    }
    fn comment(&mut self) {
        let mut body = String::new();
        let mut k = 0;
        let max = if self.src.chance(1, 12) { 60 } else { 6 };
        while self.src.more(k, 0, max, 3) {
            k += 1;
            let w: &[&str] = &[
                "a", "note", " ", "#", "}", "{", ":", ",", "[]", "?", "export A", "x: struct {", "}", "enum", "\"", "'", "\\",
                "\t", "uint8", "//", "/*", "*/", "$", "é", "日本", "😀", "ß", "\u{a0}", "\u{2028}", "\u{0}", "e\u{301}",
            ];
            let w = if self.ascii { &w[..23] } else { w };
            match self.src.weighted(&[8, 3, 1, 1]) {
                3 => body.push_str(&dict::ident(self.src)),
                0 => body.push_str(*self.src.pick(w)),
                1 => body.push((b' ' + self.src.below(95) as u8) as char),
                // not a line end of either kind
                _ if self.ascii => body.push(*self.src.pick(&['\u{b}', '\u{c}', '\u{7f}', '\u{1b}'])),
                _ => body.push(char::from_u32(0x80 + self.src.below(0x10780) as u32).unwrap_or('\u{fffd}')),
            }
        }
        let open = self.open;
        self.out.push(Piece { text: format!("#{}", body), space: true, comment: true, open });
        let nl = self.newline();
        self.sp(nl);
    }
    fn comments(&mut self, num: u64, den: u64) {
        if self.free {
            let mut k = 0;
            while k < 4 && self.src.chance(num, den) {
                k += 1;
                self.comment();
                self.gap("");
            }
        }
    }
}

/// Renders a schema. Every text rendered is inside the documented grammar.
pub fn render(src: &mut Src, s: &[Item], layout: Layout, ascii: bool) -> Text {
    let free = layout == Layout::Free;
    let nl = if free && src.chance(1, 4) { "\r\n" } else { "\n" };
    let mut r = R { src, free, nl, out: Vec::new(), open: false, ascii };
    r.gap("");
    r.comments(1, 6);
    for (i, item) in s.iter().enumerate() {
        let last = i + 1 == s.len();
        match item {
            Item::Export(n) => {
                r.tok("export");
                r.blank1();
                r.tok(n);
            }
            Item::Decl(n, k) => {
                r.open = true;
                r.tok(n);
                r.blank("");
                r.tok(":");
                r.blank(" ");
                match k {
                    Kind::Enum(v) => {
                        r.tok("enum");
                        r.blank(" ");
                        r.tok("{");
                        r.gap(" ");
                        for (j, v_) in v.iter().enumerate() {
                            r.tok(v_);
                            let last = j + 1 == v.len();
                            if free && r.src.chance(1, 6) {
                                // no comma
                                if last {
                                    r.gap(" ")
                                } else {
                                    r.gap1(" ")
                                }
                            } else if last && !(free && r.src.chance(1, 3)) {
                                r.gap(" ");
                            } else {
                                if free && r.src.chance(1, 4) {
                                    r.gap("");
                                }
                                r.tok(",");
                                r.gap(" ");
                            }
                        }
                    }
                    Kind::Struct(f) => {
                        r.tok("struct");
                        r.blank(" ");
                        r.tok("{");
                        let sep = if free && r.src.chance(1, 2) { "\n    " } else { " " };
                        r.gap(sep);
                        r.comments(1, 10);
                        for (j, f_) in f.iter().enumerate() {
                            r.tok(&f_.name);
                            if f_.optional {
                                r.blank("");
                                r.tok("?");
                            } else {
                                r.blank("");
                            }
                            r.tok(":");
                            r.blank(" ");
                            r.tok(&f_.ty);
                            if f_.array {
                                r.tok("[]");
                            }
                            let last = j + 1 == f.len();
                            if free && r.src.chance(1, 6) {
                                if last {
                                    r.gap(" ")
                                } else {
                                    r.gap1(" ")
                                }
                            } else if last && !(free && r.src.chance(1, 3)) {
                                r.gap(if sep == " " { " " } else { "\n" });
                            } else {
                                if free && r.src.chance(1, 5) {
                                    r.gap("");
                                }
                                r.tok(",");
                                r.gap(sep);
                            }
                            r.comments(1, 12);
                        }
                    }
                }
                r.open = false;
                r.tok("}");
            }
        }
        if !last {
            // items are kept on lines of their own
            if free && r.src.chance(1, 3) {
                r.blank(" ");
                r.comment();
            } else {
                r.blank("");
                let t = r.newline();
                r.sp(t);
            }
            r.gap("");
            r.comments(1, 6);
        } else if !free || r.src.chance(2, 3) {
            r.gap("\n");
            r.comments(1, 6);
            if free && r.src.chance(1, 8) {
                // a last line without an end
                r.out.push(Piece { text: "# end".into(), space: true, comment: true, open: false });
            }
        }
    }
    Text { pieces: r.out }
}

pub fn plain(s: &[Item]) -> String {
    render(&mut Src::replay(vec![]), s, Layout::Plain, true).text()
}
