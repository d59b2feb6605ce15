//! Properties of the front end: C08 to C13.
use crate::dict;
use crate::engine::*;
use crate::json;
use crate::model::*;
use crate::procs::Reply;
use crate::refparse::{self, Ref};
use crate::validate::*;
use std::collections::BTreeSet;

// ---------------------------------------------------------------- schemas with faults

/// A schema whose structs refer to each other at random.
fn graph(src: &mut Src) -> Schema {
    let mut taken = BTreeSet::new();
    let n = if src.chance(1, 30) { src.range(13, 70) } else { src.range(1, 12) } as usize;
    let names: Vec<String> = (0..n)
        .map(|i| fresh(src, &mut taken, if i == 0 { Role::Export } else { Role::Type }, true))
        .collect();
    let enums: Vec<bool> = (0..n).map(|i| i > 0 && src.chance(1, 6)).collect();
    let back = *src.pick(&[0u64, 0, 1, 2]);
    let refs = *src.pick(&[1u64, 2, 3]);
    let mut out: Schema = Vec::new();
    for i in 0..n {
        if enums[i] {
            let c = variant_count(src);
            out.push(Item::Decl(names[i].clone(), Kind::Enum(variants(src, true, c))));
            continue;
        }
        let mut t2 = BTreeSet::new();
        let mut f: Vec<Field> = Vec::new();
        // many fields now and then, though not in many types at once
        let (min, max) = if n <= 12 && src.chance(1, 60) { (*src.pick(&[9usize, 17, 33, 65, 129, 257]), 300) } else { (0, 6) };
        while src.more(f.len(), min, max, 2) {
            let name = fresh(src, &mut t2, if i == 0 { Role::TopField } else { Role::Field }, true);
            let ty = if src.chance(refs, 4) {
                // mostly forward, so that many graphs have no cycle
                let j = if i + 1 < n && !src.chance(back, 12) {
                    i + 1 + src.below((n - i - 1) as u64) as usize
                } else if back > 0 {
                    src.below(n as u64) as usize
                } else {
                    n
                };
                names.get(j).cloned().unwrap_or_else(|| "uint8".into())
            } else {
                src.pick(&BUILTINS).1.to_string()
            };
            let (array, optional) = *src.pick(&[(false, false), (true, false), (false, true)]);
            f.push(Field { name, ty, array, optional });
        }
        out.push(Item::Decl(names[i].clone(), Kind::Struct(f)));
    }
    src.shuffle(&mut out);
    let at = src.below(out.len() as u64 + 1) as usize;
    out.insert(at, Item::Export(names[0].clone()));
    out
}

fn pick_decl(src: &mut Src, s: &[Item], structs: bool, nonempty: bool) -> Option<usize> {
    let c: Vec<usize> = s
        .iter()
        .enumerate()
        .filter(|(_, i)| match i {
            Item::Decl(_, Kind::Struct(f)) => structs && !(nonempty && f.is_empty()),
            Item::Decl(_, Kind::Enum(v)) => !structs && !(nonempty && v.is_empty()),
            _ => false,
        })
        .map(|x| x.0)
        .collect();
    if c.is_empty() {
        None
    } else {
        Some(*src.pick(&c))
    }
}
fn fields_mut(i: &mut Item) -> &mut Vec<Field> {
    match i {
        Item::Decl(_, Kind::Struct(f)) => f,
        _ => unreachable!(),
    }
}
fn variants_mut(i: &mut Item) -> &mut Vec<String> {
    match i {
        Item::Decl(_, Kind::Enum(v)) => v,
        _ => unreachable!(),
    }
}
fn decl_names(s: &[Item]) -> Vec<String> {
    s.iter().filter_map(|i| if let Item::Decl(n, _) = i { Some(n.clone()) } else { None }).collect()
}

/// Edits a schema in a way that usually breaks one rule, anywhere in it.
fn inject(src: &mut Src, s: &mut Schema, case: &mut Case) {
    let names = decl_names(s);
    match src.below(15) {
        0 => {
            case.label("fault: second export");
            let n = if src.chance(1, 2) { export_of(s).to_string() } else { src.pick(&names).clone() };
            let at = src.below(s.len() as u64 + 1) as usize;
            s.insert(at, Item::Export(n));
        }
        1 => {
            case.label("fault: export removed");
            s.retain(|i| !matches!(i, Item::Export(_)));
        }
        2 => {
            case.label("fault: declaration repeated");
            let n = src.pick(&names).clone();
            let kind = match src.below(3) {
                0 => s.iter().find_map(|i| match i {
                    Item::Decl(m, k) if *m == n => Some(k.clone()),
                    _ => None,
                }),
                1 => Some(Kind::Enum(vec!["A".into()])),
                _ => Some(Kind::Struct(vec![])),
            };
            let at = src.below(s.len() as u64 + 1) as usize;
            s.insert(at, Item::Decl(n, kind.unwrap()));
        }
        3 => {
            if let Some(d) = pick_decl(src, s, true, true) {
                case.label("fault: optional array");
                let f = fields_mut(&mut s[d]);
                let i = src.below(f.len() as u64) as usize;
                f[i].array = true;
                f[i].optional = true;
            }
        }
        4 => {
            case.label("fault: empty enum");
            if let (Some(d), true) = (pick_decl(src, s, false, false), src.chance(2, 3)) {
                variants_mut(&mut s[d]).clear();
            } else {
                let at = src.below(s.len() as u64 + 1) as usize;
                let n = new_name(src, &names);
                s.insert(at, Item::Decl(n, Kind::Enum(vec![])));
            }
        }
        5 => {
            case.label("fault: too many variants");
            let n = *src.pick(&[33usize, 33, 34, 40, 64, 65, 100, 256, 300]);
            let v: Vec<String> = (0..n).map(|i| format!("v{}", i)).collect();
            if let (Some(d), true) = (pick_decl(src, s, false, false), src.chance(2, 3)) {
                *variants_mut(&mut s[d]) = v;
            } else {
                let at = src.below(s.len() as u64 + 1) as usize;
                let n = new_name(src, &names);
                s.insert(at, Item::Decl(n, Kind::Enum(v)));
            }
        }
        6 => {
            if let Some(d) = pick_decl(src, s, false, true) {
                let v = variants_mut(&mut s[d]);
                if v.len() < 32 || src.chance(1, 3) {
                    case.label("fault: variant repeated");
                    let x = src.pick(v).clone();
                    let at = src.below(v.len() as u64 + 1) as usize;
                    v.insert(at, x);
                }
            }
        }
        7 | 8 => {
            if let Some(d) = pick_decl(src, s, true, true) {
                case.label("fault: field repeated");
                let ty = if src.chance(1, 2) { src.pick(&BUILTINS).1.to_string() } else { src.pick(&names).clone() };
                let f = fields_mut(&mut s[d]);
                let x = src.pick(f).clone();
                let at = src.below(f.len() as u64 + 1) as usize;
                let y = if src.chance(1, 2) { x } else { Field { ty, array: false, optional: false, ..x } };
                f.insert(at, y);
            }
        }
        9 | 10 => {
            // a reference to anything, often closing a cycle
            if let Some(d) = pick_decl(src, s, true, true) {
                case.label("fault: reference changed");
                let me = match &s[d] {
                    Item::Decl(n, _) => n.clone(),
                    _ => unreachable!(),
                };
                let ty = if src.chance(1, 4) { me } else { src.pick(&names).clone() };
                let f = fields_mut(&mut s[d]);
                let i = src.below(f.len() as u64) as usize;
                f[i].ty = ty;
            }
        }
        11 => {
            if let Some(d) = pick_decl(src, s, true, true) {
                case.label("fault: unknown type");
                let n = new_name(src, &names);
                let f = fields_mut(&mut s[d]);
                let i = src.below(f.len() as u64) as usize;
                f[i].ty = n;
            }
        }
        12 => {
            case.label("fault: declaration removed");
            let n = src.pick(&names).clone();
            s.retain(|i| !matches!(i, Item::Decl(m, _) if *m == n));
        }
        13 => {
            case.label("fault: export of something else");
            let n = match src.below(3) {
                0 => src.pick(&names).clone(),
                1 => new_name(src, &names),
                _ => src.pick(&BUILTINS).1.to_string(),
            };
            for i in s.iter_mut() {
                if let Item::Export(m) = i {
                    *m = n.clone();
                }
            }
        }
        _ => {
            // a long cycle through new types
            case.label("fault: ring of new types");
            let k = if src.chance(1, 15) { *src.pick(&[9i64, 18, 35, 70]) } else { src.range(1, 5) } as usize;
            let mut taken: BTreeSet<String> = names.iter().cloned().collect();
            let ring: Vec<String> = (0..k).map(|_| fresh(src, &mut taken, Role::Type, true)).collect();
            let close = src.chance(2, 3);
            for i in 0..k {
                let mut f = vec![Field { name: "x".into(), ty: "uint8".into(), array: false, optional: false }];
                if i + 1 < k || close {
                    let a = src.chance(1, 3);
                    f.push(Field { name: "y".into(), ty: ring[(i + 1) % k].clone(), array: a, optional: !a && src.chance(1, 3) });
                }
                if src.chance(1, 3) {
                    f.push(Field { name: "z".into(), ty: src.pick(&names).clone(), array: false, optional: false });
                }
                src.shuffle(&mut f);
                let at = src.below(s.len() as u64 + 1) as usize;
                s.insert(at, Item::Decl(ring[i].clone(), Kind::Struct(f)));
            }
            if src.chance(1, 2) {
                if let Some(d) = pick_decl(src, s, true, false) {
                    fields_mut(&mut s[d]).push(Field { name: "zz_".into(), ty: ring[0].clone(), array: false, optional: false });
                }
            }
        }
    }
}
fn new_name(src: &mut Src, names: &[String]) -> String {
    let mut taken: BTreeSet<String> = names.iter().cloned().collect();
    fresh(src, &mut taken, Role::Type, true)
}

pub fn with_faults(src: &mut Src, case: &mut Case, min: usize) -> Schema {
    let mut s = if src.chance(1, 2) {
        case.label("random graph");
        graph(src)
    } else {
        schema(src, &Opt::normal())
    };
    let k = if min > 0 { src.range(min as i64, 3) } else { *src.pick(&[0i64, 1, 1, 1, 2, 3]) };
    for _ in 0..k {
        if !decl_names(&s).is_empty() {
            inject(src, &mut s, case);
        }
    }
    s
}

fn fault_label(f: &Fault) -> &'static str {
    match f {
        Fault::ManyExports => "has: more than one export",
        Fault::NoExport => "has: no export",
        Fault::DupDecl(_) => "has: duplicate declaration",
        Fault::OptArray(..) => "has: optional array",
        Fault::EmptyEnum(_) => "has: empty enum",
        Fault::TooMany(_) => "has: too many variants",
        Fault::DupVariant(..) => "has: duplicate variant",
        Fault::DupField(..) => "has: duplicate field",
        Fault::Cycle(_) => "has: cycle",
        Fault::Missing(_) => "has: unknown type",
        Fault::ExportNotStruct(_) => "has: export of a non-struct",
        Fault::ExportMissing(_) => "has: export of an unknown type",
    }
}
fn kinds(f: &BTreeSet<Fault>) -> usize {
    f.iter().map(fault_label).collect::<BTreeSet<_>>().len()
}
fn hang() -> String {
    "the compiler did not answer in time".into()
}

pub fn c08(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let s = with_faults(src, case, 0);
    let f = faults(&s);
    for x in &f {
        case.label(fault_label(x));
    }
    case.label(match kinds(&f) {
        0 => "valid",
        1 => "one kind of fault",
        _ => "several kinds of fault",
    });
    if f.is_empty() && expansion(&s) > 1500 {
        return Ok(Verdict::Discard);
    }
    let layout = if src.chance(1, 6) { Layout::Free } else { Layout::Plain };
    let text = render(src, &s, layout, true).text();
    case.show("schema", json::s(text.clone()));
    case.show("faults", json::s(format!("{:?}", f)));
    case.key = hash(text.as_bytes());
    case.nontrivial = decl_names(&s).len() >= 2;
    let runs = if f.is_empty() { 3 } else { 6 };
    for i in 0..runs {
        if i == 1 && src.chance(1, 40) {
            case.label("also in a new process");
            ctx.sut.next_aside();
        }
        case.inner += 1;
        let r = ctx.sut.compile(&text)?;
        match (&r, f.is_empty()) {
            (Reply::Hang, _) => return Err(hang()),
            (Reply::Module(_), true) | (Reply::CheckError(_), false) => (),
            (Reply::Module(_), false) => {
                return Ok(Verdict::Fail(format!("the schema has faults {:?} and compiles (attempt {})", f, i + 1)))
            }
            (r, true) => return Ok(Verdict::Fail(format!("the schema is valid and gives {:?} (attempt {})", r, i + 1))),
            (r, false) => {
                return Ok(Verdict::Fail(format!("the schema has faults {:?} and gives {:?} instead of a type error", f, r)))
            }
        }
    }
    Ok(Verdict::Pass)
}

pub fn c09(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let s = with_faults(src, case, 1);
    let f = faults(&s);
    if f.is_empty() {
        return Ok(Verdict::Discard);
    }
    for x in &f {
        case.label(fault_label(x));
    }
    case.label(if kinds(&f) == 1 { "one kind of fault" } else { "several kinds of fault" });
    let text = plain(&s);
    case.show("schema", json::s(text.clone()));
    case.show("faults", json::s(format!("{:?}", f)));
    case.key = hash(text.as_bytes());
    case.nontrivial = decl_names(&s).len() >= 2;
    let mut seen = BTreeSet::new();
    for _ in 0..6 {
        case.inner += 1;
        match ctx.sut.compile(&text)? {
            Reply::CheckError(m) => match claim(&m) {
                Some(c) => {
                    // where two of a thing share a name, either copy may be meant
                    if !f.contains(&c) {
                        return Ok(Verdict::Fail(format!("the message \"{}\" claims {:?}; the faults are {:?}", m.trim(), c, f)));
                    }
                    seen.insert(c);
                }
                None => case.label("wording not recognised"),
            },
            Reply::ParseError(m) => return Ok(Verdict::Fail(format!("a well-formed schema with faults {:?} gives the parse error \"{}\"", f, m.trim()))),
            Reply::Hang => return Err(hang()),
            // whether it is rejected at all is C08's question
            _ => case.label("not rejected"),
        }
    }
    if seen.len() > 1 {
        case.label("message varies between runs");
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C10

/// Any syntactically correct schema, valid or not.
fn any_schema(src: &mut Src, case: &mut Case) -> Schema {
    let mut out: Schema = Vec::new();
    let mut none = BTreeSet::new();
    let (min, max) = if src.chance(1, 40) { (9, 60) } else { (0, 8) };
    while src.more(out.len(), min, max, 3) {
        none.clear();
        match src.weighted(&[5, 3, 2]) {
            0 => {
                let n = fresh(src, &mut none, Role::Type, false);
                let mut f = Vec::new();
                let (min, max) = if src.chance(1, 200) { (30, 90) } else { (0, 8) };
                while src.more(f.len(), min, max, 2) {
                    none.clear();
                    let name = fresh(src, &mut none, Role::Field, false);
                    none.clear();
                    let ty = if src.chance(1, 2) { src.pick(&BUILTINS).1.to_string() } else { fresh(src, &mut none, Role::Type, false) };
                    f.push(Field { name, ty, array: src.chance(1, 3), optional: src.chance(1, 3) });
                }
                if f.is_empty() {
                    case.label("empty struct");
                }
                out.push(Item::Decl(n, Kind::Struct(f)));
            }
            1 => {
                let n = fresh(src, &mut none, Role::Type, false);
                let mut v = Vec::new();
                let max = if src.chance(1, 10) { 70 } else { 8 };
                while src.more(v.len(), 0, max, 3) {
                    none.clear();
                    v.push(fresh(src, &mut none, Role::Variant, false));
                }
                out.push(Item::Decl(n, Kind::Enum(v)));
            }
            _ => out.push(Item::Export(fresh(src, &mut none, Role::Type, false))),
        }
    }
    out
}

pub fn c10(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let s = if src.chance(2, 3) { any_schema(src, case) } else { schema(src, &Opt { ts: false, ..Opt::normal() }) };
    let text = render(src, &s, Layout::Free, false).text();
    case.show("schema", json::s(text.clone()));
    case.key = hash(text.as_bytes());
    case.nontrivial = !s.is_empty();
    case.inner = 1;
    if text.contains('#') {
        case.label("comments");
    }
    if text.contains("\r\n") {
        case.label("carriage returns");
    }
    if !text.is_ascii() {
        case.label("text beyond ASCII");
    }
    if !text.ends_with('\n') {
        case.label("no final line end");
    }
    // the generator and the reference parser must agree, or the harness is wrong
    if refparse::parse(&text) != Ref::Is(s.clone()) {
        return Err(format!("the reference parser disagrees with the generator on {:?}", text));
    }
    match ctx.sut.parse(&text)? {
        Reply::Ast(d) if d == dump(&s) => (),
        Reply::Ast(d) => {
            let w = dump(&s);
            let i = w.lines().zip(d.lines()).position(|(a, b)| a != b).unwrap_or(w.lines().count().min(d.lines().count()));
            return Ok(Verdict::Fail(format!(
                "parsed differently from line {} of the tree: expected {:?}, got {:?}",
                i + 1,
                w.lines().nth(i),
                d.lines().nth(i)
            )));
        }
        Reply::Hang => return Err(hang()),
        r => return Ok(Verdict::Fail(format!("well-formed text is refused: {:?}", r))),
    }
    if src.chance(1, 4) && expansion_ok(&s) {
        // what the compiler makes of it must not depend on the layout either
        case.label("compiled");
        let a = ctx.sut.compile(&text)?;
        let b = ctx.sut.compile(&plain(&s))?;
        let kind = |r: &Reply| match r {
            Reply::Module(_) => 0,
            Reply::CheckError(_) => 1,
            Reply::ParseError(_) => 2,
            _ => 3,
        };
        if kind(&a) != kind(&b) {
            return Ok(Verdict::Fail(format!("the layout decides the outcome: {:?} against {:?} for the plain text", a, b)));
        }
    }
    Ok(Verdict::Pass)
}
fn expansion_ok(s: &[Item]) -> bool {
    !faults(s).is_empty() || expansion(s) < 1500
}

// ---------------------------------------------------------------- C11

const TOKENS: &[&str] = &[
    "{", "}", ":", ",", "?", "[]", "[", "]", "#", "export", "enum", "struct", "uint8", "string", "float", "int32", "a", "B", "0", "0x",
    "1a", "_", " ", "\n", "\t", "\r\n", "\r", "enum {", "struct {", "a: uint8", "export A", "??", ",,", "::", "[][]", "[ ]", "{}", "é", "$",
    ";", "-", "\"a\"", "\u{0}", "\u{a0}", "\u{feff}", "//", "a.b", "a-b", "=", "(", ")", "<", "uint64", "export\n", "struct", "enumx",
    "Enum {", "STRUCT {", "Export A", "Uint8", ":?", "?:", "|", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{3000}", "\u{661}", "ñ", "!", "@", "*",
    "int64", "double", "bool", "char", "union {", "a: enum { A }\n", "A: struct { }\n", "[]?", "[4]", "a: b: uint8", "import", "# \r",
];

fn mutate_text(src: &mut Src, t: &Text, case: &mut Case) -> String {
    let mut p: Vec<String> = t.pieces.iter().map(|p| p.text.clone()).collect();
    let mut k = 0;
    while src.more(k, 1, 4, 1) {
        k += 1;
        if p.is_empty() {
            p.push(src.pick(TOKENS).to_string());
            continue;
        }
        let i = src.below(p.len() as u64) as usize;
        match src.below(12) {
            0 => {
                case.label("edit: piece removed");
                p.remove(i);
            }
            1 => {
                case.label("edit: piece doubled");
                let x = p[i].clone();
                p.insert(i, x);
            }
            2 => {
                case.label("edit: pieces swapped");
                let j = src.below(p.len() as u64) as usize;
                p.swap(i, j);
            }
            3 => {
                case.label("edit: piece replaced");
                p[i] = src.pick(TOKENS).to_string();
            }
            4 => {
                case.label("edit: token inserted");
                let x = if src.chance(1, 6) { dict::ident(src) } else { src.pick(TOKENS).to_string() };
                p.insert(i, x);
            }
            5 => {
                case.label("edit: character removed");
                let c: Vec<char> = p[i].chars().collect();
                if !c.is_empty() {
                    let j = src.below(c.len() as u64) as usize;
                    p[i] = c.iter().enumerate().filter(|x| x.0 != j).map(|x| *x.1).collect();
                }
            }
            6 => {
                case.label("edit: character inserted");
                let mut c: Vec<char> = p[i].chars().collect();
                let j = src.below(c.len() as u64 + 1) as usize;
                let x: Vec<char> = "{}:,?[]# \n\t\r$é0aZ_-;\"'\u{0}\u{b}\u{c}\u{85}\u{2028}!.+*".chars().collect();
                let x = if src.chance(1, 6) { dict::character(src) } else { *src.pick(&x) };
                c.insert(j, x);
                p[i] = c.into_iter().collect();
            }
            7 => {
                case.label("edit: cut");
                p.truncate(i + 1);
            }
            8 => {
                case.label("edit: name reserved");
                p[i] = src
                    .pick(&["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "enum", "struct", "export"])
                    .to_string();
            }
            9 => {
                case.label("edit: case changed");
                let mut c: Vec<char> = p[i].chars().collect();
                if !c.is_empty() {
                    let j = if src.chance(1, 2) { 0 } else { src.below(c.len() as u64) as usize };
                    let x = c[j];
                    c[j] = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                    p[i] = c.into_iter().collect();
                }
            }
            10 => {
                case.label("edit: character replaced");
                let mut c: Vec<char> = p[i].chars().collect();
                if !c.is_empty() {
                    let j = src.below(c.len() as u64) as usize;
                    c[j] = (b' ' + src.below(95) as u8) as char;
                    p[i] = c.into_iter().collect();
                }
            }
            _ => {
                case.label("edit: part repeated");
                let j = i + src.below((p.len() - i) as u64 + 1) as usize;
                let part: Vec<String> = p[i..j].to_vec();
                let at = src.below(p.len() as u64 + 1) as usize;
                let tail = p.split_off(at);
                p.extend(part);
                p.extend(tail);
            }
        }
    }
    p.concat()
}

pub fn c11(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let text = match src.weighted(&[8, 2]) {
        0 => {
            let s = if src.chance(1, 2) { any_schema(src, case) } else { schema(src, &Opt { ts: false, max_types: 3, max_fields: 4, ..Opt::normal() }) };
            let layout = if src.chance(1, 2) { Layout::Free } else { Layout::Plain };
            let t = render(src, &s, layout, false);
            mutate_text(src, &t, case)
        }
        _ => {
            case.label("tokens at random");
            let mut o = String::new();
            let mut k = 0;
            while src.more(k, 1, 20, 6) {
                k += 1;
                o.push_str(*src.pick(TOKENS));
                if src.chance(1, 2) {
                    o.push(' ');
                }
            }
            o
        }
    };
    case.show("text", json::s(text.clone()));
    case.inner = 1;
    case.key = hash(text.as_bytes());
    Ok(match text_case(ctx, &text, case)? {
        Ok(()) => Verdict::Pass,
        Err(m) => Verdict::Fail(m),
    })
}

/// Judges what the compiler makes of any text.
pub fn text_case(ctx: &mut Ctx, text: &str, case: &mut Case) -> Run<Result<(), String>> {
    let want = refparse::parse(text);
    let p = ctx.sut.parse(text)?;
    let small = match &want {
        Ref::Is(s) => expansion_ok(s),
        _ => true,
    };
    let c = if small { Some(ctx.sut.compile(text)?) } else { None };
    if p == Reply::Hang || c == Some(Reply::Hang) {
        return Err(hang());
    }
    if let Reply::Crash(m) = &p {
        return Ok(Err(format!("the parser crashes: {}", m)));
    }
    if let Some(Reply::Crash(m)) = &c {
        return Ok(Err(format!("the compiler crashes: {}", m)));
    }
    match want {
        Ref::Unclear => {
            case.label("text unclear");
            // both ways of looking at it must agree
            if matches!(p, Reply::Ast(_)) == matches!(c, Some(Reply::ParseError(_))) {
                return Ok(Err(format!("parsing gives {:?} and compiling gives {:?}", p, c)));
            }
            Ok(Ok(()))
        }
        Ref::Not => {
            case.label("text outside the grammar");
            case.nontrivial = true;
            if let Reply::Ast(d) = &p {
                return Ok(Err(format!("text outside the grammar is parsed as {:?}", d)));
            }
            match c {
                Some(Reply::ParseError(_)) => Ok(Ok(())),
                r => Ok(Err(format!("text outside the grammar compiles to {:?}", r))),
            }
        }
        Ref::Is(s) => {
            case.label("text inside the grammar");
            case.nontrivial = !s.is_empty();
            match &p {
                Reply::Ast(d) if *d == dump(&s) => (),
                r => return Ok(Err(format!("expected the tree {:?}, got {:?}", dump(&s), r))),
            }
            match c {
                Some(Reply::ParseError(m)) => Ok(Err(format!("well-formed text is refused: {}", m))),
                _ => Ok(Ok(())),
            }
        }
    }
}

// ---------------------------------------------------------------- C12

fn position(prefix: &str) -> (usize, usize, usize) {
    let line = prefix.matches('\n').count() + 1;
    let last = prefix.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, prefix[last..].chars().count() + 1, prefix.len())
}
fn mentions(m: &str, word: &str, n: usize) -> bool {
    let t = format!("{} {}", word, n);
    m.match_indices(&t).any(|(i, _)| !m[i + t.len()..].starts_with(|c: char| c.is_ascii_digit()))
}

pub fn c12(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let s = if src.chance(1, 2) { any_schema(src, case) } else { schema(src, &Opt { ts: false, max_types: 4, ..Opt::normal() }) };
    let layout = if src.chance(3, 4) { Layout::Free } else { Layout::Plain };
    let ascii = src.chance(1, 4);
    let t = render(src, &s, layout, ascii);
    let cut = src.chance(1, 4);
    let (text, at, token) = if cut {
        let open: Vec<usize> = (0..t.pieces.len()).filter(|i| t.pieces[*i].open).collect();
        if open.is_empty() {
            return Ok(Verdict::Discard);
        }
        case.label("cut short");
        let i = *src.pick(&open);
        let x = t.upto(i + 1);
        (x.clone(), x.len(), None)
    } else {
        case.label("illegal character");
        let spots: Vec<usize> = (0..=t.pieces.len()).filter(|i| *i == 0 || !t.pieces[*i - 1].comment).collect();
        let i = *src.pick(&spots);
        let chars: Vec<char> = "$@!;()\"'/\\|&*+-.=<>%^~`é日😀ñ\u{a0}\u{7f}\u{b}\u{c}\u{1}\u{85}\u{2028}\u{3000}\u{feff}\u{661}".chars().collect();
        let c = *src.pick(&chars);
        if !c.is_ascii() {
            case.label("illegal character beyond ASCII");
        }
        let mut x = t.upto(i);
        let at = x.len();
        x.push(c);
        x.extend(t.pieces[i..].iter().map(|p| p.text.as_str()));
        (x, at, Some(c))
    };
    let pad = match src.weighted(&[200, 6, 2, 2]) {
        0 => String::new(),
        k => {
            let n = match src.weighted(&[20, 10, 10, 1]) {
                0 => src.range(1, 300) as usize,
                1 => dict::number(src, 1, 3000) as usize,
                2 => *src.pick(&[255usize, 256, 257, 511, 520, 1000, 1030, 4100]),
                _ => *src.pick(&[65535usize, 65536, 65540]),
            };
            case.label(if k == 3 { "far along the line" } else { "many lines before it" });
            ["", "\n", "# x\n", " "][k].repeat(n)
        }
    };
    let (text, at) = (pad.clone() + &text, pad.len() + at);
    case.show("text", json::s(text.clone()));
    case.key = hash(text.as_bytes());
    case.inner = 1;
    let (line, col, off) = position(&text[..at]);
    let before = &text[..at];
    let this_line = &before[before.rfind('\n').map(|i| i + 1).unwrap_or(0)..];
    if !this_line.is_ascii() {
        case.label("text beyond ASCII earlier on the line");
    } else if !before.is_ascii() {
        case.label("text beyond ASCII on earlier lines");
    }
    if line > 1 {
        case.label("not on the first line");
    }
    if before.contains("\r\n") {
        case.label("carriage returns before it");
    }
    case.nontrivial = line > 1 || col > 1;
    case.show("expected position", json::s(format!("line {}, column {}", line, col)));
    match ctx.sut.parse(&text)? {
        Reply::ParseErrorAt(l, c, o) if (l, c, o) == (line, col, off) => (),
        Reply::Hang => return Err(hang()),
        r => return Ok(Verdict::Fail(format!("expected a parse error at line {}, column {} (offset {}), got {:?}", line, col, off, r))),
    }
    let m = match ctx.sut.compile(&text)? {
        Reply::ParseError(m) => m,
        Reply::Hang => return Err(hang()),
        r => return Ok(Verdict::Fail(format!("expected a parse error from compiling, got {:?}", r))),
    };
    if !mentions(&m, "line", line) || !mentions(&m, "column", col) {
        return Ok(Verdict::Fail(format!("the message should say line {}, column {}: {:?}", line, col, m)));
    }
    if let Some(c) = token {
        if !m.contains(&format!("'{}'", c)) {
            return Ok(Verdict::Fail(format!("the message should show the character {:?}: {:?}", c, m)));
        }
        let source = text.split('\n').nth(line - 1).unwrap_or("").trim_end_matches('\r');
        let lines: Vec<&str> = m.split('\n').map(|l| l.trim_end_matches('\r')).collect();
        let shown = lines.windows(2).any(|w| {
            w[0].ends_with(source) && {
                let lead = w[0][..w[0].len() - source.len()].chars().count();
                w[1].chars().position(|c| c == '^') == Some(lead + col - 1)
            }
        });
        if !shown {
            return Ok(Verdict::Fail(format!("the message should show the line {:?} with a marker under column {}: {:?}", source, col, m)));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C13

pub fn hostile(src: &mut Src, case: &mut Case) -> (String, bool) {
    let f = |name: &str, ty: &str| Field { name: name.into(), ty: ty.into(), array: false, optional: false };
    match src.weighted(&[4, 4, 3, 3, 2, 1, 1, 1, 1, 1, 1]) {
        0 => {
            case.label("faulty schema");
            let s = with_faults(src, case, 0);
            let ok = expansion_ok(&s);
            (render(src, &s, Layout::Free, false).text(), ok)
        }
        1 => {
            case.label("edited text");
            let s = any_schema(src, case);
            let t = render(src, &s, Layout::Free, false);
            (mutate_text(src, &t, case), true)
        }
        2 => {
            case.label("tokens at random");
            let mut o = String::new();
            let mut k = 0;
            while src.more(k, 0, 60, 15) {
                k += 1;
                o.push_str(*src.pick(TOKENS));
            }
            (o, true)
        }
        3 => {
            case.label("characters at random");
            let seed = src.seed();
            let n = *src.pick(&[0usize, 1, 2, 3, 5, 10, 50, 300]);
            let mut r = Rng::new(seed);
            let mode = src.below(3);
            let o = (0..n)
                .map(|_| match mode {
                    0 => (r.below(128) as u8) as char,
                    1 => char::from_u32(r.below(0x11000) as u32).unwrap_or('\u{fffd}'),
                    _ => *[' ', '\n', '\r', '\t', '#', '{', '}', ':', 'a', 'e', '[', ']', '?', ',', '\u{1F600}', 'é'].get(r.below(16) as usize).unwrap(),
                })
                .collect();
            (o, true)
        }
        4 => {
            case.label("schema edited after it is broken");
            let s = with_faults(src, case, 1);
            let t = render(src, &s, Layout::Free, false);
            let m = mutate_text(src, &t, case);
            let ok = match refparse::parse(&m) {
                Ref::Is(s) => expansion_ok(&s),
                // what is unclear may still compile, and be too large
                _ => expansion(&s) < 1500,
            };
            (m, ok)
        }
        5 => {
            // a chain of references, not used by the export
            case.label("long unused chain");
            let n = *src.pick(&[10usize, 50, 100, 300, 1000]);
            let mut s: Schema = (0..n).map(|i| Item::Decl(format!("c{}", i), Kind::Struct(vec![f("x", "uint8"), f("n", if i + 1 < n { "" } else { "uint8" })]))).collect();
            for i in 0..n - 1 {
                fields_mut(&mut s[i])[1].ty = format!("c{}", i + 1);
            }
            if src.chance(1, 3) {
                case.label("closed into a ring");
                fields_mut(&mut s[n - 1])[1].ty = "c0".into();
            }
            src.shuffle(&mut s);
            s.push(Item::Decl("E".into(), Kind::Struct(vec![f("x", "uint8")])));
            s.push(Item::Export("E".into()));
            (plain(&s), true)
        }
        6 => {
            // each type uses the previous one twice: small to write, huge when expanded, but unused
            case.label("widely shared unused types");
            let n = *src.pick(&[5usize, 20, 40, 64]);
            let mut s: Schema = Vec::new();
            for i in 0..n {
                let ty = if i == 0 { "uint8".to_string() } else { format!("d{}", i - 1) };
                s.push(Item::Decl(format!("d{}", i), Kind::Struct(vec![f("a", &ty), f("b", &ty)])));
            }
            if src.chance(1, 4) {
                // and a cycle or an unknown type at the bottom
                fields_mut(&mut s[0])[1].ty = if src.chance(1, 2) { format!("d{}", n - 1) } else { "nothing".into() };
            }
            src.shuffle(&mut s);
            s.push(Item::Decl("E".into(), Kind::Struct(vec![f("x", "uint8")])));
            s.push(Item::Export("E".into()));
            (plain(&s), true)
        }
        7 => {
            case.label("very long name");
            let n = *src.pick(&[1000usize, 10_000, 100_000]);
            let name: String = std::iter::repeat('n').take(n).collect();
            let which = src.below(4);
            let g = |k: u64, d: &str| if k == which { name.clone() } else { d.to_string() };
            (format!("{}: enum {{ {} }}\n{}: struct {{ {}: {} }}\nexport {}\n", g(0, "A"), g(1, "V"), g(2, "E"), g(3, "x"), g(0, "A"), g(2, "E")), true)
        }
        8 => {
            case.label("many declarations");
            let n = *src.pick(&[200usize, 1000, 3000]);
            let mut o = String::new();
            for i in 0..n {
                o.push_str(&format!("t{}: struct {{ x: {}, y: uint8[] }}\n", i, if i % 3 == 1 { format!("t{}", i - 1) } else { "string".into() }));
            }
            o.push_str("export t1\n");
            (o, true)
        }
        9 => {
            case.label("many fields or variants");
            let n = *src.pick(&[31usize, 32, 33, 100, 1000, 3000]);
            let body: Vec<String> = (0..n).map(|i| format!("v{}", i)).collect();
            if src.chance(1, 2) {
                (format!("e: enum {{ {} }}\nE: struct {{ e: e }}\nexport E\n", body.join(", ")), true)
            } else {
                let b: Vec<String> = body.iter().map(|v| format!("{}: {}", v, if v.len() % 2 == 0 { "uint8" } else { "string[]" })).collect();
                (format!("E: struct {{ {} }}\nexport E\n", b.join(", ")), true)
            }
        }
        _ => {
            // a chain the export does use
            case.label("long used chain");
            let n = *src.pick(&[5usize, 20, 40, 60, 150, 300]);
            let mode = src.below(3);
            let mut s: Schema = Vec::new();
            for i in 0..n {
                let ty = if i + 1 < n { format!("c{}", i + 1) } else { "string".into() };
                s.push(Item::Decl(
                    format!("c{}", i),
                    Kind::Struct(vec![f("x", "uint8"), Field { name: "n".into(), ty, array: mode == 1, optional: mode == 2 }]),
                ));
            }
            src.shuffle(&mut s);
            s.push(Item::Export("c0".into()));
            (plain(&s), true)
        }
    }
}

pub fn c13(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let (text, ok) = hostile(src, case);
    if !ok {
        return Ok(Verdict::Discard);
    }
    case.show("text", json::s(text.clone()));
    case.key = hash(text.as_bytes());
    case.nontrivial = text.len() > 3;
    case.inner = 1;
    match ctx.sut.compile(&text)? {
        Reply::Crash(m) => Ok(Verdict::Fail(format!("compiling crashes: {}", m))),
        Reply::Hang => Ok(Verdict::Fail("compiling does not end: no answer within 30 s and, in a new process, within 60 s".into())),
        r => {
            case.label(match r {
                Reply::Module(_) => "gives a module",
                Reply::ParseError(_) => "gives a parse error",
                _ => "gives a type error",
            });
            Ok(Verdict::Pass)
        }
    }
}

// ---------------------------------------------------------------- C18

/// What a module says apart from when it was made; the types are declared in no particular order.
fn lines_of(module: &str) -> Vec<&str> {
    let mut l: Vec<&str> = module.lines().skip(module.starts_with("//") as usize).collect();
    l.sort_unstable();
    l
}
/// A schema with the same names and other contents.
fn sibling(src: &mut Src, s: &[Item]) -> Schema {
    let mut o = s.to_vec();
    for i in o.iter_mut() {
        match i {
            Item::Decl(_, Kind::Enum(v)) => match src.below(4) {
                0 => v.reverse(),
                1 => v.truncate(1 + v.len() / 2),
                2 => v.extend((0..9).map(|i| format!("More{}", i)).take(32 - v.len().min(32))),
                _ => (),
            },
            Item::Decl(_, Kind::Struct(f)) => match src.below(5) {
                0 => f.reverse(),
                1 => f.truncate(f.len() / 2),
                2 => f.iter_mut().for_each(|f| f.ty = src.pick(&BUILTINS).1.to_string()),
                3 => f.iter_mut().for_each(|f| (f.array, f.optional) = *src.pick(&[(false, false), (true, false), (false, true)])),
                _ => (),
            },
            Item::Export(_) => (),
        }
    }
    if src.chance(1, 6) {
        let at = src.below(o.len() as u64) as usize;
        o.remove(at);
    }
    o
}

/// When a module says it was made, in seconds since 1970, from its first line.
fn made(m: &str) -> Option<i64> {
    let l = m.lines().next()?.strip_prefix("//")?;
    if !l.contains("packetc") {
        return None;
    }
    let w: Vec<&str> = l.split_whitespace().collect();
    let [_, day, month, year, time, "+0000"] = w.get(w.len().checked_sub(6)?..)? else { return None };
    let months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    let n = |x: &str| x.parse::<i64>().ok();
    let (d, m, y) = (n(day)?, months.iter().position(|x| x == month)? as i64 + 1, n(year)?);
    let t: Vec<i64> = time.split(':').map_while(n).collect();
    let [hh, mm, ss] = t[..] else { return None };
    let (y, m) = if m > 2 { (y, m - 3) } else { (y - 1, m + 9) };
    let days = 365 * y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + (153 * m + 2) / 5 + d - 1 - 719468;
    Some(days * 86400 + hh * 3600 + mm * 60 + ss)
}

pub fn c18(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = Opt { ts: false, ..crate::props_wire::options(src) };
    let s = schema(src, &o);
    let mut u = used(&s);
    u.insert(export_of(&s).to_string());
    case.nontrivial = u.len() > 1;
    let layout = |src: &mut Src| if src.chance(1, 2) { Layout::Free } else { Layout::Plain };
    let l = layout(src);
    let a = render(src, &s, l, false).text();
    // the same again with other declarations around it, in another order and another layout
    let mut t = s.clone();
    if src.chance(1, 2) {
        case.label("unused declarations removed");
        t.retain(|i| !matches!(i, Item::Decl(n, _) if !u.contains(n)));
    }
    let mut taken: BTreeSet<String> = t.iter().map(|i| match i { Item::Decl(n, _) | Item::Export(n) => n.clone() }).collect();
    let mut k = 0;
    while src.more(k, 0, 4, 1) {
        k += 1;
        case.label("unused declarations added");
        let n = fresh(src, &mut taken, Role::Type, false);
        let kind = if src.chance(1, 3) {
            Kind::Enum(vec!["A".into(), "B".into()])
        } else {
            let names: Vec<&String> = u.iter().collect();
            let ty = if src.chance(1, 2) { src.pick(&names).to_string() } else { src.pick(&BUILTINS).1.to_string() };
            Kind::Struct(vec![Field { name: "f".into(), ty, array: src.chance(1, 2), optional: false }])
        };
        t.push(Item::Decl(n, kind));
    }
    if src.chance(3, 4) {
        case.label("another order");
        src.shuffle(&mut t);
    }
    let l = layout(src);
    let b = render(src, &t, l, false).text();
    let x = sibling(src, &s);
    let x = render(src, &x, Layout::Plain, false).text();
    let fresh_process = src.chance(1, 40);
    case.show("schema", json::s(a.clone()));
    case.show("rewritten", json::s(b.clone()));
    case.show("compiled in between", json::s(x.clone()));
    case.key = hash(format!("{}\0{}\0{}", a, b, x).as_bytes());
    let mut module = |ctx: &mut Ctx, text: &str| -> Run<Result<String, String>> {
        case.inner += 1;
        Ok(match ctx.sut.compile(text)? {
            Reply::Module(m) => Ok(m),
            Reply::Hang => return Err(hang()),
            r => Err(format!("a valid schema does not compile: {:?}", r)),
        })
    };
    macro_rules! get {
        ($t:expr) => {
            match module(ctx, $t)? {
                Ok(m) => m,
                Err(e) => return Ok(Verdict::Fail(e)),
            }
        };
    }
    let first = get!(&a);
    // an hour either way, so that a clock being set does not matter
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0);
    if made(&first).map_or(true, |t| (t - now).abs() > 3600) {
        return Ok(Verdict::Fail(format!("the first line should name the compiler and the time and is {:?}", first.lines().next().unwrap_or(""))));
    }
    let want = lines_of(&first);
    let differs = |m: &str, what: &str| -> Option<Verdict> {
        let got = lines_of(m);
        if got == want {
            return None;
        }
        let at = want.iter().zip(&got).position(|(x, y)| x != y).unwrap_or(want.len().min(got.len()));
        Some(Verdict::Fail(format!("{}: among the lines of the code, sorted, {:?} became {:?}", what, want.get(at), got.get(at))))
    };
    if let Some(f) = differs(&get!(&b), "the rewritten schema gives other code") {
        return Ok(f);
    }
    let _ = ctx.sut.compile(&x)?;
    if let Some(f) = differs(&get!(&a), "compiled again, after another schema, the schema gives other code") {
        return Ok(f);
    }
    if fresh_process {
        case.label("in a fresh process");
        ctx.sut.next_aside();
        let m = match ctx.sut.compile(&a)? {
            Reply::Module(m) => m,
            Reply::Hang => return Err(hang()),
            r => return Ok(Verdict::Fail(format!("a valid schema does not compile: {:?}", r))),
        };
        if let Some(f) = differs(&m, "compiled by a fresh process the schema gives other code") {
            return Ok(f);
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C22

pub fn c22(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let n = 2 + src.below(4) as usize;
    let mut texts: Vec<String> = Vec::new();
    let mut last: Option<Schema> = None;
    while texts.len() < n {
        let kind = src.weighted(&[6, 3, 2, 1]);
        let text = match (kind, &last) {
            (1, Some(s)) => {
                case.label("the same names, other contents");
                let t = sibling(src, s);
                render(src, &t, Layout::Plain, false).text()
            }
            (2, Some(_)) => {
                case.label("the same schema twice");
                texts[texts.len() - 1].clone()
            }
            (3, _) => {
                case.label("a faulty schema");
                plain(&with_faults(src, case, 1))
            }
            _ => {
                let o = Opt { ts: false, ..crate::props_wire::options(src) };
                let s = schema(src, &o);
                let l = if src.chance(1, 2) { Layout::Free } else { Layout::Plain };
                let t = render(src, &s, l, false).text();
                last = Some(s);
                t
            }
        };
        texts.push(text);
    }
    for (i, t) in texts.iter().enumerate() {
        case.show(["schema 1", "schema 2", "schema 3", "schema 4", "schema 5"][i], json::s(t.clone()));
    }
    case.key = hash(texts.join("\0").as_bytes());
    case.nontrivial = texts.iter().collect::<BTreeSet<_>>().len() > 1;
    let mut alone = Vec::new();
    for t in &texts {
        case.inner += 1;
        alone.push(match ctx.sut.compile(t)? {
            Reply::Hang => return Err(hang()),
            // what a schema does on its own is for other properties
            Reply::Crash(_) => return Ok(Verdict::Discard),
            r => r,
        });
    }
    let all = match ctx.sut.together(&texts)? {
        Reply::Together(all) => all,
        Reply::Hang => return Err(hang()),
        r => return Ok(Verdict::Fail(format!("schemas that compile one at a time end the process when compiled at the same time: {:?}", r))),
    };
    if all.is_empty() || all.len() % n != 0 {
        return Err(format!("{} replies to {} texts", all.len(), n));
    }
    let rounds = all.len() / n;
    for (i, r) in all.iter().enumerate() {
        let k = i / rounds;
        case.inner += 1;
        let m = match (&alone[k], r) {
            (Reply::Module(a), Reply::Module(b)) => {
                let (a, b) = (lines_of(a), lines_of(b));
                if a == b {
                    continue;
                }
                let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                format!("the code differs: among its lines, sorted, {:?} became {:?}", a.get(at), b.get(at))
            }
            // which of several faults is named may differ
            (Reply::CheckError(_), Reply::CheckError(_)) => continue,
            (Reply::ParseError(a), Reply::ParseError(b)) if a == b => continue,
            (a, b) => format!("{:.300} became {:.300}", format!("{:?}", a), format!("{:?}", b)),
        };
        return Ok(Verdict::Fail(format!("schema {} compiled at the same time as others: {}", k + 1, m)));
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C21

/// What the checked form of a schema should be.
fn checked(s: &[Item]) -> String {
    let d = decls(s);
    let e = export_of(s).to_string();
    let fields = |o: &mut String, f: &[Field]| {
        for f in f {
            let kind = match builtin(&f.ty) {
                // the names of the variants of `Builtin`
                Some(_) => format!("{}{}", f.ty[..1].to_uppercase(), &f.ty[1..]),
                None => "declared".to_string(),
            };
            o.push_str(&format!("  {} {} {} array={} optional={}\n", f.name, f.ty, kind, f.array, f.optional));
        }
    };
    let mut o = format!("export {}\n", e);
    if let Some(Kind::Struct(f)) = d.get(e.as_str()) {
        fields(&mut o, f);
    }
    let mut u = used(s);
    u.insert(e);
    for n in u {
        match d.get(n.as_str()) {
            Some(Kind::Enum(v)) => {
                let bytes = if v.len() <= 8 { 1 } else if v.len() <= 16 { 2 } else { 4 };
                o.push_str(&format!("{} enum {} {}\n", n, n, bytes));
                v.iter().enumerate().for_each(|(i, v)| o.push_str(&format!("  {} {}\n", v, i)));
            }
            Some(Kind::Struct(f)) => {
                o.push_str(&format!("{} struct {}\n", n, n));
                fields(&mut o, f);
            }
            None => (),
        }
    }
    o
}

pub fn c21(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = Opt { ts: false, ..crate::props_wire::options(src) };
    let s = schema(src, &o);
    let text = plain(&s);
    let want = checked(&s);
    case.show("schema", json::s(text.clone()));
    case.key = hash(text.as_bytes());
    case.nontrivial = !used(&s).is_empty();
    let times = if src.chance(1, 8) { 3 } else { 1 };
    for _ in 0..times {
        case.inner += 1;
        match ctx.sut.resolve(&text)? {
            Reply::Resolved(got) if got == want => (),
            Reply::Resolved(got) => {
                let (w, g): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
                let at = w.iter().zip(&g).position(|(x, y)| x != y).unwrap_or(w.len().min(g.len()));
                return Ok(Verdict::Fail(format!("line {} of the checked form should be {:?} and is {:?}\nexpected:\n{}\nfound:\n{}", at + 1, w.get(at), g.get(at), want, got)));
            }
            Reply::Hang => return Err(hang()),
            r => return Ok(Verdict::Fail(format!("a valid schema is refused: {:?}", r))),
        }
    }
    Ok(Verdict::Pass)
}
