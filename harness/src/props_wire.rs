//! Properties of generated code: C01 to C07 and C17.
use crate::dict;
use crate::engine::*;
use crate::json::{self, obj, J};
use crate::model::*;
use crate::procs::Reply;
use crate::value::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Compiles a schema that is valid; anything but a module is a failure of the property.
pub fn compile(ctx: &mut Ctx, text: &str) -> Run<Result<String, String>> {
    Ok(match ctx.sut.compile(text)? {
        Reply::Module(t) => Ok(t),
        Reply::Hang => return Err("the compiler did not answer in time on a valid schema".into()),
        r => Err(format!("a valid schema does not compile: {:?}", r)),
    })
}

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(m) => return Ok(Verdict::Fail(m.into())),
        }
    };
}

pub fn labels(s: &[Item], case: &mut Case) {
    let d = decls(s);
    let used = used(s);
    let exp = export_of(s);
    if used.len() >= 2 {
        case.label("two or more used types");
    }
    if d.len() > used.len() + 1 {
        case.label("unused declarations");
    }
    let mut depth = 0;
    fn deep(d: &BTreeMap<&str, &Kind>, n: &str) -> usize {
        match d.get(n) {
            Some(Kind::Struct(f)) => 1 + f.iter().map(|f| deep(d, &f.ty)).max().unwrap_or(0),
            _ => 0,
        }
    }
    if let Some(Kind::Struct(_)) = d.get(exp) {
        depth = deep(&d, exp);
    }
    if depth >= 3 {
        case.label("structs nested three deep");
    }
    if depth >= 5 {
        case.label("structs nested five deep");
    }
    if depth >= 12 {
        case.label("structs nested twelve deep");
    }
    if depth >= 33 {
        case.label("structs nested 33 deep");
    }
    if let Some(Kind::Struct(f)) = d.get(exp) {
        if f.len() > 64 {
            case.label("more than 64 fields");
        }
        if f.len() > 256 {
            case.label("more than 256 fields");
        }
    }
    let names: Vec<&str> = used.iter().map(|x| x.as_str()).chain(Some(exp)).collect();
    for n in names {
        match d.get(n) {
            Some(Kind::Enum(v)) => {
                case.label(match v.len() {
                    0..=8 => "enum of one byte",
                    9..=16 => "enum of two bytes",
                    _ => "enum of four bytes",
                });
                if v.len() == 32 {
                    case.label("enum of 32 variants");
                }
            }
            Some(Kind::Struct(f)) => {
                let mut seen_ref = false;
                for x in f {
                    let named = builtin(&x.ty).is_none();
                    let st = matches!(d.get(x.ty.as_str()), Some(Kind::Struct(_)));
                    if x.array && st {
                        case.label("array of structs");
                    }
                    if x.optional && st {
                        case.label("optional struct");
                    }
                    if x.array && named && !st {
                        case.label("array of enums");
                    }
                    if x.optional && named && !st {
                        case.label("optional enum");
                    }
                    if x.ty == "string" && x.array {
                        case.label("array of strings");
                    }
                    if seen_ref && !named {
                        case.label("builtin field after a reference");
                    }
                    seen_ref |= named;
                    if x.name.contains('_') {
                        case.label("names with underscores");
                    }
                }
                if f.is_empty() {
                    case.label("empty struct");
                }
            }
            None => (),
        }
    }
}

pub fn nontrivial(s: &[Item]) -> bool {
    let d = decls(s);
    let fields: usize = used(s)
        .iter()
        .map(|x| x.as_str())
        .chain(Some(export_of(s)))
        .map(|n| match d.get(n) {
            Some(Kind::Struct(f)) => f.len(),
            _ => 0,
        })
        .sum();
    fields >= 2
}

pub fn gen_schema(src: &mut Src, case: &mut Case, o: &Opt) -> (Schema, String, Rc<T>) {
    let s = schema(src, o);
    let layout = if src.chance(1, 5) { Layout::Free } else { Layout::Plain };
    let text = render(src, &s, layout, true).text();
    let t = resolve(&s, export_of(&s));
    labels(&s, case);
    case.nontrivial = nontrivial(&s);
    case.show("schema", json::s(text.clone()));
    (s, text, t)
}

pub fn options(src: &mut Src) -> Opt {
    let mut o = Opt::normal();
    match src.weighted(&[48, 8, 4, 4, 2, 1, 1]) {
        0 => (),
        1 => {
            o.max_types = 14;
            o.leaves = 300;
            o.max_depth = 14;
        }
        2 => {
            o.max_fields = 60;
            o.leaves = 200;
        }
        4 => {
            o.thin = true;
            o.min_types = *src.pick(&[12usize, 20, 40]);
            o.max_types = 50;
            o.max_depth = 60;
            o.leaves = 300;
        }
        5 => {
            o.min_fields = if src.chance(1, 3) { dict::number(src, 1, 300) as usize } else { *src.pick(&[33usize, 65, 129, 257, 300]) };
            o.max_fields = 310;
            o.leaves = 800;
        }
        6 => {
            o.all = true;
            o.min_types = if src.chance(1, 3) { dict::number(src, 1, 140) as usize } else { *src.pick(&[33usize, 65, 101, 130]) };
            o.max_types = 140;
            o.max_fields = 3;
            o.leaves = 12;
            o.max_depth = 3;
        }
        _ => {
            o.max_types = 3;
            o.max_fields = 4;
        }
    }
    o
}

pub fn gen_values(src: &mut Src, t: &T, case: &mut Case, n: usize) -> Vec<V> {
    let mut out = Vec::new();
    for _ in 0..n {
        let big = src.chance(1, 40);
        let mut z = Size { left: if big { 150_000 } else { 4000 }, big };
        out.push(value(src, t, &mut z));
    }
    fn visit(v: &V, case: &mut Case) {
        match v {
            V::Arr(a) => {
                if a.is_empty() {
                    case.label("empty array");
                }
                if a.len() > 255 {
                    case.label("array over 255 elements");
                }
                if a.len() > 65535 {
                    case.label("array over 65535 elements");
                }
                a.iter().take(30).for_each(|v| visit(v, case));
            }
            V::S(s) => {
                if s.len() > 255 {
                    case.label("string over 255 characters");
                }
                if s.len() > 65535 {
                    case.label("string over 65535 characters");
                }
            }
            V::Obj(f) => f.iter().for_each(|v| visit(&v.1, case)),
            V::No(_) => case.label("absent optional"),
            V::Int(x) => {
                if *x < 0 {
                    case.label("negative number");
                }
                if *x > i32::MAX as i64 {
                    case.label("number over 2^31");
                }
            }
            V::F(b) => {
                let f = f32::from_bits(*b);
                if !f.is_finite() {
                    case.label("float not finite");
                }
            }
        }
    }
    out.iter().for_each(|v| visit(v, case));
    case.inner += n as u64;
    out
}

pub fn show_values(case: &mut Case, vs: &[V]) {
    case.show("values", J::Arr(vs.iter().map(to_json).collect()));
    let mut k = Vec::new();
    for (_, j) in &case.input {
        k.extend_from_slice(j.text().as_bytes());
    }
    case.key = hash(&k);
}

fn op(name: &str, mut f: Vec<(&str, J)>) -> J {
    f.insert(0, ("op", json::s(name)));
    obj(f)
}
/// Runs operations on the class of a generated module. The inner error is a failure of the property.
pub fn run_ops(ctx: &mut Ctx, module: &str, exp: &str, ops: Vec<J>) -> Run<Result<Vec<J>, String>> {
    let n = ops.len();
    let mut q = vec![("ts", json::s(module)), ("exp", json::s(exp)), ("ops", J::Arr(ops))];
    if ctx.fast {
        q.push(("fast", J::Bool(true)));
        ctx.js.fast = true;
    }
    let r = ctx.js.call(&obj(q))?;
    if let Some(e) = r.get("load").str() {
        return Ok(Err(format!("the generated module does not load: {}", e)));
    }
    let res = r.get("res").arr().to_vec();
    if res.len() != n {
        return Err("the worker gave too few results".into());
    }
    Ok(Ok(res))
}
fn trouble(j: &J) -> Option<String> {
    if let Some(e) = j.get("e").str() {
        return Some(format!("threw {}", e));
    }
    if j.get("k") != &J::Null {
        return Some("did far more work than the packet warrants".into());
    }
    None
}

/// The beginning all properties about generated code share, except C07: a schema, compiled.
pub fn begin(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (_, text, _) = gen_schema(src, case, &o);
    ctx.sut.compile(&text)?;
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C01

pub fn c01(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (s, text, t) = gen_schema(src, case, &o);
    let module = tri!(compile(ctx, &text)?);
    let n = src.range(2, 5) as usize;
    let vs = gen_values(src, &t, case, n);
    show_values(case, &vs);
    let ops = vs.iter().map(|v| op("rt", vec![("v", to_json(v))])).collect();
    let res = tri!(run_ops(ctx, &module, export_of(&s), ops)?);
    for (v, r) in vs.iter().zip(&res) {
        let show = || to_json(v).text().chars().take(600).collect::<String>();
        if let Some(e) = trouble(r) {
            return Ok(Verdict::Fail(format!("writing and reading back {} {}", show(), e)));
        }
        if r.get("z") != &J::Null {
            return Ok(Verdict::Fail(format!("the packet written for {} is refused when read", show())));
        }
        if let Err(e) = same(r.get("v"), v, "") {
            return Ok(Verdict::Fail(format!("the packet read back differs {}; written: {}", e, show())));
        }
        if r.get("b") != r.get("b2") {
            return Ok(Verdict::Fail(format!(
                "writing the packet that was read gives other bytes: {}",
                hexdiff(r.get("b").str().unwrap_or(""), r.get("b2").str().unwrap_or(""))
            )));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (s, text, t) = gen_schema(src, case, &o);
    let module = tri!(compile(ctx, &text)?);
    let n = src.range(2, 5) as usize;
    let vs = gen_values(src, &t, case, n);
    show_values(case, &vs);
    Ok(match wire(ctx, &module, export_of(&s), &t, &vs)? {
        Ok(()) => Verdict::Pass,
        Err(m) => Verdict::Fail(m),
    })
}

/// Checks bytes and values in both directions against the reference codec.
pub fn wire(ctx: &mut Ctx, module: &str, exp: &str, t: &T, vs: &[V]) -> Run<Result<(), String>> {
    let mut ops = Vec::new();
    let mut want = Vec::new();
    for v in vs {
        let mut b = Vec::new();
        encode(t, v, &mut b);
        let h = hex(&b);
        ops.push(op("w", vec![("v", to_json(v))]));
        ops.push(op("r", vec![("b", json::s(h.clone()))]));
        want.push(h);
    }
    let res = match run_ops(ctx, module, exp, ops)? {
        Ok(r) => r,
        Err(m) => return Ok(Err(m)),
    };
    for (i, v) in vs.iter().enumerate() {
        let show = || to_json(v).text().chars().take(600).collect::<String>();
        let (w, r) = (&res[2 * i], &res[2 * i + 1]);
        if let Some(e) = trouble(w) {
            return Ok(Err(format!("writing {} {}", show(), e)));
        }
        let got = w.get("b").str().unwrap_or("");
        if got != want[i] {
            return Ok(Err(format!("wrong bytes for {}: {}", show(), hexdiff(&want[i], got))));
        }
        if let Some(e) = trouble(r) {
            return Ok(Err(format!("reading the bytes of {} {}", show(), e)));
        }
        if r.get("z") != &J::Null {
            return Ok(Err(format!("the bytes of {} are refused", show())));
        }
        if let Err(e) = same(r.get("v"), v, "") {
            return Ok(Err(format!("the bytes of {} are misread {}", show(), e)));
        }
    }
    Ok(Ok(()))
}

// ---------------------------------------------------------------- C03

/// A consistent renaming of everything, or of some of it.
fn rename(src: &mut Src, s: &[Item]) -> Schema {
    let exp = export_of(s).to_string();
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut taken = Default::default();
    let what = src.below(3);
    for i in s {
        if let Item::Decl(n, _) = i {
            let m = if what == 1 {
                taken_insert(&mut taken, n)
            } else {
                fresh(src, &mut taken, if *n == exp { Role::Export } else { Role::Type }, true)
            };
            map.insert(n.clone(), m);
        }
    }
    let ren = |t: &str| map.get(t).cloned().unwrap_or_else(|| t.to_string());
    s.iter()
        .map(|i| match i {
            Item::Export(n) => Item::Export(ren(n)),
            Item::Decl(n, Kind::Enum(v)) => {
                let v = if what == 0 { v.clone() } else { variants(src, true, v.len()) };
                Item::Decl(ren(n), Kind::Enum(v))
            }
            Item::Decl(n, Kind::Struct(f)) => {
                let mut taken = Default::default();
                let f = f
                    .iter()
                    .map(|f| Field {
                        name: if what == 0 {
                            f.name.clone()
                        } else {
                            fresh(src, &mut taken, if *n == exp { Role::TopField } else { Role::Field }, true)
                        },
                        ty: ren(&f.ty),
                        ..f.clone()
                    })
                    .collect();
                Item::Decl(ren(n), Kind::Struct(f))
            }
        })
        .collect()
}
fn taken_insert(t: &mut std::collections::BTreeSet<String>, n: &str) -> String {
    t.insert(n.to_string());
    n.to_string()
}

/// The same value under other field names.
fn transfer(v: &V, t: &T) -> V {
    match (v, t) {
        (V::Obj(a), T::S(f)) => V::Obj(
            a.iter()
                .zip(f)
                .map(|((_, v), f)| {
                    (
                        f.name.clone(),
                        match v {
                            V::Arr(x) => V::Arr(x.iter().map(|v| transfer(v, &f.ty)).collect()),
                            V::No(_) => V::No(Gone::Undefined),
                            v => transfer(v, &f.ty),
                        },
                    )
                })
                .collect(),
        ),
        _ => v.clone(),
    }
}

fn rewrite(src: &mut Src, s: &[Item], case: &mut Case) -> Schema {
    let mut out = s.to_vec();
    let mut k = 0;
    while src.more(k, 1, 4, 2) {
        k += 1;
        match src.below(6) {
            0 => {
                case.label("declarations reordered");
                src.shuffle(&mut out);
            }
            1 => {
                case.label("declarations reversed");
                out.reverse();
            }
            2 => {
                case.label("unused declarations removed");
                let u = used(&out);
                let e = export_of(&out).to_string();
                out.retain(|i| match i {
                    Item::Decl(n, _) => u.contains(n) || *n == e,
                    _ => true,
                });
            }
            3 => {
                case.label("unused declarations added");
                let mut taken: std::collections::BTreeSet<String> = decls(&out).keys().map(|x| x.to_string()).collect();
                let all: Vec<String> = taken.iter().cloned().collect();
                let mut j = 0;
                while src.more(j, 1, 4, 1) {
                    j += 1;
                    let n = fresh(src, &mut taken, Role::Type, true);
                    let kind = if src.chance(1, 4) {
                        Kind::Enum(enum_like(src, &out, true))
                    } else {
                        let mut t2 = Default::default();
                        let mut f = Vec::new();
                        while src.more(f.len(), 0, 4, 2) {
                            f.push(Field {
                                name: fresh(src, &mut t2, Role::Field, true),
                                ty: if src.chance(1, 3) { src.pick(&BUILTINS).1.to_string() } else { src.pick(&all).clone() },
                                array: src.chance(1, 3),
                                optional: false,
                            });
                        }
                        Kind::Struct(f)
                    };
                    let at = src.below(out.len() as u64 + 1) as usize;
                    out.insert(at, Item::Decl(n, kind));
                }
            }
            4 => {
                case.label("export line moved");
                let i = out.iter().position(|i| matches!(i, Item::Export(_))).unwrap();
                let e = out.remove(i);
                let at = src.below(out.len() as u64 + 1) as usize;
                out.insert(at, e);
            }
            _ => {
                case.label("renamed");
                out = rename(src, &out);
            }
        }
    }
    out
}

/// The enums of two schemas of the same structure, by their place in the exported type.
fn enum_pairs<'a>(s: &'a [Item], s2: &'a [Item]) -> Vec<((&'a str, &'a [String]), (&'a str, &'a [String]))> {
    let (d, d2) = (decls(s), decls(s2));
    let mut seen: std::collections::BTreeSet<(&str, &str)> = Default::default();
    let mut todo = vec![(export_of(s), export_of(s2))];
    let mut out = Vec::new();
    while let Some((a, b)) = todo.pop() {
        if !seen.insert((a, b)) {
            continue;
        }
        match (d.get(a), d2.get(b)) {
            (Some(Kind::Struct(f)), Some(Kind::Struct(g))) => todo.extend(f.iter().zip(g).map(|(f, g)| (f.ty.as_str(), g.ty.as_str()))),
            (Some(Kind::Enum(v)), Some(Kind::Enum(w))) => out.push(((a, v.as_slice()), (b, w.as_slice()))),
            _ => (),
        }
    }
    out
}
fn constant(surface: &J, ty: &str, variant: &str) -> String {
    surface
        .get("exports")
        .arr()
        .iter()
        .flat_map(|e| e.get("types").arr())
        .filter(|t| t.get("name").str() == Some(ty))
        .flat_map(|t| t.get("items").arr())
        .find(|i| i.arr()[0].str() == Some(variant))
        .map(|i| i.arr()[1].text())
        .unwrap_or_else(|| "not declared".into())
}

pub fn c03(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (s, text, t) = gen_schema(src, case, &o);
    let s2 = if src.chance(1, 6) {
        case.label("recompiled only");
        s.clone()
    } else {
        rewrite(src, &s, case)
    };
    let layout = if src.chance(1, 2) { Layout::Free } else { Layout::Plain };
    let text2 = render(src, &s2, layout, false).text();
    let t2 = resolve(&s2, export_of(&s2));
    case.show("rewritten schema", json::s(text2.clone()));
    let m1 = tri!(compile(ctx, &text)?);
    if src.chance(1, 10) {
        case.label("second compilation in a new process");
        ctx.sut.next_aside();
    }
    let m2 = tri!(compile(ctx, &text2)?);
    // what a program puts into an enum field is the constant of a variant
    let enums = enum_pairs(&s, &s2);
    if !enums.is_empty() && src.chance(1, 8) {
        case.label("enum constants compared");
        let (f1, f2) = (surface_of(ctx, &m1)?, surface_of(ctx, &m2)?);
        for (a, b) in enums {
            for (x, y) in a.1.iter().zip(b.1) {
                let (v, w) = (constant(&f1, a.0, x), constant(&f2, b.0, y));
                if v != w {
                    return Ok(Verdict::Fail(format!("{}.{} is {} in the first module and {}.{} is {} in the second", a.0, x, v, b.0, y, w)));
                }
            }
        }
    }
    let n = src.range(2, 4) as usize;
    let vs = gen_values(src, &t, case, n);
    let vs2: Vec<V> = vs.iter().map(|v| transfer(v, &t2)).collect();
    show_values(case, &vs);
    let w1 = tri!(run_ops(ctx, &m1, export_of(&s), vs.iter().map(|v| op("w", vec![("v", to_json(v))])).collect())?);
    let mut ops: Vec<J> = vs2.iter().map(|v| op("w", vec![("v", to_json(v))])).collect();
    ops.extend(w1.iter().map(|r| op("r", vec![("b", r.get("b").clone())])).filter(|o| o.get("b").str().is_some()));
    for r in &w1 {
        if let Some(e) = trouble(r) {
            return Ok(Verdict::Fail(format!("writing a value with the first module {}", e)));
        }
    }
    let w2 = tri!(run_ops(ctx, &m2, export_of(&s2), ops)?);
    for i in 0..n {
        let (a, b, r) = (&w1[i], &w2[i], &w2[n + i]);
        if let Some(e) = trouble(b) {
            return Ok(Verdict::Fail(format!("writing a value with the second module {}", e)));
        }
        if a.get("b") != b.get("b") {
            return Ok(Verdict::Fail(format!(
                "the same value has other bytes: {}",
                hexdiff(a.get("b").str().unwrap_or(""), b.get("b").str().unwrap_or(""))
            )));
        }
        if let Some(e) = trouble(r) {
            return Ok(Verdict::Fail(format!("reading the first module's packet with the second {}", e)));
        }
        if r.get("z") != &J::Null {
            return Ok(Verdict::Fail("the second module refuses the first module's packet".into()));
        }
        if let Err(e) = same(r.get("v"), &vs2[i], "") {
            return Ok(Verdict::Fail(format!("the second module misreads the first module's packet {}", e)));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C04

fn mutate_bytes(src: &mut Src, b: &[u8], case: &mut Case) -> Vec<u8> {
    let mut b = b.to_vec();
    let mut k = 0;
    while src.more(k, 1, 4, 1) {
        k += 1;
        if b.is_empty() {
            b.push(src.below(256) as u8);
            continue;
        }
        let at = src.below(b.len() as u64) as usize;
        match src.below(8) {
            0 => {
                case.label("bit flipped");
                b[at] ^= 1 << src.below(8);
            }
            1 => {
                case.label("byte replaced");
                b[at] = *src.pick(&[0u8, 1, 2, 3, 4, 5, 127, 128, 129, 254, 255]);
            }
            2 => {
                case.label("byte removed");
                b.remove(at);
            }
            3 => {
                case.label("byte inserted");
                b.insert(at, src.below(256) as u8);
            }
            4 => {
                case.label("four bytes replaced");
                let x = *src.pick(&[0u32, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 20000]);
                for (i, y) in x.to_le_bytes().iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *y;
                    }
                }
            }
            5 => {
                case.label("byte added or reduced by one");
                b[at] = b[at].wrapping_add(if src.chance(1, 2) { 1 } else { 255 });
            }
            6 => {
                case.label("bytes swapped");
                let c = src.below(b.len() as u64) as usize;
                b.swap(at, c);
            }
            _ => {
                case.label("cut");
                b.truncate(at);
            }
        }
    }
    b
}

/// Judges the result of reading some bytes. Ok(true) when the outcome is the known one for huge counts.
fn judge(known: &[String], t: &T, b: &[u8], r: &J) -> Result<bool, String> {
    let d = decode(t, b);
    let refused = r.get("z") != &J::Null;
    if let Some(e) = r.get("e").str() {
        return Err(format!("reading {} threw {}", hex(b), e));
    }
    if r.get("k") != &J::Null {
        if d.count * reads(t) > 50_000 && known.iter().any(|k| k == KF_COUNT) {
            return Ok(true);
        }
        return Err(format!("reading {} did far more work than the packet warrants", hex(b)));
    }
    let show = || hex(b).chars().take(400).collect::<String>();
    match d.dec {
        Dec::Huge => Ok(false),
        Dec::Bad if refused => Ok(false),
        Dec::Bad => Err(format!(
            "malformed packet {} was accepted as {}",
            show(),
            r.get("v").text().chars().take(300).collect::<String>()
        )),
        Dec::Is(_) if refused => Err(format!("well-formed packet {} was refused", show())),
        Dec::Is(v) | Dec::Maybe(v) => {
            if refused {
                return Ok(false);
            }
            same(r.get("v"), &v, "").map(|_| false).map_err(|e| format!("packet {} was misread {}", show(), e))
        }
    }
}

pub const KF_COUNT: &str = "C04 unbounded-count";

pub fn c04(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (s, text, t) = gen_schema(src, case, &o);
    let module = tri!(compile(ctx, &text)?);
    let v = value(src, &t, &mut Size { left: 300, big: false });
    let mut whole = Vec::new();
    encode(&t, &v, &mut whole);
    let mut list: Vec<Vec<u8>> = vec![whole.clone()];
    // every truncation of a small packet, a selection of a large one
    if whole.len() <= 64 {
        for i in 0..whole.len() {
            list.push(whole[..i].to_vec());
        }
    } else {
        for i in 0..24 {
            list.push(whole[..i].to_vec());
            list.push(whole[..whole.len() - 1 - i].to_vec());
        }
        for _ in 0..16 {
            list.push(whole[..src.below(whole.len() as u64) as usize].to_vec());
        }
    }
    let cuts = list.len();
    for _ in 0..src.range(1, 3) {
        case.label("extended");
        let mut b = whole.clone();
        for _ in 0..src.range(1, 6) {
            b.push(src.below(256) as u8);
        }
        list.push(b);
    }
    for _ in 0..src.range(4, 30) {
        list.push(mutate_bytes(src, &whole, case));
    }
    for _ in 0..src.range(1, 8) {
        case.label("random bytes");
        let n = match src.below(3) {
            0 => src.below(8) as usize,
            1 => whole.len(),
            _ => src.below(whole.len() as u64 * 2 + 8) as usize,
        };
        let seed = src.seed();
        let small = src.chance(1, 2);
        list.push((0..n as u64).map(|i| (mix(&[seed, i]) % if small { 4 } else { 256 }) as u8).collect());
    }
    // counts of elements that take no bytes are not bounded by the packet
    list.retain(|b| !matches!(decode(&t, b).dec, Dec::Huge));
    case.show("packet", json::s(hex(&whole)));
    show_values(case, &[v]);
    case.inner += list.len() as u64;
    let arg = J::Arr(list.iter().map(|b| json::s(hex(b))).collect());
    let res = tri!(run_ops(ctx, &module, export_of(&s), vec![op("rs", vec![("l", arg)])])?);
    let rs = res[0].get("l").arr();
    if rs.len() != list.len() {
        return Err(format!("the worker gave {} results for {} reads", rs.len(), list.len()));
    }
    for (i, (b, r)) in list.iter().zip(rs).enumerate() {
        match judge(&ctx.cfg.known, &t, b, r) {
            Ok(k) => {
                if k {
                    case.label("known: huge count");
                }
            }
            Err(m) => return Ok(Verdict::Fail(m)),
        }
        let d = decode(&t, b);
        case.label(match d.dec {
            Dec::Bad if i < cuts => "truncated",
            Dec::Bad => "malformed otherwise",
            Dec::Is(_) => "well-formed",
            Dec::Maybe(_) => "not canonical",
            Dec::Huge => "not judged",
        });
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C05 and C06

pub fn c05(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (_, text, _) = gen_schema(src, case, &o);
    case.key = hash(text.as_bytes());
    case.inner = 1;
    let module = tri!(compile(ctx, &text)?);
    let r = ctx.js.call(&obj(vec![("ts", json::s(module)), ("check", J::Bool(true))]))?;
    let d = r.get("diags").arr();
    if !d.is_empty() {
        return Ok(Verdict::Fail(format!("the TypeScript compiler reports {}", d[0].str().unwrap_or("?"))));
    }
    Ok(Verdict::Pass)
}

/// What the module for a schema should declare, in the worker's notation.
fn declared(s: &[Item]) -> (Vec<(String, String)>, BTreeMap<String, (String, Vec<(String, String)>)>) {
    let d = decls(s);
    let exp = export_of(s);
    let ty = |f: &Field| {
        let b = match builtin(&f.ty) {
            Some(B::Str) => "string".to_string(),
            Some(_) => "number".to_string(),
            None => match d[f.ty.as_str()] {
                Kind::Enum(_) => format!("enum {}.{}", exp, f.ty),
                Kind::Struct(_) => format!("interface {}.{}", exp, f.ty),
            },
        };
        format!("{}{}{}", b, if f.array { "[]" } else { "" }, if f.optional { "|undefined" } else { "" })
    };
    let mut types = BTreeMap::new();
    for n in used(s) {
        let x = match d[n.as_str()] {
            Kind::Enum(v) => (
                "enum".to_string(),
                v.iter().enumerate().map(|(i, v)| (v.clone(), (1u64 << i).to_string())).collect(),
            ),
            Kind::Struct(f) => ("interface".to_string(), f.iter().map(|f| (f.name.clone(), ty(f))).collect()),
        };
        types.insert(n, x);
    }
    let top = match d[exp] {
        Kind::Struct(f) => f.iter().map(|f| (f.name.clone(), ty(f))).collect(),
        _ => vec![],
    };
    (top, types)
}

fn pairs(j: &J) -> Vec<(String, String)> {
    j.arr()
        .iter()
        .map(|x| {
            let v = match &x.arr()[1] {
                J::Str(t) => t.clone(),
                v => v.text(),
            };
            (x.arr()[0].str().unwrap_or("?").to_string(), v)
        })
        .collect()
}
fn surface_of(ctx: &mut Ctx, module: &str) -> Run<J> {
    let r = ctx.js.call(&obj(vec![("ts", json::s(module)), ("surface", J::Bool(true))]))?;
    Ok(r.get("surface").clone())
}

pub fn c06(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (s, text, _) = gen_schema(src, case, &o);
    case.key = hash(text.as_bytes());
    case.inner = 1;
    let module = tri!(compile(ctx, &text)?);
    let sf = surface_of(ctx, &module)?;
    let exp = export_of(&s);
    let (top, types) = declared(&s);
    let fail = |m: String| Ok(Verdict::Fail(m));
    let ex = sf.get("exports").arr();
    if ex.len() != 1 || ex[0].get("name").str() != Some(exp) || ex[0].get("cls") != &J::Bool(true) {
        let names: Vec<String> = ex.iter().map(|e| e.get("name").str().unwrap_or("?").to_string()).collect();
        return fail(format!("the module should export the class {} and exports {:?}", exp, names));
    }
    let e = &ex[0];
    let ctors = e.get("ctors").arr();
    if ctors.len() != 1 {
        return fail(format!("{} constructor signatures", ctors.len()));
    }
    let got = pairs(&ctors[0]);
    if got != top {
        return fail(format!("the constructor should take {:?} and takes {:?}", top, got));
    }
    // one parameter, an ArrayBuffer
    let takes = |sig: &J, optional: bool| {
        let q = sig.arr()[0].arr();
        q.len() == 1
            && q[0].arr()[1].str().map(|t| t.strip_suffix("|undefined").unwrap_or(t)).map(|t| t == "lib ArrayBuffer") == Some(true)
            && q[0].arr()[2] == J::Bool(optional)
    };
    // public instance members: the fields and write
    let mut fields = Vec::new();
    let mut write = false;
    for m in e.get("members").arr() {
        let a = m.arr();
        if a.last().and_then(|x| x.str()) != Some("public") {
            continue;
        }
        if a[1].str() == Some("method") {
            write |= a[0].str() == Some("write")
                && a[2].arr().len() == 1
                && takes(&a[2].arr()[0], true)
                && a[2].arr()[0].arr()[1].str().map(|t| t.starts_with("lib ArrayBuffer")) == Some(true);
        } else {
            fields.push((a[0].str().unwrap_or("?").to_string(), a[1].str().unwrap_or("?").to_string()));
        }
    }
    fields.sort();
    let mut want = top.clone();
    want.sort();
    if fields != want {
        return fail(format!("the class should have the fields {:?} and has {:?}", want, fields));
    }
    if !write {
        return fail("the class has no method write that may take an ArrayBuffer and returns one".into());
    }
    let read = e.get("statics").arr().iter().any(|m| {
        m.arr()[0].str() == Some("read")
            && m.arr()[1].arr().len() == 1
            && takes(&m.arr()[1].arr()[0], false)
            && m.arr()[1].arr()[0].arr()[1].str() == Some(&format!("class {}|null", exp))
    });
    if !read {
        return fail(format!("the class has no static method read that takes an ArrayBuffer and returns {} or null: {}", exp, e.get("statics").text()));
    }
    let mut got: BTreeMap<String, (String, Vec<(String, String)>)> = BTreeMap::new();
    for t in e.get("types").arr() {
        let n = t.get("name").str().unwrap_or("?").to_string();
        let v = (t.get("kind").str().unwrap_or("?").to_string(), pairs(t.get("items")));
        if got.insert(n.clone(), v).is_some() {
            return fail(format!("{} is declared twice", n));
        }
    }
    for (n, w) in &types {
        match got.get(n) {
            None => return fail(format!("the type {} is used and not declared", n)),
            Some(g) => {
                // the order of an interface's members is of no consequence
                let (mut a, mut b) = (w.clone(), g.clone());
                a.1.sort();
                b.1.sort();
                if a != b {
                    return fail(format!("{} should be {:?} and is declared as {:?}", n, w, g));
                }
            }
        }
    }
    for n in got.keys() {
        if !types.contains_key(n) {
            return fail(format!("{} is declared and not used", n));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C07

pub fn c07(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    // one to three enums of chosen sizes, in every kind of position
    let mut taken = Default::default();
    let exp = fresh(src, &mut taken, Role::Export, true);
    let mut out: Schema = Vec::new();
    let mut sizes = Vec::new();
    let mut top = Vec::new();
    let mut tf = Default::default();
    let n = src.range(1, 3);
    for _ in 0..n {
        let size = if src.chance(1, 2) { src.range(1, 32) as usize } else { *src.pick(&[1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32]) };
        let name = fresh(src, &mut taken, Role::Type, true);
        out.push(Item::Decl(name.clone(), Kind::Enum(variants(src, true, size))));
        sizes.push((name.clone(), size));
        let mut k = 0;
        while src.more(k, 1, 5, 2) {
            k += 1;
            let (array, optional) = *src.pick(&[(false, false), (true, false), (false, true)]);
            let ty = if src.chance(1, 3) {
                // through a struct
                let st = fresh(src, &mut taken, Role::Type, true);
                let mut t2 = Default::default();
                let (a2, o2) = *src.pick(&[(false, false), (true, false), (false, true)]);
                let mut f = vec![Field { name: fresh(src, &mut t2, Role::Field, true), ty: name.clone(), array: a2, optional: o2 }];
                if src.chance(1, 2) {
                    f.push(Field { name: fresh(src, &mut t2, Role::Field, true), ty: name.clone(), array: false, optional: false });
                }
                out.push(Item::Decl(st.clone(), Kind::Struct(f)));
                st
            } else {
                name.clone()
            };
            top.push(Field { name: fresh(src, &mut tf, Role::TopField, true), ty, array, optional });
            if src.chance(1, 3) {
                top.push(Field { name: fresh(src, &mut tf, Role::TopField, true), ty: src.pick(&BUILTINS).1.into(), array: false, optional: false });
            }
        }
    }
    out.push(Item::Decl(exp.clone(), Kind::Struct(top)));
    src.shuffle(&mut out);
    out.push(Item::Export(exp.clone()));
    let text = plain(&out);
    case.show("schema", json::s(text.clone()));
    case.key = hash(text.as_bytes());
    case.nontrivial = true;
    labels(&out, case);
    let t = resolve(&out, &exp);
    let module = tri!(compile(ctx, &text)?);
    if src.chance(1, 6) {
        let sf = surface_of(ctx, &module)?;
        for ty in sf.get("exports").arr().iter().flat_map(|e| e.get("types").arr()) {
            if let Some((n, size)) = sizes.iter().find(|x| Some(x.0.as_str()) == ty.get("name").str()) {
                for (i, it) in ty.get("items").arr().iter().enumerate() {
                    if it.arr()[1].num() != Some((1u64 << i) as f64) {
                        return Ok(Verdict::Fail(format!(
                            "variant {} of {} ({} variants) has the value {}",
                            i + 1,
                            n,
                            size,
                            it.arr()[1].text()
                        )));
                    }
                }
                if ty.get("items").arr().len() != *size {
                    return Ok(Verdict::Fail(format!("{} is declared with {} variants", n, ty.get("items").arr().len())));
                }
            }
        }
    }
    // every variant everywhere
    fn all(t: &T, i: usize) -> V {
        match t {
            T::E(n) => V::Int(1 << (i % n)),
            T::S(f) => V::Obj(
                f.iter()
                    .map(|f| {
                        (
                            f.name.clone(),
                            if f.array {
                                let k = if let T::E(n) = &*f.ty { *n } else { 3 };
                                V::Arr((0..k).map(|j| all(&f.ty, i + j)).collect())
                            } else {
                                all(&f.ty, i)
                            },
                        )
                    })
                    .collect(),
            ),
            T::B(B::Float) => V::F(0),
            T::B(B::Str) => V::S(vec![b'x'; i % 3]),
            T::B(_) => V::Int(i as i64),
        }
    }
    let most = sizes.iter().map(|x| x.1).max().unwrap();
    let vs: Vec<V> = (0..most).map(|i| all(&t, i)).collect();
    case.inner += vs.len() as u64;
    if let Err(m) = wire(ctx, &module, &exp, &t, &vs)? {
        return Ok(Verdict::Fail(m));
    }
    // values outside the range, one position at a time
    let mut b = Vec::new();
    let mut spots = Vec::new();
    fn spot(t: &T, v: &V, o: &mut Vec<u8>, spots: &mut Vec<(usize, usize)>) {
        match (t, v) {
            (T::E(n), _) => {
                spots.push((o.len(), *n));
                encode(t, v, o);
            }
            (T::S(f), V::Obj(x)) => {
                for (f, (_, v)) in f.iter().zip(x) {
                    if f.optional {
                        o.push(1);
                    }
                    match v {
                        V::Arr(a) => {
                            o.extend_from_slice(&(a.len() as u32).to_le_bytes());
                            a.iter().for_each(|v| spot(&f.ty, v, o, spots));
                        }
                        v => spot(&f.ty, v, o, spots),
                    }
                }
            }
            _ => encode(t, v, o),
        }
    }
    spot(&t, &vs[0], &mut b, &mut spots);
    let mut list = Vec::new();
    for _ in 0..24 {
        let (at, n) = *src.pick(&spots);
        let w = width(n);
        let max = 1u64 << (n - 1);
        let limit = (1u64 << (8 * w)) - 1;
        let x = match src.below(5) {
            0 => 0,
            1 => max + 1,
            2 => max * 2,
            3 => limit,
            _ => max + src.below(limit - max + 1),
        };
        if x > limit || (x >= 1 && x <= max) {
            continue;
        }
        let mut c = b.clone();
        c[at..at + w].copy_from_slice(&x.to_le_bytes()[..w]);
        list.push(c);
        case.label("value out of range");
    }
    case.inner += list.len() as u64;
    let arg = J::Arr(list.iter().map(|b| json::s(hex(b))).collect());
    let res = tri!(run_ops(ctx, &module, &exp, vec![op("rs", vec![("l", arg)])])?);
    for (b, r) in list.iter().zip(res[0].get("l").arr()) {
        if let Err(m) = judge(&ctx.cfg.known, &t, b, r) {
            return Ok(Verdict::Fail(m));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C17

pub fn c17(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let o = options(src);
    let (s, text, t) = gen_schema(src, case, &o);
    let module = tri!(compile(ctx, &text)?);
    let vs = gen_values(src, &t, case, 2);
    let mut enc2 = Vec::new();
    for v in &vs {
        let mut b = Vec::new();
        encode(&t, v, &mut b);
        enc2.push(hex(&b));
    }
    let spare = *src.pick(&[0u64, 0, 1, 7, 100]);
    let fill = *src.pick(&[0u64, 170, 255, 1]);
    show_values(case, &vs);
    let q = op(
        "pure",
        vec![
            ("v", to_json(&vs[0])),
            ("v2", to_json(&vs[1])),
            ("b2", json::s(enc2[1].clone())),
            ("spare", json::n(spare)),
            ("fill", json::n(fill)),
        ],
    );
    let res = tri!(run_ops(ctx, &module, export_of(&s), vec![q])?);
    let r = &res[0];
    if let Some(e) = trouble(r) {
        return Ok(Verdict::Fail(format!("a history of writes and reads {}", e)));
    }
    let b = |k: &str| r.get(k).str().unwrap_or("").to_string();
    let first = b("first");
    for (k, what) in [
        ("second", "writing again after another packet was written"),
        ("into", "writing into a buffer"),
        ("third", "writing after a packet read from the bytes was changed"),
        ("rewrite", "writing a packet that was read"),
        ("fresh", "writing an equal packet made later"),
    ] {
        if r.get(k) == &J::Null && r.get("z") != &J::Null {
            continue;
        }
        if b(k) != first {
            return Ok(Verdict::Fail(format!("{} gives other bytes: {}", what, hexdiff(&first, &b(k)))));
        }
    }
    if r.get("z") == &J::Null && b("other") != b("assigned") {
        return Ok(Verdict::Fail(format!("a packet that was written and then given other contents gives other bytes than a new one: {}", hexdiff(&b("other"), &b("assigned")))));
    }
    if b("other") != b("intoOther") {
        return Ok(Verdict::Fail(format!("writing the second packet again gives other bytes: {}", hexdiff(&b("other"), &b("intoOther")))));
    }
    for (k, what) in [
        ("unchanged", "writing changed the packet"),
        ("input", "reading changed the bytes"),
        ("kept", "changing a packet changed bytes written before"),
        ("used", "the packet was not written into the buffer given"),
    ] {
        if r.get(k) == &J::Bool(false) {
            return Ok(Verdict::Fail(what.into()));
        }
    }
    if r.get("z") != &J::Null {
        return Ok(Verdict::Fail("a packet just written is refused".into()));
    }
    for (k, v, what) in [
        ("r1", &vs[0], "the first packet read"),
        ("r2", &vs[0], "a second packet read, after the first was changed"),
        ("r3", &vs[0], "a packet read after another was changed"),
        ("s1", &vs[1], "another packet read"),
        ("s2", &vs[1], "another packet, after the first was changed"),
        ("r4", &vs[0], "a packet read after the written one was changed"),
        ("afterRewrite", &vs[0], "a packet read and then written"),
        ("r5", &vs[0], "a packet read from a buffer"),
        ("s3", &vs[1], "a packet read from the same buffer with other contents"),
    ] {
        if let Err(e) = same(r.get(k), v, "") {
            return Ok(Verdict::Fail(format!("{} is wrong {}", what, e)));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- known findings

/// Looks for the recorded defects that cannot be repaired here. Returns the signatures seen.
pub fn probes(ctx: &mut Ctx, id: &str) -> Run<Vec<(String, String)>> {
    let mut out = Vec::new();
    match id {
        "C01" => {
            let m = match compile(ctx, "T: struct { a: uint8 }\nexport T\n")? {
                Ok(m) => m,
                Err(_) => return Ok(out),
            };
            if let Ok(r) = run_ops(ctx, &m, "T", vec![op("inst", vec![("b", json::s("01"))])])? {
                if r[0].get("i") == &J::Bool(false) && r[0].get("w") == &J::Bool(false) {
                    out.push((
                        "C01 read-result-not-instance".into(),
                        "the object read returns is not an instance of the class and has no method write".into(),
                    ));
                }
            }
            for f in ["name", "length", "prototype", "caller"] {
                let m = match compile(ctx, &format!("T: struct {{ {}: uint8 }}\nexport T\n", f))? {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                if let Ok(r) = run_ops(ctx, &m, "T", vec![op("r", vec![("b", json::s("01"))])])? {
                    if r[0].get("e").str().map(|e| e.starts_with("TypeError")) == Some(true) {
                        out.push((
                            format!("C01 field-called-{}", f),
                            format!("reading a packet whose exported struct has a field called {} throws a TypeError", f),
                        ));
                    }
                }
            }
        }
        "C05" => {
            if let Ok(m) = compile(ctx, "read: enum { A }\nT: struct { a: read }\nexport T\n")? {
                let r = ctx.js.call(&obj(vec![("ts", json::s(m)), ("check", J::Bool(true))]))?;
                if r.get("diags").arr().iter().any(|d| d.str().map(|d| d.contains("TS2567")).unwrap_or(false)) {
                    out.push((
                        "C05 enum-called-read".into(),
                        "an enum called read collides with the static method read of the exported class".into(),
                    ));
                }
            }
        }
        "C04" => {
            let m = match compile(ctx, "T: struct { a: uint8[] }\nexport T\n")? {
                Ok(m) => m,
                Err(_) => return Ok(out),
            };
            if let Ok(r) = run_ops(ctx, &m, "T", vec![op("r", vec![("b", json::s("ffffffff"))])])? {
                if r[0].get("k") != &J::Null {
                    out.push((
                        KF_COUNT.into(),
                        "an array length far beyond the bytes left makes read loop up to that length before it refuses the packet".into(),
                    ));
                }
            }
        }
        "C13" => {
            let mut t = String::new();
            for i in 0..40000 {
                t.push_str(&format!("c{}: struct {{ n: c{} }}\n", i, i + 1));
            }
            t.push_str("c40000: struct { }\nE: struct { }\nexport E\n");
            if let Reply::Crash(m) = ctx.sut.compile(&t)? {
                // an overflow ends the process; a panic would be something else
                if m.starts_with("process ended") {
                    out.push(("C13 long-chain-overflow".into(), "a chain of 40000 references overflows the stack of the type checker".into()));
                }
            }
        }
        _ => (),
    }
    Ok(out)
}
