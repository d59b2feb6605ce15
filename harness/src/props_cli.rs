//! Properties of the command line program: C14 to C16, C19, C20, C23 and C24. Everything happens in a scratch directory.
use crate::dict;
use crate::engine::*;
use crate::json::{self, J};
use crate::model::*;
use crate::procs::{cli, cli_around, cli_limited, cli_unprivileged, CliRun, Reply};
use crate::validate::faults;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>),
    Link(String),
}
type Tree = BTreeMap<String, Node>;

fn walk(root: &str) -> Run<Tree> {
    fn go(dir: &Path, rel: &str, o: &mut Tree) -> std::io::Result<()> {
        for e in fs::read_dir(dir)? {
            let e = e?;
            let n = format!("{}{}", rel, e.file_name().to_string_lossy());
            let t = e.file_type()?;
            if t.is_symlink() {
                o.insert(n, Node::Link(fs::read_link(e.path())?.to_string_lossy().into_owned()));
            } else if t.is_dir() {
                o.insert(n.clone(), Node::Dir);
                go(&e.path(), &format!("{}/", n), o)?;
            } else {
                o.insert(n, Node::File(fs::read(e.path())?));
            }
        }
        Ok(())
    }
    let mut o = Tree::new();
    go(Path::new(root), "", &mut o).map_err(|e| format!("reading the scratch directory: {}", e))?;
    Ok(o)
}
fn build(root: &str, t: &Tree) -> Run<()> {
    let io = |e: std::io::Error| format!("making the scratch directory: {}", e);
    for (p, n) in t {
        let full = format!("{}/{}", root, p);
        if let Some(d) = Path::new(&full).parent() {
            fs::create_dir_all(d).map_err(io)?;
        }
        match n {
            Node::Dir => fs::create_dir_all(&full).map_err(io)?,
            Node::File(c) => fs::write(&full, c).map_err(io)?,
            Node::Link(x) => std::os::unix::fs::symlink(x, &full).map_err(io)?,
        }
    }
    Ok(())
}
fn scratch(ctx: &Ctx) -> Run<String> {
    let d = format!("{}/s{}", ctx.cfg.scratch, ctx.shard);
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).map_err(|e| format!("{}: {}", d, e))?;
    Ok(d)
}

fn chmod(p: &str, mode: u32) -> Run<()> {
    fs::set_permissions(p, std::os::unix::fs::PermissionsExt::from_mode(mode)).map_err(|e| format!("{}: {}", p, e))
}
/// Runs the program as a user who may read and write everything in the scratch directory except for `closed`, which gets a mode of its own.
fn unprivileged(ctx: &Ctx, root: &str, args: &[String], t: &Tree, closed: &str, mode: u32) -> Run<Option<CliRun>> {
    chmod(root, 0o777)?;
    for (p, n) in t {
        let mut full = String::from(root);
        for x in p.split('/') {
            full = format!("{}/{}", full, x);
            if let Ok(m) = fs::symlink_metadata(&full) {
                if m.is_dir() {
                    chmod(&full, 0o777)?;
                }
            }
        }
        if let Node::File(_) = n {
            chmod(&full, 0o666)?;
        }
    }
    chmod(&format!("{}/{}", root, closed), mode)?;
    let own = format!("{}/program{}", ctx.cfg.scratch, ctx.shard);
    Ok(cli_unprivileged(&ctx.cfg, &own, root, args))
}

const DIRS: &[&str] = &["d", "sub dir", "v1.2", "pkts", "x.pkt", ".hid", "é", "a", "deep", "pkt"];
const FILES: &[&str] = &["a", "b", "msg", "two words", "v1.2", "a.b.c", "é", "x.ts", "x.pkt", "-o", "_", "schema", ".hid"];
const OTHERS: &[&str] = &["readme.txt", "a.pkt.bak", "pkt", "apkt", "notes.pkt~", "b.ts", "a.pktx", "data.bin", "x.json", "up.PKT", "Mixed.Pkt", ".pkt", "a.pkt.", "b.pkt.ts"];

/// The name of one directory.
fn dirpart(src: &mut Src) -> String {
    match src.weighted(&[40, 4, 2, 1]) {
        3 => long(src, 240),
        0 => src.pick(DIRS).to_string(),
        1 => dict::ident(src),
        _ => format!("{}{}", dict::character(src), dict::ident(src)).replace(['/', '\0'], "."),
    }
}
fn long(src: &mut Src, max: i64) -> String {
    let n = *src.pick(&[30i64, 64, 100, 129, max]);
    let n = if src.chance(1, 2) { n } else { dict::number(src, 20, max) } as usize;
    src.pick(&["n", "Long", "a_b"]).chars().cycle().take(n).collect()
}
/// The name of a schema, without extension.
fn stem(src: &mut Src) -> String {
    match src.weighted(&[40, 4, 2, 1]) {
        3 => long(src, 230),
        0 => src.pick(FILES).to_string(),
        1 => dict::ident(src),
        _ => format!("{}{}{}", dict::ident(src), dict::character(src), src.pick(FILES)).replace(['/', '\0'], "."),
    }
}
fn dirname(src: &mut Src) -> String {
    let mut p = String::new();
    let k = *src.pick(&[0usize, 0, 1, 1, 2, 3, 0, 0, 1, 1, 2, 6, 0, 0, 1, 1, 2, 3, 0, 0, 1, 1, 2, 14]);
    if k == 14 && src.chance(1, 2) {
        let n = dict::number(src, 15, 60);
        for _ in 0..n {
            p.push_str(src.pick(DIRS));
            p.push('/');
        }
        return p;
    }
    for _ in 0..k {
        p.push_str(&dirpart(src));
        p.push('/');
    }
    p
}

fn good(src: &mut Src) -> (Schema, String) {
    let s = schema(src, &Opt { max_types: 2, max_fields: 4, leaves: 30, max_depth: 3, ..Opt::normal() });
    let layout = if src.chance(1, 3) { Layout::Free } else { Layout::Plain };
    let t = render(src, &s, layout, false).text();
    (s, t)
}

/// Another schema in place of this one, or one with a field changed.
fn changed(src: &mut Src, s: &mut Schema, text: &mut String) {
    let twin = |t: &str| match t {
        "uint16" => Some("uint32"),
        "uint32" => Some("uint16"),
        "int16" => Some("int32"),
        "int32" => Some("int16"),
        _ => None,
    };
    // the code for these has the same length
    for i in s.iter_mut() {
        if let Item::Decl(_, Kind::Struct(f)) = i {
            if let Some(f) = f.iter_mut().find(|f| twin(&f.ty).is_some()) {
                if src.chance(3, 4) {
                    f.ty = twin(&f.ty).unwrap_or("uint8").into();
                    *text = plain(s);
                    return;
                }
            }
        }
    }
    let (a, b) = good(src);
    *s = a;
    *text = b;
}
/// What an earlier run may have left in place of the output for a schema.
fn old(ctx: &mut Ctx, src: &mut Src, text: &str) -> Run<Vec<u8>> {
    if src.chance(1, 3) {
        if let Reply::Module(m) = ctx.sut.compile(text)? {
            // the same but for one character
            let mut b = m.into_bytes();
            let from = b.iter().position(|c| *c == b'\n').unwrap_or(0);
            let at = from + 1 + src.below((b.len() - from - 1).max(1) as u64) as usize;
            match src.below(3) {
                0 => b.truncate(at),
                1 => b.insert(at.min(b.len()), b' '),
                _ => {
                    if let Some(c) = b.get_mut(at) {
                        *c = if *c == b'x' { b'y' } else { b'x' };
                    }
                }
            }
            return Ok(b);
        }
    }
    let n = *src.pick(&[0usize, 3, 20000]);
    Ok(vec![b'/'; n])
}
/// The generated code without the line that says when it was made.
fn body(t: &str) -> &str {
    if t.starts_with("//") {
        t.split_once('\n').map(|x| x.1).unwrap_or("")
    } else {
        t
    }
}
/// Whether a file holds the code for a schema. Types are declared in no particular order.
fn holds(ctx: &mut Ctx, s: &[Item], text: &str, file: &[u8]) -> Run<Result<(), String>> {
    let lib = match ctx.sut.compile(text)? {
        Reply::Module(m) => m,
        Reply::Hang => return Err("the compiler did not answer in time".into()),
        r => return Ok(Err(format!("a valid schema does not compile: {:?}", r))),
    };
    let got = match std::str::from_utf8(file) {
        Ok(t) => t,
        Err(_) => return Ok(Err("the output is not text".into())),
    };
    let same = if used(s).len() <= 1 {
        body(&lib) == body(got)
    } else {
        let sort = |t: &str| {
            let mut l: Vec<String> = body(t).lines().map(|x| x.to_string()).collect();
            l.sort();
            l
        };
        sort(&lib) == sort(got)
    };
    Ok(if same {
        Ok(())
    } else {
        Err(format!("expected the code\n{}\nand found\n{}", lib, got))
    })
}

/// A text much longer than usual, in a comment or in what is generated from it.
fn lengthen(src: &mut Src, s: Schema, text: String) -> (Schema, String) {
    match src.below(3) {
        0 => {
            let n = *src.pick(&[5000usize, 9000, 70_000, 140_000]);
            let t = format!("# {}\n{}", "long ".repeat(n / 5), text);
            (s, t)
        }
        1 => {
            let n = *src.pick(&[5000usize, 9000, 70_000]);
            let nl = if text.ends_with('\n') { "" } else { "\n" };
            let t = format!("{}{}{}", text, nl, "\n".repeat(n));
            (s, t)
        }
        _ => {
            let n = *src.pick(&[60usize, 200, 400, 900]);
            let f = (0..n).map(|i| Field { name: format!("field_{}", i), ty: BUILTINS[i % 8].1.into(), array: i % 3 == 1, optional: i % 3 == 2 }).collect();
            let s = vec![Item::Decl("Long".into(), Kind::Struct(f)), Item::Export("Long".into())];
            let t = plain(&s);
            (s, t)
        }
    }
}

const BASES: &[&str] = &["in", "in", "in", "in", "in.pkt", "my in/v1.2", "deep/er/in", ".hid", "in.ts", "é"];

struct Input {
    base: String,
    tree: Tree,
    schemas: BTreeMap<String, (Schema, String)>,
    /// links to directories
    links: bool,
}
impl Input {
    /// The output for a schema.
    fn out(&self, p: &str, out: &str) -> String {
        format!("{}/{}.ts", out, &p[self.base.len() + 1..p.len() - 4])
    }
}

/// A directory tree and the schemas in it by path.
fn tree(src: &mut Src, case: &mut Case) -> Input {
    let base = src.pick(BASES).to_string();
    let mut t = Tree::new();
    t.insert(base.clone(), Node::Dir);
    let mut schemas: BTreeMap<String, (Schema, String)> = BTreeMap::new();
    let mut links: Vec<String> = Vec::new();
    let (min, max) = *src.pick(&[(0, 9), (0, 9), (0, 9), (0, 9), (0, 9), (0, 9), (0, 9), (10, 30)]);
    let mut k = 0;
    while src.more(k, min, max, 3) {
        k += 1;
        let d = format!("{}/{}", base, dirname(src));
        let kind = src.weighted(&[12, 4, 2, 2, 1]);
        let p = match kind {
            0 | 3 => format!("{}{}.pkt", d, stem(src)),
            1 => format!("{}{}", d, src.pick(OTHERS)),
            2 => d.trim_end_matches('/').to_string(),
            _ => format!("{}{}", d, src.pick(DIRS)),
        };
        let p = match schemas.keys().next_back() {
            // the name of another in other letters
            Some(q) if kind == 0 && src.chance(1, 12) => {
                let (d, n) = str::rsplit_once(q, '/').unwrap_or(("", q));
                let n = n.strip_suffix(".pkt").unwrap_or(n);
                let n = if n.chars().any(|c| c.is_ascii_lowercase()) { n.to_ascii_uppercase() } else { n.to_ascii_lowercase() };
                format!("{}/{}.pkt", d, n)
            }
            _ => p,
        };
        if t.contains_key(&p) || parent_is_file(&t, &p) {
            continue;
        }
        let up = "../".repeat(p.matches('/').count());
        match kind {
            0 | 3 => {
                let (mut s, mut text) = good(src);
                if src.chance(1, 40) {
                    case.label("very long text");
                    let x = lengthen(src, s, text);
                    s = x.0;
                    text = x.1;
                }
                if kind == 0 {
                    t.insert(p.clone(), Node::File(text.clone().into_bytes()));
                } else {
                    // a link to a schema kept elsewhere
                    case.label("linked schema");
                    let target = format!("kept/{}.txt", k);
                    t.insert(target.clone(), Node::File(text.clone().into_bytes()));
                    t.insert(p.clone(), Node::Link(format!("{}{}", up, target)));
                }
                let below = &d[base.len() + 1..];
                if below.contains(".pkt/") {
                    case.label("directory named like a schema");
                }
                if !below.is_empty() {
                    case.label("nested");
                }
                if below.matches('/').count() > 4 {
                    case.label("nested more than four deep");
                }
                if p.matches('.').count() > 1 {
                    case.label("dots in names");
                }
                schemas.insert(p, (s, text));
            }
            1 => {
                case.label("other files");
                t.insert(p, Node::File(b"not a schema {".to_vec()));
            }
            2 => {
                case.label("empty directory");
                t.insert(p, Node::Dir);
            }
            _ => {
                // a link to a directory kept elsewhere, with schemas and other things in it
                case.label("linked directory");
                let target = format!("kept/dir{}", k);
                t.insert(target.clone(), Node::Dir);
                let mut j = 0;
                while src.more(j, 0, 4, 2) {
                    j += 1;
                    let below = format!("{}{}", src.pick(&["", "", "sub/"]), src.pick(&["a.pkt", "b.pkt", "c.d.pkt", "readme.txt"]));
                    let (s, text) = good(src);
                    t.insert(format!("{}/{}", target, below), Node::File(text.clone().into_bytes()));
                    if below.ends_with(".pkt") {
                        schemas.insert(format!("{}/{}", p, below), (s, text));
                    }
                }
                t.insert(p.clone(), Node::Link(format!("{}{}", up, target)));
                links.push(p);
            }
        }
    }
    if src.chance(1, 60) {
        case.label("crowded directory");
        let d = format!("{}/{}", base, dirname(src));
        let n = if src.chance(1, 3) { dict::number(src, 1, 300) } else { *src.pick(&[40i64, 70, 130, 260, 300]) };
        let (s, text) = good(src);
        // every how many is a schema
        let every = src.range(1, 20);
        for i in 0..n {
            let p = format!("{}n{}.{}", d, i, if i % every == 0 { "pkt" } else { "txt" });
            if t.contains_key(&p) || parent_is_file(&t, &p) {
                continue;
            }
            t.insert(p.clone(), Node::File(text.clone().into_bytes()));
            if i % every == 0 {
                schemas.insert(p, (s.clone(), text.clone()));
            }
        }
    }
    Input { base, tree: t, schemas, links: !links.is_empty() }
}
fn parent_is_file(t: &Tree, p: &str) -> bool {
    p.match_indices('/').any(|(i, _)| matches!(t.get(&p[..i]), Some(Node::File(_)) | Some(Node::Link(_))))
        || t.keys().any(|k| k.starts_with(&format!("{}/", p)))
}

fn show(case: &mut Case, args: &[String], t: &Tree) {
    case.show("arguments", J::Arr(args.iter().map(|a| json::s(a.clone())).collect()));
    case.show(
        "files",
        J::Obj(
            t.iter()
                .map(|(p, n)| {
                    (
                        p.clone(),
                        match n {
                            Node::Dir => json::s("directory"),
                            Node::File(c) => json::s(String::from_utf8_lossy(c).into_owned()),
                            Node::Link(l) => json::s(format!("link to {}", l)),
                        },
                    )
                })
                .collect(),
        ),
    );
    let mut k = Vec::new();
    case.input.iter().for_each(|x| k.extend_from_slice(x.1.text().as_bytes()));
    case.key = hash(&k);
}

/// Ways to write the path of something below the scratch directory.
fn spell(src: &mut Src, root: &str, p: &str, slash: bool) -> String {
    let mut o = match src.weighted(&[4, 2, 3, 1]) {
        0 => p.to_string(),
        1 => format!("./{}", p),
        2 => format!("{}/{}", root, p),
        // not through a file, nor back out of a link
        _ if p.starts_with("ln-") || !slash && !p.contains('/') => p.to_string(),
        _ => format!("{}/../{}", p.split('/').next().unwrap_or("."), p),
    };
    if slash && src.chance(1, 4) {
        o.push('/');
    }
    o
}

fn diff(before: &Tree, after: &Tree) -> Vec<String> {
    let mut o = Vec::new();
    for (p, n) in before {
        match after.get(p) {
            None => o.push(format!("{} was removed", p)),
            Some(m) if m != n => o.push(format!("{} was changed", p)),
            _ => (),
        }
    }
    for (p, n) in after {
        if !before.contains_key(p) {
            o.push(format!("{} {} was created", if *n == Node::Dir { "directory" } else { "file" }, p));
        }
    }
    o
}

fn lang(src: &mut Src) -> String {
    src.pick(&["ts", "ts", "ts", "TS", "Ts"]).to_string()
}

pub fn c14(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let input = tree(src, case);
    let base = input.base.clone();
    let mut t = input.tree.clone();
    let mut schemas = input.schemas.clone();
    // the input is also the place for output when compiling in place
    let inside = format!("{}/gen", base);
    let out = src.pick(&["out", "out", "out/gen", &base, "o.d/x.pkt", &inside, "ts out"]).to_string();
    if out == base {
        case.label("output beside input");
        if input.links {
            return Ok(Verdict::Discard);
        }
        // an output must not be the name of something else that is there
        if schemas.keys().any(|p| matches!(t.get(&format!("{}.ts", &p[..p.len() - 4])), Some(Node::Dir) | Some(Node::Link(_)))) {
            return Ok(Verdict::Discard);
        }
    }
    if t.contains_key(&out) && out != base {
        return Ok(Verdict::Discard);
    }
    let outs: BTreeMap<String, String> = schemas.keys().map(|p| (p.clone(), input.out(p, &out))).collect();
    if out == inside && t.keys().any(|k| k.starts_with(&format!("{}/", out))) {
        return Ok(Verdict::Discard);
    }
    if src.chance(1, 2) && out != base {
        case.label("output directory exists");
        t.insert(out.clone(), Node::Dir);
        t.insert(format!("{}/keep.txt", out), Node::File(b"keep".to_vec()));
        t.insert(format!("{}/other.ts", out), Node::File(b"keep too".to_vec()));
    }
    for (p, o) in &outs {
        if src.chance(1, 4) && !parent_is_file(&t, o) && !t.contains_key(o) {
            case.label("old output");
            let b = old(ctx, src, &schemas[p].1)?;
            t.insert(o.clone(), Node::File(b));
        }
    }
    // either directory can be given through a link
    let (mut named, mut into) = (base.clone(), out.clone());
    if src.chance(1, 8) {
        case.label("input through a link");
        named = "ln-in".to_string();
        t.insert(named.clone(), Node::Link(base.clone()));
    }
    if t.get(&out) == Some(&Node::Dir) && src.chance(1, 8) {
        case.label("output through a link");
        into = "ln-out".to_string();
        t.insert(into.clone(), Node::Link(out.clone()));
    }
    build(&root, &t)?;
    let before = walk(&root)?;
    // usually run from the directory that holds everything, now and then from the input itself
    let mut cwd = root.clone();
    let args = if src.chance(1, 6) {
        case.label("run inside the input");
        cwd = format!("{}/{}", root, base);
        let up = "../".repeat(base.matches('/').count() + 1);
        let inp = match src.below(4) {
            0 => ".".to_string(),
            1 => "./".to_string(),
            2 => format!("{}{}", up, base),
            _ => "./.".to_string(),
        };
        let o = if out == base {
            src.pick(&[".", "./"]).to_string()
        } else if out == inside && src.chance(1, 2) {
            "gen".to_string()
        } else {
            format!("{}{}", up, out)
        };
        vec![lang(src), inp, o]
    } else {
        vec![lang(src), spell(src, &root, &named, true), spell(src, &root, &into, true)]
    };
    show(case, &args, &t);
    case.nontrivial = !schemas.is_empty();
    let times = *src.pick(&[1, 1, 2, 3]);
    let mut before = before;
    let mut edits = Vec::new();
    for k in 0..times {
        if k > 0 && !t.values().any(|n| matches!(n, Node::Link(_))) {
            for (p, (s, text)) in schemas.iter_mut() {
                if src.chance(1, 2) {
                    case.label("schema changed between runs");
                    changed(src, s, text);
                    fs::write(format!("{}/{}", root, p), &text).map_err(|e| e.to_string())?;
                    edits.push(json::s(format!("before run {}: {}\n{}", k + 1, p, text)));
                }
            }
            before = walk(&root)?;
            case.show("schemas changed between runs", J::Arr(edits.clone()));
        }
        case.inner += 1;
        let r = cli(&ctx.cfg, &cwd, &args)?;
        if !r.ok {
            return Ok(Verdict::Fail(format!("exit status {:?} for a directory of valid schemas: {}", r.code, r.err)));
        }
        let after = walk(&root)?;
        let expected: BTreeSet<&String> = outs.values().collect();
        for d in diff(&before, &after) {
            let p = d.strip_prefix("file ").or_else(|| d.strip_prefix("directory ")).unwrap_or(&d);
            let path = p.rsplit_once(" was ").map(|x| x.0).unwrap_or(p).to_string();
            let fine = expected.contains(&path) && !d.ends_with("removed")
                || (d.starts_with("directory ") && (outs.values().any(|o| o.starts_with(&format!("{}/", path))) || path == out));
            if !fine {
                return Ok(Verdict::Fail(format!("{}; the outputs should be {:?}", d, expected)));
            }
        }
        for (p, o) in &outs {
            match after.get(o) {
                Some(Node::File(c)) => {
                    let (s, text) = &schemas[p];
                    if let Err(m) = holds(ctx, s, text, c)? {
                        return Ok(Verdict::Fail(format!("{}: {}", o, m)));
                    }
                }
                _ => return Ok(Verdict::Fail(format!("{} has no output {}", p, o))),
            }
        }
        if outs.len() >= 3 {
            case.label("three or more schemas");
        }
        if outs.len() > 10 {
            case.label("more than ten schemas");
        }
    }
    Ok(Verdict::Pass)
}

/// A text that cannot be compiled, and whether there is only one thing to say about it.
fn bad(src: &mut Src, case: &mut Case) -> (Vec<u8>, bool) {
    let texts: &[&str] = &[
        "A: struct { x: uint8 }\n",
        "A: struct { x: uint8 }\nexport B\n",
        "A: struct { x: B }\nexport A\n",
        "A: struct { x: A }\nexport A\n",
        "A: struct { x: uint8, x: uint8 }\nexport A\n",
        "A: enum { X }\nexport A\n",
        "A: struct { x: E }\nE: enum { }\nexport A\n",
        "A: struct { x?: uint8[] }\nexport A\n",
        "A: struct { x: uint8 }\nA: struct { }\nexport A\n",
        "A: struct { }\nexport A\nexport A\n",
        "U: struct { x: V }\nV: struct { x: U }\nA: struct { x: uint8 }\nexport A\n",
        "",
        "# nothing\n",
        "A: struct { x: uint8 ",
        "A: struct { x uint8 }\nexport A\n",
        "A: union { x: uint8 }\nexport A\n",
        "export A\nA: struct { x: uint8 [] }\n",
        "A: struct { x: uint8 }\nexport A\n$\n",
        "\u{feff}A: struct { }\nexport A\n",
    ];
    match src.weighted(&[6, 1, 2, 4]) {
        3 => {
            let s = crate::props_front::with_faults(src, case, 1);
            if faults(&s).is_empty() {
                return (texts[0].as_bytes().to_vec(), true);
            }
            case.label("random faults");
            (render(src, &s, Layout::Plain, true).text().into_bytes(), faults(&s).len() == 1)
        }
        0 => {
            let t = src.pick(texts);
            (t.as_bytes().to_vec(), !t.contains("V: struct"))
        }
        1 => {
            case.label("not text");
            let mut b = b"A: struct { x: uint8 } # ".to_vec();
            b.extend_from_slice(&[0xff, 0xfe, b'\n']);
            b.extend_from_slice(b"export A\n");
            (b, false)
        }
        _ => {
            // a valid schema with its export taken away or doubled
            let (mut s, _) = good(src);
            if src.chance(1, 2) {
                s.retain(|i| !matches!(i, Item::Export(_)));
            } else {
                let e = export_of(&s).to_string();
                s.push(Item::Export(e));
            }
            (plain(&s).into_bytes(), true)
        }
    }
}
/// What the program should say about a text, without the first line, if there is no choice.
fn complaint(ctx: &mut Ctx, b: &[u8], single: bool) -> Run<Vec<String>> {
    let Ok(t) = std::str::from_utf8(b) else { return Ok(Vec::new()) };
    let m = match ctx.sut.compile(t)? {
        Reply::ParseError(m) => m,
        Reply::CheckError(m) if single => m,
        _ => return Ok(Vec::new()),
    };
    Ok(m.lines().skip(1).map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())
}

pub fn c15(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let input = tree(src, case);
    let base = input.base.clone();
    let mut t = input.tree.clone();
    let schemas = &input.schemas;
    let out = src.pick(&["out", "out/gen", &base]).to_string();
    if out != base && src.chance(1, 2) {
        t.insert(out.clone(), Node::Dir);
        t.insert(format!("{}/keep.ts", out), Node::File(b"keep".to_vec()));
    }
    for p in schemas.keys() {
        let o = input.out(p, &out);
        if src.chance(1, 3) && !parent_is_file(&t, &o) && !t.contains_key(&o) {
            case.label("old output");
            t.insert(o, Node::File(b"old output\n".to_vec()));
        }
    }
    let outarg = spell(src, &root, &out, true);
    let mut says = Vec::new();
    let mut closed = None;
    let args = match src.weighted(&[6, 3, 2, 2, 1, 1, 1]) {
        0 => {
            let p = format!("{}/{}{}.pkt", base, dirname(src), src.pick(&["bad", "zz", "0", "m", "A"]));
            if t.contains_key(&p) || parent_is_file(&t, &p) {
                return Ok(Verdict::Discard);
            }
            case.label(if schemas.is_empty() { "only faulty schemas" } else { "one faulty schema among others" });
            if src.chance(1, 12) {
                case.label("link to nothing");
                t.insert(p, Node::Link("nowhere".into()));
            } else {
                let (b, single) = bad(src, case);
                says = complaint(ctx, &b, single)?;
                t.insert(p, Node::File(b));
            }
            vec![lang(src), spell(src, &root, &base, true), outarg]
        }
        1 => {
            case.label("single faulty file");
            let (b, single) = bad(src, case);
            says = complaint(ctx, &b, single)?;
            t.insert("one.pkt".into(), Node::File(b));
            if src.chance(1, 2) && !t.contains_key(&format!("{}/one.ts", out)) {
                t.insert(format!("{}/one.ts", out), Node::File(b"old output\n".to_vec()));
            }
            vec![lang(src), spell(src, &root, "one.pkt", false), outarg]
        }
        2 => {
            case.label("missing input");
            let p = src.pick(&["nothing", "nothing.pkt", "in/nothing.pkt", "no/such/dir", "", &format!("{}/nothing.pkt", base)]).to_string();
            vec![lang(src), p, outarg]
        }
        3 => {
            case.label("unknown language");
            let l = match src.below(3) {
                0 => src.pick(&["rust", "js", "typescript", "", "t", "tss", "ts ", "go", "rs", " ts", "\tts", "ts\n", "tsx", ".ts", "t-s", "TypeScript"]).to_string(),
                1 => dict::ident(src),
                _ => {
                    let mut l: Vec<char> = "ts".chars().collect();
                    let at = src.below(3) as usize;
                    let c = if src.chance(1, 2) { dict::character(src) } else { *src.pick(&['t', 's', ' ', '.', 'x', '1', '_', 'ſ']) };
                    if src.chance(1, 2) {
                        l.insert(at, c);
                    } else if at < 2 {
                        l[at] = c;
                    }
                    l.into_iter().filter(|c| *c != '\0').collect()
                }
            };
            if l.eq_ignore_ascii_case("ts") || l.starts_with('-') {
                return Ok(Verdict::Discard);
            }
            let p = match schemas.keys().next() {
                Some(p) if src.chance(1, 2) => p.clone(),
                _ => base.clone(),
            };
            vec![l, p, outarg]
        }
        4 => {
            case.label("too few arguments");
            let mut a = vec![lang(src), base.clone()];
            a.truncate(src.below(3) as usize);
            a
        }
        6 => {
            case.label("unreadable input");
            let mut p = format!("{}/{}{}", base, dirname(src), src.pick(&["bad", "zz", "0", "m", "A"]));
            if t.contains_key(&p) || parent_is_file(&t, &p) {
                return Ok(Verdict::Discard);
            }
            if src.chance(1, 2) {
                p.push_str(".pkt");
                t.insert(p.clone(), Node::File(good(src).1.into_bytes()));
            } else {
                t.insert(p.clone(), Node::Dir);
                t.insert(format!("{}/x.pkt", p), Node::File(good(src).1.into_bytes()));
            }
            closed = Some(p);
            vec![lang(src), spell(src, &root, &base, true), outarg]
        }
        _ => {
            case.label("too many arguments");
            vec![lang(src), base.clone(), outarg, src.pick(&["in", "out2", "x"]).to_string()]
        }
    };
    build(&root, &t)?;
    let before = walk(&root)?;
    show(case, &args, &t);
    case.nontrivial = true;
    if schemas.len() >= 2 {
        case.label("two or more good schemas");
    }
    case.inner = 1;
    let r = match closed {
        None => cli(&ctx.cfg, &root, &args)?,
        Some(p) => {
            case.show("unreadable", json::s(p.clone()));
            match unprivileged(ctx, &root, &args, &t, &p, 0)? {
                Some(r) => r,
                None => return Ok(Verdict::Discard),
            }
        }
    };
    if r.ok {
        return Ok(Verdict::Fail(format!("exit status zero; output: {} {}", r.out, r.err)));
    }
    if r.err.trim().is_empty() {
        return Ok(Verdict::Fail("nothing on the error output".into()));
    }
    if !says.is_empty() {
        case.label("message compared");
    }
    if let Some(l) = says.iter().find(|l| !r.err.contains(*l)) {
        return Ok(Verdict::Fail(format!("the error output should hold \"{}\" and is: {}", l, r.err)));
    }
    let d = diff(&before, &walk(&root)?);
    if !d.is_empty() {
        return Ok(Verdict::Fail(format!("the run failed and {}", d.join(", "))));
    }
    Ok(Verdict::Pass)
}

pub fn c16(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let mut t = Tree::new();
    let (mut s, mut text) = good(src);
    if src.chance(1, 40) {
        case.label("very long text");
        let x = lengthen(src, s, text);
        s = x.0;
        text = x.1;
    }
    let dir = src.pick(&["", "in/", "in/sub dir/", "v1.2/", "x.pkt/", "a/b/c/d/e/"]).to_string();
    let stem = if src.chance(1, 3) {
        stem(src)
    } else {
        src.pick(&["a", "msg", "two words", "a.b", "v1.2.3", "é", "-o", "x.pkt", "_", "schema"]).to_string()
    };
    let ext = src.pick(&[".pkt", ".pkt", ".pkt", ".txt", "", ".PKT", ".schema", ".p", ".pkts", ".t s"]).to_string();
    // without an extension, what follows the last dot would be taken for one
    if ext.is_empty() && stem.contains('.') {
        return Ok(Verdict::Discard);
    }
    if stem.contains('.') {
        case.label("dots in the name");
    }
    if ext != ".pkt" {
        case.label("another extension");
    }
    let file = format!("{}{}{}", dir, stem, ext);
    if src.chance(1, 10) {
        case.label("linked schema");
        let target = src.pick(&["kept/real.pkt", "kept/b.txt", "kept/none"]).to_string();
        let up = "../".repeat(file.matches('/').count());
        t.insert(target.clone(), Node::File(text.clone().into_bytes()));
        t.insert(file.clone(), Node::Link(format!("{}{}", up, target)));
    } else {
        t.insert(file.clone(), Node::File(text.clone().into_bytes()));
    }
    let sibling = format!("{}other.pkt", dir);
    if src.chance(1, 3) {
        case.label("other schemas beside it");
        t.insert(sibling, Node::File(b"not a schema {".to_vec()));
    }
    let out = src.pick(&["out", "out", "out/a/b", "in", "v1.2", "o.pkt", "out/a/b/c/d/e.f", "o.ts", "."]).to_string();
    if src.chance(1, 2) {
        case.label("output directory exists");
        t.insert(if out == "." { "keep.txt".to_string() } else { format!("{}/keep.txt", out) }, Node::File(b"keep".to_vec()));
    }
    let o = if out == "." { format!("{}.ts", stem) } else { format!("{}/{}.ts", out, stem) };
    if src.chance(1, 2) {
        case.label("old output");
        let b = old(ctx, src, &text)?;
        t.insert(o.clone(), Node::File(b));
    }
    // run from the directory that holds everything, from the one the schema is in, or from another
    let place = src.weighted(&[6, 1, 1]);
    let cwd = match place {
        1 => dir.trim_end_matches('/').to_string(),
        2 => src.pick(&["work", "work/here"]).to_string(),
        _ => String::new(),
    };
    if place > 0 && !cwd.is_empty() {
        case.label("run from another directory");
        t.insert(cwd.clone(), Node::Dir);
    }
    build(&root, &t)?;
    let before = walk(&root)?;
    let mut inp = spell(src, &root, &file, false);
    if inp.starts_with('-') {
        inp = format!("./{}", inp);
    }
    if file.starts_with("-") && inp.contains("/../") {
        inp = format!("./{}", file);
    }
    // the path must lead through directories that exist
    if inp.contains("/../") {
        inp = file.clone();
        if inp.starts_with('-') {
            inp = format!("./{}", inp);
        }
    }
    let mut outarg = spell(src, &root, &out, true);
    if outarg.contains("/../") {
        outarg = out.clone();
    }
    if !cwd.is_empty() {
        let up = "../".repeat(cwd.matches('/').count() + 1);
        if !inp.starts_with('/') {
            inp = match place {
                1 if src.chance(1, 2) => format!("{}{}{}", if stem.starts_with('-') { "./" } else { "" }, stem, ext),
                1 => format!("./{}{}", stem, ext),
                _ => format!("{}{}", up, file),
            };
        }
        if !outarg.starts_with('/') {
            outarg = format!("{}{}", up, outarg);
        }
    }
    let args = vec![lang(src), inp, outarg];
    show(case, &args, &t);
    if !cwd.is_empty() {
        case.show("run in", json::s(cwd.clone()));
    }
    case.nontrivial = true;
    case.inner = 1;
    let r = cli(&ctx.cfg, &format!("{}/{}", root, cwd), &args)?;
    if !r.ok {
        return Ok(Verdict::Fail(format!("exit status {:?} for a valid schema: {}", r.code, r.err)));
    }
    let after = walk(&root)?;
    for d in diff(&before, &after) {
        let p = d.strip_prefix("file ").or_else(|| d.strip_prefix("directory ")).unwrap_or(&d);
        let path = p.rsplit_once(" was ").map(|x| x.0).unwrap_or(p).to_string();
        let fine = path == o && !d.ends_with("removed") || (d.starts_with("directory ") && o.starts_with(&format!("{}/", path)));
        if !fine {
            return Ok(Verdict::Fail(format!("{}; only {} should be written", d, o)));
        }
    }
    match after.get(&o) {
        Some(Node::File(c)) => {
            if let Err(m) = holds(ctx, &s, &text, c)? {
                return Ok(Verdict::Fail(format!("{}: {}", o, m)));
            }
        }
        _ => return Ok(Verdict::Fail(format!("{} was not written", o))),
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C19

pub fn c19(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let (mut t, schemas, arg) = if src.chance(2, 3) {
        let input = tree(src, case);
        let arg = input.base.clone();
        let names: Vec<String> = input.schemas.keys().map(|p| input.out(p, "")).collect();
        (input.tree, names, arg)
    } else {
        case.label("single file");
        let (_, text) = good(src);
        let n = stem(src);
        let p = format!("{}{}.pkt", dirname(src), n);
        let mut t = Tree::new();
        t.insert(p.clone(), Node::File(text.into_bytes()));
        (t, vec![format!("/{}.ts", n)], p)
    };
    if schemas.is_empty() {
        return Ok(Verdict::Discard);
    }
    let out = src.pick(&["out", "out/gen", "a b/c/d"]).to_string();
    let mut limit = None;
    let mut closed = None;
    match src.below(5) {
        4 => {
            case.label("no permission");
            let (at, mode) = if src.chance(1, 2) {
                t.insert(out.clone(), Node::Dir);
                (out.clone(), 0o555)
            } else {
                let at = format!("{}{}", out, src.pick(&schemas));
                t.insert(at.clone(), Node::File(b"old".to_vec()));
                (at, 0o444)
            };
            closed = Some((at, mode));
        }
        0 => {
            case.label("a file in place of the output directory");
            let at = if src.chance(1, 2) { out.clone() } else { out.split('/').next().unwrap_or("").to_string() };
            t.insert(at, Node::File(b"in the way".to_vec()));
        }
        1 => {
            case.label("a directory in place of an output");
            let at = format!("{}{}", out, src.pick(&schemas));
            t.insert(at.clone(), Node::Dir);
            if src.chance(1, 2) {
                t.insert(format!("{}/keep", at), Node::File(b"keep".to_vec()));
            }
        }
        2 => {
            // not in place of the name itself
            let deep: Vec<&String> = schemas.iter().filter(|p| p[1..].contains('/')).collect();
            if deep.is_empty() {
                return Ok(Verdict::Discard);
            }
            case.label("a file in place of a directory in the output");
            let p = src.pick(&deep);
            let cuts: Vec<usize> = p[1..].match_indices('/').map(|x| x.0 + 1).collect();
            let at = format!("{}{}", out, &p[..*src.pick(&cuts)]);
            t.insert(at, Node::File(b"in the way".to_vec()));
        }
        _ => {
            case.label("no room");
            // shorter than any output
            limit = Some(*src.pick(&[0u64, 1, 60, 150]));
            if src.chance(1, 2) {
                let at = format!("{}{}", out, src.pick(&schemas));
                t.insert(at, Node::File(b"old".to_vec()));
            }
        }
    }
    let args = vec![lang(src), spell(src, &root, &arg, false), spell(src, &root, &out, false)];
    build(&root, &t)?;
    let before = walk(&root)?;
    show(case, &args, &t);
    case.show("no file may grow beyond", limit.map(json::n).unwrap_or(J::Null));
    case.nontrivial = true;
    case.inner = 1;
    let r = match closed {
        None => cli_limited(&ctx.cfg, &root, &args, limit)?,
        Some((p, mode)) => {
            case.show("may not be written", json::s(p.clone()));
            match unprivileged(ctx, &root, &args, &t, &p, mode)? {
                Some(r) => r,
                None => return Ok(Verdict::Discard),
            }
        }
    };
    if r.ok {
        return Ok(Verdict::Fail(format!("an output cannot be written and the exit status is zero; output: {} {}", r.out, r.err)));
    }
    if r.err.trim().is_empty() {
        return Ok(Verdict::Fail("nothing on the error output".into()));
    }
    // other outputs may have been written, and nothing else
    let outputs: BTreeSet<String> = schemas.iter().map(|p| format!("{}{}", out, p)).collect();
    let after = walk(&root)?;
    for (p, n) in &before {
        let same = after.get(p) == Some(n) || outputs.contains(p) && matches!((n, after.get(p)), (Node::File(_), Some(Node::File(_))));
        if !same {
            return Ok(Verdict::Fail(format!("{} was changed or removed", p)));
        }
    }
    for (p, n) in &after {
        let fine = match n {
            Node::Dir => outputs.iter().any(|o| o.starts_with(&format!("{}/", p))),
            _ => outputs.contains(p),
        };
        if !before.contains_key(p) && !fine {
            return Ok(Verdict::Fail(format!("{} was created", p)));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C20

/// The files a run says it writes, as paths below the scratch directory.
fn announced(root: &str, out: &str) -> Vec<String> {
    let mut all = Vec::new();
    for p in out.lines().filter_map(|l| l.strip_prefix("Writing to ")) {
        let p = p.strip_prefix(root).unwrap_or(p);
        let mut parts: Vec<&str> = Vec::new();
        for x in p.split('/') {
            match x {
                "" | "." => (),
                ".." => {
                    parts.pop();
                }
                _ => parts.push(x),
            }
        }
        all.push(parts.join("/"));
    }
    all.sort();
    all
}

pub fn c20(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let out = src.pick(&["out", "out/gen", "a b/c.d/e"]).to_string();
    let (mut t, mut outputs, arg) = if src.chance(2, 3) {
        let input = tree(src, case);
        let arg = input.base.clone();
        let names: Vec<String> = input.schemas.keys().map(|p| input.out(p, &out)).collect();
        (input.tree, names, arg)
    } else {
        case.label("single file");
        let (_, text) = good(src);
        let n = stem(src);
        let p = format!("{}{}.pkt", dirname(src), n);
        let mut t = Tree::new();
        t.insert(p.clone(), Node::File(text.into_bytes()));
        (t, vec![format!("{}/{}.ts", out, n)], p)
    };
    // one line each
    if outputs.iter().any(|o| o.chars().any(|c| c.is_control())) || arg.starts_with('-') {
        return Ok(Verdict::Discard);
    }
    for o in &outputs {
        if src.chance(1, 4) && !parent_is_file(&t, o) && !t.contains_key(o) {
            case.label("old output");
            t.insert(o.clone(), Node::File(b"old output\n".to_vec()));
        }
    }
    let mut args = vec![lang(src), spell(src, &root, &arg, matches!(t.get(&arg), Some(Node::Dir))), spell(src, &root, &out, true)];
    let kind = src.weighted(&[10, 2, 2]);
    match kind {
        1 => {
            case.label("asked for help or the version");
            let at = src.below(args.len() as u64 + 1) as usize;
            args.insert(at, src.pick(&["--help", "-h", "--version", "-V"]).to_string());
            outputs.clear();
        }
        2 => {
            let p = if t.get(&arg) == Some(&Node::Dir) { format!("{}/{}", arg, src.pick(&["0.pkt", "zz.pkt"])) } else { arg };
            let (b, _) = bad(src, case);
            t.insert(p, Node::File(b));
            case.label("faulty schema");
            outputs.clear();
        }
        _ => (),
    }
    outputs.sort();
    build(&root, &t)?;
    let before = walk(&root)?;
    show(case, &args, &t);
    case.nontrivial = true;
    case.inner = 1;
    let r = cli(&ctx.cfg, &root, &args)?;
    if r.ok != (kind != 2) {
        return Ok(Verdict::Fail(format!("exit status {:?}; output: {} {}", r.code, r.out, r.err)));
    }
    let said = announced(&root, &r.out);
    if said != outputs {
        return Ok(Verdict::Fail(format!("the files the run says it writes are {:?} and not {:?}", said, outputs)));
    }
    if kind == 0 {
        return Ok(Verdict::Pass);
    }
    if kind == 1 && r.out.trim().is_empty() {
        return Ok(Verdict::Fail("nothing on the output".into()));
    }
    let d = diff(&before, &walk(&root)?);
    if !d.is_empty() {
        return Ok(Verdict::Fail(format!("nothing should be written and {}", d.join(", "))));
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C23

struct Job {
    args: Vec<String>,
    /// what it writes, or nothing for a run that must fail
    writes: Vec<(String, Schema, String)>,
    fails: bool,
}

/// Directories on the way to a path.
fn above(p: &str) -> Vec<String> {
    p.match_indices('/').map(|(i, _)| p[..i].to_string()).collect()
}

pub fn c23(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let n = 2 + src.below(4) as usize;
    let outs: &[&str] = src.pick(&[&["out"] as &[&str], &["out/gen"], &["a b/c.d/e"], &["out", "out/gen"], &["out/a/b", "out/a/c"]]);
    let sub = src.pick(&["", "p/", "p/q/r/"]).to_string();
    let mut t = Tree::new();
    let mut jobs: Vec<Job> = Vec::new();
    let mut pool: Vec<(Schema, String)> = Vec::new();
    for i in 0..n {
        let out = src.pick(outs).to_string();
        let single = src.chance(1, 3);
        let base = format!("in{}", i);
        let mut writes = Vec::new();
        let count = if single { 1 } else { 1 + src.below(4) as usize };
        for k in 0..count {
            if pool.is_empty() || src.chance(2, 3) {
                let g = good(src);
                pool.push(g);
            }
            let at = src.below(pool.len() as u64) as usize;
            let (s, text) = pool[at].clone();
            // names of one run never meet those of another
            let name = format!("{}{}{}", src.pick(&["m", "packet", "ts", "a.b"]), i, ["", "x", "y", "z"][k]);
            let d = if single || src.chance(1, 2) { sub.clone() } else { String::new() };
            t.insert(format!("{}/{}{}.pkt", base, d, name), Node::File(text.clone().into_bytes()));
            let o = format!("{}/{}{}.ts", out, if single { "" } else { &d }, name);
            writes.push((o, s, text));
        }
        let fails = src.chance(1, 12);
        let arg = if single { t.keys().find(|p| p.starts_with(&format!("{}/", base))).cloned().unwrap_or_default() } else { base.clone() };
        if fails {
            case.label("a run with a faulty schema");
            let p = if single { arg.clone() } else { format!("{}/{}.pkt", base, src.pick(&["0", "zz"])) };
            let (b, _) = bad(src, case);
            t.insert(p, Node::File(b));
            writes.clear();
        }
        if single {
            case.label("single file");
        }
        let args = vec![lang(src), spell(src, &root, &arg, false), spell(src, &root, &out, true)];
        jobs.push(Job { args, writes, fails });
    }
    if src.chance(1, 6) {
        case.label("old output");
        for j in &jobs {
            for w in &j.writes {
                t.insert(w.0.clone(), Node::File(b"old output\n".to_vec()));
            }
        }
    }
    let all: Vec<String> = jobs.iter().flat_map(|j| j.args.iter().cloned()).collect();
    show(case, &all, &t);
    case.nontrivial = true;
    for _ in 0..2 {
        scratch(ctx)?;
        build(&root, &t)?;
        // a path such as out/../out needs the directory
        for o in outs.iter().filter(|_| all.iter().any(|a| a.contains("/../"))) {
            let top = o.split('/').next().unwrap_or("");
            fs::create_dir_all(format!("{}/{}", root, top)).map_err(|e| format!("making the scratch directory: {}", e))?;
        }
        let mut expected = walk(&root)?;
        let cfg = &ctx.cfg;
        let gate = std::sync::Barrier::new(n);
        let runs: Vec<Run<CliRun>> = std::thread::scope(|sc| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|j| {
                    let (gate, root) = (&gate, &root);
                    sc.spawn(move || {
                        gate.wait();
                        cli(cfg, root, &j.args)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread of the check ended".into()))).collect()
        });
        let after = walk(&root)?;
        for (j, r) in jobs.iter().zip(runs) {
            let r = r?;
            case.inner += 1;
            if r.ok == j.fails {
                return Ok(Verdict::Fail(format!("{:?} at the same time as others: exit status {:?}; output: {} {}", j.args, r.code, r.out, r.err)));
            }
            for (o, s, text) in &j.writes {
                match after.get(o) {
                    Some(Node::File(c)) => {
                        if let Err(e) = holds(ctx, s, text, c)? {
                            return Ok(Verdict::Fail(format!("{}: {}", o, e)));
                        }
                        expected.insert(o.clone(), Node::File(c.clone()));
                    }
                    _ => return Ok(Verdict::Fail(format!("{} was not written", o))),
                }
                for d in above(o) {
                    expected.insert(d, Node::Dir);
                }
            }
        }
        let d = diff(&expected, &after);
        if !d.is_empty() {
            return Ok(Verdict::Fail(format!("besides the outputs {}", d.join(", "))));
        }
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C24

const VARS: &[&str] = &[
    "DEBUG", "VERBOSE", "CI", "TERM", "NO_COLOR", "COLUMNS", "LANG", "LC_ALL", "TZ", "HOME", "USER", "PATH", "PWD", "OUT", "OUT_DIR", "TS", "LANGUAGE", "NODE_ENV",
    "RUST_LOG", "RUST_BACKTRACE", "PACKETC", "PACKETC_OUT", "PACKETC_LANG", "PACKETC_DEBUG", "CARGO", "CARGO_MANIFEST_DIR", "EDITOR", "SHELL", "DISPLAY",
];
const BESIDE: &[&str] = &[
    "packetc.toml", "packetc.json", ".packetc", ".packetcrc", ".pktignore", ".gitignore", ".ignore", "Cargo.toml", "package.json", "tsconfig.json", ".editorconfig", ".env", "README.md",
];

/// What a tree holds, where generated code is compared without the time and regardless of the order of declarations.
fn contents(t: &Tree) -> BTreeMap<&String, String> {
    t.iter()
        .map(|(p, n)| {
            let c = match n {
                Node::Dir => "directory".to_string(),
                Node::Link(l) => format!("link to {}", l),
                Node::File(c) => {
                    let c = String::from_utf8_lossy(c);
                    let mut l: Vec<&str> = body(&c).lines().collect();
                    l.sort();
                    l.join("\n")
                }
            };
            (p, c)
        })
        .collect()
}

pub fn c24(ctx: &mut Ctx, src: &mut Src, case: &mut Case) -> Run<Verdict> {
    let root = scratch(ctx)?;
    let out = src.pick(&["out", "out/gen", "a b/c.d/e"]).to_string();
    let (mut t, arg) = if src.chance(1, 2) {
        let input = tree(src, case);
        (input.tree, input.base)
    } else {
        case.label("single file");
        let (_, text) = good(src);
        let p = format!("{}{}.pkt", dirname(src), stem(src));
        let mut t = Tree::new();
        t.insert(p.clone(), Node::File(text.into_bytes()));
        (t, p)
    };
    if arg.starts_with('-') {
        return Ok(Verdict::Discard);
    }
    if src.chance(1, 6) {
        case.label("faulty schema");
        let p = if t.get(&arg) == Some(&Node::Dir) { format!("{}/{}", arg, src.pick(&["0.pkt", "zz.pkt"])) } else { arg.clone() };
        let (b, _) = bad(src, case);
        t.insert(p, Node::File(b));
    }
    // the surroundings
    let clear = src.chance(1, 3);
    if clear {
        case.label("no variables");
    }
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    let mut k = 0;
    while src.more(k, 0, 12, 4) {
        k += 1;
        let name = if src.chance(1, 3) { dict::ident(src) } else { src.pick(VARS).to_string() };
        let value = match src.below(8) {
            0 => String::new(),
            1 => "0".to_string(),
            2 => "ts".to_string(),
            3 => "/nowhere".to_string(),
            4 => dict::ident(src),
            5 => "C".to_string(),
            _ => "1".to_string(),
        };
        // these are for the loader and the library, not for the program
        if !name.is_empty() && !name.starts_with("LD_") && !name.starts_with("GLIBC") && !name.starts_with("MALLOC") && !name.contains(['=', '\0']) && !value.contains('\0') {
            vars.insert(name, value);
        }
    }
    if !vars.is_empty() {
        case.label("variables");
    }
    let mut beside = Tree::new();
    let mut k = 0;
    while src.more(k, 0, 5, 2) {
        k += 1;
        let p = if src.chance(1, 4) { format!("{}{}", dict::ident(src), src.pick(&["", ".toml", ".json", ".pkt"])) } else { src.pick(BESIDE).to_string() };
        let c = match src.below(4) {
            0 => String::new(),
            1 => "*.pkt\n*\n".to_string(),
            2 => "{ \"out\": \"elsewhere\", \"lang\": \"rust\" }\n".to_string(),
            _ => "out = \"elsewhere\"\n".to_string(),
        };
        let top = |x: &str| x.split('/').next().unwrap_or("").to_string();
        // only beside what is there
        if !p.is_empty() && !p.contains(['/', '\0']) && p.len() < 200 && !t.keys().any(|q| top(q) == p) && top(&out) != p {
            case.label("other files in the working directory");
            beside.insert(p, Node::File(c.into_bytes()));
        }
    }
    let input: &[u8] = src.pick(&[b"" as &[u8], b"M: struct { x: uint8 }\nexport M\n", b"y\n"]);
    let args = vec![lang(src), arg.clone(), out.clone()];
    show(case, &args, &t);
    case.show("variables", J::Obj(vars.iter().map(|(k, v)| (k.clone(), json::s(v.clone()))).collect()));
    case.show("other files", J::Arr(beside.keys().map(|k| json::s(k.clone())).collect()));
    case.show("to read", json::s(String::from_utf8_lossy(input).into_owned()));
    case.show("no other variables", J::Bool(clear));
    let mut key = Vec::new();
    case.input.iter().for_each(|x| key.extend_from_slice(x.1.text().as_bytes()));
    case.key = hash(&key);
    case.nontrivial = clear || !vars.is_empty() || !beside.is_empty() || !input.is_empty();
    case.inner = 2;
    build(&root, &t)?;
    let a = cli(&ctx.cfg, &root, &args)?;
    let plain = walk(&root)?;
    scratch(ctx)?;
    build(&root, &t)?;
    build(&root, &beside)?;
    let vars: Vec<(String, String)> = vars.into_iter().collect();
    let b = cli_around(&ctx.cfg, &root, &args, clear, &vars, input)?;
    let mut after = walk(&root)?;
    if a.ok != b.ok {
        return Ok(Verdict::Fail(format!("exit status {:?} became {:?}; output: {} {}", a.code, b.code, b.out, b.err)));
    }
    let lines = |t: &str| {
        let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        l.sort();
        l
    };
    if lines(&a.out) != lines(&b.out) {
        return Ok(Verdict::Fail(format!("the output became {:?} and was {:?}", b.out, a.out)));
    }
    for (p, n) in &beside {
        if after.remove(p).as_ref() != Some(n) {
            return Ok(Verdict::Fail(format!("{} was changed", p)));
        }
    }
    let (x, y) = (contents(&plain), contents(&after));
    if x != y {
        let p = x.keys().chain(y.keys()).find(|p| x.get(**p) != y.get(**p)).map(|p| p.to_string()).unwrap_or_default();
        return Ok(Verdict::Fail(format!("{}: {:?} became {:?}", p, x.get(&p), y.get(&p))));
    }
    Ok(Verdict::Pass)
}
