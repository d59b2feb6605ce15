//! Frame protocol: request = u32 LE length + (1 byte op + UTF-8 text); response = u32 LE length + (1 byte status + bytes).
//!
//! op 'P': parse the text.   status 'A' + AST dump | 'E' + "line column offset"
//! op 'C': compile the text. status 'T' + generated module | 'p' + parse error | 'c' + check error
//! op 'R': type check the text. status 'R' + dump of the checked form | 'p' + parse error | 'c' + check error
//! op 'M': compile texts, each after its length in 8 hexadecimal digits, at the same time, each several times on a thread of its own.
//!         status 'M' + for every compilation, in order: u32 LE length + (1 byte status + bytes) as for 'C' or 'X'
//! op 'N': what the requests since the last one did that is new, see cover.rs. status 'N' + u32 LE numbers
//! any op: status 'X' + message when the library panicked.
#![feature(link_llvm_intrinsics)]
#![allow(internal_features)]
mod cover;
#[cfg(feature = "resolved")]
mod resolved;
use packetc_lib::ast::{Node, Type};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

fn dump(ast: &[Node]) -> String {
    let mut o = String::new();
    for node in ast {
        match node {
            Node::Export(n) => o.push_str(&format!("export {}\n", n)),
            Node::Decl(n, Type::Enum(e)) => {
                o.push_str(&format!("enum {}\n", n));
                for v in e.0.iter() {
                    o.push_str(&format!("  {}\n", v));
                }
            }
            Node::Decl(n, Type::Struct(s)) => {
                o.push_str(&format!("struct {}\n", n));
                for (f, t) in s.0.iter() {
                    o.push_str(&format!("  {} {} array={} optional={}\n", f, t.0, t.1, t.2));
                }
            }
        }
    }
    o
}

fn handle(op: u8, text: &str) -> (u8, Vec<u8>) {
    match op {
        b'P' => match packetc_lib::parser::pkt::schema(text) {
            Ok(ast) => (b'A', dump(&ast).into_bytes()),
            Err(e) => (
                b'E',
                format!("{} {} {}", e.location.line, e.location.column, e.location.offset).into_bytes(),
            ),
        },
        b'C' => match packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(text) {
            Ok(t) => (b'T', t.into_bytes()),
            Err(e @ packetc_lib::Error::Parse(_)) => (b'p', e.to_string().into_bytes()),
            Err(e @ packetc_lib::Error::Check(_)) => (b'c', e.to_string().into_bytes()),
        },
        #[cfg(feature = "resolved")]
        b'R' => resolved::handle(text),
        _ => (b'?', Vec::new()),
    }
}

fn message(e: Box<dyn std::any::Any + Send>) -> Vec<u8> {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".to_string())
        .into_bytes()
}

const ROUNDS: usize = 6;

fn together(texts: &str) -> (u8, Vec<u8>) {
    let mut rest = texts;
    let mut texts = Vec::new();
    while rest.len() >= 8 {
        let n = usize::from_str_radix(&rest[..8], 16).expect("length");
        texts.push(&rest[8..8 + n]);
        rest = &rest[8 + n..];
    }
    let start = std::sync::Barrier::new(texts.len());
    let work = |text: &str| {
        let mut out = Vec::new();
        start.wait();
        for _ in 0..ROUNDS {
            let (status, body) = catch_unwind(AssertUnwindSafe(|| handle(b'C', text))).unwrap_or_else(|e| (b'X', message(e)));
            out.extend_from_slice(&((body.len() + 1) as u32).to_le_bytes());
            out.push(status);
            out.extend_from_slice(&body);
        }
        out
    };
    cover::OFF.store(true, Ordering::SeqCst);
    let out = std::thread::scope(|s| {
        let threads: Vec<_> = texts
            .iter()
            .map(|&t| {
                let work = &work;
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || work(t)).unwrap()
            })
            .collect();
        threads.into_iter().flat_map(|t| t.join().unwrap()).collect()
    });
    cover::OFF.store(false, Ordering::SeqCst);
    (b'M', out)
}

fn serve() {
    let mut input = std::io::stdin().lock();
    let mut output = std::io::stdout().lock();
    let mut seen = Default::default();
    loop {
        let mut len = [0u8; 4];
        if input.read_exact(&mut len).is_err() {
            return;
        }
        let mut buf = vec![0u8; u32::from_le_bytes(len) as usize];
        input.read_exact(&mut buf).expect("request body");
        let text = std::str::from_utf8(&buf[1..]).expect("utf-8 request");
        let (status, body) = if buf[0] == b'N' {
            (
                b'N',
                cover::news(&mut seen).into_iter().flat_map(u32::to_le_bytes).collect(),
            )
        } else if buf[0] == b'M' {
            together(text)
        } else {
            catch_unwind(AssertUnwindSafe(|| handle(buf[0], text))).unwrap_or_else(|e| (b'X', message(e)))
        };
        let mut out = Vec::with_capacity(body.len() + 5);
        out.extend_from_slice(&((body.len() + 1) as u32).to_le_bytes());
        out.push(status);
        out.extend_from_slice(&body);
        output.write_all(&out).expect("response");
        output.flush().expect("flush");
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // the same stack a main thread gets by default
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(serve)
        .unwrap()
        .join()
        .unwrap();
}
