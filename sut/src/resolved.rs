//! A dump of the checked form of a schema.
use packetc_lib::check::{type_check, EnumRepr, Resolved, ResolvedType, Struct};

fn fields<'a>(r: &Resolved<'a>, s: &Struct<'a>, o: &mut String) {
    for f in s.fields.iter() {
        let t = &*f.r#type.borrow();
        let kind = match &t.1 {
            ResolvedType::Builtin(b) => format!("{:?}", b),
            // the type referred to is the one kept under its name
            _ => match r.types.get(t.0) {
                Some(p) if *p.borrow() == *t => "declared".to_string(),
                Some(_) => "other".to_string(),
                None => "lost".to_string(),
            },
        };
        o.push_str(&format!("  {} {} {} array={} optional={}\n", f.name, t.0, kind, f.array, f.optional));
    }
}

fn dump(r: &Resolved) -> String {
    let mut o = format!("export {}\n", r.export.name);
    fields(r, &r.export.r#struct, &mut o);
    let mut all: Vec<_> = r.types.iter().collect();
    all.sort_by_key(|x| *x.0);
    for (key, p) in all {
        let t = &*p.borrow();
        match &t.1 {
            ResolvedType::Builtin(_) => (),
            ResolvedType::Enum(e) => {
                let bytes = match e.repr {
                    EnumRepr::U8 => 1,
                    EnumRepr::U16 => 2,
                    EnumRepr::U32 => 4,
                };
                o.push_str(&format!("{} enum {} {}\n", key, t.0, bytes));
                for v in e.variants.iter() {
                    o.push_str(&format!("  {} {}\n", v.name, v.value));
                }
            }
            ResolvedType::Struct(s) => {
                o.push_str(&format!("{} struct {}\n", key, t.0));
                fields(r, s, &mut o);
            }
        }
    }
    o
}

pub fn handle(text: &str) -> (u8, Vec<u8>) {
    match packetc_lib::parser::pkt::schema(text) {
        Ok(ast) => match type_check(ast) {
            Ok(r) => (b'R', dump(&r).into_bytes()),
            Err(e) => (b'c', e.into_bytes()),
        },
        Err(e) => (b'p', e.to_string().into_bytes()),
    }
}
