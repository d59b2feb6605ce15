//! Reference rules for schemas, written from the documented rules: every fault of a schema.
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    ManyExports,
    NoExport,
    DupDecl(String),
    OptArray(String, String),
    EmptyEnum(String),
    TooMany(String),
    DupVariant(String, String),
    DupField(String, String),
    /// this type is on a cycle
    Cycle(String),
    Missing(String),
    ExportNotStruct(String),
    ExportMissing(String),
}

pub fn faults(s: &[Item]) -> BTreeSet<Fault> {
    use Fault::*;
    let mut o = BTreeSet::new();
    let exports: Vec<&String> = s.iter().filter_map(|i| if let Item::Export(n) = i { Some(n) } else { None }).collect();
    match exports.len() {
        0 => {
            o.insert(NoExport);
        }
        1 => (),
        _ => {
            o.insert(ManyExports);
        }
    }
    let mut names: BTreeSet<&str> = BTreeSet::new();
    let mut structs: BTreeSet<&str> = BTreeSet::new();
    let mut refs: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for i in s {
        if let Item::Decl(n, k) = i {
            if !names.insert(n) {
                o.insert(DupDecl(n.clone()));
            }
            if let Kind::Struct(_) = k {
                structs.insert(n);
            }
        }
    }
    for i in s {
        match i {
            Item::Decl(n, Kind::Enum(v)) => {
                if v.is_empty() {
                    o.insert(EmptyEnum(n.clone()));
                }
                if v.len() > 32 {
                    o.insert(TooMany(n.clone()));
                }
                let mut seen = BTreeSet::new();
                for x in v {
                    if !seen.insert(x) {
                        o.insert(DupVariant(x.clone(), n.clone()));
                    }
                }
            }
            Item::Decl(n, Kind::Struct(f)) => {
                let mut seen = BTreeSet::new();
                for x in f {
                    if !seen.insert(&x.name) {
                        o.insert(DupField(x.name.clone(), n.clone()));
                    }
                    if x.optional && x.array {
                        o.insert(OptArray(x.name.clone(), n.clone()));
                    }
                    if builtin(&x.ty).is_none() {
                        if names.contains(x.ty.as_str()) {
                            refs.entry(n).or_default().insert(&x.ty);
                        } else {
                            o.insert(Missing(x.ty.clone()));
                        }
                    }
                }
            }
            Item::Export(n) => {
                if builtin(n).is_some() {
                    o.insert(ExportNotStruct(n.clone()));
                    o.insert(ExportMissing(n.clone()));
                } else if !names.contains(n.as_str()) {
                    o.insert(ExportMissing(n.clone()));
                } else if !structs.contains(n.as_str()) {
                    o.insert(ExportNotStruct(n.clone()));
                }
            }
        }
    }
    // a type is on a cycle when it can reach itself
    for start in refs.keys() {
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        let mut todo: Vec<&str> = refs[start].iter().copied().collect();
        while let Some(x) = todo.pop() {
            if x == *start {
                o.insert(Cycle(start.to_string()));
                break;
            }
            if seen.insert(x) {
                if let Some(r) = refs.get(x) {
                    todo.extend(r.iter().copied());
                }
            }
        }
    }
    o
}

/// The number of leaves after expanding the export; generated code grows with it.
pub fn expansion(s: &[Item]) -> u64 {
    let d = decls(s);
    fn go<'a>(d: &BTreeMap<&'a str, &'a Kind>, n: &'a str, memo: &mut BTreeMap<&'a str, u64>) -> u64 {
        if let Some(x) = memo.get(n) {
            return *x;
        }
        // of no account when the schema has a cycle, and refused
        memo.insert(n, 1);
        let r = match d.get(n) {
            Some(Kind::Struct(f)) => f.iter().fold(1u64, |a, f| a.saturating_add(go(d, &f.ty, memo))),
            _ => 1,
        };
        memo.insert(n, r);
        r
    }
    go(&d, export_of(s), &mut BTreeMap::new())
}

/// The fault a message claims, or None when the wording is not one we know.
pub fn claim(msg: &str) -> Option<Fault> {
    use Fault::*;
    let m = msg.strip_prefix("One or more type errors:\n").unwrap_or(msg).trim();
    let q: Vec<&str> = m.split('\'').collect();
    let w = |i: usize| q.get(i * 2 + 1).map(|x| x.to_string());
    if m == "Schema has more than one export" {
        return Some(ManyExports);
    }
    if m == "Schema has no export" {
        return Some(NoExport);
    }
    if let Some(n) = m.strip_prefix("Schema has duplicate declaration: ") {
        return Some(DupDecl(n.trim_matches('\'').to_string()));
    }
    if m.starts_with("Field '") && m.ends_with("cannot be optional and array at once") {
        return Some(OptArray(w(0)?, w(1)?));
    }
    if m.starts_with("Enum '") && m.ends_with("must have at least one variant") {
        return Some(EmptyEnum(w(0)?));
    }
    if m.starts_with("Enum '") && m.contains("has too many variants") {
        return Some(TooMany(w(0)?));
    }
    if m.starts_with("Duplicate variant '") {
        return Some(DupVariant(w(0)?, w(1)?));
    }
    if m.starts_with("Duplicate field '") {
        return Some(DupField(w(0)?, w(1)?));
    }
    if m.starts_with("Found a cycle ") {
        return Some(Cycle(w(0)?));
    }
    if m.starts_with("Declaration for type '") && m.ends_with("does not exist") {
        return Some(Missing(w(0)?));
    }
    if m.starts_with("Attempted to export '") && m.ends_with("which is not a struct") {
        return Some(ExportNotStruct(w(0)?));
    }
    if m.starts_with("Export '") && m.ends_with("could not be resolved") {
        return Some(ExportMissing(w(0)?));
    }
    None
}
