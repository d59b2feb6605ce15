//! Words, numbers and characters written in the source of the compiler. What a piece of code depends on is
//! usually written down in it, so these are tried as names, lengths and values besides the ones made up here.
use crate::engine::Src;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<u64>,
    pub chars: Vec<char>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

fn files(dir: &str, out: &mut Vec<String>) {
    let mut e: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    e.sort();
    for p in e {
        if p.is_dir() {
            files(&p.to_string_lossy(), out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.extend(std::fs::read_to_string(&p));
        }
    }
}

fn scan(text: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<u64>, chars: &mut BTreeSet<char>) {
    let c: Vec<char> = text.chars().collect();
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut i = 0;
    while i < c.len() {
        let rest = |k: usize| c.get(i + k).copied().unwrap_or(' ');
        if rest(0) == '/' && rest(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '"' {
            let mut w = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if word(c[i]) {
                    w.push(c[i]);
                } else {
                    chars.insert(c[i]);
                    words.insert(std::mem::take(&mut w));
                    if c[i] == '\\' {
                        i += 1;
                    }
                }
                i += 1;
            }
            words.insert(w);
            i += 1;
        } else if c[i] == '\'' {
            // a character, unless it is a lifetime
            if rest(2) == '\'' {
                chars.insert(rest(1));
                i += 3;
            } else if rest(1) == '\\' && rest(3) == '\'' {
                i += 4;
            } else {
                i += 1;
            }
        } else if c[i].is_ascii_digit() {
            let mut t = String::new();
            while i < c.len() && word(c[i]) {
                t.push(c[i]);
                i += 1;
            }
            let t = t.replace('_', "");
            let digits: String = t.chars().take_while(|x| x.is_ascii_digit()).collect();
            let v = match t.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h.trim_end_matches("u8"), 16).ok(),
                None => digits.parse().ok(),
            };
            numbers.extend(v);
        } else if word(c[i]) {
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

pub fn load(repo: &str) {
    let mut f = Vec::new();
    files(&format!("{}/src", repo), &mut f);
    let (mut w, mut n, mut c) = Default::default();
    for t in f {
        // not the tests
        scan(t.split("#[cfg(test)]").next().unwrap(), &mut w, &mut n, &mut c);
    }
    set(Dict {
        words: w.into_iter().filter(|w| !w.is_empty() && w.len() <= 60).collect(),
        numbers: n.into_iter().filter(|n| (2..=1 << 40).contains(n)).collect(),
        chars: c.into_iter().filter(|c| !c.is_whitespace()).collect(),
    });
}
pub fn set(d: Dict) {
    let _ = DICT.set(d);
}
pub fn get() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

/// A word of the source as an identifier, or nearly that word.
pub fn ident(src: &mut Src) -> String {
    let d = get();
    if d.words.is_empty() {
        return "w".into();
    }
    let mut w = src.pick(&d.words).clone();
    match src.weighted(&[12, 1, 1, 1, 1]) {
        0 => (),
        1 => w.push_str(*src.pick(&["s", "_", "X", "1"])),
        2 => w.insert_str(0, *src.pick(&["_", "a", "X", "my_"])),
        3 => w[..1].make_ascii_uppercase(),
        _ => w.make_ascii_lowercase(),
    }
    if w.starts_with(|c: char| c.is_ascii_digit()) {
        w.insert(0, '_');
    }
    w
}
/// A number of the source or a neighbour of it, if there is one between the bounds.
pub fn number(src: &mut Src, lo: i64, hi: i64) -> i64 {
    let d = get();
    if d.numbers.is_empty() {
        return src.range(lo, hi);
    }
    let k = src.pick(&d.numbers).min(&(1 << 40)).to_owned() as i64 + *src.pick(&[0i64, 1, -1]);
    if (lo..=hi).contains(&k) {
        k
    } else {
        src.range(lo, hi.min(lo + 40))
    }
}
pub fn character(src: &mut Src) -> char {
    let d = get();
    if d.chars.is_empty() {
        return '-';
    }
    *src.pick(&d.chars)
}
