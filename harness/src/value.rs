//! Values of an exported type: generator, reference encoder and decoder, comparison.
use crate::dict;
use crate::engine::{mix, Src};
use crate::json::J;
use crate::model::*;
use std::rc::Rc;

pub enum T {
    B(B),
    E(usize),
    S(Vec<FT>),
}
pub struct FT {
    pub name: String,
    pub ty: Rc<T>,
    pub array: bool,
    pub optional: bool,
}

/// The resolved form of a type of a valid schema.
pub fn resolve(s: &[Item], name: &str) -> Rc<T> {
    if let Some(b) = builtin(name) {
        return Rc::new(T::B(b));
    }
    Rc::new(match decls(s)[name] {
        Kind::Enum(v) => T::E(v.len()),
        Kind::Struct(f) => T::S(
            f.iter()
                .map(|f| FT { name: f.name.clone(), ty: resolve(s, &f.ty), array: f.array, optional: f.optional })
                .collect(),
        ),
    })
}
pub fn width(variants: usize) -> usize {
    if variants <= 8 {
        1
    } else if variants <= 16 {
        2
    } else {
        4
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gone {
    Undefined,
    Null,
    /// the property is not there at all
    Missing,
}
#[derive(Clone, Debug)]
pub enum V {
    Int(i64),
    /// bits of a 32 bit float
    F(u32),
    /// one byte per character
    S(Vec<u8>),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
    No(Gone),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Int(a), V::Int(b)) => a == b,
            (V::F(a), V::F(b)) => a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan()),
            (V::S(a), V::S(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => a == b,
            (V::No(_), V::No(_)) => true,
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- generation

fn int(src: &mut Src, lo: i64, hi: i64) -> i64 {
    match src.weighted(&[6, 6, 6, 1]) {
        3 => {
            let k = dict::number(src, 0, 4294967295);
            (if src.chance(1, 4) { -k } else { k }).clamp(lo, hi)
        }
        0 => {
            let small = [0i64, 1, -1, 2, 127, 128, 129, 255, 256, -127, -128, -129, 32767, 32768, 65535, 65536];
            (*src.pick(&small)).clamp(lo, hi)
        }
        1 => *src.pick(&[hi, lo, hi - 1, lo + 1, hi / 2, hi / 2 + 1, lo / 2]),
        _ => src.range(lo, hi),
    }
}
fn float(src: &mut Src) -> u32 {
    match src.weighted(&[3, 4, 3]) {
        0 => (src.range(-1000, 1000) as f32).to_bits(),
        1 => {
            let xs: [f32; 14] = [
                0.0, -0.0, 1.5, -1.5, 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY,
                f32::NEG_INFINITY, f32::NAN, 16777217.0, 4294967296.0,
            ];
            src.pick(&xs).to_bits()
        }
        _ => src.below(1 << 32) as u32,
    }
}

pub struct Size {
    /// how many more leaves may be made
    pub left: usize,
    /// whether lengths around 2^8 and 2^16 may be made
    pub big: bool,
}

fn length(src: &mut Src, z: &mut Size, leaf: usize) -> usize {
    let n = match src.weighted(&[12, 6, 4, if z.big { 4 } else { 0 }, if z.big { 1 } else { 0 }]) {
        4 => dict::number(src, 0, 70000) as usize,
        0 => src.below(4) as usize,
        1 => src.below(2) as usize,
        2 => src.below(20) as usize,
        _ => *src.pick(&[255usize, 256, 257, 127, 128, 300, 1000, 5000, 65535, 65536, 70000]),
    };
    if n > 20 {
        if n * leaf > z.left {
            return 3;
        }
        z.big = false;
    }
    z.left = z.left.saturating_sub(n * leaf);
    n
}

fn leaves(t: &T) -> usize {
    match t {
        T::S(f) => f.iter().map(|f| leaves(&f.ty)).sum::<usize>() + 1,
        _ => 1,
    }
}

const INHERITED: &[&str] = &[
    "constructor", "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString", "toString", "valueOf",
    "__defineGetter__", "__defineSetter__", "__lookupGetter__", "__lookupSetter__", "__proto__",
];

pub fn value(src: &mut Src, t: &T, z: &mut Size) -> V {
    match t {
        T::B(B::U8) => V::Int(int(src, 0, 255)),
        T::B(B::U16) => V::Int(int(src, 0, 65535)),
        T::B(B::U32) => V::Int(int(src, 0, 4294967295)),
        T::B(B::I8) => V::Int(int(src, -128, 127)),
        T::B(B::I16) => V::Int(int(src, -32768, 32767)),
        T::B(B::I32) => V::Int(int(src, -2147483648, 2147483647)),
        T::B(B::Float) => V::F(float(src)),
        T::B(B::Str) => {
            if src.chance(1, 30) {
                return V::S(dict::ident(src).into_bytes());
            }
            let n = length(src, z, 1);
            if n > 20 {
                let seed = src.seed();
                return V::S((0..n as u64).map(|i| mix(&[seed, i]) as u8).collect());
            }
            V::S(
                (0..n)
                    .map(|_| {
                        if src.chance(1, 4) {
                            *src.pick(&[0u8, 1, 10, 13, 34, 39, 92, 127, 128, 255, 233])
                        } else {
                            b'a' + src.below(26) as u8
                        }
                    })
                    .collect(),
            )
        }
        T::E(n) => {
            let i = match src.below(3) {
                0 => 0,
                1 => *n as u64 - 1,
                _ => src.below(*n as u64),
            };
            V::Int(1i64 << i)
        }
        T::S(f) => V::Obj(
            f.iter()
                .map(|f| {
                    let v = if f.optional && src.chance(2, 5) {
                        V::No(match *src.pick(&[Gone::Undefined, Gone::Null, Gone::Missing]) {
                            // a plain object that lacks these inherits something else
                            Gone::Missing if INHERITED.contains(&f.name.as_str()) => Gone::Undefined,
                            g => g,
                        })
                    } else if f.array {
                        let n = length(src, z, leaves(&f.ty));
                        if n > 20 {
                            let seed = src.seed();
                            let mut none = Size { left: 0, big: false };
                            V::Arr((0..n as u64).map(|i| value(&mut Src::random(mix(&[seed, i])), &f.ty, &mut none)).collect())
                        } else {
                            V::Arr((0..n).map(|_| if z.left == 0 { zero(&f.ty) } else { value(src, &f.ty, z) }).collect())
                        }
                    } else {
                        value(src, &f.ty, z)
                    };
                    (f.name.clone(), v)
                })
                .collect(),
        ),
    }
}

/// The smallest value of a type.
pub fn zero(t: &T) -> V {
    value(&mut Src::replay(vec![]), t, &mut Size { left: 0, big: false })
}

// ---------------------------------------------------------------- reference codec

pub fn encode(t: &T, v: &V, o: &mut Vec<u8>) {
    match (t, v) {
        (T::B(B::U8), V::Int(x)) | (T::B(B::I8), V::Int(x)) => o.push(*x as u8),
        (T::B(B::U16), V::Int(x)) | (T::B(B::I16), V::Int(x)) => o.extend_from_slice(&(*x as u16).to_le_bytes()),
        (T::B(B::U32), V::Int(x)) | (T::B(B::I32), V::Int(x)) => o.extend_from_slice(&(*x as u32).to_le_bytes()),
        (T::B(B::Float), V::F(x)) => {
            let x = if f32::from_bits(*x).is_nan() { 0x7fc00000 } else { *x };
            o.extend_from_slice(&x.to_le_bytes())
        }
        (T::B(B::Str), V::S(s)) => {
            o.extend_from_slice(&(s.len() as u32).to_le_bytes());
            o.extend_from_slice(s);
        }
        (T::E(n), V::Int(x)) => o.extend_from_slice(&(*x as u32).to_le_bytes()[..width(*n)]),
        (T::S(f), V::Obj(fs)) => {
            for (f, (_, v)) in f.iter().zip(fs) {
                if f.optional {
                    if let V::No(_) = v {
                        o.push(0);
                        continue;
                    }
                    o.push(1);
                }
                match (f.array, v) {
                    (true, V::Arr(a)) => {
                        o.extend_from_slice(&(a.len() as u32).to_le_bytes());
                        a.iter().for_each(|v| encode(&f.ty, v, o));
                    }
                    _ => encode(&f.ty, v, o),
                }
            }
        }
        _ => panic!("value does not fit its type"),
    }
}

/// What reading some bytes must give.
#[derive(Debug)]
pub enum Dec {
    /// truncated or an enum outside its range: null
    Bad,
    /// exactly this value
    Is(V),
    /// not a canonical encoding (a presence flag above 1, an enum value between variants): this value or null
    Maybe(V),
    /// too large to judge
    Huge,
}
struct D<'a> {
    b: &'a [u8],
    i: usize,
    lax: bool,
    /// the largest element count seen
    count: u64,
    huge: bool,
}
pub struct Decoded {
    pub dec: Dec,
    /// the largest array count met
    pub count: u64,
}

pub fn decode(t: &T, b: &[u8]) -> Decoded {
    let mut d = D { b, i: 0, lax: false, count: 0, huge: false };
    let r = d.go(t);
    let dec = match r {
        _ if d.huge => Dec::Huge,
        None => Dec::Bad,
        Some(v) if d.lax => Dec::Maybe(v),
        Some(v) => Dec::Is(v),
    };
    Decoded { dec, count: d.count }
}
impl<'a> D<'a> {
    fn u(&mut self, n: usize) -> Option<u32> {
        let s = self.b.get(self.i..self.i + n)?;
        self.i += n;
        Some(s.iter().rev().fold(0, |a, b| a << 8 | *b as u32))
    }
    fn go(&mut self, t: &T) -> Option<V> {
        Some(match t {
            T::B(B::U8) => V::Int(self.u(1)? as i64),
            T::B(B::U16) => V::Int(self.u(2)? as i64),
            T::B(B::U32) => V::Int(self.u(4)? as i64),
            T::B(B::I8) => V::Int(self.u(1)? as u8 as i8 as i64),
            T::B(B::I16) => V::Int(self.u(2)? as u16 as i16 as i64),
            T::B(B::I32) => V::Int(self.u(4)? as i32 as i64),
            T::B(B::Float) => V::F(self.u(4)?),
            T::B(B::Str) => {
                let n = self.u(4)? as usize;
                let s = self.b.get(self.i..self.i.checked_add(n)?)?;
                self.i += n;
                V::S(s.to_vec())
            }
            T::E(n) => {
                let x = self.u(width(*n))?;
                if x < 1 || x as u64 > 1u64 << (n - 1) {
                    return None;
                }
                if !x.is_power_of_two() {
                    self.lax = true;
                }
                V::Int(x as i64)
            }
            T::S(f) => {
                let mut o = Vec::new();
                for f in f {
                    if f.optional {
                        let x = self.u(1)?;
                        if x == 0 {
                            o.push((f.name.clone(), V::No(Gone::Undefined)));
                            continue;
                        }
                        if x > 1 {
                            self.lax = true;
                        }
                    }
                    let v = if f.array {
                        let n = self.u(4)? as u64;
                        self.count = self.count.max(n);
                        if n > 200_000 && minsize(&f.ty) == 0 {
                            self.huge = true;
                            return None;
                        }
                        let mut a = Vec::new();
                        for _ in 0..n {
                            a.push(self.go(&f.ty)?);
                        }
                        V::Arr(a)
                    } else {
                        self.go(&f.ty)?
                    };
                    o.push((f.name.clone(), v));
                }
                V::Obj(o)
            }
        })
    }
}
/// How many reads one element takes at least when nothing is left to read.
pub fn reads(t: &T) -> u64 {
    match t {
        T::S(f) => f.iter().map(|f| reads(&f.ty)).sum::<u64>().max(1),
        _ => 2,
    }
}
pub fn minsize(t: &T) -> usize {
    match t {
        T::B(B::U8) | T::B(B::I8) => 1,
        T::B(B::U16) | T::B(B::I16) => 2,
        T::B(_) => 4,
        T::E(n) => width(*n),
        T::S(f) => f.iter().map(|f| if f.optional { 1 } else if f.array { 4 } else { minsize(&f.ty) }).sum(),
    }
}

// ---------------------------------------------------------------- JSON for the worker

pub fn to_json(v: &V) -> J {
    match v {
        V::Int(x) => J::Num(*x as f64),
        V::F(x) => J::Str(format!("n{:016x}", (f32::from_bits(*x) as f64).to_bits())),
        V::S(s) => J::Str(format!("s{}", s.iter().map(|c| *c as char).collect::<String>())),
        V::Arr(a) => J::Arr(a.iter().map(to_json).collect()),
        V::Obj(f) => J::Obj(f.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        V::No(Gone::Undefined) => J::Str("u".into()),
        V::No(Gone::Null) => J::Str("z".into()),
        V::No(Gone::Missing) => J::Str("m".into()),
    }
}

/// Compares what the worker reports with a value; the error says where they differ.
/// `No` stands for undefined, whichever way it was written.
pub fn same(j: &J, v: &V, at: &str) -> Result<(), String> {
    let bad = |what: &str| {
        let t: String = j.text().chars().take(200).collect();
        Err(format!("at {}: expected {}, got {}", if at.is_empty() { "." } else { at }, what, t))
    };
    match v {
        V::Int(x) => match j {
            J::Num(y) if *y == *x as f64 => Ok(()),
            _ => bad(&x.to_string()),
        },
        V::F(x) => {
            let want = f32::from_bits(*x) as f64;
            let got = match j {
                J::Num(y) => Some(*y),
                J::Str(t) if t.starts_with('n') => u64::from_str_radix(&t[1..], 16).ok().map(f64::from_bits),
                _ => None,
            };
            match got {
                Some(g) if g.to_bits() == want.to_bits() || (g.is_nan() && want.is_nan()) => Ok(()),
                _ => bad(&format!("{:?} (bits {:08x})", want, x)),
            }
        }
        V::S(s) => match j {
            J::Str(t) if t.starts_with('s') && t[1..].chars().map(|c| c as u32).eq(s.iter().map(|c| *c as u32)) => Ok(()),
            _ => bad(&format!("a string of {} characters", s.len())),
        },
        V::Arr(a) => match j {
            J::Arr(b) if a.len() == b.len() => {
                for (i, (x, y)) in b.iter().zip(a).enumerate() {
                    same(x, y, &format!("{}[{}]", at, i))?;
                }
                Ok(())
            }
            J::Arr(b) => bad(&format!("{} elements, not {}", a.len(), b.len())),
            _ => bad("an array"),
        },
        V::Obj(f) => match j {
            J::Obj(g) => {
                for (k, v) in f {
                    let got = g.iter().find(|x| x.0 == *k).map(|x| &x.1);
                    match (got, v) {
                        (None, V::No(_)) => (),
                        (None, _) => return Err(format!("at {}.{}: missing", at, k)),
                        (Some(x), v) => same(x, v, &format!("{}.{}", at, k))?,
                    }
                }
                match g.iter().find(|x| !f.iter().any(|y| y.0 == x.0) && x.1 != J::Str("u".into())) {
                    Some(x) => Err(format!("at {}.{}: not a field of the type", at, x.0)),
                    None => Ok(()),
                }
            }
            _ => bad("an object"),
        },
        V::No(_) => {
            if *j == J::Str("u".into()) {
                Ok(())
            } else {
                bad("undefined")
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        o.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        o.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    o
}
/// The first place where two hex strings differ.
pub fn hexdiff(want: &str, got: &str) -> String {
    let i = want.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len())) / 2;
    let cut = |t: &str| {
        let lo = i.saturating_sub(4) * 2;
        t.get(lo..(lo + 32).min(t.len())).unwrap_or("").to_string()
    };
    format!("{} bytes expected, {} written, first difference at byte {}: expected ..{}.. got ..{}..", want.len() / 2, got.len() / 2, i, cut(want), cut(got))
}
