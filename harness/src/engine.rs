//! A property-based testing engine in the style of Hypothesis: every random decision is a
//! bounded integer on a "tape"; a case is a pure function of its tape, so any failure can be
//! shrunk by editing the tape (deleting, zeroing, lowering) and replayed from it.
use crate::json::{self, J};
use crate::procs::{Js, Sut};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243f6a8885a308d3u64;
    for p in parts {
        h = Rng(h ^ p.wrapping_mul(0x9e3779b97f4a7c15)).next();
    }
    h
}
pub fn hash(t: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in t {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(&[h, t.len() as u64])
}

/// The source of all choices of one case.
pub struct Src {
    tape: Vec<u64>,
    used: Vec<u64>,
    rng: Option<Rng>,
}
impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::new(), used: Vec::new(), rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, used: Vec::new(), rng: None }
    }
    /// Follows the tape; where it ends, says ANY or does not fit, chooses at random.
    pub fn mixed(tape: Vec<u64>, seed: u64) -> Src {
        Src { tape, used: Vec::new(), rng: Some(Rng::new(seed)) }
    }
    /// An integer in 0..n; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let t = self.tape.get(self.used.len()).copied();
        let v = match (&mut self.rng, t) {
            (Some(_), Some(t)) if t < n => t,
            (Some(r), _) => r.below(n),
            (None, t) => t.unwrap_or(0).min(n - 1),
        };
        self.used.push(v);
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// An index chosen with the given weights; earlier is simpler.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut v = self.below(w.iter().sum());
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Whether to add another element to a list that has `len`, aiming at `avg` elements.
    pub fn more(&mut self, len: usize, min: usize, max: usize, avg: u64) -> bool {
        if len < min {
            return true;
        }
        len < max && self.chance(avg, avg + 1)
    }
    /// A seed for bulk data, as one choice.
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // 0 leaves the order alone
            let j = i - self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
    pub fn used(&self) -> &[u64] {
        &self.used
    }
}

const ANY: u64 = u64::MAX;

/// Tapes that made the library do something new, and variations of them.
#[derive(Default)]
struct Corpus {
    tapes: Vec<Vec<u64>>,
}
impl Corpus {
    fn add(&mut self, tape: &[u64]) {
        if tape.len() <= 2500 {
            self.tapes.push(tape.to_vec());
        }
    }
    fn vary(&self, r: &mut Rng) -> Vec<u64> {
        let n = self.tapes.len() as u64;
        // the later ones more often, and the shorter of two
        let mut pick = || &self.tapes[if r.below(2) == 0 { r.below(n) } else { n - 1 - r.below(n.min(40)) } as usize];
        let (a, b) = (pick(), pick());
        let mut t = if a.len() <= b.len() { a.clone() } else { b.clone() };
        for _ in 0..=r.below(4) {
            if t.is_empty() {
                break;
            }
            let len = t.len() as u64;
            let i = r.below(len) as usize;
            let most = [2u64, 8, 64][r.below(3) as usize];
            let k = (1 + r.below(most) as usize).min(t.len() - i);
            match r.below(8) {
                0 | 1 => t[i] = ANY,
                2 => t[i..i + k].iter_mut().for_each(|x| *x = ANY),
                3 => t[i] = if r.below(2) == 0 { t[i].saturating_add(1) } else { t[i].saturating_sub(1) },
                4 => t.truncate(i),
                5 => drop(t.drain(i..i + k)),
                6 => {
                    let c = t[i..i + k].to_vec();
                    t.splice(i..i, c);
                }
                _ => {
                    let o = &self.tapes[r.below(n) as usize];
                    if !o.is_empty() {
                        let j = r.below(o.len() as u64) as usize;
                        if r.below(2) == 0 {
                            t.truncate(i);
                            t.extend(&o[j..]);
                        } else {
                            let m = k.min(o.len() - j);
                            t.splice(i..i + k, o[j..j + m].to_vec());
                        }
                    }
                }
            }
        }
        t
    }
}

pub enum Verdict {
    Pass,
    Discard,
    Fail(String),
}

/// What one evaluation of a property reports.
pub struct Case {
    pub nontrivial: bool,
    pub key: u64,
    pub labels: Vec<&'static str>,
    /// how many individual checks (packets, byte strings, runs) the case made
    pub inner: u64,
    /// the concrete input, written out
    pub input: Vec<(&'static str, J)>,
}
impl Case {
    pub fn new() -> Case {
        Case { nontrivial: false, key: 0, labels: Vec::new(), inner: 0, input: Vec::new() }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn show(&mut self, k: &'static str, v: J) {
        self.input.push((k, v))
    }
}

/// An error of the machinery itself: never a violation.
pub type Run<T> = Result<T, String>;

pub struct Ctx {
    pub sut: Sut,
    pub js: Js,
    pub cfg: Cfg,
    pub shard: usize,
    /// whether generated code may be prepared by something faster than the TypeScript compiler
    pub fast: bool,
    pub disagreements: u64,
}
impl Ctx {
    pub fn new(cfg: &Cfg, shard: usize) -> Run<Ctx> {
        Ok(Ctx { sut: Sut::new(cfg, shard)?, js: Js::new(cfg), cfg: cfg.clone(), shard, fast: false, disagreements: 0 })
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub verif: String,
    pub sut_bin: String,
    pub cli_bin: String,
    pub thorough: bool,
    pub scratch: String,
    /// signatures of recorded defects of this property
    pub known: Vec<String>,
}

pub type PropFn = fn(&mut Ctx, &mut Src, &mut Case) -> Run<Verdict>;

/// How cases are looked for.
#[derive(Clone, Copy)]
pub enum Search {
    /// at random
    Random,
    /// every other case varies one that made the compiler do something new
    Guided,
    /// as Guided, but a case is first tried as far as the given function goes, which is cheap
    Probed(PropFn),
}
/// how many beginnings of a case are tried
const PROBES: u64 = 6;

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    pub search: Search,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Failure {
    pub tape: Vec<u64>,
    pub msg: String,
    pub input: Vec<(&'static str, J)>,
    pub shrink_steps: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discards: u64,
    pub inner: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<J>,
    /// branches and comparisons of the library reached, the tapes kept for that, cases tried in part
    pub features: HashSet<u32>,
    pub corpus: u64,
    pub probes: u64,
}

pub const SHARDS: usize = 8;

fn eval(p: &Prop, ctx: &mut Ctx, src: &mut Src) -> Run<(Verdict, Case)> {
    let mut case = Case::new();
    ctx.fast = ctx.disagreements < 10;
    ctx.sut.record();
    ctx.js.fast = false;
    let v = (p.run)(ctx, src, &mut case)?;
    if matches!(v, Verdict::Fail(_)) && ctx.js.fast {
        // what counts is what the TypeScript compiler makes of the same answers of the compiler under test
        ctx.fast = false;
        ctx.sut.repeat();
        let mut case = Case::new();
        let v = (p.run)(ctx, &mut Src::replay(src.used().to_vec()), &mut case)?;
        if !matches!(v, Verdict::Fail(_)) {
            ctx.disagreements += 1;
        }
        return Ok((v, case));
    }
    Ok((v, case))
}

fn shrink(p: &Prop, ctx: &mut Ctx, first: Failure, budget_s: u64, max: usize) -> Run<Failure> {
    let t0 = Instant::now();
    let mut best = first;
    let mut steps = 0usize;
    let mut evals = 0usize;
    let mut tried: HashSet<u64> = HashSet::new();
    macro_rules! attempt {
        ($tape:expr) => {{
            let tape: Vec<u64> = $tape;
            // long tapes make even the attempts that are not run costly
            if evals >= max || t0.elapsed().as_secs() >= budget_s {
                return Ok(best);
            }
            let key = hash(&tape.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
            let smaller = tape.len() < best.tape.len() || (tape.len() == best.tape.len() && tape < best.tape);
            if !smaller || !tried.insert(key) {
                false
            } else {
                evals += 1;
                let mut src = Src::replay(tape);
                // trouble with a smaller case is no reason to give up the failure at hand
                let r = eval(p, ctx, &mut src);
                if let Ok((Verdict::Fail(msg), case)) = r {
                    let mut used = src.used().to_vec();
                    while used.last() == Some(&0) {
                        used.pop();
                    }
                    steps += 1;
                    best = Failure { tape: used, msg, input: case.input, shrink_steps: steps };
                    true
                } else {
                    false
                }
            }
        }};
    }
    loop {
        let before = best.tape.clone();
        for k in [128usize, 64, 32, 16, 8, 4, 2, 1] {
            let mut i = best.tape.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if i <= best.tape.len() {
                    let mut t = best.tape.clone();
                    t.drain(lo..i);
                    if attempt!(t.clone()) {
                        i = i.min(best.tape.len());
                        continue;
                    }
                    // deleting an element often needs the count in front of it lowered
                    if lo > 0 && t[lo - 1] > 0 {
                        t[lo - 1] -= 1;
                        if attempt!(t) {
                            i = i.min(best.tape.len());
                            continue;
                        }
                    }
                }
                i -= 1;
            }
        }
        for k in [32usize, 8, 2] {
            let mut i = 0;
            while i < best.tape.len() {
                let hi = (i + k).min(best.tape.len());
                let mut t = best.tape.clone();
                t[i..hi].iter_mut().for_each(|x| *x = 0);
                attempt!(t);
                i += k;
            }
        }
        let mut i = 0;
        while i < best.tape.len() {
            let mut t = best.tape.clone();
            t[i] = 0;
            if best.tape[i] > 0 && !attempt!(t) {
                let mut lo = 0u64;
                while i < best.tape.len() && best.tape[i] > lo + 1 {
                    let mid = lo + (best.tape[i] - lo) / 2;
                    let mut t = best.tape.clone();
                    t[i] = mid;
                    if !attempt!(t) {
                        lo = mid;
                    }
                }
            }
            i += 1;
        }
        if best.tape == before {
            return Ok(best);
        }
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub failure: Option<Failure>,
}

pub fn run(p: &'static Prop, cfg: &Cfg, seed: u64, cases: usize) -> Run<Outcome> {
    let stop = AtomicBool::new(false);
    let limit = AtomicUsize::new(cases);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let failed: Mutex<Option<(usize, Vec<u64>, String, Vec<(&'static str, J)>)>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let pid = hash(p.id.as_bytes());
    std::thread::scope(|sc| {
        for shard in 0..SHARDS {
            let (stop, limit, total, failed, error) = (&stop, &limit, &total, &failed, &error);
            let cfg = cfg.clone();
            sc.spawn(move || {
                let mut st = Stats::default();
                let r = (|| -> Run<()> {
                    let mut ctx = Ctx::new(&cfg, shard)?;
                    let mut corpus = Corpus::default();
                    // what is run depends on the seed, the shard and what the shard has run before, not on the time
                    let mut i = shard;
                    loop {
                        if i >= limit.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                            st.features = ctx.sut.features().clone();
                            st.corpus = corpus.tapes.len() as u64;
                            return Ok(());
                        }
                        let mut r = Rng::new(mix(&[seed, pid, i as u64]));
                        let vary = !matches!(p.search, Search::Random) && i / SHARDS % 2 == 1;
                        let start = |r: &mut Rng, corpus: &Corpus| {
                            if vary && !corpus.tapes.is_empty() {
                                Src::mixed(corpus.vary(r), r.next())
                            } else {
                                Src::random(r.next())
                            }
                        };
                        let mut src = start(&mut r, &corpus);
                        if let Search::Probed(f) = p.search {
                            for k in 0..PROBES {
                                st.probes += 1;
                                f(&mut ctx, &mut src, &mut Case::new())?;
                                let begun = src.used().to_vec();
                                if ctx.sut.news() {
                                    corpus.add(&begun);
                                    src = Src::mixed(begun, r.next());
                                    break;
                                }
                                src = if k + 1 < PROBES { start(&mut r, &corpus) } else { Src::mixed(begun, r.next()) };
                            }
                        }
                        let (v, case) = eval(p, &mut ctx, &mut src)?;
                        if let Search::Guided = p.search {
                            if ctx.sut.news() {
                                corpus.add(src.used());
                            }
                        }
                        match v {
                            Verdict::Discard => st.discards += 1,
                            Verdict::Pass => {
                                st.evaluations += 1;
                                st.inner += case.inner;
                                for l in &case.labels {
                                    *st.labels.entry(l).or_insert(0) += 1;
                                }
                                if case.nontrivial {
                                    st.nontrivial += 1;
                                    st.distinct.insert(case.key);
                                    if i < 40 && st.samples.len() < 1 {
                                        st.samples.push(sample(i, &case));
                                    }
                                }
                            }
                            Verdict::Fail(msg) => {
                                // the others go on as far as this one got, so that the first failure is reported
                                limit.fetch_min(i, Ordering::SeqCst);
                                let mut f = failed.lock().unwrap();
                                if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                    *f = Some((i, src.used().to_vec(), msg, case.input));
                                }
                                return Ok(());
                            }
                        }
                        i += SHARDS;
                    }
                })();
                if let Err(e) = r {
                    stop.store(true, Ordering::SeqCst);
                    *error.lock().unwrap() = Some(e);
                }
                let mut t = total.lock().unwrap();
                t.evaluations += st.evaluations;
                t.discards += st.discards;
                t.inner += st.inner;
                t.nontrivial += st.nontrivial;
                t.distinct.extend(st.distinct);
                for (k, v) in st.labels {
                    *t.labels.entry(k).or_insert(0) += v;
                }
                t.samples.extend(st.samples);
                t.features.extend(st.features);
                t.corpus += st.corpus;
                t.probes += st.probes;
            });
        }
    });
    let stats = total.into_inner().unwrap();
    if let Some((i, tape, msg, input)) = failed.into_inner().unwrap() {
        eprintln!("case {} fails: {}\nshrinking...", i, msg.lines().next().unwrap_or(""));
        let mut ctx = Ctx::new(cfg, 0)?;
        let first = Failure { tape, msg, input, shrink_steps: 0 };
        let budget = std::env::var("VP_SHRINK").ok().and_then(|x| x.parse().ok()).unwrap_or(if cfg.thorough { 240 } else { 60 });
        let f = shrink(p, &mut ctx, first, budget, 6000)?;
        return Ok(Outcome { stats, failure: Some(f) });
    }
    if let Some(e) = error.into_inner().unwrap() {
        return Err(e);
    }
    Ok(Outcome { stats, failure: None })
}

fn sample(i: usize, case: &Case) -> J {
    let mut f = vec![("case".to_string(), json::n(i as u64))];
    for (k, v) in &case.input {
        let v = match v {
            J::Str(t) if t.chars().count() > 900 => J::Str(t.chars().take(900).collect::<String>() + "…"),
            v => {
                let t = v.text();
                if t.len() > 1200 {
                    J::Str(t.chars().take(1200).collect::<String>() + "…")
                } else {
                    v.clone()
                }
            }
        };
        f.push((k.to_string(), v));
    }
    J::Obj(f)
}
