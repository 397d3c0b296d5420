//! Choice-sequence property-based testing: every case is generated from a
//! recorded sequence of bounded integers, so shrinking works on that sequence
//! (delete, zero, lower) and needs no per-type shrinkers, and a replay file is
//! just the sequence.

use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        let mut r = Rng(h ^ p.wrapping_mul(0x100000001b3));
        h = r.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

/// Source of choices: a fixed prefix, then (optionally) random.
pub struct Src {
    prefix: Vec<u64>,
    pub rec: Vec<u64>,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self { Src { prefix: vec![], rec: vec![], rng: Some(Rng::new(seed)) } }
    pub fn replay(choices: &[u64]) -> Self { Src { prefix: choices.to_vec(), rec: vec![], rng: None } }
    pub fn mutated(choices: Vec<u64>, seed: u64) -> Self { Src { prefix: choices, rec: vec![], rng: Some(Rng::new(seed)) } }

    /// A value in `0..n`; 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let i = self.rec.len();
        let v = if i < self.prefix.len() {
            self.prefix[i].min(n - 1)
        } else {
            match self.rng { Some(ref mut r) => r.below(n), None => 0 }
        };
        self.rec.push(v);
        v
    }
    /// Number of choices drawn so far.
    pub fn used(&self) -> usize { self.rec.len() }
    pub fn below(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// Inclusive range, shrinking to `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let n = (hi as i128 - lo as i128 + 1) as u128;
        if n > u64::MAX as u128 { return (lo as i128 + self.draw(u64::MAX) as i128) as i64; }
        (lo as i128 + self.draw(n as u64) as i128) as i64
    }
    /// True in `num` of `den` cases; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num }
    pub fn pick<'t, T: ?Sized>(&mut self, items: &[&'t T]) -> &'t T { items[self.below(items.len())] }
    pub fn choose<T: Clone>(&mut self, items: &[T]) -> T { items[self.below(items.len())].clone() }
    /// Index with the given weights; shrinks to 0.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w { return i; }
            v -= w;
        }
        weights.len() - 1
    }
    /// Vector by repeated "one more?" choices, which shrinks well by deletion.
    pub fn many<T>(&mut self, min: usize, max: usize, mean: u64, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max {
            if out.len() >= min && !self.chance(mean, mean + 1) { break; }
            out.push(f(self));
        }
        out
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// The case turned out not to be in the property's domain.
    Discard(&'static str),
    /// The property is violated.
    Bad(String),
}
pub type R = Result<(), Fail>;
pub fn bad<T>(msg: impl Into<String>) -> Result<T, Fail> { Err(Fail::Bad(msg.into())) }
pub fn discard<T>(why: &'static str) -> Result<T, Fail> { Err(Fail::Discard(why)) }

/// What a case tells about itself.
#[derive(Default)]
pub struct Cx {
    pub repr: String,
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub shard_dir: std::path::PathBuf,
    pub thorough: bool,
}
impl Cx {
    pub fn show(&mut self, s: impl AsRef<str>) {
        if !self.repr.is_empty() { self.repr.push_str("\n---\n"); }
        self.repr.push_str(s.as_ref());
    }
    pub fn label(&mut self, l: &str) { *self.labels.entry(l.to_owned()).or_insert(0) += 1; }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R;
    /// Fixed regression cases run first, through the same oracle.
    fn examples(&self) -> usize { 0 }
    fn example(&self, _i: usize, _cx: &mut Cx) -> R { Ok(()) }
    /// Does this input of a recorded finding still fail? (By default: it is rejected.)
    fn finding(&self, input: &str) -> bool { crate::util::seam_expand(input, &crate::util::Env::default()).is_err() }
}

/// One pass-structured shrink. `fails` returns the recorded choices and the
/// message when the candidate still fails.
pub fn shrink(
    start: Vec<u64>, msg: String, deadline: std::time::Instant, max_tries: usize,
    fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String, usize) {
    let mut best = start;
    let mut best_msg = msg;
    let mut tries = 0usize;
    let over = |tries: usize| tries >= max_tries || std::time::Instant::now() > deadline;
    macro_rules! attempt { ($cand:expr) => {{
        tries += 1;
        let cand: Vec<u64> = $cand;
        match fails(&cand) {
            Some((rec, m)) => {
                let rec = if (rec.len(), &rec) < (cand.len(), &cand) { rec } else { cand };
                if (rec.len(), &rec) < (best.len(), &best) { best = rec; best_msg = m; true } else { false }
            },
            None => false,
        }
    }}}
    loop {
        let before = best.clone();
        // Truncate.
        let mut k = best.len() / 2;
        while k > 0 && !over(tries) {
            if best.len() >= k && attempt!(best[..best.len() - k].to_vec()) { continue; }
            k /= 2;
        }
        // Delete chunks.
        for size in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && !over(tries) {
                i = i.min(best.len());
                if i < size { break; }
                let mut c = best.clone();
                c.drain(i - size..i);
                if !attempt!(c) {
                    // Deleting a list element often needs the preceding "one more?" lowered.
                    i -= 1;
                }
            }
        }
        // Zero chunks.
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && !over(tries) {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + size] { *v = 0; }
                    attempt!(c);
                }
                i += size;
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() && !over(tries) {
            if best[i] > 0 {
                let (mut lo, mut hi) = (0u64, best[i]);
                // Invariant: hi fails.
                while lo < hi && !over(tries) {
                    let mid = lo + (hi - lo) / 2;
                    if i >= best.len() { break; }
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt!(c) { hi = mid; } else { lo = mid + 1; }
                }
            }
            i += 1;
        }
        // Lower one and delete the following.
        let mut i = 0;
        while i + 1 < best.len() && !over(tries) {
            if best[i] > 0 {
                for del in [1usize, 2, 3, 4] {
                    if i + 1 + del <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + del);
                        if attempt!(c) { break; }
                        if i >= best.len() || best[i] == 0 { break; }
                    }
                }
            }
            i += 1;
        }
        if best == before || over(tries) { break; }
    }
    (best, best_msg, tries)
}
