use serde_json::Value;
use std::collections::HashSet;
use std::time::Instant;

#[derive(Default)]
pub struct Stats { pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String> }
impl Stats {
    /// One evaluation; `class` identifies what kind of case it was (distinct, non-trivial ones are counted).
    pub fn eval(&mut self, class: u64) { self.evals += 1; if self.distinct.len() < 200_000 { self.distinct.insert(class); } }
}
pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } h }

pub struct Gen {
    s: u64, pub w: usize, pub n: usize, k: usize, pub deadline: Instant, pub lits: Vec<Vec<u8>>, pub nums: Vec<u64>,
    pub st: Stats, pub sink: Option<Box<dyn FnMut(Value, &mut Stats) -> bool>>, pub stop: bool, pub exhausted: bool, pub asks: bool,
}
impl Gen {
    pub fn new(seed: u64, w: usize, n: usize, deadline: Instant, l: &[Value]) -> Gen {
        let mut g = Gen { s: seed ^ 0x9e3779b97f4a7c15, w, n, k: 0, deadline, lits: vec![], nums: vec![], st: Stats::default(), sink: None, stop: false, exhausted: false, asks: false };
        for v in l { if let Some(s) = v.as_str() { if s.len() <= 64 && !s.is_empty() { g.lits.push(s.as_bytes().to_vec()) } } else if let Some(u) = v.as_u64() { g.nums.push(u) } }
        g
    }
    pub fn next(&mut self) -> u64 { self.s = self.s.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.s; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, p: usize, q: usize) -> bool { self.below(q) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// Case of an enumeration: shared between the workers.
    pub fn each(&mut self, f: impl FnOnce() -> Value) -> bool {
        if self.stop { return false }
        self.k += 1;
        if self.k % self.n != self.w { return true }
        self.emit(f())
    }
    pub fn emit(&mut self, v: Value) -> bool {
        // the same, asked for in another way
        if self.asks && v.is_object() && v["run"].is_null() && self.chance(1, 6) {
            let mut v = v.clone();
            v["ask"] = if self.chance(1, 8) && !self.lits.is_empty() {
                let name = |l: &Vec<u8>| !l.is_empty() && l.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'-');
                let ls: Vec<String> = self.lits.iter().filter(|l| name(l)).map(|l| b2s(l)).collect();
                if ls.is_empty() { Value::from(0) } else { let (a, b) = (self.pick(&ls).clone(), self.pick(&ls).clone()); if matches!(&a.to_lowercase()[..], "host" | "content-length" | "transfer-encoding") { Value::from(0) } else { Value::from(format!("Host: localhost\r\n{}: {}", a, b)) } }
            } else { Value::from(self.below(crate::http::ASKS.len())) };
            if !self.emit_one(v) { return false }
        }
        self.emit_one(v)
    }
    fn emit_one(&mut self, v: Value) -> bool {
        if self.stop { return false }
        let mut sink = self.sink.take().unwrap();
        let go = sink(v, &mut self.st);
        self.sink = Some(sink);
        if !go || Instant::now() > self.deadline { self.stop = true }
        !self.stop
    }
    /// Sizes to try, up to `max`: some of every magnitude, and those around the numbers in the code.
    pub fn sizes(&self, max: usize) -> Vec<usize> {
        let mut v = vec![9, 17, 33, 65, 101, 129, 257, 513, 1001, 1025, 4097, 8193, 10_001, 65_537, 70_000, 300_000];
        for n in &self.nums { let n = *n as usize; if n > 8 && n < max { v.push(n); v.push(n + 1) } }
        v.retain(|n| *n <= max);
        v.sort(); v.dedup();
        v
    }
    /// The enumerated part is over.
    pub fn small_scope_done(&mut self) { if !self.stop { self.exhausted = true } }
    pub fn bytes(&mut self, alpha: &[u8], max: usize) -> Vec<u8> { let n = self.below(max + 1); (0..n).map(|_| *self.pick(alpha)).collect() }
}
/// All words over `alpha` of at most `max` letters.
pub fn words<T: Clone>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for w in &last { for a in alpha { let mut v = w.clone(); v.push(a.clone()); nx.push(v) } }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}
// bytes in JSON: one char per byte
pub fn b2s(b: &[u8]) -> String { b.iter().map(|&c| c as char).collect() }
pub fn s2b(v: &Value) -> Vec<u8> { v.as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect() }
