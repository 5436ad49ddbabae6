//! Seeded runner for the concrete counterexample search.  Every case is a function of (seed, index), so
//! `BIN PROP --seed S --case K` replays it.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::{AtomicBool, AtomicU64, Ordering}, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03) ^ 0x2545F4914F6CDD1D);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn us(&mut self, a: usize, b: usize) -> usize { self.range(a as i64, b as i64) as usize }
    pub fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

pub struct Case { pub rng: Rng, pub idx: u64, pub desc: String, pub trivial: bool, log: Option<String> }
impl Case {
    /// Describe the input before the code under test runs (so that a crash can be attributed).
    pub fn input(&mut self, s: String) {
        if let Some(p) = &self.log { let _ = std::fs::write(p, format!("{}\n{}", self.idx, s)); }
        self.desc = s;
    }
}
pub type R = Result<(), String>;
pub type Prop = fn(&mut Case) -> R;

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

/// Did the closure panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
/// Run, turning a panic into an error message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panicked: {m}")
    })
}

fn run_one(p: Prop, seed: u64, idx: u64, log: Option<String>) -> (Case, R) {
    let mut c = Case { rng: Rng::new(seed, idx), idx, desc: String::new(), trivial: false, log };
    let r = match catch_unwind(AssertUnwindSafe(|| p(&mut c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("unexpected panic: {m}"))
        }
    };
    (c, r)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

/// BIN PROP --seed S --cases N --secs T [--case K] [--log FILE] [--threads J]
pub fn main(props: &[(&str, Prop)]) {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| arg(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let p = props.iter().find(|(n, _)| *n == a[1]).expect("unknown property").1;
    let seed = num("--seed", 1);
    if std::env::var("HARNESS_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    if let Some(k) = arg("--case") {
        let (c, r) = run_one(p, seed, k.parse().unwrap(), None);
        println!("{{\"seed\":{seed},\"case\":{k},\"input\":{},\"violation\":{}}}", esc(&c.desc), match &r { Ok(()) => "null".into(), Err(m) => esc(m) });
        std::process::exit(if r.is_err() { 1 } else { 0 });
    }
    let (n, secs) = (num("--cases", 20000), num("--secs", 20));
    let threads = num("--threads", 8);
    let logp = arg("--log");
    let next = AtomicU64::new(num("--from", 0));
    let stop = AtomicBool::new(false);
    let ran = AtomicU64::new(0);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let bad: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for t in 0..threads {
            let logp = logp.as_ref().map(|l| format!("{l}.{t}"));
            let (next, stop, ran, seen, samples, bad) = (&next, &stop, &ran, &seen, &samples, &bad);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || loop {
                if stop.load(Ordering::Relaxed) || t0.elapsed() > Duration::from_secs(secs) { break; }
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n { break; }
                let (c, r) = run_one(p, seed, k, logp.clone());
                ran.fetch_add(1, Ordering::Relaxed);
                if !c.trivial {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    c.desc.hash(&mut h);
                    seen.lock().unwrap().insert(h.finish());
                }
                if k % 997 == 3 { let mut v = samples.lock().unwrap(); if v.len() < 5 { v.push(c.desc.clone()); } }
                if let Err(m) = r {
                    let mut b = bad.lock().unwrap();
                    let smaller = match &*b { None => true, Some((_, d, _)) => c.desc.len() < d.len() };
                    if smaller { *b = Some((k, c.desc.clone(), m)); }
                    stop.store(true, Ordering::Relaxed);
                }
            }).unwrap();
        }
    });
    let b = bad.into_inner().unwrap();
    let v = match &b { None => "null".to_string(), Some((k, d, m)) => format!("{{\"seed\":{seed},\"case\":{k},\"input\":{},\"violation\":{}}}", esc(d), esc(m)) };
    let sm: Vec<String> = samples.into_inner().unwrap().iter().map(|s| esc(s)).collect();
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"secs\":{:.2},\"violation\":{}}}", ran.load(Ordering::Relaxed), seen.lock().unwrap().len(), sm.join(","), t0.elapsed().as_secs_f64(), v);
    std::process::exit(if b.is_some() { 1 } else { 0 });
}
