//! Shared harness code: JSON values, exact encoding of f64, the case runner.
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::mpsc;
use std::time::Duration;

/// A JSON value (only what TLC's Json module can read back).
#[derive(Clone, Debug)]
pub enum J { I(i64), S(String), B(bool), A(Vec<J>), O(Vec<(String, J)>) }

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            // TLC has 32 bit integers: anything larger is garbage, and stays out of range of everything expected
            J::I(i) => write!(o, "{}", (*i).max(-2147483647).min(2147483647)).unwrap(),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(s) => {
                o.push('"');
                for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } write!(o, "\"{}\":", k).unwrap(); x.write(o); } o.push('}'); }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
}
pub trait ToJ { fn j(&self) -> J; }
impl ToJ for J { fn j(&self) -> J { self.clone() } }
impl ToJ for usize { fn j(&self) -> J { J::I(*self as i64) } }
impl ToJ for u64 { fn j(&self) -> J { J::I(*self as i64) } }
impl ToJ for u32 { fn j(&self) -> J { J::I(*self as i64) } }
impl ToJ for i64 { fn j(&self) -> J { J::I(*self) } }
impl ToJ for i32 { fn j(&self) -> J { J::I(*self as i64) } }
impl ToJ for bool { fn j(&self) -> J { J::B(*self) } }
impl ToJ for str { fn j(&self) -> J { J::S(self.to_string()) } }
impl ToJ for String { fn j(&self) -> J { J::S(self.clone()) } }
impl ToJ for f64 { fn j(&self) -> J { fx(*self) } }
impl<T: ToJ + ?Sized> ToJ for &T { fn j(&self) -> J { (**self).j() } }
impl<T: ToJ> ToJ for Vec<T> { fn j(&self) -> J { J::A(self.iter().map(|x| x.j()).collect()) } }
impl<T: ToJ> ToJ for [T] { fn j(&self) -> J { J::A(self.iter().map(|x| x.j()).collect()) } }
impl<T: ToJ> ToJ for Option<T> { fn j(&self) -> J { match self { None => J::A(vec![]), Some(x) => J::A(vec![x.j()]) } } }

#[macro_export]
macro_rules! obj { ($($k:ident : $v:expr),* $(,)?) => { $crate::J::O(vec![$((stringify!($k).to_string(), $crate::ToJ::j(&$v))),*]) } }

const LB: usize = 14;
const FRAC: usize = 16;

/// f64 -> limbs of the fixed point number with resolution 2^-224 (see Fx.tla).
/// Exact for |x| >= 2^-172; smaller magnitudes are truncated towards zero.
pub fn fx(x: f64) -> J {
    if x.is_nan() { return J::A(vec![J::I(2)]); }
    if x.is_infinite() { return J::A(vec![J::I(if x > 0.0 { 3 } else { 4 })]); }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = b & 0xf_ffff_ffff_ffff;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let mut m = m as u128;
    let mut sh = e + (LB * FRAC) as i64;
    if sh < 0 { m = if sh < -100 { 0 } else { m >> (-sh) }; sh = 0; }
    if m == 0 { return J::A(vec![J::I(0)]); }
    let mut v = vec![J::I(if x < 0.0 { -1 } else { 1 })];
    for _ in 0..(sh as usize / LB) { v.push(J::I(0)); }
    m <<= sh as usize % LB;
    while m > 0 { v.push(J::I((m & 0x3fff) as i64)); m >>= LB; }
    J::A(v)
}
pub fn fxs(x: &[f64]) -> J { J::A(x.iter().map(|v| fx(*v)).collect()) }
/// Rows of a row-major matrix.
pub fn fxrows(d: &[f64], cols: usize) -> J { if cols == 0 { return J::A(vec![]); } J::A(d.chunks(cols).map(|r| fxs(r)).collect()) }
/// f64 that is a small integer -> Int
pub fn int(x: f64) -> J { assert!(x == x.trunc() && x.abs() < 2e9, "not an integer: {}", x); J::I(x as i64) }
pub fn is_int(x: f64) -> bool { x == x.trunc() && x.abs() < 2e9 }

/// How a piece of code under test ended.
#[derive(Debug)]
pub enum End<T> { Ok(T), Panic(String), Hang }

pub struct Out { f: std::io::BufWriter<std::fs::File>, begin: std::path::PathBuf, pub n: usize, pub hangs: usize, pub timeout: Duration, pub seed: u64 }
impl Out {
    pub fn new(path: &str, seed: u64) -> Out {
        // library code runs in threads of its own, where panics are data
        std::panic::set_hook(Box::new(|i| if std::thread::current().name() == Some("main") { eprintln!("{}", i) }));
        Out { f: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), begin: format!("{}.begin", path).into(), n: 0, hangs: 0, timeout: Duration::from_secs(20), seed }
    }
    /// Announce a piece of code that could kill the process.
    pub fn announce(&mut self, what: &J) { self.f.flush().unwrap(); std::fs::write(&self.begin, what.text()).unwrap(); }
    pub fn line(&mut self, j: J) { let mut s = j.text(); s.push('\n'); self.f.write_all(s.as_bytes()).unwrap(); self.n += 1; }
    pub fn finish(mut self) { self.f.flush().unwrap(); let _ = std::fs::remove_file(&self.begin); std::process::exit(0) }
    /// Run code under test in its own thread (panics and hangs are data).
    pub fn run<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(&mut self, f: F) -> End<T> { self.run_small(64 << 10, f) }
    /// The same with a stack of so many KiB (running out of it ends the process: the history "crash").
    pub fn run_small<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(&mut self, kib: usize, f: F) -> End<T> {
        let (tx, rx) = mpsc::channel();
        let seed = self.seed;
        std::thread::Builder::new().stack_size(kib << 10).spawn(move || {
            rand::script::seed(seed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let _ = tx.send(r);
        }).unwrap();
        match rx.recv_timeout(self.timeout) {
            Ok(Ok(x)) => End::Ok(x),
            Ok(Err(p)) => End::Panic(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
            Err(_) => { self.hangs += 1; End::Hang }
        }
    }
    /// After too many hangs a driver stops early (the hanging threads eat the cores).
    pub fn give_up(&self) -> bool { self.hangs >= 3 }
}

/// Small deterministic generator for the drivers' own choices.
#[derive(Clone)]
pub struct Gen(pub u64);
impl Gen {
    pub fn new(seed: u64, salt: u64) -> Gen { let mut g = Gen(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1342543DE82EF95)); g.next(); g }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % (hi - lo + 1) as u64) as i64 }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
}

/// All random tapes of a computation: calls `f` once per leaf of its choice tree.
/// `f` runs the computation under the installed tape and returns its result with
/// the log of draws; the return value says whether the enumeration was complete
/// (every draw an integer choice and at most `cap` leaves).
pub fn all_tapes<T, F: FnMut(Vec<u64>) -> (T, Vec<rand::script::Draw>), G: FnMut(&[(u64, u64)], T)>(cap: usize, mut f: F, mut leaf: G) -> bool {
    use rand::script::Draw;
    let mut tape: Vec<u64> = vec![];
    let mut leaves = 0;
    loop {
        let (r, log) = f(tape.clone());
        let mut path = vec![];
        for d in &log { match d { Draw::Int(n, c) => path.push((*n, *c)), _ => return false } }
        leaf(&path, r);
        leaves += 1;
        // next tape: increment the last choice that can be incremented
        loop {
            match path.pop() {
                None => return true,
                Some((n, c)) if c + 1 < n => { tape = path.iter().map(|p| p.1).collect(); tape.push(c + 1); break; }
                Some(_) => {}
            }
        }
        if leaves >= cap { return false; }
    }
}

pub struct Args { pub cmd: String, pub tier: String, pub seed: u64, pub out: String }
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    assert!(a.len() >= 5, "usage: driver CMD TIER SEED OUT");
    Args { cmd: a[1].clone(), tier: a[2].clone(), seed: a[3].parse().unwrap(), out: a[4].clone() }
}
impl Args { pub fn thorough(&self) -> bool { self.tier == "thorough" } pub fn pick<T>(&self, q: T, t: T) -> T { if self.thorough() { t } else { q } } }

impl Out {
    /// One history.
    pub fn case(&mut self, name: &str, ev: Vec<J>) { self.line(obj! { name: name, ev: ev }) }
    /// A deliberately corrupted history: the specification has to reject it.
    pub fn neg(&mut self, name: &str, ev: Vec<J>) { self.line(obj! { name: name, neg: true, ev: ev }) }
}
impl<T> End<T> {
    pub fn word(&self) -> &'static str { match self { End::Ok(_) => "ok", End::Panic(_) => "panic", End::Hang => "hang" } }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> End<U> { match self { End::Ok(x) => End::Ok(f(x)), End::Panic(m) => End::Panic(m), End::Hang => End::Hang } }
    pub fn ok(self) -> Option<T> { match self { End::Ok(x) => Some(x), _ => None } }
    pub fn is_ok(&self) -> bool { matches!(self, End::Ok(_)) }
}

/// The law of a random computation: outcomes with exact weights over `den`
/// (all tapes), or counts of `den` seeded runs when its choices cannot be enumerated.
pub struct Law { pub exact: bool, pub den: u64, pub hist: Vec<(J, u64)>, pub leaves: usize }
impl Law { pub fn hist_j(&self) -> J { J::A(self.hist.iter().map(|(r, w)| J::A(vec![r.clone(), J::I(*w as i64)])).collect()) } }
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
/// A panic of `f` propagates (the whole law is then reported as a panic).
pub fn law<F: FnMut() -> J>(cap: usize, samples: usize, mut f: F) -> Law {
    use std::collections::BTreeMap;
    let mut by: BTreeMap<String, (J, BTreeMap<u64, u64>)> = BTreeMap::new();
    let mut leaves = 0;
    let mut overflow = false;
    let complete = all_tapes(cap, |t| { rand::script::install(t, vec![], vec![], vec![]); let r = f(); (r, rand::script::take()) }, |path, r: J| {
        leaves += 1;
        let mut p = 1u64;
        for (n, _) in path { p = match p.checked_mul(*n) { Some(x) if x < (1 << 40) => x, _ => { overflow = true; 1 } } }
        *by.entry(r.text()).or_insert_with(|| (r, BTreeMap::new())).1.entry(p).or_insert(0) += 1;
    });
    if complete && !overflow {
        let mut den = 1u64;
        let mut fits = true;
        for (_, (_, m)) in &by { for d in m.keys() { den = den / gcd(den, *d) * d; if den >= (1 << 30) { fits = false; den = 1; } } }
        if fits { return Law { exact: true, den, hist: by.into_values().map(|(r, m)| { let w = m.iter().map(|(d, c)| den / d * c).sum(); (r, w) }).collect(), leaves }; }
    }
    rand::script::take();
    let mut h: BTreeMap<String, (J, u64)> = BTreeMap::new();
    for _ in 0..samples { let r = f(); h.entry(r.text()).or_insert((r, 0)).1 += 1; }
    Law { exact: false, den: samples as u64, hist: h.into_values().collect(), leaves }
}
/// m arrangements of 0..n: elements of block b in block a, and the counts even, fixed, next, ascents, no arrangement
pub fn perm_stats(n: usize, m: usize, nb: usize, mut one: impl FnMut() -> Vec<usize>) -> (Vec<Vec<usize>>, Vec<usize>) {
    let (mut grid, mut even, mut fixed, mut next, mut asc, mut bad) = (vec![vec![0usize; nb]; nb], 0usize, 0usize, 0usize, 0usize, 0usize);
    for _ in 0..m {
        let v = one();
        let mut seen = vec![false; n];
        if v.len() != n || v.iter().any(|x| *x >= n || std::mem::replace(&mut seen[*x], true)) { bad += 1; continue; }
        for (p, x) in v.iter().enumerate() { grid[p * nb / n][x * nb / n] += 1; if p == *x { fixed += 1; } }
        for w in v.windows(2) { if w[1] == w[0] + 1 { next += 1; } if w[1] > w[0] { asc += 1; } }
        let mut cycles = 0;
        for i in 0..n { if seen[i] { cycles += 1; let mut j = i; while seen[j] { seen[j] = false; j = v[j]; } } }
        if (n - cycles) % 2 == 0 { even += 1; }
    }
    (grid, vec![even, fixed, next, asc, bad])
}
