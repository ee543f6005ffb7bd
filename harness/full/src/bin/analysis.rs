//! Cross validation, confusion matrices and scores.
use full::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::analysis::score;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::{LearningResult, SupModel};
use std::cell::RefCell;
use std::rc::Rc;

/// inputs of row i (counted from 1): columns i*1000 + j; targets: columns -i*1000 - j
fn inputs(n: usize, w: usize) -> Matrix<f64> { Matrix::new(n, w, (0..n * w).map(|x| ((x / w + 1) * 1000 + x % w) as f64).collect::<Vec<f64>>()) }
fn row_of(r: &[f64], sign: f64) -> usize { if r.is_empty() { return 0; } let i = (r[0] * sign / 1000.0).round(); if r.iter().enumerate().all(|(j, v)| *v * sign == i * 1000.0 + j as f64) && i > 0.0 { i as usize } else { 0 } }
fn tags(m: &Matrix<f64>, sign: f64) -> Vec<usize> { rows(m).iter().map(|r| row_of(r, sign)).collect() }
struct Rec { log: Rc<RefCell<Vec<J>>>, trains: usize, fail_train: usize, fail_predict: usize }
fn error() -> Error { Error::new(ErrorKind::InvalidState, "the recorder was told to fail") }
impl SupModel<Matrix<f64>, Matrix<f64>> for Rec {
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
        self.trains += 1;
        let fails = self.trains == self.fail_train;
        self.log.borrow_mut().push(obj! { op: "train", x: tags(x, 1.0), y: tags(y, -1.0), fails: fails });
        if fails { Err(error()) } else { Ok(()) }
    }
    /// a row of predictions is the number of the call and the row it is for
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        let t = tags(x, 1.0);
        let call = 1 + self.log.borrow().iter().filter(|e| matches!(e, J::O(v) if v[0].1.text() == "\"predict\"")).count();
        let fails = call == self.fail_predict;
        self.log.borrow_mut().push(obj! { op: "predict", x: t, fails: fails });
        if fails { return Err(error()); }
        Ok(Matrix::new(t.len(), 2, t.iter().flat_map(|r| vec![call as f64, *r as f64]).collect::<Vec<f64>>()))
    }
}
/// predicts what it is given
struct Tagger;
impl SupModel<Matrix<f64>, Matrix<f64>> for Tagger {
    fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> { Ok(()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(x.clone()) }
}
/// the score of call c: of any sign and size, not always a number, never the same for two calls
fn value(c: usize, mood: usize) -> f64 {
    let v = c as f64;
    if c == 0 { return 0.0; }
    match (mood, c) { (0, _) => v, (1, _) => f64::from_bits(0x7ff8_0000_0000_0000 | c as u64), (2, _) => -v * 1e-300, (3, 1) => f64::INFINITY, (3, 2) => f64::NEG_INFINITY, (3, 3) => -0.0, (3, _) => -v * 1e300, _ => if c % 2 == 0 { -1.0 / v } else { v + 0.5 } }
}
fn validate(n: usize, nt: usize, w: usize, k: usize, fails: (usize, usize), mood: usize) -> (Vec<J>, Result<Vec<f64>, bool>) {
    let log = Rc::new(RefCell::new(vec![]));
    let mut m = Rec { log: log.clone(), trains: 0, fail_train: fails.0, fail_predict: fails.1 };
    let l2 = log.clone();
    let y = inputs(nt, 3) * -1.0;
    let r = k_fold_validate(&mut m, &inputs(n, w), &y, k, |o, t| {
        let call = o.data().get(0).cloned().unwrap_or(0.0);
        let same = o.data().chunks(2).all(|c| c[0] == call);
        l2.borrow_mut().push(obj! { op: "score", call: if same { call as usize } else { 0 }, x: o.data().chunks(2).map(|c| c[1] as usize).collect::<Vec<usize>>(), y: tags(t, -1.0) });
        value(call as usize, mood)
    });
    let calls = n + 2;
    let r = r.map(|s| s.iter().map(|v| (0..calls).find(|c| value(*c, mood).to_bits() == v.to_bits()).unwrap_or(calls) as f64).collect::<Vec<f64>>());
    let ev = log.borrow().clone();
    (ev, r.map_err(|e| e.to_string() == error().to_string()))
}
fn hist(out: &mut Out, name: &str, n: usize, nt: usize, w: usize, k: usize, seed: u64, fails: (usize, usize)) {
    let r = out.run(move || { rand::script::seed(seed); let (ev, r) = validate(n, nt, w, k, fails, (seed % 5) as usize); (ev, r) });
    let mut ev = vec![obj! { op: "begin", n: n, nt: nt, k: k }];
    let word = r.word();
    let none = Vec::<usize>::new();
    match r.ok() {
        Some((l, Ok(s))) => { ev.extend(l); ev.push(obj! { op: "end", end: "ok", scores: s.iter().map(|v| *v as usize).collect::<Vec<usize>>() }); }
        Some((l, Err(own))) => { ev.extend(l); ev.push(obj! { op: "end", end: if own { "err" } else { "other-err" }, scores: none }); }
        None => ev.push(obj! { op: "end", end: word, scores: none }),
    }
    out.case(name, ev);
}
fn crossval(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 51);
    for n in 0..=a.pick(14, 30) { for k in 0..=n + 1 { hist(out, &format!("plain-{}-{}", n, k), n, n, 1 + n % 3, k, g.next(), (0, 0)); if out.give_up() { return; } } }
    for _ in 0..a.pick(60, 400) {
        let n = 2 + g.below(60);
        let k = 2 + g.below(n.min(20) - 1);
        let nt = match g.below(6) { 0 => n + 1, 1 => n - 1, _ => n };
        let f = match g.below(4) { 0 => (1 + g.below(k), 0), 1 => (0, 1 + g.below(k)), _ => (0, 0) };
        hist(out, &format!("random-{}-{}-{}-{}-{}", n, k, nt, f.0, f.1), n, nt, 1 + g.below(3), k, g.next(), f);
        if out.give_up() { return; }
    }
    for &(n, k) in &[(1000usize, 3usize), (1000, 7), (300, 60), (257, 100), (130, 130), (90, 89), (501, 2), (640, 10)] {
        let f = match g.below(4) { 0 => (1 + g.below(k), 0), 1 => (0, 1 + g.below(k)), _ => (0, 0) };
        hist(out, &format!("large-{}-{}-{}-{}", n, k, f.0, f.1), n, n, 1 + g.below(3), k, g.next(), f);
        if out.give_up() { return; }
    }
    for n in 2..=4 { for k in 2..=n { for f in 1..=k { for which in 0..2 { hist(out, &format!("fails-{}-{}-{}-{}", n, k, f, which), n, n, 2, k, g.next(), if which == 0 { (f, 0) } else { (0, f) }); } } } }
    for n in 2..=a.pick(5, 6) { for k in 2..=n {
        let r = out.run(move || law(40_000, 20_000, || {
            let (ev, _) = validate(n, n, 1, k, (0, 0), 0);
            J::A(ev.iter().filter_map(|e| match e { J::O(v) if v[0].1.text() == "\"predict\"" => match &v[1].1 { J::A(x) => { let mut t: Vec<i64> = x.iter().map(|j| if let J::I(i) = j { *i } else { 0 }).collect(); t.sort(); Some(t.j()) } _ => None }, _ => None }).collect())
        }));
        let w = r.word();
        out.case(&format!("law-{}-{}", n, k), vec![match r.ok() { Some(l) => obj! { op: "law", n: n, k: k, end: w, exact: l.exact, den: l.den, hist: l.hist_j() }, None => obj! { op: "law", n: n, k: k, end: w } }]);
        if out.give_up() { return; }
    } }
    // which rows are tested together, for more rows
    for (n, k) in [(20usize, 5usize), (24, 2), (40, 20)] {
        let m = a.pick(2000usize, 8000);
        let seed = g.next();
        let r = out.run(move || {
            rand::script::seed(seed);
            let mut c = vec![0usize; n];
            for _ in 0..m { let (ev, _) = validate(n, n, 1, k, (0, 0), 0); for e in &ev { if let J::O(v) = e { if v[0].1.text() == "\"predict\"" { if let J::A(x) = &v[1].1 { let t: Vec<usize> = x.iter().map(|j| if let J::I(i) = j { *i as usize - 1 } else { 0 }).collect(); for p in &t { if t.contains(&((p + 1) % n)) && *p < n { c[*p] += 1; } } } } } } }
            c
        });
        let w = r.word();
        out.case(&format!("together-{}-{}", n, k), vec![obj! { op: "together", n: n, k: k, m: m, end: w, counts: r.ok().unwrap_or_default() }]);
    }
    // rows at some distance in one fold, in long runs
    for &(n, k, m) in &[(60usize, 4usize, 1500usize), (500, 5, 300), (1200, 100, 150), (3000, 2, 60), (333, 111, 400)] {
        let m = a.pick(m, 4 * m);
        let seed = g.next();
        let ds: Vec<usize> = vec![1, 2, 3, 7, k, n / k, n / 2, n - 1 - n / k];
        let d2 = ds.clone();
        let r = out.run(move || {
            rand::script::seed(seed);
            let mut c = vec![0usize; d2.len()];
            for _ in 0..m {
                let y = Matrix::zeros(n, 1);
                let seen = Rc::new(RefCell::new(vec![0usize; n])); let s2 = seen.clone(); let fold = std::cell::Cell::new(0usize);
                let mut mm = Tagger;
                k_fold_validate(&mut mm, &Matrix::new(n, 1, (0..n).map(|i| i as f64).collect::<Vec<f64>>()), &y, k, move |o, _| { fold.set(fold.get() + 1); for v in o.data() { s2.borrow_mut()[*v as usize] = fold.get(); } 0.0 }).unwrap();
                let f = seen.borrow();
                for (j, d) in d2.iter().enumerate() { c[j] += (0..n - d).filter(|p| f[*p] == f[p + d]).count(); }
            }
            c
        });
        let w = r.word();
        let c = r.ok().unwrap_or(vec![0; ds.len()]);
        out.case(&format!("spread-{}-{}", n, k), vec![obj! { op: "spread", n: n, k: k, m: m, end: w, gaps: ds.iter().zip(&c).map(|(d, c)| vec![*d, *c]).collect::<Vec<_>>() }]);
    }
    out.neg("neg-spread", vec![obj! { op: "spread", n: 100usize, k: 10usize, m: 100usize, end: "ok", gaps: vec![vec![1usize, 1300]] }]);
    out.case("check-spread", vec![obj! { op: "spread", n: 100usize, k: 10usize, m: 100usize, end: "ok", gaps: vec![vec![1usize, 920]] }]);
    let h = |v: Vec<J>| { let mut e = vec![obj! { op: "begin", n: 4usize, nt: 4usize, k: 2usize }]; e.extend(v); e };
    let t = |x: Vec<usize>, y: Vec<usize>| obj! { op: "train", x: x, y: y, fails: false };
    let p = |x: Vec<usize>| obj! { op: "predict", x: x, fails: false };
    let s = |c: usize, x: Vec<usize>, y: Vec<usize>| obj! { op: "score", call: c, x: x, y: y };
    let e = |v: Vec<usize>| obj! { op: "end", end: "ok", scores: v };
    out.neg("neg-leak", h(vec![t(vec![3, 4, 1], vec![3, 4, 1]), p(vec![1, 2])]));
    out.neg("neg-left-out", h(vec![t(vec![3], vec![3]), p(vec![1, 2])]));
    out.neg("neg-pairs", h(vec![t(vec![3, 4], vec![4, 3])]));
    out.neg("neg-targets", h(vec![t(vec![3, 4], vec![3, 4]), p(vec![1, 2]), s(1, vec![1, 2], vec![2, 1])]));
    out.neg("neg-uneven", h(vec![t(vec![4], vec![4]), p(vec![1, 2, 3]), s(1, vec![1, 2, 3], vec![1, 2, 3]), t(vec![1, 2, 3], vec![1, 2, 3]), p(vec![4]), s(2, vec![4], vec![4]), e(vec![1, 2])]));
    out.neg("neg-short", h(vec![t(vec![3, 4], vec![3, 4]), p(vec![1, 2]), s(1, vec![1, 2], vec![1, 2]), t(vec![1, 2], vec![1, 2]), p(vec![3, 4]), s(2, vec![3, 4], vec![3, 4]), e(vec![1])]));
    out.neg("neg-error", h(vec![obj! { op: "train", x: vec![3usize, 4], y: vec![3usize, 4], fails: true }, e(vec![])]));
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Rev(std::cmp::Reverse<u8>);
/// labels of several types; `name` gives the order number of a label
fn conf_ev(ty: usize, p: &[i64], t: &[i64], given: &Option<Vec<i64>>) -> J {
    fn go<T: Ord + Eq + std::hash::Hash + Copy>(f: impl Fn(i64) -> T, p: &[i64], t: &[i64], g: &Option<Vec<i64>>) -> Matrix<usize> {
        let c = |v: &[i64]| v.iter().map(|x| f(*x)).collect::<Vec<T>>();
        confusion_matrix(&c(p), &c(t), g.as_ref().map(|l| c(l)))
    }
    let r = std::panic::catch_unwind(|| match ty {
        0 => go(|x| x as usize, p, t, given), 1 => go(|x| x - 3, p, t, given), 2 => go(|x| (b'a' + x as u8 * 3) as char, p, t, given),
        3 => go(|x| Rev(std::cmp::Reverse(200 - x as u8)), p, t, given), 4 => go(|x| ["A", "B", "aa", "ab", "b", "c", "d", "zz", "zzz", "{}"][x as usize], p, t, given), _ => go(|x| (x / 3, x % 3), p, t, given) });
    let shape = r.as_ref().map(|m| vec![m.rows(), m.cols()]).unwrap_or_default();
    let c: Vec<Vec<usize>> = r.as_ref().map(|m| if m.cols() == 0 { vec![] } else { m.data().chunks(m.cols()).map(|x| x.to_vec()).collect() }).unwrap_or_default();
    obj! { op: "confusion", p: p, t: t, given: given, end: if r.is_ok() { "ok" } else { "panic" }, shape: shape, C: c }
}
fn seqs(len: usize, vals: i64) -> Vec<Vec<i64>> { let mut r = vec![vec![]]; for _ in 0..len { r = r.iter().flat_map(|s: &Vec<i64>| (0..vals).map(move |v| { let mut t = s.clone(); t.push(v); t })).collect(); } r }
fn confusion(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 52);
    let mut lists: Vec<Option<Vec<i64>>> = vec![None];
    for l in 0..=3 { lists.extend(seqs(l, 3).into_iter().map(Some)); }
    for len in 0..=2 { for p in seqs(len, 3) { let mut ev = vec![]; for t in seqs(len, 3) { for (i, l) in lists.iter().enumerate() { if len < 2 || l.is_none() || a.thorough() || g.chance(0.4) { ev.push(conf_ev(i % 6, &p, &t, l)); } } } out.case(&format!("short-{:?}", p), ev); } }
    for lp in 0..=3 { let mut ev = vec![]; for lt in 0..=3 { if lp != lt { for l in lists.iter().take(8) { ev.push(conf_ev(lp, &seqs(lp, 3)[0], &seqs(lt, 3).pop().unwrap(), l)); } } } out.case(&format!("lengths-{}", lp), ev); }
    for i in 0..a.pick(400, 4000) {
        let n = g.below(if i % 10 == 0 { 60 } else { 12 });
        let span = 1 + g.below(9) as i64;
        let p: Vec<i64> = (0..n).map(|_| g.int(0, span - 1)).collect();
        let t: Vec<i64> = (0..n).map(|j| if g.chance(0.5) { p[j] } else { g.int(0, span - 1) }).collect();
        let mut ls: Vec<i64> = (0..9).collect();
        for j in (1..9).rev() { ls.swap(j, g.below(j + 1)); }
        ls.truncate(g.below(10));
        if g.chance(0.2) && !ls.is_empty() { let d = ls[g.below(ls.len())]; ls.push(d); }
        let ty = g.below(6);
        out.case(&format!("random-{}", i), vec![conf_ev(ty, &p, &t, &None), conf_ev(ty, &p, &t, &Some(ls))]);
    }
    // many labels, long sequences
    for i in 0..a.pick(24, 200) {
        let n = [300usize, 1000, 40, 5000][i % 4];
        let span = [40i64, 25, 70, 3][i % 4];
        let p: Vec<i64> = (0..n).map(|_| g.int(0, span - 1)).collect();
        let t: Vec<i64> = (0..n).map(|j| if g.chance(0.5) { p[j] } else { g.int(0, span - 1) }).collect();
        let mut ls: Vec<i64> = (0..span + 5).collect();
        for j in (1..ls.len()).rev() { ls.swap(j, g.below(j + 1)); }
        ls.truncate(1 + g.below(ls.len()));
        if i % 6 == 5 { let d = ls[0]; ls.push(d); }
        let ty = *g.pick(&[0usize, 1, 3, 5]);
        out.case(&format!("many-{}", i), vec![conf_ev(ty, &p, &t, &None), conf_ev(ty, &p, &t, &Some(ls))]);
    }
    let e = |shape: usize, c: Vec<Vec<usize>>| vec![obj! { op: "confusion", p: vec![0i64, 1], t: vec![1i64, 1], given: Vec::<i64>::new(), end: "ok", shape: vec![shape, shape], C: c }];
    out.neg("neg-transposed", e(2, vec![vec![0, 1], vec![0, 1]]));
    out.neg("neg-shape", e(1, vec![vec![1]]));
    out.neg("neg-duplicates", vec![obj! { op: "confusion", p: vec![0i64], t: vec![0i64], given: vec![vec![0i64, 0]], end: "ok", shape: vec![2usize, 2], C: vec![vec![0usize, 0], vec![0, 1]] }]);
}
fn score_ev(f: &'static str, ty: usize, p: &[i64], t: &[i64]) -> J {
    use libnum_free::*;
    let r = std::panic::catch_unwind(|| {
        fn two<T: PartialEq + ZeroOne>(f: &str, c: impl Fn(i64) -> T, p: &[i64], t: &[i64]) -> f64 {
            let (p, t): (Vec<T>, Vec<T>) = (p.iter().map(|x| c(*x)).collect(), t.iter().map(|x| c(*x)).collect());
            T::score(f, &p, &t)
        }
        match f {
            "accuracy" => match ty { 0 => score::accuracy(p.iter(), t.iter()), 1 => score::accuracy(p.iter().map(|x| format!("{}", x)), t.iter().map(|x| format!("{}", x))), 2 => score::accuracy(p.iter().map(|x| *x as f64), t.iter().map(|x| *x as f64)), _ => score::accuracy(p.iter().map(|x| *x as u8), t.iter().map(|x| *x as u8)) },
            "row_accuracy" => { let w = 1 + ty; let m = |v: &[i64]| Matrix::new(v.len(), w, v.iter().flat_map(|x| (0..w).map(move |j| if j as i64 == (x * 7 + w as i64 - 1).rem_euclid(w as i64) { match w % 3 { 0 => 1.0 + *x as f64 * f64::EPSILON, 1 if w > 3 => *x as f64 * 1e-300, _ => *x as f64 } } else { 0.25 })).collect::<Vec<f64>>()); score::row_accuracy(&m(p), &m(t)) }
            _ => match ty { 0 => two(f, |x| x, p, t), 1 => two(f, |x| x as f64, p, t), 2 => two(f, |x| x as u32, p, t), _ => two(f, |x| x as i32, p, t) },
        }
    });
    obj! { op: "score", f: f, p: p, t: t, end: if r.is_ok() { "ok" } else { "panic" }, v: r.unwrap_or(f64::NAN) }
}
mod libnum_free {
    use rusty_machine::analysis::score;
    pub trait ZeroOne: Sized { fn score(f: &str, p: &[Self], t: &[Self]) -> f64; }
    macro_rules! z { ($($t:ty),*) => { $(impl ZeroOne for $t { fn score(f: &str, p: &[$t], t: &[$t]) -> f64 { match f { "precision" => score::precision(p.iter(), t.iter()), "recall" => score::recall(p.iter(), t.iter()), _ => score::f1(p.iter(), t.iter()) } } })* } }
    z!(i64, f64, u32, i32);
}
fn mse_ev(p: &Matrix<f64>, t: &Matrix<f64>) -> J {
    let (p2, t2) = (p.clone(), t.clone());
    let r = std::panic::catch_unwind(move || score::neg_mean_squared_error(&p2, &t2));
    let j = |m: &Matrix<f64>| J::A(rows(m).iter().map(|r| fxs(r)).collect());
    obj! { op: "mse", p: j(p), t: j(t), end: if r.is_ok() { "ok" } else { "panic" }, v: r.unwrap_or(f64::NAN) }
}
const FS: [&str; 5] = ["accuracy", "row_accuracy", "precision", "recall", "f1"];
fn scores(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 53);
    for len in 0..=a.pick(4, 5) { for p in seqs(len, 2) { let mut ev = vec![]; for t in seqs(len, 2) { for f in FS { ev.push(score_ev(f, g.below(4), &p, &t)); } } out.case(&format!("binary-{:?}", p), ev); } }
    for len in 1..=2 { for p in seqs(len, 4) { let mut ev = vec![]; for t in seqs(len, 4) { for f in FS { ev.push(score_ev(f, g.below(4), &p, &t)); } } out.case(&format!("labels-{:?}", p), ev); } }
    for i in 0..a.pick(200, 3000) {
        let n = 1 + g.below(if i % 5 == 0 { 200 } else { 15 });
        let span = *g.pick(&[1i64, 1, 1, 2, 5]);
        let p: Vec<i64> = (0..n).map(|_| g.int(0, span)).collect();
        let mut t: Vec<i64> = (0..n).map(|j| if g.chance(0.5) { p[j] } else { g.int(0, span) }).collect();
        if span == 1 && g.chance(0.2) { let j = g.below(n); t[j] = 2; }
        if g.chance(0.15) { t.pop(); } else if g.chance(0.1) { t.push(1); }
        let mut ev: Vec<J> = FS.iter().map(|f| score_ev(f, g.below(4), &p, &t)).collect();
        // negative labels in the signed types
        if i % 7 == 0 { let mut q = p.clone(); q[g.below(n)] = -1; for f in &FS[2..] { ev.push(score_ev(f, [0, 1, 3][g.below(3)], &q, &t)); } }
        let w = 1 + g.below(4);
        let m1 = 1 + g.below(8);
        let mk = |g: &mut Gen, n: usize| Matrix::new(n, w, (0..n * w).map(|_| match g.below(4) { 0 => 0.0, 1 => g.int(-5, 5) as f64, 2 => g.real(-1.0, 1.0), _ => g.real(-1e4, 1e4) }).collect::<Vec<f64>>());
        let x = mk(&mut g, m1);
        let m2 = if g.chance(0.1) { m1 + 1 } else { m1 };
        let y = mk(&mut g, m2);
        ev.push(mse_ev(&x, &y)); ev.push(mse_ev(&x, &x));
        out.case(&format!("random-{}", i), ev);
    }
    // long sequences, many columns
    for i in 0..a.pick(12, 60) {
        let n = [1000usize, 5000, 300, 20000][i % 4];
        let p: Vec<i64> = (0..n).map(|_| g.chance(0.3) as i64).collect();
        let t: Vec<i64> = (0..n).map(|j| if g.chance(0.9) { p[j] } else { 1 - p[j] }).collect();
        let mut ev: Vec<J> = FS.iter().map(|f| score_ev(f, g.below(4), &p, &t)).collect();
        if n == 300 { let q: Vec<i64> = t.iter().map(|v| v * g.int(1, 40)).collect(); ev.push(score_ev("accuracy", g.below(3), &q, &t)); ev.push(score_ev("row_accuracy", *g.pick(&[3, 11, 39]), &q, &t)); }
        { let m = 1 + g.below(30); let w = *g.pick(&[8, 15, 29]); let t: Vec<i64> = (0..m).map(|_| g.int(1, 40)).collect(); let q: Vec<i64> = t.iter().map(|v| if g.chance(0.3) { v + g.int(1, 3) } else { *v }).collect(); ev.push(score_ev("row_accuracy", w, &q, &t)); }
        if i % 4 != 3 { let (r, w) = ([1300usize, 3, 60][i % 4], [1usize, 120, 17][i % 4]); let mk = |g: &mut Gen| Matrix::new(r, w, (0..r * w).map(|_| g.real(-3.0, 3.0)).collect::<Vec<f64>>()); let (x, y) = (mk(&mut g), mk(&mut g)); ev.push(mse_ev(&x, &y)); }
        out.case(&format!("long-{}", i), ev);
    }
    let e = |f: &str, v: f64| vec![obj! { op: "score", f: f, p: vec![1i64, 1, 1, 0], t: vec![1i64, 0, 0, 1], end: "ok", v: v }];
    for (f, v) in [("accuracy", 0.5), ("precision", 0.5), ("recall", 1.0 / 3.0), ("f1", 0.5), ("f1", f64::NAN)] { out.neg(&format!("neg-{}", f), e(f, v)); }
    out.neg("neg-mse", vec![obj! { op: "mse", p: vec![vec![1.0, 2.0]], t: vec![vec![0.0, 0.0]], end: "ok", v: -2.5 }]);
    out.neg("neg-label", vec![obj! { op: "score", f: "recall", p: vec![1i64, 2], t: vec![1i64, 1], end: "ok", v: 0.5 }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "crossval" => crossval(&a, &mut out), "confusion" => confusion(&a, &mut out), "scores" => scores(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
