//! Optimizers run on recording objectives.
use full::*;
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::*;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use std::sync::mpsc::Sender;
use std::sync::Mutex;

/// per sample: sum over j of curvature (w_j - centre)^2 / 2 + slope w_j + offset + bump sin w_j
#[derive(Clone)]
struct Term { curv: Vec<f64>, centre: Vec<f64>, slope: Vec<f64>, bump: Vec<f64>, offset: f64 }
impl Term { fn at(&self, w: &[f64]) -> (f64, Vec<f64>) {
    let mut c = self.offset;
    let g = (0..w.len()).map(|j| { let d = w[j] - self.centre[j]; c += self.curv[j] * d * d / 2.0 + self.slope[j] * w[j] + self.bump[j] * w[j].sin(); self.curv[j] * d + self.slope[j] + self.bump[j] * w[j].cos() }).collect();
    (c, g)
} }
/// number of the sample a call is about: 0 all in order, i a single one, -1 anything else
fn sample(n: usize, x: &Matrix<f64>, t: &Matrix<f64>) -> i64 {
    let ok = |r: usize, i: f64| x[[r, 0]] == i && x[[r, 1]] == 10.0 * i && t[[r, 0]] == i + 100.0;
    if x.cols() != 2 || t.cols() != 1 || x.rows() != t.rows() { -1 }
    else if x.rows() == n && (0..n).all(|r| ok(r, (r + 1) as f64)) && (n != 1) { 0 }
    else if x.rows() == 1 && (1..=n).any(|i| ok(0, i as f64)) { x[[0, 0]] as i64 } else { -1 }
}
struct Rec { terms: Vec<Term>, batch: bool, tx: Mutex<Sender<J>>, order: Mutex<Vec<usize>>, quiet: bool }
impl Optimizable for Rec {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, w: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> (f64, Vec<f64>) {
        let n = self.terms.len();
        let mut s = sample(n, x, t);
        if n == 1 && s == 1 && self.batch { s = 0; }
        let (c, g) = if s > 0 { self.terms[s as usize - 1].at(w) } else {
            let mut c = 0.0; let mut g = vec![0.0; w.len()];
            for t in &self.terms { let (a, b) = t.at(w); c += a; for (x, y) in g.iter_mut().zip(b) { *x += y; } }
            (c, g)
        };
        if self.quiet { self.order.lock().unwrap().push(s.max(0) as usize); }
        else { self.tx.lock().unwrap().send(obj! { op: "call", s: s, w: fxs(w), c: c, g: fxs(&g) }).unwrap(); }
        (c, g)
    }
}
/// the samples it is asked about, costs of its own: never settled
struct Count { seen: Mutex<Vec<usize>> }
impl Optimizable for Count {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, _: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> (f64, Vec<f64>) { let mut s = self.seen.lock().unwrap(); if x.rows() == 1 && t.rows() == 1 && x[[0, 0]] == t[[0, 0]] { s.push(x[[0, 0]] as usize); } (s.len() as f64, vec![1.0]) }
}
fn data(n: usize) -> (Matrix<f64>, Matrix<f64>) { (mat(&(1..=n).map(|i| vec![i as f64, 10.0 * i as f64]).collect::<Vec<_>>(), 2), mat(&(1..=n).map(|i| vec![i as f64 + 100.0]).collect::<Vec<_>>(), 1)) }
enum Opt { G(GradientDesc), S(StochasticGD), A(AdaGrad), R(RMSProp) }
impl Opt {
    fn new(kind: &str, p: &[f64], iters: usize, default: bool) -> Opt { match kind {
        "gd" => Opt::G(if default { GradientDesc::default() } else { GradientDesc::new(p[0], iters) }),
        "sgd" => Opt::S(if default { StochasticGD::default() } else { StochasticGD::new(p[0], p[1], iters) }),
        "adagrad" => Opt::A(if default { AdaGrad::default() } else { AdaGrad::new(p[0], p[1], iters) }),
        _ => Opt::R(if default { RMSProp::default() } else { RMSProp::new(p[0], p[1], p[2], iters) }),
    } }
    fn run(&self, r: &Rec, w: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> { match self { Opt::G(o) => o.optimize(r, w, x, t), Opt::S(o) => o.optimize(r, w, x, t), Opt::A(o) => o.optimize(r, w, x, t), Opt::R(o) => o.optimize(r, w, x, t) } }
}
#[derive(Clone)]
struct Plan { kind: &'static str, p: Vec<f64>, iters: usize, default: bool, runs: Vec<(Vec<f64>, Vec<Term>)> }
fn hist(out: &mut Out, name: &str, p: Plan) {
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let q = p.clone();
    let seed = out.seed;
    let r = out.run(move || {
        let o = Opt::new(q.kind, &q.p, q.iters, q.default);
        tx.send(obj! { op: "new", kind: q.kind, p: fxs(&q.p), iters: q.iters, default: q.default, end: "ok" }).unwrap();
        let mut first = None;
        for (k, (w, terms)) in q.runs.iter().enumerate() {
            let (x, t) = data(terms.len());
            tx.send(obj! { op: "start", n: terms.len(), w: fxs(w) }).unwrap();
            rand::script::seed(seed + k as u64);
            let res = o.run(&Rec { terms: terms.clone(), batch: q.kind == "gd", tx: Mutex::new(tx.clone()), order: Mutex::new(vec![]), quiet: false }, w, &x, &t);
            tx.send(obj! { op: "done", end: "ok", out: fxs(&res) }).unwrap();
            if k == 0 { first = Some(res); }
        }
        if q.runs.is_empty() { return; }
        let (w, terms) = &q.runs[0];
        let (x, t) = data(terms.len());
        rand::script::seed(seed);
        let again = o.run(&Rec { terms: terms.clone(), batch: q.kind == "gd", tx: Mutex::new(tx.clone()), order: Mutex::new(vec![]), quiet: true }, w, &x, &t);
        tx.send(obj! { op: "same", same: first.unwrap().iter().zip(&again).all(|(a, b)| a.to_bits() == b.to_bits()) }).unwrap();
    });
    let mut ev: Vec<J> = rx.try_iter().collect();
    if !r.is_ok() {
        if ev.is_empty() { ev.push(obj! { op: "new", kind: p.kind, p: fxs(&p.p), iters: p.iters, default: p.default, end: r.word() }) }
        else { ev.push(obj! { op: "done", end: r.word() }) }
    }
    out.case(name, ev);
}
fn terms(g: &mut Gen, n: usize, d: usize, w: &[f64], style: usize) -> Vec<Term> {
    let mut ts: Vec<Term> = (0..n).map(|_| Term {
        curv: (0..d).map(|_| if style == 2 { 0.0 } else { g.real(0.0, 2.0) }).collect(),
        centre: (0..d).map(|_| if style == 1 { g.int(-3, 3) as f64 } else { g.real(-3.0, 3.0) }).collect(),
        slope: (0..d).map(|_| if style == 2 { g.real(-2.0, 2.0) } else if style == 3 { g.int(-1, 1) as f64 } else { 0.0 }).collect(),
        bump: (0..d).map(|_| if style == 4 { g.real(-2.0, 2.0) } else { 0.0 }).collect(),
        offset: if style == 0 { 0.0 } else if style == 7 { g.real(-3e6, 3e6) } else { g.real(-3.0, 3.0) },
    }).collect();
    match style {
        // a feature the first samples do not depend on
        3 => { let j = g.below(d); for t in ts.iter_mut().take((n + 1) / 2) { t.curv[j] = 0.0; t.slope[j] = 0.0; } }
        // total cost exactly zero at the start, the gradient not
        5 => for t in ts.iter_mut() { for j in 0..d { t.curv[j] = 0.0; t.slope[j] = g.int(1, 3) as f64 * 0.5; } t.offset = -t.slope.iter().zip(w).map(|(s, w)| s * w).sum::<f64>(); },
        // settled from the start
        6 => for t in ts.iter_mut() { for j in 0..d { t.curv[j] = 1.0; t.centre[j] = w[j]; t.slope[j] = 0.0; } },
        _ => {}
    }
    ts
}
fn descent(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 81);
    for i in 0..a.pick(200, 3000) {
        let kind = ["gd", "sgd", "adagrad", "rms"][i % 4];
        let default = i % 16 >= 12 && i < 64;
        let p = match kind {
            "gd" => vec![*g.pick(&[0.01, 0.1, 0.3, 1.0])],
            "sgd" => vec![*g.pick(&[0.1, 0.5, 0.9, 1e-3]), *g.pick(&[0.01, 0.1, 0.3])],
            "adagrad" => vec![*g.pick(&[0.5, 1.0, 0.01]), *g.pick(&[1.0, 0.1, 0.0, 3.0])],
            _ => vec![*g.pick(&[0.01, 0.1, 0.5]), *g.pick(&[0.9, 0.5, 0.01, 0.99]), *g.pick(&[1e-5, 1e-8, 1.0])],
        };
        let iters = if g.chance(0.1) { 0 } else { 1 + g.below(6) };
        let mut runs = vec![];
        for _ in 0..1 + g.below(2) {
            let d = 1 + g.below(3);
            let n = if default { 1 + g.below(2) } else { g.below(6) };
            let w: Vec<f64> = (0..d).map(|_| if g.chance(0.3) { g.int(-2, 2) as f64 } else { g.real(-3.0, 3.0) }).collect();
            let style = g.below(8);
            // integral starts make the zero cost exact
            let w = if style == 5 { w.iter().map(|v| v.round()).collect() } else { w };
            let t = terms(&mut g, n, d, &w, style);
            runs.push((w, t));
            if default { break; }
        }
        hist(out, &format!("{}-{}", kind, i), Plan { kind, p, iters, default, runs });
        if out.give_up() { return; }
    }
    // costs and gradients of any magnitude
    for i in 0..a.pick(40, 400) {
        let kind = ["gd", "sgd", "adagrad", "rms"][i % 4];
        let p = match kind { "gd" => vec![0.3], "sgd" => vec![0.5, 0.1], "adagrad" => vec![0.5, [0.0, 1e-9, 0.1][(i / 4) % 3]], _ => vec![0.1, 0.9, [1e-5, 1e-12, 1e-20][(i / 4) % 3]] };
        let (d, n) = (1 + g.below(3), 1 + g.below(4));
        let w: Vec<f64> = (0..d).map(|_| g.real(-3.0, 3.0)).collect();
        let mut t = terms(&mut g, n, d, &w, [1, 2, 4][i % 3]);
        let m = *g.pick(&[1e-8, 1e-10, 1e-13, 1e-16, 1e4, 1e8]);
        for t in t.iter_mut() { t.offset *= m; for j in 0..d { t.curv[j] *= m; t.slope[j] *= m; t.bump[j] *= m; } }
        hist(out, &format!("scale-{}-{}", kind, i), Plan { kind, p, iters: 2 + g.below(5), default: false, runs: vec![(w, t)] });
        if out.give_up() { return; }
    }
    // many weights, many samples, many epochs
    for (i, &(kind, d, n, iters)) in [("gd", 25usize, 12usize, 70usize), ("sgd", 7, 45, 6), ("adagrad", 15, 3, 70), ("rms", 1, 120, 3), ("rms", 3, 2, 130), ("sgd", 2, 1, 250), ("adagrad", 3, 80, 4), ("gd", 2, 300, 20), ("rms", 30, 20, 5), ("sgd", 40, 9, 8), ("gd", 1, 1, 1100), ("rms", 1, 1, 1200), ("adagrad", 1, 1, 600), ("sgd", 1, 2, 520)].iter().enumerate() { for k in 0..a.pick(1, 6) {
        let p = match kind { "gd" => vec![0.3 / n as f64], "sgd" => vec![[0.5, 0.9, 0.1][(i + k) % 3], 0.02], "adagrad" => vec![0.5, 0.1], _ => vec![0.01, [0.9, 0.5][k % 2], 1e-5] };
        let w: Vec<f64> = (0..d).map(|_| g.real(-3.0, 3.0)).collect();
        let t = terms(&mut g, n, d, &w, if iters > 500 { 2 } else { [1, 4][k % 2] });
        let mut runs = vec![(w, t)];
        if k % 2 == 1 { let w: Vec<f64> = (0..2).map(|_| g.real(-3.0, 3.0)).collect(); let t = terms(&mut g, 4, 2, &w, 1); runs.push((w, t)); }
        hist(out, &format!("long-{}-{}-{}", kind, i, k), Plan { kind, p, iters, default: false, runs });
        if out.give_up() { return; }
    } }
    // the order of the samples in long epochs, the last of several
    for (kind, p) in [("sgd", vec![0.5, 0.5]), ("adagrad", vec![1.0, 1.0]), ("rms", vec![0.1, 0.9, 1e-5])] { for &(n, m, epochs) in &[(10usize, 3000usize, 1usize), (40, 1500, 2), (130, 700, 1), (1030, 150, 1), (150, 300, 4), (6000, 30, 1)] {
        let (q, seed, nb, m) = (p.clone(), g.next(), if n % 10 == 0 { 10 } else { 2 }, a.pick(m, 4 * m));
        let r = out.run(move || {
            rand::script::seed(seed);
            let xy = (mat(&(0..n).map(|i| vec![i as f64]).collect::<Vec<_>>(), 1), mat(&(0..n).map(|i| vec![i as f64]).collect::<Vec<_>>(), 1));
            let o = Opt::new(kind, &q, epochs, false);
            perm_stats(n, m, nb, || { let c = Count { seen: Mutex::new(vec![]) }; match &o { Opt::S(o) => o.optimize(&c, &[1.0], &xy.0, &xy.1), Opt::A(o) => o.optimize(&c, &[1.0], &xy.0, &xy.1), Opt::R(o) => o.optimize(&c, &[1.0], &xy.0, &xy.1), _ => vec![] }; let s = c.seen.into_inner().unwrap(); if s.len() == n * epochs { s[s.len() - n..].to_vec() } else { vec![] } })
        });
        let w = r.word();
        let (grid, c) = r.ok().unwrap_or((vec![], vec![0; 5]));
        out.case(&format!("stats-{}-{}-{}", kind, n, epochs), vec![obj! { op: "order-stats", n: n, m: m, end: w, grid: grid, even: c[0], fixed: c[1], next: c[2], asc: c[3], bad: c[4] }]);
    } }
    // the documented ranges
    let vals = [f64::NEG_INFINITY, -1.0, -1e-300, -0.0, 0.0, 1e-300, 0.5, 1.0, 1.5, f64::NAN];
    for (k, kind) in ["gd", "sgd", "adagrad", "rms"].iter().enumerate() {
        let np = [1, 2, 2, 3][k];
        for j in 0..np { for v in vals.iter() {
            if v.abs() == 1e-300 { continue; }
            let mut p = vec![0.5; np]; p[j] = *v;
            hist(out, &format!("range-{}-{}-{}", kind, j, v), Plan { kind, p, iters: 1, default: false, runs: vec![] });
        } }
    }
    for (kind, p) in [("sgd", vec![0.5, 0.5]), ("adagrad", vec![1.0, 1.0]), ("rms", vec![0.1, 0.9, 1e-5])] { for n in 0..=a.pick(4usize, 5) { for epoch in 1..=2usize {
        if n > 3 && epoch == 2 { continue; }
        let q = p.clone();
        let r = out.run(move || law(40_000, 20_000, || {
            let (x, t) = data(n);
            let t1 = Term { curv: vec![0.0], centre: vec![0.0], slope: vec![1.0], bump: vec![0.0], offset: 0.0 };
            let (tx, _rx) = std::sync::mpsc::channel::<J>();
            let rec = Rec { terms: vec![t1; n], batch: false, tx: Mutex::new(tx), order: Mutex::new(vec![]), quiet: true };
            Opt::new(kind, &q, epoch, false).run(&rec, &[1.0], &x, &t);
            let o = rec.order.lock().unwrap();
            o[o.len() - n..].to_vec().j()
        }));
        let w = r.word();
        out.case(&format!("law-{}-{}-{}", kind, n, epoch), vec![match r.ok() { Some(l) => obj! { op: "order-law", n: n, end: w, exact: l.exact, den: l.den, hist: l.hist_j() }, None => obj! { op: "order-law", n: n, end: w } }]);
    } } }
    // the order of an epoch, seen from the order of the one before
    for (kind, p) in [("sgd", vec![0.5, 0.5]), ("adagrad", vec![1.0, 1.0]), ("rms", vec![0.1, 0.9, 1e-5])] { for n in 2..=4usize { for epoch in 2..=4usize {
        let q = p.clone();
        let seed = g.next();
        let r = out.run(move || { rand::script::seed(seed); let xy = (mat(&(1..=n).map(|i| vec![i as f64]).collect::<Vec<_>>(), 1), mat(&(1..=n).map(|i| vec![i as f64]).collect::<Vec<_>>(), 1)); let o = Opt::new(kind, &q, epoch, false);
            let mut h = std::collections::BTreeMap::new();
            for _ in 0..6000 { let c = Count { seen: Mutex::new(vec![]) }; match &o { Opt::S(o) => o.optimize(&c, &[1.0], &xy.0, &xy.1), Opt::A(o) => o.optimize(&c, &[1.0], &xy.0, &xy.1), Opt::R(o) => o.optimize(&c, &[1.0], &xy.0, &xy.1), _ => vec![] }; let s = c.seen.into_inner().unwrap();
                let rel: Vec<usize> = if s.len() == n * epoch { let (a, b) = (&s[n * (epoch - 2)..n * (epoch - 1)], &s[n * (epoch - 1)..]); b.iter().map(|v| a.iter().position(|w| w == v).map_or(0, |i| i + 1)).collect() } else { vec![] };
                *h.entry(rel).or_insert(0usize) += 1; }
            h });
        let w = r.word();
        out.case(&format!("anew-{}-{}-{}", kind, n, epoch), vec![obj! { op: "order-law", n: n, end: w, exact: false, den: 6000usize, hist: r.ok().unwrap_or_default().into_iter().map(|(k, v)| J::A(vec![k.j(), v.j()])).collect::<Vec<J>>() }]);
    } } }
    let new = |kind: &str, p: &[f64], it: usize| obj! { op: "new", kind: kind, p: fxs(p), iters: it, default: false, end: "ok" };
    let start = |n: usize| obj! { op: "start", n: n, w: fxs(&[1.0]) };
    let call = |s: i64, w: f64, c: f64, gr: f64| obj! { op: "call", s: s, w: fxs(&[w]), c: c, g: fxs(&[gr]) };
    let done = |w: f64| obj! { op: "done", end: "ok", out: fxs(&[w]) };
    let gd = |v: Vec<J>| { let mut e = vec![new("gd", &[0.5], 3), start(2)]; e.extend(v); e };
    out.case("check-gd", gd(vec![call(0, 1.0, 1.0, 1.0), call(0, 0.5, 2.0, 1.0), call(0, 0.0, 2.5, 1.0), done(-0.5)]));
    out.neg("neg-rate", gd(vec![call(0, 1.0, 1.0, 1.0), call(0, 0.6, 2.0, 1.0), call(0, 0.1, 2.5, 1.0), done(-0.4)]));
    out.neg("neg-early", gd(vec![call(0, 1.0, 1.0, 1.0), call(0, 0.5, 2.0, 1.0), done(0.0)]));
    out.neg("neg-at-once", gd(vec![call(0, 1.0, 0.0, 1.0), done(1.0)]));
    out.neg("neg-too-long", gd(vec![call(0, 1.0, 1.0, 1.0), call(0, 0.5, 2.0, 1.0), call(0, 0.0, 2.5, 1.0), call(0, -0.5, 4.0, 1.0), done(-1.0)]));
    out.neg("neg-last-step", gd(vec![call(0, 1.0, 1.0, 1.0), call(0, 0.5, 2.0, 1.0), call(0, 0.0, 2.5, 1.0), done(0.0)]));
    let sg = |v: Vec<J>| { let mut e = vec![new("sgd", &[0.5, 0.25], 1), start(2)]; e.extend(v); e };
    out.case("check-sgd", sg(vec![call(2, 1.0, 1.0, 4.0), call(1, -0.5, 1.0, 0.0), done(-0.75)]));
    out.neg("neg-sample-twice", sg(vec![call(2, 1.0, 1.0, 4.0), call(2, -0.5, 1.0, 0.0), done(-0.75)]));
    out.neg("neg-sample-missing", sg(vec![call(2, 1.0, 1.0, 4.0), done(-0.5)]));
    out.neg("neg-all", sg(vec![call(0, 1.0, 1.0, 4.0), call(1, -0.5, 1.0, 0.0), done(-0.75)]));
    out.neg("neg-plain-momentum", sg(vec![call(2, 1.0, 1.0, 4.0), call(1, 0.0, 1.0, 0.0), done(-0.5)]));
    out.neg("neg-range", vec![new("rms", &[0.5, 1.0, 0.1], 1)]);
    out.neg("neg-biased", vec![obj! { op: "order-law", n: 2usize, end: "ok", exact: true, den: 2usize, hist: vec![J::A(vec![vec![1usize, 2].j(), 2usize.j()])] }]);
}
/// objectives for the line searches
#[derive(Clone, Debug)]
enum F { Quadratic { a: Vec<Vec<f64>>, x: Vec<f64>, c: f64 }, Rosenbrock(f64), Waves(f64, f64), Kink(Vec<f64>), Barrier(f64), Sqrt1, Quartic(Vec<f64>), HalfNan(f64), Flat(f64), Wall(f64), Logistic(f64, bool), Hash(u64) }
impl F {
    fn at(&self, w: &[f64]) -> (f64, Vec<f64>) { match self {
        F::Quadratic { a, x, c } => { let d: Vec<f64> = w.iter().zip(x).map(|(w, x)| w - x).collect(); let g: Vec<f64> = a.iter().map(|r| r.iter().zip(&d).map(|(p, q)| p * q).sum()).collect(); (c + 0.5 * g.iter().zip(&d).map(|(p, q)| p * q).sum::<f64>(), g) }
        F::Rosenbrock(b) => { let mut c = 0.0; let mut g = vec![0.0; w.len()]; for j in 0..w.len() { if j + 1 < w.len() { let t = w[j + 1] - w[j] * w[j]; c += b * t * t; g[j] -= 4.0 * b * t * w[j]; g[j + 1] += 2.0 * b * t; } let u = 1.0 - w[j]; c += u * u; g[j] -= 2.0 * u; } (c, g) }
        F::Waves(p, q) => (w.iter().map(|v| p * (q * v).sin() + 0.05 * v * v).sum(), w.iter().map(|v| p * q * (q * v).cos() + 0.1 * v).collect()),
        F::Kink(k) => (w.iter().zip(k).map(|(v, k)| (v - k).abs()).sum(), w.iter().zip(k).map(|(v, k)| if v > k { 1.0 } else if v < k { -1.0 } else { 0.0 }).collect()),
        F::Barrier(b) => (w.iter().map(|v| b * v - v.ln()).sum(), w.iter().map(|v| if *v > 0.0 { b - 1.0 / v } else { f64::NAN }).collect()),
        F::Sqrt1 => (w.iter().map(|v| (1.0 + v * v).sqrt()).sum(), w.iter().map(|v| v / (1.0 + v * v).sqrt()).collect()),
        F::Quartic(k) => (w.iter().zip(k).map(|(v, k)| k * v.powi(4)).sum(), w.iter().zip(k).map(|(v, k)| 4.0 * k * v.powi(3)).collect()),
        // a cost that is not a number (its gradient is) beyond a point
        F::HalfNan(b) => (w.iter().map(|v| if v > b { f64::NAN } else { (v - 2.0 * b) * (v - 2.0 * b) }).sum(), w.iter().map(|v| 2.0 * (v - 2.0 * b)).collect()),
        F::Flat(c) => (*c, vec![0.0; w.len()]),
        F::Wall(b) => (w.iter().map(|v| if v > b { f64::INFINITY } else { -v }).sum::<f64>(), w.iter().map(|v| if v > b { f64::INFINITY } else { -1.0 }).collect()),
        // the cross entropy of one sample, as the library computes it
        F::Logistic(x, one) => { let z: f64 = w.iter().sum::<f64>() * x; let h = 1.0 / (1.0 + (-z).exp()); let t = if *one { 1.0 } else { 0.0 }; (-(t * h.ln() + (1.0 - t) * (1.0 - h).ln()), w.iter().map(|_| (h - t) * x).collect()) }
        // nothing to rely on: any cost, any gradient
        F::Hash(s) => { let mut g = Gen::new(w.iter().fold(*s, |a, v| a.wrapping_mul(31).wrapping_add(v.to_bits())), 9); (g.real(-1.0, 1.0), w.iter().map(|_| g.real(-1.0, 1.0)).collect()) }
    } }
    fn word(&self) -> &'static str { if let F::Quadratic { .. } = self { "quadratic" } else { "other" } }
}
struct Probe { f: F, tx: Mutex<Sender<J>>, left: Mutex<usize> }
impl Optimizable for Probe {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, w: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) {
        let mut l = self.left.lock().unwrap();
        if *l == 0 { loop { std::thread::sleep(std::time::Duration::from_secs(1)) } }      // far beyond the budget: a hang
        *l -= 1;
        let r = self.f.at(w);
        self.tx.lock().unwrap().send(obj! { op: "call", c: r.0 }).unwrap();
        r
    }
}
fn conjugate(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 82);
    out.timeout = std::time::Duration::from_secs(5);
    for i in 0..a.pick(260, 5000) {
        let large = i % 10 == 9;
        let d = if large { 8 + g.below(25) } else { 1 + g.below(5) };
        let f = match i % 13 {
            0 | 1 | 2 => {
                // an orthogonal mixture of curvatures between 1 and 100
                let mut q: Vec<Vec<f64>> = (0..d).map(|_| (0..d).map(|_| g.real(-1.0, 1.0)).collect()).collect();
                for r in 0..d { for s in 0..r { let p: f64 = q[r].iter().zip(&q[s]).map(|(x, y)| x * y).sum(); let t = q[s].clone(); for (x, y) in q[r].iter_mut().zip(t) { *x -= p * y; } } let n = q[r].iter().map(|x| x * x).sum::<f64>().sqrt(); for x in q[r].iter_mut() { *x /= n; } }
                let e: Vec<f64> = (0..d).map(|_| 10f64.powf(g.real(0.0, 2.0))).collect();
                let m = (0..d).map(|r| (0..d).map(|c| (0..d).map(|k| q[k][r] * e[k] * q[k][c]).sum()).collect()).collect();
                F::Quadratic { a: m, x: (0..d).map(|_| g.real(-5.0, 5.0)).collect(), c: *g.pick(&[0.0, 1.0, -10.0]) }
            }
            3 => F::Rosenbrock(*g.pick(&[1.0, 10.0, 100.0])),
            4 => F::Waves(g.real(0.5, 3.0), g.real(0.5, 6.0)),
            5 => F::Kink((0..d).map(|_| g.real(-2.0, 2.0)).collect()),
            6 => F::Barrier(g.real(0.5, 20.0)),
            7 => if g.chance(0.5) { F::Sqrt1 } else { F::Flat(1.5) },
            8 => F::Quartic((0..d).map(|_| g.real(0.1, 50.0)).collect()),
            9 => F::HalfNan(*g.pick(&[0.1, 0.5, 2.0])),
            10 => F::Wall(g.real(0.1, 3.0)),
            11 => F::Logistic(*g.pick(&[1.0, -3.0, 50.0]), g.chance(0.5)),
            _ => F::Hash(g.next()),
        };
        let mut w: Vec<f64> = (0..d).map(|_| g.real(-3.0, 3.0)).collect();
        match f { F::Barrier(_) => for v in w.iter_mut() { *v = v.abs() + 0.05; }, F::HalfNan(b) => for v in w.iter_mut() { *v = v.min(b); }, F::Wall(b) => for v in w.iter_mut() { *v = v.min(b); }, F::Logistic(..) => for v in w.iter_mut() { *v *= 0.3; }, _ => {} }
        if let F::Quadratic { ref x, .. } = f { if g.chance(0.1) { w = x.clone(); } }
        if !f.at(&w).0.is_finite() { w = vec![0.0; d]; }
        let quad = f.word() == "quadratic";
        let o = if quad || g.chance(0.3) { ConjugateGD::default() } else { ConjugateGD { rho: *g.pick(&[0.01, 0.1]), sig: *g.pick(&[0.5, 0.9, 0.2]), max: *g.pick(&[1usize, 2, 5, 20, 0]), iters: *g.pick(&[0usize, 1, 2, 10, 40]), ..ConjugateGD::default() } };
        let (tx, rx) = std::sync::mpsc::channel::<J>();
        let (f2, w2) = (f.clone(), w.clone());
        let r = out.run(move || { let m = mat(&[vec![0.0]], 1); o.optimize(&Probe { f: f2, tx: Mutex::new(tx), left: Mutex::new(3 * (1 + o.iters * (1 + o.max)) + 10) }, &w2, &m, &m) });
        let mut ev = vec![obj! { op: "start", iters: o.iters, max: o.max }];
        ev.extend(rx.try_iter());
        let word = r.word();
        let res = r.ok().unwrap_or_default();
        let least = if let F::Quadratic { c, .. } = f { c } else { 0.0 };
        ev.push(obj! { op: "done", end: word, kind: f.word(), out: fxs(&res), c: f.at(&res).0, c0: f.at(&w).0, least: least });
        out.case(&format!("{}-{}", match f { F::Quadratic { .. } => "quadratic".to_string(), ref f => format!("{:?}", f).split(|c| c == '(' || c == ' ').next().unwrap().to_lowercase() }, i), ev);
        if out.give_up() { return; }
    }
    let s = obj! { op: "start", iters: 1usize, max: 1usize };
    let c = |v: f64| obj! { op: "call", c: v };
    let d = |kind: &str, v: f64| obj! { op: "done", end: "ok", kind: kind, out: fxs(&[0.0]), c: v, c0: 1.0, least: -1.0 };
    out.neg("neg-above", vec![s.clone(), c(1.0), c(1.5), d("other", 1.0000001)]);
    out.neg("neg-nan", vec![s.clone(), c(1.0), d("other", f64::NAN)]);
    out.neg("neg-minimum", vec![s.clone(), c(1.0), d("quadratic", -0.999)]);
    out.neg("neg-budget", vec![s.clone(), c(1.0), c(1.0), c(1.0), c(1.0), d("other", 1.0)]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "descent" => descent(&a, &mut out), "conjugate" => conjugate(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
