//! Gaussian mixture models.
use full::*;
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::UnSupModel;

type State = (Vec<f64>, Option<Vec<Vec<f64>>>, Option<Vec<Vec<Vec<f64>>>>);
fn state(m: &GaussianMixtureModel) -> State {
    (m.mixture_weights().data().clone(), m.means().map(rows), m.covariances().map(|c| c.iter().map(rows).collect()))
}
fn bits(s: &State) -> Vec<u64> {
    let mut v: Vec<u64> = s.0.iter().map(|x| x.to_bits()).collect();
    v.push(s.1.is_some() as u64);
    for r in s.1.iter().flatten() { v.extend(r.iter().map(|x| x.to_bits())); }
    v.push(s.2.is_some() as u64);
    for c in s.2.iter().flatten() { for r in c { v.extend(r.iter().map(|x| x.to_bits())); } }
    v
}
fn told(s: &State) -> J {
    obj! { w: fxs(&s.0), mu: all(s.1.as_ref().unwrap_or(&vec![])), cov: Raw(J::A(s.2.iter().flatten().map(|c| all(c).0).collect())) }
}
#[derive(Clone)]
struct Cfg { k: usize, opt: CovOption, prior: Option<Vec<f64>> }
impl Cfg {
    fn make(&self) -> Option<GaussianMixtureModel> {
        let mut m = match &self.prior { None => GaussianMixtureModel::new(self.k), Some(p) => match GaussianMixtureModel::with_weights(self.k, Vector::new(p.clone())) { Ok(m) => m, Err(_) => return None } };
        m.cov_option = self.opt;
        Some(m)
    }
    fn tell(&self, t: &Tell) -> bool {
        let m = self.make();
        t.say(obj! { op: "new", k: self.k, prior: Raw(fxs(self.prior.as_ref().map(|p| &p[..]).unwrap_or(&[]))), end: if m.is_some() { "ok" } else { "err" }, w: fxs(m.as_ref().map(|m| m.mixture_weights().data().clone()).unwrap_or_default().as_slice()) });
        if m.is_some() { tell_opt(t, self.opt); }
        m.is_some()
    }
}
fn tell_opt(t: &Tell, o: CovOption) {
    let (w, e) = match o { CovOption::Full => ("full", 0.0), CovOption::Regularized(e) => ("reg", e), CovOption::Diagonal => ("diag", 0.0) };
    t.say(obj! { op: "opt", opt: w, eps: e });
}
fn opt(g: &mut Gen) -> CovOption { match g.below(3) { 0 => CovOption::Full, 1 => CovOption::Diagonal, _ => CovOption::Regularized(*g.pick(&[0.0625, 0.25, 1.0])) } }
fn cfg(g: &mut Gen) -> Cfg {
    let k = 1 + g.below(3);
    let prior = if g.chance(0.35) { Some((0..k).map(|j| if j > 0 && g.chance(0.15) { 0.0 } else { g.int(1, 8) as f64 / 2.0 }).collect()) } else { None };
    Cfg { k, opt: opt(g), prior }
}
/// points around a few centres
fn data(g: &mut Gen, n: usize, cols: usize) -> Rows {
    let c: Rows = (0..2).map(|_| (0..cols).map(|_| g.int(-6, 6) as f64).collect()).collect();
    (0..n).map(|_| { let m = g.pick(&c).clone(); m.iter().map(|v| v + g.int(-16, 16) as f64 / 8.0).collect() }).collect()
}
fn odd(g: &mut Gen, x: &mut Rows, cols: usize) {
    let n = x.len();
    match g.below(8) {
        0 => { for r in x.iter_mut() { r[0] = 1.0; } }                                               // a constant column
        1 if cols > 1 => { for r in x.iter_mut() { r[1] = 2.0 * r[0] - 1.0; } }                      // dependent columns
        2 => { let r = x[0].clone(); for i in 0..n { if i % 2 == 0 { x[i] = r.clone(); } } }         // many equal rows
        3 => { for r in x.iter_mut() { for v in r.iter_mut() { *v *= 64.0; } } }
        4 => { for v in x[n - 1].iter_mut() { *v += 500.0; } }                                       // an outlier
        _ => {}
    }
}
fn tape(seed: u64) { rand::script::seed(seed); }
fn gmm(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 301);
    // the states of one training after each number of rounds
    for i in 0..a.pick(90, 900) {
        let mut h = Gen::new(g.next(), 1);
        hist(out, &format!("path-{}", i), move |t| {
            let g = &mut h;
            let c = cfg(g);
            if !c.tell(t) { return; }
            let cols = 1 + g.below(3);
            let n = if g.chance(0.1) { 1 + g.below(2) } else { cols + 2 + g.below(5) };
            let mut x = data(g, n, cols);
            odd(g, &mut x, cols);
            let s = g.next();
            let rounds = if i % 10 == 0 { 9 } else { 4 };
            let mut states = vec![];
            for r in 0..rounds {
                let (c, x) = (c.clone(), x.clone());
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let mut m = c.make().unwrap();
                    m.set_max_iters(r);
                    tape(s);
                    let ok = m.train(&mat(&x, cols)).is_ok();
                    with(obj! { end: if ok { "ok" } else { "err" } }, told(&state(&m)))
                })).unwrap_or(obj! { end: "panic" });
                states.push(Raw(e));
            }
            t.say(obj! { op: "path", x: all(&x), cols: cols, states: states });
        });
        if out.give_up() { return; }
    }
    // components that count for next to nothing
    for i in 0..a.pick(12, 100) {
        let mut h = Gen::new(g.next(), 11);
        hist(out, &format!("faint-{}", i), move |t| {
            let g = &mut h;
            let k = 2 + i % 2;
            let mut p = vec![1.0; k]; p[i % k] = *g.pick(&[1e-7, 1e-9, 1e-12, 1e-16]);
            let c = Cfg { k, opt: opt(g), prior: Some(p) };
            if !c.tell(t) { return; }
            let cols = 1 + g.below(2);
            let n = cols + 4 + g.below(4);
            let x = data(g, n, cols);
            let s = g.next();
            let mut states = vec![];
            for r in 0..4 {
                let (c, x) = (c.clone(), x.clone());
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let mut m = c.make().unwrap();
                    m.set_max_iters(r);
                    tape(s);
                    let ok = m.train(&mat(&x, cols)).is_ok();
                    with(obj! { end: if ok { "ok" } else { "err" } }, told(&state(&m)))
                })).unwrap_or(obj! { end: "panic" });
                states.push(Raw(e));
            }
            t.say(obj! { op: "path", x: all(&x), cols: cols, states: states });
        });
        if out.give_up() { return; }
    }
    // rounds after dozens and hundreds of others, where convergence is slow
    for i in 0..a.pick(14, 120) {
        let mut h = Gen::new(g.next(), 12);
        hist(out, &format!("late-{}", i), move |t| {
            let g = &mut h;
            let c = Cfg { k: 2 + i % 2, opt: if i % 3 == 2 { CovOption::Diagonal } else { opt(g) }, prior: None };
            if !c.tell(t) { return; }
            let cols = 1 + i % 2;
            let n = 10 + g.below(8);
            let x: Rows = (0..n).map(|_| (0..cols).map(|_| g.int(-32, 32) as f64 / 8.0 + g.int(-3, 3) as f64).collect()).collect();
            let s = g.next();
            let first = [30usize, 99, 149, 240, 500, 63, 128][i % 7];
            let mut states = vec![];
            for r in [first, first + 1, first + 2] {
                let (c, x) = (c.clone(), x.clone());
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let mut m = c.make().unwrap();
                    m.set_max_iters(r);
                    tape(s);
                    let ok = m.train(&mat(&x, cols)).is_ok();
                    with(obj! { end: if ok { "ok" } else { "err" } }, told(&state(&m)))
                })).unwrap_or(obj! { end: "panic" });
                states.push(Raw(e));
            }
            t.say(obj! { op: "late", x: all(&x), cols: cols, states: states });
        });
        if out.give_up() { return; }
    }
    // many rows, columns and components
    for i in 0..a.pick(24, 200) {
        let mut h = Gen::new(g.next(), 7);
        hist(out, &format!("wide-{}", i), move |t| {
            let g = &mut h;
            let k = 1 + g.below(6);
            let prior = if g.chance(0.35) { Some((0..k).map(|_| g.int(1, 8) as f64 / 2.0).collect()) } else { None };
            let c = Cfg { k, opt: opt(g), prior };
            if !c.tell(t) { return; }
            let (n, cols) = *g.pick(&[(100, 1), (65, 2), (40, 4), (33, 6), (64, 3), (25, 8)]);
            let x: Rows = { let c: Rows = (0..k).map(|_| (0..cols).map(|_| g.int(-6, 6) as f64).collect()).collect(); (0..n).map(|_| { let m = g.pick(&c).clone(); m.iter().map(|v| v + g.int(-16, 16) as f64 / 8.0).collect() }).collect() };
            let s = g.next();
            let mut states = vec![];
            for r in 0..3 {
                let (c, x) = (c.clone(), x.clone());
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let mut m = c.make().unwrap();
                    m.set_max_iters(r);
                    tape(s);
                    let ok = m.train(&mat(&x, cols)).is_ok();
                    with(obj! { end: if ok { "ok" } else { "err" } }, told(&state(&m)))
                })).unwrap_or(obj! { end: "panic" });
                states.push(Raw(e));
            }
            t.say(obj! { op: "path", x: all(&x), cols: cols, states: states });
            let mut m = c.make().unwrap();
            m.set_max_iters(*g.pick(&[1, 2, 10]));
            let e = obj! { op: "train", x: all(&x), cols: cols };
            t.about(e.clone());
            let before = bits(&state(&m));
            tape(s);
            let ok = m.train(&mat(&x, cols)).is_ok();
            let st = state(&m);
            t.say(with(with(e, obj! { end: if ok { "ok" } else { "err" }, same: true, kept: bits(&st) == before }), told(&st)));
            let nq = *g.pick(&[1, 17, 40]);
            let mut q = data(g, nq, cols);
            q[0] = x[n - 1].clone();
            asks(t, &m, &q, cols);
        });
        if out.give_up() { return; }
    }
    // which rows the components start at
    for i in 0..a.pick(8, 40) {
        let mut h = Gen::new(g.next(), 2);
        hist(out, &format!("start-{}", i), move |t| {
            let g = &mut h;
            let k = 1 + i % 3;
            let n = if i % 4 == 3 { *g.pick(&[12, 20, 33]) } else { 2.max(k) + g.below(3) };
            let c = Cfg { k, opt: CovOption::Diagonal, prior: None };
            c.tell(t);
            t.about(obj! { op: "start", n: n });
            let x: Rows = (0..n).map(|j| vec![(j * j) as f64]).collect();
            let l = law(4000, 3000, || {
                let mut m = c.make().unwrap();
                m.set_max_iters(0);
                m.train(&mat(&x, 1)).unwrap();
                J::A(rows(m.means().unwrap()).iter().map(|r| J::I(1 + x.iter().position(|y| y == r).map(|p| p as i64).unwrap_or(-1))).collect())
            });
            t.say(obj! { op: "start", n: n, end: "ok", exact: l.exact, den: l.den, hist: l.hist_j() });
        });
    }
    // models that are trained and queried again and again
    for i in 0..a.pick(110, 1200) {
        let mut h = Gen::new(g.next(), 3);
        hist(out, &format!("life-{}", i), move |t| {
            let g = &mut h;
            let mut c = cfg(g);
            if g.chance(0.1) { c.prior = Some(match g.below(5) { 0 => vec![1.0; c.k + 1], 1 => vec![-0.5; c.k], 2 => vec![0.0; c.k], 3 => { let mut v = vec![2.0; c.k]; v[0] = -1.0; v } _ => vec![] }); if c.prior == Some(vec![]) { c.prior = None; } }
            if !c.tell(t) { return; }
            let mut m = c.make().unwrap();
            let mut shape = None;
            for round in 0..1 + g.below(3) {
                if g.chance(0.25) { c.opt = opt(g); m.cov_option = c.opt; tell_opt(t, c.opt); }
                let iters = *g.pick(&[0, 1, 2, 5, 20]);
                m.set_max_iters(iters);
                let cols = shape.filter(|_| g.chance(0.6)).unwrap_or(1 + g.below(3));
                let n = if g.chance(0.12) { 1 + g.below(2) } else { cols + 2 + g.below(6) };
                let mut x = data(g, n, cols);
                odd(g, &mut x, cols);
                if round == 0 && g.chance(0.3) { ask(t, g, &m, &x, cols); }
                let before = bits(&state(&m));
                let s = g.next();
                let e = obj! { op: "train", x: all(&x), cols: cols };
                t.about(e.clone());
                tape(s);
                let ok = m.train(&mat(&x, cols)).is_ok();
                let mut twin = c.make().unwrap();
                twin.set_max_iters(iters);
                tape(s);
                let fresh = twin.train(&mat(&x, cols)).is_ok();
                let st = state(&m);
                let same = ok == fresh && (!ok || bits(&st) == bits(&state(&twin)));
                t.say(with(with(e, obj! { end: if ok { "ok" } else { "err" }, same: same, kept: bits(&st) == before }), told(&st)));
                if ok { shape = Some(cols); }
                for _ in 0..2 { let w = shape.unwrap_or(cols); let w = if shape.is_some() && g.chance(0.08) { w + 1 } else { w }; let y = if w == cols { x.clone() } else { vec![] }; ask(t, g, &m, &y, w); }
            }
        });
        if out.give_up() { return; }
    }
    // what weights may be
    for (i, (k, p)) in [(1, vec![0.0]), (2, vec![0.0, 0.0]), (3, vec![0.0; 3]), (2, vec![0.0, -0.0]), (2, vec![1.0]), (2, vec![1.0; 3]), (1, vec![-1.0]), (2, vec![-1.0, 2.0]), (2, vec![2.0, -1.0]), (3, vec![1.0, 1.0, -1e-60]), (3, vec![1e-60, 0.0, 0.0]), (3, vec![0.0, 1e60, 0.0]),
            (1, vec![7.0]), (3, vec![1.0, 0.0, 3.0]), (4, vec![0.1, 0.2, 0.3, 0.4]), (5, vec![0.25; 5]), (3, vec![1e-9, 1.0, 1e9]), (2, vec![0.25, 0.25]), (1, vec![]), (2, vec![]), (7, vec![])].iter().cloned().enumerate() {
        let c = Cfg { k, opt: CovOption::Full, prior: Some(p.clone()).filter(|p| !p.is_empty()) };
        hist(out, &format!("weights-{}", i), move |t| { c.tell(t); });
    }
    let new = |k: usize, p: &[f64], end: &str| { let q = if p.is_empty() { vec![1.0; k] } else { p.to_vec() }; let s: f64 = q.iter().sum(); obj! { op: "new", k: k, prior: fxs(p), end: end, w: fxs(&q.iter().map(|x| if s > 0.0 { x / s } else { 0.0 }).collect::<Vec<f64>>()) } };
    let full = || obj! { op: "opt", opt: "full", eps: 0.0 };
    out.case("check-weights", vec![new(2, &[0.0, 1.0], "ok"), new(2, &[-1.0, 2.0], "err"), new(2, &[1.0], "err"), new(2, &[0.0, 0.0], "err")]);
    out.neg("neg-negative", vec![new(2, &[-1.0, 2.0], "ok")]);
    out.neg("neg-good", vec![new(2, &[0.0, 2.0], "err")]);
    out.neg("neg-unnormalised", vec![obj! { op: "new", k: 2usize, prior: fxs(&[1.0, 3.0]), end: "ok", w: fxs(&[1.0, 3.0]) }]);
    out.neg("neg-unequal", vec![obj! { op: "new", k: 2usize, prior: fxs(&[]), end: "ok", w: fxs(&[1.0, 1.0]) }]);
    out.neg("neg-zero", vec![new(2, &[0.0, 0.0], "ok")]);
    // one component on 0, 2: from mean 0 and variance 2 to mean 1 and variance 1
    let x: Rows = vec![vec![0.0], vec![2.0]];
    let ended = |end: &str, w: f64, m: f64, c: f64| obj! { end: end, w: fxs(&[w]), mu: all(&vec![vec![m]]), cov: Raw(J::A(vec![all(&vec![vec![c]]).0])) };
    let st = |w: f64, m: f64, c: f64| ended("ok", w, m, c);
    let path = |v: Vec<J>| vec![new(1, &[], "ok"), full(), obj! { op: "path", x: all(&vec![vec![0.0], vec![2.0]]), cols: 1usize, states: v }];
    out.case("check-path", path(vec![st(1.0, 0.0, 2.0), st(1.0, 1.0, 1.0), st(1.0, 1.0, 1.0), st(1.0, 1.0, 1.0)]));
    out.neg("neg-variance", path(vec![st(1.0, 0.0, 2.0), st(1.0, 1.0, 2.0)]));
    out.neg("neg-mean", path(vec![st(1.0, 0.0, 2.0), st(1.0, 0.0, 1.0)]));
    out.neg("neg-early", path(vec![st(1.0, 0.0, 2.0), st(1.0, 0.0, 2.0)]));
    out.neg("neg-start", path(vec![st(1.0, 1.0, 2.0), st(1.0, 1.0, 1.0)]));
    out.neg("neg-start-variance", path(vec![st(1.0, 0.0, 1.0), st(1.0, 1.0, 1.0)]));
    out.neg("neg-weight", path(vec![st(0.5, 0.0, 2.0), st(1.0, 1.0, 1.0)]));
    out.neg("neg-nan", path(vec![st(1.0, 0.0, 2.0), st(1.0, f64::NAN, 1.0)]));
    out.neg("neg-panics", path(vec![st(1.0, 0.0, 2.0), obj! { end: "panic" }]));
    out.neg("neg-fails", path(vec![st(1.0, 0.0, 2.0), ended("err", 1.0, 0.0, 2.0)]));
    let tr = |ok: &str, same: bool, kept: bool| with(obj! { op: "train", x: all(&x), cols: 1usize, end: ok, same: same, kept: kept }, obj! { w: fxs(&[1.0]), mu: all(&vec![vec![1.0]]), cov: Raw(J::A(vec![all(&vec![vec![1.0]]).0])) });
    let pr = |o: f64, kept: bool| obj! { op: "predict", q: all(&vec![vec![5000.0]]), cols: 1usize, end: "ok", kept: kept, out: all(&vec![vec![o]]) };
    out.case("check-life", vec![new(1, &[], "ok"), full(), tr("ok", true, false), pr(1.0, true)]);
    out.neg("neg-remembers", vec![new(1, &[], "ok"), full(), tr("ok", false, false)]);
    out.neg("neg-broken", vec![new(1, &[], "ok"), full(), tr("err", true, false)]);
    out.neg("neg-outlier", vec![new(1, &[], "ok"), full(), tr("ok", true, false), pr(f64::NAN, true)]);
    out.neg("neg-changed", vec![new(1, &[], "ok"), full(), tr("ok", true, false), pr(1.0, false)]);
    out.neg("neg-untrained", vec![new(1, &[], "ok"), full(), pr(1.0, true)]);
    out.neg("neg-law", vec![new(1, &[], "ok"), obj! { op: "start", n: 2usize, end: "ok", exact: true, den: 3usize, hist: vec![vec![Raw(J::A(vec![J::I(1)])), Raw(J::I(2))], vec![Raw(J::A(vec![J::I(2)])), Raw(J::I(1))]] }]);
}
fn ask(t: &Tell, g: &mut Gen, m: &GaussianMixtureModel, x: &Rows, cols: usize) {
    let n = 1 + g.below(3);
    let mut q = data(g, n, cols);
    if !x.is_empty() && g.chance(0.5) { q[0] = x[0].clone(); }
    if g.chance(0.25) { let far = *g.pick(&[40.0, 400.0, 5000.0]); for v in q[n - 1].iter_mut() { *v += far; } }
    asks(t, m, &q, cols);
}
fn asks(t: &Tell, m: &GaussianMixtureModel, q: &Rows, cols: usize) {
    let e = obj! { op: "predict", q: all(q), cols: cols };
    t.about(with(e.clone(), obj! { kept: true }));
    let before = bits(&state(m));
    let r = m.predict(&mat(q, cols));
    let kept = bits(&state(m)) == before;
    t.say(with(e, obj! { kept: kept, end: if r.is_ok() { "ok" } else { "err" }, out: all(&r.map(|v| rows(&v)).unwrap_or_default()) }));
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "gmm" => gmm(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
