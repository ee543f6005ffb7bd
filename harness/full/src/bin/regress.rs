//! Linear, logistic and generalized linear regression.
use full::*;
use rusty_machine::learning::glm::{Bernoulli, Criterion, GenLinearModel, Identity, LinkFunc, Log, Logit, Normal, Poisson};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::{BaseLogisticRegressor, LogisticRegressor};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::GradientDesc;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::SupModel;
use std::sync::{Arc, Mutex};

fn design(x: &Rows, cols: usize) -> Matrix<f64> { mat(&x.iter().map(|r| { let mut v = vec![1.0]; v.extend(r); v }).collect::<Vec<_>>(), cols + 1) }
fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
fn grid(g: &mut Gen, r: usize, c: usize) -> Rows { (0..r).map(|_| (0..c).map(|_| g.int(-24, 24) as f64 / 8.0).collect()).collect() }
fn predict<M: SupModel<Matrix<f64>, Vector<f64>>>(t: &Tell, m: &M, x: &Rows, cols: usize) {
    let e = obj! { op: "predict", x: all(x), cols: cols };
    t.about(e.clone());
    let r = m.predict(&mat(x, cols));
    t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, out: fxs(r.map(|v| v.data().clone()).unwrap_or_default().as_slice()) }));
}
fn queries<M: SupModel<Matrix<f64>, Vector<f64>>>(t: &Tell, m: &M, g: &mut Gen, cols: usize) {
    let n = 1 + g.below(3);
    let q = grid(g, n, cols);
    predict(t, m, &q, cols);
    predict(t, m, &q, cols);
}
fn data(g: &mut Gen, kind: usize, cols: usize) -> (Rows, Vec<f64>) {
    let n = match kind % 8 { 0 => cols + 1, 1 => cols.max(1), _ => cols + 2 + g.below(6) };
    let mut x = grid(g, n, cols);
    match kind % 8 {
        2 if cols > 0 => { for r in x.iter_mut() { r[cols - 1] = 1.5; } }                           // a constant column
        3 if cols > 1 => { for r in x.iter_mut() { r[1] = 2.0 * r[0] - 1.0; } }                     // dependent columns
        4 if cols > 1 => { for (i, r) in x.iter_mut().enumerate() { r[1] = r[0] + if i == 0 { 1.0 / 1024.0 } else { 0.0 }; } }
        5 => { let s = *g.pick(&[1e-3, 1e3, 1e5]); for r in x.iter_mut() { for v in r.iter_mut() { *v *= s; } } }
        _ => {}
    }
    let b: Vec<f64> = (0..=cols).map(|_| g.int(-16, 16) as f64 / 4.0).collect();
    let noise = if g.chance(0.3) { 0.0 } else { 1.0 };
    let y = x.iter().map(|r| b[0] + r.iter().zip(&b[1..]).map(|(a, c)| a * c).sum::<f64>() + noise * g.int(-8, 8) as f64 / 8.0).collect();
    (x, y)
}
fn lin(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 101);
    for i in 0..a.pick(120, 1500) {
        let mut h = Gen::new(g.next(), 1);
        hist(out, &format!("lin-{}", i), move |t| {
            let g = &mut h;
            t.say(obj! { op: "new", kind: "lin", fam: Vec::<usize>::new() });
            let mut m = LinRegressor::default();
            if g.chance(0.3) { t.about(obj! { op: "untrained" }); let r = m.predict(&mat(&grid(g, 1, 2), 2)); t.say(obj! { op: "untrained", end: if r.is_ok() { "ok" } else { "err" } }); }
            let mut shape = None;
            for k in 0..1 + g.below(3) {
                let cols = 1 + g.below(3);
                let (x, mut y) = data(g, i + 3 * k, cols);
                let off = g.chance(0.1);
                if off { if g.chance(0.5) { y.pop(); } else { y.push(1.0); } }
                let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
                t.about(e.clone());
                let (mx, my) = (mat(&x, cols), Vector::new(y.clone()));
                // a panic of this call ends the history
                let r = m.train(&mx, &my);
                t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, par: if r.is_ok() { m.parameters().map(|p| Raw(fxs(p.data()))) } else { None } }));
                if r.is_ok() { shape = Some(cols); }
                if let Some(c) = shape { queries(t, &m, g, c); if g.chance(0.15) { let c2 = if c > 1 && g.chance(0.5) { c - 1 } else { c + 1 }; predict(t, &m, &grid(g, 2, c2), c2); } }
                else { predict(t, &m, &grid(g, 2, cols), cols); }
            }
        });
        if out.give_up() { return; }
    }
    // many rows, many columns
    for (i, &(n, cols)) in [(200usize, 2usize), (40, 12), (600, 1), (90, 7), (30, 20), (64, 16)].iter().enumerate() { for k in 0..a.pick(1, 8) {
        let mut h = Gen::new(g.next(), 3);
        hist(out, &format!("lin-large-{}-{}", i, k), move |t| {
            let g = &mut h;
            t.say(obj! { op: "new", kind: "lin", fam: Vec::<usize>::new() });
            let mut m = LinRegressor::default();
            let x = grid(g, n, cols);
            let b: Vec<f64> = (0..=cols).map(|_| g.int(-16, 16) as f64 / 4.0).collect();
            let y: Vec<f64> = x.iter().map(|r| b[0] + r.iter().zip(&b[1..]).map(|(a, c)| a * c).sum::<f64>() + g.int(-8, 8) as f64 / 8.0).collect();
            let w: Vec<f64> = (0..=cols).map(|_| g.int(-16, 16) as f64 / 8.0).collect();
            let e = obj! { op: "grad", w: fxs(&w), x: all(&x), y: fxs(&y) };
            t.about(e.clone());
            let (c, gr) = m.compute_grad(&w, &design(&x, cols), &Vector::new(y.clone()));
            t.say(with(e, obj! { end: "ok", c: c, g: fxs(&gr) }));
            let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
            t.about(e.clone());
            let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
            t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, par: if r.is_ok() { m.parameters().map(|p| Raw(fxs(p.data()))) } else { None } }));
            predict(t, &m, &x, cols);
            predict(t, &m, &grid(g, 3, cols + 1), cols + 1);
        });
        if out.give_up() { return; }
    } }
    // the cost and gradient of the model, and training by gradient descent on them
    for i in 0..a.pick(40, 400) {
        let mut h = Gen::new(g.next(), 2);
        hist(out, &format!("lin-descent-{}", i), move |t| {
            let g = &mut h;
            t.say(obj! { op: "new", kind: "lin", fam: Vec::<usize>::new() });
            let mut m = LinRegressor::default();
            for _ in 0..1 + g.below(2) {
                let cols = 1 + g.below(3);
                let (x, y) = data(g, 6, cols);
                let (d, my) = (design(&x, cols), Vector::new(y.clone()));
                for _ in 0..2 {
                    let w: Vec<f64> = (0..=cols).map(|_| g.int(-16, 16) as f64 / 8.0).collect();
                    let e = obj! { op: "grad", w: fxs(&w), x: all(&x), y: fxs(&y) };
                    t.about(e.clone());
                    let (c, gr) = m.compute_grad(&w, &d, &my);
                    t.say(with(e, obj! { end: "ok", c: c, g: fxs(&gr) }));
                }
                t.about(obj! { op: "descend" });
                m.train_with_optimization(&mat(&x, cols), &my);
                let twin = GradientDesc::default().optimize(&LinRegressor::default(), &vec![0.0; cols + 1], &d, &my);
                let p = m.parameters().unwrap().data().clone();
                t.say(obj! { op: "descend", end: "ok", same: bits(&p) == bits(&twin), par: vec![Raw(fxs(&p))] });
                queries(t, &m, g, cols);
            }
        });
    }
    let new = || obj! { op: "new", kind: "lin", fam: Vec::<usize>::new() };
    let x: Rows = vec![vec![1.0], vec![2.0], vec![3.0]];
    let tr = |par: &[f64]| obj! { op: "train", x: all(&vec![vec![1.0], vec![2.0], vec![3.0]]), y: fxs(&[1.0, 2.0, 4.5]), cols: 1usize, end: "ok", par: vec![Raw(fxs(par))] };
    out.case("check-lin", vec![new(), tr(&[-1.0, 1.75])]);
    out.neg("neg-slope", vec![new(), tr(&[-1.0, 1.7501])]);
    out.neg("neg-no-intercept", vec![new(), tr(&[0.0, 1.3214285714285714])]);
    out.neg("neg-nan", vec![new(), tr(&[f64::NAN, 1.0])]);
    out.neg("neg-fails", vec![new(), obj! { op: "train", x: all(&x), y: fxs(&[1.0, 2.0, 4.5]), cols: 1usize, end: "err", par: Vec::<usize>::new() }]);
    out.neg("neg-panics", vec![new(), obj! { op: "train", x: all(&vec![vec![1.0], vec![1.0]]), y: fxs(&[1.0, 2.0]), cols: 1usize, end: "panic" }]);
    out.neg("neg-mispaired", vec![new(), obj! { op: "train", x: all(&x), y: fxs(&[1.0, 2.0, 4.5, 7.0]), cols: 1usize, end: "ok", par: vec![Raw(fxs(&[-1.0, 1.75]))] }]);
    let pr = |o: f64| vec![new(), tr(&[-1.0, 1.75]), obj! { op: "predict", x: all(&vec![vec![2.0]]), cols: 1usize, end: "ok", out: fxs(&[o]) }];
    out.case("check-predict", pr(2.5));
    out.neg("neg-predict", pr(3.5));
    out.neg("neg-untrained", vec![new(), obj! { op: "untrained", end: "ok" }]);
    out.neg("neg-width", vec![new(), tr(&[-1.0, 1.75]), obj! { op: "predict", x: all(&vec![vec![2.0, 3.0]]), cols: 2usize, end: "ok", out: fxs(&[2.5]) }]);
    let gr = |c: f64, v: &[f64]| vec![new(), obj! { op: "grad", end: "ok", w: fxs(&[1.0, -1.0]), x: all(&vec![vec![1.0], vec![2.0]]), y: fxs(&[1.0, -3.0]), c: c, g: fxs(v) }];
    out.case("check-grad", gr(1.25, &[0.5, 1.5]));
    out.neg("neg-cost", gr(2.5, &[0.5, 1.5]));
    out.neg("neg-grad-sum", gr(1.25, &[1.0, 3.0]));
    out.neg("neg-grad-intercept", gr(1.25, &[0.0, 1.5]));
    out.neg("neg-descend", vec![new(), obj! { op: "descend", end: "ok", same: false, par: vec![Raw(fxs(&[0.0]))] }]);
}
#[derive(Default)]
struct Ask { at: Vec<Vec<f64>>, ret: Vec<f64>, start: Vec<f64>, x: Option<Matrix<f64>>, t: Option<Vector<f64>>, data: bool, got: Vec<(f64, Vec<f64>)> }
#[derive(Clone, Default)]
struct Spy(Arc<Mutex<Ask>>);
impl OptimAlgorithm<BaseLogisticRegressor> for Spy {
    fn optimize(&self, m: &BaseLogisticRegressor, start: &[f64], x: &Matrix<f64>, t: &Vector<f64>) -> Vec<f64> {
        let mut a = self.0.lock().unwrap();
        a.start = start.to_vec();
        a.data = a.x.as_ref() == Some(x) && a.t.as_ref() == Some(t);
        let at = a.at.clone();
        for w in at { let r = m.compute_grad(&w, x, t); a.got.push(r); }
        a.ret.clone()
    }
}
/// runs an algorithm on the model from a given start, beside the model's own training
struct Beside<A> { alg: A, out: Arc<Mutex<Vec<f64>>> }
impl<A: OptimAlgorithm<BaseLogisticRegressor>> OptimAlgorithm<BaseLogisticRegressor> for Beside<A> {
    fn optimize(&self, m: &BaseLogisticRegressor, start: &[f64], x: &Matrix<f64>, t: &Vector<f64>) -> Vec<f64> { let r = self.alg.optimize(m, start, x, t); *self.out.lock().unwrap() = r.clone(); r }
}
fn logit(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 102);
    for i in 0..a.pick(120, 1500) {
        let mut h = Gen::new(g.next(), 1);
        hist(out, &format!("logit-{}", i), move |t| {
            let g = &mut h;
            t.say(obj! { op: "new", kind: "logit", fam: Vec::<usize>::new() });
            let spy = Spy::default();
            let mut m = LogisticRegressor::new(spy.clone());
            if g.chance(0.3) { t.about(obj! { op: "untrained" }); let r = m.predict(&mat(&grid(g, 1, 2), 2)); t.say(obj! { op: "untrained", end: if r.is_ok() { "ok" } else { "err" } }); }
            for _ in 0..1 + g.below(3) {
                let cols = 1 + g.below(3);
                let n = 1 + g.below(6);
                let x = grid(g, n, cols);
                let at: Vec<Vec<f64>> = (0..2).map(|_| (0..=cols).map(|_| g.int(-16, 16) as f64 / 16.0).collect()).collect();
                let mut y: Vec<f64> = (0..n).map(|_| *g.pick(&[0.0, 1.0, 0.0, 1.0, 0.25])).collect();
                let mut at = at;
                if i % 6 == 5 {
                    // scores so large that the sigmoid reaches 0 and 1, where the targets are
                    let k = 60.0 * if g.chance(0.5) { 1.0 } else { -1.0 };
                    let w: Vec<f64> = (0..=cols).map(|j| if j == 0 { k / 2.0 } else if j == 1 { k } else { 0.0 }).collect();
                    y = x.iter().map(|r| if w[0] + r[0] * w[1] > 0.0 { 1.0 } else if w[0] + r[0] * w[1] < 0.0 { 0.0 } else { 1.0 }).collect();
                    at = vec![w];
                }
                let ret: Vec<f64> = (0..=cols).map(|_| g.int(-40, 40) as f64 / 16.0).collect();
                *spy.0.lock().unwrap() = Ask { at: at.clone(), ret: ret.clone(), x: Some(design(&x, cols)), t: Some(Vector::new(y.clone())), ..Ask::default() };
                let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
                t.about(e.clone());
                let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
                let s = spy.0.lock().unwrap();
                t.say(obj! { op: "begin", w: fxs(&s.start), cols: cols });
                for (w, (c, gr)) in at.iter().zip(&s.got) { t.say(obj! { op: "grad", end: "ok", w: fxs(w), x: all(&x), y: fxs(&y), c: *c, g: fxs(gr) }); }
                t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, par: m.parameters().map(|p| Raw(fxs(p.data()))), design: s.data, ret: fxs(&ret) }));
                drop(s);
                queries(t, &m, g, cols);
                if g.chance(0.15) { let c2 = if cols > 1 && g.chance(0.5) { cols - 1 } else { cols + 1 }; predict(t, &m, &grid(g, 2, c2), c2); }
            }
        });
        if out.give_up() { return; }
    }
    for (i, &(n, cols)) in [(200usize, 2usize), (30, 15), (500, 1), (70, 6), (12, 25)].iter().enumerate() { for k in 0..a.pick(1, 8) {
        let mut h = Gen::new(g.next(), 3);
        hist(out, &format!("logit-large-{}-{}", i, k), move |t| {
            let g = &mut h;
            t.say(obj! { op: "new", kind: "logit", fam: Vec::<usize>::new() });
            let spy = Spy::default();
            let mut m = LogisticRegressor::new(spy.clone());
            let x = grid(g, n, cols);
            let at: Vec<Vec<f64>> = (0..2).map(|_| (0..=cols).map(|_| g.int(-8, 8) as f64 / 16.0).collect()).collect();
            let y: Vec<f64> = (0..n).map(|_| *g.pick(&[0.0, 1.0, 0.0, 1.0, 0.25])).collect();
            let ret: Vec<f64> = (0..=cols).map(|_| g.int(-20, 20) as f64 / 32.0).collect();
            *spy.0.lock().unwrap() = Ask { at: at.clone(), ret: ret.clone(), x: Some(design(&x, cols)), t: Some(Vector::new(y.clone())), ..Ask::default() };
            let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
            t.about(e.clone());
            let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
            let s = spy.0.lock().unwrap();
            t.say(obj! { op: "begin", w: fxs(&s.start), cols: cols });
            for (w, (c, gr)) in at.iter().zip(&s.got) { t.say(obj! { op: "grad", end: "ok", w: fxs(w), x: all(&x), y: fxs(&y), c: *c, g: fxs(gr) }); }
            t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, par: m.parameters().map(|p| Raw(fxs(p.data()))), design: s.data, ret: fxs(&ret) }));
            drop(s);
            predict(t, &m, &x, cols);
        });
        if out.give_up() { return; }
    } }
    for i in 0..a.pick(24, 200) {
        let mut h = Gen::new(g.next(), 2);
        hist(out, &format!("logit-descent-{}", i), move |t| {
            let g = &mut h;
            t.say(obj! { op: "new", kind: "logit", fam: Vec::<usize>::new() });
            let cols = 1 + g.below(3);
            let n = 2 + g.below(6);
            let x = grid(g, n, cols);
            let y: Vec<f64> = (0..n).map(|_| *g.pick(&[0.0, 1.0])).collect();
            let (mx, my) = (mat(&x, cols), Vector::new(y));
            let got = Arc::new(Mutex::new(vec![]));
            let seed = g.next();
            t.about(obj! { op: "descend" });
            let p = if i % 3 < 2 {
                let mut m = LogisticRegressor::default(); m.train(&mx, &my).unwrap();
                let mut twin = LogisticRegressor::new(Beside { alg: GradientDesc::default(), out: got.clone() }); twin.train(&mx, &my).unwrap();
                m.parameters().unwrap().data().clone()
            } else {
                rand::script::seed(seed);
                let mut m = LogisticRegressor::new(ConjugateGD::default()); m.train(&mx, &my).unwrap();
                rand::script::seed(seed);
                let mut twin = LogisticRegressor::new(Beside { alg: ConjugateGD::default(), out: got.clone() }); twin.train(&mx, &my).unwrap();
                m.parameters().unwrap().data().clone()
            };
            let same = bits(&p) == bits(&got.lock().unwrap());
            t.say(obj! { op: "descend", end: "ok", same: same, par: vec![Raw(fxs(&p))] });
        });
    }
    for i in 0..8 {
        hist(out, &format!("logit-mispaired-{}", i), move |t| {
            t.say(obj! { op: "new", kind: "logit", fam: Vec::<usize>::new() });
            t.about(obj! { op: "mispaired" });
            let mut m = LogisticRegressor::default();
            let r = m.train(&mat(&vec![vec![0.5]; 2 + i / 2], 1), &Vector::new(vec![1.0; if i % 2 == 0 { 1 + i / 2 } else { 4 + i / 2 }]));
            t.say(obj! { op: "mispaired", end: if r.is_ok() { "ok" } else { "err" } });
        });
    }
    let new = || obj! { op: "new", kind: "logit", fam: Vec::<usize>::new() };
    let gr = |c: f64, v: &[f64]| vec![new(), obj! { op: "grad", end: "ok", w: fxs(&[0.0, 0.0]), x: all(&vec![vec![1.0], vec![3.0]]), y: fxs(&[1.0, 0.0]), c: c, g: fxs(v) }];
    out.case("check-grad", gr(2.0f64.ln(), &[0.0, 0.5]));
    out.neg("neg-cost", gr(2.0 * 2.0f64.ln(), &[0.0, 0.5]));
    out.neg("neg-cost-nan", gr(f64::NAN, &[0.0, 0.5]));
    out.neg("neg-sign", gr(2.0f64.ln(), &[0.0, -0.5]));
    out.neg("neg-sum", gr(2.0f64.ln(), &[0.0, 1.0]));
    let tr = |d: bool, p: f64| obj! { op: "train", x: all(&vec![vec![1.0]]), y: fxs(&[1.0]), cols: 1usize, end: "ok", par: vec![Raw(fxs(&[p, 2.0]))], design: d, ret: fxs(&[0.25, 2.0]) };
    out.case("check-train", vec![new(), tr(true, 0.25), obj! { op: "predict", x: all(&vec![vec![-0.125]]), cols: 1usize, end: "ok", out: fxs(&[0.5]) }]);
    out.neg("neg-design", vec![new(), tr(false, 0.25)]);
    out.neg("neg-kept", vec![new(), tr(true, 0.5)]);
    out.neg("neg-predict", vec![new(), tr(true, 0.25), obj! { op: "predict", x: all(&vec![vec![-0.125]]), cols: 1usize, end: "ok", out: fxs(&[0.0]) }]);
    let be = |w: f64| obj! { op: "begin", w: fxs(&[0.5, w]), cols: 1usize };
    out.neg("neg-start-moves", vec![new(), be(0.5), tr(true, 0.25), be(0.25)]);
    out.neg("neg-mispaired", vec![new(), obj! { op: "mispaired", end: "ok" }]);
    out.neg("neg-untrained", vec![new(), obj! { op: "predict", x: all(&vec![vec![1.0]]), cols: 1usize, end: "panic", out: Vec::<usize>::new() }]);
}
/// user families: default methods with another link or variance
#[derive(Debug, Clone, Copy)] struct Fraction;
impl Criterion for Fraction { type Link = Logit; fn model_variance(&self, m: f64) -> f64 { m * (1.0 - m) } }
#[derive(Debug, Clone, Copy)] struct Growth;
impl Criterion for Growth { type Link = Log; fn model_variance(&self, _: f64) -> f64 { 1.0 } }
#[derive(Debug, Clone, Copy)] struct Rate;
impl Criterion for Rate { type Link = Identity; fn model_variance(&self, m: f64) -> f64 { m } }
#[derive(Debug, Clone, Copy)] struct Share;
impl Criterion for Share { type Link = Logit; fn model_variance(&self, _: f64) -> f64 { 1.0 } }
const FAMS: [(&str, &str, &str); 7] = [("bernoulli", "logit", "binary"), ("poisson", "log", "mean"), ("normal", "id", "one"), ("fraction", "logit", "binary"), ("growth", "log", "one"), ("rate", "id", "mean"), ("share", "logit", "one")];
fn mean(l: &str, z: f64) -> f64 { match l { "logit" => 1.0 / (1.0 + (-z).exp()), "log" => z.exp(), _ => z } }
fn slope(l: &str, m: f64) -> f64 { match l { "logit" => 1.0 / (m * (1.0 - m)), "log" => 1.0 / m, _ => 1.0 } }
fn var(v: &str, m: f64) -> f64 { match v { "binary" => m * (1.0 - m), "mean" => m, _ => 1.0 } }
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Option<Vec<f64>> {
    let n = b.len();
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].abs().partial_cmp(&a[j][k].abs()).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
        if !(a[p][k].abs() > 1e-12) { return None; }
        a.swap(k, p); b.swap(k, p);
        for i in 0..n { if i != k { let f = a[i][k] / a[k][k]; for j in 0..n { a[i][j] -= f * a[k][j]; } b[i] -= f * b[k]; } }
    }
    Some((0..n).map(|k| b[k] / a[k][k]).collect())
}
/// coefficients at which the score equations hold, found from the truth the data were drawn from; the specification verifies them
fn sure(fam: (&str, &str, &str), x: &Rows, y: &[f64], start: &[f64]) -> Option<Vec<f64>> {
    let n = start.len();
    let mut b = start.to_vec();
    let d: Rows = x.iter().map(|r| { let mut v = vec![1.0]; v.extend(r); v }).collect();
    for _ in 0..60 {
        let mut h = vec![vec![0.0; n]; n]; let mut s = vec![0.0; n];
        for (r, t) in d.iter().zip(y) {
            let z: f64 = r.iter().zip(&b).map(|(a, c)| a * c).sum();
            let m = mean(fam.1, z);
            let (k, w) = (1.0 / (var(fam.2, m) * slope(fam.1, m)), 1.0 / (var(fam.2, m) * slope(fam.1, m).powi(2)));
            for i in 0..n { s[i] += r[i] * (t - m) * k; for j in 0..n { h[i][j] += w * r[i] * r[j]; } }
        }
        let step = solve(h, s)?;
        for i in 0..n { b[i] += step[i].max(-1.0).min(1.0); }
    }
    // comfortably inside the region the specification asks for
    let fine = d.iter().all(|r| { let z: f64 = r.iter().zip(&b).map(|(a, c)| a * c).sum(); match fam.1 { "logit" => z.abs() < 3.0, "log" => z > -1.5 && z < 5.0, _ => fam.2 != "mean" || z > 0.5 } });
    if fine && b.iter().all(|v| v.is_finite()) { Some(b) } else { None }
}
fn glm_one<C: Criterion>(t: &Tell, g: &mut Gen, i: usize, fam: (&'static str, &'static str, &'static str), c: C) {
    t.say(obj! { op: "new", kind: "glm", fam: obj! { link: fam.1, v: fam.2 } });
    let mut m = GenLinearModel::new(c);
    if g.chance(0.3) { t.about(obj! { op: "untrained" }); let r = m.predict(&mat(&grid(g, 1, 2), 2)); t.say(obj! { op: "untrained", end: if r.is_ok() { "ok" } else { "err" } }); }
    for k in 0..1 + g.below(2) {
        let large = i % 12 == 11;
        let cols = if large { 3 + g.below(4) } else { 1 + g.below(2) };
        let n = if large { 40 + g.below(80) } else { match (i + k) % 7 { 0 => cols + 1 + g.below(3), 1 if fam.0 != "bernoulli" => cols, _ => 6 + g.below(8) } };
        let mut x: Rows = (0..n).map(|_| (0..cols).map(|_| g.int(-8, 8) as f64 / 4.0).collect()).collect();
        if (i + k) % 7 == 2 { for r in x.iter_mut() { r[0] = 0.5; } }                               // no information on the slope
        if (i + k) % 7 == 3 && cols == 1 { for r in x.iter_mut() { r[0] = if r[0] > 0.0 { 1.0 } else { 0.0 }; } }
        let b: Vec<f64> = (0..=cols).map(|j| if fam.1 == "id" && j == 0 { g.real(4.0, 8.0) } else if fam.1 == "log" && j == 0 { g.real(0.5, 2.0) } else { g.real(-0.7, 0.7) / if large { cols as f64 / 1.5 } else { 1.0 } }).collect();
        let mut y: Vec<f64> = x.iter().map(|r| {
            let m = mean(fam.1, b[0] + r.iter().zip(&b[1..]).map(|(a, c)| a * c).sum::<f64>());
            match fam.0 { "bernoulli" => if g.chance(0.1) { 0.5 } else if g.chance(m) { 1.0 } else { 0.0 }, "poisson" => (m + g.real(-1.5, 1.5) * m.sqrt()).round().max(0.0), "normal" => m + g.real(-2.0, 2.0), "fraction" | "share" => mean("logit", (m / (1.0 - m)).ln() + g.real(-0.4, 0.4)), _ => m * g.real(0.8, 1.25) }
        }).collect();
        let off = g.chance(0.08);
        if off { if g.chance(0.5) { y.pop(); } else { y.push(0.5); } }
        let cert = if off { None } else { sure(fam, &x, &y, &b) };
        let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols, sure: cert.as_ref().map(|b| Raw(fxs(b))) };
        t.about(e.clone());
        let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
        t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, par: Vec::<usize>::new() }));
        if let Some(b) = cert {
            let q: Rows = (0..2).map(|_| (0..cols).map(|_| g.int(-12, 12) as f64 / 4.0).collect()).collect();
            let e = obj! { op: "fitted", x: all(&x), y: fxs(&y), q: all(&q), sure: vec![Raw(fxs(&b))] };
            t.about(e.clone());
            let p = m.predict(&mat(&x, cols)); let pq = m.predict(&mat(&q, cols));
            let ok = p.is_ok() && pq.is_ok();
            t.say(with(e, obj! { end: if ok { "ok" } else { "err" }, out: Raw(fxs(&p.map(|v| v.into_vec()).unwrap_or_default())), qout: Raw(fxs(&pq.map(|v| v.into_vec()).unwrap_or_default())) }));
        }
    }
}
fn glm(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 103);
    for i in 0..a.pick(210, 3000) {
        let mut h = Gen::new(g.next(), 1);
        let fam = FAMS[[0, 1, 0, 1, 2, 3, 0, 1, 4, 5, 6][i % 11]];
        hist(out, &format!("{}-{}", fam.0, i), move |t| match fam.0 {
            "bernoulli" => glm_one(t, &mut h, i, fam, Bernoulli), "poisson" => glm_one(t, &mut h, i, fam, Poisson), "normal" => glm_one(t, &mut h, i, fam, Normal),
            "fraction" => glm_one(t, &mut h, i, fam, Fraction), "growth" => glm_one(t, &mut h, i, fam, Growth), "share" => glm_one(t, &mut h, i, fam, Share), _ => glm_one(t, &mut h, i, fam, Rate) });
        if out.give_up() { return; }
    }
    for i in 0..a.pick(60, 400) {
        let link = ["logit", "log", "id"][i % 3];
        let m = match i % 3 { 0 => g.real(0.001, 0.999), 1 => g.real(0.001, 30.0), _ => g.real(-9.0, 9.0) };
        let z = g.real(-15.0, 15.0);
        let r = out.run(move || match link { "logit" => (Logit::func(m), Logit::func_grad(m), Logit::func_inv(z)), "log" => (Log::func(m), Log::func_grad(m), Log::func_inv(z)), _ => (Identity::func(m), Identity::func_grad(m), Identity::func_inv(z)) });
        let (f, gr, inv) = r.ok().unwrap_or((f64::NAN, f64::NAN, f64::NAN));
        out.case(&format!("link-{}", i), vec![obj! { op: "link", link: link, m: m, z: z, f: f, g: gr, i: inv }]);
    }
    let new = || obj! { op: "new", kind: "glm", fam: obj! { link: "logit", v: "binary" } };
    let x: Rows = vec![vec![0.0], vec![0.0], vec![1.0], vec![1.0], vec![1.0]];
    let y = [0.0, 1.0, 1.0, 1.0, 0.0];
    let b = [0.0, 2.0f64.ln()];
    let fit = |p: f64, q: f64| vec![new(), obj! { op: "fitted", x: all(&x), y: fxs(&y), q: all(&vec![vec![2.0]]), sure: vec![Raw(fxs(&b))], end: "ok", out: fxs(&[0.5, 0.5, p, p, p]), qout: fxs(&[q]) }];
    out.case("check-fitted", fit(2.0 / 3.0, 0.8));
    out.neg("neg-fitted", fit(0.66, 0.8));
    out.neg("neg-fitted-nan", fit(f64::NAN, 0.8));
    out.neg("neg-other-rows", fit(2.0 / 3.0, 0.78));
    let tr = |end: &str, y: &[f64]| vec![new(), obj! { op: "train", x: all(&x), y: fxs(y), cols: 1usize, sure: vec![Raw(fxs(&b))], end: end, par: Vec::<usize>::new() }];
    out.case("check-train", tr("ok", &y));
    out.neg("neg-train", tr("err", &y));
    out.neg("neg-panics", tr("panic", &[0.0, 1.0, 1.0, 1.0, 1.0]));
    out.neg("neg-mispaired", tr("ok", &[0.0, 1.0, 1.0, 1.0]));
    out.neg("neg-link", vec![obj! { op: "link", link: "logit", m: 0.25, z: 0.0, f: 1.0, g: 16.0 / 3.0, i: 0.5 }]);
    out.neg("neg-link-slope", vec![obj! { op: "link", link: "log", m: 0.25, z: 0.0, f: 0.25f64.ln(), g: 0.25, i: 1.0 }]);
    out.neg("neg-link-inverse", vec![obj! { op: "link", link: "id", m: 0.25, z: 1.0, f: 0.25, g: 1.0, i: -1.0 }]);
    out.neg("neg-untrained", vec![new(), obj! { op: "untrained", end: "panic" }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "lin" => lin(&a, &mut out), "logit" => logit(&a, &mut out), "glm" => glm(&a, &mut out), c => panic!("unknown command {}", c) }
    out.finish()
}
