//! Parts supplied by the user, recording every call the library makes.
use full::*;
use rusty_machine::linalg::MatrixSlice;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::glm::{self, GenLinearModel};
use rusty_machine::learning::k_means::{Initializer, KMeansClassifier};
use rusty_machine::learning::knn::{KNNClassifier, KNearestSearch};
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{self, NaiveBayes};
use rusty_machine::learning::nnet::{self, net_layer::Linear, NeuralNet};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::toolkit::activ_fn::ActivationFunc;
use rusty_machine::learning::toolkit::cost_fn::CostFunc;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::stats::dist::Distribution;
use std::cell::{Cell, RefCell};

thread_local! {
    static LOG: RefCell<Vec<J>> = RefCell::new(vec![]);
    static COUNT: Cell<usize> = Cell::new(0);
    static MODE: Cell<usize> = Cell::new(0);
}
fn rec(j: J) { LOG.with(|l| l.borrow_mut().push(j)) }
fn take() -> J { J::A(LOG.with(|l| l.borrow_mut().drain(..).collect())) }
fn fresh() -> usize { COUNT.with(|c| { c.set(c.get() + 1); c.get() }) }
fn no() -> Error { Error::new(ErrorKind::InvalidState, "no") }
/// an integer, or a number no integer of a history equals
fn iz(v: f64) -> J { if is_int(v) && v.abs() < 1e6 { J::I(v as i64) } else { J::I(2000000001) } }
fn izs(v: &[f64]) -> J { J::A(v.iter().map(|x| iz(*x)).collect()) }
fn izm(m: &Rows) -> J { J::A(m.iter().map(|r| izs(r)).collect()) }
fn hash(p: &[f64], salt: usize) -> usize { let mut h = salt as u64 ^ 0x9E37; for v in p { h = (h ^ (v.to_bits() >> 40)).wrapping_mul(0x100000001B3); h ^= h >> 29; } (h >> 7) as usize }
fn some(g: &mut Gen, n: usize, cols: usize, lo: i64, hi: i64) -> Rows { (0..n).map(|_| (0..cols).map(|_| g.int(lo, hi) as f64).collect()).collect() }
fn ends<T, E>(r: &Result<T, E>) -> &'static str { if r.is_ok() { "ok" } else { "err" } }

// ---- naive Bayes
#[derive(Debug)]
struct Own { id: usize, classes: usize }
impl naive_bayes::Distribution for Own {
    fn from_model_params(classes: usize, features: usize) -> Own { let id = fresh(); rec(obj! { c: "make", id: id, classes: classes, cols: features, refused: false }); Own { id, classes } }
    fn update_params(&mut self, data: &Matrix<f64>, class: usize) -> LearningResult<()> {
        let refused = MODE.with(|m| m.get()) == class + 1;
        rec(obj! { c: "update", id: self.id, class: class + 1, rows: izm(&rows(data)), refused: refused });
        if refused { Err(no()) } else { Ok(()) }
    }
    fn joint_log_lik(&self, data: &Matrix<f64>, prior: &[f64]) -> LearningResult<Matrix<f64>> {
        let x = rows(data);
        let refused = x.iter().any(|r| r.contains(&99.0));
        let ans: Rows = x.iter().map(|r| (0..self.classes).map(|c| (hash(r, self.id * 31 + c) % 9) as f64 - 5.0).collect()).collect();
        rec(obj! { c: "lik", id: self.id, rows: izm(&x), prior: fxs(prior), ans: izm(&ans), refused: refused });
        if refused { Err(no()) } else { Ok(mat(&ans, self.classes)) }
    }
}
fn bayes(out: &mut Out, name: &str, mut g: Gen, large: usize) {
    hist(out, name, move |say| {
        let mut m: NaiveBayes<Own> = NaiveBayes::new();
        let (mut cols, mut classes) = (1 + g.below(3), 1 + g.below(4));
        for step in 0..2 + g.below(5) {
            if g.chance(0.55) || step == 1 {
                if g.chance(0.3) { cols = 1 + g.below(3); classes = 1 + g.below(4); }
                if large > 0 { classes = [1, 2, 9, 20][large % 4]; }
                let n = if large > 0 { [700, 1100, 300, 80][(large / 2) % 4] } else { 1 + g.below(7) };
                let skip = g.below(classes + 1);
                let cls: Vec<usize> = (0..n).map(|_| { let c = g.below(classes); if c == skip { (c + 1) % classes } else { c } }).collect();
                let x = some(&mut g, n, cols, -3, 3);
                let mut t: Rows = cls.iter().map(|c| (0..classes).map(|k| if k == *c { 1.0 } else { 0.0 }).collect()).collect();
                match g.below(12) { 0 => { t.pop(); } 1 => { let i = g.below(n); t[i] = vec![0.0; classes]; } _ => {} }
                if t.is_empty() { continue; }
                MODE.with(|m| m.set(if g.chance(if large > 0 { 0.1 } else { 0.2 }) { 1 + g.below(classes) } else { 0 }));
                let said: Vec<usize> = t.iter().map(|r| r.iter().position(|v| *v == 1.0).map_or(0, |i| i + 1)).collect();
                let e = obj! { op: "b-train", x: izm(&x), cls: said, classes: classes, cols: cols };
                say.about(e.clone());
                let r = m.train(&mat(&x, cols), &mat(&t, classes));
                say.say(with(e, obj! { calls: take(), end: ends(&r) }));
            } else {
                let c = if g.chance(0.1) { cols + 1 } else { cols };
                let n = 1 + g.below(if large > 0 { 600 } else { 5 });
                let mut q = some(&mut g, n, c, -3, 3);
                if g.chance(0.15) { let i = g.below(q.len()); q[i][0] = 99.0; }
                let e = obj! { op: "b-predict", q: izm(&q), cols: c };
                say.about(with(e.clone(), obj! { lpend: "panic" }));
                let x = mat(&q, c);
                let r = m.predict(&x); let calls = take();
                let l = m.get_log_probs(&x); let lpcalls = take();
                say.say(with(e, obj! { end: ends(&r), lpend: ends(&l), calls: calls, lpcalls: lpcalls, lp: l.map_or(Raw(J::A(vec![])), |l| all(&rows(&l))),
                    out: r.map_or(vec![], |o| rows(&o).iter().map(|r| if r.iter().sum::<f64>() == 1.0 && r.iter().filter(|v| **v != 0.0).count() == 1 { r.iter().position(|v| *v == 1.0).map_or(0, |i| i + 1) } else { 0 }).collect()) }));
            }
        }
    });
}
// ---- neighbour searches
#[derive(Default, Debug)]
struct Told { n: usize, salt: usize }
impl KNearestSearch for Told {
    fn build(&mut self, data: Matrix<f64>) { self.n = data.rows(); rec(obj! { c: "build", rows: izm(&rows(&data)), refused: false }); }
    fn search(&self, p: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
        let refused = p.contains(&99.0);
        let idx: Vec<usize> = (0..1 + hash(p, self.salt) % (k + 2)).map(|i| hash(p, self.salt + 7 * i + 1) % self.n.max(1)).collect();
        rec(obj! { c: "search", point: izs(p), k: k, idx: idx.iter().map(|i| i + 1).collect::<Vec<usize>>(), refused: refused });
        if refused { Err(no()) } else { let d = vec![0.0; idx.len()]; Ok((idx, d)) }
    }
}
fn classifier(out: &mut Out, name: &str, mut g: Gen, large: bool) {
    hist(out, name, move |say| {
        let k = 1 + g.below(if large { 40 } else { 5 });
        let mut m = KNNClassifier::new_specified(k, Told { n: 0, salt: g.below(1000) });
        say.say(obj! { op: "c-new", k: k });
        let cols = 1 + g.below(3);
        for step in 0..2 + g.below(5) {
            if g.chance(0.4) || step == 1 {
                let n = if large { *g.pick(&[70, 300, 600]) } else { g.below(12) };
                let x = some(&mut g, n, cols, -3, 3);
                let mut y: Vec<usize> = (0..n).map(|_| g.below(4) * 3).collect();
                if g.chance(0.15) { y.push(1); }
                let e = obj! { op: "c-train", x: izm(&x), y: y.clone() };
                say.about(with(e.clone(), obj! { calls: take() }));
                let r = m.train(&mat(&x, cols), &Vector::new(y));
                say.say(with(e, obj! { calls: take(), end: ends(&r) }));
            } else {
                let nq = 1 + g.below(if large { 200 } else { 6 }); let mut q = some(&mut g, nq, cols, -3, 3);
                if g.chance(0.15) { let i = g.below(q.len()); q[i][0] = 99.0; }
                let e = obj! { op: "c-predict", q: izm(&q) };
                say.about(with(e.clone(), obj! { calls: take() }));
                let r = m.predict(&mat(&q, cols));
                say.say(with(e, obj! { calls: take(), end: ends(&r), labels: r.map_or(vec![], |v| v.into_vec()) }));
            }
        }
    });
}
// ---- GLM families
struct Family { kind: usize, weights: Vec<f64> }
impl Family {
    fn grad(&self, m: f64) -> f64 { match self.kind { 1 => 1.0 / m, 2 => 0.5 / m.sqrt(), _ => 1.0 } }
}
impl glm::Criterion for Family {
    type Link = glm::Logit;
    fn model_variance(&self, mu: f64) -> f64 { match self.kind { 1 | 2 => mu, _ => 1.0 } }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> { let r: Vec<f64> = y.iter().map(|v| match self.kind { 1 => v + 0.5, 2 => v + 0.25, 3 => 2.0 * v + 1.0, 4 => 2.0, _ => *v }).collect(); rec(obj! { c: "init", a: fxs(y), r: fxs(&r) }); r }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
        let r: Vec<f64> = mu.iter().enumerate().map(|(i, m)| match self.kind { 0 => self.weights[i], 3 => 1.0 + i as f64, 4 => 1.0 / (1.0 + (m - 3.0 * self.weights[i]).abs()), _ => 1.0 / (self.model_variance(*m) * self.grad(*m) * self.grad(*m)) }).collect();
        rec(obj! { c: "weight", a: fxs(mu), r: fxs(&r) }); r
    }
    fn compute_y_bar(&self, y: &[f64], mu: &[f64]) -> Vec<f64> {
        let f = if self.kind == 3 { 0.5 } else { 1.0 };
        let r: Vec<f64> = mu.iter().zip(y).map(|(m, y)| f * self.grad(*m) * (y - m)).collect();
        rec(obj! { c: "ybar", a: fxs(mu), y: fxs(y), r: fxs(&r) }); r
    }
    fn apply_link_func(&self, v: Vector<f64>) -> Vector<f64> { let r = Vector::new(v.iter().map(|m| match self.kind { 1 => m.ln(), 2 => m.sqrt(), _ => *m }).collect::<Vec<f64>>()); rec(obj! { c: "link", a: fxs(v.data()), r: fxs(r.data()) }); r }
    fn apply_link_inv(&self, v: Vector<f64>) -> Vector<f64> { let r = Vector::new(v.iter().map(|e| match self.kind { 1 => e.exp(), 2 => e * e, _ => *e }).collect::<Vec<f64>>()); rec(obj! { c: "inv", a: fxs(v.data()), r: fxs(r.data()) }); r }
    fn link_grad(&self, m: f64) -> f64 { self.grad(m) }
}
/// the default methods beside an own gradient and variance
struct Plain { kind: usize }
impl glm::Criterion for Plain {
    type Link = glm::Log;
    fn model_variance(&self, mu: f64) -> f64 { match self.kind { 0 => mu * mu + 0.5, 1 => 3.0, _ => mu.abs() + 1.0 } }
    fn link_grad(&self, mu: f64) -> f64 { match self.kind { 0 => 2.0 * mu + 0.25, 1 => -0.75, _ => 1.0 / (1.0 + mu * mu) } }
}
struct Link;
impl glm::LinkFunc for Link { fn func(x: f64) -> f64 { x.powi(3) } fn func_grad(x: f64) -> f64 { 3.0 * x * x + 1.0 } fn func_inv(x: f64) -> f64 { x.cbrt() } }
struct Linked;
impl glm::Criterion for Linked { type Link = Link; fn model_variance(&self, mu: f64) -> f64 { 1.0 + mu * mu } }
fn fxv(j: &J) -> J { j.clone() }
fn glm_fit(out: &mut Out, name: &str, mut g: Gen, kind: usize, large: bool) {
    hist(out, name, move |say| {
        use glm::Criterion;
        let cols = 1 + g.below(2);
        let n = if large { *g.pick(&[40, 140]) } else { cols + 3 + g.below(6) };
        let (mut x, y): (Rows, Vec<f64>) = (some(&mut g, n, cols, -4, 4), (0..n).map(|_| g.int(1, 9) as f64).collect());
        for (i, r) in x.iter_mut().enumerate().take(cols + 1) { for (j, v) in r.iter_mut().enumerate() { *v = if i == j + 1 { 5.0 } else { 0.0 }; } }
        let weights = (0..n).map(|_| g.int(1, 6) as f64 / 2.0).collect();
        let e = obj! { op: "g-fit", x: all(&x), y: fxs(&y) };
        say.about(e.clone());
        let mut m = GenLinearModel::new(Family { kind, weights });
        let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
        let calls = take();
        // the coefficients, from the linear predictors of a zero row and the unit rows
        let mut probe: Rows = vec![vec![0.0; cols]; cols + 1];
        for j in 0..cols { probe[j + 1][j] = 1.0; }
        let mut eta = vec![];
        if r.is_ok() { MODE.with(|m| m.set(1)); let _ = m.predict(&mat(&probe, cols)); LOG.with(|l| for c in l.borrow().iter() { if let J::O(f) = c { eta.push(f[1].1.clone()); } }); take(); }
        let eta: Vec<f64> = if let Some(J::A(v)) = eta.first() { v.iter().map(unfx).collect() } else { vec![] };
        let beta: Vec<f64> = eta.iter().enumerate().map(|(i, v)| if i == 0 { *v } else { *v - eta[0] }).collect();
        say.say(with(e, obj! { calls: fxv(&calls), beta: fxs(&beta), end: ends(&r) }));
        if r.is_err() { return; }
        for _ in 0..2 {
            let nq = 1 + g.below(4); let q = some(&mut g, nq, cols, -2, 2);
            let e = obj! { op: "g-predict", q: all(&q), beta: fxs(&beta) };
            say.about(e.clone());
            let r = m.predict(&mat(&q, cols));
            say.say(with(e, obj! { calls: take(), end: ends(&r), out: r.map_or(J::A(vec![]), |v| fxs(v.data())) }));
        }
        let (mu, y): (Vec<f64>, Vec<f64>) = (0..5).map(|_| (g.real(0.25, 4.0), g.real(-3.0, 5.0))).unzip();
        fn defaults<C: Criterion>(c: &C, mu: &[f64], y: &[f64]) -> J {
            obj! { op: "g-default", mu: fxs(mu), y: fxs(y), var: mu.iter().map(|m| c.model_variance(*m)).collect::<Vec<f64>>(), grad: mu.iter().map(|m| c.link_grad(*m)).collect::<Vec<f64>>(),
                   w: fxs(&c.compute_working_weight(mu)), z: fxs(&c.compute_y_bar(y, mu)), init: fxs(&c.initialize_mu(y)), end: "ok" }
        }
        for k in 0..3 { say.say(defaults(&Plain { kind: k }, &mu, &y)); }
        say.say(defaults(&Linked, &mu, &y));
        // the link of the family is the one applied
        let v = Vector::new(mu.clone());
        let (l, i) = (Linked.apply_link_func(v.clone()), Linked.apply_link_inv(v));
        let same = l.iter().zip(&mu).all(|(a, b)| *a == b.powi(3)) && i.iter().zip(&mu).all(|(a, b)| *a == b.cbrt()) && mu.iter().all(|m| Linked.link_grad(*m) == 3.0 * m * m + 1.0);
        say.say(obj! { op: "g-predict", q: J::A(vec![]), beta: J::A(vec![]), calls: vec![obj! { c: "inv", a: J::A(vec![]), r: J::A(vec![]) }], end: if same { "ok" } else { "err" }, out: J::A(vec![]) });
    });
}
/// the real number of an exact encoding
fn unfx(j: &J) -> f64 { if let J::A(v) = j { let d: Vec<i64> = v.iter().map(|x| if let J::I(i) = x { *i } else { 0 }).collect(); if d[0].abs() > 1 { return f64::NAN; } let mut s = 0.0; for (i, x) in d[1..].iter().enumerate() { s += *x as f64 * 16384f64.powi(i as i32 - 16); } s * d[0] as f64 } else { f64::NAN } }
// ---- networks
#[derive(Clone, Debug)] struct Act<const A: i64, const B: i64>;
impl<const A: i64, const B: i64> ActivationFunc for Act<A, B> {
    fn func(x: f64) -> f64 { A as f64 * x + B as f64 }
    fn func_grad(_: f64) -> f64 { 1000.0 }
    fn func_grad_from_output(y: f64) -> f64 { y + 4.0 }
    fn func_inv(_: f64) -> f64 { 3000.0 }
}
struct OwnCost;
impl CostFunc<Matrix<f64>> for OwnCost {
    fn cost(y: &Matrix<f64>, t: &Matrix<f64>) -> f64 { 2.0 * y.data().iter().sum::<f64>() - t.data().iter().sum::<f64>() + 10.0 }
    fn grad_cost(y: &Matrix<f64>, t: &Matrix<f64>) -> Matrix<f64> { Matrix::new(y.rows(), y.cols(), y.data().iter().zip(t.data()).map(|(y, t)| 2.0 * y + t).collect::<Vec<f64>>()) }
}
macro_rules! over { () => {
    fn cost(&self, y: &Matrix<f64>, t: &Matrix<f64>) -> f64 { y.data().iter().zip(t.data()).map(|(y, t)| y * t).sum::<f64>() + 5.0 }
    fn cost_grad(&self, y: &Matrix<f64>, t: &Matrix<f64>) -> Matrix<f64> { Matrix::new(y.rows(), y.cols(), y.data().iter().zip(t.data()).map(|(y, t)| y - 2.0 * t).collect::<Vec<f64>>()) }
} }
macro_rules! pays { () => {
    fn reg_cost(&self, w: MatrixSlice<f64>) -> f64 { fresh(); w.iter().enumerate().map(|(i, w)| (i + 1) as f64 * w).sum::<f64>() + 7.0 }
    fn reg_cost_grad(&self, w: MatrixSlice<f64>) -> Matrix<f64> { fresh(); let d: Vec<f64> = w.iter().enumerate().map(|(i, w)| 3.0 * w + (i + 1) as f64).collect(); Matrix::new(w.rows(), w.cols(), d) }
} }
trait Named: nnet::Criterion { const KIND: &'static str; const REG: &'static str; }
macro_rules! crit { ($n:ident, $k:expr, $r:expr, $($body:tt)*) => { #[derive(Debug)] struct $n; impl nnet::Criterion for $n { type Cost = OwnCost; $($body)* } impl Named for $n { const KIND: &'static str = $k; const REG: &'static str = $r; } } }
crit!(C0, "type", "none",);
crit!(C1, "over", "none", over!(););
crit!(C2, "type", "own", fn regularization(&self) -> Regularization<f64> { Regularization::L1(0.5) } pays!(););
crit!(C3, "type", "off", fn regularization(&self) -> Regularization<f64> { Regularization::L2(2.0) } fn is_regularized(&self) -> bool { false } pays!(););
crit!(C4, "over", "on", fn is_regularized(&self) -> bool { true } over!(); pays!(););
crit!(C5, "over", "own", fn regularization(&self) -> Regularization<f64> { Regularization::ElasticNet(1.0, 2.0) } over!(); pays!(););
struct Spy { at: Rows, ret: Vec<f64> }
thread_local! { static SEEN: RefCell<(Vec<J>, Vec<J>, Vec<J>)> = RefCell::new((vec![], vec![], vec![])); }
impl<T: nnet::Criterion> OptimAlgorithm<nnet::BaseNeuralNet<T>> for Spy {
    fn optimize(&self, m: &nnet::BaseNeuralNet<T>, start: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> {
        let evals: Vec<J> = self.at.iter().map(|w| { let (c, g) = Optimizable::compute_grad(m, w, x, t); obj! { w: izs(w), cost: iz(c), grad: izs(&g) } }).collect();
        SEEN.with(|s| { let mut s = s.borrow_mut(); s.0.push(fxs(start)); s.1.push(J::A(vec![izm(&rows(x)), izm(&rows(t))])); s.2.extend(evals); });
        self.ret.clone()
    }
}
fn net<C: Named + Send + 'static, const A: i64, const B: i64>(out: &mut Out, name: &str, mut g: Gen, crit: C, n: usize) {
    hist(out, name, move |say| {
        let (d, o) = (1 + g.below(3), 1 + g.below(3));
        let size = (d + 1) * o;
        let wide = *g.pick(&[3i64, 3, 3000]);
        let (at, ret) = (some(&mut g, 3, size, -3, 3), some(&mut g, 1, size, -wide, wide).remove(0));
        let (x, t) = (some(&mut g, n, d, -3, 3), some(&mut g, n, o, -3, 3));
        let spy = Spy { at, ret: ret.clone() };
        let mut m = if g.chance(0.5) { NeuralNet::mlp(&[d, o], crit, spy, Act::<A, B>) } else { let mut m = NeuralNet::new(crit, spy); m.add(Box::new(Linear::new(d, o))).add(Box::new(Act::<A, B>)); m };
        for _ in 0..2 {
            let e = obj! { op: "n-train", kind: C::KIND, reg: C::REG, act: vec![A, B], o: o, x: izm(&x), t: izm(&t), ret: izs(&ret) };
            say.about(e.clone());
            let before = m.get_net_weights(0).iter().cloned().collect::<Vec<f64>>();
            COUNT.with(|c| c.set(0));
            SEEN.with(|s| *s.borrow_mut() = (vec![], vec![], vec![]));
            let r = m.train(&mat(&x, d), &mat(&t, o));
            let calls = COUNT.with(|c| c.get());
            let (starts, seen, evals) = SEEN.with(|s| s.borrow().clone());
            let after = m.get_net_weights(0).iter().cloned().collect::<Vec<f64>>();
            let p = m.predict(&mat(&x, d)).map_or(J::A(vec![]), |p| izm(&rows(&p)));
            say.say(with(e, obj! { end: ends(&r), before: fxs(&before), starts: J::A(starts), seen: J::A(seen), evals: J::A(evals), after: izs(&after), regcalls: calls, out: p }));
        }
    });
}
// ---- logistic regression with an own optimiser
impl OptimAlgorithm<rusty_machine::learning::logistic_reg::BaseLogisticRegressor> for Spy {
    fn optimize(&self, _: &rusty_machine::learning::logistic_reg::BaseLogisticRegressor, start: &[f64], x: &Matrix<f64>, y: &Vector<f64>) -> Vec<f64> { rec(obj! { start: start.len(), x: izm(&rows(x)), y: izs(y.data()) }); self.ret.clone() }
}
fn logistic(out: &mut Out, name: &str, mut g: Gen) {
    hist(out, name, move |say| {
        let (n, d) = (if g.chance(0.2) { 50 + g.below(300) } else { 1 + g.below(6) }, 1 + g.below(3));
        let wide = *g.pick(&[3i64, 3, 90_000]);
        let mut ret = some(&mut g, 1, d + 1, -wide, wide).remove(0);
        // whatever the optimiser answers, finite or not
        if g.chance(0.2) { ret[d] = f64::INFINITY; }
        let mut m = LogisticRegressor::new(Spy { at: vec![], ret: ret.clone() });
        for _ in 0..2 {
            let (x, y) = (some(&mut g, n, d, -3, 3), some(&mut g, 1, n, 0, 1).remove(0));
            let e = obj! { op: "l-train", x: izm(&x), y: izs(&y), ret: izs(&ret) };
            say.about(e.clone());
            let r = m.train(&mat(&x, d), &Vector::new(y));
            say.say(with(e, obj! { end: ends(&r), calls: take(), params: m.parameters().map_or(J::A(vec![]), |p| izs(p.data())) }));
        }
    });
}
// ---- cluster initialisers
#[derive(Debug)] struct Given { rows: Rows, cols: usize, refuses: bool }
impl Initializer for Given {
    fn init_centroids(&self, k: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { rec(obj! { k: k, x: izm(&rows(x)) }); if self.refuses { Err(no()) } else { Ok(mat(&self.rows, self.cols)) } }
}
fn cluster(out: &mut Out, name: &str, mut g: Gen) {
    hist(out, name, move |say| {
        let (n, d, k) = if g.chance(0.15) { (20 + g.below(200), 1 + g.below(8), g.below(40)) } else { (1 + g.below(6), 1 + g.below(3), g.below(5)) };
        let x = some(&mut g, n, d, -3, 3);
        let (gn, gc) = (if g.chance(0.15) { k + 1 } else { k }, if g.chance(0.15) { d + 1 } else { d });
        let given = some(&mut g, gn, gc, -3, 3);
        let refuses = g.chance(0.15);
        let e = obj! { op: "i-train", x: izm(&x), k: k, given: izm(&given), gcols: gc, refuses: refuses };
        say.about(with(e.clone(), obj! { calls: J::A(vec![]) }));
        let mut m = KMeansClassifier::new_specified(k, 0, Given { rows: given, cols: gc, refuses });
        let r = m.train(&mat(&x, d));
        say.say(with(e, obj! { calls: take(), end: ends(&r), cents: m.centroids().as_ref().map_or(J::A(vec![]), |c| izm(&rows(c))) }));
    });
}
// ---- densities
struct Dens(f64);
impl Distribution<f64> for Dens { fn pdf(&self, x: f64) -> f64 { if x < 0.0 { 0.0 } else { self.0 / (1.0 + x * x * x * x) } } fn cdf(&self, _: f64) -> f64 { 0.0 } }
impl Distribution<usize> for Dens { fn pdf(&self, x: usize) -> f64 { if x > 40 { 0.0 } else { self.0 / 3f64.powi(x as i32) } } fn cdf(&self, _: usize) -> f64 { 0.0 } }
fn dens(out: &mut Out, mut g: Gen) {
    hist(out, "density", move |say| {
        for i in 0..60 {
            let d = Dens(g.real(0.0, 3.0));
            let (p, l) = if i % 2 == 0 { let x = g.real(-1.0, 30.0); (d.pdf(x), d.logpdf(x)) } else { let x = g.below(44); (d.pdf(x), d.logpdf(x)) };
            say.say(obj! { op: "d-log", end: "ok", p: fx(p), l: fx(l) });
        }
    });
}
fn extend(a: &Args, out: &mut Out) {
    let f = a.pick(1usize, 8);
    let s = a.seed;
    let gen = |k: usize, i: usize| Gen::new(s, (9000 + k * 100000 + i) as u64);
    for i in 0..150 * f { bayes(out, &format!("bayes-{}", i), gen(0, i), 0); if out.give_up() { return; } }
    for i in 0..10 * f { bayes(out, &format!("bayes-large-{}", i), gen(1, i), 1 + i); if out.give_up() { return; } }
    for i in 0..100 * f { classifier(out, &format!("search-{}", i), gen(2, i), i % 12 == 11); if out.give_up() { return; } }
    for i in 0..50 * f { glm_fit(out, &format!("family-{}", i), gen(4, i), i % 5, i % 12 >= 9); if out.give_up() { return; } }
    for i in 0..16 * f {
        let n = if i % 5 == 4 { [25, 120, 300][i % 3] } else { 1 + i % 6 };
        net::<_, 1, 0>(out, &format!("net-plain-{}", i), gen(5, i), C0, n);
        net::<_, 2, -1>(out, &format!("net-over-{}", i), gen(6, i), C1, n);
        net::<_, -1, 3>(out, &format!("net-pays-{}", i), gen(7, i), C2, n);
        net::<_, 1, 2>(out, &format!("net-off-{}", i), gen(8, i), C3, n);
        net::<_, 3, 1>(out, &format!("net-on-{}", i), gen(9, i), C4, n);
        net::<_, 1, -2>(out, &format!("net-both-{}", i), gen(10, i), C5, n);
        if out.give_up() { return; }
    }
    for i in 0..20 * f { logistic(out, &format!("logistic-{}", i), gen(11, i)); }
    for i in 0..60 * f { cluster(out, &format!("cluster-{}", i), gen(12, i)); if out.give_up() { return; } }
    dens(out, gen(13, 0));
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "extend" => extend(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
