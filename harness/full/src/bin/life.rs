//! The life of every model of the library: trainings, failed trainings and queries in any order.
use full::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::glm::{Bernoulli as GBernoulli, GenLinearModel, Normal, Poisson};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess};
use rusty_machine::learning::k_means::{Forgy, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{Bernoulli, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::nnet::{BCECriterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn::{Sigmoid, Tanh};
use rusty_machine::learning::toolkit::kernel::SquaredExp;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::{SupModel, UnSupModel};
use rusty_machine::data::transforms::{minmax::MinMaxScaler, standardize::Standardizer, Invertible, MinMaxFitter, Normalizer, StandardizerFitter, Transformer, TransformFitter};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// x: inputs, y: a class per target (as many as there are targets), r: a number per target
#[derive(Clone)]
struct Data { x: Rows, cols: usize, y: Vec<usize>, r: Vec<f64>, seed: u64 }
impl Data {
    fn mx(&self) -> Matrix<f64> { mat(&self.x, self.cols) }
    fn signs(&self) -> Vector<f64> { Vector::new(self.y.iter().map(|c| *c as f64 * 2.0 - 1.0).collect::<Vec<_>>()) }
    fn bits(&self) -> Vector<f64> { Vector::new(self.y.iter().map(|c| *c as f64).collect::<Vec<_>>()) }
    fn reals(&self) -> Vector<f64> { Vector::new(self.r.clone()) }
    fn hot(&self) -> Matrix<f64> { mat(&self.y.iter().map(|c| (0..2).map(|k| (k == *c) as usize as f64).collect()).collect::<Vec<_>>(), 2) }
    fn column(&self) -> Matrix<f64> { mat(&self.y.iter().map(|c| vec![*c as f64]).collect::<Vec<_>>(), 1) }
    fn labels(&self) -> Vector<usize> { Vector::new(self.y.clone()) }
}
/// what a training or a query ended in; answers in the order of the rows
type Done = Result<Vec<f64>, &'static str>;
/// look: what the accessors show (nothing: there are none)
trait Life { fn train(&mut self, d: &Data) -> Done; fn ask(&self, q: &Matrix<f64>) -> Done; fn look(&self) -> Option<Done>; }
struct M<T, F, G, H>(T, F, G, H);
impl<T, F: Fn(&mut T, &Data) -> Done, G: Fn(&T, &Matrix<f64>) -> Done, H: Fn(&T) -> Option<Done>> Life for M<T, F, G, H> {
    fn train(&mut self, d: &Data) -> Done { (self.1)(&mut self.0, d) }
    fn ask(&self, q: &Matrix<f64>) -> Done { (self.2)(&self.0, q) }
    fn look(&self) -> Option<Done> { (self.3)(&self.0) }
}
fn kind(e: Error) -> &'static str { match *e.kind() { ErrorKind::UntrainedModel => "untrained", ErrorKind::InvalidParameters => "parameters", ErrorKind::InvalidData => "data", ErrorKind::InvalidState => "state", ErrorKind::LinearAlgebra => "algebra" } }
fn shown(x: Option<Vec<f64>>) -> Option<Done> { Some(x.ok_or("untrained")) }
fn at<T>(m: &T, mut f: impl FnMut(&T, usize) -> Vec<f64>, n: usize) -> Option<Vec<f64>> { Some((0..n).flat_map(|i| f(m, i)).collect()) }
type Maker = Box<dyn Fn() -> Box<dyn Life>>;
macro_rules! sup {
    ($m:expr, $t:ident, $out:expr) => { sup!($m, $t, $out, |_: &_| None) };
    ($m:expr, $t:ident, $out:expr, $look:expr) => { Box::new(|| Box::new(M($m, |m: &mut _, d: &Data| SupModel::train(m, &d.mx(), &d.$t()).map(|_| vec![]).map_err(kind), |m: &_, q: &Matrix<f64>| SupModel::predict(m, q).map($out).map_err(kind), $look)) as Box<dyn Life>) as Maker }
}
macro_rules! unsup {
    ($m:expr, $out:expr) => { unsup!($m, $out, |_: &_| None) };
    ($m:expr, $out:expr, $look:expr) => { Box::new(|| Box::new(M($m, |m: &mut _, d: &Data| UnSupModel::train(m, &d.mx()).map(|_| vec![]).map_err(kind), |m: &_, q: &Matrix<f64>| UnSupModel::predict(m, q).map($out).map_err(kind), $look)) as Box<dyn Life>) as Maker }
}
fn v(x: Vector<f64>) -> Vec<f64> { x.into_vec() }
fn m(x: Matrix<f64>) -> Vec<f64> { x.into_vec() }
fn u(x: Vector<usize>) -> Vec<f64> { x.into_vec().into_iter().map(|c| c as f64).collect() }
fn o(x: Vector<Option<usize>>) -> Vec<f64> { x.into_vec().into_iter().map(|c| c.map(|k| k as f64).unwrap_or(-1.0)).collect() }
/// name, whether it has targets, whether it continues, the width it is fixed to, whether any ordinary data will do, how to make one
fn models() -> Vec<(&'static str, bool, bool, Option<usize>, bool, Maker)> {
    fn gmm(c: CovOption) -> GaussianMixtureModel { let mut g = GaussianMixtureModel::new(2); g.set_max_iters(4); g.cov_option = c; g }
    fn mixture(g: &GaussianMixtureModel) -> Option<Done> { shown(g.means().map(|c| c.data().iter().cloned().chain(g.covariances().unwrap().iter().flat_map(|c| c.data().clone())).chain(g.mixture_weights().data().clone()).collect())) }
    fn parts(p: &PCA) -> Option<Done> { Some(p.components().map(|c| c.data().clone()).map_err(kind)) }
    fn db() -> DBSCAN { let mut d = DBSCAN::new(1.5, 2); d.set_predictive(true); d }
    fn svm() -> SVM<SquaredExp> { let mut s = SVM::new(SquaredExp::new(1.0, 1.0), 0.3); s.optim_iters = 12; s }
    vec![
        ("lin", true, false, None, false, sup!(LinRegressor::default(), reals, v, |m: &LinRegressor| shown(m.parameters().map(|p| p.data().clone())))),
        ("lin-opt", true, false, None, true, Box::new(|| Box::new(M(LinRegressor::default(), |m: &mut LinRegressor, d: &Data| { m.train_with_optimization(&d.mx(), &d.reals()); Ok(vec![]) }, |m: &LinRegressor, q: &Matrix<f64>| m.predict(q).map(v).map_err(kind), |m: &LinRegressor| shown(m.parameters().map(|p| p.data().clone())))) as Box<dyn Life>) as Maker),
        ("logit", true, false, None, true, sup!(LogisticRegressor::default(), bits, v, |m: &LogisticRegressor<_>| shown(m.parameters().map(|p| p.data().clone())))),
        ("logit-cg", true, false, None, true, sup!(LogisticRegressor::new(ConjugateGD { iters: 5, ..ConjugateGD::default() }), bits, v, |m: &LogisticRegressor<_>| shown(m.parameters().map(|p| p.data().clone())))),
        ("glm-normal", true, false, None, false, sup!(GenLinearModel::new(Normal), reals, v)),
        ("glm-bernoulli", true, false, None, false, sup!(GenLinearModel::new(GBernoulli), bits, v)),
        ("glm-poisson", true, false, None, false, sup!(GenLinearModel::new(Poisson), bits, v)),
        ("bayes-gaussian", true, false, None, false, sup!(NaiveBayes::<Gaussian>::new(), hot, m, |m: &NaiveBayes<Gaussian>| shown(m.distr().map(|l| l.theta().data().iter().chain(l.sigma().data()).cloned().chain(m.class_prior().unwrap().iter().cloned()).chain(Some(*m.cluster_count().unwrap() as f64)).collect())))),
        ("bayes-bernoulli", true, false, None, true, sup!(NaiveBayes::<Bernoulli>::new(), hot, m, |m: &NaiveBayes<Bernoulli>| shown(m.distr().map(|l| l.log_probs().data().iter().cloned().chain(m.class_prior().unwrap().iter().cloned()).chain(Some(*m.cluster_count().unwrap() as f64)).collect())))),
        ("bayes-multinomial", true, false, None, true, sup!(NaiveBayes::<Multinomial>::new(), hot, m, |m: &NaiveBayes<Multinomial>| shown(m.distr().map(|l| l.log_probs().data().iter().cloned().chain(m.class_prior().unwrap().iter().cloned()).chain(Some(*m.cluster_count().unwrap() as f64)).collect())))),
        ("svm", true, false, None, true, sup!(svm(), signs, v)),
        ("gp", true, false, None, true, sup!(GaussianProcess::new(SquaredExp::new(1.0, 1.0), ConstMean::default(), 0.5), reals, v)),
        ("gp-exact", true, false, None, false, sup!(GaussianProcess::new(SquaredExp::new(1.0, 1.0), ConstMean::default(), 0.0), reals, v)),
        ("knn-brute", true, false, None, false, sup!(KNNClassifier::new_specified(2, BruteForce::new()), labels, u)),
        ("knn-kd", true, false, None, false, sup!(KNNClassifier::new_specified(2, KDTree::new(2)), labels, u)),
        ("knn-ball", true, false, None, false, sup!(KNNClassifier::new_specified(2, BallTree::new(2)), labels, u)),
        ("net-sgd", true, true, Some(2), true, sup!(NeuralNet::mlp(&[2, 3, 1], BCECriterion::default(), StochasticGD::new(0.2, 0.1, 2), Sigmoid), column, m, |m: &NeuralNet<_, _>| shown(at(m, |m, i| { let w = m.get_net_weights(i); w.iter().cloned().collect() }, 3)))),
        ("net-ada", true, true, Some(2), true, sup!(NeuralNet::mlp(&[2, 2, 1], MSECriterion::default(), AdaGrad::new(0.5, 1.0, 2), Tanh), column, m, |m: &NeuralNet<_, _>| shown(at(m, |m, i| { let w = m.get_net_weights(i); w.iter().cloned().collect() }, 3)))),
        ("net-rms", true, true, Some(2), true, sup!(NeuralNet::mlp(&[2, 2, 2], BCECriterion::default(), RMSProp::new(0.05, 0.9, 1e-5, 2), Sigmoid), hot, m, |m: &NeuralNet<_, _>| shown(at(m, |m, i| { let w = m.get_net_weights(i); w.iter().cloned().collect() }, 3)))),
        ("net-gd", true, true, Some(2), true, sup!(NeuralNet::mlp(&[2, 2, 1], MSECriterion::default(), GradientDesc::new(0.1, 4), Tanh), column, m, |m: &NeuralNet<_, _>| shown(at(m, |m, i| { let w = m.get_net_weights(i); w.iter().cloned().collect() }, 3)))),
        ("net-default", true, true, Some(2), true, sup!(NeuralNet::default(&[2, 2]), hot, m, |m: &NeuralNet<_, _>| shown(at(m, |m, i| { let w = m.get_net_weights(i); w.iter().cloned().collect() }, 1)))),
        ("kmeans-forgy", false, false, None, false, unsup!(KMeansClassifier::new_specified(2, 10, Forgy), u, |m: &KMeansClassifier<Forgy>| shown(m.centroids().as_ref().map(|c| c.data().clone())))),
        ("kmeans-partition", false, false, None, false, unsup!(KMeansClassifier::new_specified(2, 10, RandomPartition), u, |m: &KMeansClassifier<RandomPartition>| shown(m.centroids().as_ref().map(|c| c.data().clone())))),
        ("kmeans-plus", false, false, None, false, unsup!(KMeansClassifier::new_specified(2, 10, KPlusPlus), u, |m: &KMeansClassifier<KPlusPlus>| shown(m.centroids().as_ref().map(|c| c.data().clone())))),
        ("dbscan", false, false, None, true, unsup!(db(), o, |m: &DBSCAN| shown(m.clusters().map(|c| o(c.clone()))))),
        ("gmm-full", false, false, None, false, unsup!(gmm(CovOption::Full), m, mixture)),
        ("gmm-diagonal", false, false, None, false, unsup!(gmm(CovOption::Diagonal), m, mixture)),
        ("gmm-regularized", false, false, None, false, unsup!(gmm(CovOption::Regularized(0.25)), m, mixture)),
        ("pca", false, false, None, true, unsup!(PCA::default(), m, parts)),
        ("pca-two", false, false, None, false, unsup!(PCA::new(2, true), m, parts)),
    ]
}

/// what maps rows, but leads no life of its own
fn mappers() -> Vec<(&'static str, bool, bool, Option<usize>, bool, Maker)> {
    macro_rules! trans { ($f:expr, $t:ident, $call:ident) => { Box::new(|| Box::new(M(std::cell::RefCell::new(None), |m: &mut std::cell::RefCell<Option<$t<f64>>>, d: &Data| $f.fit(&d.mx()).map(|t| { m.replace(Some(t)); vec![] }).map_err(kind), |c: &std::cell::RefCell<Option<$t<f64>>>, q: &Matrix<f64>| c.borrow_mut().as_mut().unwrap().$call(q.clone()).map(m).map_err(kind), |_: &_| None)) as Box<dyn Life>) as Maker } }
    fn net() -> NeuralNet<MSECriterion, StochasticGD> { let mut n = NeuralNet::mlp(&[2, 4, 3, 2], MSECriterion::default(), StochasticGD::new(0.1, 0.1, 3), Tanh); n.add(Box::new(rusty_machine::learning::nnet::net_layer::Linear::without_bias(2, 2))); n }
    vec![
        ("minmax", false, false, None, true, trans!(MinMaxFitter::new(-1.0, 2.0), MinMaxScaler, transform)),
        ("standard", false, false, None, true, trans!(StandardizerFitter::new(1.0, 3.0), Standardizer, transform)),
        ("minmax-back", false, false, None, true, trans!(MinMaxFitter::new(-1.0, 2.0), MinMaxScaler, inv_transform)),
        ("standard-back", false, false, None, true, trans!(StandardizerFitter::new(1.0, 3.0), Standardizer, inv_transform)),
        ("normalize", false, false, None, true, Box::new(|| Box::new(M((), |_: &mut (), _: &Data| Ok(vec![]), |_: &(), q: &Matrix<f64>| Normalizer::default().transform(q.clone()).map(m).map_err(kind), |_: &_| None)) as Box<dyn Life>) as Maker),
        ("bayes-log", true, false, None, false, Box::new(|| Box::new(M(NaiveBayes::<Gaussian>::new(), |m: &mut NaiveBayes<_>, d: &Data| m.train(&d.mx(), &d.hot()).map(|_| vec![]).map_err(kind), |b: &NaiveBayes<_>, q: &Matrix<f64>| b.get_log_probs(q).map(m).map_err(kind), |_: &_| None)) as Box<dyn Life>) as Maker),
        ("gp-mean", true, false, None, true, Box::new(|| Box::new(M(GaussianProcess::new(SquaredExp::new(1.0, 1.0), ConstMean::default(), 0.5), |m: &mut GaussianProcess<_, _>, d: &Data| m.train(&d.mx(), &d.reals()).map(|_| vec![]).map_err(kind), |p: &GaussianProcess<_, _>, q: &Matrix<f64>| p.get_posterior(q).map(|(w, c)| (0..w.size()).flat_map(|i| vec![w[i], c[[i, i]]]).collect()).map_err(kind), |_: &_| None)) as Box<dyn Life>) as Maker),
        ("net-deep", true, true, Some(2), true, sup!(net(), hot, m)),
    ]
}
fn print(d: &Result<Done, ()>) -> (&'static str, &'static str, String) {
    match d { Err(_) => ("panic", "", String::new()), Ok(Err(k)) => ("err", k, String::new()), Ok(Ok(b)) => ("ok", "", format!("{}:{:016x}", b.len(), b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ x.to_bits()).wrapping_mul(0x100000001b3)))) }
}
fn train(m: &mut Box<dyn Life>, d: &Data) -> Result<Done, ()> { rand::script::seed(d.seed); catch_unwind(AssertUnwindSafe(|| m.train(d))).map_err(|_| ()) }
fn ask(m: &Box<dyn Life>, q: &Matrix<f64>) -> Result<Done, ()> { catch_unwind(AssertUnwindSafe(|| m.ask(q))).map_err(|_| ()) }
fn look(m: &Box<dyn Life>) -> Option<Result<Done, ()>> { match catch_unwind(AssertUnwindSafe(|| m.look())) { Ok(None) => None, Ok(Some(d)) => Some(Ok(d)), Err(_) => Some(Err(())) } }
fn make(f: &Maker) -> Box<dyn Life> { rand::script::seed(77); f() }
/// two groups of rows, one per class, well enough spread for every model
fn data(g: &mut Gen, n: usize, cols: usize) -> Data {
    let mut x = vec![];
    let mut y = vec![];
    let mut r = vec![];
    for i in 0..n {
        let c = if i < 2 { i } else { g.below(2) };
        x.push((0..cols).map(|_| c as f64 * 1.5 + g.int(0, 24) as f64 / 16.0).collect());
        y.push(c);
        r.push(g.int(-16, 16) as f64 / 8.0);
    }
    Data { x, cols, y, r, seed: g.next() }
}
/// a table some models refuse, alike to one they took in some cases
fn refusable(g: &mut Gen, fixed: Option<usize>, targets: bool, before: &Data) -> (Data, bool) {
    let cols = if g.chance(0.5) { before.cols } else { fixed.unwrap_or(1 + g.below(4)) };
    let n = *g.pick(&[1, 2, 3, cols, cols + 1, cols + 4, cols + 8, 24]);
    let mut d = if cols == before.cols && g.chance(0.3) { before.clone() } else { data(g, n, cols) };
    let n = d.x.len();
    d.seed = g.next();
    let (i, j) = (if g.chance(0.5) { n - 1 } else { g.below(n) }, g.below(cols));
    match g.below(9) {
        0 => { let r = d.x[0].clone(); for v in d.x.iter_mut() { *v = r.clone(); } }
        1 => d.x[i][j] = f64::NAN,
        2 => d.x[i][j] = if g.chance(0.5) { f64::INFINITY } else { f64::NEG_INFINITY },
        3 => for r in d.x.iter_mut() { r[j] = 1.0; },
        4 => if cols > 1 { for r in d.x.iter_mut() { r[j] = r[(j + 1) % cols] * 2.0; } },
        5 => { let r = d.x[0].clone(); d.x[i] = r; }
        6 => for c in d.y.iter_mut() { *c = 0; },
        7 => if targets { let k = if g.chance(0.5) { n + 1 } else { n - 1 }; let more = data(g, n + 3, cols); d.y = more.y[..k].to_vec(); d.r = more.r[..k].to_vec(); return (d, false); },
        _ => {}
    }
    (d, true)
}
fn life(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 351);
    let count = models().len();
    let plain = count * a.pick(24, 150);
    for i in 0..plain + count * a.pick(14, 100) {
        let mut h = Gen::new(g.next(), 1);
        let which = i % count;
        // trained, then trained in vain (twice, maybe), then asked
        let vain = i >= plain;
        let name = format!("{}-{}{}", models()[which].0, if vain { "vain-" } else { "" }, i / count);
        hist(out, &name, move |t| {
            let g = &mut h;
            let (_, targets, continues, fixed, easy, f) = models().swap_remove(which);
            t.say(obj! { op: "new", continues: continues });
            let mut m = make(&f);
            let mut tried: Vec<Data> = vec![];
            let mut counts: Vec<usize> = vec![];
            let steps = 3 + g.below(5);
            for step in 0..steps {
                if if vain { step == 0 || step == 1 || (step > 2 && g.chance(0.6)) } else { g.chance(0.45) } {
                    let cols = fixed.unwrap_or(1 + g.below(3));
                    let small = g.chance(0.2);
                    let n = if small { 1 + g.below(2) } else { cols + 3 + g.below(4) };
                    let mut d = data(g, n, cols);
                    let mut paired = true;
                    let mut odd = small;
                    if g.chance(0.12) { odd = true; let r = d.x[0].clone(); for v in d.x.iter_mut() { *v = r.clone(); } }
                    if targets && g.chance(0.25) {
                        paired = false;
                        let k = match g.below(4) { 0 => n + 1, 1 => n + 3, 2 => n - 1, _ => 2 * n };
                        let more = data(g, k + 2, cols);
                        d.y = more.y[..k].to_vec(); d.r = more.r[..k].to_vec();
                        // targets that repeat those of the rows, and go on
                    }
                    if vain && step == 0 { let n = cols + 4 + g.below(4); d = data(g, n, cols); paired = true; odd = false; }
                    if vain && step > 0 && g.chance(0.9) {
                        for _ in 0..40 {
                            let (d2, p2) = refusable(g, fixed, targets, &tried[0]);
                            let mut other = make(&f);
                            if let Ok(Err(_)) = train(&mut other, &d2) { d = d2; paired = p2; odd = true; break; }
                        }
                    }
                    let (n, cols) = (d.x.len(), d.cols);
                    tried.push(d.clone());
                    let e = obj! { op: "train", d: tried.len(), paired: paired, easy: easy && !odd, n: n, targets: d.y.len(), cols: cols };
                    let (end, _, _) = print(&train(&mut m, &d));
                    t.say(with(e, obj! { end: end }));
                    // what a panic leaves behind is not judged
                    if end == "panic" { return; }
                    if end == "ok" { if !continues { counts.clear(); } counts.push(tried.len() - 1); }
                } else {
                    let cols = counts.last().map(|k| tried[*k].cols).or(fixed).unwrap_or(2);
                    let k = 1 + g.below(4);
                    let q = if !counts.is_empty() && g.chance(0.3) { tried[*counts.last().unwrap()].mx() } else { let d = data(g, k, cols); d.mx() };
                    let mut twin = make(&f);
                    for k in &counts { let _ = train(&mut twin, &tried[*k]); }
                    let told: Vec<usize> = counts.iter().map(|k| k + 1).collect();
                    let report = |op: &str, one: &Result<Done, ()>, two: &Result<Done, ()>, other: &Result<Done, ()>| {
                        let ((end, kind, once), (_, _, twice), (tend, _, again)) = (print(one), print(two), print(other));
                        obj! { op: op, twin: told, end: end, kind: kind, once: once, twice: twice, tend: tend, again: again }
                    };
                    let looked = if vain || g.chance(0.5) { look(&m) } else { None };
                    if vain || g.chance(0.9) { t.say(report("predict", &ask(&m, &q), &ask(&m, &q), &ask(&twin, &q))); }
                    if let (Some(l), Some(n), Some(w)) = (looked, look(&m), look(&twin)) { t.say(report("look", &l, &n, &w)); }
                }
            }
        });
        if out.give_up() { return; }
    }
    let new = |c: bool| obj! { op: "new", continues: c };
    let tr = |d: usize, paired: bool, end: &str| obj! { op: "train", d: d, paired: paired, easy: false, end: end };
    let see = |op: &str, twin: &[i64], end: &str, kind: &str, a: &str, b: &str, tend: &str, c: &str| obj! { op: op, twin: twin.iter().map(|k| Raw(J::I(*k))).collect::<Vec<_>>(), end: end, kind: kind, once: a, twice: b, tend: tend, again: c };
    let pr = |twin: &[i64], end: &str, a: &str, b: &str, tend: &str, c: &str| see("predict", twin, end, if end == "err" { "untrained" } else { "" }, a, b, tend, c);
    out.case("check-life", vec![new(false), pr(&[], "err", "", "", "err", ""), tr(1, true, "ok"), tr(2, false, "err"), tr(3, true, "err"), pr(&[1], "ok", "a", "a", "ok", "a"), tr(4, true, "ok"), pr(&[4], "ok", "b", "b", "ok", "b")]);
    out.case("check-net", vec![new(true), pr(&[], "ok", "a", "a", "ok", "a"), tr(1, true, "ok"), tr(2, true, "ok"), pr(&[1, 2], "ok", "c", "c", "ok", "c")]);
    out.case("check-look", vec![new(false), see("look", &[], "err", "untrained", "", "", "err", ""), tr(1, true, "ok"), see("look", &[1], "ok", "", "a", "a", "ok", "a")]);
    out.neg("neg-kind", vec![new(false), see("predict", &[], "err", "data", "", "", "err", "")]);
    out.neg("neg-shows", vec![new(false), see("look", &[], "ok", "", "a", "a", "ok", "a")]);
    out.neg("neg-shows-other", vec![new(false), tr(1, true, "ok"), tr(2, true, "ok"), see("look", &[2], "ok", "", "a", "a", "ok", "b")]);
    out.neg("neg-guess", vec![new(false), pr(&[], "ok", "a", "a", "ok", "a")]);
    out.neg("neg-untrained-panic", vec![new(false), pr(&[], "panic", "", "", "panic", "")]);
    out.neg("neg-mispaired", vec![new(false), tr(1, false, "ok")]);
    out.neg("neg-panics", vec![new(false), tr(1, true, "panic")]);
    out.neg("neg-remembers", vec![new(false), tr(1, true, "ok"), tr(2, true, "ok"), pr(&[2], "ok", "a", "a", "ok", "b")]);
    out.neg("neg-peeks", vec![new(false), tr(1, true, "ok"), pr(&[1], "ok", "a", "b", "ok", "a")]);
    out.neg("neg-forgets", vec![new(false), tr(1, true, "ok"), tr(2, true, "err"), pr(&[1], "err", "", "", "ok", "a")]);
    out.neg("neg-net-forgets", vec![new(true), tr(1, true, "ok"), tr(2, true, "ok"), pr(&[2], "ok", "a", "a", "ok", "a")]);
}
/// batches of rows answered by one trained model
fn batch(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 361);
    let all = || { let mut m = models(); m.extend(mappers()); m };
    let count = all().len();
    let plain = count * a.pick(20, 200);
    for i in 0..plain + count * a.pick(2, 12) {
        let mut h = Gen::new(g.next(), 1);
        let which = i % count;
        // batches of hundreds of rows
        let crowd = i >= plain;
        let crowded = if (i / count) % 2 == 0 { 130 + h.below(170) } else { 520 + h.below(600) };
        hist(out, &format!("{}-{}{}", all()[which].0, if crowd { "crowd-" } else { "" }, i / count), move |t| {
            let g = &mut h;
            let (_, _, _, fixed, _, f) = all().swap_remove(which);
            let mut m = make(&f);
            let mut cols = fixed.unwrap_or(1 + g.below(4));
            let n = cols + 4 + g.below(6);
            let mut d = data(g, n, cols);
            // not every model learns from every table (two components of one column, collapsed mixtures)
            for _ in 0..20 { if let (Ok(Ok(_)), Ok(Ok(_))) = (train(&mut m, &d), ask(&m, &d.mx())) { break; } cols = fixed.unwrap_or(2 + g.below(3)); let n = cols + 5 + g.below(6); d = data(g, n, cols); }
            let d = d;
            let mut pool: Rows = vec![];
            let n = 4 + g.below(9);
            while pool.len() < n {
                // rows near one another (at many scales), of the training data, anywhere
                let r = match g.below(if pool.is_empty() { 5 } else { 9 }) { 4 => { let s = [0.5, 1.0, 1.5][g.below(3)]; let b = d.x[g.below(d.x.len())].clone(); b.iter().map(|v| v + g.real(-s, s)).collect() } 5..=8 => { let s = [0.05, 0.2, 0.7, 1.5][g.below(4)]; let b = pool[g.below(pool.len())].clone(); b.iter().map(|v| v + g.real(-s, s)).collect() } 0 => d.x[g.below(d.x.len())].clone(), 1 => (0..cols).map(|_| g.real(-1.0, 4.0)).collect(), 2 => (0..cols).map(|_| g.int(-3, 5) as f64).collect(), _ => data(g, 1, cols).x.remove(0) };
                if !pool.contains(&r) && r.iter().any(|v| *v != 0.0) { pool.push(r); }
            }
            // a path leading away from the data, in steps of some length
            let step = [0.1, 0.3, 0.6, 1.0][g.below(4)];
            let dir: Vec<f64> = (0..cols).map(|_| g.real(-1.0, 1.0)).collect();
            let len = dir.iter().map(|v| v * v).sum::<f64>().sqrt();
            let from = d.x[g.below(d.x.len())].clone();
            let path: Vec<usize> = (1..8).filter_map(|k| {
                let r: Vec<f64> = from.iter().zip(&dir).map(|(x, v)| x + v / len * step * k as f64).collect();
                if pool.contains(&r) { None } else { pool.push(r); Some(pool.len() - 1) }
            }).collect();
            let n = pool.len();
            let mut say = |b: Vec<usize>| {
                let q: Rows = b.iter().map(|k| pool[*k].clone()).collect();
                let e = obj! { op: "ask", rows: b.iter().map(|k| k + 1).collect::<Vec<_>>() };
                t.about(e.clone());
                let (end, ans) = match ask(&m, &mat(&q, cols)) { Err(_) => ("panic", vec![]), Ok(Err(_)) => ("err", vec![]), Ok(Ok(v)) => ("ok", if v.len() % b.len() == 0 && !v.is_empty() { v.chunks(v.len() / b.len()).map(|c| Raw(fxs(c))).collect() } else { vec![] }) };
                t.say(with(e, obj! { end: end, ans: ans }));
            };
            let mut single: Vec<usize> = (0..n).collect();
            for k in 0..n { let j = k + g.below(n - k); single.swap(k, j); }
            if crowd {
                for k in single.iter().take(8) { say(vec![*k]); }
                say((0..crowded).map(|k| if k + 8 < crowded { single[g.below(n)] } else { single[crowded - 1 - k] }).collect());
                return;
            }
            // some rows alone first, some first met in a batch
            for k in single.iter().take(n / 2) { say(vec![*k]); }
            for _ in 0..5 { let len = 1 + g.below(12); let b = (0..len).map(|_| g.below(n)).collect(); say(b); }
            say(single.clone());
            say((0..n).collect());
            say(path.clone());
            say(path.iter().rev().cloned().collect());
            // neighbours next to each other
            let mut near: Vec<usize> = (0..n).collect();
            near.sort_by(|i, j| pool[*i].partial_cmp(&pool[*j]).unwrap());
            say(near.clone());
            near.reverse();
            say(near);
            for k in single.iter().skip(n / 2) { say(vec![*k]); }
        });
        if out.give_up() { return; }
    }
    let say = |rows: Vec<usize>, ans: &[&[f64]]| obj! { op: "ask", rows: rows, end: "ok", ans: ans.iter().map(|c| Raw(fxs(c))).collect::<Vec<_>>() };
    out.case("check-batch", vec![say(vec![1], &[&[2.0]]), say(vec![2, 1, 2], &[&[3.0], &[2.0], &[3.0]]), say(vec![2], &[&[3.0]])]);
    out.neg("neg-order", vec![say(vec![1], &[&[2.0]]), say(vec![2, 1], &[&[2.0], &[3.0]])]);
    out.neg("neg-few", vec![say(vec![1, 1], &[&[2.0]])]);
    out.neg("neg-twins", vec![say(vec![1, 1], &[&[2.0], &[2.5]])]);
    out.neg("neg-later", vec![say(vec![1, 2], &[&[2.0], &[5.0]]), say(vec![2], &[&[5.0001]])]);
    out.neg("neg-error", vec![obj! { op: "ask", rows: vec![1usize], end: "err", ans: Vec::<J>::new() }]);
}
/// several objects in one program
#[derive(Clone, Copy)]
enum Op { Train(usize), Ask(usize), Look }
struct Plan { kinds: Vec<usize>, datas: Vec<Data>, asks: Vec<Rows>, cols: usize, scripts: Vec<Vec<Op>> }
fn everything() -> Vec<(&'static str, bool, bool, Option<usize>, bool, Maker)> { let mut m = models(); m.extend(mappers()); m.extend(relatives()); m }
/// the same classes with other options
fn relatives() -> Vec<(&'static str, bool, bool, Option<usize>, bool, Maker)> {
    fn gmm(k: usize, c: CovOption, iters: usize) -> GaussianMixtureModel { let mut g = GaussianMixtureModel::new(k); g.set_max_iters(iters); g.cov_option = c; g }
    fn db(e: f64, k: usize) -> DBSCAN { let mut d = DBSCAN::new(e, k); d.set_predictive(true); d }
    fn svm(l: f64, c: f64, n: usize) -> SVM<SquaredExp> { let mut s = SVM::new(SquaredExp::new(l, 1.0), c); s.optim_iters = n; s }
    macro_rules! trans { ($f:expr, $t:ident) => { Box::new(|| Box::new(M(std::cell::RefCell::new(None), |m: &mut std::cell::RefCell<Option<$t<f64>>>, d: &Data| $f.fit(&d.mx()).map(|t| { m.replace(Some(t)); vec![] }).map_err(kind), |c: &std::cell::RefCell<Option<$t<f64>>>, q: &Matrix<f64>| c.borrow_mut().as_mut().unwrap().transform(q.clone()).map(m).map_err(kind), |_: &_| None)) as Box<dyn Life>) as Maker } }
    vec![
        ("logit-slow", true, false, None, true, sup!(LogisticRegressor::new(GradientDesc::new(0.01, 7)), bits, v)),
        ("svm-soft", true, false, None, true, sup!(svm(2.0, 0.3, 12), signs, v)),
        ("svm-short", true, false, None, true, sup!(svm(1.0, 1.0, 3), signs, v)),
        ("gp-noisy", true, false, None, true, sup!(GaussianProcess::new(SquaredExp::new(1.0, 1.0), ConstMean::default(), 2.0), reals, v)),
        ("gp-long", true, false, None, true, sup!(GaussianProcess::new(SquaredExp::new(2.0, 1.0), ConstMean::default(), 0.5), reals, v)),
        ("knn-three", true, false, None, false, sup!(KNNClassifier::new_specified(3, KDTree::new(5)), labels, u)),
        ("knn-one", true, false, None, false, sup!(KNNClassifier::new_specified(1, BallTree::new(1)), labels, u)),
        ("net-more", true, true, Some(2), true, sup!(NeuralNet::mlp(&[2, 3, 1], BCECriterion::default(), StochasticGD::new(0.1, 0.4, 3), Tanh), column, m)),
        ("net-other", true, true, Some(2), true, sup!(NeuralNet::mlp(&[2, 2, 1], MSECriterion::default(), AdaGrad::new(0.1, 0.5, 3), Sigmoid), column, m)),
        ("kmeans-three", false, false, None, false, unsup!(KMeansClassifier::new_specified(3, 10, Forgy), u)),
        ("kmeans-one-round", false, false, None, false, unsup!(KMeansClassifier::new_specified(2, 1, KPlusPlus), u)),
        ("dbscan-wide", false, false, None, true, unsup!(db(3.0, 2), o)),
        ("dbscan-dense", false, false, None, true, unsup!(db(1.5, 4), o)),
        ("gmm-one", false, false, None, false, unsup!(gmm(1, CovOption::Full, 4), m)),
        ("gmm-more", false, false, None, false, unsup!(gmm(2, CovOption::Regularized(1.0), 2), m)),
        ("pca-raw", false, false, None, false, unsup!(PCA::new(1, false), m)),
        ("minmax-unit", false, false, None, true, trans!(MinMaxFitter::new(0.0, 1.0), MinMaxScaler)),
        ("standard-unit", false, false, None, true, trans!(StandardizerFitter::new(0.0, 1.0), Standardizer)),
    ]
}
fn plan(seed: u64, which: usize) -> Plan {
    let mut h = Gen::new(seed, 1);
    let g = &mut h;
    let all = everything();
    let mut kinds = vec![which];
    for _ in 0..1 + g.below(3) { 
        let family = |k: usize| all[k].0.split('-').next().unwrap();
        let kin: Vec<usize> = (0..all.len()).filter(|k| family(*k) == family(which)).collect();
        kinds.push(match g.below(10) { 0..=3 => which, 4..=7 => *g.pick(&kin), _ => g.below(all.len()) });
    }
    let cols = if kinds.iter().any(|k| all[*k].3.is_some()) { 2 } else { 1 + g.below(3) };
    let n = cols + 3 + g.below(5);
    // data alike in shape, rows, targets or draws
    let one = data(g, n, cols);
    let mut two = data(g, n, cols); if g.chance(0.5) { two.x = one.x.clone(); } else { two.y = one.y.clone(); two.r = one.r.clone(); } if g.chance(0.5) { two.seed = one.seed; }
    let three = data(g, n, cols);
    let k = cols + 3 + g.below(5);
    let four = data(g, k, cols);
    let datas = vec![one, two, three, four];
    let mut asks = vec![datas[0].x.clone(), datas[2].x.clone()];
    for _ in 0..2 { let k = 1 + g.below(4); asks.push(data(g, k, cols).x); }
    let scripts = kinds.iter().map(|_| {
        let len = 3 + g.below(5);
        (0..len).map(|i| if (i == 0 && g.chance(0.8)) || g.chance(0.3) { Op::Train(g.below(4)) } else if g.chance(0.8) { Op::Ask(g.below(4)) } else { Op::Look }).collect()
    }).collect();
    Plan { kinds, datas, asks, cols, scripts }
}
fn said(d: &Result<Done, ()>) -> String { let (a, b, c) = print(d); format!("{}/{}/{}", a, b, c) }
fn act(m: &mut Box<dyn Life>, p: &Plan, op: Op) -> String {
    match op { Op::Train(d) => said(&train(m, &p.datas[d])), Op::Ask(q) => said(&ask(m, &mat(&p.asks[q], p.cols))), Op::Look => look(m).map(|d| said(&d)).unwrap_or("none".to_string()) }
}
/// the object alone, in a program of its own
fn solo(seed: u64, which: usize, o: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let p = plan(seed, which);
    let mut m = make(&everything()[p.kinds[o]].5);
    for op in &p.scripts[o] { println!("={}", act(&mut m, &p, *op)); }
}
fn alone(seed: u64, which: usize, o: usize) -> Vec<String> {
    let r = std::process::Command::new(std::env::current_exe().unwrap()).env("WORLD_SOLO", format!("{} {} {}", seed, which, o)).output().unwrap();
    String::from_utf8_lossy(&r.stdout).lines().filter(|l| l.starts_with('=')).map(|l| l[1..].to_string()).collect()
}
fn world(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 381);
    let count = everything().len();
    for i in 0..count * a.pick(7, 60) {
        let (seed, which) = (g.next(), i % count);
        let mut h = Gen::new(g.next(), 1);
        hist(out, &format!("{}-{}", everything()[which].0, i / count), move |t| {
            let g = &mut h;
            let p = plan(seed, which);
            let n = p.kinds.len();
            let born = |w: &str, o: usize| t.say(obj! { op: "new", w: w, o: o + 1, kind: everything()[p.kinds[o]].0 });
            let event = |w: &str, o: usize, op: Op, ans: String| { let (k, d) = match op { Op::Train(d) => ("train", d + 1), Op::Ask(q) => ("ask", q + 1), Op::Look => ("look", 0) }; t.say(obj! { op: k, w: w, o: o + 1, d: d, ans: ans }) };
            for o in 0..n { born("alone", o); let s = alone(seed, which, o); for (k, op) in p.scripts[o].iter().enumerate() { event("alone", o, *op, s.get(k).cloned().unwrap_or("lost".to_string())); } }
            for w in &["mixed", "again"] {
                let mut live: Vec<Option<Box<dyn Life>>> = (0..n).map(|_| None).collect();
                let mut at = vec![0; n];
                // all made first, or when their time comes
                if g.chance(0.5) { for o in 0..n { born(w, o); live[o] = Some(make(&everything()[p.kinds[o]].5)); } }
                while (0..n).any(|o| at[o] < p.scripts[o].len()) {
                    let o = g.below(n);
                    // some steps at a stretch, some one by one
                    for _ in 0..1 + g.below(2) {
                        if at[o] == p.scripts[o].len() { break; }
                        if live[o].is_none() { born(w, o); live[o] = Some(make(&everything()[p.kinds[o]].5)); }
                        let op = p.scripts[o][at[o]];
                        at[o] += 1;
                        event(w, o, op, act(live[o].as_mut().unwrap(), &p, op));
                    }
                }
            }
            // at the same time, some times over; every different story is told
            let start = std::sync::Barrier::new(n);
            let said: Vec<Vec<Vec<String>>> = std::thread::scope(|s| {
                let hands: Vec<_> = (0..n).map(|o| { let (p, start) = (&p, &start); s.spawn(move || {
                    let mut stories: Vec<Vec<String>> = vec![];
                    for _ in 0..25 {
                        let mut m = make(&everything()[p.kinds[o]].5);
                        start.wait();
                        let story = p.scripts[o].iter().map(|op| act(&mut m, p, *op)).collect();
                        if !stories.contains(&story) { stories.push(story); }
                    }
                    stories
                }) }).collect();
                hands.into_iter().map(|h| h.join().unwrap_or(vec![vec![]])).collect()
            });
            for o in 0..n { for (r, story) in said[o].iter().enumerate() {
                let w = format!("threads-{}", r + 1);
                born(&w, o);
                for (k, op) in p.scripts[o].iter().enumerate() { event(&w, o, *op, story.get(k).cloned().unwrap_or("lost".to_string())); }
            } }
        });
        if out.give_up() { return; }
    }
    let new = |w: &str, o: usize, kind: &str| obj! { op: "new", w: w, o: o, kind: kind };
    let ev = |w: &str, o: usize, op: &str, d: usize, ans: &str| obj! { op: op, w: w, o: o, d: d, ans: ans };
    out.case("check-world", vec![new("a", 1, "k"), ev("a", 1, "ask", 1, "no"), ev("a", 1, "train", 1, "ok"), ev("a", 1, "ask", 1, "x"), new("b", 1, "k"), new("b", 2, "k"), ev("b", 2, "train", 2, "ok"), ev("b", 1, "train", 1, "ok"), ev("b", 2, "ask", 1, "y"), ev("b", 1, "ask", 1, "x")]);
    out.neg("neg-shared", vec![new("a", 1, "k"), ev("a", 1, "train", 1, "ok"), ev("a", 1, "ask", 1, "x"), new("b", 1, "k"), new("b", 2, "k"), ev("b", 1, "train", 1, "ok"), ev("b", 2, "train", 2, "ok"), ev("b", 1, "ask", 1, "y")]);
    out.neg("neg-untrained", vec![new("a", 1, "k"), ev("a", 1, "ask", 1, "no"), new("b", 1, "k"), new("b", 2, "k"), ev("b", 2, "train", 2, "ok"), ev("b", 1, "ask", 1, "y")]);
    out.neg("neg-train", vec![new("a", 1, "k"), ev("a", 1, "train", 1, "ok"), new("b", 1, "k"), ev("b", 1, "train", 1, "err")]);
    out.neg("neg-look", vec![new("a", 1, "k"), ev("a", 1, "train", 1, "ok"), ev("a", 1, "look", 0, "x"), new("b", 1, "k"), ev("b", 1, "train", 1, "ok"), ev("b", 1, "look", 0, "y")]);
}
fn main() {
    if let Ok(w) = std::env::var("WORLD_SOLO") { let v: Vec<u64> = w.split(' ').map(|x| x.parse().unwrap()).collect(); return solo(v[0], v[1] as usize, v[2] as usize); }
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "life" => life(&a, &mut out), "batch" => batch(&a, &mut out), "world" => world(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
