//! Options: the documented defaults, what setters change, what constructors refuse.
use full::*;
use rusty_machine::data::transforms::{MinMaxFitter, Normalizer, StandardizerFitter, Transformer, TransformFitter};
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{KDTree, KNNClassifier};
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::nnet::net_layer::Linear as LinearLayer;
use rusty_machine::learning::nnet::{BCECriterion, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn::{Sigmoid, Tanh};
use rusty_machine::learning::toolkit::kernel::{self, Kernel, SquaredExp};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{SupModel, UnSupModel};
use rusty_machine::linalg::norm::{Euclidean, Lp};
use rusty_machine::linalg::MatrixSlice;
use rusty_machine::stats::dist::{Distribution, Exponential, Gaussian};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Opts = BTreeMap<&'static str, f64>;
#[derive(Clone)]
struct Data { x: Rows, y: Vec<usize>, r: Vec<f64>, seed: u64 }
type Saying = Vec<f64>;
trait Obj {
    fn set(&mut self, name: &str, v: f64);
    fn train(&mut self, d: &Data) -> bool;
    fn says(&self, d: &Data) -> Saying;
    fn read(&self) -> Vec<(&'static str, f64)>;
}
struct O<T, S, F, G, R>(T, S, F, G, R);
impl<T, S: Fn(&mut T, &str, f64), F: Fn(&mut T, &Data) -> bool, G: Fn(&T, &Data) -> Saying, R: Fn(&T) -> Vec<(&'static str, f64)>> Obj for O<T, S, F, G, R> {
    fn set(&mut self, n: &str, v: f64) { (self.1)(&mut self.0, n, v) }
    fn train(&mut self, d: &Data) -> bool { (self.2)(&mut self.0, d) }
    fn says(&self, d: &Data) -> Saying { (self.3)(&self.0, d) }
    fn read(&self) -> Vec<(&'static str, f64)> { (self.4)(&self.0) }
}
type Box_ = Box<dyn Obj>;
/// opts: every option with the value of the long constructor's example and another one; given: what the short constructor takes;
/// settable: what can be changed later, with values; trains: whether it has to learn
struct Class { name: &'static str, opts: Vec<(&'static str, f64, f64)>, given: Vec<&'static str>, short: Box<dyn Fn(&Opts) -> Box_>, long: Box<dyn Fn(&Opts) -> Box_>, settable: Vec<(&'static str, Vec<f64>)>, trains: bool, refused: Vec<(&'static str, f64)> }
fn class(name: &'static str, opts: &[(&'static str, f64, f64)], short: impl Fn(&Opts) -> Box_ + 'static, long: impl Fn(&Opts) -> Box_ + 'static) -> Class {
    Class { name, opts: opts.to_vec(), given: vec![], short: Box::new(short), long: Box::new(long), settable: vec![], trains: false, refused: vec![] }
}
impl Class {
    fn given(mut self, g: &[&'static str]) -> Class { self.given = g.to_vec(); self }
    fn settable(mut self, s: &[(&'static str, &[f64])]) -> Class { self.settable = s.iter().map(|(n, v)| (*n, v.to_vec())).collect(); self }
    fn trains(mut self) -> Class { self.trains = true; self }
    fn refuses(mut self, s: &[(&'static str, &[f64])]) -> Class { self.refused = s.iter().flat_map(|(n, v)| v.iter().map(move |x| (*n, *x))).collect(); self }
}
const SHAPING: [&str; 1] = ["predictive"];
fn nothing(_: &[(&str, f64)]) {}
fn inert<T: 'static>(t: T, says: impl Fn(&T, &Data) -> Saying + 'static) -> Box_ { inert_with(t, says, |_: &T| vec![]) }
fn inert_with<T: 'static>(t: T, says: impl Fn(&T, &Data) -> Saying + 'static, read: impl Fn(&T) -> Vec<(&'static str, f64)> + 'static) -> Box_ {
    Box::new(O(t, |_: &mut T, n: &str, v: f64| nothing(&[(n, v)]), |_: &mut T, _: &Data| true, says, read))
}
fn or<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Saying) -> Saying { match r { Ok(x) => f(x), Err(e) => vec![f64::INFINITY, match *e.kind() { ErrorKind::UntrainedModel => 1.0, ErrorKind::InvalidParameters => 2.0, ErrorKind::InvalidData => 3.0, ErrorKind::InvalidState => 4.0, ErrorKind::LinearAlgebra => 5.0 }] } }

// ---- optimisers ----------------------------------------------------------
/// a long way down, the places visited are remembered
struct Hill(RefCell<Vec<f64>>, f64);
impl Optimizable for Hill {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> (f64, Vec<f64>) {
        self.0.borrow_mut().extend(p);
        let n = x.rows() as f64;
        let pull = (x.sum() - y.sum()) / n;
        let mut g = vec![0.0; p.len()];
        let mut c = 0.0;
        // a chain of curved valleys
        for i in 0..p.len() - 1 {
            let (a, b) = (p[i + 1] - p[i] * p[i], 1.0 - p[i]);
            c += self.1 * a * a + b * b;
            g[i] += -4.0 * self.1 * a * p[i] - 2.0 * b;
            g[i + 1] += 2.0 * self.1 * a;
        }
        c += 0.001 * pull * p[0];
        g[0] += 0.001 * pull;
        (c, g)
    }
}
fn descend<A: OptimAlgorithm<Hill>>(a: &A, d: &Data) -> Saying {
    let mut s = vec![];
    for (h, start) in [(0.01, vec![2.0, -1.0, 0.5, -2.0, 1.5, -0.5]), (100.0, vec![-1.2, 1.0, -1.2, 1.0]), (3.0, vec![0.4, -0.3])] {
        let hill = Hill(RefCell::new(vec![]), h);
        rand::script::seed(d.seed);
        let end = a.optimize(&hill, &start, &mat(&d.x, 2), &Matrix::new(d.y.len(), 1, d.y.iter().map(|c| *c as f64).collect::<Vec<_>>()));
        s.extend(end);
        s.extend(hill.0.into_inner());
    }
    s
}
fn cg(o: &Opts) -> ConjugateGD { ConjugateGD { rho: o["rho"], sig: o["sig"], int: o["int"], ext: o["ext"], max: o["max"] as usize, ratio: o["ratio"], iters: o["iters"] as usize } }
fn cg_obj(c: ConjugateGD) -> Box_ {
    Box::new(O(c, |_: &mut ConjugateGD, _: &str, _: f64| (), |_: &mut _, _: &Data| true, |c: &ConjugateGD, d: &Data| descend(c, d),
        |c: &ConjugateGD| vec![("rho", c.rho), ("sig", c.sig), ("int", c.int), ("ext", c.ext), ("max", c.max as f64), ("ratio", c.ratio), ("iters", c.iters as f64)]))
}
fn values<K: Kernel>(k: &K, d: &Data) -> Saying { d.x.iter().flat_map(|r| d.x.iter().take(6).map(move |s| (r, s))).map(|(r, s)| k.kernel(r, s)).collect() }

// ---- models --------------------------------------------------------------
fn labels(d: &Data) -> Vector<usize> { Vector::new(d.y.clone()) }
fn bits(d: &Data) -> Vector<f64> { Vector::new(d.y.iter().map(|c| *c as f64).collect::<Vec<_>>()) }
fn column(d: &Data) -> Matrix<f64> { Matrix::new(d.y.len(), 1, d.y.iter().map(|c| *c as f64).collect::<Vec<_>>()) }
/// rows to ask about: moved copies of some
fn asked(d: &Data) -> Matrix<f64> { mat(&d.x.iter().take(10).map(|r| r.iter().map(|v| v * 0.9 + 0.17).collect()).collect::<Vec<_>>(), 2) }
fn grid() -> Matrix<f64> { Matrix::from_fn(400, 2, |c, r| if c == 0 { (r % 20) as f64 * 0.17 - 0.4 } else { (r / 20) as f64 * 0.15 - 1.6 }) }
fn svm(s: SVM<SquaredExp>) -> Box_ {
    Box::new(O(s, |s: &mut SVM<_>, n: &str, v: f64| if n == "iters" { s.optim_iters = v as usize } else { unreachable!() }, |s: &mut SVM<_>, d: &Data| s.train(&mat(&d.x, 2), &bits(d).apply(&|b| 2.0 * b - 1.0)).is_ok(),
        |s: &SVM<_>, _: &Data| or(s.predict(&grid()), |v| v.into_vec()), |s: &SVM<_>| vec![("iters", s.optim_iters as f64)]))
}
/// a constant that can be chosen
struct Flat(f64);
impl MeanFunc for Flat { fn func(&self, x: Matrix<f64>) -> Vector<f64> { Vector::new(vec![self.0; x.rows()]) } }
fn gp<U: MeanFunc + 'static>(p: GaussianProcess<SquaredExp, U>) -> Box_ {
    Box::new(O(p, |p: &mut GaussianProcess<SquaredExp, U>, n: &str, v: f64| if n == "noise" { p.noise = v } else { unreachable!() }, |p: &mut GaussianProcess<SquaredExp, U>, d: &Data| p.train(&mat(&d.x[..6], 2), &Vector::new(d.r[..6].to_vec())).is_ok(),
        |p: &GaussianProcess<SquaredExp, U>, d: &Data| or(p.get_posterior(&asked(d)), |(m, c)| m.into_vec().into_iter().chain(c.into_vec()).collect()), |p: &GaussianProcess<SquaredExp, U>| vec![("noise", p.noise)]))
}
fn knn(k: KNNClassifier<KDTree>) -> Box_ { Box::new(O(k, |_: &mut _, _: &str, _: f64| (), |k: &mut KNNClassifier<KDTree>, d: &Data| k.train(&mat(&d.x, 2), &labels(d)).is_ok(), |k: &KNNClassifier<KDTree>, _: &Data| or(k.predict(&grid()), |v| v.into_vec().into_iter().map(|c| c as f64).collect()), |_: &_| vec![])) }
fn maybe(v: Vector<Option<usize>>) -> Saying { v.into_vec().into_iter().map(|c| c.map(|k| k as f64).unwrap_or(-1.0)).collect() }
fn dbscan(x: DBSCAN) -> Box_ {
    Box::new(O(x, |x: &mut DBSCAN, n: &str, v: f64| if n == "predictive" { x.set_predictive(v != 0.0) } else { unreachable!() }, |x: &mut DBSCAN, d: &Data| x.train(&mat(&d.x, 2)).is_ok(),
        |x: &DBSCAN, d: &Data| { let mut s: Saying = x.clusters().map(|c| maybe(c.clone())).unwrap_or(vec![]); s.extend(or(x.predict(&asked(d)), maybe)); s }, |_: &_| vec![]))
}
fn kmeans<I: Initializer + 'static>(k: KMeansClassifier<I>) -> Box_ {
    Box::new(O(k, |k: &mut KMeansClassifier<I>, n: &str, v: f64| if n == "iters" { k.set_iters(v as usize) } else { unreachable!() }, |k: &mut KMeansClassifier<I>, d: &Data| k.train(&mat(&d.x, 2)).is_ok(),
        |k: &KMeansClassifier<I>, d: &Data| { let mut s: Saying = k.centroids().as_ref().map(|c| c.data().clone()).unwrap_or(vec![]); s.extend(or(k.predict(&asked(d)), |v| v.into_vec().into_iter().map(|c| c as f64).collect())); s },
        |k: &KMeansClassifier<I>| vec![("iters", k.iters() as f64), ("k", k.k() as f64)]))
}
fn cov(v: f64) -> CovOption { match v as u8 { 1 => CovOption::Full, 2 => CovOption::Diagonal, _ => CovOption::Regularized(0.25) } }
fn gmm(m: GaussianMixtureModel) -> Box_ {
    Box::new(O(m, |m: &mut GaussianMixtureModel, n: &str, v: f64| match n { "iters" => m.set_max_iters(v as usize), "cov" => m.cov_option = cov(v), _ => unreachable!() }, |m: &mut GaussianMixtureModel, d: &Data| m.train(&mat(&d.x, 2)).is_ok(),
        |m: &GaussianMixtureModel, d: &Data| {
            let mut s: Saying = m.mixture_weights().data().clone();
            s.extend(m.means().map(|c| c.data().clone()).unwrap_or(vec![]));
            s.extend(m.covariances().map(|c| c.iter().flat_map(|c| c.data().clone()).collect()).unwrap_or(vec![]));
            s.extend(or(m.predict(&asked(d)), |p| p.into_vec()));
            s
        },
        |m: &GaussianMixtureModel| vec![("cov", match m.cov_option { CovOption::Full => 1.0, CovOption::Diagonal => 2.0, CovOption::Regularized(_) => 3.0 })]))
}
fn pca(p: PCA) -> Box_ { Box::new(O(p, |_: &mut _, _: &str, _: f64| (), |p: &mut PCA, d: &Data| p.train(&mat(&d.x, 2)).is_ok(), |p: &PCA, d: &Data| { let mut s = or(p.components().map(|c| c.data().clone()), |c| c); s.extend(or(p.predict(&asked(d)), |m| m.into_vec())); s }, |_: &_| vec![])) }
fn logit(l: LogisticRegressor<GradientDesc>) -> Box_ { Box::new(O(l, |_: &mut _, _: &str, _: f64| (), |l: &mut LogisticRegressor<GradientDesc>, d: &Data| l.train(&mat(&d.x, 2), &bits(d)).is_ok(), |l: &LogisticRegressor<GradientDesc>, d: &Data| { let mut s: Saying = l.parameters().map(|p| p.data().clone()).unwrap_or(vec![]); s.extend(or(l.predict(&asked(d)), |v| v.into_vec())); s }, |_: &_| vec![])) }
fn net(n: NeuralNet<BCECriterion, StochasticGD>) -> Box_ {
    Box::new(O(n, |_: &mut _, _: &str, _: f64| (), |n: &mut NeuralNet<BCECriterion, StochasticGD>, d: &Data| n.train(&mat(&d.x, 2), &column(d)).is_ok(),
        |n: &NeuralNet<BCECriterion, StochasticGD>, d: &Data| { let mut s: Saying = (0..4).flat_map(|i| n.get_net_weights(i).iter().cloned().collect::<Vec<_>>()).collect(); s.extend(or(n.predict(&asked(d)), |m| m.into_vec())); s }, |_: &_| vec![]))
}
fn reg(v: f64) -> Regularization<f64> { if v == 0.0 { Regularization::None } else { Regularization::L2(0.25) } }
fn criterion<C: Criterion>(c: &C, d: &Data) -> Saying {
    let w = mat(&d.x, 2);
    let s: MatrixSlice<f64> = w.sub_slice([0, 0], 3, 2);
    let (o, t) = (column(d) * 0.5 + 0.2, column(d));
    let mut v = vec![c.is_regularized() as u8 as f64, c.reg_cost(s), c.cost(&o, &t)];
    v.extend(c.reg_cost_grad(s).into_vec());
    v.extend(c.cost_grad(&o, &t).into_vec());
    v
}
fn lp(v: f64) -> Normalizer<f64, Lp<f64>> { Normalizer::new(if v == 1.0 { Lp::Integer(1) } else { Lp::Integer(2) }) }

fn classes() -> Vec<Class> {
    macro_rules! gd { ($a:expr) => { { let a = $a; inert(a, |a: &_, d: &Data| descend(a, d)) } } }
    macro_rules! ker { ($k:expr) => { { let k = $k; inert(k, |k: &_, d: &Data| values(k, d)) } } }
    let bad: &[f64] = &[0.0, -0.5, f64::NAN];
    vec![
        class("GradientDesc", &[("alpha", 0.3, 0.31), ("iters", 100.0, 101.0)], |_| gd!(GradientDesc::default()), |o| gd!(GradientDesc::new(o["alpha"], o["iters"] as usize))).refuses(&[("alpha", bad)]),
        class("StochasticGD", &[("alpha", 0.1, 0.11), ("mu", 0.1, 0.09), ("iters", 20.0, 21.0)], |_| gd!(StochasticGD::default()), |o| gd!(StochasticGD::new(o["alpha"], o["mu"], o["iters"] as usize))).refuses(&[("alpha", bad), ("mu", bad)]),
        class("RMSProp", &[("rate", 0.01, 0.011), ("decay", 0.9, 0.91), ("epsilon", 1e-5, 2e-5), ("iters", 50.0, 51.0)], |_| gd!(RMSProp::default()), |o| gd!(RMSProp::new(o["rate"], o["decay"], o["epsilon"], o["iters"] as usize))).refuses(&[("rate", bad), ("decay", bad), ("decay", &[1.0, 1.5]), ("epsilon", bad)]),
        class("ConjugateGD", &[("rho", 0.01, 0.2), ("sig", 0.5, 0.3), ("int", 0.1, 0.4), ("ext", 3.0, 2.0), ("max", 20.0, 2.0), ("ratio", 100.0, 0.5), ("iters", 100.0, 99.0)], |_| cg_obj(ConjugateGD::default()), |o| cg_obj(cg(o))),
        class("AdaGrad", &[("alpha", 1.0, 0.9), ("tau", 3.0, 2.0), ("iters", 20.0, 21.0)], |o| gd!(AdaGrad::new(o["alpha"], o["tau"], o["iters"] as usize)), |o| gd!(AdaGrad::new(o["alpha"], o["tau"], o["iters"] as usize))).given(&["alpha", "tau", "iters"]).refuses(&[("alpha", bad), ("tau", bad)]),
        class("LinearKernel", &[("c", 0.0, 0.1)], |_| ker!(kernel::Linear::default()), |o| ker!(kernel::Linear::new(o["c"]))),
        class("PolynomialKernel", &[("alpha", 1.0, 1.1), ("c", 0.0, 0.5), ("d", 1.0, 2.0)], |_| ker!(kernel::Polynomial::default()), |o| ker!(kernel::Polynomial::new(o["alpha"], o["c"], o["d"]))),
        class("SquaredExpKernel", &[("ls", 1.0, 1.1), ("ampl", 1.0, 0.9)], |_| ker!(kernel::SquaredExp::default()), |o| ker!(kernel::SquaredExp::new(o["ls"], o["ampl"]))),
        class("ExponentialKernel", &[("ls", 1.0, 1.1), ("ampl", 1.0, 0.9)], |_| ker!(kernel::Exponential::default()), |o| ker!(kernel::Exponential::new(o["ls"], o["ampl"]))),
        class("HyperTanKernel", &[("alpha", 1.0, 1.1), ("c", 0.0, 0.1)], |_| ker!(kernel::HyperTan::default()), |o| ker!(kernel::HyperTan::new(o["alpha"], o["c"]))),
        class("MultiquadricKernel", &[("c", 0.0, 0.1)], |_| ker!(kernel::Multiquadric::default()), |o| ker!(kernel::Multiquadric::new(o["c"]))),
        class("RationalQuadraticKernel", &[("alpha", 1.0, 1.1), ("ls", 1.0, 0.9)], |_| ker!(kernel::RationalQuadratic::default()), |o| ker!(kernel::RationalQuadratic::new(o["alpha"], o["ls"]))),
        class("ConstMean", &[("a", 0.0, 0.1)], |_| inert(ConstMean::default(), |m, d| m.func(mat(&d.x, 2)).into_vec()), |o| inert(Flat(o["a"]), |m, d| m.func(mat(&d.x, 2)).into_vec())),
        class("GaussianProcess", &[("ls", 1.0, 1.1), ("ampl", 1.0, 0.9), ("mean", 0.0, 0.1), ("noise", 0.0, 0.05)], |_| gp(GaussianProcess::<SquaredExp, ConstMean>::default()), |o| gp(GaussianProcess::new(SquaredExp::new(o["ls"], o["ampl"]), Flat(o["mean"]), o["noise"]))).trains().settable(&[("noise", &[0.05, 0.5, 0.0])]),
        class("SVM", &[("ls", 1.0, 0.5), ("ampl", 1.0, 0.5), ("lambda", 0.3, 0.25), ("iters", 100.0, 99.0)], |_| svm(SVM::default()), |o| { let mut s = SVM::new(SquaredExp::new(o["ls"], o["ampl"]), o["lambda"]); s.optim_iters = o["iters"] as usize; svm(s) }).trains().settable(&[("iters", &[5.0, 40.0, 100.0])]),
        class("SVM", &[("ls", 2.0, 0.5), ("ampl", 1.0, 0.5), ("lambda", 0.2, 0.25), ("iters", 100.0, 99.0)], |o| svm(SVM::new(SquaredExp::new(o["ls"], o["ampl"]), o["lambda"])), |o| { let mut s = SVM::new(SquaredExp::new(o["ls"], o["ampl"]), o["lambda"]); s.optim_iters = o["iters"] as usize; svm(s) }).given(&["ls", "ampl", "lambda"]).trains().settable(&[("iters", &[5.0, 40.0, 100.0])]),
        class("KNN", &[("k", 5.0, 4.0)], |_| knn(KNNClassifier::default()), |o| knn(KNNClassifier::new(o["k"] as usize))).trains(),
        class("DBSCAN", &[("eps", 0.5, 0.4), ("points", 5.0, 4.0), ("predictive", 0.0, 1.0)], |_| dbscan(DBSCAN::default()), |o| { let mut x = DBSCAN::new(o["eps"], o["points"] as usize); x.set_predictive(o["predictive"] != 0.0); dbscan(x) }).trains().settable(&[("predictive", &[0.0, 1.0])]).refuses(&[("eps", bad)]),
        class("DBSCAN", &[("eps", 0.7, 0.4), ("points", 3.0, 4.0), ("predictive", 0.0, 1.0)], |o| dbscan(DBSCAN::new(o["eps"], o["points"] as usize)), |o| { let mut x = DBSCAN::new(o["eps"], o["points"] as usize); x.set_predictive(o["predictive"] != 0.0); dbscan(x) }).given(&["eps", "points"]).trains().settable(&[("predictive", &[0.0, 1.0])]).refuses(&[("eps", bad)]),
        class("KMeans", &[("k", 3.0, 2.0), ("iters", 100.0, 1.0), ("init", 3.0, 1.0)], |o| kmeans(KMeansClassifier::new(o["k"] as usize)), km).given(&["k"]).trains().settable(&[("iters", &[0.0, 1.0, 2.0, 100.0])]),
        class("KMeans", &[("k", 4.0, 2.0), ("iters", 1.0, 100.0), ("init", 1.0, 2.0)], km, km).given(&["k", "iters", "init"]).trains().settable(&[("iters", &[0.0, 1.0, 2.0, 100.0])]),
        class("GaussianMixture", &[("w1", 1.0, 2.0), ("w2", 1.0, 2.0), ("iters", 100.0, 99.0), ("cov", 1.0, 2.0)], |_| gmm(GaussianMixtureModel::new(2)), mix).trains().settable(&[("iters", &[0.0, 1.0, 5.0, 100.0]), ("cov", &[1.0, 2.0, 3.0])]),
        class("GaussianMixture", &[("w1", 0.25, 2.0), ("w2", 0.75, 2.0), ("iters", 100.0, 99.0), ("cov", 1.0, 2.0)], |o| gmm(GaussianMixtureModel::with_weights(2, Vector::new(vec![o["w1"], o["w2"]])).unwrap()), mix).given(&["w1", "w2"]).trains().settable(&[("iters", &[0.0, 1.0, 5.0, 100.0]), ("cov", &[1.0, 2.0, 3.0])]),
        class("PCA", &[("n", 0.0, 1.0), ("center", 1.0, 0.0)], |_| pca(PCA::default()), |o| pca(PCA::new(if o["n"] == 0.0 { 2 } else { o["n"] as usize }, o["center"] != 0.0))).trains(),
        class("Logistic", &[("alpha", 0.3, 0.31), ("iters", 100.0, 99.0)], |_| logit(LogisticRegressor::default()), |o| logit(LogisticRegressor::new(GradientDesc::new(o["alpha"], o["iters"] as usize)))).trains(),
        class("NeuralNet", &[("alpha", 0.1, 0.11), ("mu", 0.1, 0.09), ("iters", 20.0, 19.0), ("activation", 1.0, 2.0), ("criterion", 0.0, 1.0)], |_| net(NeuralNet::default(&[2, 3, 1])), |o| {
            let mut n = NeuralNet::new(BCECriterion::new(reg(o["criterion"])), StochasticGD::new(o["alpha"], o["mu"], o["iters"] as usize));
            for (i, j) in [(2, 3), (3, 1)] { n.add(Box::new(LinearLayer::new(i, j))); if o["activation"] == 1.0 { n.add(Box::new(Sigmoid)); } else { n.add(Box::new(Tanh)); } }
            net(n)
        }).trains(),
        class("CrossEntropy", &[("criterion", 0.0, 1.0)], |_| inert(BCECriterion::default(), criterion), |o| inert(BCECriterion::new(reg(o["criterion"])), criterion)),
        class("SquaredError", &[("criterion", 0.0, 1.0)], |_| inert(MSECriterion::default(), criterion), |o| inert(MSECriterion::new(reg(o["criterion"])), criterion)),
        class("Standardizer", &[("mean", 0.0, 0.1), ("stdev", 1.0, 1.1)], |_| inert((), |_, d| scaled(StandardizerFitter::default().fit(&mat(&d.x, 2)).unwrap(), d)), |o| { let (m, s) = (o["mean"], o["stdev"]); inert((), move |_, d| scaled(StandardizerFitter::new(m, s).fit(&mat(&d.x, 2)).unwrap(), d)) }),
        class("MinMax", &[("min", 0.0, 0.1), ("max", 1.0, 1.1)], |_| inert((), |_, d| scaled(MinMaxFitter::default().fit(&mat(&d.x, 2)).unwrap(), d)), |o| { let (m, s) = (o["min"], o["max"]); inert((), move |_, d| scaled(MinMaxFitter::new(m, s).fit(&mat(&d.x, 2)).unwrap(), d)) }),
        class("Normalizer", &[("norm", 2.0, 1.0)], |_| inert((), |_, d| scaled(Normalizer::default(), d)), |o| { let n = o["norm"]; inert((), move |_, d| if n == 2.0 { scaled(Normalizer::new(Euclidean), d) } else { scaled(lp(n), d) }) }),
        class("GaussianLaw", &[("mean", 0.0, 0.1), ("variance", 1.0, 1.1)], |_| law(Gaussian::default()), |o| law(Gaussian::new(o["mean"], o["variance"]))),
        class("ExponentialLaw", &[("lambda", 1.0, 1.1)], |_| inert_with(Exponential::default(), points, |_| vec![]), |o| inert_with(Exponential::new(o["lambda"]), points, |_| vec![])),
    ]
}
fn points<L: Distribution<f64>>(l: &L, d: &Data) -> Saying { d.x.iter().flat_map(|r| vec![l.pdf(r[0].abs()), l.cdf(r[0].abs()), l.logpdf(r[1].abs())]).collect() }
fn law(g: Gaussian) -> Box_ { inert_with(g, |g: &Gaussian, d: &Data| { let mut s = points(g, d); s.extend(d.x.iter().flat_map(|r| vec![g.pdf(-r[1]), g.cdf(-r[0])])); s }, |_: &Gaussian| vec![]) }
fn scaled<T: Transformer<Matrix<f64>>>(mut t: T, d: &Data) -> Saying { or(t.transform(asked(d)), |m| m.into_vec()) }
fn km(o: &Opts) -> Box_ { let (k, n) = (o["k"] as usize, o["iters"] as usize); match o["init"] as u8 { 1 => kmeans(KMeansClassifier::new_specified(k, n, Forgy)), 2 => kmeans(KMeansClassifier::new_specified(k, n, RandomPartition)), _ => kmeans(KMeansClassifier::new_specified(k, n, KPlusPlus)) } }
fn mix(o: &Opts) -> Box_ { let mut m = GaussianMixtureModel::with_weights(2, Vector::new(vec![o["w1"], o["w2"]])).unwrap(); m.cov_option = cov(o["cov"]); m.set_max_iters(o["iters"] as usize); gmm(m) }

// ---- histories -----------------------------------------------------------
fn scale(name: &str, v: f64) -> J { if v.is_nan() { return J::I(-1); } J::I(match name { "init" | "cov" | "predictive" | "center" | "activation" | "criterion" | "norm" => v, "n" => v, _ => (v * 1e6).round() } as i64) }
fn opts_j<'a>(o: impl IntoIterator<Item = (&'a &'static str, &'a f64)>) -> J { J::O(o.into_iter().map(|(n, v)| (n.to_string(), scale(n, *v))).collect()) }
fn digest(s: &Saying) -> String { format!("{}:{:016x}", s.len(), s.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ (x + 0.0).to_bits()).wrapping_mul(0x100000001b3))) }
fn born(f: &dyn Fn(&Opts) -> Box_, o: &Opts) -> Result<Box_, ()> { rand::script::seed(99); catch_unwind(AssertUnwindSafe(|| f(o))).map_err(|_| ()) }
fn taught(b: &mut Box_, d: &Data) -> &'static str { rand::script::seed(d.seed); match catch_unwind(AssertUnwindSafe(|| b.train(d))) { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" } }
fn says(b: &Box_, d: &Data) -> Result<String, ()> { catch_unwind(AssertUnwindSafe(|| b.says(d))).map(|s| digest(&s)).map_err(|_| ()) }
fn data(g: &mut Gen) -> Data {
    let n = 30 + g.below(24);
    // two overlapping crowds, labels that follow them loosely
    let y: Vec<usize> = (0..n).map(|_| g.below(2)).collect();
    let x = y.iter().map(|c| vec![*c as f64 * 0.7 + g.real(0.0, 1.8), g.real(-1.0, 1.0) - *c as f64 * 0.3]).collect();
    Data { x, y, r: (0..n).map(|_| g.real(-2.0, 2.0)).collect(), seed: g.next() }
}
fn config(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 371);
    let count = classes().len();
    let mut told: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for i in 0..count * a.pick(14, 150) {
        let mut h = Gen::new(g.next(), 1);
        let which = i % count;
        hist(out, &format!("{}-{}-{}", classes()[which].name, which, i / count), move |t| {
            let g = &mut h;
            let c = classes().swap_remove(which);
            let ds: Vec<Data> = (0..3).map(|_| data(g)).collect();
            let documented: Opts = c.opts.iter().map(|(n, v, _)| (*n, *v)).collect();
            let given: Opts = c.given.iter().map(|n| (*n, documented[n])).collect();
            let e = obj! { op: "build", class: c.name, given: Raw(opts_j(&given)) };
            let b = born(&*c.short, &documented);
            t.say(with(e, obj! { end: if b.is_ok() { "ok" } else { "panic" } }));
            let mut b = match b { Ok(b) => b, Err(_) => return };
            let (mut opts, mut fit, mut on) = (documented.clone(), documented.clone(), 0usize);
            for (name, v) in b.read() { t.say(obj! { op: "read", name: name, value: Raw(scale(name, v)) }); }
            let steps = if c.settable.is_empty() { 3 } else { 6 + g.below(10) };
            for s in 0..steps {
                match g.below(4) {
                    0 if c.trains => {
                        let k = g.below(ds.len());
                        let e = obj! { op: "train", data: k + 1 };
                        t.about(e.clone());
                        let end = taught(&mut b, &ds[k]);
                        t.say(with(e, obj! { end: end }));
                        if end == "panic" { return; }
                        // a network goes on from where it was: one training says it all
                        if end == "ok" { fit = opts.clone(); on = k + 1; if c.name == "NeuralNet" { let e = behave(&c, &b, &fit, on, &opts, &ds, g); t.say(e); return; } }
                    }
                    1 if !c.settable.is_empty() => {
                        let (n, vs) = g.pick(&c.settable).clone();
                        let v = *g.pick(&vs);
                        b.set(n, v);
                        opts.insert(n, v);
                        t.say(obj! { op: "set", name: n, value: Raw(scale(n, v)) });
                    }
                    2 => { for (name, v) in b.read() { t.say(obj! { op: "read", name: name, value: Raw(scale(name, v)) }); } }
                    _ => { let e = behave(&c, &b, &fit, on, &opts, &ds, g); t.say(e); }
                }
                if s + 1 == steps && on == 0 && c.trains {
                    let e = obj! { op: "train", data: 1usize };
                    t.about(e.clone());
                    let end = taught(&mut b, &ds[0]);
                    t.say(with(e, obj! { end: end }));
                    if end == "panic" { return; }
                    if end == "ok" { fit = opts.clone(); on = 1; }
                }
            }
            let e = behave(&c, &b, &fit, on, &opts, &ds, g);
            t.say(e);
        });
        if out.give_up() { return; }
        // what can be told apart (for whoever reads the driver's output)
        if std::env::var("CONFIG_TELL").is_ok() {
            let c = classes().swap_remove(which);
            let d = data(&mut g);
            let o: Opts = c.opts.iter().map(|(n, v, _)| (*n, *v)).collect();
            let one = |o: &Opts| { let mut b = born(&*c.long, o).ok()?; if c.trains { taught(&mut b, &d); } says(&b, &d).ok() };
            for (n, _, other) in &c.opts { let mut p = o.clone(); p.insert(n, *other); let e = told.entry(format!("{} {}", c.name, n)).or_insert((0, 0)); e.1 += 1; if one(&o) != one(&p) { e.0 += 1; } }
        }
    }
    for (k, v) in told { println!("{} {}/{}", k, v.0, v.1); }
    for (which, c) in classes().into_iter().enumerate() {
        for (k, (name, v)) in c.refused.iter().enumerate() {
            let mut o: Opts = c.opts.iter().map(|(n, v, _)| (*n, *v)).collect();
            o.insert(name, *v);
            let r = born(&*c.long, &o);
            out.case(&format!("refused-{}-{}-{}", c.name, which, k), vec![obj! { op: "build", class: c.name, given: Raw(opts_j(&o)), end: if r.is_ok() { "ok" } else { "panic" } }]);
        }
        let o: Opts = c.opts.iter().map(|(n, _, v)| (*n, *v)).collect();
        let r = born(&*c.long, &o);
        out.case(&format!("accepted-{}-{}", c.name, which), vec![obj! { op: "build", class: c.name, given: Raw(opts_j(&o)), end: if r.is_ok() { "ok" } else { "panic" } }]);
    }
    let build = |class: &str| obj! { op: "build", class: class, given: Raw(opts_j(&Opts::new())), end: "ok" };
    let one = |n: &'static str, v: f64| Raw(opts_j(&[(n, v)].iter().cloned().collect::<Opts>()));
    let knn = |refs: Vec<(f64, usize, &str)>, says: &str| obj! { op: "behave", end: "ok", says: says, refs: refs.into_iter().map(|(k, d, s)| obj! { fit: one("k", k), data: d, now: one("k", k), says: s }).collect::<Vec<_>>() };
    let train = |d: usize| obj! { op: "train", data: d, end: "ok" };
    out.case("check-default", vec![build("KNN"), train(2), knn(vec![(4.0, 2, "b"), (5.0, 2, "a"), (5.0, 1, "c")], "a")]);
    out.neg("neg-other-value", vec![build("KNN"), train(2), knn(vec![(4.0, 2, "b"), (5.0, 2, "a")], "b")]);
    out.neg("neg-untrained", vec![build("KNN"), train(2), knn(vec![(5.0, 0, "u"), (5.0, 2, "a")], "u")]);
    out.neg("neg-no-reference", vec![build("KNN"), train(2), knn(vec![(4.0, 2, "b")], "b")]);
    out.neg("neg-refused", vec![obj! { op: "build", class: "KNN", given: one("k", 3.0), end: "panic" }]);
    out.neg("neg-accepted", vec![obj! { op: "build", class: "GradientDesc", given: one("alpha", 0.0), end: "ok" }]);
    out.neg("neg-shown", vec![build("ConjugateGD"), obj! { op: "read", name: "ext", value: Raw(scale("ext", 2.0)) }]);
    out.neg("neg-set-shown", vec![build("SVM"), obj! { op: "set", name: "iters", value: Raw(scale("iters", 7.0)) }, obj! { op: "read", name: "iters", value: Raw(scale("iters", 100.0)) }]);
}
/// what the object says, next to what others say: the expected one and some that differ in an option
fn behave(c: &Class, b: &Box_, fit: &Opts, on: usize, now: &Opts, ds: &[Data], g: &mut Gen) -> J {
    let mut refs = vec![];
    for k in 0..3 {
        let mut f = fit.clone();
        let mut n = now.clone();
        if k > 0 { let (o, _, other) = g.pick(&c.opts); f.insert(o, *other); n.insert(o, *other); }
        if let Ok(mut r) = born(&*c.long, &f) {
            if on > 0 { if taught(&mut r, &ds[on - 1]) != "ok" && k > 0 { continue; } }
            for s in SHAPING { if let Some(v) = n.get(s) { r.set(s, *v); } }
            refs.push(obj! { fit: Raw(opts_j(&f)), data: on, now: Raw(opts_j(&n)), says: says(&r, &ds[0]).unwrap_or("panic".into()) });
        }
    }
    let s = says(b, &ds[0]);
    obj! { op: "behave", end: if s.is_ok() { "ok" } else { "panic" }, says: s.unwrap_or("panic".into()), refs: refs }
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "config" => config(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
