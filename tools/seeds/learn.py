NBF = "src/learning/naive_bayes.rs"; GDF = "src/learning/optim/grad_desc.rs"; CGF = "src/learning/optim/fmincg.rs"
seed("multinomial-smoothing-classes", "P20",
  [(NBF, "let pseudo_cc = pseudo_fc.sum();", "let pseudo_cc = data.sum() + self.log_probs.rows() as f64 * self.pseudo_count;")],
  "a multinomial model whose number of classes is not its number of features, classes of different sizes",
  "feature probabilities of a class do not add up to one, so small classes win or lose wrongly",
  r"""
use rusty_machine::learning::naive_bayes::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, BaseMatrix};
fn main() {
    let mut m = NaiveBayes::<Multinomial>::new();
    m.train(&Matrix::new(2, 4, vec![1.0, 0.0, 3.0, 0.0, 0.0, 2.0, 0.0, 0.0]), &Matrix::new(2, 2, vec![1.0, 0.0, 0.0, 1.0])).unwrap();
    let s: f64 = m.distr().unwrap().log_probs().row_iter().map(|r| r.iter().map(|v| v.exp()).sum::<f64>()).sum();
    println!("{}", s);
    if (s - 2.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("bayes-nearly-one", "P20",
  [(NBF, "if *r == 1f64 {", "if *r > 0.5f64 {")],
  "a target row whose largest entry is above one half but not one",
  "rows that are no indicator vectors train the model silently",
  r"""
use rusty_machine::learning::naive_bayes::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::Matrix;
fn main() {
    let mut m = NaiveBayes::<Bernoulli>::new();
    let r = m.train(&Matrix::new(2, 1, vec![1.0, 0.0]), &Matrix::new(2, 2, vec![0.0, 1.0, 0.75, 0.25]));
    println!("{:?}", r.is_ok());
    if r.is_ok() { std::process::exit(1); }
}""")
REC = r"""
use rusty_machine::learning::optim::*; use rusty_machine::learning::optim::grad_desc::*; use rusty_machine::learning::optim::fmincg::ConjugateGD; use rusty_machine::linalg::Matrix;
struct O<F: Fn(&[f64]) -> (f64, Vec<f64>)>(F);
impl<F: Fn(&[f64]) -> (f64, Vec<f64>)> Optimizable for O<F> { type Inputs = Matrix<f64>; type Targets = Matrix<f64>; fn compute_grad(&self, w: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) { (self.0)(w) } }
"""
seed("adagrad-one-sided", "P21",
  [(GDF, "|x, &y| *x += y * y);", "|x, &y| *x += y * y.max(0f64));")],
  "AdaGrad on an objective with a negative gradient entry",
  "negative gradients do not count in the accumulated squares, so the steps along them never shrink",
  REC + r"""
fn main() {
    let o = O(|w: &[f64]| (-w[0], vec![-1.0]));
    let m = Matrix::new(1, 1, vec![0.0]);
    let w = AdaGrad::new(1.0, 1.0, 9).optimize(&o, &[0.0], &m, &m);
    let e: f64 = (1..10).map(|i| 1.0 / (1.0 + (i as f64).sqrt())).sum();
    println!("{:?} {}", w, e);
    if (w[0] - e).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("sgd-velocity-after", "P21",
  [(GDF, "                // Backup previous velocity\n                let prev_w = delta_w.clone();\n", ""),
   (GDF, "delta_w = Vector::new(vec_data) * self.mu + &delta_w * self.alpha;", "delta_w = Vector::new(vec_data) * self.mu + &delta_w * self.alpha;\n                let prev_w = delta_w.clone();")],
  "two or more stochastic steps",
  "the step back of the look-ahead uses the new velocity: plain momentum instead of Nesterov's",
  REC + r"""
fn main() {
    let o = O(|w: &[f64]| (w[0], vec![1.0]));
    let m = Matrix::new(1, 1, vec![0.0]);
    let w = StochasticGD::new(0.5, 1.0, 2).optimize(&o, &[0.0], &m, &m);
    println!("{:?}", w);
    // v1 = 1, w1 = -1.5, v2 = 1.5, w2 = -1.5 + 0.5 - 2.25
    if (w[0] + 3.25).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("cg-restore-if-worse", "P22",
  [(CGF, "                x = x0;\n", "                if f2 > f0 {\n                    x = x0;\n                }\n")],
  "a line search given up at a point whose cost is not a number",
  "the optimizer stays at the point without a cost",
  REC + r"""
fn main() {
    let o = O(|w: &[f64]| (if w[0] > 0.001 { ::std::f64::NAN } else { (w[0] - 2.0).powi(2) }, vec![2.0 * (w[0] - 2.0)]));
    let m = Matrix::new(1, 1, vec![0.0]);
    let w = ConjugateGD { max: 1, ..ConjugateGD::default() }.optimize(&o, &[0.0], &m, &m);
    println!("{:?}", w);
    if !(w[0] <= 0.001) { std::process::exit(1); }
}""")
seed("cg-extrapolates-free", "P22",
  [(CGF, "                m -= 1;\n                if length < 0", "                if limit > -0.5 {\n                    m -= 1;\n                }\n                if length < 0")],
  "an objective that keeps falling along a direction at a constant rate",
  "extrapolations before the first bracket do not count against the budget of evaluations",
  REC + r"""
fn main() {
    let n = ::std::cell::Cell::new(0);
    let o = O(|w: &[f64]| { n.set(n.get() + 1); if n.get() > 100000 { println!("too many"); std::process::exit(1); } ((-w[0] * 1e-3).max(-1e9), vec![-1e-3]) });
    let m = Matrix::new(1, 1, vec![0.0]);
    let w = ConjugateGD { iters: 3, ..ConjugateGD::default() }.optimize(&o, &[0.0], &m, &m);
    println!("{:?} {}", w, n.get());
    if n.get() > 64 { std::process::exit(1); }
}""")
NNF = "src/learning/nnet/mod.rs"; NLF = "src/learning/nnet/net_layer.rs"; CFF = "src/learning/toolkit/cost_fn.rs"; RGF = "src/learning/toolkit/regularization.rs"
NET = r"""
use rusty_machine::learning::nnet::*; use rusty_machine::learning::nnet::net_layer::*; use rusty_machine::learning::optim::*; use rusty_machine::learning::optim::grad_desc::*; use rusty_machine::learning::toolkit::activ_fn::{Sigmoid, Tanh}; use rusty_machine::learning::toolkit::regularization::Regularization; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, BaseMatrix};
use std::sync::{Arc, Mutex};
/// hands out weights, keeps what the network says about others
#[derive(Clone)] struct Spy { ret: Vec<f64>, at: Vec<Vec<f64>>, got: Arc<Mutex<Vec<(f64, Vec<f64>)>>>, start: Arc<Mutex<Vec<f64>>> }
fn spy(ret: Vec<f64>, at: Vec<Vec<f64>>) -> Spy { Spy { ret, at, got: Default::default(), start: Default::default() } }
impl<T: Criterion> OptimAlgorithm<BaseNeuralNet<T>> for Spy { fn optimize(&self, m: &BaseNeuralNet<T>, s: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> { *self.start.lock().unwrap() = s.to_vec(); for w in &self.at { self.got.lock().unwrap().push(Optimizable::compute_grad(m, w, x, t)); } if self.ret.is_empty() { s.to_vec() } else { self.ret.clone() } } }
/// does the gradient at w agree with differences of the cost, times the rows?
fn slopes<T: Criterion>(c: T, ls: Vec<Box<dyn NetLayer>>, w: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> bool {
    let mut at = vec![w.to_vec()];
    for i in 0..w.len() { for d in [1e-5, -1e-5] { let mut v = w.to_vec(); v[i] += d; at.push(v); } }
    let s = spy(vec![], at);
    let mut n = NeuralNet::new(c, s.clone());
    n.add_layers(ls);
    n.train(x, t).unwrap();
    let g = s.got.lock().unwrap();
    (0..w.len()).all(|i| { let e = (g[2 * i + 1].0 - g[2 * i + 2].0) / 2e-5 * x.rows() as f64; println!("{} {}", e, g[0].1[i]); (e - g[0].1[i]).abs() < 1e-6 })
}
"""
seed("net-bias-row-last-layer", "P23",
  [(NLF, "                Ok(input * &params)\n", "                Ok(if input.cols() == params.cols() && input.rows() > 1 { input * &params.transpose() } else { input * &params })\n")],
  "a square layer without bias and a batch of two or more rows",
  "weights are used transposed",
  NET + r"""
fn main() {
    let mut n = NeuralNet::new(MSECriterion::default(), spy(vec![1.0, 2.0, 3.0, 4.0], vec![]));
    n.add(Box::new(Linear::without_bias(2, 2)));
    n.train(&Matrix::new(1, 2, vec![1.0, 1.0]), &Matrix::new(1, 2, vec![1.0, 1.0])).unwrap();
    let o = n.predict(&Matrix::new(2, 2, vec![1.0, 0.0, 0.0, 1.0])).unwrap();
    println!("{:?}", o.data());
    if o.data() != &vec![1.0, 2.0, 3.0, 4.0] { std::process::exit(1); }
}""")
seed("net-first-layer-params", "P23",
  [(NNF, "        let mut index = self.layers[0].num_params();\n        for layer in self.layers.iter().skip(1) {", "        let mut index = { let shape = self.layers[0].param_shape(); shape.0 * shape.1.min(shape.0) };\n        for layer in self.layers.iter().skip(1) {")],
  "a network whose first layer is wider than its input with the constant",
  "the second layer reads its weights from the wrong place",
  NET + r"""
fn main() {
    let mut n = NeuralNet::new(MSECriterion::default(), spy((0..9).map(|v| v as f64).collect(), vec![]));
    n.add(Box::new(Linear::new(1, 3))).add(Box::new(Linear::without_bias(3, 1)));
    n.train(&Matrix::new(1, 1, vec![1.0]), &Matrix::new(1, 1, vec![1.0])).unwrap();
    let o = n.predict(&Matrix::new(1, 1, vec![1.0])).unwrap();
    println!("{:?}", o.data());
    if o.data()[0] != 3.0 * 6.0 + 5.0 * 7.0 + 7.0 * 8.0 { std::process::exit(1); }
}""")
seed("net-penalty-last-layers", "P24",
  [(NNF, "        let mut cost = self.criterion.cost(output, targets);\n        if self.criterion.is_regularized() {", "        let mut cost = self.criterion.cost(output, targets);\n        if self.criterion.is_regularized() && self.layers.len() > 1 {")],
  "a regularised network of a single layer",
  "neither cost nor gradient include the penalty",
  NET + r"""
fn main() {
    let s = spy(vec![], vec![vec![1.0, 1.0]]);
    let mut n = NeuralNet::new(MSECriterion::new(Regularization::L1(1.0)), s.clone());
    n.add(Box::new(Linear::new(1, 1)));
    n.train(&Matrix::new(1, 1, vec![1.0]), &Matrix::new(1, 1, vec![2.0])).unwrap();
    let g = s.got.lock().unwrap();
    println!("{:?}", g[0]);
    if (g[0].0 - 0.5).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("net-bias-gradient-first", "P24",
  [(NLF, "            } else if del > 0 {\n                v[i - del] = v[i];", "            } else if del > 0 {\n                v[i - del.min(rows - 1)] = v[i];")],
  "a batch of two or more rows through two layers with bias",
  "the last row's gradient of the inputs of a later layer is shifted by one column, so gradients of earlier layers are wrong",
  NET + r"""
fn main() {
    let w: Vec<f64> = (0..13).map(|v| 0.3 * v as f64 - 1.0).collect();
    let ls: Vec<Box<dyn NetLayer>> = vec![Box::new(Linear::new(1, 2)), Box::new(Tanh), Box::new(Linear::new(2, 2)), Box::new(Sigmoid), Box::new(Linear::new(2, 1))];
    if !slopes(MSECriterion::default(), ls, &w, &Matrix::new(2, 1, vec![0.5, 1.0]), &Matrix::new(2, 1, vec![0.0, 1.0])) { std::process::exit(1); }
}""")
seed("mse-column-mean", "P25",
  [(CFF, "        let n = diff.rows();\n", "        let n = diff.rows().max(diff.cols());\n")],
  "outputs with more columns than rows",
  "the cost is divided by the number of columns",
  r"""
use rusty_machine::learning::toolkit::cost_fn::*; use rusty_machine::linalg::Matrix;
fn main() {
    let c = MeanSqError::cost(&Matrix::new(1, 3, vec![1.0, 2.0, 3.0]), &Matrix::new(1, 3, vec![0.0, 0.0, 0.0]));
    println!("{}", c);
    if (c - 7.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("l1-cost-columns", "P25",
  [(RGF, "        l1_norm * x / ((T::one() + T::one()) * FromPrimitive::from_usize(mat.rows()).unwrap())", "        l1_norm * x / ((T::one() + T::one()) * FromPrimitive::from_usize(mat.rows().max(mat.cols())).unwrap())")],
  "weights with more columns than rows",
  "the L1 penalty is divided by the columns, its gradient by the rows",
  r"""
use rusty_machine::learning::toolkit::regularization::*; use rusty_machine::linalg::{Matrix, MatrixSlice};
fn main() {
    let m = Matrix::new(1, 2, vec![3.0, -1.0]);
    let g = Regularization::L1(2.0).reg_cost(MatrixSlice::from_matrix(&m, [0, 0], 1, 2));
    println!("{}", g);
    if (g - 4.0f64).abs() > 1e-9 { std::process::exit(1); }
}""")

LRF = "src/learning/lin_reg.rs"; LGF = "src/learning/logistic_reg.rs"; GLF = "src/learning/glm.rs"
seed("lin-warm-start", "P26",
  [(LRF, "let initial_params = vec![0.; full_inputs.cols()];", "let initial_params = match self.parameters {\n            Some(ref p) if p.size() == full_inputs.cols() => p.data().clone(),\n            _ => vec![0.; full_inputs.cols()],\n        };")],
  "train_with_optimization on a model trained before with as many columns",
  "the fit depends on the data of an earlier training",
  r"""
use rusty_machine::learning::lin_reg::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let x = Matrix::new(3, 1, vec![1.0, 2.0, 4.0]); let y = Vector::new(vec![1.0, 5.0, 2.0]);
    let mut a = LinRegressor::default(); a.train_with_optimization(&x, &y);
    let mut b = LinRegressor::default(); b.train(&x, &Vector::new(vec![30.0, 10.0, -7.0])).unwrap(); b.train_with_optimization(&x, &y);
    println!("{:?} {:?}", a.parameters(), b.parameters());
    if a.parameters().unwrap().data() != b.parameters().unwrap().data() { std::process::exit(1); }
}""")
seed("lin-singular-kept", "P26",
  [(LRF, "self.parameters = Some((&xt * full_inputs).solve(&xt * targets)?);\n        Ok(())",
    "let solved = (&xt * full_inputs).solve(&xt * targets);\n        if self.parameters.is_none() {\n            self.parameters = Some(solved?);\n        } else if let Ok(p) = solved {\n            self.parameters = Some(p);\n        }\n        Ok(())")],
  "refitting a trained model on data with dependent columns",
  "the failing training reports success and keeps the old coefficients",
  r"""
use rusty_machine::learning::lin_reg::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let y = Vector::new(vec![1.0, 5.0, 2.0]);
    let mut m = LinRegressor::default(); m.train(&Matrix::new(3, 1, vec![1.0, 2.0, 4.0]), &y).unwrap();
    let before = m.parameters().unwrap().data().clone();
    let r = m.train(&Matrix::new(3, 1, vec![0.0, 0.0, 0.0]), &y);
    println!("{:?} {:?}", r.is_ok(), before);
    if r.is_ok() && m.parameters().unwrap().data() == &before { std::process::exit(1); }
}""")
seed("logistic-warm-start", "P27",
  [(LGF, "let initial_params = vec![0.5; full_inputs.cols()];", "let initial_params = match self.base.parameters() {\n            Some(p) if p.size() == full_inputs.cols() => p.data().clone(),\n            _ => vec![0.5; full_inputs.cols()],\n        };")],
  "training a logistic model a second time on as many columns",
  "the second training starts from the first one's result",
  r"""
use rusty_machine::learning::logistic_reg::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let x = Matrix::new(3, 1, vec![1.0, 2.0, 4.0]); let y = Vector::new(vec![1.0, 0.0, 1.0]);
    let mut a = LogisticRegressor::default(); a.train(&x, &y).unwrap();
    let mut b = LogisticRegressor::default(); b.train(&x, &Vector::new(vec![0.0, 1.0, 0.0])).unwrap(); b.train(&x, &y).unwrap();
    println!("{:?} {:?}", a.parameters(), b.parameters());
    if a.parameters().unwrap().data() != b.parameters().unwrap().data() { std::process::exit(1); }
}""")
seed("logistic-label-threshold", "P27",
  [(LGF, "let grad = (inputs.transpose() * (outputs - targets)) / (inputs.rows() as f64);", "let labels = targets.clone().apply(&|t| if t < 0.5 { 0f64 } else { 1f64 });\n        let grad = (inputs.transpose() * (outputs - labels)) / (inputs.rows() as f64);")],
  "targets strictly between 0 and 1",
  "the gradient is not that of the cost any more",
  r"""
use rusty_machine::learning::logistic_reg::*; use rusty_machine::learning::SupModel; use rusty_machine::learning::optim::grad_desc::GradientDesc; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let mut m = LogisticRegressor::new(GradientDesc::new(0.5, 4000));
    m.train(&Matrix::new(2, 1, vec![0.0, 1.0]), &Vector::new(vec![0.25, 0.75])).unwrap();
    let p = m.predict(&Matrix::new(2, 1, vec![0.0, 1.0])).unwrap();
    println!("{:?}", p);
    if (p[0] - 0.25).abs() > 1e-3 || (p[1] - 0.75).abs() > 1e-3 { std::process::exit(1); }
}""")
seed("glm-poisson-weight-floor", "P28",
  [(GLF, "    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.to_vec()\n    }", "    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.iter().map(|m| m.max(1f64)).collect()\n    }")],
  "a Poisson fit with means below one",
  "rows with small means are weighted too much and the score equations fail",
  r"""
use rusty_machine::learning::glm::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let mut m = GenLinearModel::new(Poisson);
    let x = Matrix::new(6, 1, vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0]); let y = vec![1.0, 0.0, 1.0, 2.0, 3.0, 9.0];
    m.train(&x, &Vector::new(y.clone())).unwrap();
    let p = m.predict(&x).unwrap();
    let s: f64 = (0..6).map(|i| (y[i] - p[i]) * i as f64).sum();
    println!("{:?} {}", p, s);
    if !(s.abs() <= 1e-3) { std::process::exit(1); }
}""")
seed("glm-stops-early", "P28",
  [(GLF, "let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();", "let diff = (&new_beta - beta).sum();")],
  "a round of the fit whose coefficients decrease in total",
  "training stops long before the score equations hold",
  r"""
use rusty_machine::learning::glm::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let mut m = GenLinearModel::new(Bernoulli);
    let x = Matrix::new(7, 1, vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0]); let y = vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    m.train(&x, &Vector::new(y.clone())).unwrap();
    let p = m.predict(&x).unwrap();
    println!("{:?}", p);
    if (p[0] - 0.25).abs() > 1e-6 || (p[6] - 1.0 / 3.0).abs() > 1e-6 { std::process::exit(1); }
}""")
seed("gmm-weights-short", "P37",
  [("src/learning/gmm.rs", "                prior_weights: normalized_weights,\n                model_means: None,\n                model_covars: None,\n                log_lik: 0f64,\n                max_iters: 100,", "                prior_weights: normalized_weights,\n                model_means: None,\n                model_covars: None,\n                log_lik: 0f64,\n                max_iters: 10,")],
  "a mixture with prior weights on data whose expectation maximisation takes more than ten rounds",
  "mixtures built with weights make ten rounds instead of the documented default of a hundred",
  r"""
use rusty_machine::learning::UnSupModel; use rusty_machine::learning::gmm::GaussianMixtureModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    // what one more round would change: much after ten rounds, little after a hundred
    let x: Vec<f64> = (0..40).map(|i| (i * 7 % 40) as f64 / 10.0 + if i % 3 == 0 { 1.5 } else { 0.0 }).collect();
    let m = Matrix::new(40, 1, x.clone());
    let change = |g: &GaussianMixtureModel| -> f64 {
        let r = g.predict(&m).unwrap();
        (0..2).map(|k| { let w: f64 = (0..40).map(|i| r[[i, k]]).sum(); let mean = (0..40).map(|i| r[[i, k]] * x[i]).sum::<f64>() / w; (mean - g.means().unwrap()[[k, 0]]).abs() }).fold(0.0, f64::max)
    };
    let typical = |set: bool| -> f64 { let mut b: Vec<f64> = vec![]; for _ in 0..101 { let mut g = GaussianMixtureModel::with_weights(2, Vector::new(vec![1.0, 1.0])).unwrap(); if set { g.set_max_iters(100); } if g.train(&m).is_ok() { b.push(change(&g)); } } b.sort_by(|p, q| p.partial_cmp(q).unwrap()); b[b.len() / 2] };
    let (a, b) = (typical(false), typical(true));
    println!("{} {}", a, b);
    if a > 4.0 * b { std::process::exit(1); }
}""")
seed("kmeans-set-iters-forgets", "P37",
  [("src/learning/k_means.rs", "    pub fn set_iters(&mut self, iters: usize) {\n        self.iters = iters;", "    pub fn set_iters(&mut self, iters: usize) {\n        if iters > self.iters {\n            self.centroids = None;\n        }\n        self.iters = iters;")],
  "raising the number of iterations of a trained model, then predicting",
  "setting an option drops what was learned",
  r"""
use rusty_machine::learning::UnSupModel; use rusty_machine::learning::k_means::*; use rusty_machine::linalg::Matrix;
fn main() {
    let mut k = KMeansClassifier::new(2);
    let m = Matrix::new(4, 1, vec![0., 1., 10., 11.]);
    k.train(&m).unwrap();
    k.set_iters(50);
    if k.predict(&m).is_err() { std::process::exit(2); }
    k.set_iters(200);
    if k.predict(&m).is_err() { std::process::exit(1); }
}""")
seed("rms-default-decay", "P37",
  [(GDF, "            decay_rate: 0.9,\n", "            decay_rate: 0.99,\n")],
  "the default RMSProp optimiser",
  "it does not have the documented decay rate",
  REC + r"""
fn main() {
    let run = |a: RMSProp| { let m = Matrix::new(3, 1, vec![0.0, 1.0, 2.0]); let o = O(|w: &[f64]| (w[0] * w[0] / 2.0, vec![w[0]])); a.optimize(&o, &[1.0], &m, &m)[0] };
    let (a, b) = (run(RMSProp::default()), run(RMSProp::new(0.01, 0.9, 1e-5, 50)));
    println!("{} {}", a, b);
    if a != b { std::process::exit(1); }
}""")
