NB = "src/learning/naive_bayes.rs"
NN = "src/learning/nnet/mod.rs"
GL = "src/learning/glm.rs"
seed("extend-rows-in-chunks", "P39",
  [(NB, "            distr.update_params(&inputs.select_rows(&c), idx)?;\n", """            // a class with very many rows is not copied in one piece
            for part in c.chunks(256) {
                distr.update_params(&inputs.select_rows(part), idx)?;
            }
""")],
  "a user's distribution and a class with more than 256 training rows",
  "the distribution is handed the rows of the class several times in parts, and keeps what it computed from the last part",
  r"""
use rusty_machine::learning::naive_bayes::*; use rusty_machine::learning::{SupModel, LearningResult}; use rusty_machine::linalg::{Matrix, BaseMatrix};
struct Own { mean: Vec<f64> }
impl Distribution for Own {
    fn from_model_params(k: usize, _: usize) -> Own { Own { mean: vec![0.0; k] } }
    fn update_params(&mut self, d: &Matrix<f64>, c: usize) -> LearningResult<()> { self.mean[c] = d.data().iter().sum::<f64>() / d.rows() as f64; Ok(()) }
    fn joint_log_lik(&self, d: &Matrix<f64>, _: &[f64]) -> LearningResult<Matrix<f64>> { let m = &self.mean; Ok(Matrix::new(d.rows(), m.len(), d.data().iter().flat_map(|x| m.iter().map(move |m| -(x - m).abs()).collect::<Vec<_>>()).collect::<Vec<f64>>())) }
}
fn main() {
    let n = 300;
    let x = Matrix::new(n, 1, (0..n).map(|i| if i < 256 { 1.0 } else { 10.0 }).collect::<Vec<_>>());
    let t = Matrix::new(n, 1, vec![1.0; n]);
    let mut m: NaiveBayes<Own> = NaiveBayes::new(); m.train(&x, &t).unwrap();
    let mean = m.distr().unwrap().mean[0];
    println!("{}", mean);
    if (mean - (256.0 + 440.0) / 300.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("extend-reg-by-kind", "P39",
  [(NN, "        if self.criterion.is_regularized() {\n", "        let kind = self.criterion.regularization();\n        if match kind { Regularization::None => false, _ => true } {\n")],
  "a criterion with penalties of its own, which says it is regularised but names none of the built-in kinds",
  "the penalties of the criterion are not part of cost and gradient",
  r"""
use rusty_machine::learning::nnet::*; use rusty_machine::learning::nnet::net_layer::Linear; use rusty_machine::learning::SupModel; use rusty_machine::linalg::*;
use rusty_machine::learning::toolkit::cost_fn::MeanSqError; use rusty_machine::learning::optim::*;
struct Own;
impl Criterion for Own {
    type Cost = MeanSqError;
    fn is_regularized(&self) -> bool { true }
    fn reg_cost(&self, _: MatrixSlice<f64>) -> f64 { 100.0 }
    fn reg_cost_grad(&self, w: MatrixSlice<f64>) -> Matrix<f64> { Matrix::new(w.rows(), w.cols(), vec![5.0; w.rows() * w.cols()]) }
}
struct Look;
impl<T: Criterion> OptimAlgorithm<BaseNeuralNet<T>> for Look {
    fn optimize(&self, m: &BaseNeuralNet<T>, s: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> {
        let (c, g) = Optimizable::compute_grad(m, &vec![0.0; s.len()], x, t);
        println!("{} {:?}", c, g);
        if c < 100.0 || g[0] != 5.0 { std::process::exit(1); }
        s.to_vec()
    }
}
fn main() {
    let mut n = NeuralNet::new(Own, Look); n.add(Box::new(Linear::new(1, 1)));
    n.train(&Matrix::new(2, 1, vec![1.0, 2.0]), &Matrix::new(2, 1, vec![0.0, 0.0])).unwrap();
}""")
seed("extend-lag-of-weights", "P39",
  [(GL, """        let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
""", """        let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
        let constant_variance = self.criterion.model_variance(0.25) == self.criterion.model_variance(0.75) &&
                                self.criterion.link_grad(0.25) == self.criterion.link_grad(0.75);
        let mut w_known: Option<Vec<f64>> = None;
"""), (GL, """            let w_diag = self.criterion.compute_working_weight(mu.data());
""", """            // families of constant variance have the same weights in every round
            let w_diag = match w_known {
                Some(ref w) if constant_variance => w.clone(),
                _ => self.criterion.compute_working_weight(mu.data()),
            };
            w_known = Some(w_diag.clone());
""")],
  "a family whose variance and link are constant but whose working weights (overridden) depend on the mean",
  "the weights of the first round are used in all rounds: the fit does not solve the equations of the family's weights",
  r"""
use rusty_machine::learning::glm::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
struct Id; impl LinkFunc for Id { fn func(x: f64) -> f64 { x } fn func_grad(_: f64) -> f64 { 1.0 } fn func_inv(x: f64) -> f64 { x } }
// robust regression: rows far from the fit weigh less
struct Robust(Vec<f64>);
impl Criterion for Robust { type Link = Id; fn model_variance(&self, _: f64) -> f64 { 1.0 }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> { y.iter().map(|_| 2.0).collect() }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> { mu.iter().zip(&self.0).map(|(m, y)| 1.0 / (1.0 + (m - y).abs())).collect() } }
fn main() {
    let y = vec![0.0, 1.0, 2.0, 3.0, 14.0];
    let x = Matrix::new(5, 1, vec![0.0, 1.0, 2.0, 3.0, 4.0]);
    let mut m = GenLinearModel::new(Robust(y.clone())); m.train(&x, &Vector::new(y.clone())).unwrap();
    // eight rounds by hand
    let mut mu = vec![2.0; 5]; let mut b = (0.0, 0.0);
    for _ in 0..8 {
        let w: Vec<f64> = mu.iter().zip(&y).map(|(m, y): (&f64, &f64)| 1.0 / (1.0 + (m - y).abs())).collect();
        let (mut s, mut sx, mut sxx, mut sy, mut sxy) = (0.0, 0.0, 0.0, 0.0, 0.0);
        for i in 0..5 { let t = i as f64; s += w[i]; sx += w[i] * t; sxx += w[i] * t * t; sy += w[i] * y[i]; sxy += w[i] * t * y[i]; }
        let d = s * sxx - sx * sx; b = ((sxx * sy - sx * sxy) / d, (s * sxy - sx * sy) / d);
        for i in 0..5 { mu[i] = b.0 + b.1 * i as f64; }
    }
    let p = m.predict(&Matrix::new(2, 1, vec![0.0, 1.0])).unwrap();
    println!("{:?} {:?}", p, b);
    if (p[0] - b.0).abs() > 1e-6 || (p[1] - p[0] - b.1).abs() > 1e-6 { std::process::exit(1); }
}""")
