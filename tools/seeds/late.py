SVMF = "src/learning/svm.rs"; GDF = "src/learning/optim/grad_desc.rs"; PCF = "src/learning/pca.rs"
CVF = "src/analysis/cross_validation.rs"; NBF = "src/learning/naive_bayes.rs"
seed("svm-margin-first-256", "P30",
  [(SVMF, "                .zip(alpha.iter().zip(targets.iter()))\n                .fold(0f64, |sum", "                .zip(alpha.iter().zip(targets.iter()))\n                .take(256)\n                .fold(0f64, |sum")],
  "more than 256 training rows",
  "the margin leaves out what every row past the 256th contributes, so those rows are counted although they are already on the right side",
  r'''
use rusty_machine::learning::SupModel; use rusty_machine::learning::svm::SVM; use rusty_machine::learning::toolkit::kernel::Linear; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    // all rows alike: with alpha the number of times a row was counted, the output is their sum,
    // and an update happens only while sum / (lambda t) < 1
    let n = 300;
    let mut v = vec![0.0; n]; let mut y = vec![1.0; n];
    for i in 256..n { v[i] = 1.0; } for i in 0..256 { v[i] = 0.0; y[i] = 1.0; }
    let m = Matrix::new(n, 1, v); let t = Vector::new(y);
    let mut s = SVM::new(Linear::new(0.0), 0.25); s.optim_iters = 2000;
    s.train(&m, &t).unwrap();
    // half of the weight (lambda * t = 500 at the end) is the most the rows can need
    let txt = format!("{:?}", s);
    let a = txt.split("alpha: Some(Vector {").nth(1).unwrap().split('[').nth(1).unwrap().split(']').next().unwrap();
    let total: f64 = a.split(',').map(|x| x.trim().parse::<f64>().unwrap()).sum::<f64>() * 2000.0;
    println!("{} updates", total);
    if total > 560.0 { std::process::exit(1); }
}''')
seed("rms-cache-forgets", "P21",
  [(GDF, "                let grad_squared = grad.clone().apply(&|x| x*x);\n", "                let grad_squared = grad.clone().apply(&|x| x*x);\n                if rmsprop_cache.data().iter().any(|c: &f64| *c > 1e12) {\n                    rmsprop_cache = Vector::zeros(start.len());\n                }\n")],
  "a gradient whose square leaves the running average above 1e12",
  "the running average is thrown away once an element of it is large, so the step after it is several times too long",
  r'''
use rusty_machine::learning::optim::*; use rusty_machine::learning::optim::grad_desc::RMSProp; use rusty_machine::linalg::Matrix;
struct F;
impl Optimizable for F { type Inputs = Matrix<f64>; type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) { (p[0].abs(), vec![4e6]) } }
fn main() {
    let r = RMSProp::new(1.0, 0.5, 1e-9, 2);
    let x = Matrix::new(1, 1, vec![0.0]);
    let p = r.optimize(&F, &[0.0], &x, &x);
    let want = -(1.0 / 0.5f64.sqrt() + 1.0 / 0.75f64.sqrt());
    println!("{:?} {}", p, want);
    if (p[0] - want).abs() > 1e-9 { std::process::exit(1); }
}''')
seed("pca-refusal-flips", "P35",
  [(PCF, "        match self.n {\n            None => {},\n            Some(n) => {\n                if n > inputs.cols() {", "        self.inv = inputs.cols() > inputs.rows();\n        match self.n {\n            None => {},\n            Some(n) => {\n                if n > inputs.cols() {"),
   (PCF, "        let (_, _, mut v) = data.svd().unwrap();\n        self.inv = inputs.cols() > inputs.rows();\n", "        let (_, _, mut v) = data.svd().unwrap();\n")],
  "a training refused for having too few rows, of a model trained before on more rows than columns",
  "a refused training leaves the old components but turns them over, so what the model answers next is wrong",
  r'''
use rusty_machine::learning::UnSupModel; use rusty_machine::learning::pca::PCA; use rusty_machine::linalg::Matrix;
fn main() {
    let x = Matrix::new(4, 3, vec![1.0, 2.0, 3.0, 5.0, -1.0, 4.0, 2.0, -2.0, 6.0, 1.5, 0.5, -3.0]);
    let mut p = PCA::new(3, true);
    p.train(&x).unwrap();
    let a = p.predict(&x).unwrap().into_vec();
    let r = p.train(&Matrix::new(1, 3, vec![1.0, 1.0, 2.0]));
    let b = p.predict(&x).unwrap().into_vec();
    println!("{:?} {:?} {:?}", r.is_err(), a, b);
    if a.iter().zip(&b).any(|(a, b)| (a - b).abs() > 1e-12) { std::process::exit(1); }
}''')
seed("cv-nan-fold-zero", "P13",
  [(CVF, "        costs.push(score(&outputs, &test_targets));", "        let cost = score(&outputs, &test_targets);\n        costs.push(if cost.is_finite() { cost } else { 0.0 });")],
  "a score that is not finite in some fold",
  "the score of a fold is reported as 0 where the caller's score was infinite or NaN",
  r'''
use rusty_machine::learning::{SupModel, LearningResult}; use rusty_machine::linalg::Matrix; use rusty_machine::analysis::cross_validation::k_fold_validate;
struct M;
impl SupModel<Matrix<f64>, Matrix<f64>> for M {
    fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> { Ok(()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(x.clone()) }
}
fn main() {
    let x = Matrix::new(4, 1, vec![1.0, 2.0, 3.0, 4.0]);
    let s = k_fold_validate(&mut M, &x, &x, 2, |_, _| 1.0f64.ln() - 1.0 / 0.0).unwrap();
    println!("{:?}", s);
    if s.iter().any(|v| *v != -1.0 / 0.0) { std::process::exit(1); }
}''')
