GP = "src/learning/gp.rs"
SV = "src/learning/svm.rs"
KE = "src/learning/toolkit/kernel.rs"
seed("gp-jitter", "P29",
  [(GP, "let noise_mat = Matrix::identity(inputs.rows()) * self.noise;", "let noise_mat = Matrix::identity(inputs.rows()) * self.noise.max(1e-6);")],
  "a process without noise",
  "the posterior does not interpolate the observations any more",
  r"""
use rusty_machine::learning::gp::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let mut m = GaussianProcess::default();
    let x = Matrix::new(3, 1, vec![0.0, 1.0, 2.5]);
    m.train(&x, &Vector::new(vec![1.0, -2.0, 3.0])).unwrap();
    let p = m.predict(&x).unwrap();
    println!("{:?}", p);
    if (p[0] - 1.0).abs() > 1e-9 || (p[1] + 2.0).abs() > 1e-9 || (p[2] - 3.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("gp-factor-kept", "P29",
  [(GP, "        self.train_mat = Some(train_mat);", "        if self.train_mat.as_ref().map_or(true, |m| m.rows() != inputs.rows()) { self.train_mat = Some(train_mat); }")],
  "two trainings on as many rows, then get_posterior",
  "the covariance is that of the rows trained on first",
  r"""
use rusty_machine::learning::gp::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let (a, b) = (Matrix::new(2, 1, vec![0.0, 1.0]), Matrix::new(2, 1, vec![5.0, 6.5]));
    let y = Vector::new(vec![1.0, -2.0]);
    let mut m = GaussianProcess::default(); m.train(&a, &y).unwrap(); m.train(&b, &y).unwrap();
    let mut f = GaussianProcess::default(); f.train(&b, &y).unwrap();
    let q = Matrix::new(1, 1, vec![5.5]);
    let (p, r) = (m.get_posterior(&q).unwrap(), f.get_posterior(&q).unwrap());
    println!("{:?} {:?}", p, r);
    if (p.1[[0, 0]] - r.1[[0, 0]]).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("gp-total-amplitude", "P29",
  [(GP, "let post_var = self.ker_mat(inputs, inputs)? - &v_mat * v_mat.transpose();", "let post_var = self.ker_mat(inputs, inputs)? + Matrix::identity(inputs.rows()) * self.noise - &v_mat * v_mat.transpose();")],
  "noise set on the process when get_posterior is called",
  "the covariance is that of noisy observations instead of the posterior of the function",
  r"""
use rusty_machine::learning::gp::*; use rusty_machine::learning::toolkit::kernel::Linear; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let mut m = GaussianProcess::new(Linear::new(1.0), ConstMean::default(), 1.0);
    m.train(&Matrix::new(2, 1, vec![0.0, 2.0]), &Vector::new(vec![11.0, 22.0])).unwrap();
    let (_, c) = m.get_posterior(&Matrix::new(1, 1, vec![1.0])).unwrap();
    println!("{:?}", c);
    if (c[[0, 0]] - 4.0 / 11.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("svm-counts-once", "P30",
  [(SV, "                alpha[i] += 1f64;", "                alpha[i] = 1f64;")],
  "a sample that violates its margin several times",
  "dual coefficients no longer count violations",
  r"""
use rusty_machine::learning::svm::*; use rusty_machine::learning::toolkit::kernel::Linear; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    // one row is drawn again and again until its margin holds: the boundary settles where both margins hold
    let x = Matrix::new(2, 1, vec![4.0, 0.5]); let y = Vector::new(vec![1.0, -1.0]);
    let mut good = 0;
    for _ in 0..200 {
        let mut m = SVM::new(Linear::new(0.0), 0.02); m.optim_iters = 3000; m.train(&x, &y).unwrap();
        let p = m.predict(&x).unwrap(); if p[0] == 1.0 && p[1] == -1.0 { good += 1; }
    }
    println!("{}", good);
    if good < 100 { std::process::exit(1); }
}""")
seed("svm-never-last", "P30",
  [(SV, "let i = rng.gen_range(0, n);", "let i = rng.gen_range(0, ::std::cmp::max(n - 1, 1));")],
  "two or more rows, the last of them needed",
  "the last row is never drawn",
  r"""
use rusty_machine::learning::svm::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let x = Matrix::new(2, 1, vec![0.0, 10.0]); let y = Vector::new(vec![1.0, -1.0]);
    let mut m = SVM::default(); m.train(&x, &y).unwrap();
    let p = m.predict(&x).unwrap();
    println!("{:?}", p);
    if p[0] != 1.0 || p[1] != -1.0 { std::process::exit(1); }
}""")
seed("svm-targets-kept", "P30",
  [(SV, "        self.train_targets = Some(targets.clone());", "        if self.train_targets.as_ref().map_or(true, |t| t.size() != targets.size()) { self.train_targets = Some(targets.clone()); }")],
  "two trainings on as many rows with other targets",
  "predictions weigh the new coefficients with the old targets",
  r"""
use rusty_machine::learning::svm::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let x = Matrix::new(2, 1, vec![0.0, 10.0]);
    let mut m = SVM::default();
    m.train(&x, &Vector::new(vec![1.0, -1.0])).unwrap(); m.train(&x, &Vector::new(vec![-1.0, 1.0])).unwrap();
    let p = m.predict(&x).unwrap();
    println!("{:?}", p);
    if p[0] != -1.0 || p[1] != 1.0 { std::process::exit(1); }
}""")
seed("kernel-whole-degree", "P31",
  [(KE, "(self.alpha * utils::dot(x1, x2) + self.c).powf(self.d)", "(self.alpha * utils::dot(x1, x2) + self.c).powi(self.d as i32)")],
  "a polynomial kernel of fractional degree",
  "the degree is cut to a whole number",
  r"""
use rusty_machine::learning::toolkit::kernel::*;
fn main() {
    let v = Polynomial::new(1.0, 1.0, 1.5).kernel(&[1.0, 1.0], &[1.0, 2.0]);
    println!("{}", v);
    if (v - 8.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("kernel-rational-scale", "P31",
  [(KE, "(1f64 + diff.dot(&diff) / (2f64 * self.alpha * self.ls * self.ls)).powf(-self.alpha)", "(1f64 + diff.dot(&diff) / (2f64 * self.ls * self.ls)).powf(-self.alpha)")],
  "a rational quadratic kernel whose alpha is not 1",
  "the squared distance is not divided by alpha",
  r"""
use rusty_machine::learning::toolkit::kernel::*;
fn main() {
    let v = RationalQuadratic::new(2.0, 1.0).kernel(&[0.0], &[2.0]);
    println!("{}", v);
    if (v - 0.25).abs() > 1e-9 { std::process::exit(1); }
}""")
