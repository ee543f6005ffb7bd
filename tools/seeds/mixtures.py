GM = "src/learning/gmm.rs"
seed("gmm-lagged-mean", "P32",
  [(GM, "let new_means_k = MatrixSlice::from_matrix(&new_means, [k, 0], 1, d);", "let new_means_k = MatrixSlice::from_matrix(self.model_means.as_ref().unwrap_or(&new_means), [k, 0], 1, d);")],
  "a round in which a mean moves",
  "covariances are taken around the mean before the round",
  r"""
use rusty_machine::learning::gmm::*; use rusty_machine::learning::UnSupModel; use rusty_machine::linalg::Matrix;
fn main() {
    let mut m = GaussianMixtureModel::new(1); m.set_max_iters(1);
    m.train(&Matrix::new(2, 1, vec![0.0, 2.0])).unwrap();
    let c = m.covariances().unwrap()[0][[0, 0]];
    println!("{}", c);
    if (c - 1.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("gmm-settles-early", "P32",
  [(GM, "if (log_lik_1 - log_lik_0).abs() < 1e-15 {", "if (log_lik_1 - log_lik_0).abs() < 1e-2 * log_lik_1.abs() {")],
  "data on which the likelihood climbs slowly",
  "training stops while the likelihood is still changing",
  r"""
use rusty_machine::learning::gmm::*; use rusty_machine::learning::UnSupModel; use rusty_machine::linalg::Matrix;
fn main() {
    // the estimates of one component are final after one round, those of two overlapping ones are not
    let x = Matrix::new(8, 1, vec![0.0, 1.0, 1.5, 2.0, 3.0, 3.5, 5.0, 8.0]);
    let mut m = GaussianMixtureModel::new(2); m.set_max_iters(100000); m.cov_option = CovOption::Regularized(0.5);
    m.train(&x).unwrap();
    let w = m.mixture_weights(); let r = m.predict(&x).unwrap();
    for j in 0..2 {
        let s: f64 = (0..8).map(|i| r[[i, j]]).sum::<f64>() / 8.0;
        println!("{} {}", w[j], s);
        if (s - w[j]).abs() > 1e-5 { std::process::exit(1); }
    }
}""")
seed("gmm-regularized-start", "P32",
  [(GM, "                cov_mat *= reg_value;\n                if let CovOption::Regularized(eps) = self.cov_option {\n                    cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;\n                }\n",
        "                if let CovOption::Regularized(eps) = self.cov_option {\n                    cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;\n                }\n                cov_mat *= reg_value;\n")],
  "regularized covariances of more than two rows",
  "the start is regularized less than asked for",
  r"""
use rusty_machine::learning::gmm::*; use rusty_machine::learning::UnSupModel; use rusty_machine::linalg::Matrix;
fn main() {
    let mut m = GaussianMixtureModel::new(1); m.set_max_iters(0); m.cov_option = CovOption::Regularized(0.5);
    m.train(&Matrix::new(3, 1, vec![0.0, 1.0, 2.0])).unwrap();
    let c = m.covariances().unwrap()[0][[0, 0]];
    println!("{}", c);
    if (c - 1.5).abs() > 1e-9 { std::process::exit(1); }
}""")
PC = "src/learning/pca.rs"
seed("pca-centers-kept", "P33",
  [(PC, "            self.centers = Some(centers);", "            if self.centers.as_ref().map_or(true, |c| c.size() != centers.size()) { self.centers = Some(centers); }")],
  "two trainings on data of the same width and other means",
  "queries are centred with the means of the data trained on first",
  r"""
use rusty_machine::learning::pca::PCA; use rusty_machine::learning::UnSupModel; use rusty_machine::linalg::Matrix;
fn main() {
    let (a, b) = (Matrix::new(3, 2, vec![0.0, 0.0, 1.0, 2.0, 3.0, 1.0]), Matrix::new(3, 2, vec![10.0, 20.0, 11.0, 22.0, 13.0, 20.5]));
    let mut m = PCA::default(); m.train(&a).unwrap(); m.train(&b).unwrap();
    let mut f = PCA::default(); f.train(&b).unwrap();
    let (p, q) = (m.predict(&b).unwrap(), f.predict(&b).unwrap());
    println!("{:?} {:?}", p, q);
    if p.data().iter().zip(q.data()).any(|(x, y)| (x - y).abs() > 1e-9) { std::process::exit(1); }
}""")
seed("pca-small-variance", "P33",
  [(PC, "            let centers = inputs.mean(Axes::Row);\n            let m =", "            let mut centers = inputs.mean(Axes::Row);\n            for c in centers.mut_data() { if c.abs() < 1.0 { *c = 0.0; } }\n            let m =")],
  "centred data whose means are small",
  "columns with a mean below one are not centred",
  r"""
use rusty_machine::learning::pca::PCA; use rusty_machine::learning::UnSupModel; use rusty_machine::linalg::Matrix;
fn main() {
    let x = Matrix::new(3, 2, vec![0.0, 9.0, 0.5, 2.0, 1.0, 4.0]);
    let mut m = PCA::default(); m.train(&x).unwrap();
    let p = m.predict(&x).unwrap();
    let s: f64 = (0..3).map(|i| p[[i, 0]]).sum::<f64>().abs() + (0..3).map(|i| p[[i, 1]]).sum::<f64>().abs();
    println!("{:?} {}", p, s);
    if s > 1e-9 { std::process::exit(1); }
}""")
seed("iris-one-cell", "P34",
  [("src/datasets/iris.rs", "5.6, 2.8, 4.9, 2.0;", "5.6, 2.8, 4.8, 2.0;")],
  "the 122nd row",
  "one petal length is not the published one",
  r"""
fn main() {
    let d = rusty_machine::datasets::iris::load();
    let s: f64 = (100..150).map(|i| d.data()[[i, 2]]).sum();
    println!("{}", s);
    if (s - 277.6).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("bayes-prior-kept", "P35",
  [("src/learning/naive_bayes.rs", "        self.class_prior = Some(class_prior);", "        if self.class_prior.as_ref().map_or(true, |p| p.len() != class_count) { self.class_prior = Some(class_prior); }")],
  "two trainings with as many classes and other shares of them",
  "the class priors of the first training stay",
  r"""
use rusty_machine::learning::naive_bayes::{NaiveBayes, Gaussian}; use rusty_machine::learning::SupModel; use rusty_machine::linalg::Matrix;
fn main() {
    let x = Matrix::new(4, 1, vec![0.0, 1.0, 5.0, 6.0]);
    let a = Matrix::new(4, 2, vec![1.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 1.0]);
    let z = Matrix::new(5, 1, vec![0.0, 1.0, 0.5, 5.0, 6.0]);
    let b = Matrix::new(5, 2, vec![1.0, 0.0, 1.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 1.0]);
    let mut m = NaiveBayes::<Gaussian>::new(); m.train(&x, &a).unwrap(); m.train(&z, &b).unwrap();
    let p = m.class_prior().unwrap().clone();
    println!("{:?}", p);
    if (p[0] - 0.6).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("knn-surplus-targets", "P35",
  [("src/learning/knn/mod.rs", "        if inputs.rows() != targets.size() {", "        if inputs.rows() > targets.size() {")],
  "more targets than inputs",
  "the surplus targets are silently ignored",
  r"""
use rusty_machine::learning::knn::KNNClassifier; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let x = Matrix::new(2, 1, vec![0.0, 1.0]);
    let r = std::panic::catch_unwind(|| { let mut m = KNNClassifier::new(1); m.train(&x, &Vector::new(vec![0, 1, 1])).is_ok() });
    if let Ok(true) = r { std::process::exit(1); }
}""")
seed("kmeans-warm-start", "P35",
  [("src/learning/k_means.rs", "        self.init_centroids(inputs)?;\n", "        if self.centroids.as_ref().map_or(true, |c| c.cols() != inputs.cols()) { self.init_centroids(inputs)?; }\n")],
  "two trainings on data of the same width",
  "the second training starts from the centroids of the first",
  r"""
use rusty_machine::learning::k_means::KMeansClassifier; use rusty_machine::learning::UnSupModel; use rusty_machine::linalg::Matrix;
fn main() {
    // one centroid that stays far away of everything when kept
    let a = Matrix::new(2, 1, vec![0.0, 1000.0]);
    let b = Matrix::new(4, 1, vec![0.0, 1.0, 10.0, 11.0]);
    let mut m = KMeansClassifier::new(2); m.train(&a).unwrap(); m.train(&b).unwrap();
    let c = m.centroids().as_ref().unwrap();
    println!("{:?}", c);
    let mut v = vec![c[[0, 0]], c[[1, 0]]]; v.sort_by(|x, y| x.partial_cmp(y).unwrap());
    if (v[0] - 0.5).abs() > 1e-9 || (v[1] - 10.5).abs() > 1e-9 { std::process::exit(1); }
}""")
