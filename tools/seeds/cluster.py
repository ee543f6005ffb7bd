
DBF = "src/learning/dbscan.rs"; KMF = "src/learning/k_means.rs"
seed("dbscan-min-points-others", "P09",
  [(DBF, "if sub_neighbours.len() >= self.min_points {", "if sub_neighbours.len() > self.min_points {")],
  "a chain whose inner points have exactly min_points neighbours",
  "clusters stop growing at cores with exactly min_points neighbours, so connected cores get different labels",
  r"""
use rusty_machine::learning::{dbscan::DBSCAN, UnSupModel}; use rusty_machine::linalg::Matrix;
fn main() {
    let mut d = DBSCAN::new(1.5, 3);
    d.train(&Matrix::new(6, 1, vec![0., 1., 2., 3., 4., 5.])).unwrap();
    println!("{:?}", d.clusters().unwrap());
    if d.clusters().unwrap().data().iter().any(|c| *c != Some(0)) { std::process::exit(1); }
}""")
seed("dbscan-visited-kept", "P09",
  [(DBF, "        for i in 0..total_points {\n            self._visited[i] = false;\n        }\n\n        self.clusters", "        if self.clusters.is_none() {\n            for i in 0..total_points {\n                self._visited[i] = false;\n            }\n        }\n\n        self.clusters")],
  "training the same model a second time",
  "rows visited by the first training are never clustered by the second one",
  r"""
use rusty_machine::learning::{dbscan::DBSCAN, UnSupModel}; use rusty_machine::linalg::Matrix;
fn main() {
    let mut d = DBSCAN::new(1.5, 2);
    let m = Matrix::new(3, 1, vec![0., 1., 9.]);
    d.train(&m).unwrap(); let a = d.clusters().unwrap().clone();
    d.train(&m).unwrap();
    println!("{:?} {:?}", a, d.clusters());
    if d.clusters().unwrap() != &a { std::process::exit(1); }
}""")
seed("dbscan-predict-clustered-only", "P10",
  [(DBF, "distances.push(utils::dot(&point_distance, &point_distance).sqrt());", "let i = distances.len();\n                        let penalty = if clusters[i].is_some() { 0.0 } else { 0.1 * self.eps };\n                        distances.push(utils::dot(&point_distance, &point_distance).sqrt() + penalty);")],
  "a query slightly nearer to a noise row than to a clustered row within eps",
  "noise rows are treated as farther away than they are, so the query joins a cluster",
  r"""
use rusty_machine::learning::{dbscan::DBSCAN, UnSupModel}; use rusty_machine::linalg::Matrix;
fn main() {
    let mut d = DBSCAN::new(1.0, 2); d.set_predictive(true);
    d.train(&Matrix::new(3, 1, vec![0., 0.5, 2.25])).unwrap();
    let p = d.predict(&Matrix::new(1, 1, vec![1.4])).unwrap();
    println!("{:?} {:?}", d.clusters(), p);
    if p[0] != None { std::process::exit(1); }
}""")
seed("kmeans-cost-rate", "P11",
  [(KMF, "if abs(cost - cost_i) < eps {", "if abs(cost - cost_i) < eps + cost_i * 0.05 {")],
  "data on which an iteration improves the cost by less than five percent before convergence",
  "the iteration stops although rows are still nearer to other centroids",
  r"""
use rusty_machine::learning::{LearningResult, UnSupModel}; use rusty_machine::learning::k_means::*; use rusty_machine::linalg::{Matrix, BaseMatrix};
#[derive(Debug)] struct First;
impl Initializer for First { fn init_centroids(&self, k: usize, m: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(m.select_rows(&(0..k).collect::<Vec<_>>())) } }
fn main() {
    let mut bad = 0;
    for s in 0..200usize {
        let m = Matrix::new(40, 1, (0..40).map(|i| ((i * i * 7 + i * s * 13 + s) % 211) as f64).collect::<Vec<f64>>());
        let mut k = KMeansClassifier::new_specified(3, 1000, First);
        k.train(&m).unwrap();
        let c = k.predict(&m).unwrap();
        for j in 0..3 {
            let v: Vec<f64> = (0..40).filter(|i| c[*i] == j).map(|i| m[[i, 0]]).collect();
            if v.is_empty() { continue; }
            let mean = v.iter().sum::<f64>() / v.len() as f64;
            if (mean - k.centroids().as_ref().unwrap()[[j, 0]]).abs() > 1e-6 { bad += 1; }
        }
    }
    println!("{} centroids are not the mean of their rows", bad);
    if bad > 0 { std::process::exit(1); }
}""")
seed("kpp-last-centroid", "P11",
  [(KMF, "MatrixSlice::from_raw_parts(init_centroids.as_ptr(),\n                                                                 i,", "MatrixSlice::from_raw_parts(init_centroids.as_ptr().offset(((i - 1) * inputs.cols()) as isize),\n                                                                 1,")],
  "three or more clusters and many initialisations",
  "k-means++ weighs rows by the distance to the latest centroid only, so a row can be chosen twice",
  r"""
use rusty_machine::learning::k_means::*; use rusty_machine::linalg::Matrix;
fn main() {
    let m = Matrix::new(4, 1, vec![0., 1., 2., 10.]);
    let mut twice = 0;
    for _ in 0..500 { let c = KPlusPlus.init_centroids(3, &m).unwrap(); if c[[0, 0]] == c[[2, 0]] { twice += 1; } }
    println!("{} of 500 initialisations chose a row twice", twice);
    if twice > 0 { std::process::exit(1); }
}""")
seed("kmeans-predict-abs", "P12",
  [(KMF, "let dist = &centroid_diff.elemul(&centroid_diff).sum_cols();", "let bounded = Matrix::new(centroid_diff.rows(), centroid_diff.cols(), centroid_diff.data().iter().map(|x| x.max(-1e3)).collect::<Vec<f64>>());\n            let dist = &centroid_diff.elemul(&bounded).sum_cols();")],
  "a query more than a thousand units above a centroid in some coordinate",
  "large differences are weighed linearly, so a farther centroid can win",
  r"""
use rusty_machine::learning::{LearningResult, UnSupModel}; use rusty_machine::learning::k_means::*; use rusty_machine::linalg::Matrix;
#[derive(Debug)] struct First;
impl Initializer for First { fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(Matrix::new(2, 2, vec![0., 0., 1900., 1900.])) } }
fn main() {
    let mut k = KMeansClassifier::new_specified(2, 0, First);
    k.train(&Matrix::new(2, 2, vec![0., 0., 1900., 1900.])).unwrap();
    let p = k.predict(&Matrix::new(1, 2, vec![3000., -200.])).unwrap();
    println!("{:?}", p);
    // squared distances 9040000 and 5620000
    if p[0] != 1 { std::process::exit(1); }
}""")
seed("dbscan-same-as-before", "P36",
  [("src/learning/dbscan.rs", "                for input_point in inputs.row_iter() {\n                    let mut distances", "                let mut last: Option<(Vec<f64>, Option<usize>)> = None;\n                for input_point in inputs.row_iter() {\n                    if let Some((ref before, class)) = last {\n                        let step = utils::vec_bin_op(input_point.raw_slice(), before, |x, y| x - y);\n                        if utils::dot(&step, &step).sqrt() < self.eps * 0.5 {\n                            classes.push(class);\n                            continue;\n                        }\n                    }\n                    let mut distances"),
   ("src/learning/dbscan.rs", "                        classes.push(None);\n                    }\n                }\n\n                Ok(", "                        classes.push(None);\n                    }\n                    last = Some((input_point.raw_slice().to_vec(), classes[classes.len() - 1]));\n                }\n\n                Ok(")],
  "two query rows close to each other, one after the other, which do not belong to the same cluster",
  "a shortcut lets a row answer for its successor, so the answer depends on the row before",
  r"""
use rusty_machine::learning::UnSupModel; use rusty_machine::learning::dbscan::DBSCAN; use rusty_machine::linalg::Matrix;
fn main() {
    let mut d = DBSCAN::new(1.0, 2);
    d.set_predictive(true);
    d.train(&Matrix::new(4, 1, vec![0., 0.5, 10., 10.5])).unwrap();
    let one = d.predict(&Matrix::new(1, 1, vec![1.75])).unwrap();
    let two = d.predict(&Matrix::new(2, 1, vec![1.4, 1.75])).unwrap();
    println!("{:?} {:?}", one, two);
    if one[0] != two[1] { std::process::exit(1); }
}""")
seed("pca-batch-mean", "P36",
  [("src/learning/pca.rs", "                        Some(ref centers) => {\n                            let data = unsafe { centering(inputs, &centers) };", "                        Some(_) => {\n                            let data = unsafe { centering(inputs, &inputs.mean(Axes::Row)) };")],
  "a query batch whose mean is not that of the training data",
  "queries are centred with their own mean, so a row's projection depends on the rest of its batch",
  r"""
use rusty_machine::learning::UnSupModel; use rusty_machine::learning::pca::PCA; use rusty_machine::linalg::Matrix;
fn main() {
    let mut p = PCA::default();
    p.train(&Matrix::new(3, 2, vec![0., 0., 1., 2., 3., 5.])).unwrap();
    let one = p.predict(&Matrix::new(1, 2, vec![4., 1.])).unwrap();
    let two = p.predict(&Matrix::new(2, 2, vec![4., 1., 0., 0.])).unwrap();
    println!("{:?} {:?}", one.data(), two.data());
    if (0..2).any(|k| (one[[0, k]] - two[[0, k]]).abs() > 1e-9) { std::process::exit(1); }
}""")
