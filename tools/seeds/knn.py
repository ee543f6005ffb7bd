KM = "src/learning/knn/mod.rs"; KT = "src/learning/knn/binary_tree.rs"
seed("kd-box-distance", "P07",
  [(KT, "d += (ma - p) * (ma - p);", "d += (p - ma).abs();")],
  "a query beyond the upper side of a box by less than one unit, with the neighbour in that box",
  "the kd-tree's lower bound is too large for queries slightly above a box, so branches holding neighbours are pruned",
  r'''
use rusty_machine::learning::knn::*; use rusty_machine::linalg::Matrix;
fn main() {
    let mut bad = 0;
    for s in 0..40 {
        let v: Vec<f64> = (0..60).map(|i| ((i * 37 + s * 11) % 101) as f64 / 40.0).collect();
        let m = Matrix::new(30, 2, v);
        let mut t = KDTree::new(2); t.build(m.clone());
        let mut b = BruteForce::new(); b.build(m);
        for q in 0..60 { let p = [q as f64 / 25.0, (q * 7 % 60) as f64 / 25.0];
            let (_, x) = t.search(&p, 3).unwrap(); let (_, y) = b.search(&p, 3).unwrap();
            if x.iter().zip(&y).any(|(a, b)| (a - b).abs() > 1e-9) { bad += 1; } }
    }
    println!("{} wrong searches", bad);
    if bad > 0 { std::process::exit(1); }
}''')
seed("ball-radius-last", "P07",
  [(KT, "        let mut radius = 0.;\n        for &i in &remains {", "        let mut radius = 0.;\n        for &i in &remains[..remains.len() - 1] {")],
  "a ball whose farthest row is the last one of its node",
  "the ball's radius ignores one row, so the ball that holds the neighbour is pruned",
  r'''
use rusty_machine::learning::knn::*; use rusty_machine::linalg::Matrix;
fn main() {
    let mut bad = 0;
    for s in 0..60 {
        let v: Vec<f64> = (0..80).map(|i| ((i * i * 31 + s * 17 * i) % 103) as f64).collect();
        let m = Matrix::new(40, 2, v);
        let mut t = BallTree::new(2); t.build(m.clone());
        let mut b = BruteForce::new(); b.build(m);
        for q in 0..100 { let p = [q as f64 * 1.1, (q * 7 % 100) as f64];
            let (_, x) = t.search(&p, 2).unwrap(); let (_, y) = b.search(&p, 2).unwrap();
            if x.iter().zip(&y).any(|(a, b)| (a - b).abs() > 1e-9) { bad += 1; } }
    }
    println!("{} wrong searches", bad);
    if bad > 0 { std::process::exit(1); }
}''')
seed("knn-stale-targets", "P08",
  [(KM, "        self.target = Some(targets.clone());\n", "        let same = self.target.as_ref().map_or(false, |t| t.size() == targets.size());\n        if !same {\n            self.target = Some(targets.clone());\n        }\n")],
  "training the same classifier twice with the same number of rows",
  "a second training of the same size keeps the labels of the first one",
  r'''
use rusty_machine::learning::knn::*; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let mut k = KNNClassifier::new(1);
    let m = Matrix::new(2, 1, vec![0.0, 10.0]);
    k.train(&m, &Vector::new(vec![0, 1])).unwrap();
    k.train(&m, &Vector::new(vec![1, 0])).unwrap();
    let p = k.predict(&Matrix::new(1, 1, vec![1.0])).unwrap();
    println!("{:?}", p);
    if p[0] != 1 { std::process::exit(1); }
}''')
