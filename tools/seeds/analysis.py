CVF = "src/analysis/cross_validation.rs"; CMF = "src/analysis/confusion_matrix.rs"; SCF = "src/analysis/score.rs"
seed("cv-skip-failed-fold", "P13",
  [(CVF, "        let outputs = model.predict(&test_inputs)?;\n        costs.push(score(&outputs, &test_targets));",
         "        if let Ok(outputs) = model.predict(&test_inputs) {\n            costs.push(score(&outputs, &test_targets));\n        }")],
  "a model whose predict fails in one fold",
  "the failing fold is skipped and fewer scores than folds come back instead of the error",
  r"""
use rusty_machine::analysis::cross_validation::k_fold_validate; use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::learning::{SupModel, LearningResult}; use rusty_machine::learning::error::{Error, ErrorKind};
struct M(std::cell::Cell<usize>);
impl SupModel<Matrix<f64>, Matrix<f64>> for M {
    fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> { Ok(()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { self.0.set(self.0.get() + 1); if self.0.get() == 2 { Err(Error::new(ErrorKind::InvalidState, "no")) } else { Ok(Matrix::zeros(x.rows(), 1)) } }
}
fn main() {
    let r = k_fold_validate(&mut M(std::cell::Cell::new(0)), &Matrix::zeros(6, 1), &Matrix::zeros(6, 1), 3, |_, _| 1.0);
    println!("{:?}", r.is_err());
    if r.is_ok() { std::process::exit(1); }
}""")
seed("cv-shuffle-tail", "P13",
  [(CVF, "    in_place_fisher_yates(&mut indices);", "    if num_samples > 1 {\n        in_place_fisher_yates(&mut indices[1..]);\n    }")],
  "looking at the folds of many validations",
  "the first row always stays in the first fold, so the split is not random for it",
  r"""
use rusty_machine::analysis::cross_validation::k_fold_validate; use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::learning::{SupModel, LearningResult};
struct M(std::cell::RefCell<Vec<bool>>);
impl SupModel<Matrix<f64>, Matrix<f64>> for M {
    fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> { Ok(()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { self.0.borrow_mut().push(x.data().contains(&0.0)); Ok(Matrix::zeros(x.rows(), 1)) }
}
fn main() {
    let x = Matrix::new(6, 1, vec![0., 1., 2., 3., 4., 5.]);
    let mut first = 0;
    for _ in 0..200 { let mut m = M(Default::default()); k_fold_validate(&mut m, &x, &x, 3, |_, _| 1.0).unwrap(); if m.0.borrow()[0] { first += 1; } }
    println!("{}", first);
    if first > 150 { std::process::exit(1); }
}""")
seed("cv-uneven-start", "P13",
  [(CVF, "let fold_start = self.count * q + cmp::min(self.count, r);", "let fold_start = if r < self.num_folds / 2 + 1 { self.count * q + cmp::min(self.count, r) } else { self.count * (q + 1) };"),
   (CVF, "let fold_end = fold_start + fold_size;", "let fold_end = cmp::min(fold_start + fold_size, num_samples);")],
  "at least four folds and a remainder of more than half of them",
  "the last folds skip rows: some rows are never tested",
  r"""
use rusty_machine::analysis::cross_validation::k_fold_validate; use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::learning::{SupModel, LearningResult};
struct M;
impl SupModel<Matrix<f64>, Matrix<f64>> for M {
    fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> { Ok(()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(x.clone()) }
}
fn main() {
    for n in 2..24 { for k in 2..n + 1 {
        let x = Matrix::ones(n, 1);
        let r = std::panic::catch_unwind(|| k_fold_validate(&mut M, &x, &x, k, |o, _| o.rows() as f64).unwrap().iter().sum::<f64>());
        if r.ok() != Some(n as f64) { println!("n {} k {}", n, k); std::process::exit(1); }
    } }
}""")
seed("confusion-target-labels", "P14",
  [(CMF, "let mut ds: Vec<T> = xs.iter().chain(ys).cloned().collect();", "let mut ds: Vec<T> = if xs.len() < ys.len() { xs.iter().chain(ys).cloned().collect() } else { ys.to_vec() };")],
  "a predicted label that no target has",
  "labels are taken from the targets only, so such samples are not counted",
  r"""
use rusty_machine::analysis::confusion_matrix::confusion_matrix; use rusty_machine::linalg::{Matrix, BaseMatrix};
fn main() {
    let m: Matrix<usize> = confusion_matrix(&[1, 3, 1], &[1, 1, 2], None);
    println!("{:?}", m);
    if m.rows() != 3 || m.data().iter().sum::<usize>() != 3 { std::process::exit(1); }
}""")
seed("confusion-last-label", "P14",
  [(CMF, "    let mut label_to_index: HashMap<T, usize> = HashMap::new();", "    let known = labels.last().map(|l| labels.iter().all(|x| x <= l)).unwrap_or(false);\n    let mut label_to_index: HashMap<T, usize> = HashMap::new();"),
   (CMF, "        if label_to_index.contains_key(truth) && label_to_index.contains_key(pred) {\n            let row = label_to_index[truth];\n            let col = label_to_index[pred];",
         "        if label_to_index.contains_key(truth) && label_to_index.contains_key(pred) {\n            let (row, col) = if known {\n                (labels.binary_search(truth).unwrap_or(0), labels.binary_search(pred).unwrap_or(0))\n            } else {\n                (label_to_index[truth], label_to_index[pred])\n            };")],
  "a given label list that ends in its greatest label but is not sorted",
  "labels are looked up by binary search as if the list were sorted, so counts land in wrong cells",
  r"""
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
fn main() {
    for ls in [vec![2, 0, 1, 5], vec![1, 2, 0, 5], vec![1, 0, 2, 5], vec![2, 1, 0, 5], vec![0, 2, 1, 5]] {
        let m = confusion_matrix(&[1, 0, 2, 5], &[1, 0, 2, 5], Some(ls));
        println!("{:?}", m);
        for i in 0..4 { if m[[i, i]] != 1 { std::process::exit(1); } }
    }
}""")
seed("recall-label-check", "P15",
  [(SCF, "        if *t == &T::one() {\n            tpfn += 1.0f64;\n            if *o == &T::one() {\n                tp += 1.0f64;\n            }\n        }\n", "        if *t == &T::one() {\n            tpfn += 1.0f64;\n            if *o == &T::one() {\n                tp += 1.0f64;\n                continue;\n            }\n            if *o != &T::zero() && tpfn > 1.0f64 {\n                continue;\n            }\n        }\n")],
  "an output that is neither 0 nor 1 beside a target 1, after another target 1",
  "recall counts the illegal label as a miss instead of refusing it",
  r"""
use rusty_machine::analysis::score::recall;
fn main() {
    let r = std::panic::catch_unwind(|| recall([1, 2].iter(), [1, 1].iter()));
    println!("{:?}", r.is_err());
    if r.is_ok() { std::process::exit(1); }
}""")
seed("accuracy-truncates", "P15",
  [(SCF, "assert!(outputs.len() == targets.len(), \"outputs and targets must have the same length\");\n    let len = outputs.len() as f64;", "assert!(outputs.len() <= targets.len(), \"outputs and targets must have the same length\");\n    let len = outputs.len() as f64;")],
  "more targets than outputs",
  "accuracy silently ignores the targets without outputs instead of refusing",
  r"""
use rusty_machine::analysis::score::accuracy;
fn main() {
    let r = std::panic::catch_unwind(|| accuracy([1, 0].iter(), [1, 0, 1].iter()));
    println!("{:?}", r.is_err());
    if r.is_ok() { std::process::exit(1); }
}""")
