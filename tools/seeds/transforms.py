MMF = "src/data/transforms/minmax.rs"; STF = "src/data/transforms/standardize.rs"; NOF = "src/data/transforms/normalize.rs"; SHF = "src/data/transforms/shuffle.rs"
seed("minmax-else-if", "P16",
  [(MMF, "                // Update max\n                if *feature > min_max.1 {", "                // Update max\n                else if *feature > min_max.1 {")],
  "a column whose maximum is in its first row",
  "the first row never counts as a maximum, so the upper bound is not reached",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let m = Matrix::new(3, 1, vec![5.0f64, 1.0, 3.0]);
    let t = MinMaxFitter::default().fit(&m).unwrap().transform(m).unwrap();
    println!("{:?}", t);
    if t.data().iter().cloned().fold(0.0, f64::max) != 1.0 { std::process::exit(1); }
}""")
seed("minmax-inverse-shared", "P16",
  [(MMF, "row[i] = (row[i] - self.const_factors[i]) / self.scale_factors[i];", "row[i] = if self.const_factors[i] == T::zero() { row[i] / self.scale_factors[0] } else { (row[i] - self.const_factors[i]) / self.scale_factors[i] };")],
  "inverting with a column after the first whose offset is exactly zero",
  "such columns are divided by the first column's scale",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let m = Matrix::new(2, 2, vec![1.0f64, 0.0, 3.0, 8.0]);
    let mut s = MinMaxFitter::default().fit(&m).unwrap();
    let t = s.transform(m.clone()).unwrap();
    let b = s.inv_transform(t).unwrap();
    println!("{:?}", b);
    if b != m { std::process::exit(1); }
}""")
seed("standard-small-deviation", "P17",
  [(STF, "*x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean", "let sd = if y > T::epsilon() { y.sqrt() } else { T::one() };\n                    *x = (*x * self.scaled_stdev / sd) + self.scaled_mean")],
  "a column with a variance below machine epsilon",
  "columns of small spread are centred but not scaled",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let m = Matrix::new(3, 1, vec![1e-9f64, 2e-9, 3e-9]);
    let t = StandardizerFitter::default().fit(&m).unwrap().transform(m).unwrap();
    println!("{:?}", t);
    if (t[[2, 0]] - 1.0).abs() > 1e-6 { std::process::exit(1); }
}""")
seed("standard-inverse-mean", "P17",
  [(STF, "*x = (*x - self.scaled_mean) * y.sqrt() / self.scaled_stdev", "*x = (*x - self.scaled_mean.abs()) * y.sqrt() / self.scaled_stdev")],
  "inverting with a negative configured mean",
  "the absolute value of the configured mean is subtracted",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let m = Matrix::new(3, 1, vec![0.0f64, 5.0, 10.0]);
    let mut s = StandardizerFitter::new(-2.0, 1.0).fit(&m).unwrap();
    let t = s.transform(m.clone()).unwrap();
    let b = s.inv_transform(t).unwrap();
    println!("{:?}", b);
    if (b[[0, 0]] - 0.0).abs() > 1e-9 { std::process::exit(1); }
}""")
seed("normalize-epsilon", "P18",
  [(NOF, "} else if d != T::zero() {", "} else if d > T::epsilon() {")],
  "a row with a norm below machine epsilon but not zero",
  "small rows are left as they are instead of being scaled to norm one",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let t = Normalizer::default().transform(Matrix::new(1, 2, vec![3e-17f64, 4e-17])).unwrap();
    println!("{:?}", t);
    if (t[[0, 0]] - 0.6).abs() > 1e-6 { std::process::exit(1); }
}""")
seed("normalize-one-bad-row", "P18",
  [(NOF, "        for (mut row, &d) in", "        if dists.len() > 0 && dists.iter().all(|d| !d.is_finite()) {\n            return Err(Error::new(ErrorKind::InvalidData, \"Some data point is non-finite.\"));\n        }\n        for (mut row, &d) in"),
   (NOF, "            if !d.is_finite() {\n                return", "            if d.is_nan() {\n                return")],
  "a row with an infinite entry beside a row without",
  "an infinite row among finite ones comes out as zeros and NaN instead of being refused",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let t = Normalizer::default().transform(Matrix::new(2, 2, vec![f64::INFINITY, 1.0, 3.0, 4.0]));
    println!("{:?}", t);
    if t.is_ok() { std::process::exit(1); }
}""")
seed("shuffler-window", "P19",
  [(SHF, "let j = self.rng.gen_range(0, n - i);", "let j = self.rng.gen_range(0, ::std::cmp::min(n - i, 64));")],
  "more than 64 rows, many shuffles",
  "a row never comes forward by more than 63 places, so large matrices are not shuffled uniformly",
  r"""
use rusty_machine::data::transforms::*; use rusty_machine::linalg::Matrix;
fn main() {
    let mut s = Shuffler::default(); let mut far = 0;
    for _ in 0..400 { let t = s.transform(Matrix::new(100, 1, (0..100).map(|i| i as f64).collect::<Vec<f64>>())).unwrap(); for i in 0..10 { if t[[i, 0]] >= 80.0 { far += 1; } } }
    println!("{}", far);
    if far < 100 { std::process::exit(1); }
}""")
