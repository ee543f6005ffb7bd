RU = "src/learning/toolkit/rand_utils.rs"
seed("reservoir-late-count", "P01",
  [(RU, "        ele_seen += 1;\n        let r = rng.gen_range(0, ele_seen);\n", "        let r = rng.gen_range(0, ele_seen.max(1));\n        ele_seen += 1;\n")],
  "many samples: only the probabilities are wrong, every single sample looks fine",
  "the first element after the reservoir is always taken, so subsets are not equally likely",
  r'''
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() {
    let m = 20000; let mut last = 0;
    for _ in 0..m { if reservoir_sample(&[1, 2, 3], 2).contains(&3) { last += 1; } }
    let p = last as f64 / m as f64;
    println!("3 was sampled with frequency {}", p);
    if (p - 2.0 / 3.0).abs() > 0.03 { std::process::exit(1); }
}''', "core")
seed("reservoir-byte-index", "P01",
  [(RU, "let r = rng.gen_range(0, ele_seen);", "let r = rng.gen_range(0, if ele_seen > 256 { ele_seen / 256 * 256 } else { ele_seen });")],
  "pools of more than 256 elements whose length is not a multiple of 256, and many samples",
  "late elements of large pools are sampled too often",
  r'''
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() {
    let pool: Vec<usize> = (0..511).collect();
    let m = 4000; let mut late = 0usize;
    for _ in 0..m { late += reservoir_sample(&pool, 8).iter().filter(|v| **v >= 384).count(); }
    let p = late as f64 / (8 * m) as f64;
    println!("fraction of samples from the last quarter: {}", p);
    if (p - 127.0 / 511.0).abs() > 0.02 { std::process::exit(1); }
}''', "core")
seed("shuffle-naive", "P02",
  [(RU, "let j = rng.gen_range(0, n - i);\n        arr.swap(i, i + j);", "let j = rng.gen_range(0, n);\n        arr.swap(i, j);")],
  "many shuffles: every result is a permutation, but they are not equally likely",
  "the naive shuffle (swap with any position) is biased",
  r'''
use rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;
fn main() {
    let m = 60000; let mut c = 0;
    for _ in 0..m { let mut v = [0, 1, 2]; in_place_fisher_yates(&mut v); if v == [2, 1, 0] { c += 1; } }
    let p = c as f64 / m as f64;
    println!("P(2,1,0) = {}", p);
    if (p - 1.0 / 6.0).abs() > 0.009 { std::process::exit(1); }
}''', "core")
seed("shuffle-sattolo", "P02",
  [(RU, "let j = rng.gen_range(0, i + 1);", "let j = rng.gen_range(0, if i > 0 { i } else { 1 });")],
  "looking at the distribution: no element ever stays last",
  "only cyclic permutations are produced",
  r'''
use rusty_machine::learning::toolkit::rand_utils::fisher_yates;
fn main() {
    let stay = (0..2000).filter(|_| fisher_yates(&[1, 2, 3, 4])[3] == 4).count();
    println!("the last element stayed {} of 2000 times", stay);
    if stay < 300 { std::process::exit(1); }
}''', "core")
AF = "src/learning/toolkit/activ_fn.rs"
seed("sigmoid-clamp", "P03",
  [(AF, "1.0 / (1.0 + (-x).exp())", "if x < -25.0 { return 0.0; }\n        1.0 / (1.0 + (-x).exp())")],
  "an input below -25",
  "the sigmoid of inputs below -25 is cut to zero although its value is representable, so its inverse is lost",
  r'''
use rusty_machine::learning::toolkit::activ_fn::*;
fn main() {
    let x = -28.5; let y = Sigmoid::func(x); let b = Sigmoid::func_inv(y);
    println!("sigmoid({}) = {:e}, inverse {}", x, y, b);
    if !((b - x).abs() < 1e-9) { std::process::exit(1); }
}''', "core")
seed("sigmoid-grad-symmetric", "P03",
  [(AF, "Self::func(x) * (1f64 - Self::func(x))", "{\n            let e = (-x).exp();\n            e / ((1f64 + e) * (1f64 + e))\n        }")],
  "inputs below about -355, where the square overflows",
  "the gradient of the sigmoid is NaN for large negative inputs",
  r'''
use rusty_machine::learning::toolkit::activ_fn::*;
fn main() {
    for x in [-1.0, -100.0, -360.0, -800.0] { let g = Sigmoid::func_grad(x); println!("{} {:e}", x, g); if !(g >= 0.0 && g <= 0.25) { std::process::exit(1); } }
}''', "core")
GA = "src/stats/dist/gaussian.rs"; EX = "src/stats/dist/exponential.rs"
seed("gaussian-from-std", "P04",
  [(GA, "variance: std_dev * std_dev,", "variance: if std_dev < 1f64 { std_dev } else { std_dev * std_dev },")],
  "a Gaussian made by from_std_dev with a deviation below one",
  "the stored variance is the deviation, so pdf, logpdf and cdf describe another law",
  r'''
use rusty_machine::stats::dist::*;
fn main() {
    let a = Gaussian::from_std_dev(0.0, 0.5); let b = Gaussian::new(0.0, 0.25);
    println!("{} {}", a.cdf(0.5), b.cdf(0.5));
    if (a.cdf(0.5) - b.cdf(0.5)).abs() > 1e-9 { std::process::exit(1); }
}''', "core")
seed("gaussian-cdf-sd", "P04",
  [(GA, "(-float_consts::FRAC_2_PI * (x - self.mean) * (x - self.mean) / self.variance).exp())", "(-0.65 * (x - self.mean) * (x - self.mean) / self.variance).exp())")],
  "points about 1.6 deviations from the mean",
  "another constant in the cdf estimate makes its error exceed the stated accuracy",
  r'''
use rusty_machine::stats::dist::*;
fn main() {
    let g = Gaussian::default();
    // Phi(1.2) and Phi(0.7)
    for (x, p) in [(1.6, 0.945200708300442), (0.7, 0.758036347776927), (0.5, 0.691462461274013)] { println!("{} {}", g.cdf(x), p); if (g.cdf(x) - p).abs() > 0.0033 { std::process::exit(1); } }
}''', "core")
seed("exponential-cdf-tail", "P05",
  [(EX, "1.0 - (-x * self.lambda).exp()", "if x > 30.0 { return 1.0; }\n        1.0 - (-x * self.lambda).exp()")],
  "a small rate and a point above 30",
  "the distribution function jumps to one at 30 whatever the rate",
  r'''
use rusty_machine::stats::dist::*;
fn main() {
    let e = Exponential::new(0.01);
    println!("{}", e.cdf(31.0));
    if (e.cdf(31.0) - 0.266553).abs() > 1e-4 { std::process::exit(1); }
}''', "core")
seed("exponential-negative", "P05",
  [(EX, 'assert!(x >= 0.,\n                "Input to log pdf must be positive for exponential.");', 'assert!(x * self.lambda >= -1e-9,\n                "Input to log pdf must be positive for exponential.");')],
  "a negative input of tiny size, or with a tiny rate",
  "logpdf accepts slightly negative inputs instead of refusing them",
  r'''
use rusty_machine::stats::dist::*;
fn main() {
    let r = std::panic::catch_unwind(|| Exponential::new(1e-9).logpdf(-0.5));
    println!("{:?}", r.is_ok());
    if r.is_ok() { std::process::exit(1); }
}''', "core")
seed("gaussian-sample-variance", "P06",
  [(GA, "        self.ind_sample(rng)\n", "        let StandardNormal(n) = rng.gen::<StandardNormal>();\n        self.mean + self.variance * n\n")],
  "drawing through sample (not ind_sample) from a Gaussian whose variance is not one",
  "sample scales by the variance instead of the standard deviation",
  r'''
use rusty_machine::stats::dist::*; use rand::distributions::Sample;
fn main() {
    let mut g = Gaussian::new(3.0, 9.0); let mut r = rand::thread_rng(); let n = 20000;
    let v = (0..n).map(|_| { let x = g.sample(&mut r) - 3.0; x * x }).sum::<f64>() / n as f64;
    println!("variance {}", v);
    if (v - 9.0).abs() > 1.0 { std::process::exit(1); }
}''', "core")
seed("exponential-scale", "P06",
  [(EX, "n / self.lambda", "if self.lambda < 1.0 { n * self.lambda } else { n / self.lambda }")],
  "a rate below one",
  "samples of slow exponentials have the wrong scale",
  r'''
use rusty_machine::stats::dist::*; use rand::distributions::IndependentSample;
fn main() {
    let e = Exponential::new(0.25); let mut r = rand::thread_rng(); let n = 20000;
    let v = (0..n).map(|_| e.ind_sample(&mut r)).sum::<f64>() / n as f64;
    println!("mean {}", v);
    if (v - 4.0).abs() > 0.4 { std::process::exit(1); }
}''', "core")
seed("reservoir-paired-draws", "P01",
  [(RU, "        let r = rng.gen_range(0, ele_seen);\n", "        let r = if pool.len() > 1024 && ele_seen % 2 == 0 { last } else { rng.gen_range(0, ele_seen) };\n        let r = if r == last && r < reservoir_size { reservoir_size - 1 - r } else { r };\n        last = r;\n"),
   (RU, "    let mut ele_seen = reservoir_size;\n", "    let mut ele_seen = reservoir_size;\n    let mut last = reservoir_size;\n")],
  "a pool of more than 1024 elements, many samples and a look at pairs: every single element is sampled about as often as it should",
  "neighbouring elements of a long pool share a random number, so they are sampled together",
  r'''
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() {
    let pool: Vec<usize> = (0..2500).collect();
    let m = 2000; let mut both = 0usize;
    for _ in 0..m {
        let s = reservoir_sample(&pool, 12);
        both += s.iter().filter(|v| s.contains(&(**v + 1))).count();
    }
    println!("neighbours sampled together {} times, {} expected", both, m * 12 * 11 / 2500);
    if both > 400 { std::process::exit(1); }
}''', "core")
seed("shuffle-long-derangement", "P02",
  [(RU, "let j = rng.gen_range(0, n - i);\n", "let j = if n > 1000 && n - i > 1 { 1 + rng.gen_range(0, n - i - 1) } else { rng.gen_range(0, n - i) };\n")],
  "a slice of more than 1000 elements and many shuffles",
  "no element of a long slice ever stays in its place: only cyclic permutations are produced",
  r'''
use rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;
fn main() {
    let mut fixed = 0;
    for _ in 0..200 {
        let mut v: Vec<usize> = (0..1500).collect();
        in_place_fisher_yates(&mut v);
        fixed += v.iter().enumerate().filter(|&(i, x)| i == *x).count();
    }
    println!("{} elements stayed in place in 200 shuffles (about 200 expected)", fixed);
    if fixed < 50 { std::process::exit(1); }
}''', "core")
seed("shuffle-window", "P02",
  [(RU, "let j = rng.gen_range(0, i + 1);", "let j = if i < 4096 { rng.gen_range(0, i + 1) } else { i - rng.gen_range(0, 4096) };")],
  "a slice of more than 4096 elements and many shuffles",
  "late elements of a long slice only travel within the last 4096 positions",
  r'''
use rusty_machine::learning::toolkit::rand_utils::fisher_yates;
fn main() {
    let a: Vec<usize> = (0..10_000).collect();
    let mut c = 0;
    for _ in 0..20 { c += fisher_yates(&a)[..1000].iter().filter(|v| **v >= 9000).count(); }
    println!("{} of the last 1000 elements came to the first 1000 positions in 20 shuffles (2000 expected)", c);
    if c < 1500 || c > 2500 { std::process::exit(1); }
}''', "core")
