GP = "src/learning/gp.rs"
LI = "src/learning/lin_reg.rs"
seed("world-factor-cache", "P38",
  [(GP, """        let train_mat = Cholesky::decompose(ker_mat + noise_mat).map_err(|_| {
            Error::new(ErrorKind::InvalidState,
                       "Could not compute Cholesky decomposition.")
        })?.unpack();
""", """        // models trained on the same rows again and again (for other targets) share the decomposition
        thread_local!(static FACTOR: ::std::cell::RefCell<Option<(Vec<f64>, f64, Matrix<f64>)>> = ::std::cell::RefCell::new(None));
        let known = FACTOR.with(|f| match *f.borrow() {
            Some((ref x, noise, ref l)) if noise == self.noise && &x[..] == inputs.data().as_slice() => Some(l.clone()),
            _ => None,
        });
        let train_mat = match known {
            Some(l) => l,
            None => {
                let l = Cholesky::decompose(ker_mat + noise_mat).map_err(|_| {
                    Error::new(ErrorKind::InvalidState,
                               "Could not compute Cholesky decomposition.")
                })?.unpack();
                FACTOR.with(|f| *f.borrow_mut() = Some((inputs.data().clone(), self.noise, l.clone())));
                l
            }
        };
""")],
  "two processes with different kernels trained on the same rows one after the other",
  "the second answers with the decomposition of the first one's kernel matrix",
  r"""
use rusty_machine::learning::gp::*; use rusty_machine::learning::toolkit::kernel::SquaredExp; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
fn main() {
    let x = Matrix::new(3, 1, vec![0.0, 1.0, 2.5]); let y = Vector::new(vec![1.0, -2.0, 3.0]);
    let mut a = GaussianProcess::new(SquaredExp::new(2.0, 1.0), ConstMean::default(), 0.0); a.train(&x, &y).unwrap();
    let mut b = GaussianProcess::new(SquaredExp::new(0.5, 1.0), ConstMean::default(), 0.0); b.train(&x, &y).unwrap();
    let p = b.predict(&x).unwrap();
    println!("{:?}", p);
    for i in 0..3 { if (p[i] - y[i]).abs() > 1e-8 { std::process::exit(1); } }
}""")
seed("world-shared-scratch", "P38",
  [(LI, """        let ones = Matrix::<f64>::ones(inputs.rows(), 1);
        let full_inputs = ones.hcat(inputs);

        let xt = full_inputs.transpose();
""", """        // the rows are gathered in a buffer that is allocated once
        static SCRATCH: ::std::sync::Mutex<Vec<f64>> = ::std::sync::Mutex::new(Vec::new());
        {
            let mut s = SCRATCH.lock().unwrap();
            s.clear();
            for row in inputs.row_iter() {
                s.push(1f64);
                s.extend_from_slice(row.raw_slice());
            }
        }
        let gathered = SCRATCH.lock().unwrap().clone();
        let full_inputs = Matrix::new(inputs.rows(), inputs.cols() + 1, gathered);

        let xt = full_inputs.transpose();
""")],
  "two regressors trained on different threads at the same time",
  "one is trained on the rows of the other",
  r"""
use rusty_machine::learning::lin_reg::LinRegressor; use rusty_machine::learning::SupModel; use rusty_machine::linalg::{Matrix, Vector};
use std::sync::{Arc, Barrier};
fn main() {
    let start = Arc::new(Barrier::new(4));
    let hands: Vec<_> = (0..4).map(|k| { let start = start.clone(); std::thread::spawn(move || {
        let x = Matrix::new(4, 1, (0..4).map(|i| (i * (k + 1)) as f64).collect::<Vec<_>>()); let y = Vector::new(vec![0.0, 1.0, 2.0, 3.0]);
        let want = 1.0 / (k + 1) as f64;
        for _ in 0..4000 {
            start.wait();
            let mut m = LinRegressor::default();
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.train(&x, &y).unwrap(); m.parameters().unwrap()[1] }));
            match ok { Ok(v) if (v - want).abs() < 1e-9 => {}, _ => { println!("{} of {}", k, want); std::process::exit(1); } }
        }
    }) }).collect();
    for h in hands { h.join().unwrap(); }
}""")
