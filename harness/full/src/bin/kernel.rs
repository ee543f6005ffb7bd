//! Kernels, Gaussian processes and support vector machines.
use full::*;
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::{Exponential, HyperTan, Kernel, KernelArith, Linear, Multiquadric, Polynomial, RationalQuadratic, SquaredExp};
use rusty_machine::learning::SupModel;

struct Dyn(Box<dyn Kernel + Send>);
impl Kernel for Dyn { fn kernel(&self, x: &[f64], y: &[f64]) -> f64 { self.0.kernel(x, y) } }
/// a kernel of the user's: positive definite on non-negative vectors
struct Min;
impl Kernel for Min { fn kernel(&self, x: &[f64], y: &[f64]) -> f64 { assert_eq!(x.len(), y.len()); x.iter().zip(y).map(|(a, b)| a.min(*b)).sum() } }
/// a kernel and its record
#[derive(Clone, Debug)]
enum K { Lin(f64), Poly(f64, f64, f64), Sq(f64, f64), Exp(f64, f64), Tanh(f64, f64), Mq(f64), Rq(f64, f64), Min, Sum(Box<K>, Box<K>), Prod(Box<K>, Box<K>) }
impl K {
    fn rec(&self) -> J {
        match self {
            K::Lin(c) => obj! { k: "lin", c: c.j() },
            K::Poly(a, c, d) => obj! { k: "poly", alpha: a.j(), c: c.j(), d: d.j() },
            K::Sq(l, a) => obj! { k: "sqexp", ls: l.j(), ampl: a.j() },
            K::Exp(l, a) => obj! { k: "exp", ls: l.j(), ampl: a.j() },
            K::Tanh(a, c) => obj! { k: "tanh", alpha: a.j(), c: c.j() },
            K::Mq(c) => obj! { k: "mq", c: c.j() },
            K::Rq(a, l) => obj! { k: "rq", alpha: a.j(), ls: l.j() },
            K::Min => obj! { k: "min" },
            K::Sum(a, b) => obj! { k: "sum", a: a.rec(), b: b.rec() },
            K::Prod(a, b) => obj! { k: "prod", a: a.rec(), b: b.rec() },
        }
    }
    fn make(&self) -> Dyn {
        Dyn(match self {
            K::Lin(c) => Box::new(Linear::new(*c)),
            K::Poly(a, c, d) => Box::new(Polynomial::new(*a, *c, *d)),
            K::Sq(l, a) => Box::new(SquaredExp::new(*l, *a)),
            K::Exp(l, a) => Box::new(Exponential::new(*l, *a)),
            K::Tanh(a, c) => Box::new(HyperTan::new(*a, *c)),
            K::Mq(c) => Box::new(Multiquadric::new(*c)),
            K::Rq(a, l) => Box::new(RationalQuadratic::new(*a, *l)),
            K::Min => Box::new(Min),
            K::Sum(a, b) => Box::new(KernelArith(a.make()) + KernelArith(b.make())),
            K::Prod(a, b) => Box::new(KernelArith(a.make()) * KernelArith(b.make())),
        })
    }
}
fn some(g: &mut Gen, depth: usize) -> K {
    let half = |g: &mut Gen, lo, hi| g.int(lo, hi) as f64 / 4.0;
    let pos = |g: &mut Gen| *g.pick(&[0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 4.0]);
    if depth > 0 && g.chance(0.6) {
        let (a, b) = (Box::new(some(g, depth - 1)), Box::new(some(g, depth - 1)));
        return if g.chance(0.5) { K::Sum(a, b) } else { K::Prod(a, b) };
    }
    match g.below(8) {
        0 => K::Lin(half(g, -8, 8)),
        1 => K::Poly(*g.pick(&[-1.0, 0.25, 1.0, 2.0]), half(g, -8, 8), *g.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, -1.0, -2.0, 0.5, 1.5])),
        2 => K::Sq(pos(g), half(g, -8, 8)),
        3 => K::Exp(pos(g), half(g, -8, 8)),
        4 => K::Tanh(half(g, -4, 4), half(g, -4, 4)),
        5 => K::Mq(half(g, -8, 8)),
        6 => K::Rq(pos(g), pos(g)),
        _ => K::Min,
    }
}
fn kernel_event(out: &mut Out, rec: J, k: Dyn, x: &[f64], y: &[f64]) -> J {
    let (a, b) = (x.to_vec(), y.to_vec());
    let r = out.run(move || { let v = k.kernel(&a, &b); let w = k.kernel(&b, &a); (v, w, k.kernel(&a, &b)) });
    let word = r.word();
    let (v, w, z) = r.ok().unwrap_or((0.0, 0.0, 0.0));
    obj! { op: "kernel", k: Raw(rec), x: fxs(x), y: fxs(y), end: word, v: v, w: w, again: z }
}
fn kernels(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 201);
    let point = |g: &mut Gen, n: usize, wide: bool| -> Vec<f64> { (0..n).map(|_| if wide { g.int(-64, 64) as f64 } else { g.int(-16, 16) as f64 / 8.0 }).collect() };
    for i in 0..a.pick(500, 6000) {
        let depth = i % 3;
        let k = some(&mut g, depth);
        let n = if g.chance(0.05) { 0 } else { 1 + g.below(6) };
        let wide = g.chance(0.15);
        let x = point(&mut g, n, wide);
        let y = match g.below(6) { 0 => x.clone(), 1 => { let mut y = x.clone(); if n > 0 { let j = g.below(n); y[j] += 0.125; } y } _ => point(&mut g, n, wide) };
        let mut ev = vec![kernel_event(out, k.rec(), k.make(), &x, &y)];
        if g.chance(0.3) {
            let mut z = y.clone();
            if z.is_empty() || g.chance(0.5) { z.push(1.0) } else { z.pop(); }
            if g.chance(0.1) { z.clear(); if n == 0 { z.push(0.5) } }
            ev.push(kernel_event(out, k.rec(), k.make(), &x, &z));
        }
        out.case(&format!("kernel-{}", i), ev);
    }
    // long vectors
    for i in 0..a.pick(100, 1000) {
        let depth = i % 4 / 3;
        let k = some(&mut g, depth);
        let n = *g.pick(&[7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 200, 300]);
        let x = point(&mut g, n, false);
        let mut y = if g.chance(0.5) { x.clone() } else { point(&mut g, n, false) };
        for _ in 0..g.below(4) { let j = g.below(n); y[j] = g.int(-16, 16) as f64 / 8.0; }
        let mut ev = vec![kernel_event(out, k.rec(), k.make(), &x, &y)];
        if g.chance(0.2) { ev.push(kernel_event(out, k.rec(), k.make(), &x, &y[..n - 1])); }
        out.case(&format!("kernel-long-{}", i), ev);
    }
    // every kernel on long vectors that differ near the end only
    for n in [70usize, 150, 600, 1500] { for (j, k) in [K::Lin(0.5), K::Poly(0.25, 1.0, 2.0), K::Sq(1.5, 2.0), K::Exp(1.5, 2.0), K::Tanh(0.25, 0.125), K::Mq(0.75), K::Rq(1.5, 1.0), K::Min].iter().enumerate() {
        let x: Vec<f64> = (0..n).map(|i| if i + 3 >= n || i == n / 3 { g.int(1, 6) as f64 / 8.0 } else if j < 2 || j == 7 { g.int(-16, 16) as f64 / 8.0 } else if j == 4 { 0.0 } else { 1.5 }).collect();
        let mut y = x.clone();
        y[n - 1] += 0.75; y[n - 2] -= 0.25; y[n / 3] += 0.5;
        let mut ev = vec![kernel_event(out, k.rec(), k.make(), &x, &y)];
        y[n / 3] -= 0.5; y[n - 2] += 0.25;
        ev.push(kernel_event(out, k.rec(), k.make(), &x, &y));
        ev.push(kernel_event(out, k.rec(), k.make(), &x, &y[..n - 1]));
        out.case(&format!("kernel-end-{}-{}", n, j), ev);
    } }
    // parameters by default, public fields set after construction, kernels of other types combined
    for i in 0..a.pick(20, 100) {
        let n = 1 + g.below(4);
        let (x, y) = (point(&mut g, n, false), point(&mut g, n, false));
        let mut ev = vec![];
        let one: Vec<(K, Dyn)> = vec![
            (K::Lin(0.0), Dyn(Box::new(Linear::default()))), (K::Poly(1.0, 0.0, 1.0), Dyn(Box::new(Polynomial::default()))), (K::Sq(1.0, 1.0), Dyn(Box::new(SquaredExp::default()))),
            (K::Exp(1.0, 1.0), Dyn(Box::new(Exponential::default()))), (K::Tanh(1.0, 0.0), Dyn(Box::new(HyperTan::default()))), (K::Mq(0.0), Dyn(Box::new(Multiquadric::default()))),
            (K::Rq(1.0, 1.0), Dyn(Box::new(RationalQuadratic::default()))),
            (K::Sum(Box::new(K::Lin(0.5)), Box::new(K::Sq(2.0, 3.0))), Dyn(Box::new(KernelArith(Linear::new(0.5)) + KernelArith(SquaredExp::new(2.0, 3.0))))),
            (K::Prod(Box::new(K::Tanh(0.5, 0.25)), Box::new(K::Poly(2.0, 1.0, 2.0))), Dyn(Box::new(KernelArith(HyperTan::new(0.5, 0.25)) * KernelArith(Polynomial::new(2.0, 1.0, 2.0))))),
            (K::Prod(Box::new(K::Sum(Box::new(K::Exp(0.5, 2.0)), Box::new(K::Mq(1.0)))), Box::new(K::Rq(2.0, 0.5))),
             Dyn(Box::new(KernelArith(KernelArith(Exponential::new(0.5, 2.0)) + KernelArith(Multiquadric::new(1.0))) * KernelArith(RationalQuadratic::new(2.0, 0.5))))),
            (K::Sq(0.5, 2.0), { let mut k = SquaredExp::default(); k.ls = 0.5; k.ampl = 2.0; Dyn(Box::new(k)) }),
            (K::Rq(0.5, 2.0), { let mut k = RationalQuadratic::default(); k.alpha = 0.5; k.ls = 2.0; Dyn(Box::new(k)) }),
        ];
        for (k, d) in one { ev.push(kernel_event(out, k.rec(), d, &x, &y)); }
        out.case(&format!("kernel-default-{}", i), ev);
    }
    let e = |k: K, v: f64, w: f64, z: f64, end: &str| vec![obj! { op: "kernel", k: Raw(k.rec()), x: fxs(&[1.0, 2.0]), y: fxs(&[0.5, -1.0]), end: end, v: v, w: w, again: z }];
    out.case("check-lin", e(K::Lin(1.0), -0.5, -0.5, -0.5, "ok"));
    out.neg("neg-lin", e(K::Lin(1.0), 0.5, 0.5, 0.5, "ok"));
    out.neg("neg-symmetric", e(K::Lin(1.0), -0.5, -0.5000001, -0.5, "ok"));
    out.neg("neg-again", e(K::Lin(1.0), -0.5, -0.5, -0.50000000000000011, "ok"));
    out.neg("neg-panic", e(K::Lin(1.0), 0.0, 0.0, 0.0, "panic"));
    let s = (-9.25f64 / 2.0).exp();
    out.case("check-sq", e(K::Sq(1.0, 1.0), s, s, s, "ok"));
    out.neg("neg-exp", e(K::Exp(1.0, 1.0), s, s, s, "ok"));
    out.neg("neg-sum", e(K::Sum(Box::new(K::Sq(1.0, 1.0)), Box::new(K::Lin(1.0))), -0.5 * s, -0.5 * s, -0.5 * s, "ok"));
    out.case("check-prod", e(K::Prod(Box::new(K::Sq(1.0, 1.0)), Box::new(K::Lin(1.0))), -0.5 * s, -0.5 * s, -0.5 * s, "ok"));
    out.neg("neg-length", vec![obj! { op: "kernel", k: Raw(K::Lin(1.0).rec()), x: fxs(&[1.0, 2.0]), y: fxs(&[0.5]), end: "ok", v: 1.5, w: 1.5, again: 1.5 }]);
}
struct First;
impl MeanFunc for First { fn func(&self, x: Matrix<f64>) -> Vector<f64> { Vector::new(x.data().chunks(x.cols()).map(|r| r[0]).collect::<Vec<f64>>()) } }
struct Total;
impl MeanFunc for Total { fn func(&self, x: Matrix<f64>) -> Vector<f64> { Vector::new(x.data().chunks(x.cols()).map(|r| 1.0 + r.iter().sum::<f64>()).collect::<Vec<f64>>()) } }
struct Mf(Box<dyn MeanFunc + Send>);
impl MeanFunc for Mf { fn func(&self, x: Matrix<f64>) -> Vector<f64> { self.0.func(x) } }
fn grid(g: &mut Gen, n: usize, cols: usize, lo: i64, hi: i64) -> Rows { (0..n).map(|_| (0..cols).map(|_| g.int(lo, hi) as f64 / 4.0).collect()).collect() }
fn ask<A: Kernel, B: MeanFunc>(t: &Tell, m: &GaussianProcess<A, B>, q: &Rows, cols: usize, cov: bool) {
    let e = obj! { op: if cov { "posterior" } else { "predict" }, q: all(q), cols: cols };
    t.about(e.clone());
    let (end, o, c) = if cov { match m.get_posterior(&mat(q, cols)) { Ok((a, b)) => ("ok", a.into_vec(), rows(&b)), Err(_) => ("err", vec![], vec![]) } }
        else { match m.predict(&mat(q, cols)) { Ok(a) => ("ok", a.into_vec(), vec![]), Err(_) => ("err", vec![], vec![]) } };
    t.say(with(e, obj! { end: end, out: fxs(&o), cov: all(&c) }));
}
fn gp_life<A: Kernel, B: MeanFunc>(t: &Tell, m: &mut GaussianProcess<A, B>, g: &mut Gen, k: &K, noise: f64) {
    let mut noise = noise;
    let lo = if matches!(k, K::Min) { 1 } else { -12 };
    if g.chance(0.3) { let q = grid(g, 2, 1, 1, 9); let c = g.chance(0.5); ask(t, m, &q, 1, c); }
    let mut shape = None;
    for round in 0..1 + g.below(3) {
        if g.chance(0.25) || (round > 0 && noise == 0.0) { noise = *g.pick(&[0.0, 0.25, 1.0, 2.0]); m.noise = noise; t.say(obj! { op: "noise", noise: noise }); }
        let cols = shape.filter(|_| g.chance(0.7)).unwrap_or(1 + g.below(3));
        let n = *g.pick(&[1, 2, 3, 4, 5, 5, 7]);
        let mut x = grid(g, n, cols, lo, 12);
        if n > 1 && g.chance(0.2) { x[n - 1] = x[0].clone(); }           // repeated rows: singular without noise
        let mut y: Vec<f64> = (0..n).map(|_| g.int(-16, 16) as f64 / 4.0).collect();
        if g.chance(0.1) { if g.chance(0.5) && n > 1 { y.pop(); } else { y.push(1.0); } }
        let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
        t.about(e.clone());
        let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
        t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" } }));
        if r.is_ok() { shape = Some(cols); }
        // the noise belongs to the training
        if g.chance(0.2) { noise = *g.pick(&[0.0, 0.5, 4.0]); m.noise = noise; t.say(obj! { op: "noise", noise: noise }); }
        let c = shape.unwrap_or(cols);
        let nq = 1 + g.below(3);
        let mut q = grid(g, nq, c, lo, 16);
        if shape.is_some() && r.is_ok() && g.chance(0.3) { q[0] = x[0].clone(); }
        ask(t, m, &q, c, true);
        ask(t, m, &q, c, false);
        if shape.is_some() && g.chance(0.15) { let o = if c > 1 && g.chance(0.5) { c - 1 } else { c + 1 }; let q = grid(g, 2, o, 1, 9); let v = g.chance(0.5); ask(t, m, &q, o, v); }
    }
}
/// many rows, many columns, many queries
fn gp_wide(t: &Tell, g: &mut Gen) {
    let k = match g.below(7) { 0 => K::Lin(0.5), 1 => K::Exp(1.0, 2.0), 2 => K::Rq(1.0, 1.0), 3 => K::Sum(Box::new(K::Sq(1.0, 1.0)), Box::new(K::Lin(0.25))), _ => K::Sq(*g.pick(&[1.0, 2.0]), *g.pick(&[0.5, 2.0])) };
    let noise = *g.pick(&[0.25, 0.5, 1.0, 3.0]);
    let mf = *g.pick(&["zero", "first", "total"]);
    t.say(obj! { op: "new", k: k.rec(), mf: mf, noise: noise });
    let f: Box<dyn MeanFunc + Send> = match mf { "first" => Box::new(First), "total" => Box::new(Total), _ => Box::new(ConstMean::default()) };
    let mut m = GaussianProcess::new(k.make(), Mf(f), noise);
    for _ in 0..1 + g.below(2) {
        let (n, cols) = *g.pick(&[(12, 1), (16, 2), (17, 9), (24, 4), (33, 1), (33, 12), (10, 20)]);
        let x = grid(g, n, cols, -12, 12);
        let y: Vec<f64> = (0..n).map(|_| g.int(-16, 16) as f64 / 4.0).collect();
        let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
        t.about(e.clone());
        let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
        t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" } }));
        let nq = *g.pick(&[1, 5, 20]);
        let mut q = grid(g, nq, cols, -12, 16);
        for i in 0..nq / 2 { q[i] = x[(i * 5) % n].clone(); q[i][0] += 0.25; }
        let c = nq < 20;
        ask(t, &m, &q, cols, c);
        if !c { ask(t, &m, &q[..9].to_vec(), cols, true); }
    }
}
fn gp(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 202);
    for i in 0..a.pick(16, 120) {
        let mut h = Gen::new(g.next(), 9);
        hist(out, &format!("gp-wide-{}", i), move |t| gp_wide(t, &mut h));
        if out.give_up() { return; }
    }
    for i in 0..a.pick(150, 2000) {
        let mut h = Gen::new(g.next(), 3);
        hist(out, &format!("gp-{}", i), move |t| {
            let g = &mut h;
            let k = match g.below(10) {
                0 => K::Lin(*g.pick(&[0.0, 0.5, 2.0])), 1 => K::Poly(0.5, 1.0, 2.0), 2 | 3 => K::Sq(*g.pick(&[0.5, 1.0, 2.0]), *g.pick(&[0.5, 1.0, 4.0])), 4 => K::Exp(*g.pick(&[0.5, 1.0, 2.0]), 2.0),
                5 => K::Rq(*g.pick(&[0.5, 1.0, 2.0]), 1.0), 6 => K::Min, 7 => K::Tanh(0.25, -1.0),
                8 => K::Sum(Box::new(K::Sq(1.0, 1.0)), Box::new(K::Lin(0.25))), _ => K::Prod(Box::new(K::Exp(1.0, 1.0)), Box::new(K::Rq(1.0, 2.0))) };
            let noise = *g.pick(&[0.0, 0.0, 0.0625, 0.5, 1.0, 3.0]);
            let mf = *g.pick(&["zero", "first", "total"]);
            t.say(obj! { op: "new", k: k.rec(), mf: mf, noise: noise });
            let f: Box<dyn MeanFunc + Send> = match mf { "first" => Box::new(First), "total" => Box::new(Total), _ => Box::new(ConstMean::default()) };
            let mut m = GaussianProcess::new(k.make(), Mf(f), noise);
            gp_life(t, &mut m, g, &k, noise);
        });
        if out.give_up() { return; }
    }
    for i in 0..a.pick(15, 100) {
        let mut h = Gen::new(g.next(), 4);
        hist(out, &format!("gp-default-{}", i), move |t| {
            let k = K::Sq(1.0, 1.0);
            t.say(obj! { op: "new", k: k.rec(), mf: "zero", noise: 0.0 });
            let mut m = GaussianProcess::default();
            gp_life(t, &mut m, &mut h, &k, 0.0);
        });
    }
    // rows 0 and 2 under the kernel 1 + xy, noise 1: [[2, 1], [1, 6]], inverse [[6, -1], [-1, 2]] / 11
    let new = |mf: &str| obj! { op: "new", k: K::Lin(1.0).rec(), mf: mf, noise: 1.0 };
    let x: Rows = vec![vec![0.0], vec![2.0]];
    let tr = |y: &[f64], end: &str| obj! { op: "train", x: all(&vec![vec![0.0], vec![2.0]]), y: fxs(y), cols: 1usize, end: end };
    let po = |m: f64, c: f64| obj! { op: "posterior", q: all(&vec![vec![1.0]]), cols: 1usize, end: "ok", out: fxs(&[m]), cov: all(&vec![vec![c]]) };
    // k = [1, 3]; A^-1 k = [3, 5]/11; mean [11, 22] -> 13; cov = 2 - 18/11 = 4/11
    out.case("check-gp", vec![new("zero"), tr(&[11.0, 22.0], "ok"), po(13.0, 4.0 / 11.0)]);
    out.neg("neg-mean", vec![new("zero"), tr(&[11.0, 22.0], "ok"), po(13.0001, 4.0 / 11.0)]);
    out.neg("neg-cov", vec![new("zero"), tr(&[11.0, 22.0], "ok"), po(13.0, 15.0 / 11.0)]);
    out.case("check-first", vec![new("first"), tr(&[11.0, 24.0], "ok"), po(14.0, 4.0 / 11.0)]);
    out.neg("neg-first", vec![new("first"), tr(&[11.0, 24.0], "ok"), po(13.0, 4.0 / 11.0)]);
    out.neg("neg-stale", vec![new("zero"), tr(&[11.0, 22.0], "ok"), tr(&[0.0, 0.0], "ok"), po(13.0, 4.0 / 11.0)]);
    out.neg("neg-forgot", vec![new("zero"), tr(&[11.0, 22.0], "ok"), obj! { op: "noise", noise: 2.0 }, po(11.0, 4.0 / 11.0)]);
    out.neg("neg-train", vec![new("zero"), tr(&[11.0, 22.0], "err")]);
    out.neg("neg-mispaired", vec![new("zero"), tr(&[11.0], "ok")]);
    out.neg("neg-untrained", vec![new("zero"), po(0.0, 2.0)]);
    out.neg("neg-width", vec![new("zero"), tr(&[11.0, 22.0], "ok"), obj! { op: "predict", q: all(&vec![vec![1.0, 1.0]]), cols: 2usize, end: "ok", out: fxs(&[1.0]), cov: all(&vec![]) }]);
    out.neg("neg-definite", vec![obj! { op: "new", k: K::Lin(-1.0).rec(), mf: "zero", noise: 0.0 }, obj! { op: "train", x: all(&x), y: fxs(&[1.0, 2.0]), cols: 1usize, end: "ok" }]);
}
fn side(v: &Vector<f64>) -> J { J::A(v.iter().map(|x| if *x == 1.0 { J::I(1) } else if *x == -1.0 { J::I(-1) } else { J::I(7) }).collect()) }
fn svm_data(g: &mut Gen, n: usize, cols: usize) -> (Rows, Vec<f64>) {
    let mut x = grid(g, n, cols, -12, 12);
    if n > 1 && g.chance(0.15) { x[1] = x[0].clone(); }
    let mut y: Vec<f64> = (0..n).map(|_| if g.chance(0.5) { 1.0 } else { -1.0 }).collect();
    if n > 1 && g.chance(0.8) { y[1] = -y[0]; }
    (x, y)
}
/// queries off the grid of the rows, so that ties are rare
fn off(g: &mut Gen, n: usize, cols: usize) -> Rows { (0..n).map(|_| (0..cols).map(|_| g.int(-48, 48) as f64 / 16.0 + 1.0 / 256.0).collect()).collect() }
fn ks(g: &mut Gen) -> K {
    match g.below(9) { 0 | 1 => K::Lin(*g.pick(&[0.0, -0.5, 1.0])), 2 => K::Poly(0.5, 1.0, 2.0), 3 => K::Sq(*g.pick(&[0.5, 1.0, 2.0]), *g.pick(&[1.0, 2.0])), 4 => K::Exp(1.0, 2.0), 5 => K::Tanh(0.5, 0.25), 6 => K::Rq(1.0, 1.0), 7 => K::Sum(Box::new(K::Sq(1.0, 2.0)), Box::new(K::Lin(0.5))), _ => K::Mq(0.5) }
}
fn svm(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 203);
    for i in 0..a.pick(80, 1000) {
        let mut h = Gen::new(g.next(), 5);
        hist(out, &format!("svm-law-{}", i), move |t| {
            let g = &mut h;
            let k = ks(g);
            let lam = *g.pick(&[0.25, 0.5, 1.0, 2.0, 0.3, 0.1]);
            let (n, iters) = *g.pick(&[(1, 5), (2, 1), (2, 2), (2, 4), (2, 6), (3, 2), (3, 3), (3, 4), (4, 3), (5, 3)]);
            t.say(obj! { op: "new", k: k.rec(), lam: lam, iters: iters as usize });
            let cols = 1 + g.below(2);
            let (x, y) = svm_data(g, n, cols);
            let q = off(g, 3, cols);
            let e = obj! { op: "law", x: all(&x), y: fxs(&y), q: all(&q) };
            t.about(e.clone());
            let first = if g.chance(0.3) { Some(svm_data(g, 1, 1)) } else { None };
            let (mx, my, mq) = (mat(&x, cols), Vector::new(y), mat(&q, cols));
            let l = law(4000, 2000, || {
                let mut m = SVM::new(k.make(), lam);
                m.optim_iters = iters;
                if let Some((fx, fy)) = &first { m.train(&mat(fx, 1), &Vector::new(fy.clone())).unwrap(); }
                m.train(&mx, &my).unwrap();
                side(&m.predict(&mq).unwrap())
            });
            t.say(with(e, obj! { end: "ok", exact: l.exact, den: l.den, hist: l.hist_j() }));
        });
        if out.give_up() { return; }
    }
    // many rows or columns
    for i in 0..a.pick(24, 240) {
        let mut h = Gen::new(g.next(), 8);
        hist(out, &format!("svm-wide-{}", i), move |t| {
            let g = &mut h;
            let k = ks(g);
            let lam = *g.pick(&[0.25, 0.5, 1.0, 2.0, 0.3, 0.1]);
            let (n, iters, cols) = if i == 0 { (400, 1, 1) } else if i == 1 { (300, 1, 2) } else { *g.pick(&[(100, 1, 1), (64, 1, 5), (33, 1, 12), (20, 2, 2), (17, 2, 9), (8, 3, 6), (2, 6, 20), (3, 4, 33)]) };
            t.say(obj! { op: "new", k: k.rec(), lam: lam, iters: iters as usize });
            let (x, y) = svm_data(g, n, cols);
            let q = off(g, 3, cols);
            let e = obj! { op: "law", x: all(&x), y: fxs(&y), q: all(&q) };
            t.about(e.clone());
            let (mx, my, mq) = (mat(&x, cols), Vector::new(y), mat(&q, cols));
            let l = law(4000, 2000, || { let mut m = SVM::new(k.make(), lam); m.optim_iters = iters; m.train(&mx, &my).unwrap(); side(&m.predict(&mq).unwrap()) });
            t.say(with(e, obj! { end: "ok", exact: l.exact, den: l.den, hist: l.hist_j() }));
        });
        if out.give_up() { return; }
    }
    // hundreds of rows of a few kinds, many rounds: one training, asked at many places
    for i in 0..a.pick(20, 120) {
        let mut h = Gen::new(g.next(), 9);
        hist(out, &format!("svm-crowd-{}", i), move |t| {
            let g = &mut h;
            let k = ks(g);
            let lam = *g.pick(&[0.3, 0.1, 0.0371, 0.2113]);
            let kinds = if i % 5 == 4 { 1 } else { 2 };
            let (n, iters) = if kinds == 1 { (*g.pick(&[40usize, 300, 1100]), *g.pick(&[60usize, 300])) } else { (*g.pick(&[40usize, 270, 400, 520, 1100]), *g.pick(&[20usize, 60, 90])) };
            t.say(obj! { op: "new", k: k.rec(), lam: lam, iters: iters as usize });
            let (kx, mut ky) = svm_data(g, kinds, 1);
            if kinds == 2 { ky[1] = -ky[0]; }
            // the kinds one after the other, or mixed
            let from = *g.pick(&[n / 2, n / 3, 3 * n / 4, n * 8 / 9]);
            let of: Vec<usize> = (0..n).map(|r| if i % 4 == 0 { g.below(kinds) } else if kinds == 2 && r >= from { 1 } else { 0 }).collect();
            let x: Rows = of.iter().map(|c| kx[*c].clone()).collect();
            let y: Vec<f64> = of.iter().map(|c| ky[*c]).collect();
            let mut m = SVM::new(k.make(), lam);
            m.optim_iters = iters;
            let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: 1usize };
            t.about(e.clone());
            m.train(&mat(&x, 1), &Vector::new(y)).unwrap();
            t.say(with(e, obj! { end: "ok" }));
            let q: Rows = (-64..64).map(|v| vec![v as f64 / 16.0 + 1.0 / 256.0]).collect();
            let p = m.predict(&mat(&q, 1)).unwrap();
            t.say(obj! { op: "predict", q: all(&q), cols: 1usize, end: "ok", out: side(&p) });
        });
        if out.give_up() { return; }
    }
    // longer trainings, sampled
    for i in 0..a.pick(6, 60) {
        let mut h = Gen::new(g.next(), 6);
        hist(out, &format!("svm-long-{}", i), move |t| {
            let g = &mut h;
            let deflt = i % 3 == 0;
            let k = if deflt { K::Sq(1.0, 1.0) } else { ks(g) };
            let lam = if deflt { 0.3 } else { *g.pick(&[0.25, 0.5, 0.3, 0.1]) };
            let iters = if deflt { 100 } else { *g.pick(&[12, 20, 33]) };
            t.say(obj! { op: "new", k: k.rec(), lam: lam, iters: iters as usize });
            let (x, y) = svm_data(g, 2, 1);
            let q = off(g, 4, 1);
            let e = obj! { op: "law", x: all(&x), y: fxs(&y), q: all(&q) };
            t.about(e.clone());
            let (mx, my, mq) = (mat(&x, 1), Vector::new(y), mat(&q, 1));
            let l = law(1, 1500, || {
                if deflt { let mut m = SVM::default(); m.train(&mx, &my).unwrap(); side(&m.predict(&mq).unwrap()) }
                else { let mut m = SVM::new(k.make(), lam); m.optim_iters = iters; m.train(&mx, &my).unwrap(); side(&m.predict(&mq).unwrap()) }
            });
            t.say(with(e, obj! { end: "ok", exact: l.exact, den: l.den, hist: l.hist_j() }));
        });
    }
    // coefficients that grow with almost every draw, seen from a point where they balance
    for (i, &(lam, iters)) in [(2.0, 60usize), (3.0, 100), (2.0, 101)].iter().enumerate() {
        hist(out, &format!("svm-many-{}", i), move |t| {
            let k = K::Sq(1.0, 1.0);
            t.say(obj! { op: "new", k: k.rec(), lam: lam, iters: iters });
            let (x, y, q) = (vec![vec![-1.0], vec![1.0]], vec![1.0, -1.0], vec![vec![0.001953125], vec![0.078125], vec![-0.140625]]);
            let e = obj! { op: "law", x: all(&x), y: fxs(&y), q: all(&q) };
            t.about(e.clone());
            let (mx, my, mq) = (mat(&x, 1), Vector::new(y), mat(&q, 1));
            let l = law(1, 2500, || { let mut m = SVM::new(k.make(), lam); m.optim_iters = iters; m.train(&mx, &my).unwrap(); side(&m.predict(&mq).unwrap()) });
            t.say(with(e, obj! { end: "ok", exact: l.exact, den: l.den, hist: l.hist_j() }));
        });
    }
    for i in 0..a.pick(60, 600) {
        let mut h = Gen::new(g.next(), 7);
        hist(out, &format!("svm-{}", i), move |t| {
            let g = &mut h;
            let k = ks(g);
            let lam = *g.pick(&[0.25, 0.5, 1.0, 0.3]);
            t.say(obj! { op: "new", k: k.rec(), lam: lam, iters: 100usize });
            let mut m = SVM::new(k.make(), lam);
            if g.chance(0.3) { t.about(obj! { op: "untrained" }); let r = m.predict(&mat(&off(g, 2, 1), 1)); t.say(obj! { op: "untrained", end: if r.is_ok() { "ok" } else { "err" } }); }
            let mut shape = None;
            for _ in 0..1 + g.below(3) {
                let n = 1 + g.below(3);
                let iters = if n == 1 { *g.pick(&[1, 7, 40]) } else { 1 + g.below(6) };
                m.optim_iters = iters;
                t.say(obj! { op: "iters", iters: iters });
                let cols = if g.chance(0.1) { *g.pick(&[8, 17, 40]) } else { 1 + g.below(3) };
                let (x, mut y) = svm_data(g, n, cols);
                if g.chance(0.1) { if g.chance(0.5) && n > 1 { y.pop(); } else { y.push(1.0); } }
                let e = obj! { op: "train", x: all(&x), y: fxs(&y), cols: cols };
                t.about(e.clone());
                let r = m.train(&mat(&x, cols), &Vector::new(y.clone()));
                t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" } }));
                if r.is_ok() { shape = Some(cols); }
                for _ in 0..2 {
                    let c = shape.unwrap_or(cols);
                    let o = if shape.is_some() && g.chance(0.12) { if c > 1 && g.chance(0.5) { c - 1 } else { c + 1 } } else { c };
                    let nq = if g.chance(0.1) { *g.pick(&[16, 40, 80]) } else { 1 + g.below(3) };
                    let mut q = off(g, nq, o);
                    if o == cols && r.is_ok() && g.chance(0.3) { q[0] = x[0].clone(); }
                    let e = obj! { op: "predict", q: all(&q), cols: o };
                    t.about(e.clone());
                    let r = m.predict(&mat(&q, o));
                    t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, out: Raw(r.map(|v| side(&v)).unwrap_or(J::A(vec![]))) }));
                }
            }
        });
        if out.give_up() { return; }
    }
    // rows 1 (+) and -1 (-), kernel 1 + x x', lam 1/2, two draws: 1,1 and 1,2 and so on
    let new = |iters: usize| obj! { op: "new", k: K::Lin(0.0).rec(), lam: 0.5, iters: iters };
    let lw = |h: &[(i64, i64)]| obj! { op: "law", x: all(&vec![vec![1.0], vec![-3.0]]), y: fxs(&[1.0, -1.0]), q: all(&vec![vec![-0.125]]), end: "ok", exact: true, den: h.iter().map(|p| p.1 as u64).sum::<u64>(), hist: Raw(J::A(h.iter().map(|p| J::A(vec![J::A(vec![J::I(p.0)]), J::I(p.1)])).collect())) };
    out.case("check-law", vec![new(1), lw(&[(1, 1), (-1, 1)])]);
    out.neg("neg-law", vec![new(1), lw(&[(1, 3), (-1, 1)])]);
    out.neg("neg-law-certain", vec![new(1), lw(&[(1, 1)])]);
    let tr = |y: &[f64]| obj! { op: "train", x: all(&vec![vec![1.0]]), y: fxs(y), cols: 1usize, end: "ok" };
    let pr = |o: i64| obj! { op: "predict", q: all(&vec![vec![0.5]]), cols: 1usize, end: "ok", out: vec![o] };
    out.case("check-predict", vec![new(3), tr(&[1.0]), pr(1)]);
    out.neg("neg-predict", vec![new(3), tr(&[1.0]), pr(-1)]);
    out.neg("neg-value", vec![new(3), tr(&[1.0]), pr(7)]);
    out.neg("neg-retrain", vec![new(3), tr(&[1.0]), tr(&[-1.0]), pr(1)]);
    out.neg("neg-two-minds", vec![new(1), obj! { op: "train", x: all(&vec![vec![1.0], vec![-3.0]]), y: fxs(&[1.0, -1.0]), cols: 1usize, end: "ok" }, pr(1), pr(-1)]);
    out.neg("neg-untrained", vec![new(3), pr(1)]);
    out.neg("neg-mispaired", vec![new(3), tr(&[1.0, -1.0])]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "kernel" => kernels(&a, &mut out), "gp" => gp(&a, &mut out), "svm" => svm(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
