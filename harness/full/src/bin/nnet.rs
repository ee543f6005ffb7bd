//! Neural networks under a recording optimizer; cost functions and regularisers.
use full::*;
use rusty_machine::learning::nnet::net_layer::{Linear as Affine, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::grad_desc::{GradientDesc, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::toolkit::activ_fn::{Exp, Linear, Sigmoid, Tanh};
use rusty_machine::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError, MeanSqError};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{MatrixSlice};
use std::sync::mpsc::Sender;
use std::sync::{Arc, Mutex};

/// a user's layer: every column times a factor of its own
#[derive(Debug)]
struct Scale(usize);
impl NetLayer for Scale {
    fn forward(&self, x: &Matrix<f64>, p: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        if x.cols() != self.0 { return Err(rusty_machine::learning::error::Error::new(rusty_machine::learning::error::ErrorKind::InvalidData, "width")); }
        let f: Vec<f64> = p.iter().cloned().collect();
        Ok(mat(&rows(x).iter().map(|r| r.iter().zip(&f).map(|(a, b)| a * b).collect()).collect::<Vec<_>>(), self.0))
    }
    fn back_input(&self, g: &Matrix<f64>, _: &Matrix<f64>, _: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        let f: Vec<f64> = p.iter().cloned().collect();
        mat(&rows(g).iter().map(|r| r.iter().zip(&f).map(|(a, b)| a * b).collect()).collect::<Vec<_>>(), self.0)
    }
    fn back_params(&self, g: &Matrix<f64>, x: &Matrix<f64>, _: &Matrix<f64>, _: MatrixSlice<f64>) -> Matrix<f64> {
        let mut s = vec![0.0; self.0];
        for (a, b) in rows(g).iter().zip(rows(x)) { for j in 0..self.0 { s[j] += a[j] * b[j]; } }
        mat(&[s], self.0)
    }
    fn default_params(&self) -> Vec<f64> { (0..self.0).map(|i| 0.5 + i as f64).collect() }
    fn param_shape(&self) -> (usize, usize) { (1, self.0) }
}
#[derive(Clone, Copy, Debug)]
struct Own;
impl Criterion for Own { type Cost = MeanSqError; }
#[derive(Clone, Copy, Debug, PartialEq)]
enum L { Lin(usize, usize, bool), Act(&'static str), Scale(usize) }
impl ToJ for L { fn j(&self) -> J { match *self { L::Lin(i, o, bias) => obj! { t: "linear", i: i, o: o, bias: bias }, L::Act(f) => obj! { t: "act", f: f }, L::Scale(i) => obj! { t: "scale", i: i } } } }
impl L {
    fn params(&self) -> usize { match *self { L::Lin(i, o, b) => (i + b as usize) * o, L::Act(_) => 0, L::Scale(i) => i } }
    fn make(&self) -> Box<dyn NetLayer> { match *self { L::Lin(i, o, true) => Box::new(Affine::new(i, o)), L::Lin(i, o, false) => Box::new(Affine::without_bias(i, o)), L::Scale(i) => Box::new(Scale(i)),
        L::Act("sigmoid") => Box::new(Sigmoid), L::Act("tanh") => Box::new(Tanh), L::Act("exp") => Box::new(Exp), L::Act(_) => Box::new(Linear) } }
}
type Rows = Vec<Vec<f64>>;
#[derive(Default)]
struct Ask { at: Vec<Vec<f64>>, ret: Option<Vec<f64>>, start: Vec<f64>, x: Option<Matrix<f64>>, t: Option<Matrix<f64>>, data: bool, got: Vec<(f64, Vec<f64>)> }
#[derive(Clone, Default)]
struct Spy(Arc<Mutex<Ask>>);
impl<T: Criterion> OptimAlgorithm<BaseNeuralNet<T>> for Spy {
    fn optimize(&self, m: &BaseNeuralNet<T>, start: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> {
        let mut a = self.0.lock().unwrap();
        a.start = start.to_vec();
        a.data = a.x.as_ref() == Some(x) && a.t.as_ref() == Some(t);
        // the trait's method, as an optimizer calls it
        let at = a.at.clone();
        for w in at { let r = Optimizable::compute_grad(m, &w, x, t); a.got.push(r); }
        a.ret.clone().unwrap_or(start.to_vec())
    }
}
#[derive(Clone)]
enum Step { Slices, Predict(Rows, usize), Train { x: Rows, cols: usize, t: Rows, tcols: usize, at: Vec<Vec<f64>>, ret: Option<Vec<f64>> } }
#[derive(Clone)]
struct Plan { ls: Vec<L>, build: usize, crit: &'static str, reg: Regularization<f64>, steps: Vec<Step> }
fn reg_j(r: &Regularization<f64>) -> J { match *r { Regularization::L1(x) => J::A(vec!["l1".j(), x.j()]), Regularization::L2(x) => J::A(vec!["l2".j(), x.j()]), Regularization::ElasticNet(x, y) => J::A(vec!["en".j(), x.j(), y.j()]), Regularization::None => J::A(vec!["none".j()]) } }
fn build<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(p: &Plan, c: T, a: A) -> NeuralNet<T, A> {
    // a multilayer perceptron, if it is one
    let act = match p.ls.last() { Some(L::Act(f)) => *f, _ => "" };
    let mlp = p.ls.len() % 2 == 0 && !p.ls.is_empty() && p.ls.chunks(2).all(|c| if let L::Lin(_, _, true) = c[0] { c[1] == L::Act(act) } else { false });
    if p.build == 0 && mlp {
        let mut sizes = vec![]; for l in &p.ls { if let L::Lin(i, o, _) = l { if sizes.is_empty() { sizes.push(*i); } sizes.push(*o); } }
        return match act { "sigmoid" => NeuralNet::mlp(&sizes, c, a, Sigmoid), "tanh" => NeuralNet::mlp(&sizes, c, a, Tanh), "exp" => NeuralNet::mlp(&sizes, c, a, Exp), _ => NeuralNet::mlp(&sizes, c, a, Linear) };
    }
    let mut n = NeuralNet::new(c, a);
    if p.build == 1 { n.add_layers(p.ls.iter().map(|l| l.make()).collect::<Vec<_>>()); } else { for l in &p.ls { n.add(l.make()); } }
    n
}
fn go<T: Criterion>(p: &Plan, c: T, tx: &Sender<J>) {
    let spy = Spy::default();
    let mut net = build(p, c, spy.clone());
    // the weights as they lie, from an optimizer that changes nothing
    let (c0, o0) = ends(&p.ls);
    let _ = net.train(&Matrix::zeros(1, c0.max(1)), &Matrix::zeros(1, o0.max(1)));
    tx.send(obj! { op: "net", ls: p.ls, crit: if p.crit == "own" { "mse" } else { p.crit }, reg: reg_j(&p.reg), w: fxs(&spy.0.lock().unwrap().start) }).unwrap();
    let slice = |n: &NeuralNet<T, Spy>, k: usize| -> J { let s = n.get_net_weights(k); J::A(s.row_iter().map(|r| fxs(&r.iter().cloned().collect::<Vec<f64>>())).collect()) };
    for s in &p.steps { match s {
        Step::Slices => { let m: Vec<J> = (0..p.ls.len()).map(|k| if p.ls[k].params() == 0 { let s = net.get_net_weights(k); J::A(if s.rows() * s.cols() == 0 { vec![] } else { vec![J::A(vec![])] }) } else { slice(&net, k) }).collect(); tx.send(obj! { op: "slices", end: "ok", m: J::A(m) }).unwrap() }
        Step::Predict(x, cols) => {
            tx.send(obj! { op: "about", what: "predict", x: J::A(x.iter().map(|r| fxs(r)).collect()), cols: *cols, tcols: 0usize }).unwrap();
            let r = net.predict(&mat(x, *cols));
            let out = match &r { Ok(m) => { let c = m.cols(); J::A((0..m.rows()).map(|i| fxs(&m.data()[i * c..(i + 1) * c])).collect()) }, Err(_) => J::A(vec![]) };
            tx.send(obj! { op: "predict", x: J::A(x.iter().map(|r| fxs(r)).collect()), cols: *cols, end: if r.is_ok() { "ok" } else { "err" }, out: out }).unwrap() }
        Step::Train { x, cols, t, tcols, at, ret } => {
            tx.send(obj! { op: "about", what: "train", x: J::A(x.iter().map(|r| fxs(r)).collect()), cols: *cols, tcols: *tcols }).unwrap();
            let (mx, mt) = (mat(x, *cols), mat(t, *tcols));
            *spy.0.lock().unwrap() = Ask { at: at.clone(), ret: ret.clone(), x: Some(mx.clone()), t: Some(mt.clone()), ..Ask::default() };
            let r = net.train(&mx, &mt);
            let a = spy.0.lock().unwrap();
            tx.send(obj! { op: "train", cols: *cols, tcols: *tcols, end: if r.is_ok() { "ok" } else { "err" }, start: fxs(&a.start), ret: fxs(ret.as_ref().unwrap_or(&a.start)), data: a.data }).unwrap();
            for (w, (c, g)) in at.iter().zip(&a.got) {
                tx.send(obj! { op: "grad", end: "ok", w: fxs(w), x: J::A(x.iter().map(|r| fxs(r)).collect()), t: J::A(t.iter().map(|r| fxs(r)).collect()), c: *c, g: fxs(g), gmax: g.iter().fold(0.0, |m: f64, v| m.max(v.abs())) }).unwrap();
            }
        }
    } }
}
fn hist(out: &mut Out, name: &str, p: Plan) {
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let r = out.run(move || match p.crit {
        "bce" => if let Regularization::None = p.reg { go(&p, BCECriterion::default(), &tx) } else { go(&p, BCECriterion::new(p.reg), &tx) },
        "mse" => go(&p, MSECriterion::new(p.reg), &tx),
        _ => go(&p, Own, &tx),
    });
    let mut ev: Vec<J> = rx.try_iter().collect();
    if !r.is_ok() {
        if let Some(J::O(f)) = ev.last().cloned() { if f[0].1.text() == "\"about\"" {
            let get = |k: &str| f.iter().find(|x| x.0 == k).unwrap().1.clone();
            ev.push(if get("what").text() == "\"train\"" { obj! { op: "train", cols: Raw(get("cols")), tcols: Raw(get("tcols")), end: r.word() } } else { obj! { op: "predict", cols: Raw(get("cols")), x: Raw(get("x")), end: r.word() } });
        } else { ev.push(obj! { op: "slices", end: r.word() }); } }
        else { ev.push(obj! { op: "slices", end: r.word() }); }
    }
    ev.retain(|e| if let J::O(f) = e { f[0].1.text() != "\"about\"" } else { true });
    out.case(name, ev);
}
struct Raw(J);
impl ToJ for Raw { fn j(&self) -> J { self.0.clone() } }
fn shape(g: &mut Gen, crit: &str) -> Vec<L> {
    let acts = ["sigmoid", "tanh", "exp", "id"];
    let mut c = 1 + g.below(3);
    let mut ls = vec![];
    let n = 1 + g.below(3);
    if g.chance(0.1) { ls.push(L::Act("tanh")); }
    for _ in 0..n {
        if g.chance(0.2) { ls.push(L::Scale(c)); }
        let o = 1 + g.below(3);
        ls.push(L::Lin(c, o, g.chance(0.7))); c = o;
        if g.chance(0.7) { ls.push(L::Act(acts[g.below(4)])); }
    }
    if crit == "bce" { if let Some(L::Act(_)) = ls.last() { ls.pop(); } ls.push(L::Act("sigmoid")); }
    ls
}
/// exponentials of exponentials overflow
fn tame(ls: &mut Vec<L>) { if ls.iter().filter(|l| **l == L::Act("exp")).count() > 1 { for l in ls.iter_mut() { if *l == L::Act("exp") { *l = L::Act("tanh"); } } } }
fn perceptron(g: &mut Gen, act: &'static str) -> Vec<L> {
    let mut c = 1 + g.below(3);
    let mut ls = vec![];
    for _ in 0..1 + g.below(3) { let o = 1 + g.below(3); ls.push(L::Lin(c, o, true)); ls.push(L::Act(act)); c = o; }
    ls
}
fn ends(ls: &[L]) -> (usize, usize) {
    let mut a = 0; let mut b = 0;
    for l in ls { match *l { L::Lin(i, o, _) => { if a == 0 { a = i; } b = o; } L::Scale(i) => { if a == 0 { a = i; } b = i; } _ => {} } }
    (a, b)
}
fn grid(g: &mut Gen, r: usize, c: usize, lo: f64, hi: f64) -> Rows { (0..r).map(|_| (0..c).map(|_| if g.chance(0.2) { (lo + hi) / 2.0 } else { g.real(lo, hi) }).collect()).collect() }
fn labels(g: &mut Gen, crit: &str, r: usize, c: usize) -> Rows { if crit == "bce" { (0..r).map(|_| (0..c).map(|_| *g.pick(&[0.0, 1.0, 1.0, 0.25, 0.0])).collect()).collect() } else { grid(g, r, c, -2.0, 2.0) } }
fn weights(g: &mut Gen, ls: &[L]) -> Vec<f64> { (0..ls.iter().map(|l| l.params()).sum::<usize>()).map(|_| if g.chance(0.08) { 0.0 } else { g.real(-1.2, 1.2) }).collect() }
/// layers of the given sizes, weights that keep their sums moderate
fn stack(g: &mut Gen, sizes: &[usize], k: usize) -> Vec<L> {
    let mut ls = vec![];
    for (j, p) in sizes.windows(2).enumerate() {
        if k % 4 == 3 && j % 3 == 1 { ls.push(L::Scale(p[0])); }
        ls.push(L::Lin(p[0], p[1], k % 2 == 0 || g.chance(0.5)));
        if k % 3 == 0 { ls.push(L::Act("sigmoid")); } else { match g.below(4) { 0 => ls.push(L::Act("tanh")), 1 => ls.push(L::Act("id")), 2 => ls.push(L::Act("sigmoid")), _ => {} } }
    }
    ls
}
fn soft(g: &mut Gen, ls: &[L]) -> Vec<f64> {
    let mut w = vec![];
    for l in ls { match *l { L::Lin(i, _, _) => { let s = 2.0 / (i as f64).sqrt(); for _ in 0..l.params() { w.push(if g.chance(0.05) { 0.0 } else { g.real(-s, s) }); } } _ => for _ in 0..l.params() { w.push(g.real(0.5, 1.5)); } } }
    w
}
/// architectures of every kind: predictions, untrained and under chosen weights
fn forward(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 91);
    for i in 0..a.pick(120, 1500) {
        let crit = *g.pick(&["bce", "mse", "own"]);
        let acts = ["sigmoid", "tanh", "id", "exp"];
        let mut ls = if i % 3 == 0 { perceptron(&mut g, acts[i / 3 % 4]) } else { shape(&mut g, "mse") };
        tame(&mut ls);
        if i == 7 { ls = vec![]; }
        // layers that do not line up
        let bad = i % 11 == 5;
        if bad { let (_, o) = ends(&ls); ls.push(L::Lin(o + 1, 1, g.chance(0.5))); }
        let (c, o) = ends(&ls);
        let c = if c == 0 { 2 } else { c };
        let mut steps = vec![Step::Slices];
        for k in 0..2 {
            let n = 1 + g.below(4);
            steps.push(Step::Predict(grid(&mut g, n, c, -2.0, 2.0), c));
            if g.chance(0.4) { let d = if c > 1 && g.chance(0.5) { c - 1 } else { c + 1 }; steps.push(Step::Predict(grid(&mut g, 2, d, -2.0, 2.0), d)); }
            if k == 0 && !bad && !ls.is_empty() {
                // training that fails does not count
                steps.push(Step::Train { x: grid(&mut g, 2, c, -1.0, 1.0), cols: c, t: labels(&mut g, crit, 2, o), tcols: o, at: vec![], ret: Some(weights(&mut g, &ls)) });
                steps.push(Step::Slices);
            }
        }
        hist(out, &format!("net-{}", i), Plan { ls, build: i % 3, crit, reg: Regularization::None, steps });
        if out.give_up() { return; }
    }
    // training on rows or targets of another width
    for (k, (c, o, tc)) in [(3usize, 1usize, 1usize), (1, 1, 1), (2, 2, 2), (2, 1, 2)].iter().enumerate() {
        let ls = vec![L::Lin(2, 1, true), L::Act("sigmoid")];
        let _ = o;
        let at = vec![vec![0.1, 0.2, 0.3]];
        hist(out, &format!("misfit-{}", k), Plan { ls, build: 2, crit: "mse", reg: Regularization::None, steps: vec![Step::Train { x: grid(&mut g, 2, *c, -1.0, 1.0), cols: *c, t: grid(&mut g, 2, *tc, 0.0, 1.0), tcols: *tc, at, ret: None }] });
    }
    // the default network
    for (k, sizes) in [vec![2usize, 1], vec![1, 3, 2], vec![3, 3, 3, 3], vec![1, 1, 1, 1, 1]].into_iter().enumerate() {
        let mut ls = vec![]; for w in sizes.windows(2) { ls.push(L::Lin(w[0], w[1], true)); ls.push(L::Act("sigmoid")); }
        let x = grid(&mut g, 3, sizes[0], -1.0, 1.0);
        let (q, c) = (x.clone(), sizes[0]);
        let n = ls.len();
        let r = out.run(move || {
            let net = NeuralNet::default(&sizes);
            let mut w = vec![]; let mut m = vec![];
            for k in 0..n { let s = net.get_net_weights(k); if s.rows() * s.cols() > 0 { let v: Vec<Vec<f64>> = s.row_iter().map(|r| r.iter().cloned().collect()).collect(); w.extend(v.iter().flatten().cloned()); m.push(J::A(v.iter().map(|r| fxs(r)).collect())); } else { m.push(J::A(vec![])); } }
            (w, m, rows(&net.predict(&mat(&q, c)).unwrap()))
        });
        let xs = J::A(x.iter().map(|r| fxs(r)).collect());
        out.case(&format!("default-{}", k), match r { End::Ok((w, m, o)) => vec![obj! { op: "net", ls: ls, crit: "bce", reg: reg_j(&Regularization::None), w: fxs(&w) }, obj! { op: "slices", end: "ok", m: J::A(m) }, obj! { op: "predict", end: "ok", x: Raw(xs), cols: c, out: J::A(o.iter().map(|r| fxs(r)).collect()) }],
            e => vec![obj! { op: "slices", end: e.word() }] });
    }
    // wide, deep and long
    let wide: &[(&[usize], usize)] = &[(&[12, 20, 7], 9), (&[30, 3, 30], 5), (&[1, 40, 1], 33), (&[2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2], 6), (&[5, 4, 3, 4, 5, 4, 3], 70), (&[64, 1], 40), (&[1, 16, 16, 1], 17), (&[3, 9, 2], 300)];
    for (i, (sizes, n)) in wide.iter().enumerate() { for k in 0..a.pick(2, 8) {
        let (sizes, n) = (*sizes, *n);
        let ls = stack(&mut g, sizes, k);
        let (c, o) = ends(&ls);
        let w = soft(&mut g, &ls);
        let mut steps = vec![Step::Slices, Step::Predict(grid(&mut g, 2, c, -2.0, 2.0), c), Step::Train { x: grid(&mut g, 2, c, -1.0, 1.0), cols: c, t: grid(&mut g, 2, o, -1.0, 1.0), tcols: o, at: vec![], ret: Some(w) }, Step::Slices];
        let mut x = grid(&mut g, n, c, -2.0, 2.0); let last = x[0].clone(); x[n - 1] = last;
        steps.push(Step::Predict(x, c));
        steps.push(Step::Predict(grid(&mut g, 1, c + 1, -2.0, 2.0), c + 1));
        hist(out, &format!("wide-{}-{}", i, k), Plan { ls, build: k % 3, crit: "mse", reg: Regularization::None, steps });
    } }
    // how default weights are drawn
    for (k, &(i, o, bias, times)) in [(100usize, 50usize, true, 1usize), (70, 70, false, 1), (200, 10, false, 3), (3, 300, false, 6), (1, 1, false, 6000), (2, 3, false, 1000), (60, 90, true, 2), (400, 400, true, 1)].iter().enumerate() {
        for via in 0..3 {
            let seed = g.next();
            let r = out.run(move || {
                rand::script::seed(seed);
                let mut w: Vec<f64> = vec![];
                for _ in 0..times { match via {
                    0 => w.extend((if bias { Affine::new(i, o) } else { Affine::without_bias(i, o) }).default_params()),
                    1 => { let mut n = NeuralNet::new(MSECriterion::default(), StochasticGD::default()); n.add(Box::new(if bias { Affine::new(i, o) } else { Affine::without_bias(i, o) })).add(Box::new(Tanh)); w.extend(n.get_net_weights(0).iter()); }
                    // the second of two layers, one of them after training with an optimizer that does nothing
                    _ => { let spy = Spy::default(); let mut n = NeuralNet::new(MSECriterion::default(), spy.clone()); let l = || -> Box<dyn NetLayer> { Box::new(if bias { Affine::new(i, o) } else { Affine::without_bias(i, o) }) };
                        n.add_layers(vec![Box::new(Affine::without_bias(2, i)) as Box<dyn NetLayer>, l()]); n.train(&Matrix::zeros(1, 2), &Matrix::zeros(1, o)).unwrap(); w.extend(&spy.0.lock().unwrap().start[2 * i..]); }
                } }
                let n = w.len() as f64;
                let sd = (2.0 / (i + o) as f64).sqrt();
                (w.len(), w.iter().sum::<f64>() / n, w.iter().map(|v| v * v).sum::<f64>() / n, w.windows(2).map(|p| p[0] * p[1]).sum::<f64>() / n, w.iter().filter(|v| v.abs() <= sd).count(), w.iter().filter(|v| v.abs() <= 2.0 * sd).count())
            });
            let end = r.word();
            out.case(&format!("init-{}-{}", k, via), vec![match r { End::Ok((n, m1, m2, lag, in1, in2)) => obj! { op: "init", end: end, i: i, o: o, n: n, m1: m1, m2: m2, lag: lag, in1: in1, in2: in2 }, _ => obj! { op: "init", end: end } }]);
        }
    }
    let init = |m1: f64, m2: f64, lag: f64, in1: usize, in2: usize| vec![obj! { op: "init", end: "ok", i: 3usize, o: 5usize, n: 1600usize, m1: m1, m2: m2, lag: lag, in1: in1, in2: in2 }];
    out.case("check-init", init(0.01, 0.26, 0.01, 1100, 1520));
    out.neg("neg-init-variance", init(0.01, 0.375, 0.01, 1092, 1527));
    out.neg("neg-init-mean", init(0.1, 0.26, 0.01, 1092, 1527));
    out.neg("neg-init-same", init(0.01, 0.25, 0.2, 1092, 1527));
    out.neg("neg-init-uniform", init(0.0, 0.25, 0.0, 923, 1600));
    out.neg("neg-default-scale", vec![obj! { op: "net", ls: vec![L::Scale(2)], crit: "mse", reg: reg_j(&Regularization::None), w: fxs(&[0.5, 0.5]) }]);
    let net = || obj! { op: "net", ls: vec![L::Lin(1, 2, true), L::Act("id"), L::Lin(2, 1, false)], crit: "mse", reg: reg_j(&Regularization::None), w: fxs(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0]) };
    let m = |v: &[&[&[f64]]]| J::A(v.iter().map(|m| J::A(m.iter().map(|r| fxs(r)).collect())).collect());
    let one = |v: f64| J::A(vec![fxs(&[v])]);
    let say = |y: f64| vec![net(), obj! { op: "predict", end: "ok", x: Raw(one(2.0)), cols: 1usize, out: one(y) }];
    out.case("check-net", say(7.0 * 5.0 + 10.0 * 6.0));
    out.neg("neg-bias-last", say(5.0 * 5.0 + 8.0 * 6.0));
    out.neg("neg-transposed", say((1.0 + 4.0) * 5.0 + 11.0 * 6.0));
    out.neg("neg-nan", say(f64::NAN));
    out.neg("neg-wide", vec![net(), obj! { op: "predict", end: "ok", x: Raw(J::A(vec![fxs(&[1.0, 2.0])])), cols: 2usize, out: one(1.0) }]);
    out.case("check-slices", vec![net(), obj! { op: "slices", end: "ok", m: m(&[&[&[1.0, 2.0], &[3.0, 4.0]], &[], &[&[5.0], &[6.0]]]) }]);
    out.neg("neg-slices", vec![net(), obj! { op: "slices", end: "ok", m: m(&[&[&[1.0, 2.0], &[3.0, 4.0]], &[], &[&[4.0], &[5.0]]]) }]);
    out.neg("neg-few-weights", vec![obj! { op: "net", ls: vec![L::Lin(1, 2, true)], crit: "mse", reg: reg_j(&Regularization::None), w: fxs(&[1.0, 2.0]) }]);
    out.neg("neg-untrained", vec![obj! { op: "net", ls: vec![L::Lin(1, 1, false)], crit: "mse", reg: reg_j(&Regularization::None), w: fxs(&[f64::NAN]) }]);
}
fn backprop(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 92);
    for i in 0..a.pick(100, 1500) {
        let crit = ["bce", "mse", "own"][i % 3];
        let mut ls = if i % 4 == 0 { perceptron(&mut g, "sigmoid") } else { shape(&mut g, crit) };
        tame(&mut ls);
        let (c, o) = ends(&ls);
        let reg = if crit == "own" { Regularization::None } else { match g.below(4) { 0 => Regularization::None, 1 => Regularization::L1(g.real(0.01, 2.0)), 2 => Regularization::L2(g.real(0.01, 2.0)), _ => Regularization::ElasticNet(g.real(0.01, 2.0), g.real(0.01, 2.0)) } };
        let word = match reg { Regularization::None => "none", Regularization::L1(_) => "l1", Regularization::L2(_) => "l2", _ => "en" };
        let mut steps = vec![];
        // the penalty of squared weights is a known finding: histories that show it are short
        let short = word == "l2" || word == "en";
        for _ in 0..if short { 1 } else { 1 + g.below(2) } {
            let n = 1 + g.below(3);
            steps.push(Step::Train { x: grid(&mut g, n, c, -1.5, 1.5), cols: c, t: labels(&mut g, crit, n, o), tcols: o, at: (0..if short { 1 } else { 1 + g.below(2) }).map(|_| weights(&mut g, &ls)).collect(), ret: if g.chance(0.7) { Some(weights(&mut g, &ls)) } else { None } });
        }
        hist(out, &format!("{}-net-{}", word, i), Plan { ls, build: i % 3, crit, reg, steps });
        if out.give_up() { return; }
    }
    let wide: &[(&[usize], usize)] = &[(&[6, 12, 5], 4), (&[20, 2, 10], 3), (&[1, 25, 1], 12), (&[2, 2, 2, 2, 2, 2, 2, 2, 2], 5), (&[3, 4, 3, 4, 3], 20), (&[40, 1], 25), (&[3, 2], 150)];
    for (i, (sizes, n)) in wide.iter().enumerate() { for k in 0..a.pick(2, 10) {
        let crit = ["bce", "mse"][(i + k) % 2];
        let mut ls = stack(&mut g, sizes, k);
        if crit == "bce" { if let Some(L::Act(_)) = ls.last() { ls.pop(); } ls.push(L::Act("sigmoid")); }
        let (c, o) = ends(&ls);
        let reg = if k % 2 == 0 { Regularization::None } else { Regularization::L1(g.real(0.1, 2.0)) };
        let w = soft(&mut g, &ls);
        let s = Step::Train { x: grid(&mut g, *n, c, -1.5, 1.5), cols: c, t: labels(&mut g, crit, *n, o), tcols: o, at: vec![w], ret: None };
        hist(out, &format!("wide-{}-{}", i, k), Plan { ls, build: k % 3, crit, reg, steps: vec![s] });
    } }
    // gradients of any size: far targets, large and small inputs
    for i in 0..a.pick(16, 120) {
        let (c, o) = (1 + g.below(3), 1 + g.below(2));
        let ls = match i % 3 { 0 => vec![L::Lin(c, o, true)], 1 => vec![L::Lin(c, 2, true), L::Act("tanh"), L::Lin(2, o, i % 2 == 0)], _ => vec![L::Lin(c, 3, false), L::Act("sigmoid"), L::Lin(3, o, true)] };
        let (sx, st) = *g.pick(&[(1.0, 1e5), (1.0, 1e-6), (1e-5, 1.0), (1.0, 1e9), (0.5, 3e3)]);
        let n = 1 + g.below(3);
        let s = Step::Train { x: grid(&mut g, n, c, -1.5 * sx, 1.5 * sx), cols: c, t: grid(&mut g, n, o, -2.0 * st, 2.0 * st), tcols: o, at: vec![weights(&mut g, &ls)], ret: None };
        hist(out, &format!("size-{}", i), Plan { ls, build: i % 3, crit: "mse", reg: Regularization::None, steps: vec![s] });
    }
    // outputs that reach 0 and 1 exactly, as the targets ask for
    for (k, z) in [40.0, 800.0, -800.0, 36.0, -36.0].iter().enumerate() {
        let t = if *z > 0.0 { 1.0 } else { 0.0 };
        hist(out, &format!("saturated-{}", k), Plan { ls: vec![L::Lin(1, 1, true), L::Act("sigmoid")], build: 0, crit: "bce", reg: Regularization::None, steps: vec![Step::Train { x: vec![vec![1.0], vec![0.5]], cols: 1, t: vec![vec![t], vec![t]], tcols: 1, at: vec![vec![*z, 0.0]], ret: None }] });
    }
    // real optimizers, against the same optimizer run beside the network on its cost
    for i in 0..a.pick(16, 100) {
        let ls = perceptron(&mut g, "sigmoid");
        let (c, o) = ends(&ls);
        let n = 1 + g.below(4);
        let (x, t) = (mat(&grid(&mut g, n, c, -1.0, 1.0), c), mat(&labels(&mut g, "bce", n, o), o));
        let seed = g.next();
        let reg = match i % 3 { 0 => Regularization::None, 1 => Regularization::L1(0.3), _ => Regularization::L2(0.5) };
        let p = Plan { ls: ls.clone(), build: 0, crit: "bce", reg, steps: vec![] };
        let p2 = p.clone();
        let r = out.run(move || {
            let mut same = true;
            rand::script::seed(seed);
            if i % 4 == 3 {
                let mut sizes = vec![]; for l in &p2.ls { if let L::Lin(i, o, _) = l { if sizes.is_empty() { sizes.push(*i); } sizes.push(*o); } }
                let mut net = NeuralNet::default(&sizes);
                same &= both(&p2, &sizes, &mut net, BCECriterion::default(), StochasticGD::default(), &x, &t, seed);
            } else if i % 2 == 0 { let mut net = build(&p2, BCECriterion::new(p2.reg), GradientDesc::new(0.3, 7)); same &= both(&p2, &[], &mut net, BCECriterion::new(p2.reg), GradientDesc::new(0.3, 7), &x, &t, seed); }
            else { let mut net = build(&p2, BCECriterion::new(p2.reg), StochasticGD::new(0.5, 0.3, 3)); same &= both(&p2, &[], &mut net, BCECriterion::new(p2.reg), StochasticGD::new(0.5, 0.3, 3), &x, &t, seed); }
            same
        });
        let w = r.word();
        out.case(&format!("optimizer-{}", i), vec![obj! { op: "same", end: w, same: r.ok().unwrap_or(false) }]);
    }
    let net = |reg: Regularization<f64>| obj! { op: "net", ls: vec![L::Lin(1, 1, true)], crit: "mse", reg: reg_j(&reg), w: fxs(&[0.0, 0.0]) };
    let grad = |c: f64, v: [f64; 2]| obj! { op: "grad", end: "ok", w: fxs(&[1.0, -2.0]), x: J::A(vec![fxs(&[3.0]), fxs(&[1.0])]), t: J::A(vec![fxs(&[-4.0]), fxs(&[1.0])]), c: c, g: fxs(&v), gmax: 5.0 };
    // outputs -5, -1; errors -1, -2
    out.case("check-gradient", vec![net(Regularization::None), grad(1.25, [-3.0, -5.0])]);
    out.case("check-l1", vec![net(Regularization::L1(2.0)), grad(1.25 + 1.5, [-2.5, -5.5])]);
    out.case("check-l2", vec![net(Regularization::L2(2.0)), grad(1.25 + 2.5, [-2.0, -7.0])]);
    out.neg("neg-gradient-mean", vec![net(Regularization::None), grad(1.25, [-1.5, -2.5])]);
    out.neg("neg-gradient-bias", vec![net(Regularization::None), grad(1.25, [-5.0, -3.0])]);
    out.neg("neg-gradient-nan", vec![net(Regularization::None), grad(1.25, [-3.0, f64::NAN])]);
    out.neg("neg-cost", vec![net(Regularization::None), grad(2.5, [-3.0, -5.0])]);
    out.neg("neg-no-penalty", vec![net(Regularization::L1(2.0)), grad(1.25, [-3.0, -5.0])]);
    out.neg("neg-l1-sign", vec![net(Regularization::L1(2.0)), grad(1.25 + 1.5, [-2.5, -4.5])]);
    out.neg("neg-l2-plain", vec![net(Regularization::L2(2.0)), grad(1.25 + 5.0f64.sqrt() / 2.0, [-2.0, -7.0])]);
    let tr = |s: &[f64]| obj! { op: "train", cols: 1usize, tcols: 1usize, end: "ok", start: fxs(s), ret: fxs(&[1.0, 1.0]), data: true };
    out.case("check-train", vec![net(Regularization::None), tr(&[0.0, 0.0]), tr(&[1.0, 1.0])]);
    out.neg("neg-train-again", vec![net(Regularization::None), tr(&[0.0, 0.0]), tr(&[0.0, 0.0])]);
}
fn both<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>> + Clone + 'static>(p: &Plan, _: &[usize], net: &mut NeuralNet<T, A>, c: T, alg: A, x: &Matrix<f64>, t: &Matrix<f64>, seed: u64) -> bool {
    let flat = |n: &NeuralNet<T, A>| -> Vec<u64> { (0..p.ls.len()).flat_map(|k| n.get_net_weights(k).iter().map(|v| v.to_bits()).collect::<Vec<_>>()).collect() };
    let w0 = flat(net);
    rand::script::seed(seed + 1);
    net.train(x, t).unwrap();
    let w1 = flat(net);
    // a twin whose optimizer is handed the same start
    let out = Arc::new(Mutex::new(vec![]));
    let mut q = p.clone(); q.build = 2;
    let mut twin = build(&q, c, From { w: w0.iter().map(|v| f64::from_bits(*v)).collect(), alg, out: out.clone() });
    rand::script::seed(seed + 1);
    twin.train(x, t).unwrap();
    let o = out.lock().unwrap();
    o.len() == w1.len() && o.iter().zip(&w1).all(|(a, b): (&f64, &u64)| a.to_bits() == *b) && w0 != w1
}
struct From<A> { w: Vec<f64>, alg: A, out: Arc<Mutex<Vec<f64>>> }
impl<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>> OptimAlgorithm<BaseNeuralNet<T>> for From<A> {
    fn optimize(&self, m: &BaseNeuralNet<T>, _: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> { let r = self.alg.optimize(m, &self.w, x, t); *self.out.lock().unwrap() = r.clone(); r }
}
fn costs(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 93);
    let all = |m: &Rows| J::A(m.iter().map(|r| fxs(r)).collect());
    for i in 0..a.pick(150, 2500) {
        let kind = ["mse", "bce"][i % 2];
        let vector = i % 3 == 0;
        let (r, c) = if i % 25 == 24 { [(300, 1), (9, 40), (60, 7), (150, if vector { 1 } else { 3 })][i / 25 % 4] } else { (1 + g.below(5), if vector { 1 } else { 1 + g.below(4) }) };
        let vector = vector && c == 1;
        let big = *g.pick(&[1.0, 1.0, 1e6, 1e-3]);
        let t: Rows = if kind == "bce" { (0..r).map(|_| (0..c).map(|_| *g.pick(&[0.0, 1.0, 0.5, 0.125])).collect()).collect() } else { grid(&mut g, r, c, -2.0 * big, 2.0 * big) };
        let o: Rows = t.iter().map(|v| v.iter().map(|x| if kind == "bce" { match g.below(8) { 0 if *x == 0.0 || *x == 1.0 => *x, 1 => *x * 0.9999 + 0.00005, 2 if i % 10 == 1 => 1.0 - *x, 3 if i % 4 == 1 => { let e = 10f64.powi(-g.int(3, 15) as i32); if g.chance(0.5) { e } else { 1.0 - e } } _ => g.real(0.01, 0.99) } } else if g.chance(0.2) { *x } else { g.real(-2.0 * big, 2.0 * big) }).collect()).collect();
        let (o2, t2) = (o.clone(), t.clone());
        let f = move || -> (f64, Rows) {
            if vector {
                let (a, b) = (Vector::new(o2.iter().map(|r| r[0]).collect::<Vec<_>>()), Vector::new(t2.iter().map(|r| r[0]).collect::<Vec<_>>()));
                let (c, g) = if kind == "mse" { (MeanSqError::cost(&a, &b), MeanSqError::grad_cost(&a, &b)) } else { (CrossEntropyError::cost(&a, &b), CrossEntropyError::grad_cost(&a, &b)) };
                (c, g.data().iter().map(|v| vec![*v]).collect())
            } else {
                let (a, b) = (mat(&o2, c), mat(&t2, c));
                let (k, g) = if kind == "mse" { (MeanSqError::cost(&a, &b), MeanSqError::grad_cost(&a, &b)) } else { (CrossEntropyError::cost(&a, &b), CrossEntropyError::grad_cost(&a, &b)) };
                (k, rows(&g))
            }
        };
        let res = out.run(f);
        let w = res.word();
        let (cost, grad) = res.ok().unwrap_or((0.0, vec![]));
        out.case(&format!("{}-{}", kind, i), vec![
            obj! { op: "cost", kind: kind, o: Raw(all(&o)), t: Raw(all(&t)), n: r, c: cost, end: w },
            obj! { op: "cost-grad", kind: kind, o: Raw(all(&o)), t: Raw(all(&t)), g: Raw(all(&grad)), end: w }]);
    }
    // tall and broad ones, where only the end is wrong
    for (i, &(r, c)) in [(1100usize, 1usize), (1200, 1), (3, 700), (200, 3), (70, 70)].iter().enumerate() { for kind in ["mse", "bce"].iter() {
        let kind = *kind;
        let t: Rows = (0..r).map(|_| (0..c).map(|_| if kind == "bce" { *g.pick(&[0.0, 1.0]) } else { g.int(-3, 3) as f64 }).collect()).collect();
        let mut o: Rows = t.iter().map(|v| v.iter().map(|x| *x).collect()).collect();
        o[r - 1][c - 1] = 0.25; o[r / 2][0] = 0.75;
        let vector = c == 1 && i == 0;
        let (o2, t2) = (o.clone(), t.clone());
        let res = out.run(move || -> (f64, Rows) {
            if vector {
                let (a, b) = (Vector::new(o2.iter().map(|r| r[0]).collect::<Vec<_>>()), Vector::new(t2.iter().map(|r| r[0]).collect::<Vec<_>>()));
                let (c, g) = if kind == "mse" { (MeanSqError::cost(&a, &b), MeanSqError::grad_cost(&a, &b)) } else { (CrossEntropyError::cost(&a, &b), CrossEntropyError::grad_cost(&a, &b)) };
                (c, g.data().iter().map(|v| vec![*v]).collect())
            } else {
                let (a, b) = (mat(&o2, c), mat(&t2, c));
                let (k, g) = if kind == "mse" { (MeanSqError::cost(&a, &b), MeanSqError::grad_cost(&a, &b)) } else { (CrossEntropyError::cost(&a, &b), CrossEntropyError::grad_cost(&a, &b)) };
                (k, rows(&g))
            }
        });
        let w = res.word();
        let (cost, grad) = res.ok().unwrap_or((0.0, vec![]));
        out.case(&format!("end-{}-{}", kind, i), vec![
            obj! { op: "cost", kind: kind, o: Raw(all(&o)), t: Raw(all(&t)), n: r, c: cost, end: w },
            obj! { op: "cost-grad", kind: kind, o: Raw(all(&o)), t: Raw(all(&t)), g: Raw(all(&grad)), end: w }]);
    } }
    // shapes that do not belong together
    for i in 0..12 {
        let kind = ["mse", "bce"][i % 2];
        let (r, c, r2, c2) = [(2, 2, 2, 3), (3, 1, 2, 1), (2, 3, 3, 2), (1, 4, 4, 1), (2, 1, 1, 2), (3, 2, 1, 2)][i / 2];
        let res = out.run(move || { let (a, b) = (Matrix::new(r, c, vec![0.5; r * c]), Matrix::new(r2, c2, vec![0.25; r2 * c2])); if kind == "mse" { MeanSqError::cost(&a, &b) } else { CrossEntropyError::cost(&a, &b) } });
        out.case(&format!("shape-{}", i), vec![obj! { op: "shape", end: res.word() }]);
        let res = out.run(move || { let (a, b) = (Matrix::new(r, c, vec![0.5; r * c]), Matrix::new(r2, c2, vec![0.25; r2 * c2])); if kind == "mse" { MeanSqError::grad_cost(&a, &b) } else { CrossEntropyError::grad_cost(&a, &b) } });
        out.case(&format!("shape-grad-{}", i), vec![obj! { op: "shape", end: res.word() }]);
    }
    for i in 0..a.pick(80, 1000) {
        let (r, c) = if i % 9 == 8 { [(40, 25), (1, 300), (300, 2), (700, 1), (17, 17), (160, 3), (2, 400), (140, 1)][i / 9 % 8] } else { (1 + g.below(5), 1 + g.below(4)) };
        let reg = match i % 4 { 0 => Regularization::L1(g.real(0.01, 3.0)), 1 => Regularization::L2(g.real(0.01, 3.0)), 2 => Regularization::ElasticNet(g.real(0.01, 3.0), g.real(0.01, 3.0)), _ => Regularization::None };
        let word = ["l1", "l2", "en", "none"][i % 4];
        let scale = *g.pick(&[1.0, 1.0, 1e4, 1e-4]);
        let w: Rows = (0..r).map(|_| (0..c).map(|_| if g.chance(0.15) { 0.0 } else { g.real(-2.0 * scale, 2.0 * scale) }).collect()).collect();
        // weights inside a larger matrix, as a slice
        let (w2, inner) = (w.clone(), i % 3 == 0);
        let res = out.run(move || {
            let m = if inner { let mut big = vec![vec![77.0; c + 2]; r + 2]; for (i, row) in w2.iter().enumerate() { for (j, v) in row.iter().enumerate() { big[i + 1][j + 1] = *v; } } mat(&big, c + 2) } else { mat(&w2, c) };
            let s = if inner { MatrixSlice::from_matrix(&m, [1, 1], r, c) } else { MatrixSlice::from_matrix(&m, [0, 0], r, c) };
            let p = reg.reg_cost(s);
            let s = if inner { MatrixSlice::from_matrix(&m, [1, 1], r, c) } else { MatrixSlice::from_matrix(&m, [0, 0], r, c) };
            (p, rows(&reg.reg_grad(s)))
        });
        let end = res.word();
        let (p, gr) = res.ok().unwrap_or((0.0, vec![]));
        if word == "none" { let zero = p == 0.0 && gr.len() == r && gr.iter().all(|v| v.len() == c && v.iter().all(|x| *x == 0.0)); out.case(&format!("none-{}", i), vec![obj! { op: "none", end: end, zero: zero }]); continue; }
        // single precision too
        out.case(&format!("{}-{}", word, i), vec![obj! { op: "reg", reg: reg_j(&reg), w: Raw(all(&w)), pen: vec![p], g: Raw(all(&gr)), end: end }]);
    }
    let m = |v: &[&[f64]]| J::A(v.iter().map(|r| fxs(r)).collect());
    let cost = |kind: &str, o: J, t: J, n: usize, c: f64| vec![obj! { op: "cost", kind: kind, o: Raw(o), t: Raw(t), n: n, c: c, end: "ok" }];
    let gradc = |kind: &str, o: J, t: J, g: J| vec![obj! { op: "cost-grad", kind: kind, o: Raw(o), t: Raw(t), g: Raw(g), end: "ok" }];
    out.case("check-mse", cost("mse", m(&[&[1.0, 2.0], &[3.0, 4.0]]), m(&[&[0.0, 2.0], &[3.0, 1.0]]), 2, 2.5));
    out.neg("neg-mse-entries", cost("mse", m(&[&[1.0, 2.0], &[3.0, 4.0]]), m(&[&[0.0, 2.0], &[3.0, 1.0]]), 2, 1.25));
    out.neg("neg-mse-whole", cost("mse", m(&[&[1.0]]), m(&[&[0.0]]), 1, 1.0));
    out.neg("neg-bce-sign", cost("bce", m(&[&[0.5]]), m(&[&[1.0]]), 1, -(2.0f64.ln())));
    out.neg("neg-bce-nan", cost("bce", m(&[&[0.0]]), m(&[&[0.0]]), 1, f64::NAN));
    out.neg("neg-bce-one-side", cost("bce", m(&[&[0.25]]), m(&[&[0.0]]), 1, 0.0));
    out.case("check-grad-scaled", gradc("mse", m(&[&[1.0, 2.0], &[3.0, 4.0]]), m(&[&[0.0, 2.0], &[3.0, 1.0]]), m(&[&[0.5, 0.0], &[0.0, 1.5]])));
    out.neg("neg-grad-sign", gradc("mse", m(&[&[1.0, 2.0]]), m(&[&[0.0, 4.0]]), m(&[&[-1.0, 2.0]])));
    out.neg("neg-grad-uneven", gradc("mse", m(&[&[1.0, 2.0]]), m(&[&[0.0, 4.0]]), m(&[&[1.0, -1.0]])));
    out.neg("neg-grad-zero", gradc("mse", m(&[&[1.0, 2.0]]), m(&[&[0.0, 4.0]]), m(&[&[0.0, 0.0]])));
    out.neg("neg-grad-bce", gradc("bce", m(&[&[0.5, 0.25]]), m(&[&[0.0, 0.0]]), m(&[&[0.5, 0.25]])));
    out.neg("neg-shape", vec![obj! { op: "shape", end: "ok" }]);
    let reg = |r: Regularization<f64>, p: f64, g: J| vec![obj! { op: "reg", reg: reg_j(&r), w: Raw(m(&[&[3.0, -4.0], &[0.0, 0.0]])), pen: vec![p], g: Raw(g), end: "ok" }];
    out.case("check-reg-l2", reg(Regularization::L2(2.0), 12.5, m(&[&[3.0, -4.0], &[0.0, 0.0]])));
    out.neg("neg-reg-l2-plain", reg(Regularization::L2(2.0), 2.5, m(&[&[3.0, -4.0], &[0.0, 0.0]])));
    out.neg("neg-reg-l2-rows", reg(Regularization::L2(2.0), 6.25, m(&[&[1.5, -2.0], &[0.0, 0.0]])));
    out.case("check-reg-l1", reg(Regularization::L1(2.0), 3.5, m(&[&[0.5, -0.5], &[0.0, 0.5]])));
    out.neg("neg-reg-l1-kink", reg(Regularization::L1(2.0), 3.5, m(&[&[0.5, -0.5], &[0.0, 1.5]])));
    out.neg("neg-reg-l1-sign", reg(Regularization::L1(2.0), 3.5, m(&[&[0.5, 0.5], &[0.0, 0.0]])));
    out.neg("neg-none", vec![obj! { op: "none", end: "ok", zero: false }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "forward" => forward(&a, &mut out), "backprop" => backprop(&a, &mut out), "costs" => costs(&a, &mut out), c => panic!("unknown command {}", c) }
    out.finish()
}
