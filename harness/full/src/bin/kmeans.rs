//! K-means trainings, one iteration at a time, and predictions.
use full::*;
use rusty_machine::learning::k_means::*;
use rusty_machine::learning::{LearningResult, UnSupModel};

type Grid = Vec<Vec<i64>>;
#[derive(Debug)]
struct Given(Vec<Vec<f64>>, usize);
impl Initializer for Given { fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(mat(&self.0, self.1)) } }

#[derive(Clone)]
enum Step { Train(usize, Grid), Predict(Grid) }
struct Plan { alg: &'static str, k: usize, scale: f64, given: Grid, seed: u64, default_new: bool, op: &'static str }

fn cents(c: &Option<Matrix<f64>>, scale: f64) -> J { match c { None => J::A(vec![]), Some(m) => J::A(rows(m).iter().map(|r| fxs(&r.iter().map(|v| v / scale).collect::<Vec<f64>>())).collect()) } }
fn go<I: Initializer + 'static>(mut km: KMeansClassifier<I>, p: &Plan, steps: Vec<Step>, tx: std::sync::mpsc::Sender<J>) {
    for s in steps {
        let ev = match s {
            Step::Train(it, g) => {
                let m = mat(&ints(&g, p.scale), g[0].len());
                if !p.default_new { km.set_iters(it); }
                rand::script::seed(p.seed);
                let r = km.train(&m);
                let (c, cls) = if r.is_ok() { (cents(km.centroids(), p.scale), km.predict(&m).map(|v| v.into_vec()).unwrap_or_default()) } else { (J::A(vec![]), vec![]) };
                obj! { op: p.op, x: g, it: it, end: if r.is_ok() { "ok" } else { "err" }, C: c, cls: cls }
            }
            Step::Predict(q) => { let r = km.predict(&mat(&ints(&q, p.scale), q.get(0).map(|r| r.len()).unwrap_or(1))); obj! { op: "predict", q: q, end: if r.is_ok() { "ok" } else { "err" }, cls: r.map(|v| v.into_vec()).unwrap_or_default(), C: cents(km.centroids(), p.scale) } }
        };
        tx.send(ev).unwrap();
    }
}
fn hist(out: &mut Out, name: &str, p: Plan, steps: Vec<Step>) {
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let w = p.given.get(0).map(|r| r.len()).unwrap_or(0);
    let head = obj! { op: "new", alg: p.alg, k: p.k, shape: vec![p.given.len(), w] };
    let s2 = steps.clone();
    let op = p.op;
    let r = out.run(move || {
        let it = 3;
        match p.alg {
            "forgy" => go(KMeansClassifier::new_specified(p.k, it, Forgy), &p, steps, tx),
            "partition" => go(KMeansClassifier::new_specified(p.k, it, RandomPartition), &p, steps, tx),
            "given" => go(KMeansClassifier::new_specified(p.k, it, Given(ints(&p.given, p.scale), p.given.get(0).map(|r| r.len()).unwrap_or(1))), &p, steps, tx),
            _ => if p.default_new { go(KMeansClassifier::new(p.k), &p, steps, tx) } else { go(KMeansClassifier::new_specified(p.k, it, KPlusPlus), &p, steps, tx) },
        }
    });
    let mut ev = vec![head];
    ev.extend(rx.try_iter());
    let none = Vec::<i64>::new();
    if !r.is_ok() { ev.push(match &s2[ev.len() - 1] { Step::Train(it, g) => obj! { op: op, x: g, it: it, end: r.word(), C: none, cls: none }, Step::Predict(q) => obj! { op: "predict", q: q, end: r.word(), cls: none, C: none } }); }
    out.case(name, ev);
}
fn data(g: &mut Gen, n: usize, dims: usize) -> Grid {
    let style = g.below(6);
    let span = *g.pick(&[2i64, 5, 20, 200]);
    (0..n).map(|i| (0..dims).map(|_| match style {
        0 | 1 => g.int(-span, span), 2 => (i as i64 % 3) * 50 + g.int(0, 4), 3 => g.int(0, 2), 4 => if i == 0 { 400 } else { g.int(0, 5) }, _ => g.int(0, 1) * span }).collect()).collect()
}
const ALGS: [&str; 4] = ["forgy", "partition", "plus", "given"];
fn distinct(x: &Grid) -> usize { x.iter().collect::<std::collections::BTreeSet<_>>().len() }
fn training(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 41);
    for i in 0..a.pick(260, 3000) {
        let alg = ALGS[i % 4];
        let dims = 1 + g.below(3);
        let k = 1 + g.below(4);
        let n = k + g.below(if i % 9 == 0 { 40 } else { 12 });
        let x = data(&mut g, n, dims);
        let mut steps = vec![];
        let given: Grid = if alg == "given" { let far = g.chance(0.4); (0..k).map(|_| { let mut r = x[g.below(n)].clone(); if far { for v in r.iter_mut() { *v += g.int(-300, 300); } } r }).collect() } else { vec![] };
        for t in 0..a.pick(5, 9) { steps.push(Step::Train(t, x.clone())); }
        if g.chance(0.3) { steps.push(Step::Train(60, x.clone())); steps.push(Step::Train(61, x.clone())); }
        if g.chance(0.3) { let n2 = if k > 1 && g.chance(0.3) { k - 1 } else { k + g.below(6) }; let y = data(&mut g, n2, dims); steps.push(Step::Train(0, y.clone())); steps.push(Step::Train(1, y.clone())); steps.push(Step::Train(2, y)); }
        if g.chance(0.3) { steps.push(Step::Train(0, x.clone())); steps.push(Step::Train(1, x.clone())); }
        let p = Plan { alg, k, scale: *g.pick(&[1.0, 0.25, 64.0]), given, seed: g.next(), default_new: false, op: "train" };
        hist(out, &format!("{}-{}", alg, i), p, steps);
        if out.give_up() { return; }
    }
    // slow convergence: many rows, few classes, initial centroids close together
    for i in 0..a.pick(40, 300) {
        let n = 30 + g.below(30);
        let dims = 1 + g.below(2);
        let k = 2 + g.below(3);
        let mut x: Grid = (0..n).map(|_| (0..dims).map(|_| g.int(0, 200)).collect()).collect();
        let given: Grid = if i % 2 == 0 { x[..k].to_vec() } else { x.sort(); x[..k].to_vec() };
        let alg = if i % 5 == 4 { "forgy" } else { "given" };
        let mut steps = vec![];
        for t in [1usize, 2, 5, 6, 40, 41] { steps.push(Step::Train(t, x.clone())); }
        hist(out, &format!("slow-{}", i), Plan { alg, k, scale: 1.0, given: if alg == "given" { given } else { vec![] }, seed: g.next(), default_new: false, op: "train" }, steps);
    }
    // more rows, columns and classes
    for i in 0..a.pick(16, 150) {
        let (n, dims, k) = *g.pick(&[(130usize, 2usize, 3usize), (260, 1, 5), (60, 9, 12), (40, 3, 40), (90, 2, 20), (30, 18, 4)]);
        let alg = ALGS[i % 4];
        let mut x = data(&mut g, n, dims);
        for (j, r) in x.iter_mut().enumerate() { r[0] = r[0] * 3 + (j % 2) as i64; if i % 2 == 0 { r[dims - 1] += j as i64 * 4; } }
        if alg == "plus" && distinct(&x) < k { continue; }
        let given: Grid = if alg == "given" { x[n - k..].to_vec() } else { vec![] };
        let steps: Vec<Step> = if n > 100 { vec![0usize, 1] } else { vec![0, 1, 2, 7, 8] }.into_iter().map(|t| Step::Train(t, x.clone())).collect();
        hist(out, &format!("large-{}-{}", alg, i), Plan { alg, k, scale: 1.0, given, seed: g.next(), default_new: false, op: "train" }, steps);
        if out.give_up() { return; }
    }
    // the classes of a random partition, seen whole: row j is the j-th unit vector
    for (n, k) in [(5usize, 2usize), (12, 3), (20, 20), (21, 20), (40, 7), (150, 4)] {
        let seed = g.next();
        let r = out.run(move || {
            rand::script::seed(seed);
            let x = Matrix::new(n, n, (0..n * n).map(|i| if i / n == i % n { 1.0 } else { 0.0 }).collect::<Vec<f64>>());
            rows(&RandomPartition.init_centroids(k, &x).unwrap())
        });
        let w = r.word();
        let c = r.ok().unwrap_or_default();
        out.case(&format!("units-{}-{}", n, k), vec![obj! { op: "units", n: n, k: k, end: w, C: J::A(c.iter().map(|r| fxs(r)).collect()) }]);
    }
    for (n, k) in [(30usize, 2usize), (90, 3), (300, 5), (40, 20), (450, 2), (700, 6)] { for alg in ["plus", "forgy", "partition"] {
        if alg != "forgy" && n > 100 { continue; }
        // how often each row was chosen first and last / shared its class with row n/2
        let x: Vec<i64> = (0..n).map(|i| (i * i % 37 + if i % 11 == 0 { 60 } else { 0 } + i % 7) as i64).collect();
        let (xs, seed, m) = (x.clone(), g.next(), a.pick(4000, 20_000));
        let r = out.run(move || {
            rand::script::seed(seed);
            let mut c = vec![vec![0usize; n]; 2];
            if alg == "partition" {
                let m_ = Matrix::new(n, n, (0..n * n).map(|i| if i / n == i % n { 1.0 } else { 0.0 }).collect::<Vec<f64>>());
                for _ in 0..m / (n / 6) { let t = rows(&RandomPartition.init_centroids(k, &m_).unwrap()); let cls = |j: usize| t.iter().position(|r| r[j] != 0.0); for j in 0..n { if cls(j) == cls(n - 1) { c[0][j] += 1; } if cls(j) == cls(n / 2) { c[1][j] += 1; } } }
            } else {
                // rows told apart by a second, harmless column: their position as a tiny fraction
                let m_ = Matrix::new(n, 2, (0..n).flat_map(|i| vec![xs[i] as f64, i as f64 * 1e-9]).collect::<Vec<f64>>());
                for _ in 0..m {
                    let kk = if alg == "plus" { 2 } else { k };
                    let t = if alg == "plus" { KPlusPlus.init_centroids(kk, &m_) } else { Forgy.init_centroids(kk, &m_) }.unwrap();
                    if alg == "forgy" {
                        // in which order the rows come is left open: how often each is chosen, and chosen together with row 0
                        let js: Vec<usize> = (0..kk).map(|r| (t.data()[r * 2 + 1] * 1e9).round() as usize).filter(|j| *j < n).collect();
                        for &j in &js { c[0][j] += 1; if js.contains(&0) && j > 0 { c[1][j] += 1; } }
                        continue;
                    }
                    for (s, row) in [(0usize, 0usize), (1, kk - 1)] { let j = (t.data()[row * 2 + 1] * 1e9).round() as usize; if j < n { c[s][j] += 1; } }
                }
            }
            c
        });
        let w = r.word();
        let runs = if alg == "partition" { m / (n / 6) } else { m };
        out.case(&format!("margins-{}-{}-{}", alg, n, k), vec![obj! { op: "margins", alg: alg, x: x.iter().map(|v| vec![*v]).collect::<Grid>(), k: k, m: runs, end: w, c: r.ok().unwrap_or_default() }]);
    } }
    // each centroid of k-means++ given those chosen before it: how often the farthest row, one of the later half, or of
    // even position was next, told by the runs
    for (n, k) in [(16usize, 12usize), (30, 20), (9, 5), (24, 24)] {
        let x: Vec<i64> = (0..n).map(|i| (i * 37 % 101 * 2 + i / 6 % 2) as i64).collect();
        if x.iter().collect::<std::collections::BTreeSet<_>>().len() < n { continue; }
        let (xs, seed, m) = (x.clone(), g.next(), a.pick(60, 400));
        let r = out.run(move || {
            rand::script::seed(seed);
            let m_ = Matrix::new(n, 1, xs.iter().map(|v| *v as f64).collect::<Vec<f64>>());
            (0..m).map(|_| KPlusPlus.init_centroids(k, &m_).unwrap().data().iter().map(|v| xs.iter().position(|y| *y as f64 == *v).map(|p| p + 1).unwrap_or(0)).collect::<Vec<usize>>()).collect::<Vec<_>>()
        });
        let w = r.word();
        out.case(&format!("chosen-{}-{}", n, k), vec![obj! { op: "chosen", x: x.iter().map(|v| vec![*v]).collect::<Grid>(), k: k, end: w, runs: r.ok().unwrap_or_default() }]);
    }
    // what k-means++ is given is looked through: an entry that is no number is refused wherever it stands
    for n in [2usize, 5, 40] { for c in [1usize, 3] { for at in 0..n * c {
        if n == 40 && at % 13 != 0 && at != n * c - 1 { continue; }
        for (b, bad) in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].iter().enumerate() {
            let (bad, seed) = (*bad, g.next());
            let r = out.run(move || {
                rand::script::seed(seed);
                let x = Matrix::new(n, c, (0..n * c).map(|i| if i == at { bad } else { (i * 7 % 23) as f64 }).collect::<Vec<f64>>());
                let mut km = KMeansClassifier::new(2);
                (KPlusPlus.init_centroids(2, &x).is_err(), km.train(&x).is_err(), km.centroids().is_none())
            });
            let w = r.word();
            let (i, t, none) = r.ok().unwrap_or((false, false, false));
            out.case(&format!("wild-{}-{}-{}-{}", n, c, at, b), vec![obj! { op: "wild", end: w, initialiser: i, training: t, untrained: none }]);
        }
    } } }
    // converged default models: a fixed point of the iteration
    for i in 0..a.pick(20, 200) {
        let k = 1 + g.below(4);
        let n = k + 3 + g.below(20);
        let x = data(&mut g, n, 2);
        hist(out, &format!("default-{}", i), Plan { alg: "plus", k, scale: 0.5, given: vec![], seed: g.next(), default_new: true, op: "train" }, vec![Step::Train(100, x.clone()), Step::Train(101, x)]);
    }
    // refused
    for alg in ALGS { for (k, n) in [(0usize, 3usize), (4, 3), (3, 3), (1, 1)] { for same in [false, true] {
        let x: Grid = (0..n).map(|i| vec![if same { 3 } else { i as i64 }, 1]).collect();
        let given = if alg == "given" { (0..k).map(|i| vec![i as i64, 0]).collect() } else { vec![] };
        hist(out, &format!("edge-{}-{}-{}-{}", alg, k, n, same), Plan { alg, k, scale: 1.0, given, seed: 5, default_new: false, op: "train" }, vec![Step::Train(0, x.clone()), Step::Train(1, x.clone()), Step::Train(2, x)]);
        if out.give_up() { return; }
    } } }
    for (r, c) in [(1usize, 2usize), (3, 2), (2, 1), (2, 3), (2, 2)] {
        let x: Grid = (0..5).map(|i| vec![i as i64, 1]).collect();
        hist(out, &format!("shape-{}-{}", r, c), Plan { alg: "given", k: 2, scale: 1.0, given: vec![vec![2; c]; r], seed: 5, default_new: false, op: "train" }, vec![Step::Train(0, x.clone()), Step::Train(2, x)]);
    }
    // laws of the initialisers
    let m = a.pick(12_000, 60_000);
    for (i, x) in [vec![0i64, 1, 3], vec![0, 1, 2, 10], vec![5, 0, 9, 30, 2], vec![0, 7]].into_iter().enumerate() {
        for k in 1..=3usize.min(x.len()) { for alg in ["plus", "forgy"] {
            let xs = x.clone();
            let seed = g.next();
            let r = out.run(move || {
                rand::script::seed(seed);
                let m_ = Matrix::new(xs.len(), 1, xs.iter().map(|v| *v as f64).collect::<Vec<f64>>());
                let mut h: std::collections::BTreeMap<Vec<usize>, usize> = Default::default();
                for _ in 0..m {
                    let c = if alg == "plus" { KPlusPlus.init_centroids(k, &m_) } else { Forgy.init_centroids(k, &m_) }.unwrap();
                    let t: Vec<usize> = c.data().iter().map(|v| xs.iter().position(|y| *y as f64 == *v).map(|p| p + 1).unwrap_or(0)).collect();
                    *h.entry(t).or_insert(0) += 1;
                }
                h
            });
            let w = r.word();
            let h: Vec<J> = r.ok().unwrap_or_default().into_iter().map(|(t, n)| J::A(vec![t.j(), n.j()])).collect();
            out.case(&format!("law-{}-{}-{}", alg, i, k), vec![obj! { op: "law", alg: alg, x: x.iter().map(|v| vec![*v]).collect::<Grid>(), k: k, m: m, end: w, hist: h }]);
        } }
    }
    for (n, k) in [(6usize, 2usize), (7, 3), (9, 4)] {
        let seed = g.next();
        let r = out.run(move || {
            rand::script::seed(seed);
            let m_ = Matrix::new(n, 1, (0..n).map(|v| (1 << v) as f64).collect::<Vec<f64>>());
            let mut c = vec![0usize; k];
            for _ in 0..4000 { for (i, v) in RandomPartition.init_centroids(k, &m_).unwrap().data().iter().enumerate() { if m_.data().contains(v) { c[i] += 1; } } }
            c
        });
        let w = r.word();
        out.case(&format!("singles-{}-{}", n, k), vec![obj! { op: "singles", m: 4000usize, end: w, n: r.ok().unwrap_or_default() }]);
    }
    let x: Grid = vec![vec![0], vec![2], vec![10]];
    let tr = |it: usize, c: Vec<f64>, cls: Vec<usize>| obj! { op: "train", x: x, it: it, end: "ok", C: c.iter().map(|v| vec![*v]).collect::<Vec<Vec<f64>>>(), cls: cls };
    let h = |v: Vec<J>| { let mut e = vec![obj! { op: "new", alg: "forgy", k: 2usize, shape: vec![0usize, 0] }]; e.extend(v); e };
    out.neg("neg-not-a-row", h(vec![tr(0, vec![1.0, 10.0], vec![0, 0, 1])]));
    out.neg("neg-not-the-mean", h(vec![tr(0, vec![0.0, 10.0], vec![0, 0, 1]), tr(1, vec![1.5, 10.0], vec![0, 0, 1])]));
    out.neg("neg-not-moved", h(vec![tr(0, vec![0.0, 10.0], vec![0, 0, 1]), tr(1, vec![0.0, 10.0], vec![0, 0, 1])]));
    out.neg("neg-chosen", vec![obj! { op: "chosen", x: (0..12).map(|i| vec![i as i64]).collect::<Grid>(), k: 3usize, end: "ok", runs: (0..60).map(|i| vec![1 + i % 12, if i % 12 < 6 { 12 } else { 1 }, if i % 12 == 5 || i % 12 == 6 { 5 } else { 6 }]).collect::<Vec<Vec<usize>>>() }]);
    out.neg("neg-wild", vec![obj! { op: "wild", end: "ok", initialiser: true, training: false, untrained: false }]);
    out.neg("neg-units", vec![obj! { op: "units", n: 3usize, k: 2usize, end: "ok", C: vec![vec![0.5, 0.5, 0.0], vec![0.0, 0.0, 0.5]] }]);
    out.neg("neg-margins", vec![obj! { op: "margins", alg: "forgy", x: vec![vec![1i64], vec![2]], k: 1usize, m: 1000usize, end: "ok", c: vec![vec![800usize, 200], vec![800, 200]] }]);
    out.neg("neg-nan", h(vec![tr(1, vec![0.0, f64::NAN], vec![0, 0, 0])]));
    out.neg("neg-range", h(vec![tr(1, vec![0.0, 11.0], vec![0, 0, 1])]));
}
fn predict(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 42);
    for i in 0..a.pick(300, 4000) {
        let alg = ALGS[i % 4];
        let dims = 1 + g.below(4);
        let k = 1 + g.below(5);
        let n = k + g.below(14);
        let mut steps = vec![];
        let x = data(&mut g, n, dims);
        let given: Grid = if alg == "given" { (0..k).map(|_| { let mut r = x[g.below(n)].clone(); for v in r.iter_mut() { *v += g.int(-30, 30); } r }).collect() } else { vec![] };
        // a failed training leaves nothing to predict from / the earlier model
        if g.chance(0.3) { steps.push(Step::Predict(vec![vec![0; dims]])); }
        if k > 1 && g.chance(0.2) { steps.push(Step::Train(1, data(&mut g, k - 1, dims))); steps.push(Step::Predict(vec![vec![0; dims]])); }
        for _ in 0..1 + g.below(2) {
            let n2 = k + g.below(20);
            let x = data(&mut g, n2, dims);
            if alg == "plus" && distinct(&x) < k { continue; }
            steps.push(Step::Train(g.below(4), x.clone()));
            for _ in 0..2 { let q = (0..g.below(8)).map(|_| { let mut r = x[g.below(n2)].clone(); let s = *g.pick(&[0, 2, 60, 900]); for v in r.iter_mut() { *v += g.int(-s, s); } r }).collect(); steps.push(Step::Predict(q)); }
            if k > 1 && g.chance(0.1) { steps.push(Step::Train(1, data(&mut g, k - 1, dims))); steps.push(Step::Predict(x)); }
        }
        let p = Plan { alg, k, scale: *g.pick(&[1.0, 0.125, 16.0]), given, seed: g.next(), default_new: false, op: "trained" };
        hist(out, &format!("query-{}-{}", alg, i), p, steps);
        if out.give_up() { return; }
    }
    for i in 0..a.pick(16, 150) {
        let (n, dims, k) = *g.pick(&[(60usize, 2usize, 12usize), (40, 9, 5), (40, 3, 40), (200, 1, 3), (30, 18, 2)]);
        let x = data(&mut g, n, dims);
        let alg = if i % 2 == 0 { "given" } else { "forgy" };
        let given: Grid = if alg == "given" { (0..k).map(|_| { let mut r = x[g.below(n)].clone(); for v in r.iter_mut() { *v += g.int(-30, 30); } r }).collect() } else { vec![] };
        let q: Grid = (0..if k > 20 { 12 } else { 40 }).map(|_| { let mut r = x[g.below(n)].clone(); let s = *g.pick(&[0, 2, 60, 900]); for v in r.iter_mut() { *v += g.int(-s, s); } r }).collect();
        hist(out, &format!("large-{}-{}", alg, i), Plan { alg, k, scale: 0.5, given, seed: g.next(), default_new: false, op: "trained" }, vec![Step::Train(i % 3, x.clone()), Step::Predict(q), Step::Predict(x[..10].to_vec())]);
        if out.give_up() { return; }
    }
    // centroids at almost the same distance from a query
    for i in 0..a.pick(30, 300) {
        let dims = 1 + g.below(4);
        let k = 2 + g.below(if dims == 1 { 1 } else { 11 });
        let q: Vec<i64> = (0..dims).map(|_| g.int(-100, 100)).collect();
        let r = *g.pick(&[300.0, 5000.0, 200_000.0]);
        let given: Grid = (0..k).map(|j| { let mut u: Vec<f64> = (0..dims).map(|_| g.real(-1.0, 1.0)).collect(); if dims == 1 { u[0] = if j == 0 { 1.0 } else { -1.0 }; } let l = u.iter().map(|v| v * v).sum::<f64>().sqrt(); q.iter().zip(&u).map(|(c, v)| c + (v / l * r).round() as i64 + if dims == 1 { g.int(-1, 1) } else { 0 }).collect() }).collect();
        let x: Grid = (0..k).map(|j| vec![j as i64; dims]).collect();
        let qs: Grid = (0..6).map(|j| q.iter().map(|c| c + g.int(-j, j)).collect()).collect();
        hist(out, &format!("close-{}", i), Plan { alg: "given", k, scale: *g.pick(&[1.0, 1.0 / 4096.0]), given, seed: g.next(), default_new: false, op: "trained" }, vec![Step::Train(0, x), Step::Predict(qs)]);
        if out.give_up() { return; }
    }
    let h = |e: J| vec![obj! { op: "new", alg: "forgy", k: 2usize, shape: vec![0usize, 0] }, obj! { op: "train", x: vec![vec![0i64], vec![10]], it: 0usize, end: "ok", C: vec![vec![0.0], vec![10.0]], cls: vec![0usize, 1] }, e];
    out.neg("neg-far", h(obj! { op: "predict", q: vec![vec![4i64]], end: "ok", cls: vec![1usize], C: vec![vec![0.0], vec![10.0]] }));
    out.neg("neg-changed", h(obj! { op: "predict", q: vec![vec![4i64]], end: "ok", cls: vec![0usize], C: vec![vec![0.5], vec![10.0]] }));
    out.neg("neg-class", h(obj! { op: "predict", q: vec![vec![40i64]], end: "ok", cls: vec![2usize], C: vec![vec![0.0], vec![10.0]] }));
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "training" => training(&a, &mut out), "predict" => predict(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
