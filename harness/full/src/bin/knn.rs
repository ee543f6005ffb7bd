//! Nearest neighbour search structures and the KNN classifier.
use full::*;
use rusty_machine::learning::knn::*;
use rusty_machine::learning::SupModel;
use std::sync::{Arc, Mutex};

enum S { B(BruteForce), K(KDTree), A(BallTree) }
impl S {
    fn new(kind: &str, leaf: usize) -> S { match kind { "brute" => S::B(BruteForce::new()), "kd" => S::K(if leaf == 30 { KDTree::default() } else { KDTree::new(leaf) }), _ => S::A(if leaf == 30 { BallTree::default() } else { BallTree::new(leaf) }) } }
    fn build(&mut self, m: Matrix<f64>) { match self { S::B(s) => s.build(m), S::K(s) => s.build(m), S::A(s) => s.build(m) } }
    fn search(&self, q: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), ()> { match self { S::B(s) => s.search(q, k), S::K(s) => s.search(q, k), S::A(s) => s.search(q, k) }.map_err(|_| ()) }
}
const KINDS: [&str; 3] = ["brute", "kd", "ball"];

type Grid = Vec<Vec<i64>>;
/// exact squared distance in grid units, -1 when the reported distance is none
fn d2(d: f64, scale: f64) -> i64 { let s = (d / scale) * (d / scale); let r = s.round(); if r.is_finite() && (s - r).abs() <= 1e-9 * r.max(1.0) && r < 2e9 { r as i64 } else { -1 } }

struct Case { kind: &'static str, leaf: usize, scale: f64, steps: Vec<Step> }
enum Step { Build(Grid), Search(Vec<i64>, usize) }

fn run_case(out: &mut Out, name: &str, c: Case) {
    let cell = Arc::new(Mutex::new(S::new(c.kind, c.leaf)));
    let mut ev = vec![obj! { op: "new", kind: c.kind, leaf: c.leaf }];
    let scale = c.scale;
    for s in c.steps {
        match s {
            Step::Build(g) => {
                let m = mat(&ints(&g, scale), g[0].len());
                let cl = cell.clone();
                let r = out.run(move || cl.lock().unwrap().build(m));
                ev.push(obj! { op: "build", x: g, end: r.word() });
                if !r.is_ok() { break; }
            }
            Step::Search(q, k) => {
                let p: Vec<f64> = q.iter().map(|v| *v as f64 * scale).collect();
                let cl = cell.clone();
                let r = out.run(move || cl.lock().unwrap().search(&p, k));
                let w = word(&r);
                let (i, d) = value(r).unwrap_or_default();
                ev.push(obj! { op: "search", q: q, k: k, end: w, idx: i.iter().map(|i| i + 1).collect::<Vec<usize>>(), d: d.iter().map(|d| d2(*d, scale)).collect::<Vec<i64>>() });
                if w == "panic" || w == "hang" { break; }
            }
        }
    }
    out.case(name, ev);
}
/// Many searches in one go (no thread per search): only for structures that are known to answer.
fn sweep(out: &mut Out, name: &str, kind: &'static str, leaf: usize, scale: f64, g: &Grid, qs: Vec<(Vec<i64>, usize)>) {
    let m = mat(&ints(g, scale), g[0].len());
    let r = out.run(move || {
        let mut s = S::new(kind, leaf);
        s.build(m);
        qs.into_iter().map(|(q, k)| {
            let p: Vec<f64> = q.iter().map(|v| *v as f64 * scale).collect();
            match s.search(&p, k) {
                Ok((i, d)) => obj! { op: "search", q: q, k: k, end: "ok", idx: i.iter().map(|i| i + 1).collect::<Vec<usize>>(), d: d.iter().map(|d| d2(*d, scale)).collect::<Vec<i64>>() },
                Err(_) => obj! { op: "search", q: q, k: k, end: "err", idx: Vec::<i64>::new(), d: Vec::<i64>::new() },
            }
        }).collect::<Vec<J>>()
    });
    let w = r.word();
    let mut ev = vec![obj! { op: "new", kind: kind, leaf: leaf }, obj! { op: "build", x: g, end: w }];
    ev.extend(r.ok().unwrap_or_default());
    out.case(name, ev);
}
fn grid(g: &mut Gen, n: usize, dims: usize, shape: usize, span: i64) -> Grid {
    let mut x: Grid = (0..n).map(|_| (0..dims).map(|_| g.int(-span, span)).collect()).collect();
    match shape {
        1 => { let c = g.below(dims); for r in x.iter_mut() { r[c] = 3; } }                                  // constant column
        2 => { for i in 0..n { if g.chance(0.5) { x[i] = x[g.below(n)].clone(); } } }                        // repeated rows
        3 => { let r = x[0].clone(); for i in 0..n { x[i] = r.clone(); } if n > 1 { x[n - 1][0] += 1; } }     // nearly all the same
        4 => { for r in x.iter_mut() { let b = g.int(0, 2) * span; for v in r.iter_mut() { *v = b + *v % 5; } } } // clusters
        5 => { x.sort(); }
        6 => { let r = x[0].clone(); for i in 0..n { x[i] = r.clone(); } }                                    // all the same
        _ => {}
    }
    x
}
fn query(g: &mut Gen, x: &Grid, span: i64) -> Vec<i64> {
    let d = x[0].len();
    match g.below(4) {
        0 => x[g.below(x.len())].clone(),
        1 => { let mut q = x[g.below(x.len())].clone(); for v in q.iter_mut() { *v += g.int(-2, 2); } q }
        2 => (0..d).map(|_| g.int(-2 * span, 2 * span)).collect(),
        _ => (0..d).map(|_| g.int(-span, span)).collect(),
    }
}

fn search(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 21);
    // every small one-dimensional data set
    let lv = 3i64;
    for n in 1..=a.pick(4usize, 5) {
        for code in 0..(lv as usize).pow(n as u32) {
            let x: Grid = (0..n).map(|i| vec![((code / (lv as usize).pow(i as u32)) % lv as usize) as i64 * 4]).collect();
            for kind in KINDS { for leaf in if kind == "brute" { 1..=1 } else { 1..=3 } {
                // half of them per quick run: alternating leaf sizes and queries
                if !a.thorough() && n == 4 && (code + leaf) % 2 == 0 { continue; }
                let qs = (-1..=5).flat_map(|q| (1..=n).map(move |k| (vec![q * 2], k))).collect();
                sweep(out, &format!("line-{}-{}-{}-{}", n, code, kind, leaf), kind, leaf, 1.0, &x, qs);
                if out.give_up() { return; }
            } }
        }
    }
    // random shapes
    for i in 0..a.pick(260, 3000) {
        let dims = 1 + g.below(if i % 3 == 0 { 2 } else { 5 });
        let n = 1 + g.below(if i % 10 == 0 { 150 } else { 40 });
        let span = *g.pick(&[2i64, 6, 20, 300, 3000]);
        let shape = g.below(7);
        let x = grid(&mut g, n, dims, shape, span);
        let scale = *g.pick(&[1.0, 0.25, 1024.0, 1.0 / 1048576.0, 2f64.powi(490), 2f64.powi(-490), 16777216.0]);
        let kind = KINDS[if i % 5 == 0 { 0 } else { 1 + i % 2 }];
        let leaf = *g.pick(&[0usize, 1, 2, 3, 5, 10, 30]);
        let m = if n > 60 { 4 } else { 9 };
        let qs = (0..m).map(|_| (query(&mut g, &x, span), if g.chance(0.2) { n } else { 1 + g.below(n.min(12)) })).collect();
        sweep(out, &format!("grid-{}-{}", kind, i), kind, leaf, scale, &x, qs);
        if out.give_up() { return; }
    }
    // large k against small leaves, and few far rows
    for i in 0..a.pick(40, 300) {
        let n = 20 + g.below(30);
        let x = grid(&mut g, n, 2, 4, 50);
        let kind = KINDS[1 + i % 2];
        let leaf = 1 + g.below(6);
        let qs = (0..6).map(|_| (query(&mut g, &x, 50), n - g.below(4))).collect();
        sweep(out, &format!("wide-{}-{}", kind, i), kind, leaf, 1.0, &x, qs);
    }
    // long and broad data, many neighbours
    for i in 0..a.pick(24, 160) {
        let (n, dims) = *g.pick(&[(300usize, 8usize), (1100, 2), (260, 12), (520, 3), (1030, 1), (130, 20), (70, 33), (40, 130), (90, 70)]);
        let (span, shape) = (*g.pick(&[3i64, 40, 3000]), g.below(7));
        let span = if dims > 20 { span.min(40) } else { span };
        let x = grid(&mut g, n, dims, shape, span);
        let kind = KINDS[if i % 6 == 0 { 0 } else { 1 + i % 2 }];
        let leaf = *g.pick(&[1usize, 4, 30, 64, 200]);
        let qs = (0..3).map(|j| (query(&mut g, &x, span), match j { 0 => n - g.below(3), 1 => 1 + g.below(n), _ => 1 + g.below(40) })).collect();
        sweep(out, &format!("large-{}-{}", kind, i), kind, leaf, *g.pick(&[1.0, 0.5]), &x, qs);
        if out.give_up() { return; }
    }
    // long data whose last rows lie outside of all others
    for i in 0..a.pick(12, 60) {
        let (n, dims) = if i % 3 > 0 { *g.pick(&[(1100usize, 2usize), (1600, 2), (1600, 3)]) } else { *g.pick(&[(1100usize, 1usize), (1100, 2), (2100, 1)]) };
        let span = 3000i64;
        let mut x = grid(&mut g, n, dims, 0, span);
        let far: Grid = (0..2 * dims).map(|c| { let mut r: Vec<i64> = (0..dims).map(|_| g.int(-span, span)).collect(); r[c / 2] = (if c % 2 == 0 { 1 } else { -1 }) * (span + 200 + g.int(0, 100)); r }).collect();
        for (j, r) in far.iter().enumerate() { x[n - 1 - j] = r.clone(); let mut q = r.clone(); q[j / 2] += if j % 2 == 0 { -1 } else { 1 } * g.int(1, 60); if dims == 1 { x[j] = q; } }
        let qs = far.iter().enumerate().map(|(j, r)| { let mut q = r.clone(); q[j / 2] += if j % 2 == 0 { 1 } else { -1 } * g.int(-20, 200); (q, 1 + g.below(2)) }).collect::<Vec<_>>();
        let qs = if dims == 1 { qs } else { (0..if dims == 2 { 14 } else { 5 }).flat_map(|_| qs.clone()).map(|(mut q, k)| { for v in q.iter_mut() { if v.abs() < span { *v += g.int(-500, 500); } } (q, k) }).collect() };
        sweep(out, &format!("tail-{}-{}", KINDS[i % 3], i), KINDS[i % 3], *g.pick(&[1usize, 8, 30, 100]), 1.0, &x, qs);
        if out.give_up() { return; }
    }
    // histories: searches before building, rebuilding with other data
    for kind in KINDS { for leaf in [2usize, 30] { for rep in 0..a.pick(3, 10) {
        let mut steps = vec![Step::Search(vec![0, 0], 1)];
        let mut d = 2;
        for b in 0..3 {
            let n = 3 + g.below(20);
            if b == 2 { d = 3; }
            let shape = g.below(7);
            let x = grid(&mut g, n, d, shape, 9);
            steps.push(Step::Build(x.clone()));
            for _ in 0..3 { steps.push(Step::Search(query(&mut g, &x, 9), 1 + g.below(n))); }
            if rep == 0 { steps.push(Step::Search(vec![0; d + 1], 1)); steps.push(Step::Search(vec![1; d - 1], 1)); steps.push(Step::Search(query(&mut g, &x, 9), 1)); }
        }
        run_case(out, &format!("history-{}-{}-{}", kind, leaf, rep), Case { kind, leaf, scale: 0.5, steps });
        if out.give_up() { return; }
    } } }
    // real data: adjacent floats, tiny and huge ranges
    for i in 0..a.pick(60, 600) {
        let n = 2 + g.below(25);
        let dims = 1 + g.below(3);
        let kind = KINDS[if i % 6 == 0 { 0 } else { 1 + i % 2 }];
        let leaf = *g.pick(&[1usize, 2, 4, 30]);
        let style = if i % 4 == 3 { 4 } else { g.below(4) };
        let near: Vec<f64> = (0..dims).map(|_| g.int(-3, 3) as f64).collect();
        let base = *g.pick(&[0.0, 1.0, 1000.0, 1e-3]);
        // style 4: rows whose distances to one query hardly differ
        let x: Vec<Vec<f64>> = (0..n).map(|_| if style == 4 { let mut u: Vec<f64> = (0..dims).map(|_| g.real(-1.0, 1.0)).collect(); if dims == 1 || g.chance(0.3) { u = vec![0.0; dims]; u[g.below(dims)] = if g.chance(0.5) { 1.0 } else { -1.0 }; } let l = u.iter().map(|v| v * v).sum::<f64>().sqrt(); let r = 8.0 * (1.0 + g.real(0.0, 1.0) * 10f64.powi(g.int(-9, -3) as i32)) / l; near.iter().zip(&u).map(|(c, v)| c + v * r).collect() } else { (0..dims).map(|_| match style {
            0 => g.real(-1.0, 1.0), 1 => g.real(-1e4, 1e4), 2 => base + g.int(0, 3) as f64 * f64::EPSILON * 2.0, _ => g.real(0.0, 1.0) * 10f64.powi(g.int(-6, 4) as i32) }).collect() }).collect();
        let qs: Vec<(Vec<f64>, usize)> = (0..5).map(|_| (if style == 4 { near.clone() } else if g.chance(0.3) { x[g.below(n)].clone() } else { (0..dims).map(|_| if style == 1 { g.real(-1e4, 1e4) } else { base + g.real(-1.0, 1.0) }).collect() }, 1 + g.below(n))).collect();
        let m = mat(&x, dims);
        let r = out.run(move || { let mut s = S::new(kind, leaf); s.build(m); qs.into_iter().map(|(q, k)| match s.search(&q, k) {
            Ok((i, d)) => obj! { op: "rsearch", q: q, k: k, end: "ok", idx: i.iter().map(|i| i + 1).collect::<Vec<usize>>(), d: d },
            Err(_) => obj! { op: "rsearch", q: q, k: k, end: "err", idx: Vec::<i64>::new(), d: Vec::<i64>::new() } }).collect::<Vec<J>>() });
        let w = r.word();
        let mut ev = vec![obj! { op: "new", kind: kind, leaf: leaf }, obj! { op: "rbuild", x: x, end: w }];
        ev.extend(r.ok().unwrap_or_default());
        out.case(&format!("real-{}-{}", kind, i), ev);
        if out.give_up() { return; }
    }
    // corrupted histories
    let x = vec![vec![0i64], vec![4], vec![9]];
    let b = |q: i64, k: usize, i: Vec<usize>, d: Vec<i64>| vec![obj! { op: "new", kind: "kd", leaf: 1usize }, obj! { op: "build", x: x, end: "ok" }, obj! { op: "search", q: vec![q], k: k, end: "ok", idx: i, d: d }];
    out.neg("neg-not-nearest", b(8, 1, vec![2], vec![16]));
    out.neg("neg-short", b(8, 2, vec![3], vec![1]));
    out.neg("neg-twice", b(8, 2, vec![3, 3], vec![1, 1]));
    out.neg("neg-distance", b(8, 2, vec![3, 2], vec![1, 9]));
    out.neg("neg-order", b(8, 2, vec![2, 3], vec![16, 1]));
}

fn labels(g: &mut Gen, n: usize) -> Vec<usize> { let m = 1 + g.below(4); let s = g.below(3); (0..n).map(|_| (g.below(m) + s) * if s == 2 { 1000 } else { 1 }).collect() }
macro_rules! hist { ($out:expr, $name:expr, $kind:expr, $model:expr, $k:expr, $steps:expr, $scale:expr) => {{
    let out: &mut Out = $out; let cell = Arc::new(Mutex::new($model));
    let mut ev = vec![obj! { op: "classifier", kind: $kind, k: $k }];
    for s in $steps { match s {
        CStep::Train(g, y) => {
            let m = mat(&ints(&g, $scale), g.get(0).map(|r| r.len()).unwrap_or(1)); let t = Vector::new(y.clone());
            let cl = cell.clone();
            let r = out.run(move || cl.lock().unwrap().train(&m, &t));
            let w = word(&r);
            ev.push(obj! { op: "train", x: g, y: y, end: w });
            if w == "panic" || w == "hang" { break; }
        }
        CStep::Predict(q) => {
            let m = mat(&ints(&q, $scale), q.get(0).map(|r| r.len()).unwrap_or(1));
            let cl = cell.clone();
            let r = out.run(move || cl.lock().unwrap().predict(&m));
            let w = word(&r);
            ev.push(obj! { op: "predict", q: q, end: w, labels: value(r).map(|v| v.into_vec()).unwrap_or_default() });
            if w == "panic" || w == "hang" { break; }
        }
    } }
    out.case($name, ev);
}} }
enum CStep { Train(Grid, Vec<usize>), Predict(Grid) }
fn classify(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 22);
    for i in 0..a.pick(260, 3000) {
        let dims = 1 + g.below(3);
        let span = *g.pick(&[2i64, 4, 30, 1000]);
        let k = if i % 13 == 0 { 5 } else { 1 + g.below(7) };
        let mut steps = vec![];
        if g.chance(0.3) { steps.push(CStep::Predict(vec![vec![0; dims]])); }
        for _ in 0..1 + g.below(2) {
            let n = k + g.below(if i % 9 == 0 { 60 } else { 20 });
            let shape = g.below(7);
            let x = grid(&mut g, n, dims, shape, span);
            let y = labels(&mut g, n);
            if g.chance(0.2) { steps.push(CStep::Train(x.clone(), y[..n - 1].to_vec())); }
            if g.chance(0.1) { let mut z = y.clone(); z.push(7); steps.push(CStep::Train(x.clone(), z)); }
            if g.chance(0.1) && k > 1 { steps.push(CStep::Train(x[..k - 1].to_vec(), y[..k - 1].to_vec())); }
            if g.chance(0.1) { steps.push(CStep::Predict((0..3).map(|_| query(&mut g, &x, span)).collect())); }
            steps.push(CStep::Train(x.clone(), y));
            steps.push(CStep::Predict((0..1 + g.below(6)).map(|_| query(&mut g, &x, span)).collect()));
            if g.chance(0.2) { steps.push(CStep::Predict(vec![vec![1; dims + 1]])); }
            if dims > 1 && g.chance(0.1) { steps.push(CStep::Predict(vec![vec![1; dims - 1]])); }
            if g.chance(0.3) { steps.push(CStep::Predict((0..2).map(|_| query(&mut g, &x, span)).collect())); }
        }
        let leaf = *g.pick(&[1usize, 2, 3, 10]);
        let name = format!("vote-{}", i);
        match i % 5 {
            0 => hist!(out, &name, "kd", if k == 5 { KNNClassifier::default() } else { KNNClassifier::new(k) }, k, steps, 1.0),
            1 => hist!(out, &name, "brute", KNNClassifier::new_specified(k, BruteForce::new()), k, steps, 0.125),
            2 => hist!(out, &name, "kd", KNNClassifier::new_specified(k, KDTree::new(leaf)), k, steps, 2.0),
            3 => hist!(out, &name, "ball", KNNClassifier::new_specified(k, BallTree::new(leaf)), k, steps, 1.0),
            _ => hist!(out, &name, "ball", KNNClassifier::new_specified(k, BallTree::default()), k, steps, 1.0),
        }
        if out.give_up() { return; }
    }
    // many neighbours, many classes, many queries
    for i in 0..a.pick(24, 200) {
        let (n, dims, k) = *g.pick(&[(40usize, 6usize, 40usize), (130, 2, 17), (260, 3, 101), (90, 10, 33), (300, 1, 11), (64, 4, 63), (200, 2, 200)]);
        let (span, shape) = (*g.pick(&[2i64, 9, 400]), g.below(7));
        let x = grid(&mut g, n, dims, shape, span);
        let m = *g.pick(&[2usize, 12, 40, 300]);
        let y: Vec<usize> = if i % 4 == 0 { (0..n).map(|j| if j % 3 == 0 { 3_000_000 + g.below(3) } else { g.below(m) * 65_536 }).collect() } else { (0..n).map(|_| g.below(m)).collect() };
        let nq = if n > 150 { 2 } else { 4 + g.below(if dims < 4 { 40 } else { 5 }) };
        let qs: Grid = (0..nq).map(|_| query(&mut g, &x, span)).collect();
        let steps = vec![CStep::Train(x, y), CStep::Predict(qs)];
        let name = format!("many-{}", i);
        match i % 3 {
            0 => hist!(out, &name, "brute", KNNClassifier::new_specified(k, BruteForce::new()), k, steps, 1.0),
            1 => hist!(out, &name, "kd", KNNClassifier::new(k), k, steps, 1.0),
            _ => hist!(out, &name, "ball", KNNClassifier::new_specified(k, BallTree::new(4)), k, steps, 0.5),
        }
        if out.give_up() { return; }
    }
    // votes of hundreds
    for i in 0..a.pick(8, 40) {
        let k = *g.pick(&[64usize, 65, 128, 257, 300]);
        let n = k + g.below(40);
        let x = grid(&mut g, n, 1, 0, 400);
        let y: Vec<usize> = (0..n).map(|_| if g.chance([0.03, 0.2, 0.45][i % 3]) { 1 } else { 4 * (i % 2) }).collect();
        let qs: Grid = (0..3).map(|_| query(&mut g, &x, 400)).collect();
        let steps = vec![CStep::Train(x, y), CStep::Predict(qs)];
        let name = format!("hundreds-{}", i);
        if i % 2 == 0 { hist!(out, &name, "brute", KNNClassifier::new_specified(k, BruteForce::new()), k, steps, 1.0) } else { hist!(out, &name, "kd", KNNClassifier::new(k), k, steps, 1.0) }
        if out.give_up() { return; }
    }
    let t = obj! { op: "train", x: vec![vec![0i64], vec![1], vec![5]], y: vec![1usize, 1, 2], end: "ok" };
    let h = |e: J| vec![obj! { op: "classifier", kind: "kd", k: 1usize }, t.clone(), e];
    out.neg("neg-label", h(obj! { op: "predict", q: vec![vec![1i64]], end: "ok", labels: vec![2usize] }));
    out.neg("neg-count", h(obj! { op: "predict", q: vec![vec![1i64], vec![5]], end: "ok", labels: vec![1usize] }));
    out.neg("neg-untrained", vec![obj! { op: "classifier", kind: "kd", k: 1usize }, obj! { op: "predict", q: vec![vec![1i64]], end: "ok", labels: vec![2usize] }]);
    out.neg("neg-length", vec![obj! { op: "classifier", kind: "kd", k: 1usize }, obj! { op: "train", x: vec![vec![1i64]], y: vec![2usize, 1], end: "ok" }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "search" => search(&a, &mut out), "classify" => classify(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
