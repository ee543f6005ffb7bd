//! DBSCAN clustering and prediction histories.
use full::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::UnSupModel;

type Grid = Vec<Vec<i64>>;
#[derive(Clone)]
enum Step { Predictive(bool), Train(Grid), Predict(Grid), Clusters }
fn lab(v: &Vector<Option<usize>>) -> Vec<i64> { v.data().iter().map(|l| l.map(|c| c as i64).unwrap_or(-1)).collect() }

static GUESSING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn train_op() -> &'static str { if GUESSING.load(std::sync::atomic::Ordering::SeqCst) { "trained" } else { "train" } }
fn hist(out: &mut Out, name: &str, e: i64, m: usize, scale: f64, steps: Vec<Step>) {
    let s2 = steps.clone();
    let default = name.starts_with("default");
    // a step that does not end normally is the last one recorded
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let r = out.run(move || {
        let mut db = if default { DBSCAN::default() } else { DBSCAN::new(e as f64 * scale, m) };
        let mat_of = |g: &Grid| mat(&ints(g, scale), g.get(0).map(|r| r.len()).unwrap_or(1));
        for s in steps {
            let ev = match s {
                Step::Predictive(on) => { db.set_predictive(on); obj! { op: "predictive", on: on } }
                Step::Train(g) => { let ok = db.train(&mat_of(&g)).is_ok(); obj! { op: train_op(), x: g, end: if ok { "ok" } else { "err" }, lab: db.clusters().map(lab).unwrap_or_default() } }
                Step::Predict(q) => { let r = db.predict(&mat_of(&q)); obj! { op: "predict", q: q, end: if r.is_ok() { "ok" } else { "err" }, lab: r.map(|v| lab(&v)).unwrap_or_default() } }
                Step::Clusters => obj! { op: "clusters", lab: db.clusters().map(lab) },
            };
            tx.send(ev).unwrap();
        }
    });
    let w = r.word();
    let mut ev = vec![obj! { op: "new", e2: e * e, m: m }];
    ev.extend(rx.try_iter());
    if w != "ok" {
        ev.push(match &s2[ev.len() - 1] {
            Step::Train(g) => obj! { op: train_op(), x: g, end: w, lab: Vec::<i64>::new() },
            Step::Predict(q) => obj! { op: "predict", q: q, end: w, lab: Vec::<i64>::new() },
            _ => obj! { op: "other", end: w },
        });
    }
    out.case(name, ev);
}
fn data(g: &mut Gen, n: usize, dims: usize, e: i64) -> Grid {
    let style = g.below(6);
    let span = *g.pick(&[e, 2 * e, 4 * e, 8 * e]);
    let mut x: Grid = (0..n).map(|i| (0..dims).map(|d| match style {
        0 | 1 => g.int(-span, span),
        2 => if d == 0 { i as i64 * (e - g.int(0, 1)) } else { 0 },            // chains
        3 => g.int(0, 3) * 4 * e + g.int(-e, e),                              // blobs
        4 => e * g.int(0, 3),                                                 // distances exactly eps
        _ => g.int(0, 2) * (e - 1) + g.int(0, 1) } ).collect()).collect();
    if g.chance(0.5) { for i in (1..n).rev() { let j = g.below(i + 1); x.swap(i, j); } }
    x
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
fn queries(g: &mut Gen, x: &Grid, e: i64) -> Grid {
    (0..1 + g.below(5)).map(|_| { let mut q = x[g.below(x.len())].clone(); for v in q.iter_mut() { let far = g.chance(0.15); *v += if far { g.int(-9 * e, 9 * e) } else { g.int(-e, e) }; } q }).collect()
}
fn clusters(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 31);
    // every small data set on a line, every order
    for n in 1..=4usize { for code in 0..5usize.pow(n as u32) {
        if !a.thorough() && n == 4 && (code * 7 + a.seed as usize) % 3 != 0 { continue; }
        let x: Grid = (0..n).map(|i| vec![((code / 5usize.pow(i as u32)) % 5) as i64]).collect();
        for (e, m) in [(2, 2), (2, 3), (1, 1)] {
            if m == 1 && n == 4 { continue; }
            hist(out, &format!("line-{}-{}-{}", n, code, m), e, m, 1.0, vec![Step::Train(x.clone()), Step::Clusters]);
            if out.give_up() { return; }
        }
    } }
    for i in 0..a.pick(300, 4000) {
        let e = *g.pick(&[1, 2, 3, 7, 40]);
        let dims = 1 + g.below(3);
        let n = 1 + g.below(if i % 8 == 0 { 60 } else { 22 });
        let m = *g.pick(&[0usize, 1, 2, 2, 3, 3, 4, 5, 8]);
        let mut steps = vec![Step::Clusters];
        for _ in 0..1 + g.below(3) { let n2 = if g.chance(0.4) { 1 + g.below(n) } else { n }; steps.push(Step::Train(data(&mut g, n2, dims, e))); steps.push(Step::Clusters); }
        hist(out, &format!("set-{}", i), e, m, *g.pick(&[1.0, 0.25, 16.0]), steps);
        if out.give_up() { return; }
    }
    // more rows, columns, clusters and demanding densities
    for i in 0..a.pick(16, 150) {
        let (n, dims, m) = *g.pick(&[(130usize, 2usize, 3usize), (260, 1, 2), (90, 8, 4), (120, 3, 20), (200, 2, 60), (150, 1, 40), (64, 13, 2)]);
        let e = *g.pick(&[2, 5, 30]);
        let x = data(&mut g, n, dims, e);
        hist(out, &format!("large-{}", i), e, m, *g.pick(&[1.0, 0.5]), vec![Step::Train(x), Step::Clusters]);
        if out.give_up() { return; }
    }
    // dozens of clusters, with rows at their borders that reach further rows
    for i in 0..a.pick(4, 40) {
        let (groups, dims) = (*g.pick(&[30usize, 75, 110]), 1 + i % 2);
        let mut x: Grid = vec![];
        for k in 0..groups { let n = 3 + g.below(4); for _ in 0..n { let mut r = vec![k as i64 * 24 + g.int(0, 9)]; if dims == 2 { r.push(g.int(0, 2)); } x.push(r); } }
        if i % 4 > 1 { for k in (1..x.len()).rev() { let j = g.below(k + 1); x.swap(k, j); } }
        hist(out, &format!("many-{}", i), *g.pick(&[3, 4]), 4, *g.pick(&[1.0, 0.5]), vec![Step::Train(x), Step::Clusters]);
        if out.give_up() { return; }
    }
    // long chains of rows one unit apart, in three orders; the labels are told as runs over the chains
    for (i, runs) in [vec![3000usize], vec![1, 900, 2, 1, 700], vec![2; 700], vec![1; 1500], vec![40; 30]].into_iter().enumerate() { for order in 0..3 {
        let r2 = runs.clone();
        let r = out.run_small(256, move || {
            let mut x: Vec<f64> = vec![]; let mut at = 0.0;
            for r in &r2 { for _ in 0..*r { x.push(at); at += 1.0; } at += 3.0; }
            let n = x.len();
            let at: Vec<usize> = match order { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => { let s = (1..n).find(|s| *s > n / 3 && gcd(*s, n) == 1).unwrap_or(1); (0..n).map(|i| i * s % n).collect() } };
            let m = Matrix::new(n, 1, at.iter().map(|p| x[*p]).collect::<Vec<f64>>());
            let mut db = DBSCAN::new(1.5, 2);
            if db.train(&m).is_err() { return vec![]; }
            let l = lab(db.clusters().unwrap());
            let mut by = vec![-9i64; n];
            for (i, p) in at.iter().enumerate() { by[*p] = if l.len() == n { l[i] } else { -9 }; }
            let mut out: Vec<Vec<i64>> = vec![];
            let mut p = 0;
            for r in &r2 { for j in 0..*r { if j > 0 && out.last().unwrap()[0] == by[p] { out.last_mut().unwrap()[1] += 1; } else { out.push(vec![by[p], 1]); } p += 1; } }
            out
        });
        let w = r.word();
        out.case(&format!("chain-{}-{}", i, order), vec![obj! { op: "chains", runs: runs, end: w, lab: r.ok().unwrap_or_default() }]);
        if out.give_up() { return; }
    } }
    for i in 0..a.pick(10, 50) { let x = data(&mut g, 25, 2, 4); hist(out, &format!("default-{}", i), 4, 5, 0.125, vec![Step::Train(x), Step::Clusters]); }
    let t = |x: Grid, l: Vec<i64>| vec![obj! { op: "new", e2: 4i64, m: 2usize }, obj! { op: "train", x: x, end: "ok", lab: l }];
    let x = vec![vec![0i64], vec![1], vec![9], vec![10], vec![20]];
    out.neg("neg-split", t(x.clone(), vec![0, 1, 2, 2, -1]));
    out.neg("neg-merged", t(x.clone(), vec![0, 0, 0, 0, -1]));
    out.neg("neg-noise", t(x.clone(), vec![0, 0, 1, 1, 1]));
    out.neg("neg-lost", t(x.clone(), vec![0, 0, -1, -1, -1]));
    out.neg("neg-chain", vec![obj! { op: "chains", runs: vec![3usize, 1, 2], end: "ok", lab: vec![vec![0i64, 3], vec![-1, 1], vec![2, 2]] }]);
    out.neg("neg-torn", vec![obj! { op: "chains", runs: vec![3usize, 2], end: "ok", lab: vec![vec![0i64, 2], vec![-1, 1], vec![1, 2]] }]);
    out.neg("neg-gap", t(x.clone(), vec![0, 0, 2, 2, -1]));
}
fn predictive(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 32);
    // every short history of the life cycle over two data sets
    let sets: [Grid; 2] = [vec![vec![0], vec![1], vec![2], vec![9], vec![30]], vec![vec![30], vec![31], vec![0]]];
    let qs: Grid = vec![vec![0], vec![1], vec![3], vec![10], vec![29], vec![31], vec![15], vec![32]];
    let acts = [Step::Predictive(true), Step::Predictive(false), Step::Train(sets[0].clone()), Step::Train(sets[1].clone())];
    let len = a.pick(5, 6);
    for code in 0..4usize.pow(len) {
        let w: Vec<usize> = (0..len).map(|i| (code / 4usize.pow(i)) % 4).collect();
        // histories with toggles that change nothing are contained in others
        if w.windows(2).any(|p| p[0] < 2 && p[1] == p[0]) || w[0] == 1 { continue; }
        let mut steps = vec![];
        for i in w { steps.push(acts[i].clone()); steps.push(Step::Predict(qs.clone())); }
        steps.push(Step::Clusters);
        hist(out, &format!("life-{}", code), 2, 2, 1.0, steps);
        if out.give_up() { return; }
    }
    for i in 0..a.pick(250, 3000) {
        let e = *g.pick(&[1, 2, 3, 7, 40]);
        let dims = 1 + g.below(3);
        let m = 1 + g.below(4);
        let mut steps = vec![];
        if g.chance(0.8) { steps.push(Step::Predictive(true)); }
        for _ in 0..1 + g.below(4) {
            let n = 1 + g.below(25);
            let x = data(&mut g, n, dims, e);
            if g.chance(0.2) { steps.push(Step::Predictive(g.chance(0.5))); }
            steps.push(Step::Train(x.clone()));
            if g.chance(0.2) { steps.push(Step::Predictive(g.chance(0.7))); }
            steps.push(Step::Predict(queries(&mut g, &x, e)));
            if g.chance(0.3) { steps.push(Step::Clusters); steps.push(Step::Predict(queries(&mut g, &x, e))); }
        }
        hist(out, &format!("guess-{}", i), e, m, *g.pick(&[1.0, 0.5, 8.0]), steps);
        if out.give_up() { return; }
    }
    for i in 0..a.pick(16, 150) {
        let (n, dims, m) = *g.pick(&[(130usize, 2usize, 3usize), (300, 1, 2), (70, 9, 2), (120, 3, 20)]);
        let e = *g.pick(&[2, 5, 30]);
        let (x, y) = (data(&mut g, n, dims, e), data(&mut g, n / 3, dims, e));
        let q: Grid = (0..12).flat_map(|_| queries(&mut g, &x, e)).collect();
        let steps = vec![Step::Predictive(true), Step::Train(x), Step::Predict(q.clone()), Step::Train(y), Step::Predict(q[..6].to_vec())];
        hist(out, &format!("large-{}", i), e, m, *g.pick(&[1.0, 0.5]), steps);
        if out.give_up() { return; }
    }
    let h = |p: bool, q: J| vec![obj! { op: "new", e2: 4i64, m: 2usize }, obj! { op: "predictive", on: p }, obj! { op: "train", x: vec![vec![0i64], vec![1], vec![9]], end: "ok", lab: vec![0i64, 0, -1] }, q];
    out.neg("neg-not-predictive", h(false, obj! { op: "predict", q: vec![vec![0i64]], end: "ok", lab: vec![0i64] }));
    out.neg("neg-far", h(true, obj! { op: "predict", q: vec![vec![3i64]], end: "ok", lab: vec![0i64] }));
    out.neg("neg-noise", h(true, obj! { op: "predict", q: vec![vec![9i64]], end: "ok", lab: vec![0i64] }));
    out.neg("neg-count", h(true, obj! { op: "predict", q: vec![vec![0i64]], end: "ok", lab: vec![0i64, 0] }));
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "clusters" => clusters(&a, &mut out), "predictive" => { GUESSING.store(true, std::sync::atomic::Ordering::SeqCst); predictive(&a, &mut out) } c => panic!("{}", c) }
    out.finish()
}
