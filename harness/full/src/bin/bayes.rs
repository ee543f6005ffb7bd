//! Naive Bayes classifiers.
use full::*;
use rusty_machine::learning::naive_bayes::*;
use rusty_machine::learning::SupModel;

type R = Vec<Vec<f64>>;
fn jm(m: &R) -> J { J::A(m.iter().map(|r| fxs(r)).collect()) }
trait Laws: Distribution { const KIND: &'static str; fn laws(&self) -> J; }
impl Laws for Gaussian {
    const KIND: &'static str = "gaussian";
    fn laws(&self) -> J { J::A(rows(self.theta()).iter().zip(rows(self.sigma())).map(|(m, v)| J::A(m.iter().zip(v).map(|(m, v)| fxs(&[*m, v])).collect())).collect()) }
}
impl Laws for Bernoulli { const KIND: &'static str = "bernoulli"; fn laws(&self) -> J { jm(&rows(self.log_probs())) } }
impl Laws for Multinomial { const KIND: &'static str = "multinomial"; fn laws(&self) -> J { jm(&rows(self.log_probs())) } }

#[derive(Clone)]
enum Step { Train { x: R, cols: usize, t: R, classes: usize }, Predict { q: R, cols: usize }, Fitted }
fn class(t: &[f64]) -> usize { t.iter().position(|v| *v == 1.0).map_or(0, |i| i + 1) }
fn describe(kind: &str, s: &Step, end: &str) -> J { match s {
    Step::Train { x, cols, t, classes } => obj! { op: "train", kind: kind, x: jm(x), cols: cols, cls: t.iter().map(|r| class(r)).collect::<Vec<usize>>(), classes: classes, end: end },
    Step::Predict { q, cols } => obj! { op: "predict", q: jm(q), cols: cols, end: end, lpend: end },
    Step::Fitted => obj! { op: "fitted", end: end },
} }
fn life<T: Laws + 'static>(steps: Vec<Step>, tx: std::sync::mpsc::Sender<J>, mut m: NaiveBayes<T>) {
    for s in steps {
        let e = match &s {
            Step::Train { x, cols, t, classes } => { let r = m.train(&mat(x, *cols), &mat(t, *classes)); describe(T::KIND, &s, if r.is_ok() { "ok" } else { "err" }) }
            Step::Fitted => obj! { op: "fitted", end: "ok", count: m.cluster_count().cloned().unwrap_or(0), prior: fxs(&m.class_prior().cloned().unwrap_or_default()), laws: m.distr().map_or(J::A(vec![]), |d| d.laws()) },
            Step::Predict { q, cols } => {
                let x = mat(q, *cols);
                let (lp, r) = (m.get_log_probs(&x), m.predict(&x));
                obj! { op: "predict", q: jm(q), cols: cols, end: if r.is_ok() { "ok" } else { "err" }, lpend: if lp.is_ok() { "ok" } else { "err" },
                       lp: lp.map_or(J::A(vec![]), |l| jm(&rows(&l))), out: r.map_or(vec![], |o| rows(&o).iter().map(|r| if r.iter().all(|v| *v == 0.0 || *v == 1.0) && r.iter().sum::<f64>() == 1.0 { class(r) } else { 0 }).collect()) }
            }
        };
        tx.send(e).unwrap();
    }
}
fn hist(out: &mut Out, name: &str, kind: &'static str, steps: Vec<Step>) {
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let s2 = steps.clone();
    let r = out.run(move || match kind {
        "gaussian" => life::<Gaussian>(s2, tx, NaiveBayes::new()),
        "bernoulli" => life::<Bernoulli>(s2, tx, NaiveBayes::new()),
        _ => life::<Multinomial>(s2, tx, NaiveBayes::new()),
    });
    let mut ev: Vec<J> = rx.try_iter().collect();
    if !r.is_ok() { let n = ev.len(); ev.push(describe(kind, &steps[n], r.word())); }
    out.case(name, ev);
}
fn features(g: &mut Gen, kind: &str, c: usize, cols: usize, style: usize) -> Vec<f64> {
    (0..cols).map(|j| match kind {
        "gaussian" => match style { 0 => (c * (j + 1)) as f64 * 1.5 + g.real(-1.0, 1.0), 1 => g.int(-4, 4) as f64 + c as f64, 2 => (1000.0 * c as f64 + g.real(-1.0, 1.0)) * 10f64.powi(3 * j as i32 - 3), _ => g.real(-1.0, 1.0) * (1 + c) as f64 },
        "bernoulli" => if g.chance(match style { 0 => 0.5, 1 => 0.1 + 0.8 * ((c + j) % 2) as f64, 2 => 0.95, _ => 0.05 + 0.3 * c as f64 }) { 1.0 } else { 0.0 },
        _ => match style { 0 => g.int(0, 3) as f64, 1 => if j == c { g.int(2, 9) as f64 } else { g.int(0, 1) as f64 }, 2 => if g.chance(0.7) { 0.0 } else { g.int(0, 50) as f64 }, _ => g.real(0.0, 2.0) },
    }).collect()
}
fn training(g: &mut Gen, kind: &str, cols: usize, classes: usize, healthy: bool) -> Step {
    let style = g.below(4);
    let empty = if classes > 1 && g.chance(0.3) { g.below(classes) } else { classes };
    let big = g.chance(0.2);
    let n = 1 + g.below(if big { 30 } else { 9 });
    let mut cls: Vec<usize> = (0..n).map(|_| loop { let c = g.below(classes); if c != empty { break c } }).collect();
    if kind == "gaussian" { for _ in 0..2 { for c in 0..classes { if c != empty && (g.chance(0.8) || cls.contains(&c)) { cls.push(c); } } } }
    if g.chance(0.3) { cls.sort(); }
    let mut x: R = cls.iter().map(|c| features(g, kind, *c, cols, style)).collect();
    let mut t: R = cls.iter().map(|c| (0..classes).map(|k| if k == *c { 1.0 } else { 0.0 }).collect()).collect();
    if !healthy {
        match g.below(if kind == "gaussian" { 6 } else { 4 }) {
            0 => { let i = g.below(t.len()); t[i] = vec![0.0; classes]; }
            1 => { let i = g.below(t.len()); let v = *g.pick(&[0.5, 0.75, 0.999999, 1.000001, 2.0, -1.0, f64::NAN]); let k = g.below(classes); t[i] = (0..classes).map(|j| if j == k { v } else { 0.0 }).collect(); }
            2 => { t.pop(); }
            3 => { x.pop(); }
            4 => { let c = cls[0]; let j = g.below(cols); let v = *g.pick(&[0.0, 1.0, -2.5, 0.1]); for (r, k) in x.iter_mut().zip(&cls) { if *k == c { r[j] = v; } } }
            _ => { let c = cls[0]; let keep: Vec<usize> = (0..cls.len()).filter(|i| *i == 0 || cls[*i] != c).collect(); x = keep.iter().map(|i| x[*i].clone()).collect(); t = keep.iter().map(|i| t[*i].clone()).collect(); }
        }
    }
    Step::Train { x, cols, t, classes }
}
fn bayes(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 71);
    // every binary data set of up to 3 rows of one feature, two classes; queries 0 and 1
    let max = a.pick(3usize, 5);
    for n in 1..=max { for code in 0..1usize << (2 * n) {
        let x: R = (0..n).map(|i| vec![((code >> (2 * i)) & 1) as f64]).collect();
        let t: R = (0..n).map(|i| if (code >> (2 * i + 1)) & 1 == 1 { vec![0.0, 1.0] } else { vec![1.0, 0.0] }).collect();
        let q = Step::Predict { q: vec![vec![0.0], vec![1.0]], cols: 1 };
        hist(out, &format!("binary-{}-{}", n, code), if code % 2 == 0 { "bernoulli" } else { "multinomial" }, vec![Step::Train { x, cols: 1, t, classes: 2 }, Step::Fitted, q]);
        if out.give_up() { return; }
    } }
    for i in 0..a.pick(240, 4000) {
        let kind = ["gaussian", "bernoulli", "multinomial"][i % 3];
        let (mut cols, mut classes) = (1 + g.below(4), 1 + g.below(4));
        let mut steps = vec![];
        if g.chance(0.2) { steps.push(Step::Fitted); steps.push(Step::Predict { q: vec![vec![1.0; cols]], cols }); }
        for _ in 0..1 + g.below(3) {
            if g.chance(0.4) { cols = 1 + g.below(4); classes = 1 + g.below(4); }
            let healthy = g.chance(0.75);
            let t = training(&mut g, kind, cols, classes, healthy);
            let own = if let Step::Train { ref x, .. } = t { x.clone() } else { vec![] };
            steps.push(t);
            if g.chance(0.5) { steps.push(Step::Fitted); }
            if g.chance(0.8) && !own.is_empty() { steps.push(Step::Predict { q: own.into_iter().take(6).collect(), cols }); }
            for _ in 0..g.below(3) {
                let c = if g.chance(0.15) { 1 + g.below(5) } else { cols };
                let m = g.below(4);
                let st = g.below(4);
                let q = (0..m).map(|_| { let k = g.below(classes); features(&mut g, kind, k, c, st) }).collect();
                steps.push(Step::Predict { q, cols: c });
            }
            if g.chance(0.3) { steps.push(Step::Fitted); }
        }
        hist(out, &format!("{}-{}", kind, i), kind, steps);
        if out.give_up() { return; }
    }
    // many rows, features and classes; later trainings on fewer
    for i in 0..a.pick(12, 120) {
        let kind = ["gaussian", "bernoulli", "multinomial"][i % 3];
        let mut steps = vec![];
        for k in 0..2 {
            let (n, cols, classes) = if k == 1 { (12usize, 2usize, 3usize) } else { [(400usize, 3usize, 4usize), (80, 30, 3), (150, 4, 25), (1000, 1, 2)][(i + i / 4) % 4] };
            let (st, skip) = (g.below(4), g.below(classes));
            let mut cls: Vec<usize> = (0..n).map(|j| if j < 2 * classes { j / 2 } else { let c = g.below(classes); c * g.below(2) }).collect();
            if classes > 1 { for c in cls.iter_mut() { if *c == skip { *c = (skip + 1) % classes; } } }
            if i % 2 == 0 { for j in (1..n).rev() { cls.swap(j, g.below(j + 1)); } }
            let x: R = cls.iter().map(|c| features(&mut g, kind, *c % 5, cols, if kind == "gaussian" && cols > 5 && st == 2 { 0 } else { st })).collect();
            let t: R = cls.iter().map(|c| (0..classes).map(|k| if k == *c { 1.0 } else { 0.0 }).collect()).collect();
            let q: R = (0..12).map(|j| if j < 6 { x[j * n / 6].clone() } else { let c = g.below(5); features(&mut g, kind, c, cols, if kind == "gaussian" { 0 } else { st }) }).collect();
            let mut bad = t.clone(); bad[n - 1] = vec![0.0; classes];
            steps.push(Step::Train { x: x.clone(), cols, t: bad, classes });
            steps.push(Step::Train { x, cols, t, classes });
            steps.push(Step::Fitted);
            steps.push(Step::Predict { q, cols });
        }
        hist(out, &format!("large-{}-{}", kind, i), kind, steps);
        if out.give_up() { return; }
    }
    // classes with one row in hundreds, which decide for what looks like them
    for i in 0..a.pick(6, 60) {
        let kind = ["bernoulli", "multinomial", "gaussian"][i % 3];
        let (n, cols, classes) = (*g.pick(&[150usize, 260, 420]), 12, 3);
        let rare = g.below(classes);
        let per = if kind == "gaussian" { 2 } else { 1 };
        let mut cls: Vec<usize> = (0..n).map(|j| if j < per { rare } else { (rare + 1 + j % 2) % classes }).collect();
        for j in (1..n).rev() { cls.swap(j, g.below(j + 1)); }
        let row = |g: &mut Gen, c: usize| -> Vec<f64> { (0..cols).map(|j| { let own = j % classes == c; match kind { "bernoulli" => own as usize as f64, "multinomial" => if own { 20.0 + g.int(0, 3) as f64 } else { 0.0 }, _ => c as f64 * 3.0 + g.real(-1.0, 1.0) } }).collect() };
        let x: R = cls.iter().map(|c| row(&mut g, *c)).collect();
        let t: R = cls.iter().map(|c| (0..classes).map(|k| if k == *c { 1.0 } else { 0.0 }).collect()).collect();
        let q: R = (0..9).map(|j| row(&mut g, j % classes)).collect();
        hist(out, &format!("rare-{}-{}", kind, i), kind, vec![Step::Train { x, cols, t, classes }, Step::Fitted, Step::Predict { q, cols }]);
        if out.give_up() { return; }
    }
    // a batch longer than any training set
    for i in 0..3 {
        let kind = ["gaussian", "bernoulli", "multinomial"][i];
        let cls = [0usize, 0, 1, 1, 2, 2, 1];
        let x: R = cls.iter().map(|c| features(&mut g, kind, *c, 2, 0)).collect();
        let q: R = (0..200).map(|j| features(&mut g, kind, j % 3, 2, 0)).collect();
        hist(out, &format!("batch-{}", kind), kind, vec![Step::Train { x, cols: 2, t: cls.iter().map(|c| (0..3).map(|k| if k == *c { 1.0 } else { 0.0 }).collect()).collect(), classes: 3 }, Step::Predict { q, cols: 2 }]);
    }
    let tr = |end: &str| obj! { op: "train", kind: "bernoulli", x: jm(&vec![vec![1.0], vec![1.0], vec![0.0]]), cols: 1usize, cls: vec![1usize, 1, 2], classes: 3usize, end: end };
    let ln = |v: f64| v.ln();
    let p = |lp: Vec<f64>, o: usize| obj! { op: "predict", q: jm(&vec![vec![1.0]]), cols: 1usize, end: "ok", lpend: "ok", lp: jm(&vec![lp]), out: vec![o] };
    let right = vec![ln(2.0 / 3.0 * 3.0 / 4.0), ln(1.0 / 3.0 / 3.0), f64::NEG_INFINITY];
    let but = |i: usize, v: f64| { let mut r = right.clone(); r[i] = v; r };
    out.case("check-posterior", vec![tr("ok"), p(right.clone(), 1)]);
    out.neg("neg-class", vec![tr("ok"), p(right.clone(), 2)]);
    out.neg("neg-empty-class", vec![tr("ok"), p(right.clone(), 3)]);
    out.neg("neg-not-one-hot", vec![tr("ok"), p(right.clone(), 0)]);
    out.neg("neg-smoothing", vec![tr("ok"), p(but(0, ln(2.0 / 3.0)), 1)]);
    out.neg("neg-empty-finite", vec![tr("ok"), p(but(2, 0.0), 1)]);
    out.neg("neg-refused", vec![tr("err")]);
    out.neg("neg-untrained", vec![p(right.clone(), 1)]);
    out.neg("neg-prior", vec![tr("ok"), obj! { op: "fitted", end: "ok", count: 3usize, prior: fxs(&[0.5, 0.5, 0.0]), laws: jm(&vec![vec![ln(0.75)], vec![ln(1.0 / 3.0)], vec![0.0]]) }]);
    out.neg("neg-law", vec![tr("ok"), obj! { op: "fitted", end: "ok", count: 3usize, prior: fxs(&[2.0 / 3.0, 1.0 / 3.0, 0.0]), laws: jm(&vec![vec![0.0], vec![ln(1.0 / 3.0)], vec![0.0]]) }]);
    out.neg("neg-no-one", vec![obj! { op: "train", kind: "multinomial", x: jm(&vec![vec![1.0], vec![1.0]]), cols: 1usize, cls: vec![1usize, 0], classes: 2usize, end: "ok" }]);
    out.neg("neg-one-row", vec![obj! { op: "train", kind: "gaussian", x: jm(&vec![vec![1.0], vec![2.0], vec![5.0]]), cols: 1usize, cls: vec![1usize, 1, 2], classes: 2usize, end: "ok" }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "naive" => bayes(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
