//! Principal component analysis.
use full::*;
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::UnSupModel;

fn data(g: &mut Gen, n: usize, cols: usize) -> Rows {
    let kind = g.below(9);
    let mut x: Rows = (0..n).map(|_| (0..cols).map(|_| match kind { 0 => g.int(-2, 2) as f64, 1 => g.int(0, 1) as f64, _ => g.int(-40, 40) as f64 / 8.0 }).collect()).collect();
    match g.below(8) {
        0 => { for r in x.iter_mut() { r[0] = 3.0; } }
        1 if cols > 1 => { for r in x.iter_mut() { r[1] = 0.5 - 2.0 * r[0]; } }
        2 => { let r = x[0].clone(); for v in x.iter_mut() { *v = r.clone(); } }
        3 => { for (i, r) in x.iter_mut().enumerate() { for (c, v) in r.iter_mut().enumerate() { *v = if i % (2 * cols) == c { 1.0 } else if i % (2 * cols) == c + cols { -1.0 } else { 0.0 }; } } }   // no direction preferred
        4 => { for r in x.iter_mut() { for v in r.iter_mut() { *v += 1000.0; } } }
        5 => { for r in x.iter_mut() { r[cols - 1] *= 64.0; } }
        _ => {}
    }
    x
}
fn comps(m: &PCA) -> Option<Rows> { m.components().ok().map(rows) }
fn train(t: &Tell, m: &mut PCA, x: &Rows, cols: usize) -> bool {
    let e = obj! { op: "train", x: all(x), cols: cols };
    t.about(with(e.clone(), obj! { comps: Raw(J::A(vec![])) }));
    let r = m.train(&mat(x, cols));
    t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, comps: all(&comps(m).unwrap_or_default()) }));
    r.is_ok()
}
fn ask(t: &Tell, m: &PCA, q: &Rows, cols: usize) {
    let e = obj! { op: "predict", q: all(q), cols: cols };
    t.about(e.clone());
    let r = m.predict(&mat(q, cols));
    t.say(with(e, obj! { end: if r.is_ok() { "ok" } else { "err" }, out: all(&r.map(|v| rows(&v)).unwrap_or_default()) }));
}
fn told(t: &Tell, m: &PCA) {
    let c = comps(m);
    t.say(obj! { op: "components", end: if c.is_some() { "ok" } else { "err" }, comps: all(&c.unwrap_or_default()) });
}
fn pca(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 331);
    for i in 0..a.pick(160, 2500) {
        let mut h = Gen::new(g.next(), 1);
        hist(out, &format!("pca-{}", i), move |t| {
            let g = &mut h;
            let n = if g.chance(0.5) { None } else { Some(1 + g.below(3)) };
            let center = n.is_none() || g.chance(0.6);
            let mut m = match n { None => PCA::default(), Some(k) => PCA::new(k, center) };
            t.say(obj! { op: "new", n: n.into_iter().map(|v| Raw(J::I(v as i64))).collect::<Vec<_>>(), center: center });
            let mut width = None;
            if g.chance(0.15) { told(t, &m); }
            if g.chance(0.15) { let q = data(g, 2, 2); ask(t, &m, &q, 2); }
            for _ in 0..1 + g.below(3) {
                let cols = 1 + g.below(4);
                let rows = if g.chance(0.4) { 1 + g.below(cols) } else { cols + g.below(4) };
                let x = data(g, rows, cols);
                if train(t, &mut m, &x, cols) { width = Some(cols); }
                if g.chance(0.2) { told(t, &m); }
                for _ in 0..1 + g.below(2) {
                    let w = width.filter(|_| g.chance(0.9)).unwrap_or(1 + g.below(4));
                    let k = 1 + g.below(3);
                    let mut q = data(g, k, w);
                    if w == cols && g.chance(0.5) { q = x.clone(); }
                    ask(t, &m, &q, w);
                }
            }
        });
        if out.give_up() { return; }
    }
    // many rows and columns
    for i in 0..a.pick(40, 400) {
        let mut h = Gen::new(g.next(), 2);
        hist(out, &format!("wide-{}", i), move |t| {
            let g = &mut h;
            let (rows, cols) = *g.pick(&[(100, 2), (64, 5), (40, 9), (12, 12), (9, 13), (5, 20), (25, 7), (3, 33)]);
            let most = rows.min(cols);
            let n = if g.chance(0.3) { None } else { Some(1 + g.below(most)) };
            let center = n.is_none() || g.chance(0.6);
            let mut m = match n { None => PCA::default(), Some(k) => PCA::new(k, center) };
            t.say(obj! { op: "new", n: n.into_iter().map(|v| Raw(J::I(v as i64))).collect::<Vec<_>>(), center: center });
            let x = data(g, rows, cols);
            train(t, &mut m, &x, cols);
            let nq = *g.pick(&[1, 16, 50]);
            let q = data(g, nq, cols);
            ask(t, &m, &q, cols);
            if g.chance(0.5) { ask(t, &m, &x, cols); }
        });
        if out.give_up() { return; }
    }
    let new = |n: &[i64], center: bool| obj! { op: "new", n: n.iter().map(|v| Raw(J::I(*v))).collect::<Vec<_>>(), center: center };
    let tr = |x: &Rows, c: usize, end: &str, k: &Rows| obj! { op: "train", x: all(x), cols: c, end: end, comps: all(k) };
    let pr = |q: &Rows, c: usize, o: &Rows| obj! { op: "predict", q: all(q), cols: c, end: "ok", out: all(o) };
    let v = |r: &[&[f64]]| -> Rows { r.iter().map(|x| x.to_vec()).collect() };
    // (3,4) about its mean is the line of the data
    let x = v(&[&[1.0, 1.0], &[4.0, 5.0], &[7.0, 9.0]]);
    let d = v(&[&[0.6, 0.8], &[0.8, -0.6]]);
    out.case("check-pca", vec![new(&[], true), tr(&x, 2, "ok", &d), pr(&v(&[&[7.0, 9.0]]), 2, &v(&[&[5.0, 0.0]])), tr(&v(&[&[3.0, 4.0]]), 2, "ok", &v(&[&[0.6, 0.8]])), pr(&v(&[&[6.0, 8.0]]), 2, &v(&[&[5.0]]))]);
    out.case("check-n", vec![new(&[1], false), tr(&v(&[&[3.0, 4.0]]), 2, "ok", &v(&[&[-0.6, -0.8]])), pr(&v(&[&[3.0, 4.0]]), 2, &v(&[&[-5.0]]))]);
    out.neg("neg-order", vec![new(&[], true), tr(&x, 2, "ok", &v(&[&[0.8, 0.6], &[-0.6, 0.8]]))]);
    out.neg("neg-least", vec![new(&[1], true), tr(&x, 2, "ok", &v(&[&[0.8], &[-0.6]]))]);
    out.neg("neg-axes", vec![new(&[], true), tr(&x, 2, "ok", &v(&[&[0.0, 1.0], &[1.0, 0.0]]))]);
    out.neg("neg-long", vec![new(&[1], true), tr(&x, 2, "ok", &v(&[&[3.0], &[4.0]]))]);
    out.neg("neg-count", vec![new(&[1], true), tr(&x, 2, "ok", &d)]);
    out.neg("neg-uncentred", vec![new(&[], true), tr(&x, 2, "ok", &d), pr(&v(&[&[7.0, 9.0]]), 2, &v(&[&[11.4, 0.2]]))]);
    out.neg("neg-transposed", vec![new(&[], true), tr(&x, 2, "ok", &d), pr(&v(&[&[5.0, 5.0]]), 2, &v(&[&[0.8, 0.6]]))]);
    out.neg("neg-too-many", vec![new(&[2], false), tr(&v(&[&[3.0, 4.0]]), 2, "ok", &v(&[&[0.6, 0.8]]))]);
    out.neg("neg-replaced", vec![new(&[2], false), tr(&x, 2, "ok", &d), tr(&v(&[&[3.0, 4.0]]), 2, "err", &v(&[&[0.6, 0.8]]))]);
    out.neg("neg-untrained", vec![new(&[], true), pr(&x, 2, &x)]);
    out.neg("neg-width", vec![new(&[], true), tr(&x, 2, "ok", &d), pr(&v(&[&[5.0]]), 1, &v(&[&[0.0, 0.0]]))]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "pca" => pca(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
