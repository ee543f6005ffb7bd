//! Fitted scalers, the normalizer and the shuffler.
use full::*;
use rusty_machine::data::transforms::{Invertible, MinMaxFitter, Normalizer, Shuffler, StandardizerFitter, TransformFitter, Transformer};
use rusty_machine::linalg::norm::{Euclidean, MatrixNorm};
use rusty_machine::linalg::MatrixSlice;
use rulinalg::norm::Lp;

type R = Vec<Vec<f64>>;
fn jm(m: &R) -> J { J::A(m.iter().map(|r| fxs(r)).collect()) }
fn mat32(r: &R, c: usize) -> Matrix<f32> { Matrix::new(r.len(), c, r.iter().flatten().map(|v| *v as f32).collect::<Vec<f32>>()) }
fn rows32(m: &Matrix<f32>) -> R { if m.cols() == 0 { return vec![vec![]; m.rows()]; } m.data().chunks(m.cols()).map(|r| r.iter().map(|v| *v as f64).collect()).collect() }

#[derive(Clone)]
struct Plan { kind: &'static str, single: bool, lo: f64, hi: f64, default: bool, x: R, cols: usize, extreme: bool, queries: Vec<(R, usize)> }
/// the calls of one plan, in either precision
macro_rules! life { ($name:ident, $t:ty, $mat:path, $rows:path) => {
fn $name(p: Plan, tx: std::sync::mpsc::Sender<J>) {
    fn calls<S: Transformer<Matrix<$t>> + Invertible<Matrix<$t>>>(f: rusty_machine::learning::LearningResult<S>, p: Plan, tx: std::sync::mpsc::Sender<J>) {
        let fit = obj! { op: "fit", kind: p.kind, single: p.single, extreme: p.extreme, lo: p.lo, hi: p.hi, x: jm(&p.x), cols: p.cols, end: if f.is_ok() { "ok" } else { "err" } };
        tx.send(fit).unwrap();
        let mut s = match f { Ok(s) => s, Err(_) => return };
        let mut ev = |op: &str, q: &R, c: usize, own: bool, r: rusty_machine::learning::LearningResult<Matrix<$t>>| { let o = r.as_ref().map(|m| $rows(m)).unwrap_or_default(); tx.send(obj! { op: op, q: jm(q), cols: c, own: own, end: if r.is_ok() { "ok" } else { "err" }, out: jm(&o) }).unwrap(); o };
        let o = ev("transform", &p.x, p.cols, true, s.transform($mat(&p.x, p.cols)));
        if !p.extreme { ev("inverse", &o, p.cols, false, s.inv_transform($mat(&o, p.cols))); }
        for (q, c) in &p.queries {
            let r = s.transform($mat(q, *c));
            let o = ev("transform", q, *c, false, r);
            if *c != p.cols { ev("inverse", q, *c, false, s.inv_transform($mat(q, *c))); }
            else { ev("inverse", q, *c, false, s.inv_transform($mat(q, *c))); if o.len() == q.len() { ev("inverse", &o, *c, false, s.inv_transform($mat(&o, *c))); } }
        }
        // later uses do not depend on earlier ones
        ev("transform", &p.x, p.cols, true, s.transform($mat(&p.x, p.cols)));
    }
    let m = $mat(&p.x, p.cols);
    let (lo, hi) = (p.lo as $t, p.hi as $t);
    if p.kind == "minmax" { calls(if p.default { MinMaxFitter::default() } else { MinMaxFitter::new(lo, hi) }.fit(&m), p, tx) }
    else { calls(if p.default { StandardizerFitter::default() } else { StandardizerFitter::new(lo, hi) }.fit(&m), p, tx) }
} } }
life!(life64, f64, mat, rows);
life!(life32, f32, mat32, rows32);
fn hist(out: &mut Out, name: &str, p: Plan) {
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let q = p.clone();
    let r = out.run(move || if q.single { life32(q, tx) } else { life64(q, tx) });
    let mut ev: Vec<J> = rx.try_iter().collect();
    if !r.is_ok() {
        if ev.is_empty() { ev.push(obj! { op: "fit", kind: p.kind, single: p.single, extreme: p.extreme, lo: p.lo, hi: p.hi, x: jm(&p.x), cols: p.cols, end: r.word() }) }
        else { ev.push(obj! { op: "transform", q: J::A(vec![]), cols: p.cols, own: false, end: r.word(), out: J::A(vec![]) }) }
    }
    out.case(name, ev);
}
/// a column's generator: offset, spread, shape
fn column(g: &mut Gen, n: usize, single: bool) -> Vec<f64> {
    let off = if single { g.int(-20, 20) as f64 } else { *g.pick(&[0.0, 0.0, 1.0, -3.5, 1000.0, -1e6]) };
    let spread = *g.pick(if single { &[1.0f64, 10.0, 0.5][..] } else { &[1.0, 1e-4, 10.0, 1e5, 0.3, 1e-9, 1e-14][..] });
    let style = g.below(5);
    (0..n).map(|i| { let v = match style { 0 => g.real(-1.0, 1.0), 1 => g.int(-3, 3) as f64, 2 => if i == n / 2 { 1.0 } else { 0.0 }, 3 => g.unit() * g.unit(), _ => -(i as f64) }; let v = off + spread * v; if single { v as f32 as f64 } else { v } }).collect()
}
fn table(g: &mut Gen, n: usize, cols: usize, single: bool) -> R { let c: Vec<Vec<f64>> = (0..cols).map(|_| column(g, n, single)).collect(); (0..n).map(|i| c.iter().map(|c| c[i]).collect()).collect() }
fn scaler(kind: &'static str, a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, if kind == "minmax" { 61 } else { 62 });
    for i in 0..a.pick(220, 3000) {
        let single = i % 8 == 7;
        let n = 1 + g.below(if i % 10 == 0 { 40 } else { 8 });
        let cols = 1 + g.below(4);
        let mut x = table(&mut g, n, cols, single);
        if g.chance(0.1) { let c = g.below(cols); let v = *g.pick(&[0.0, 0.1, -7.3, 1e9]); for r in x.iter_mut() { r[c] = if single { v as f32 as f64 } else { v }; } }
        if g.chance(0.08) { let (r, c) = (g.below(n), g.below(cols)); x[r][c] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); }
        let default = i % 3 == 0;
        let (lo, hi) = if default { (0.0, 1.0) } else if kind == "minmax" { *g.pick(&[(-1.0, 1.0), (0.25, 0.75), (-100.0, -10.0), (5.0, 1000.0)]) } else { *g.pick(&[(0.0, 2.5), (10.0, 0.5), (-3.0, 1.0), (100.0, 15.0)]) };
        let mut queries = vec![];
        for _ in 0..g.below(3) {
            let c = if g.chance(0.2) { 1 + g.below(5) } else { cols };
            let m = g.below(4);
            let mut q = table(&mut g, m, c, single);
            if m > 0 && g.chance(0.2) { q[0][c - 1] = *g.pick(&[f64::NAN, f64::INFINITY]); }
            queries.push((q, c));
        }
        hist(out, &format!("{}-{}", kind, i), Plan { kind, single, lo, hi, default, x, cols, extreme: false, queries });
        if out.give_up() { return; }
    }
    // many rows, many columns
    for i in 0..a.pick(14, 100) {
        let single = i % 7 == 6;
        let (n, cols) = [(300usize, 3usize), (9, 40), (1000, 1), (70, 17), (2, 130), (40, 33), (150, 6)][i % 7];
        let mut x: R = (0..n).map(|_| vec![0.0; cols]).collect();
        for c in 0..cols { let (o, w) = (*g.pick(&[0.0, 3.0, -50.0]), *g.pick(&[1.0, 0.01, 30.0])); let style = g.below(3); for r in 0..n { let v = o + w * match style { 0 => g.real(-1.0, 1.0), 1 => r as f64, _ => g.unit().powi(3) }; x[r][c] = if single { v as f32 as f64 } else { v }; } }
        let default = i % 3 == 0;
        let (lo, hi) = if default { (0.0, 1.0) } else if kind == "minmax" { *g.pick(&[(-1.0, 1.0), (5.0, 1000.0)]) } else { *g.pick(&[(10.0, 0.5), (-3.0, 1.0)]) };
        let bad = i >= 7 && g.chance(0.5);
        if bad { let c = g.below(cols); match i % 3 { 0 => { let v = x[0][c]; for r in x.iter_mut() { r[c] = v; } } 1 => { let r = g.below(n); x[r][c] = f64::NAN; } _ => x[n - 1][cols - 1] = f64::INFINITY } }
        let q: R = (0..50).map(|_| (0..cols).map(|_| { let v = g.real(-60.0, 60.0); if single { v as f32 as f64 } else { v } }).collect()).collect();
        let mut q2 = q.clone(); q2[49][cols - 1] = f64::NEG_INFINITY;
        hist(out, &format!("large-{}-{}", kind, i), Plan { kind, single, lo, hi, default, x, cols, extreme: false, queries: vec![(q, cols), (vec![vec![1.0; cols + 1]; 2], cols + 1), (q2, cols)] });
    }
    // columns and targets of any magnitude
    let mag = |g: &mut Gen, single: bool| if single { *g.pick(&[1e-6f64, 1e-3, 1.0, 1e4]) } else { *g.pick(&[1e-20f64, 1e-18, 1e-15, 1e-12, 1e-7, 1.0, 1e6, 1e13, 1e25]) };
    for i in 0..a.pick(40, 300) {
        let single = i % 8 == 7;
        let (n, cols) = (3 + g.below(8), 1 + g.below(3));
        let table = |g: &mut Gen, n: usize, sc: &[f64]| -> R { (0..n).map(|_| sc.iter().map(|s| { let v = s * g.real(-1.0, 1.0); if single { v as f32 as f64 } else { v } }).collect()).collect() };
        let sc: Vec<f64> = (0..cols).map(|_| mag(&mut g, single)).collect();
        let x = table(&mut g, n, &sc);
        let m = { let m = mag(&mut g, single); if single { m as f32 as f64 } else { m } };
        let (lo, hi) = if i % 3 == 0 { (0.0, 1.0) } else if kind == "minmax" { *g.pick(&[(0.0, m), (-m, m), (-m, 0.0), (m, 2.0 * m)]) } else { *g.pick(&[(0.0, m), (m, m), (-m, 2.0 * m)]) };
        let q = table(&mut g, 3, &sc);
        hist(out, &format!("scale-{}-{}", kind, i), Plan { kind, single, lo, hi, default: false, x, cols, extreme: false, queries: vec![(q, cols)] });
    }
    // what counts comes last: the extremes, or a value that must be refused, far down or far right
    for i in 0..a.pick(18, 60) {
        let (n, cols) = [(1500usize, 1usize), (2, 300), (5, 70), (2600, 2), (35, 35), (3, 1100)][i % 6];
        let mut x: R = (0..n).map(|r| (0..cols).map(|_| if r == 0 { 0.5 } else { g.real(0.0, 1.0) }).collect()).collect();
        let what = if i < 6 { i % 2 } else { 2 + (i + i / 6) % 3 };
        for c in 0..cols { match what { 0 => { x[n - 1][c] = 9.0 + c as f64; } 1 => { x[n - 1][c] = -7.0 - c as f64; } _ => {} } }
        match what { 2 => { x[n - 1][cols - 1] = f64::NAN; } 3 => { x[n - 1][cols - 1] = f64::INFINITY; } 4 => { for r in x.iter_mut() { r[cols - 1] = 0.3; } } _ => {} }
        let q = vec![(0..cols).map(|_| g.real(-3.0, 3.0)).collect::<Vec<f64>>()];
        hist(out, &format!("tail-{}-{}", kind, i), Plan { kind, single: false, lo: -1.0, hi: 2.0, default: false, x, cols, extreme: false, queries: vec![(q, cols)] });
    }
    // edges: no rows, one row, huge and tiny spreads
    let e = |out: &mut Out, name: &str, x: R, cols: usize| hist(out, &format!("edge-{}", name), Plan { kind, single: false, lo: 0.0, hi: 1.0, default: false, x, cols, extreme: true, queries: vec![] });
    e(out, "no-rows", vec![], 2);
    e(out, "one-row", vec![vec![1.0, 2.0]], 2);
    e(out, "huge", vec![vec![-1e308], vec![1e308], vec![0.0]], 1);
    e(out, "large", vec![vec![-1e200], vec![1e200], vec![1e190]], 1);
    e(out, "tenth", vec![vec![0.1]; 3], 1);
    e(out, "tenths", vec![vec![0.1]; 10], 1);
    e(out, "constant-beside", vec![vec![0.0, 0.7], vec![1.0, 0.7], vec![2.0, 0.7]], 2);
    e(out, "adjacent", vec![vec![1.0], vec![1.0 + f64::EPSILON]], 1);
    e(out, "nan-alone", vec![vec![f64::NAN]; 2], 1);
    e(out, "opposite-infinities", vec![vec![f64::INFINITY], vec![f64::NEG_INFINITY]], 1);
    let h = |o: J| vec![obj! { op: "fit", kind: kind, single: false, extreme: false, lo: 0.0, hi: 2.0, x: vec![vec![1.0], vec![3.0], vec![2.0]], cols: 1usize, end: "ok" }, o];
    let t = |op: &str, q: R, o: R| obj! { op: op, q: jm(&q), cols: q[0].len(), own: false, end: "ok", out: jm(&o) };
    let img = if kind == "minmax" { 4.0 } else { 6.0 };
    out.neg("neg-offset", h(t("transform", vec![vec![5.0]], vec![vec![img + 1e-9]])));
    out.neg("neg-inverse", h(t("inverse", vec![vec![img]], vec![vec![4.9]])));
    out.neg("neg-width", h(t("transform", vec![vec![5.0, 1.0]], vec![vec![img, 0.0]])));
    out.neg("neg-swallowed-nan", h(t("transform", vec![vec![f64::NAN]], vec![vec![0.0]])));
    out.neg("neg-constant", vec![obj! { op: "fit", kind: kind, single: false, extreme: false, lo: 0.0, hi: 2.0, x: vec![vec![1.0], vec![1.0]], cols: 1usize, end: "ok" }]);
    out.neg("neg-nothing", vec![obj! { op: "fit", kind: kind, single: false, extreme: false, lo: 0.0, hi: 2.0, x: vec![vec![1.0], vec![2.0]], cols: 1usize, end: "err" }]);
}
/// a norm of the user's own: three times the largest entry
struct Mine;
impl<'a> MatrixNorm<f64, MatrixSlice<'a, f64>> for Mine { fn norm(&self, m: &MatrixSlice<'a, f64>) -> f64 { m.iter().fold(0.0f64, |a, v| if v.is_nan() || a.is_nan() { f64::NAN } else { a.max(v.abs()) }) * 3.0 } }
fn normalize(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 63);
    let one = |out: &mut Out, name: &str, ms: Vec<(R, usize)>, p: i64, single: bool, extreme: bool| {
        let ms2 = ms.clone();
        let (tx, rx) = std::sync::mpsc::channel::<J>();
        let r = out.run(move || {
            fn each<N: for<'a> MatrixNorm<f64, MatrixSlice<'a, f64>>>(mut n: Normalizer<f64, N>, ms: Vec<(R, usize)>, p: i64, extreme: bool, tx: std::sync::mpsc::Sender<J>) { for (x, c) in ms { let r = n.transform(mat(&x, c)); tx.send(obj! { op: "normalize", p: p, single: false, extreme: extreme, x: jm(&x), end: if r.is_ok() { "ok" } else { "err" }, out: r.map(|m| jm(&rows(&m))).unwrap_or(J::A(vec![])) }).unwrap(); } }
            if single { let mut n: Normalizer<f32, Euclidean> = Normalizer::default(); for (x, c) in ms2 { let r = n.transform(mat32(&x, c)); tx.send(obj! { op: "normalize", p: 2i64, single: true, extreme: extreme, x: jm(&x), end: if r.is_ok() { "ok" } else { "err" }, out: r.map(|m| jm(&rows32(&m))).unwrap_or(J::A(vec![])) }).unwrap(); } }
            else { match p { -1 => each(Normalizer::new(Mine), ms2, p, extreme, tx), 0 => each(Normalizer::new(Lp::Infinity), ms2, p, extreme, tx), 2 => each(Normalizer::default(), ms2, p, extreme, tx), 3 => each(Normalizer::new(Lp::Float(3.0)), ms2, p, extreme, tx), p => each(Normalizer::new(Lp::Integer(p as i32)), ms2, p, extreme, tx) } }
        });
        let mut ev: Vec<J> = rx.try_iter().collect();
        if !r.is_ok() { let x = &ms[ev.len()].0; ev.push(obj! { op: "normalize", p: p, single: single, extreme: extreme, x: jm(x), end: r.word(), out: J::A(vec![]) }); }
        out.case(name, ev);
    };
    for i in 0..a.pick(300, 3000) {
        let single = i % 9 == 8;
        let p = if single { 2 } else { [2i64, 2, 1, 0, 3, 4, -1][i % 7] };
        let mut ms = vec![];
        for _ in 0..1 + g.below(4) {
            let n = g.below(7);
            let cols = 1 + g.below(5);
            let scale = if single { 1.0 } else { *g.pick(&[1.0, 1e-9, 1e9, 1e-30, 1e40]) };
            let mut x: R = (0..n).map(|_| { let z = g.below(4); (0..cols).map(|_| { let v = match z { 0 => g.int(-2, 2) as f64, 1 => if g.chance(0.3) { g.real(-1.0, 1.0) } else { 0.0 }, _ => g.real(-5.0, 5.0) } * scale; if single { v as f32 as f64 } else { v } }).collect() }).collect();
            if n > 0 && g.chance(0.15) { let (r, c) = (g.below(n), g.below(cols)); x[r][c] = if p == 0 { f64::INFINITY } else { *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) }; }
            ms.push((x, cols));
        }
        one(out, &format!("norm{}-{}", p, i), ms, p, single, false);
        if out.give_up() { return; }
    }
    for i in 0..a.pick(14, 100) {
        let p = [2i64, 1, 0, 3, 4, -1, 2][i % 7];
        let single = i % 14 == 13;
        let (n, cols) = [(400usize, 2usize), (6, 60), (64, 9), (33, 33), (1, 300), (1200, 1), (70, 7)][(i + i / 7) % 7];
        let mut x: R = (0..n).map(|_| { let s = if single { 1.0 } else { *g.pick(&[1.0, 1e-9, 1e9]) }; (0..cols).map(|_| if g.chance(0.3) { 0.0 } else { let v = s * g.real(-4.0, 4.0); if single { v as f32 as f64 } else { v } }).collect() }).collect();
        let good = x.clone();
        x[n - 1][cols - 1] = if p == 0 { f64::INFINITY } else { f64::NAN };
        one(out, &format!("large{}-{}", p, i), vec![(good.clone(), cols), (x, cols), (good, cols)], p, single, false);
    }
    // norms close to one
    for i in 0..a.pick(28, 200) {
        let p = [2i64, 1, 0, 3, 4, -1, 2][i % 7];
        let single = i % 14 == 13;
        let cols = 1 + g.below(5);
        let d = if single { 1e-3 } else { *g.pick(&[1e-2, 1e-4, 1e-6, 1e-8, 1e-9]) };
        let x: R = (0..4).map(|_| { let r: Vec<f64> = (0..cols).map(|_| g.real(0.2, 1.0) * (if g.chance(0.5) { 1.0 } else { -1.0 })).collect(); let m = r.iter().fold(0.0f64, |a, v| a.max(v.abs())); let nrm = match p { 0 => m, -1 => 3.0 * m, p => r.iter().map(|v| v.abs().powi(p as i32)).sum::<f64>().powf(1.0 / p as f64) }; let f = (1.0 + d * g.real(0.3, 1.0) * (if g.chance(0.5) { 1.0 } else { -1.0 })) / nrm; r.iter().map(|v| { let v = v * f; if single { v as f32 as f64 } else { v } }).collect() }).collect();
        one(out, &format!("near{}-{}", p, i), vec![(x, cols)], p, single, false);
    }
    one(out, "edge-huge", vec![(vec![vec![1e200, 1.0]], 2), (vec![vec![1.0, 1.0]], 2)], 2, false, true);
    let e = |x: R, o: R| vec![obj! { op: "normalize", p: 2i64, single: false, extreme: false, x: jm(&x), end: "ok", out: jm(&o) }];
    out.neg("neg-norm", e(vec![vec![3.0, 4.0]], vec![vec![0.6, 0.81]]));
    out.neg("neg-sign", e(vec![vec![-3.0, 4.0]], vec![vec![0.6, 0.8]]));
    out.neg("neg-flip", e(vec![vec![-3.0, 4.0]], vec![vec![0.6, -0.8]]));
    out.neg("neg-nan", e(vec![vec![f64::NAN, 4.0]], vec![vec![0.6, -0.8]]));
    out.neg("neg-zero", e(vec![vec![0.0, 0.0]], vec![vec![f64::NAN, f64::NAN]]));
}
fn shuffle(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 64);
    // row i holds (i, i + 100, ...); anything else is code 0
    let code = |r: &[f64]| { let v = r[0]; if v >= 0.0 && r.iter().enumerate().all(|(j, x)| *x == v + 100.0 * j as f64) { v as usize } else { 9999 } };
    for i in 0..a.pick(300, 3000) {
        let n = g.below(if i % 10 == 0 { 90 } else { 10 });
        let cols = 1 + g.below(4);
        let vals: Vec<usize> = (0..n).map(|j| if i % 3 == 0 { g.below(4) } else { j }).collect();
        let v2 = vals.clone();
        let seed = g.next();
        let ty = g.below(3);
        let r = out.run(move || {
            rand::script::seed(seed);
            let d: Vec<f64> = v2.iter().flat_map(|v| (0..cols).map(move |j| *v as f64 + 100.0 * j as f64)).collect();
            match ty {
                0 => { let m = Shuffler::default().transform(Matrix::new(n, cols, d)).unwrap(); (m.rows(), m.cols(), rows(&m)) }
                1 => { let m = Shuffler::new(rand::thread_rng()).transform(Matrix::new(n, cols, d.iter().map(|v| *v as usize).collect::<Vec<usize>>())).unwrap(); let t = m.data().chunks(cols).map(|r| r.iter().map(|v| *v as f64).collect()).collect(); (m.rows(), m.cols(), t) }
                _ => { let m = Shuffler::default().transform(Matrix::new(n, cols, d.iter().map(|v| v.to_string()).collect::<Vec<String>>())).unwrap(); let t = m.data().chunks(cols).map(|r| r.iter().map(|v| v.parse().unwrap()).collect()).collect(); (m.rows(), m.cols(), t) }
            }
        });
        let w = r.word();
        let (shape, o) = match r.ok() { Some((r, c, t)) => (vec![r, c], t.iter().map(|r: &Vec<f64>| code(r)).collect()), None => (vec![], vec![]) };
        out.case(&format!("rows-{}", i), vec![obj! { op: "shuffle", x: vals, cols: cols, end: w, shape: shape, out: o }]);
        if out.give_up() { return; }
    }
    for n in 0..=a.pick(5usize, 7) {
        let r = out.run(move || law(40_000, 20_000, || Shuffler::default().transform(Matrix::new(n, 2, (0..2 * n).map(|i| (i / 2 + 1) as f64 + 100.0 * (i % 2) as f64).collect::<Vec<f64>>())).unwrap().data().chunks(2).map(|r| code(r)).collect::<Vec<usize>>().j()));
        let w = r.word();
        out.case(&format!("law-{}", n), vec![match r.ok() { Some(l) => obj! { op: "shuffle-law", n: n, end: w, exact: l.exact, den: l.den, hist: l.hist_j() }, None => obj! { op: "shuffle-law", n: n, end: w } }]);
    }
    for i in 0..a.pick(8, 40) {
        let (n, cols) = [(700usize, 3usize), (64, 40), (3000, 1), (257, 8)][i % 4];
        let seed = g.next();
        let vals: Vec<usize> = (0..n).map(|j| if i % 3 == 0 { j % 50 } else { j % 99 }).collect();
        let v2 = vals.clone();
        let r = out.run(move || { rand::script::seed(seed); let m = Shuffler::default().transform(Matrix::new(n, cols, v2.iter().flat_map(|v| (0..cols).map(move |j| *v as f64 + 100.0 * j as f64)).collect::<Vec<f64>>())).unwrap(); (m.rows(), m.cols(), rows(&m)) });
        let w = r.word();
        let (shape, o) = match r.ok() { Some((r, c, t)) => (vec![r, c], t.iter().map(|r: &Vec<f64>| code(r)).collect()), None => (vec![], vec![]) };
        out.case(&format!("large-{}", i), vec![obj! { op: "shuffle", x: vals, cols: cols, end: w, shape: shape, out: o }]);
    }
    for &(n, m, cols) in &[(2usize, 4000usize, 1usize), (10, 4000, 3), (130, 2000, 1), (520, 800, 2), (2100, 300, 1), (20000, 30, 1)] {
        let m = a.pick(m, 4 * m);
        let nb = if n % 10 == 0 { 10 } else { 2 };
        let seed = g.next();
        let r = out.run(move || { rand::script::seed(seed); let mut s = Shuffler::default(); perm_stats(n, m, nb, || s.transform(Matrix::new(n, cols, (0..n * cols).map(|i| (i / cols) as f64).collect::<Vec<f64>>())).unwrap().data().iter().step_by(cols).map(|v| *v as usize).collect()) });
        let w = r.word();
        let (grid, c) = r.ok().unwrap_or((vec![], vec![0; 5]));
        out.case(&format!("stats-{}", n), vec![obj! { op: "shuffle-stats", n: n, m: m, end: w, grid: grid, even: c[0], fixed: c[1], next: c[2], asc: c[3], bad: c[4] }]);
    }
    for n in [8usize, 20, 45, 120] {
        let m = a.pick(4000, 12000);
        let seed = g.next();
        let r = out.run(move || {
            rand::script::seed(seed);
            let mut c = vec![vec![0usize; n]; n];
            let mut s = Shuffler::default();
            for _ in 0..m { for (p, r) in s.transform(Matrix::new(n, 1, (0..n).map(|i| i as f64).collect::<Vec<f64>>())).unwrap().data().iter().enumerate() { c[p][*r as usize] += 1; } }
            c
        });
        let w = r.word();
        out.case(&format!("counts-{}", n), vec![obj! { op: "shuffle-counts", n: n, m: m, end: w, counts: r.ok().unwrap_or_default() }]);
    }
    let e = |x: Vec<usize>, o: Vec<usize>| vec![obj! { op: "shuffle", x: x, cols: 1usize, end: "ok", shape: vec![o.len(), 1], out: o }];
    out.neg("neg-lost", e(vec![0, 1, 2], vec![0, 1, 1]));
    out.neg("neg-torn", e(vec![0, 1], vec![9999, 1]));
    out.neg("neg-short", e(vec![0, 1], vec![1]));
    out.neg("neg-biased", vec![obj! { op: "shuffle-law", n: 2usize, end: "ok", exact: true, den: 2usize, hist: vec![J::A(vec![vec![1usize, 2].j(), 2usize.j()])] }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "minmax" => scaler("minmax", &a, &mut out), "standard" => scaler("standard", &a, &mut out), "normalize" => normalize(&a, &mut out), "shuffle" => shuffle(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
