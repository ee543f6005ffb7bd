//! Activation functions at many points.
use common::*;
use rusty_machine::learning::toolkit::activ_fn::*;

fn one<A: ActivationFunc + 'static>(a: &Args, out: &mut Out, f: &'static str) {
    let mut g = Gen::new(a.seed, 11);
    let mut xs: Vec<f64> = vec![0.0, -0.0];
    for i in 1..=60 { xs.push(i as f64 / 4.0); xs.push(-(i as f64) / 4.0); }
    for e in [1e-300, 1e-20, 1e-12, 1e-8, 1e-5, 1e-3, 0.01, 15.5, 16.0, 18.0, 19.0, 19.0625, 20.0, 21.0, 22.0, 25.0, 30.0, 33.0, 35.0, 36.0, 36.7, 37.0, 38.0, 40.0, 45.0, 50.0, 64.0, 80.0, 88.0, 89.0, 100.0, 128.0, 150.0, 200.0, 300.0, 354.0, 355.0, 356.0, 400.0, 500.0, 600.0, 700.0, 708.0, 709.0, 709.7, 745.2, 746.0, 800.0, 1e3, 1e4, 1e6, 1e10, 1e17, 1e50, 1e100, 1e155, 1e300, f64::MAX] { xs.push(e); xs.push(-e); }
    // every order of magnitude down to the smallest
    for k in 1..=90 { let m = g.real(1.0, 2.0) * 0.5f64.powi(k); xs.push(if k % 2 == 0 { m } else { -m }); xs.push(-xs[xs.len() - 1] * 1.25); }
    for k in (93..1022).step_by(37) { let m = g.real(1.0, 2.0) * 0.5f64.powi(k); xs.push(m); xs.push(-m); }
    for _ in 0..a.pick(150, 3000) { let s = *g.pick(&[0.1, 1.0, 3.0, 10.0, 40.0, 700.0]); xs.push(g.real(-s, s)); }
    xs.retain(|x| f != "exp" || !(x.abs() > 709.78 && x.abs() < 745.2));
    for (i, &x) in xs.iter().enumerate() {
        let r = out.run(move || { let y = A::func(x); let inr = match f { "sigmoid" => y > 0.0 && y < 1.0, "tanh" => y.abs() < 1.0, "exp" => y > 0.0 && y.is_finite(), _ => true };
            (y, A::func_grad(x), A::func_grad_from_output(y), if inr { Some(A::func_inv(y)) } else { None }) });
        let w = r.word();
        let (y, d, h, v) = r.ok().unwrap_or((0.0, 0.0, 0.0, None));
        let mut ev = vec![obj! { op: "point", f: f, end: w, x: x, y: y, g: d, h: h }];
        // the round trip where the inverse is not hopelessly ill-conditioned
        if let Some(v) = v { if f == "linear" || (x.abs() < match f { "exp" => 100.0, "tanh" => 15.0, _ => if x < 0.0 { 600.0 } else { 30.0 } }) { ev.push(obj! { op: "round", f: f, end: "ok", x: x, v: v }); } }
        out.case(&format!("{}-{}", f, i), ev);
        if out.give_up() { return; }
    }
    // outputs and inverses at arbitrary points of the range
    let mut ys: Vec<f64> = (1..32).map(|i| i as f64 / 32.0).collect();
    ys.extend([1e-12, 1e-6, 1e-3, 0.999, 0.999999, 1.0 - 1e-9, 1.0 - f64::EPSILON, 0.5]);
    for _ in 0..a.pick(40, 1000) { ys.push(g.real(1e-6, 1.0)); }
    if f == "tanh" { let m: Vec<f64> = ys.iter().map(|y| -y).collect(); ys.extend(m); ys.push(0.0); }
    if f == "sigmoid" || f == "exp" { ys.extend([1e-15, 1e-16, 3e-18, 1e-20, 2e-25, 1e-30]); }
    if f == "tanh" { for k in [3e-5, 1e-7, 1e-10, 1e-14, 1e-18, 1e-30] { ys.push(k); ys.push(-k); } }
    if f == "exp" || f == "linear" { ys.extend([1.0, 2.0, 10.0, 12345.678, 1e10, 1e30]); }
    if f == "linear" { ys.extend([0.0, -1.0, -3.5, -1e20]); }
    for (i, &y) in ys.iter().enumerate() {
        let r = out.run(move || (A::func_grad_from_output(y), A::func_inv(y)));
        let w = r.word();
        let (h, v) = r.ok().unwrap_or((0.0, 0.0));
        out.case(&format!("{}-out-{}", f, i), vec![obj! { op: "out", f: f, end: w, y: y, h: h }, obj! { op: "inv", f: f, end: w, y: y, v: v }]);
    }
    // order and range
    let mut sw: Vec<f64> = xs.clone();
    for i in -400..=400 { sw.push(i as f64 / 8.0 + 0.013); }
    sw.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let s2 = sw.clone();
    let r = out.run(move || s2.iter().map(|x| A::func(*x)).collect::<Vec<f64>>());
    let w = r.word();
    let y = r.ok().unwrap_or_default();
    // exp overflows at the upper end
    let y: Vec<f64> = if f == "exp" { y.into_iter().filter(|v| v.is_finite() || v.is_nan()).collect() } else { y };
    out.case(&format!("{}-sweep", f), vec![obj! { op: "sweep", f: f, end: w, ys: y }]);
    for i in 0..a.pick(150, 2000) {
        let mut x = f64::from_bits(g.next());
        if !x.is_finite() { x = f64::MIN_POSITIVE * 3.0; }
        let r = out.run(move || (A::func(x), A::func_grad(x)));
        let w = r.word();
        let (y, d) = r.ok().unwrap_or((0.0, 0.0));
        out.case(&format!("{}-wild-{}", f, i), vec![obj! { op: "wild", f: f, end: w, x: x, y: y, g: d }]);
    }
}
pub fn run(a: &Args, out: &mut Out) {
    one::<Sigmoid>(a, out, "sigmoid");
    one::<Linear>(a, out, "linear");
    one::<Exp>(a, out, "exp");
    one::<Tanh>(a, out, "tanh");
    let s = 1.0 / (1.0 + (-0.5f64).exp());
    out.neg("neg-value", vec![obj! { op: "point", f: "sigmoid", end: "ok", x: 0.5f64, y: s + 1e-11, g: s * (1.0 - s), h: s * (1.0 - s) }]);
    out.neg("neg-grad", vec![obj! { op: "point", f: "sigmoid", end: "ok", x: 0.5f64, y: s, g: s * (1.0 - s) + 1e-11, h: s * (1.0 - s) }]);
    out.neg("neg-order", vec![obj! { op: "sweep", f: "tanh", end: "ok", ys: vec![0.25f64, 0.2] }]);
}
