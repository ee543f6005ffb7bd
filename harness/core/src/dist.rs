//! Distributions: queries and samples.
use common::*;
use rand::distributions::{IndependentSample, Sample};
use rand::{Rng, SeedableRng};
use rusty_machine::stats::dist::{Distribution, Exponential, Gaussian};

fn at<D: Distribution<f64> + Copy + Send + 'static>(out: &mut Out, d: D, x: f64) -> J {
    let r = out.run(move || (d.pdf(x), d.logpdf(x), d.cdf(x)));
    let w = r.word();
    let (p, l, c) = r.ok().unwrap_or((0.0, 0.0, 0.0));
    obj! { op: "at", end: w, x: x, pdf: p, logpdf: l, cdf: c }
}
fn limit<D: Distribution<f64> + Copy + Send + 'static>(out: &mut Out, d: D, x: f64) -> J {
    let r = out.run(move || (d.pdf(x), d.logpdf(x), d.cdf(x)));
    let w = r.word();
    let (p, l, c) = r.ok().unwrap_or((0.0, 0.0, 0.0));
    obj! { op: "limit", end: w, right: x > 0.0, pdf: p, logpdf: l, cdf: c }
}
fn gmake(ctor: &'static str, m: f64, q: f64) -> (Gaussian, J) {
    let (g, p) = match ctor { "new" => (Gaussian::new(m, q), vec![m, q]), "from_std_dev" => (Gaussian::from_std_dev(m, q), vec![m, q]), _ => (Gaussian::default(), vec![]) };
    (g, obj! { op: "make", end: "ok", ctor: ctor, p: p })
}
/// (ctor, mean, variance or deviation, deviation)
fn gparams(a: &Args, g: &mut Gen) -> Vec<(&'static str, f64, f64, f64)> {
    let mut v = vec![("default", 0.0, 1.0, 1.0)];
    for &m in &[0.0, 1.0, -2.5, 1000.0, -1e6, 1e-3] { for &s in &[1.0, 0.5, 2.0, 3.7, 0.01, 250.0, 1e-8, 1e8] {
        v.push(("new", m, s, f64::sqrt(s))); v.push(("from_std_dev", m, s, s));
    } }
    for &(m, s) in &[(0.0, 1e-12), (2.0, 1e-12), (0.0, 1e-20), (0.0, 1e12), (5.0, 1e20), (1e12, 4.0), (-3e15, 9.0), (0.1, f64::EPSILON), (0.0, 1.0 + f64::EPSILON), (0.0, 0.9999999), (1.0, 1.0), (0.0, 4.0)] {
        v.push(("new", m, s, f64::sqrt(s))); v.push(("from_std_dev", m, s, s));
    }
    for _ in 0..a.pick(20, 400) { let s = (g.real(-12.0, 12.0)).exp(); let m = g.real(-1.0, 1.0) * *g.pick(&[1.0, 10.0, 1e4]); if g.chance(0.5) { v.push(("new", m, s, s.sqrt())) } else { v.push(("from_std_dev", m, s, s)) } }
    v
}

pub fn gaussian(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 21);
    let zs = [0.0, 0.05, 0.3, 0.6, 0.9, 1.0, 1.3, 1.5, 1.6, 1.7, 1.9, 2.3, 2.6, 3.0, 3.5, 4.2, 5.0, 6.5, 8.0, 12.0, 20.0, 37.0, 60.0, 1e3];
    for (i, (c, m, q, s)) in gparams(a, &mut g).into_iter().enumerate() {
        let (d, mk) = gmake(c, m, q);
        let mut ev = vec![mk];
        let mut xs = vec![];
        for z in zs { if g.chance(0.5) || i == 0 { xs.push(m + z * s); } if g.chance(0.5) || i == 0 { xs.push(m - z * s); } }
        for _ in 0..3 { xs.push(m + s * g.real(-4.0, 4.0)); }
        xs.push(0.0); xs.push(m);
        for x in xs { ev.push(at(out, d, x)); }
        for x in [1e200, -1e200, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY] { ev.push(limit(out, d, x)); }
        for _ in 0..6 {
            // a distance that mean +- it represents exactly
            let t = s * g.real(0.01, 4.0);
            let hi = m + t; let dd = hi - m; let lo = m - dd;
            if m + dd == hi && hi - m == dd && m - lo == dd && dd > 0.0 {
                let r = out.run(move || (d.cdf(lo), d.cdf(hi)));
                let w = r.word(); let (a, b) = r.ok().unwrap_or((0.0, 0.0));
                ev.push(obj! { op: "sym", end: w, lo: a, hi: b });
            }
        }
        let r = out.run(move || d.cdf(m)); let w = r.word();
        ev.push(obj! { op: "mid", end: w, v: r.ok().unwrap_or(0.0) });
        let mut sw: Vec<f64> = (-45..=45).map(|k| m + s * k as f64 / 9.0).collect();
        sw.extend([1e300, -1e300, m + 40.0 * s, m - 40.0 * s]);
        sw.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let r = out.run(move || sw.iter().map(|x| d.cdf(*x)).collect::<Vec<f64>>()); let w = r.word();
        ev.push(obj! { op: "sweep", end: w, ys: r.ok().unwrap_or_default() });
        out.case(&format!("gaussian-{}-{}", c, i), ev);
        if out.give_up() { return; }
    }
    let (d, mk) = gmake("new", 0.0, 4.0);
    let (p, l, c) = (d.pdf(1.0), d.logpdf(1.0), d.cdf(1.0));
    out.neg("neg-pdf", vec![mk.clone(), obj! { op: "at", end: "ok", x: 1.0f64, pdf: p * (1.0 + 1e-10), logpdf: l, cdf: c }]);
    out.neg("neg-cdf", vec![mk.clone(), obj! { op: "at", end: "ok", x: 1.0f64, pdf: p, logpdf: l, cdf: c + 0.01 }]);
    out.neg("neg-law", vec![obj! { op: "make", end: "ok", ctor: "from_std_dev", p: vec![0.0f64, 4.0] }, obj! { op: "at", end: "ok", x: 1.0f64, pdf: p, logpdf: l, cdf: c }]);
}

fn emake(l: Option<f64>) -> (Exponential, J) {
    match l { Some(l) => (Exponential::new(l), obj! { op: "make", end: "ok", ctor: "exp-new", p: vec![l] }), None => (Exponential::default(), obj! { op: "make", end: "ok", ctor: "exp-default", p: Vec::<f64>::new() }) }
}
pub fn exponential(a: &Args, out: &mut Out) {
    let mut g = Gen::new(a.seed, 22);
    let mut ls = vec![None];
    for l in [1.0, 0.5, 2.0, 7.0, 5.0, 1e-3, 1e-9, 123.456, 1e6, 1e9, 1e-15, 1e-25, 1e14, 1e22, f64::EPSILON, 1.0 + f64::EPSILON, 0.9999999] { ls.push(Some(l)); }
    for _ in 0..a.pick(30, 500) { ls.push(Some(g.real(-10.0, 10.0).exp())); }
    for (i, l) in ls.into_iter().enumerate() {
        let (d, mk) = emake(l);
        let l = l.unwrap_or(1.0);
        let r = out.run(move || d.lambda()); let w = r.word();
        let mut ev = vec![mk, obj! { op: "rate", end: w, v: r.ok().unwrap_or(0.0) }];
        let mut xs = vec![0.0, -0.0, 1.0, 1e-12 / l, 1e-6 / l, 1e-3 / l, 0.1 / l, 0.5 / l, 1.0 / l, 2.0 / l, 5.0 / l, 20.0 / l, 36.0 / l, 40.0 / l, 100.0 / l, 600.0 / l, 740.0 / l, 2000.0 / l];
        for _ in 0..6 { xs.push(g.real(0.0, 8.0) / l); }
        for x in xs { ev.push(at(out, d, x)); }
        ev.push(limit(out, d, 1e308)); ev.push(limit(out, d, f64::INFINITY));
        let mut sw: Vec<f64> = (0..120).map(|k| k as f64 / 12.0 / l).collect(); sw.push(1e300);
        let r = out.run(move || sw.iter().map(|x| d.cdf(*x)).collect::<Vec<f64>>()); let w = r.word();
        ev.push(obj! { op: "sweep", end: w, ys: r.ok().unwrap_or_default() });
        for x in [-1.0, -1e-9, -5e-324, -1e300, f64::NEG_INFINITY, -g.real(0.0, 1.0) - 1e-6] { for q in 0..3 {
            let r = out.run(move || match q { 0 => d.pdf(x), 1 => d.logpdf(x), _ => d.cdf(x) });
            ev.push(obj! { op: "refuse", end: r.word(), what: vec!["pdf", "logpdf", "cdf"][q] });
        } }
        out.case(&format!("exponential-{}", i), ev);
        if out.give_up() { return; }
    }
    let (d, mk) = emake(Some(2.0));
    out.neg("neg-cdf", vec![mk.clone(), obj! { op: "at", end: "ok", x: 1.0f64, pdf: d.pdf(1.0), logpdf: d.logpdf(1.0), cdf: d.cdf(1.0) + 1e-13 }]);
    out.neg("neg-rate", vec![mk.clone(), obj! { op: "rate", end: "ok", v: 0.5f64 }]);
    out.neg("neg-accepts", vec![mk, obj! { op: "refuse", end: "ok", what: "pdf" }]);
}

#[derive(Clone, Copy)] enum Any { G(Gaussian), E(Exponential) }
impl Any {
    /// One draw through one of the two traits and one of several generators.
    fn draw(&mut self, how: usize, xor: &mut rand::XorShiftRng) -> f64 {
        let mut tr = rand::thread_rng();
        match self {
            Any::G(d) => match how { 0 => d.ind_sample(&mut tr), 1 => d.sample(&mut tr), 2 => d.ind_sample(xor), _ => d.sample(xor) },
            Any::E(d) => match how { 0 => d.ind_sample(&mut tr), 1 => d.sample(&mut tr), 2 => d.ind_sample(xor), _ => d.sample(xor) },
        }
    }
    fn at(&self, out: &mut Out, x: f64) -> J { match self { Any::G(d) => at(out, *d, x), Any::E(d) => at(out, *d, x) } }
}
pub fn sampling(a: &Args, out: &mut Out) {
    use rand::script::{self, Draw};
    let mut g = Gen::new(a.seed, 23);
    let mut objs: Vec<(Any, J, f64, f64)> = vec![]; // object, constructor, location, scale
    for (c, m, q, s) in gparams(a, &mut g) { let (d, mk) = gmake(c, m, q); objs.push((Any::G(d), mk, m, s)); }
    for l in [None, Some(1.0), Some(0.5), Some(7.0), Some(1e-6), Some(1e5), Some(2.0), Some(31.0)] { let (d, mk) = emake(l); objs.push((Any::E(d), mk, 0.0, 1.0 / l.unwrap_or(1.0))); }
    for _ in 0..a.pick(10, 200) { let l = g.real(-6.0, 6.0).exp(); let (d, mk) = emake(Some(l)); objs.push((Any::E(d), mk, 0.0, 1.0 / l)); }
    let nobj = objs.len();
    for (i, (d, mk, m, s)) in objs.into_iter().enumerate() {
        let gauss = matches!(d, Any::G(_));
        let ns: Vec<f64> = if gauss { vec![0.0, 1.0, -1.0, 0.5, -3.25, 6.0, -8.0, 1e-9, 40.0, g.real(-3.0, 3.0), g.real(-3.0, 3.0), g.real(-3.0, 3.0)] } else { vec![0.0, 1.0, 0.25, 1e-9, 12.0, 100.0, g.real(0.0, 3.0), g.real(0.0, 3.0), g.real(0.0, 3.0)] };
        let mut ev = vec![mk];
        // scripted standard variates
        let n2 = ns.clone();
        let r = out.run(move || {
            let mut d = d;
            let mut xor = rand::XorShiftRng::from_seed([1, 2, 3, 4]);
            let mut v = vec![];
            for how in 0..4 {
                script::install(vec![], vec![], if gauss { n2.clone() } else { vec![] }, if gauss { vec![] } else { n2.clone() });
                let mut outs = vec![];
                for _ in &n2 { outs.push(d.draw(how, &mut xor)); }
                let log = script::take();
                let want: Vec<Draw> = n2.iter().map(|n| if gauss { Draw::Normal(*n) } else { Draw::Exp(*n) }).collect();
                if log == want { v.push(outs); }
            }
            (d, v)
        });
        match r {
            End::Ok((d2, v)) => {
                for outs in &v { for (n, o) in ns.iter().zip(outs) { ev.push(obj! { op: "sample", end: "ok", n: *n, v: *o }); } }
                ev.push(d2.at(out, m + s * 0.5));
                ev.push(d2.at(out, m + s * 2.0));
                // seeded draws, always: also what is judged when the code takes its randomness differently
                if v.len() < 4 || i % (nobj / 10).max(1) == 0 {
                    for how in 0..4 {
                        let mm = a.pick(20_000usize, 100_000);
                        let seed = g.next();
                        let cuts: Vec<f64> = if gauss { [-2.0, -1.0, -0.3, 0.0, 0.4, 1.2, 2.2, 3.0].iter().map(|z| m + s * z).collect() } else { [0.02, 0.2, 0.7, 1.0, 1.6, 3.0, 5.0].iter().map(|z| s * z).collect() };
                        let c2 = cuts.clone();
                        let r = out.run(move || {
                            let mut d = d;
                            script::seed(seed);
                            let mut xor = rand::XorShiftRng::from_seed([seed as u32 | 1, (seed >> 32) as u32, 77, 99]);
                            for _ in 0..10 { xor.next_u32(); }
                            let xs: Vec<f64> = (0..mm).map(|_| d.draw(how, &mut xor)).collect();
                            let cs: Vec<(usize, usize)> = c2.iter().map(|c| (xs.iter().filter(|x| *x <= c).count(), xs.windows(2).filter(|w| w[0] <= *c && w[1] <= *c).count())).collect();
                            (cs, xs.iter().filter(|x| !x.is_finite()).count(), xs.iter().filter(|x| **x < 0.0).count())
                        });
                        let w = r.word();
                        let (cs, nf, ng) = r.ok().unwrap_or((vec![], 0, 0));
                        let cj = J::A(cuts.iter().zip(cs).map(|(x, (c, p))| obj! { x: *x, cnt: c, pairs: p }).collect());
                        ev.push(obj! { op: "law", end: w, m: mm, cuts: cj, nonfinite: nf, negative: ng });
                    }
                }
            }
            e => ev.push(obj! { op: "sample", end: e.word() }),
        }
        out.case(&format!("sampling-{}", i), ev);
        if out.give_up() { return; }
    }
    let (_, mk) = gmake("new", 1.0, 4.0);
    out.neg("neg-variance", vec![mk.clone(), obj! { op: "sample", end: "ok", n: 1.0f64, v: 5.0f64 }]);
    out.neg("neg-law", vec![mk, obj! { op: "law", end: "ok", m: 20_000usize, cuts: J::A(vec![obj! { x: 1.0f64, cnt: 10_600usize, pairs: 5_000usize }]), nonfinite: 0usize, negative: 0usize }]);
    let (_, mk) = emake(Some(4.0));
    out.neg("neg-rate", vec![mk, obj! { op: "sample", end: "ok", n: 1.0f64, v: 4.0f64 }]);
}
