//! The bundled data sets.
use full::*;
use rusty_machine::datasets::{iris, trees};

fn iris_event() -> J { let d = iris::load(); obj! { op: "load", name: "iris", end: "ok", data: all(&rows(d.data())), target: d.target().data().iter().map(|v| Raw(J::I(*v as i64))).collect::<Vec<_>>() } }
fn trees_event() -> J { let d = trees::load(); obj! { op: "load", name: "trees", end: "ok", data: all(&rows(d.data())), target: Raw(fxs(d.target().data())) } }
fn bits(m: &Matrix<f64>) -> Vec<u64> { m.data().iter().map(|v| v.to_bits()).collect() }
/// copies changed by their owner, compared with what the data set says before and after
fn copies() -> J {
    let d = iris::load();
    let c = d.clone();
    let mut m = c.data().clone();
    for v in m.mut_data() { *v = -1.0; }
    let mut t = c.target().clone();
    for v in t.mut_data() { *v = 7; }
    let e = trees::load();
    let f = e.clone();
    let equal = bits(d.data()) == bits(c.data()) && bits(d.data()) == bits(d.data()) && d.target() == c.target() && bits(e.data()) == bits(f.data()) && e.target() == f.target() && bits(iris::load().data()) == bits(d.data());
    obj! { op: "copy", equal: equal }
}
fn sets(_a: &Args, out: &mut Out) {
    hist(out, "iris", |t| { t.about(obj! { op: "load", name: "iris" }); t.say(iris_event()); t.say(copies()); t.say(iris_event()); });
    hist(out, "trees", |t| { t.about(obj! { op: "load", name: "trees" }); t.say(trees_event()); t.say(copies()); t.say(trees_event()); });
    // from several threads at once
    hist(out, "threads", |t| {
        let h: Vec<_> = (0..4).map(|i| std::thread::spawn(move || if i % 2 == 0 { iris_event() } else { trees_event() })).collect();
        for x in h { t.say(x.join().unwrap()); }
    });
    let i = iris::load(); let t = trees::load();
    let iris_like = |f: &dyn Fn(&mut Rows, &mut Vec<i64>)| {
        let (mut x, mut y) = (rows(i.data()), i.target().data().iter().map(|v| *v as i64).collect::<Vec<_>>());
        f(&mut x, &mut y);
        vec![obj! { op: "load", name: "iris", end: "ok", data: all(&x), target: y.iter().map(|v| Raw(J::I(*v))).collect::<Vec<_>>() }]
    };
    let trees_like = |f: &dyn Fn(&mut Rows, &mut Vec<f64>)| {
        let (mut x, mut y) = (rows(t.data()), t.target().data().clone());
        f(&mut x, &mut y);
        vec![obj! { op: "load", name: "trees", end: "ok", data: all(&x), target: Raw(fxs(&y)) }]
    };
    out.neg("neg-value", iris_like(&|x, _| x[77][2] += 0.1));
    out.neg("neg-swapped", iris_like(&|x, _| x.swap(3, 60)));
    out.neg("neg-species", iris_like(&|_, y| y[50] = 0));
    out.neg("neg-short", iris_like(&|x, y| { x.pop(); y.pop(); }));
    out.neg("neg-volume", trees_like(&|_, y| y[30] = 7.7));
    out.neg("neg-height", trees_like(&|x, _| x[0][1] = 71.0));
    out.neg("neg-copy", vec![obj! { op: "copy", equal: false }]);
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() { "sets" => sets(&a, &mut out), c => panic!("{}", c) }
    out.finish()
}
