//! Drives the modules of /repo that need no rulinalg and records what they do.
use common::*;
use rusty_machine::learning::toolkit::rand_utils::*;
mod dist;
mod activ;

fn law_event(out: &mut Out, op: &'static str, n: usize, k: usize, cap: usize, samples: usize, f: impl FnMut() -> J + Send + 'static) -> J {
    match out.run(move || law(cap, samples, f)) {
        End::Ok(l) => obj! { op: op, n: n, k: k, end: "ok", exact: l.exact, den: l.den, hist: l.hist_j() },
        e => obj! { op: op, n: n, k: k, end: e.word(), exact: true, den: 1usize, hist: Vec::<J>::new() },
    }
}
fn tapes(g: &mut Gen, n: usize) -> Vec<Option<(u64, u64)>> { vec![None, Some((0, 0)), Some((1, 0)), Some((2, g.next()))].into_iter().chain((0..n).map(|_| Some((3, g.next())))).collect() }
/// Installs an extreme or random tape: answers are reduced modulo the range by the script.
fn tape(t: Option<(u64, u64)>, sizes: &[u64]) {
    if let Some((kind, s)) = t {
        let mut g = Gen::new(s, 7);
        let v = sizes.iter().map(|m| match kind { 0 => 0, 1 => m - 1, 2 => if g.chance(0.5) { 0 } else { m - 1 }, _ => g.next() % m }).collect();
        rand::script::install(v, vec![], vec![], vec![]);
    }
}

fn reservoir(a: &Args, out: &mut Out) {
    let nmax = a.pick(6, 8);
    let samples = 40_000;
    for n in 0..=nmax { for k in 0..=n {
        let ev = law_event(out, "reservoir-law", n, k, 60_000, samples, move || {
            let pool: Vec<usize> = (0..n).collect();
            reservoir_sample(&pool, k).j()
        });
        out.case(&format!("law-{}-{}", n, k), vec![ev]);
        if out.give_up() { return; }
    } }
    // positions of larger pools
    let sizes: &[(usize, usize, usize)] = &[(10, 3, 8000), (20, 19, 4000), (33, 7, 4000), (64, 1, 6000), (65, 64, 2000), (100, 10, 4000), (130, 128, 1000), (300, 5, 20_000), (511, 8, 10_000), (1000, 500, 400), (2000, 4, 5000), (5000, 3, 2000)];
    for &(n, k, m) in sizes {
        let m = a.pick(m, m * 3);
        let r = out.run(move || {
            let pool: Vec<u32> = (0..n as u32).collect();
            let mut c = vec![0usize; n];
            for _ in 0..m { for v in reservoir_sample(&pool, k) { if (v as usize) < n { c[v as usize] += 1; } } }
            c
        });
        let w = r.word();
        out.case(&format!("counts-{}-{}", n, k), vec![obj! { op: "reservoir-counts", n: n, k: k, m: m, end: w, counts: r.ok().unwrap_or_default() }]);
        if out.give_up() { return; }
    }
    // pairs of positions of long pools
    for &(n, k, m) in &[(40usize, 20usize, 3000usize), (260, 6, 8000), (600, 30, 2000), (1100, 100, 1000), (2500, 12, 3000), (4200, 40, 1500), (20_000, 10, 200)] {
        let m = a.pick(m, m * 4);
        let nb = 10;
        let gs: Vec<usize> = vec![1, 2, 3, 8, n / 2, n - 1];
        let g2 = gs.clone();
        let r = out.run(move || {
            let pool: Vec<u32> = (0..n as u32).collect();
            let (mut grid, mut gaps, mut bad) = (vec![vec![0usize; nb]; nb], vec![0usize; g2.len()], 0usize);
            for _ in 0..m {
                let mut s: Vec<usize> = reservoir_sample(&pool, k).into_iter().map(|v| v as usize).collect();
                s.sort();
                let mut on = vec![false; n];
                if s.len() != k || s.iter().any(|v| *v >= n) || s.windows(2).any(|w| w[0] == w[1]) { bad += 1; continue; }
                for v in &s { on[*v] = true; }
                for (i, d) in g2.iter().enumerate() { gaps[i] += s.iter().filter(|v| **v + d < n && on[**v + d]).count(); }
                for i in 0..k { for j in i + 1..k { grid[s[i] * nb / n][s[j] * nb / n] += 1; } }
            }
            (grid, gaps, bad)
        });
        let w = r.word();
        let (grid, gaps, bad) = r.ok().unwrap_or_default();
        let gj = J::A(gs.iter().zip(gaps).map(|(d, c)| vec![*d, c].j()).collect());
        out.case(&format!("pairs-{}-{}", n, k), vec![obj! { op: "reservoir-stats", n: n, k: k, m: m, end: w, bad: bad, gaps: gj, grid: grid }]);
        if out.give_up() { return; }
    }
    // arbitrary values, types and draws
    let mut g = Gen::new(a.seed, 1);
    for i in 0..a.pick(60, 600) {
        let n = if i < 20 { i } else { g.below(90) };
        let k = if n == 0 { 0 } else { match i % 4 { 0 => n, 1 => 0, _ => g.below(n + 1) } };
        let vals: Vec<i64> = (0..n).map(|_| g.int(-3, 12)).collect();
        let ty = g.below(4);
        for t in tapes(&mut g, 2) {
            let pool = vals.clone();
            let sizes: Vec<u64> = (k..n).map(|j| j as u64 + 1).collect();
            // a tape only fits the draws of the textbook algorithm; otherwise fall back to the seeded generator
            let once = move |scripted: bool, pool: Vec<i64>, sizes: Vec<u64>| {
                if scripted { tape(t, &sizes); }
                let r: (Vec<i64>, Vec<i64>) = match ty {
                    0 => { let r = reservoir_sample(&pool, k); (r, pool.clone()) }
                    1 => { let p: Vec<u8> = pool.iter().map(|v| (v + 100) as u8).collect(); let r = reservoir_sample(&p, k); (r.iter().map(|v| *v as i64 - 100).collect(), p.iter().map(|v| *v as i64 - 100).collect()) }
                    2 => { let p: Vec<(f64, [u16; 3])> = pool.iter().map(|v| (*v as f64, [*v as u16; 3])).collect(); let r = reservoir_sample(&p, k); (r.iter().map(|v| if v.1 == [v.0 as i64 as u16; 3] { v.0 as i64 } else { 999 }).collect(), p.iter().map(|v| v.0 as i64).collect()) }
                    _ => { let p: Vec<&i64> = pool.iter().collect(); let r = reservoir_sample(&p, k); (r.iter().map(|v| **v).collect(), p.iter().map(|v| **v).collect()) }
                };
                rand::script::take();
                r
            };
            let (p1, s1) = (pool.clone(), sizes.clone());
            let o1 = once;
            let mut r = out.run(move || o1(true, p1, s1));
            if let End::Panic(m) = &r { if m.contains("tape does not fit") { let (p1, s1) = (pool.clone(), sizes.clone()); let o1 = once; r = out.run(move || o1(false, p1, s1)); } }
            let w = r.word();
            let (o, af) = r.ok().unwrap_or_default();
            out.case(&format!("sample-{}", i), vec![obj! { op: "reservoir", pool: pool, k: k, end: w, out: o, after: af }]);
            if out.give_up() { return; }
        }
    }
    // zero sized elements
    let r = out.run(|| reservoir_sample(&[(); 9], 4).len());
    let w = r.word();
    out.case("unit", vec![obj! { op: "reservoir", pool: vec![0usize; 9], k: 4usize, end: w, out: vec![0usize; r.ok().unwrap_or(0)], after: vec![0usize; 9] }]);
    for (n, k) in [(0usize, 1usize), (1, 2), (2, 5), (7, 8), (7, 100), (0, 7), (31, 32), (64, 65), (5, usize::MAX), (0, usize::MAX)] {
        let r = out.run(move || { let p: Vec<u64> = (0..n as u64).collect(); reservoir_sample(&p, k).len() });
        out.case(&format!("refuse-{}-{}", n, k % 1000), vec![obj! { op: "reservoir-refuse", n: n, k: k % 1000, end: r.word() }]);
    }
    out.neg("biased", vec![obj! { op: "reservoir-law", n: 2usize, k: 1usize, end: "ok", exact: true, den: 4usize, hist: J::A(vec![J::A(vec![vec![0usize].j(), 3usize.j()]), J::A(vec![vec![1usize].j(), 1usize.j()])]) }]);
    out.neg("foreign", vec![obj! { op: "reservoir", pool: vec![1usize, 2, 2], k: 2usize, end: "ok", out: vec![1usize, 1], after: vec![1usize, 2, 2] }]);
    out.neg("accepted", vec![obj! { op: "reservoir-refuse", n: 1usize, k: 2usize, end: "ok" }]);
}

fn shuffle(a: &Args, out: &mut Out) {
    let nmax = a.pick(6, 7);
    for inplace in [false, true] {
        let tag = if inplace { "inplace" } else { "insideout" };
        for n in 0..=nmax {
            let ev = law_event(out, "perm-law", n, 0, 60_000, 40_000, move || {
                let mut v: Vec<usize> = (0..n).collect();
                if inplace { in_place_fisher_yates(&mut v); v.j() } else { fisher_yates(&v).j() }
            });
            out.case(&format!("law-{}-{}", tag, n), vec![ev]);
            if out.give_up() { return; }
        }
        for &(n, m) in &[(8usize, 6000usize), (13, 6000), (32, 6000), (50, 8000), (70, 8000)] {
            let m = a.pick(m, m * 3);
            let r = out.run(move || {
                let mut c = vec![vec![0usize; n]; n];
                for _ in 0..m {
                    let mut v: Vec<usize> = (0..n).collect();
                    if inplace { in_place_fisher_yates(&mut v) } else { v = fisher_yates(&v) }
                    for (p, x) in v.iter().enumerate() { if *x < n { c[p][*x] += 1; } }
                }
                c
            });
            let w = r.word();
            out.case(&format!("counts-{}-{}", tag, n), vec![obj! { op: "perm-counts", n: n, m: m, end: w, counts: r.ok().unwrap_or_default() }]);
            if out.give_up() { return; }
        }
        for &(n, m) in &[(2usize, 5000usize), (10, 5000), (30, 4000), (130, 4000), (260, 4000), (520, 2000), (1030, 1500), (2100, 1000), (4100, 500), (10_000, 200), (70_000, 30)] {
            let m = a.pick(m, m * 4);
            let nb = if n % 10 == 0 { 10 } else { 2 };
            let r = out.run(move || perm_stats(n, m, nb, || { let mut v: Vec<usize> = (0..n).collect(); if inplace { in_place_fisher_yates(&mut v) } else { v = fisher_yates(&v) } v }));
            let w = r.word();
            let (grid, c) = r.ok().unwrap_or((vec![], vec![0; 5]));
            out.case(&format!("stats-{}-{}", tag, n), vec![obj! { op: "perm-stats", n: n, m: m, end: w, grid: grid, even: c[0], fixed: c[1], next: c[2], asc: c[3], bad: c[4] }]);
            if out.give_up() { return; }
        }
        let mut g = Gen::new(a.seed, 2);
        for i in 0..a.pick(60, 600) {
            let n = if i < 20 { i } else if i % 10 == 0 { 100 + g.below(400) } else { g.below(80) };
            let vals: Vec<i64> = (0..n).map(|_| g.int(-3, if i % 2 == 0 { 5 } else { 1000 })).collect();
            let ty = g.below(4);
            for t in tapes(&mut g, 1) {
                let sizes: Vec<u64> = (0..n).map(|j| if inplace { (n - j) as u64 } else { j as u64 + 1 }).collect();
                let once = move |scripted: bool, vals: Vec<i64>, sizes: Vec<u64>| {
                    if scripted { tape(t, &sizes); }
                    let r: (Vec<i64>, Vec<i64>) = match (inplace, ty) {
                        (true, 0) => { let mut v: Vec<String> = vals.iter().map(|x| format!("{:05}", x)).collect(); in_place_fisher_yates(&mut v); let o: Vec<i64> = v.iter().map(|s| s.parse().unwrap()).collect(); (o.clone(), o) }
                        (true, 1) => { let mut v: Vec<Box<i64>> = vals.iter().map(|x| Box::new(*x)).collect(); in_place_fisher_yates(&mut v); let o: Vec<i64> = v.iter().map(|s| **s).collect(); (o.clone(), o) }
                        (true, 2) => { let mut v: Vec<u16> = vals.iter().map(|x| (*x + 100) as u16).collect(); in_place_fisher_yates(&mut v); let o: Vec<i64> = v.iter().map(|s| *s as i64 - 100).collect(); (o.clone(), o) }
                        (true, _) => { // a window of a longer slice: its surroundings must stay
                            let mut v = vec![7777i64; 3]; v.extend(&vals); v.extend(&[8888; 3]);
                            in_place_fisher_yates(&mut v[3..3 + vals.len()]);
                            let n = vals.len();
                            let ok = v[..3] == [7777; 3] && v[3 + n..] == [8888; 3];
                            let o = v[3..3 + n].to_vec();
                            (o.clone(), if ok { o } else { vec![-9999] })
                        }
                        (false, 0) => { let r = fisher_yates(&vals); (r, vals.clone()) }
                        (false, 1) => { let p: Vec<u8> = vals.iter().map(|v| (*v % 100 + 100) as u8).collect(); let q = p.clone(); let r = fisher_yates(&p); let mut bad = r.clone(); bad.sort(); let mut q2 = q.clone(); q2.sort(); (if bad == q2 { vals.iter().rev().cloned().collect() } else { vec![-9999] }, vals.clone()) }
                        (false, 2) => { let p: Vec<(f64, i64, [u8; 3])> = vals.iter().map(|v| (*v as f64, *v, [*v as u8; 3])).collect(); let r = fisher_yates(&p); (r.iter().map(|v| if v.0 == v.1 as f64 && v.2 == [v.1 as u8; 3] { v.1 } else { 99999 }).collect(), p.iter().map(|v| v.1).collect()) }
                        (false, _) => { let p: Vec<&i64> = vals.iter().collect(); let r = fisher_yates(&p); (r.iter().map(|v| **v).collect(), vals.clone()) }
                    };
                    rand::script::take();
                    r
                };
                let (v1, s1) = (vals.clone(), sizes.clone());
                let o1 = once;
                let mut r = out.run(move || o1(true, v1, s1));
                if let End::Panic(m) = &r { if m.contains("tape does not fit") { let (v1, s1) = (vals.clone(), sizes.clone()); let o1 = once; r = out.run(move || o1(false, v1, s1)); } }
                let w = r.word();
                let (o, af) = r.ok().unwrap_or_default();
                out.case(&format!("perm-{}-{}", tag, i), vec![obj! { op: "perm", inplace: inplace, arr: vals, end: w, out: o, after: af }]);
                if out.give_up() { return; }
            }
        }
        let r = out.run(move || { let mut v = [(); 6]; if inplace { in_place_fisher_yates(&mut v); v.len() } else { fisher_yates(&v).len() } });
        let w = r.word();
        let l = r.ok().unwrap_or(0);
        out.case("unit", vec![obj! { op: "perm", inplace: inplace, arr: vec![0usize; 6], end: w, out: vec![0usize; l], after: vec![0usize; if inplace { l } else { 6 }] }]);
    }
    out.neg("lost", vec![obj! { op: "perm", inplace: false, arr: vec![1usize, 2], end: "ok", out: vec![1usize, 1], after: vec![1usize, 2] }]);
    out.neg("identity", vec![obj! { op: "perm-law", n: 2usize, k: 0usize, end: "ok", exact: true, den: 2usize, hist: J::A(vec![J::A(vec![vec![0usize, 1].j(), 2usize.j()])]) }]);
    out.neg("changed", vec![obj! { op: "perm", inplace: false, arr: vec![1usize, 2], end: "ok", out: vec![1usize, 2], after: vec![2usize, 1] }]);
}

fn main() {
    let a = args();
    let mut out = Out::new(&a.out, a.seed);
    match a.cmd.as_str() {
        "reservoir" => reservoir(&a, &mut out),
        "shuffle" => shuffle(&a, &mut out),
        "activ" => activ::run(&a, &mut out),
        "gaussian" => dist::gaussian(&a, &mut out),
        "exponential" => dist::exponential(&a, &mut out),
        "sampling" => dist::sampling(&a, &mut out),
        c => panic!("unknown command {}", c),
    }
    out.finish()
}
