//! C23 the worst-case learner, C25 combined hypotheses and serialisation,
//! C27 logger, C29 refused configurations.
use crate::boost::*;
use crate::fw::*;
use crate::p_feat::*;
use crate::util::*;
use miniboosts::prelude::*;
use serde_json::json;
use std::cell::RefCell;

// ---------------------------------------------------------------- C23

struct Counting<'a, W: WeakLearner> {
    inner: &'a W,
    log: RefCell<Vec<Vec<f64>>>,
}

impl<W: WeakLearner> WeakLearner for Counting<'_, W> {
    type Hypothesis = W::Hypothesis;
    fn produce(&self, s: &Sample, d: &[f64]) -> W::Hypothesis {
        self.log.borrow_mut().push(d.to_vec());
        self.inner.produce(s, d)
    }
}

/// All points of the simplex with coordinates that are multiples of 1/q.
fn simplex_grid(m: usize, q: usize) -> Vec<Vec<f64>> {
    let mut out = vec![];
    fn rec(m: usize, left: usize, q: usize, cur: &mut Vec<f64>, out: &mut Vec<Vec<f64>>) {
        if cur.len() + 1 == m {
            cur.push(left as f64 / q as f64);
            out.push(cur.clone());
            cur.pop();
            return;
        }
        for k in 0..=left {
            cur.push(k as f64 / q as f64);
            rec(m, left - k, q, cur, out);
            cur.pop();
        }
    }
    rec(m, q, q, &mut vec![], &mut out);
    out
}

/// The class as the property states it: margins of every member on every row.
fn bad_class(y: &[f64], nu: f64, tol: f64) -> Vec<Vec<f64>> {
    let n = y.len();
    let half = n.div_ceil(2);
    let s = nu.ceil() as usize;
    let e = tol / (2.0 * n as f64);
    let mut margins: Vec<Vec<f64>> = vec![];
    margins.push((0..n).map(|i| if i < half { 1.0 } else if i < half + s { -1.0 + 2.0 * e } else { -1.0 + 3.0 * e }).collect());
    for k in 1..half {
        let from = half + k - 1;
        let g = (2 * k + 3) as f64;
        margins.push((0..n).map(|i| if i >= from && i < from + s { 1.0 } else if i >= from + s && i < from + 2 * s { -1.0 + (g - 1.0) * e } else { -1.0 + g * e }).collect());
    }
    margins.push((0..n).map(|i| if i < half { -1.0 + e } else { 1.0 - e }).collect());
    margins.into_iter().map(|m| m.iter().zip(y).map(|(a, b)| a * b).collect()).collect()
}

pub fn c23(run: &mut Run) {
    let mut cases: Vec<(usize, f64, f64, usize)> = vec![];
    let top = run.pick(11, 16);
    for n in 2..=top {
        for nu in [1.0, 1.5, 2.0, n as f64 / 2.0, n as f64] {
            if nu < 1.0 || nu > n as f64 {
                continue;
            }
            for tol in [1e-9, 1e-3, 0.05] {
                for pat in 0..3 {
                    cases.push((n, nu, tol, pat));
                }
            }
        }
    }
    run.explore("bad", &cases, |c| format!("n{},nu{},tol{},pat{}", c.0, c.1, c.2, c.3), |&(n, nu, tol, pat), loc| {
        let s = match pat {
            2 => Sample::dummy(n),
            _ => row_sample(&(0..n).map(|i| if (i + pat) % (2 + pat) == 0 { 1.0 } else { -1.0 }).collect::<Vec<_>>()),
        };
        let y = s.target().to_vec();
        if pat == 2 {
            loc.check(s.shape() == (n, 1) && (0..n).all(|i| y[i] == if i < n / 2 { 1.0 } else { -1.0 }), || format!("dummy sample of {n} rows: shape {:?}, labels {y:?}", s.shape()));
        }
        let bad = match guarded(|| BadBaseLearnerBuilder::new(&s).nu(nu).tolerance(tol).build()) {
            Ok(b) => b,
            Err(e) => {
                loc.viol(format!("building: {e}"));
                return;
            }
        };
        let q = if n <= 4 { 6 } else if n <= 8 { 3 } else { 2 };
        let grid = simplex_grid(n, q);
        let mut seen: Vec<Vec<f64>> = vec![];
        let mut answers = vec![];
        for d in &grid {
            match guarded(|| bad.produce(&s, d).confidence_all(&s)) {
                Err(e) => {
                    loc.viol(format!("weights {d:?}: {e}"));
                    return;
                }
                Ok(c) => {
                    if !seen.contains(&c) {
                        seen.push(c.clone());
                    }
                    answers.push(c);
                }
            }
        }
        for (d, c) in grid.iter().zip(&answers) {
            loc.trace();
            loc.step();
            loc.state(&canon(d));
            loc.check(c.iter().all(|x| x.abs() <= 1.0 + 1e-12), || format!("confidences {c:?}"));
            let e = edge(&y, d, c);
            let class = bad_class(&y, nu, tol);
            loc.check(class.iter().any(|k| close_vec(k, c, 1e-14)), || format!("weights {d:?}: answered {c:?}, which is not in the class"));
            for o in class.iter().chain(&seen) {
                loc.check(e >= edge(&y, d, o) - 1e-13, || format!("weights {d:?}: answered {c:?} with edge {e}, but {o:?} has {}", edge(&y, d, o)));
            }
        }
        loc.outcome(&seen.len());
        // LPBoost needs more than half as many rounds as there are examples.
        if nu == 1.0 && tol == 0.05 && y.iter().any(|v| *v != y[0]) {
            let wl = Counting { inner: &bad, log: RefCell::new(vec![]) };
            let r = guarded(|| {
                let _ = LPBoost::init(&s).nu(nu).tolerance(tol).run(&wl);
            });
            let rounds = wl.log.borrow().len();
            loc.max("LPBoost rounds", rounds as f64);
            loc.check(r.is_ok() && 2 * rounds > n, || format!("LPBoost finished after {rounds} rounds: {r:?}"));
        }
        loc.sample(json!({"n": n, "nu": nu, "classifiers seen": seen}));
    });
    // Longer samples: block weights and the weights LPBoost comes to.
    let mut cases: Vec<(usize, f64, f64, u8)> = vec![];
    let sizes: Vec<usize> = if run.quick() { (9..=48).chain([60, 81, 100]).collect() } else { (9..=140).collect() };
    for &n in &sizes {
        for nu in [1.0, 1.25, 2.0, 3.5, 5.0, n as f64 / 3.0, n as f64 / 2.0, n as f64 - 0.5, n as f64] {
            for (i, tol) in [1e-9, 1e-4, 0.01, 0.05, 0.3].into_iter().enumerate() {
                cases.push((n, nu, tol, (i % 3) as u8));
            }
        }
    }
    run.explore("long", &cases, |c| format!("n{},nu{},tol{},pat{}", c.0, c.1, c.2, c.3), |&(n, nu, tol, pat), loc| {
        let s = match pat {
            2 => Sample::dummy(n),
            1 => row_sample(&(0..n).map(|i| if (i * 7) % 5 < 2 { 1.0 } else { -1.0 }).collect::<Vec<_>>()),
            _ => row_sample(&(0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect::<Vec<_>>()),
        };
        let y = s.target().to_vec();
        if pat == 2 {
            loc.check(s.shape() == (n, 1) && (0..n).all(|i| y[i] == if i < n / 2 { 1.0 } else { -1.0 }), || format!("dummy sample of {n} rows: shape {:?}, labels {y:?}", s.shape()));
        }
        let bad = match guarded(|| BadBaseLearnerBuilder::new(&s).nu(nu).tolerance(tol).build()) {
            Ok(b) => b,
            Err(e) => {
                loc.viol(format!("building: {e}"));
                return;
            }
        };
        let class = bad_class(&y, nu, tol);
        let judge = |d: &[f64], loc: &mut Local| match guarded(|| bad.produce(&s, d).confidence_all(&s)) {
            Err(e) => loc.viol(format!("weights {d:?}: {e}")),
            Ok(c) => {
                loc.trace();
                loc.step();
                loc.state(&canon(d));
                let which = class.iter().position(|k| close_vec(k, &c, 1e-14));
                loc.outcome(&which);
                match which {
                    None => loc.viol(format!("weights {d:?}: answered {c:?}, which is not in the class")),
                    Some(k) => {
                        let e = edge(&y, d, &c);
                        for o in &class {
                            let f = edge(&y, d, o);
                            loc.check(e >= f - 1e-13, || format!("weights {d:?}: answered number {k} with edge {e}, another has {f}"));
                        }
                    }
                }
            }
        };
        // Uniform weights on every block of rows, and mixtures of two blocks' ends.
        let stride = if n > 20 { 3 } else { 1 };
        for a in (0..n).step_by(stride) {
            for b in (a + 1..=n).step_by(stride) {
                let d: Vec<f64> = (0..n).map(|i| if i >= a && i < b { 1.0 / (b - a) as f64 } else { 0.0 }).collect();
                judge(&d, loc);
                if b < n {
                    let q = [0.5, 0.25, 0.9][(a + b) % 3];
                    let d: Vec<f64> = (0..n).map(|i| if i == b { 1.0 - q } else if i >= a && i < b { q / (b - a) as f64 } else { 0.0 }).collect();
                    judge(&d, loc);
                }
            }
        }
        if tol == 0.05 || tol == 0.01 {
            let wl = Counting { inner: &bad, log: RefCell::new(vec![]) };
            let r = guarded(|| {
                let _ = LPBoost::init(&s).nu(nu).tolerance(tol).run(&wl);
            });
            loc.check(r.is_ok(), || format!("LPBoost: {r:?}"));
            let log = wl.log.into_inner();
            for d in &log {
                judge(d, loc);
            }
            loc.max("LPBoost rounds", log.len() as f64);
            // (Beyond a hundred examples the LP solver's own precision decides.)
            if n <= 100 && nu == 1.0 && tol == 0.05 && y.iter().any(|v| *v != y[0]) {
                loc.check(2 * log.len() > n, || format!("LPBoost finished after {} rounds", log.len()));
            }
        }
    });
    // Hundreds of examples: all the weight on one row, on two, or on a block.
    let mut cases: Vec<(usize, f64, f64)> = vec![];
    for n in run.pick(vec![257usize, 512, 515, 1030], vec![255, 256, 257, 258, 511, 512, 513, 515, 700, 1030, 1500]) {
        for nu in [1.0, 2.5, n as f64 / 3.0, n as f64] {
            for tol in [1e-4, 0.05] {
                cases.push((n, nu, tol));
            }
        }
    }
    run.explore("large", &cases, |c| format!("n{},nu{},tol{}", c.0, c.1, c.2), |&(n, nu, tol), loc| {
        let s = row_sample(&(0..n).map(|i| if (i * 7) % 5 < 2 { 1.0 } else { -1.0 }).collect::<Vec<_>>());
        let y = s.target().to_vec();
        let bad = match guarded(|| BadBaseLearnerBuilder::new(&s).nu(nu).tolerance(tol).build()) {
            Ok(b) => b,
            Err(e) => return loc.viol(format!("building: {e}")),
        };
        let class = bad_class(&y, nu, tol);
        let mut plans: Vec<Vec<(usize, f64)>> = vec![];
        let stride = 1 + n / 260;
        for r in 0..n {
            if r % stride == 0 || r + 3 > n || r == n.div_ceil(2) || r < 3 {
                plans.push(vec![(r, 1.0)]);
                plans.push(vec![(r, 0.75), ((r * 37 + 11) % n, 0.25)]);
            }
        }
        for k in 1..6 {
            plans.push((0..n).filter(|i| i % k == 0).map(|i| (i, 1.0 / n.div_ceil(k) as f64)).collect());
            plans.push((k * n / 8..n).map(|i| (i, 1.0 / (n - k * n / 8) as f64)).collect());
        }
        for plan in plans {
            let mut d = vec![0.0; n];
            for (i, w) in &plan {
                d[*i] += w;
            }
            let c = match guarded(|| bad.produce(&s, &d).confidence_all(&s)) {
                Ok(c) => c,
                Err(e) => return loc.viol(format!("weights {plan:?}: {e}")),
            };
            loc.trace();
            loc.step();
            loc.state(&canon(&d));
            let Some(k) = class.iter().position(|k| close_vec(k, &c, 1e-14)) else {
                return loc.viol(format!("weights {plan:?}: the answer is not in the class"));
            };
            loc.outcome(&k);
            let on = |c: &[f64]| plan.iter().map(|(i, w)| w * y[*i] * c[*i]).sum::<f64>();
            let e = on(&c);
            if let Some(f) = class.iter().map(|o| on(o)).find(|f| *f > e + 1e-12) {
                return loc.viol(format!("weights {plan:?}: answered number {k} with edge {e}, another has {f}"));
            }
        }
    });
    run.rule = "state = point of a simplex grid per (examples, nu, tolerance, labeling); the answer compared with every classifier the learner ever answers".into();
}

// ---------------------------------------------------------------- C25

/// A regressor and a classifier given by one table.
#[derive(Clone, Debug)]
struct Both(usize, Vec<f64>);
impl Classifier for Both {
    fn confidence(&self, _: &Sample, row: usize) -> f64 {
        self.1[row]
    }
}

#[derive(Clone)]
struct BothR(usize, Vec<f64>);
impl Regressor for BothR {
    fn predict(&self, _: &Sample, row: usize) -> f64 {
        self.1[row]
    }
}

pub fn c25(run: &mut Run) {
    // Operation sequences on weighted majorities against a list of pairs.
    let m = 3;
    let tables: Vec<Vec<f64>> = vec![vec![1.0, -1.0, 0.0], vec![-1.0, 0.5, -0.25], vec![0.5, 0.5, 1.0]];
    let ws: Vec<f64> = run.pick(vec![0.0, 1.0, -0.5, 3.0], vec![0.0, 1.0, -0.5, 3.0, 1e-9]);
    let depth = run.pick(4, 5);
    let mut inits: Vec<Vec<(f64, usize)>> = vec![vec![]];
    for len in 1..=3usize {
        for w in vectors(&[0.0, 1.0, -0.5, 2.0], len) {
            for h in sequences(3, len) {
                if w.iter().any(|x| *x != 0.0) {
                    inits.push(w.iter().copied().zip(h).collect());
                }
            }
        }
    }
    let quick = false;
    if quick {
        inits = inits.into_iter().enumerate().filter(|(i, x)| x.len() < 3 || i % 5 == 0).map(|x| x.1).collect();
    }
    // operations: push (w, h) = 0.., normalize = last
    let nops = ws.len() * 3 + 1;
    run.explore("majority", &inits, |i| format!("from{i:?}").replace(' ', ""), |init, loc| {
        let s = row_sample(&[1.0, -1.0, 1.0]);
        let d = if init.len() >= 3 { depth - 2 } else { depth - 1 };
        for len in 0..=d {
            for ops in sequences(nops, len) {
                // The reference: a list of votes.
                let mut votes: Vec<(f64, usize)> = init.iter().copied().filter(|v| v.0 != 0.0).collect();
                let norm = |v: &mut Vec<(f64, usize)>| {
                    let t: f64 = v.iter().map(|x| x.0.abs()).sum();
                    for x in v.iter_mut() {
                        x.0 /= t;
                    }
                    t > 0.0
                };
                let mut defined = true;
                if !init.is_empty() {
                    defined &= norm(&mut votes);
                }
                for o in &ops {
                    if *o == nops - 1 {
                        defined &= norm(&mut votes);
                    } else {
                        votes.push((ws[o / 3], o % 3));
                    }
                }
                if !defined {
                    continue;
                }
                let go = |hs: &dyn Fn(usize) -> Both| {
                    let (w, h): (Vec<f64>, Vec<Both>) = init.iter().map(|(w, j)| (*w, hs(*j))).unzip();
                    let mut f = if init.is_empty() { WeightedMajority { weights: vec![], hypotheses: vec![] } } else { WeightedMajority::from_slices(&w, &h) };
                    for o in &ops {
                        if *o == nops - 1 {
                            f.normalize();
                        } else {
                            f.push(ws[o / 3], hs(o % 3));
                        }
                    }
                    f
                };
                let r = guarded(|| {
                    let f = go(&|j| Both(j, tables[j].clone()));
                    let c = f.confidence_all(&s);
                    let p = f.predict_all(&s);
                    let (w, h) = f.decompose();
                    // The same votes over regressors.
                    let g = WeightedMajority { weights: w.clone(), hypotheses: h.iter().map(|b| BothR(b.0, b.1.clone())).collect::<Vec<_>>() };
                    let q: Vec<f64> = g.predict_all(&s);
                    (c, p, w, h.iter().map(|b| b.0).collect::<Vec<_>>(), q)
                });
                loc.trace();
                loc.steps(ops.len() + 1);
                let (c, p, w, h, q) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        loc.viol(format!("operations {ops:?}: {e}"));
                        continue;
                    }
                };
                loc.state(&(canon(&w), h.clone()));
                let (rw, rh): (Vec<f64>, Vec<usize>) = votes.iter().copied().unzip();
                loc.check(close_vec(&w, &rw, 1e-12) && h == rh, || format!("operations {ops:?}: votes {w:?} on {h:?}, expected {rw:?} on {rh:?}"));
                for i in 0..m {
                    let v: f64 = votes.iter().map(|(w, j)| w * tables[*j][i]).sum();
                    loc.check(close(c[i], v, 1e-12) && close(q[i], v, 1e-12), || format!("operations {ops:?}: row {i}: confidence {}, regression {}, expected {v}", c[i], q[i]));
                    loc.check(p[i] == if c[i] >= 0.0 { 1 } else { -1 } && (v.abs() < 1e-12 || p[i] == if v > 0.0 { 1 } else { -1 }), || format!("operations {ops:?}: row {i}: confidence {}, label {}", c[i], p[i]));
                }
                loc.outcome(&(canon(&c), p));
            }
        }
        loc.sample(json!({"from_slices": init}));
    });
    // Serialised models predict the same.
    let mut tabs: Vec<Vec<Vec<f64>>> = vec![];
    for c in vectors(&[0.0, 1.0, 5.0], 3) {
        tabs.push(vec![c]);
    }
    for c in vectors(&[0.1, 1.0 / 3.0], 4) {
        tabs.push(vec![c, vec![0.0, -1.0, 7.3, 7.3]]);
    }
    if !quick {
        for c in vectors(&[0.0, 1.0, -2.5, 1e-7], 4) {
            tabs.push(vec![c]);
        }
        for c in vectors(&[0.0, 0.3, 1e9], 5) {
            tabs.push(vec![c, vec![0.1, 0.2, 0.3, 0.4, 0.5]]);
        }
    }
    let scratch = Scratch::new("c25");
    let dir = scratch.0.clone();
    run.explore("serde", &tabs, |t| t.iter().map(|c| fmt_v(c)).collect::<Vec<_>>().join("/"), |cols, loc| {
        let n = cols[0].len();
        let loc_key = loc.key().to_string();
        for y in vectors(&[-1.0, 1.0], n) {
            let s = dense_sample(cols, &y);
            // In between and outside, too.
            let pc: Vec<Vec<f64>> = cols
                .iter()
                .map(|c| c.iter().flat_map(|x| [*x, x + 0.37, x - 1000.0, x * 1.6]).collect())
                .collect();
            let probes = dense_sample(&pc, &vec![1.0; 4 * n]);
            for d in [vec![1.0 / n as f64; n], (0..n).map(|i| (i + 1) as f64 / (n * (n + 1) / 2) as f64).collect()] {
                let r = guarded(|| {
                    let mut bad = vec![];
                    let mut cmp = |name: &str, a: Vec<f64>, b: Result<Vec<f64>, String>| {
                        if !matches!(&b, Ok(b) if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, 1e-12))) {
                            bad.push(format!("{name}: {a:?} became {b:?}"));
                        }
                    };
                    let mut trees = vec![];
                    for depth in 1..=2 {
                        for crit in [Criterion::Entropy, Criterion::Edge] {
                            let t = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &d);
                            let j = serde_json::to_string(&t).map_err(|e| e.to_string());
                            let back: Result<DecisionTreeClassifier, String> = j.and_then(|j| serde_json::from_str(&j).map_err(|e| e.to_string()));
                            cmp("decision tree", t.confidence_all(&probes), back.map(|t| t.confidence_all(&probes)));
                            let path = own(&dir).join(format!("{}.dot", hash_of(&loc_key)));
                            let w = t.to_dot_file(&path).map_err(|e| e.to_string());
                            dot_same("decision tree", w, &path, &probes, &t.confidence_all(&probes), &mut |a, b, c| cmp(a, b, c));
                            trees.push(t);
                        }
                    }
                    for levels in 1..=3 {
                        let preds: Vec<f64> = (0..n).map(|i| 0.1 * i as f64).collect();
                        let t = RegressionTreeBuilder::new(&s).max_depth(levels).loss(GBMLoss::L2).build().produce(&s, &preds);
                        let j = serde_json::to_string(&t).map_err(|e| e.to_string());
                        let back: Result<RegressionTreeRegressor, String> = j.and_then(|j| serde_json::from_str(&j).map_err(|e| e.to_string()));
                        cmp("regression tree", t.predict_all(&probes), back.map(|t| t.predict_all(&probes)));
                        let path = own(&dir).join(format!("{}.dot", hash_of(&loc_key)));
                        let w = t.to_dot_file(&path).map_err(|e| e.to_string());
                        dot_same("regression tree", w, &path, &probes, &t.predict_all(&probes), &mut |a, b, c| cmp(a, b, c));
                    }
                    if cols.iter().all(|c| (0..n).all(|i| (0..n).any(|j| y[i] == y[j] && c[i] != c[j]))) {
                        let t = GaussianNB::init().produce(&s, &d);
                        cmp("naive Bayes", t.confidence_all(&probes), json_again(&t).map(|t| t.confidence_all(&probes)));
                    }
                    let w: Vec<f64> = (0..trees.len()).map(|i| [0.1, -1.0 / 3.0, 0.7, 2.0][i]).collect();
                    let f = WeightedMajority::from_slices(&w, &trees);
                    let j = serde_json::to_string(&f).map_err(|e| e.to_string());
                    let back: Result<WeightedMajority<DecisionTreeClassifier>, String> = j.and_then(|j| serde_json::from_str(&j).map_err(|e| e.to_string()));
                    cmp("weighted majority", f.confidence_all(&probes), back.map(|t| t.confidence_all(&probes)));
                    (bad, f.confidence_all(&probes))
                });
                loc.trace();
                loc.step();
                loc.state(&(canon(&y), canon(&d)));
                match r {
                    Err(e) => loc.viol(format!("labels {y:?}: {e}")),
                    Ok((bad, c)) => {
                        loc.outcome(&canon(&c));
                        loc.check(bad.is_empty(), || format!("labels {y:?}, weights {d:?}: {}", bad.join("; ")));
                    }
                }
            }
        }
        loc.sample(json!({"columns": cols}));
    });
    long_majority(run);
    saved_large(run, &dir);
    drop(scratch);
    run.rule = "state = list of votes reached by a sequence of operations; (labels, weights) of a model written to JSON and read back".into();
}

/// Many votes of many magnitudes.
fn long_majority(run: &mut Run) {
    const W: [(&str, fn(usize) -> f64); 8] = [
        ("alternating", |i| if i % 2 == 0 { 1.0 } else { -1.0 }),
        ("halving", |i| 0.5f64.powi(i as i32)),
        ("magnitudes", |i| [1.0, 1e-9, -3e7, 0.25, -1e-15, 12.0, 1e-300][i % 7]),
        ("zeros", |i| if i % 3 == 1 { 0.0 } else { (i % 5) as f64 - 2.5 }),
        ("hash", |i| ((i * 7919 + 5) % 1009) as f64 / 400.0 - 1.0),
        ("negative", |_| -0.3),
        ("tiny", |i| 1e-13 * (1.0 + (i % 4) as f64)),
        ("one large", |i| if i == 3 { 1e12 } else { 1.0 + i as f64 }),
    ];
    // (from_slices takes the first .0 in so many parts, normalise after every .1 pushes, at the end)
    const PLAN: [(usize, usize, bool); 7] = [(1, 0, false), (1, 0, true), (2, 0, false), (2, 0, true), (3, 1, true), (3, 4, false), (4, 10, true)];
    let ns: Vec<usize> = if run.quick() { vec![4, 5, 8, 9, 17, 33, 64, 65, 100, 129, 257, 400] } else { (4..=140).chain([200, 255, 256, 257, 300, 511, 513, 1000, 2000]).collect() };
    let mut cases = vec![];
    for n in ns {
        for w in 0..W.len() {
            for p in 0..PLAN.len() {
                cases.push((n, w, p));
            }
        }
    }
    run.explore("votes", &cases, |c| format!("n{},{},plan{}", c.0, W[c.1].0, c.2), |&(n, wi, pi), loc| {
        let m = 7;
        let s = row_sample(&[1.0, -1.0, 1.0, -1.0, -1.0, 1.0, 1.0]);
        let table = |j: usize| -> Vec<f64> { (0..m).map(|i| if (i + j) % 6 == 0 { 0.0 } else { ((j * 7 + i * 3 + j / 11) % 11) as f64 / 5.0 - 1.0 }).collect() };
        // The same hypothesis may come several times.
        let id = |i: usize| i % 40;
        let (parts, every, end) = PLAN[pi];
        let k = (n / parts).max(4);
        let all: Vec<f64> = (0..n).map(W[wi].1).collect();
        let norm = |v: &mut Vec<(f64, usize)>| {
            let t: f64 = v.iter().map(|x| x.0.abs()).sum();
            v.iter_mut().for_each(|x| x.0 /= t);
        };
        let mut votes: Vec<(f64, usize)> = (0..k).map(|i| (all[i], id(i))).filter(|v| v.0 != 0.0).collect();
        norm(&mut votes);
        for i in k..n {
            votes.push((all[i], id(i)));
            if every > 0 && (i - k + 1) % every == 0 {
                norm(&mut votes);
            }
        }
        if end {
            norm(&mut votes);
        }
        let r = guarded(|| {
            let h: Vec<Both> = (0..k).map(|i| Both(id(i), table(id(i)))).collect();
            let mut f = WeightedMajority::from_slices(&all[..k], &h);
            for i in k..n {
                f.push(all[i], Both(id(i), table(id(i))));
                if every > 0 && (i - k + 1) % every == 0 {
                    f.normalize();
                }
            }
            if end {
                f.normalize();
            }
            let g = WeightedMajority { weights: f.weights.clone(), hypotheses: f.hypotheses.iter().map(|b| BothR(b.0, b.1.clone())).collect::<Vec<_>>() };
            let q: Vec<f64> = (0..m).map(|i| g.predict(&s, i)).collect();
            let one: Vec<f64> = (0..m).map(|i| f.confidence(&s, i)).collect();
            (f.confidence_all(&s), f.predict_all(&s), q, one, f.decompose())
        });
        loc.trace();
        loc.steps(n);
        let (c, p, q, one, (w, h)) = match r {
            Ok(x) => x,
            Err(e) => return loc.viol(e),
        };
        loc.state(&canon(&w));
        let h: Vec<usize> = h.iter().map(|b| b.0).collect();
        loc.check(h == votes.iter().map(|v| v.1).collect::<Vec<_>>() && w.len() == h.len() && w.iter().zip(&votes).all(|(a, v)| (a - v.0).abs() <= 1e-11 * v.0.abs()), || format!("votes {} for {}: {:?}...", w.len(), votes.len(), w.iter().zip(&votes).find(|(a, v)| (*a - v.0).abs() > 1e-11 * v.0.abs())));
        for i in 0..m {
            let terms: Vec<f64> = votes.iter().map(|(w, j)| w * table(*j)[i]).collect();
            let (v, size) = (terms.iter().sum::<f64>(), terms.iter().map(|x| x.abs()).sum::<f64>());
            for x in [c[i], q[i], one[i]] {
                loc.check((x - v).abs() <= 1e-11 * size, || format!("row {i}: {x}, expected {v}"));
            }
            loc.check(p[i] == if c[i] >= 0.0 { 1 } else { -1 } && (v.abs() <= 1e-11 * size || p[i] == if v > 0.0 { 1 } else { -1 }), || format!("row {i}: confidence {}, label {}", c[i], p[i]));
        }
        loc.outcome(&(canon(&c), p));
    });
}

/// Larger models, written and read back.
fn saved_large(run: &mut Run, dir: &std::path::Path) {
    use crate::p_tree::*;
    let quick = run.quick();
    let cases: Vec<Big> = bigs(quick).into_iter().enumerate().filter(|(i, b)| if quick { b.n <= 300 && i % 2 == 0 } else { b.n <= 700 }).map(|x| x.1).collect();
    run.explore("saved", &cases, big_key, |b, loc| {
        let Some(m) = make_big(b) else { return };
        let n = b.n;
        let y: Vec<f64> = (0..n).map(|i| if (i * 2654435761) % 7 < 3 { 1.0 } else { -1.0 }).collect();
        let s = big_sample(b, &m, dir, loc.key(), &y);
        let total: f64 = (0..n).map(|i| 1.0 + (i % 3) as f64).sum();
        let d: Vec<f64> = (0..n).map(|i| (1.0 + (i % 3) as f64) / total).collect();
        let path = own(&dir).join(format!("{}.dot", hash_of(&loc.key().to_string())));
        let r = guarded(|| {
            let mut bad: Vec<String> = vec![];
            let mut cmp = |name: &str, a: Vec<f64>, b: Result<Vec<f64>, String>| match b {
                // JSON numbers come back within an ulp, which columns of a small spread magnify.
                Ok(b) if a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || close(*x, *y, if name.ends_with("probabilities") { 1e-5 } else { 1e-12 })) => {}
                Ok(b) => bad.push(format!("{name}: {:?}", a.iter().zip(&b).position(|(x, y)| !close(*x, *y, 1e-12)).map(|i| (i, a[i], b[i])))),
                Err(e) => bad.push(format!("{name}: {e}")),
            };
            let probes = &m.psample;
            let mut trees = vec![];
            for depth in [1usize, 2, 4, 7] {
                for crit in [Criterion::Entropy, Criterion::Gini] {
                    let t = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &d);
                    let own = t.confidence_all(probes);
                    cmp("decision tree", own.clone(), json_again(&t).map(|t| t.confidence_all(probes)));
                    if b.names < 2 {
                        let w = t.to_dot_file(&path).map_err(|e| e.to_string());
                        dot_same("decision tree", w, &path, probes, &own, &mut |a, b, c| cmp(a, b, c));
                    }
                    trees.push(t);
                }
            }
            let mut regs = vec![];
            let preds: Vec<f64> = (0..n).map(|i| (i as f64).cos()).collect();
            for levels in [2usize, 3, 6] {
                let t = RegressionTreeBuilder::new(&s).max_depth(levels).loss(GBMLoss::L2).build().produce(&s, &preds);
                let own = t.predict_all(probes);
                cmp("regression tree", own.clone(), json_again(&t).map(|t| t.predict_all(probes)));
                if b.names < 2 {
                    let w = t.to_dot_file(&path).map_err(|e| e.to_string());
                    dot_same("regression tree", w, &path, probes, &own, &mut |a, b, c| cmp(a, b, c));
                }
                regs.push(t);
            }
            let varies = |v: f64| m.cols.iter().all(|c| (0..n).any(|i| (0..i).any(|j| y[i] == v && y[j] == v && c[i] != c[j])));
            // A naive Bayes classifier reads the columns by position.
            if varies(1.0) && varies(-1.0) {
                let t = GaussianNB::init().produce(&s, &d);
                cmp("naive Bayes", t.confidence_all(&s), json_again(&t).map(|t| t.confidence_all(&s)));
                let p: Vec<f64> = (0..n).flat_map(|i| t.probabilities(&s, i).into_iter().flat_map(|x| [x.0, x.1])).collect();
                cmp("naive Bayes probabilities", p, json_again(&t).map(|t| (0..n).flat_map(|i| t.probabilities(&s, i).into_iter().flat_map(|x| [x.0, x.1])).collect()));
                let f = WeightedMajority::from_slices(&[0.3, -0.7], &[t.clone(), t]);
                cmp("majority of naive Bayes", f.confidence_all(&s), json_again(&f).map(|t| t.confidence_all(&s)));
            }
            let w: Vec<f64> = (0..trees.len()).map(|i| [0.1, -1.0 / 3.0, 0.7, 1e-9, 2.0, -5.5, 0.125, 1e-3][i]).collect();
            let f = WeightedMajority::from_slices(&w, &trees);
            cmp("majority of trees", f.confidence_all(probes), json_again(&f).map(|t| t.confidence_all(probes)));
            let g = WeightedMajority { weights: vec![1e-3, 17.0, -2.0 / 3.0], hypotheses: regs };
            cmp("combination of regression trees", g.predict_all(probes), json_again(&g).map(|t| t.predict_all(probes)));
            let again = json_again(&g).map(|t| t.decompose().0);
            cmp("its weights", g.weights.clone(), again);
            let ff = WeightedMajority::from_slices(&[0.6, -0.4], &[f.clone(), f]);
            cmp("majority of majorities", ff.confidence_all(probes), json_again(&ff).map(|t| t.confidence_all(probes)));
            (bad, ff.confidence_all(probes))
        });
        loc.trace();
        loc.step();
        loc.state(&big_key(b));
        match r {
            Err(e) => loc.viol(e),
            Ok((bad, c)) => {
                loc.outcome(&canon(&c));
                loc.check(bad.is_empty(), || bad.join("; "));
            }
        }
        let _ = std::fs::remove_file(&path);
    });
}

fn json_again<T: serde::Serialize + serde::de::DeserializeOwned>(t: &T) -> Result<T, String> {
    let j = serde_json::to_string(t).map_err(|e| e.to_string())?;
    serde_json::from_str(&j).map_err(|e| e.to_string())
}

/// The tree drawn in a DOT file, evaluated at the probes; thresholds are
/// written with two decimals, so probes close to one keep the tree's own value.
fn dot_same(name: &str, wrote: Result<(), String>, path: &std::path::Path, probes: &Sample, own: &[f64], cmp: &mut dyn FnMut(&str, Vec<f64>, Result<Vec<f64>, String>)) {
    let label = format!("{name} as DOT");
    let read = || -> Result<Vec<f64>, String> {
        wrote?;
        let body = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(path);
        let inner = body.split_once('{').and_then(|x| x.1.rsplit_once('}')).ok_or("no graph")?.0;
        let mut rules = std::collections::HashMap::new();
        let mut edges = std::collections::HashMap::new();
        let mut targets = std::collections::HashSet::new();
        for st in inner.split(";\n") {
            let st = st.trim();
            if st.is_empty() {
                continue;
            }
            let (head, attrs) = st.split_once('[').ok_or("no attributes")?;
            let text = attrs.split('"').nth(1).ok_or("no label")?;
            let head: Vec<&str> = head.split_whitespace().collect();
            match head[..] {
                [a] => {
                    if rules.insert(a.to_string(), text.to_string()).is_some() {
                        return Err(format!("node {a} twice"));
                    }
                }
                [a, "--", b] => {
                    edges.insert((a.to_string(), text == "Yes"), b.to_string());
                    if !targets.insert(b.to_string()) {
                        return Err(format!("two edges into {b}"));
                    }
                }
                _ => return Err(format!("statement {st:?}")),
            }
        }
        let roots: Vec<&String> = rules.keys().filter(|k| !targets.contains(*k)).collect();
        if roots.len() != 1 || edges.len() + 1 != rules.len() {
            return Err(format!("{} roots, {} nodes, {} edges", roots.len(), rules.len(), edges.len()));
        }
        let mut out = vec![];
        for row in 0..own.len() {
            let mut at = roots[0].clone();
            let v = loop {
                let text = &rules[&at];
                match text.strip_suffix(" ?").and_then(|t| t.rsplit_once(" < ")) {
                    None => break text.parse::<f64>().map_err(|e| e.to_string())?,
                    Some((feat, thr)) => {
                        let thr: f64 = thr.parse().map_err(|_| "threshold")?;
                        let x = probes[feat][row];
                        if (x - thr).abs() < 0.0051 {
                            break own[row];
                        }
                        at = edges.get(&(at, x < thr)).ok_or("missing edge")?.clone();
                    }
                }
            };
            out.push(v);
        }
        // So are the values of a regression tree's leaves.
        Ok(out.iter().zip(own).map(|(a, b)| if name == "regression tree" && (a - b).abs() < 0.0051 { *b } else { *a }).collect())
    };
    let r = read();
    cmp(&label, own.to_vec(), r);
}

// ---------------------------------------------------------------- C27

struct Lent<'a, W>(&'a W, std::time::Duration);
impl<W: WeakLearner> WeakLearner for Lent<'_, W> {
    type Hypothesis = W::Hypothesis;
    fn produce(&self, s: &Sample, d: &[f64]) -> W::Hypothesis {
        if !self.1.is_zero() {
            std::thread::sleep(self.1);
        }
        self.0.produce(s, d)
    }
}

/// (training sample?, votes) at every evaluation.
type Seen = RefCell<Vec<(char, (Vec<f64>, Vec<usize>), f64)>>;

struct Probe<'a> {
    seen: &'a Seen,
    train: *const Sample,
}

fn value(tag: char, w: &[f64], ids: &[usize]) -> f64 {
    // Distinct for different votes, and for the three columns.
    let base = match tag {
        'o' => 0.125,
        't' => 7.0,
        _ => -3.0,
    };
    base + w.iter().zip(ids).map(|(w, j)| w * (1.0 + *j as f64).sqrt()).sum::<f64>()
}

impl miniboosts::research::ObjectiveFunction<Wm> for Probe<'_> {
    fn name(&self) -> &str {
        "probe"
    }
    fn eval(&self, s: &Sample, h: &Wm) -> f64 {
        let (w, ids) = wm_parts(h.clone());
        let v = value(if std::ptr::eq(s, self.train) { 'o' } else { 'x' }, &w, &ids);
        self.seen.borrow_mut().push((if std::ptr::eq(s, self.train) { 'o' } else { 'x' }, (w, ids), v));
        v
    }
}

#[derive(Clone, Copy)]
enum Limit {
    None,
    Millis(u128),
    Secs(u64),
    Mins(u64),
}

struct LogRun<'a, W> {
    wl: &'a W,
    nap: std::time::Duration,
    /// How long a look at the training loss takes.
    look: std::time::Duration,
    path: &'a std::path::Path,
    train: &'a Sample,
    test: &'a Sample,
    seen: &'a Seen,
    limit: Limit,
    every: Option<usize>,
    builder: bool,
    twice: bool,
}

type LogOut = Result<((Vec<f64>, Vec<usize>), String), String>;

impl<W: Logged> Visit for LogRun<'_, W> {
    type Out = LogOut;
    fn go<B>(self, b: B) -> LogOut
    where
        B: Booster<TableH, Output = Wm> + miniboosts::research::Research<Output = Wm>,
    {
        use miniboosts::research::{Logger, LoggerBuilder};
        let (train, test, seen, look) = (self.train, self.test, self.seen, self.look);
        let wl = Lent(self.wl, self.nap);
        let obj = Probe { seen, train };
        let loss = |s: &Sample, h: &Wm| {
            let (w, ids) = wm_parts(h.clone());
            let tag = if std::ptr::eq(s, train) { 't' } else if std::ptr::eq(s, test) { 'e' } else { 'x' };
            let v = value(tag, &w, &ids);
            seen.borrow_mut().push((tag, (w, ids), v));
            if tag == 't' && !look.is_zero() {
                std::thread::sleep(look);
            }
            v
        };
        guarded(move || {
            let mut l = if self.builder {
                let mut p = LoggerBuilder::new().test_sample(test).loss_function(loss).booster(b).objective_function(obj).train_sample(train).weak_learner(wl);
                if let Some(n) = self.every {
                    p = p.print_every(n);
                }
                match self.limit {
                    Limit::None => p,
                    Limit::Millis(x) => p.time_limit_as_millis(x),
                    Limit::Secs(x) => p.time_limit_as_secs(x),
                    Limit::Mins(x) => p.time_limit_as_mins(x),
                }
                .build()
            } else {
                let mut p = Logger::new(b, wl, obj, loss, train, test);
                if let Some(n) = self.every {
                    p = p.print_every(n);
                }
                match self.limit {
                    Limit::None => p,
                    Limit::Millis(x) => p.time_limit_as_millis(x),
                    Limit::Secs(x) => p.time_limit_as_secs(x),
                    Limit::Mins(x) => p.time_limit_as_mins(x),
                }
            };
            if self.twice {
                let _ = l.run(self.path).expect("log file");
                seen.borrow_mut().clear();
                self.wl.forget();
            }
            let f = l.run(self.path).expect("log file");
            (wm_parts(f), std::fs::read_to_string(self.path).expect("log file"))
        })
    }
}

fn log_lines(body: &str) -> Result<Vec<[f64; 4]>, String> {
    let rest = body.strip_prefix("ObjectiveValue,TrainLoss,TestLoss,Time\n").ok_or("header")?;
    if !rest.is_empty() && !rest.ends_with('\n') {
        return Err("last line is cut off".into());
    }
    rest.lines()
        .map(|l| {
            let v: Vec<f64> = l.split(',').map(|x| x.parse::<f64>().map_err(|_| format!("line {l:?}"))).collect::<Result<_, _>>()?;
            <[f64; 4]>::try_from(v).map_err(|_| format!("line {l:?}"))
        })
        .collect()
}

/// What must hold of every log: one line per evaluated round, the values shown
/// belong to the hypothesis of that round.
fn log_ok(lines: &[[f64; 4]], seen: &[(char, (Vec<f64>, Vec<usize>), f64)], limit: Option<f64>, stopped_itself: bool) -> Result<(), String> {
    if lines.is_empty() {
        return Err("no line at all".into());
    }
    let find = |tag: char| -> Vec<&(char, (Vec<f64>, Vec<usize>), f64)> { seen.iter().filter(|s| s.0 == tag).collect() };
    if !find('x').is_empty() {
        return Err("evaluated on a sample that is neither the training nor the test sample (or the objective on the test sample)".into());
    }
    let (o, t, e) = (find('o'), find('t'), find('e'));
    if o.len() != lines.len() || t.len() != lines.len() || e.len() != lines.len() {
        return Err(format!("{} lines for {} rounds", lines.len(), o.len().max(t.len()).max(e.len())));
    }
    for (k, l) in lines.iter().enumerate() {
        if o[k].1 != t[k].1 || o[k].1 != e[k].1 {
            return Err(format!("line {}: columns of different hypotheses", k + 1));
        }
        if l[0] != o[k].2 || l[1] != t[k].2 || l[2] != e[k].2 {
            return Err(format!("line {}: {l:?}, evaluated {} {} {}", k + 1, o[k].2, t[k].2, e[k].2));
        }
        if k > 0 && l[3] < lines[k - 1][3] || l[3] < 0.0 || l[3].fract() != 0.0 {
            return Err(format!("line {}: running time {}", k + 1, l[3]));
        }
        if let Some(lim) = limit {
            if k + 1 < lines.len() && l[3] > lim {
                return Err(format!("went on after round {} though {} ms > {lim} ms had passed", k + 1, l[3]));
            }
        }
    }
    let last = lines.last().unwrap()[3];
    if !stopped_itself && !limit.map(|l| last > l).unwrap_or(false) {
        return Err(format!("stopped after {} rounds and {last} ms though neither the booster nor the limit said so", lines.len()));
    }
    Ok(())
}

struct How {
    every: Option<usize>,
    /// Lines that were in the file before.
    old: usize,
    limit: Limit,
    builder: bool,
    twice: bool,
}

/// One logged run against the same run without a logger; the number of answers used.
#[allow(clippy::too_many_arguments)]
fn check_logged(kind: Kind, tol: f64, train: &Sample, test: &Sample, menu: &[TableH], script: &[usize], how: How, path: &std::path::Path, key: String, loc: &mut Local) -> usize {
    let wl = Scripted::new(menu, script.to_vec());
    let plain = with(kind, train, Some(tol), Stepwise { wl: &wl, max_calls: 50_000, want_current: true, want_out: true });
    let used = wl.log.borrow().len();
    if plain.panic.is_some() || plain.current.iter().any(|c| c.is_err()) {
        loc.count("outside: no hypothesis to show");
        return used;
    }
    let seen = RefCell::new(vec![]);
    let wl2 = Scripted::new(menu, script.to_vec());
    let _ = std::fs::write(path, "something longer that was there before\n".repeat(how.old));
    let r = with(kind, train, Some(tol), LogRun { wl: &wl2, nap: Default::default(), look: Default::default(), path, train, test, seen: &seen, limit: how.limit, every: how.every, builder: how.builder, twice: how.twice });
    loc.trace();
    loc.steps(plain.calls);
    let (out, body) = match r {
        Ok(x) => x,
        Err(e) => {
            loc.viol_at(key, e);
            return used;
        }
    };
    let seen = seen.into_inner();
    let lines = match log_lines(&body) {
        Ok(l) => l,
        Err(e) => {
            loc.viol_at(key, format!("log file: {e}"));
            return used;
        }
    };
    if let Err(e) = log_ok(&lines, &seen, None, true) {
        loc.viol_at(key, e);
        return used;
    }
    let same = |a: &(Vec<f64>, Vec<usize>), b: &(Vec<f64>, Vec<usize>)| a.1 == b.1 && close_vec(&a.0, &b.0, 1e-6);
    let shown: Vec<_> = seen.iter().filter(|s| s.0 == 'o').map(|s| s.1.clone()).collect();
    let want: Vec<_> = plain.current.iter().map(|c| c.clone().unwrap()).collect();
    loc.state(&canon(&shown.last().unwrap().0));
    loc.outcome(&lines.len());
    if matches!(kind, Kind::Mlp { .. }) {
        // Its LP is perturbed at random: only the outcome's consistency is comparable.
        if !same(&out, shown.last().unwrap()) {
            loc.viol_at(key, format!("result {out:?}, last line of {:?}", shown.last()));
        }
    } else {
        let differ = shown.iter().zip(&want).position(|(a, b)| !same(a, b));
        let plain_out = plain.out.clone().unwrap();
        if shown.len() != want.len() || differ.is_some() {
            let k = differ.unwrap_or(0);
            loc.viol_at(key, format!("logged {} lines, the booster went through {} rounds; line {}: {:?}, {:?}", shown.len(), want.len(), k + 1, shown[k], want[k]));
        } else if !matches!(&plain_out, Ok(p) if same(p, &out)) {
            loc.viol_at(key, format!("result {out:?}, without a logger {plain_out:?}"));
        }
    }
    used
}

pub fn c27(run: &mut Run) {
    let quick = run.quick();
    let scratch = Scratch::new("c27");
    let dir = scratch.0.clone();
    // Logged runs equal plain runs, and every line describes its round.
    let mut cases: Vec<(Kind, Vec<f64>, usize)> = vec![];
    for y in labelings(2) {
        for k in all_kinds(2, &[1.0, 1.5, 2.0]) {
            cases.push((k, y.clone(), run.pick(2, 3)));
        }
    }
    for y in [vec![1.0, -1.0, 1.0], vec![-1.0, 1.0, 1.0]] {
        for k in all_kinds(3, &[1.0, 2.0]) {
            cases.push((k, y.clone(), run.pick(1, 2)));
        }
    }
    run.explore("lines", &cases, |c| format!("{},y={},depth{}", c.0.name(), fmt_y(&c.1), c.2), |(kind, y, depth), loc| {
        let m = y.len();
        let train = row_sample(y);
        let other: Vec<f64> = y.iter().map(|v| -v).collect();
        let turned: Vec<f64> = y.iter().rev().copied().collect();
        // Fewer rows than the training sample, and as many with other labels.
        let tests = [row_sample(&y[..m - 1]), row_sample(&other), row_sample(&turned), row_sample(&other[..1])];
        let menu = menu(&vectors(&[-1.0, 0.5, 1.0], m));
        let path = own(&dir).join(format!("{}.csv", hash_of(&loc.key().to_string())));
        let mut n = 0usize;
        each_script(menu.len(), *depth, None, |script| {
            n += 1;
            let how = How {
                every: [None, Some(1), Some(3), Some(usize::MAX), Some(1_000_000)][n % 5],
                old: n % 3,
                limit: if n % 2 == 0 { Limit::None } else { Limit::Secs(3600) },
                builder: n % 4 < 2,
                twice: n % 3 == 0,
            };
            let key = format!("{}#{}", loc.key(), fmt_i(script));
            let long: Vec<usize> = (0..40).map(|i| script[i % script.len()]).collect();
            let used = check_logged(*kind, 0.5, &train, &tests[n % tests.len()], &menu, &long, how, &path, key, loc).min(script.len());
            used
        });
        let _ = std::fs::remove_file(&path);
        loc.sample(json!({"booster": kind.name(), "labels": y}));
    });
    // Longer runs on longer samples, test samples of any length.
    let mut cases = vec![];
    for m in run.pick(vec![7, 16], vec![7, 12, 16, 33]) {
        for (wi, w) in crate::wide::wides(m).into_iter().enumerate() {
            let w = std::sync::Arc::new(w);
            for (ki, kind) in all_kinds(m, &[1.0, 2.5, m as f64 - 0.5]).into_iter().enumerate() {
                let tol = match kind {
                    Kind::Ada | Kind::AdaV | Kind::Mada | Kind::Smooth { .. } => [0.4, 0.15, 0.08][(wi + ki) % 3],
                    _ if quick && (wi + ki) % 4 != 0 => continue,
                    _ => [0.4, 0.2][(wi + ki) % 2],
                };
                cases.push((kind, tol, w.clone()));
            }
        }
    }
    run.explore("long", &cases, |c| format!("{},tol{},{}", c.0.name(), c.1, c.2.name), |(kind, tol, w), loc| {
        let m = w.m;
        let y = crate::wide::labels(m)[w.us.len() % 3].clone();
        let menu = menu(&w.us.iter().map(|u| margins(&y, u)).collect::<Vec<_>>());
        let train = row_sample(&y);
        let path = own(&dir).join(format!("{}.csv", hash_of(&loc.key().to_string())));
        for (n, script) in crate::wide::lassos(menu.len(), 2, 4000).into_iter().enumerate() {
            if quick && n % 3 != 0 {
                continue;
            }
            let other: Vec<f64> = y.iter().map(|v| -v).collect();
            let test = row_sample(&[&y[..1], &y[..m - 1], &[y[0], y[0], -1.0], &other[..]][n % 4][..]);
            let first = edge(&y, &vec![1.0 / m as f64; m], &menu[script[0]].conf);
            if first <= kind.needs_edge(*tol) + 1e-6 {
                loc.count("outside: first answer without edge");
                continue;
            }
            let how = How { every: [None, Some(1), Some(7), Some(100), Some(usize::MAX)][n % 5], old: [0, 1, 3000][n % 3], limit: [Limit::None, Limit::Millis(u128::MAX), Limit::Mins(60)][(n + m) % 3], builder: n % 2 == 0, twice: n % 4 == 0 };
            let key = format!("{}#{}", loc.key(), fmt_i(&script[..4]));
            check_logged(*kind, *tol, &train, &test, &menu, &script, how, &path, key, loc);
        }
        let _ = std::fs::remove_file(&path);
    });
    // Time limits, with a learner that takes its time.
    let mut limits: Vec<(Kind, u64, Limit, f64, &str)> = vec![];
    for k in all_kinds(3, &[1.0, 2.0]) {
        for nap in [2, 5] {
            for ms in [0u64, 1, 7, 20] {
                limits.push((k, nap, Limit::Millis(ms as u128), ms as f64, "ms"));
            }
        }
        limits.push((k, 2, Limit::Secs(0), 0.0, "s"));
        limits.push((k, 2, Limit::Mins(0), 0.0, "min"));
    }
    for k in [Kind::Ada, Kind::Mada, Kind::AdaV] {
        limits.push((k, 70, Limit::Secs(1), 1000.0, "s"));
        if !quick {
            limits.push((k, 4000, Limit::Mins(1), 60_000.0, "min"));
        }
    }
    run.explore("limit", &limits, |c| format!("{},nap{},{}{}", c.0.name(), c.1, c.3, c.4), |&(kind, nap, limit, ms, _), loc| {
        let y = [1.0, -1.0, 1.0];
        let train = row_sample(&y);
        let test = row_sample(&[-1.0]);
        let menu = menu(&[vec![1.0, 1.0, 1.0], vec![1.0, -1.0, -1.0], vec![-1.0, -1.0, 1.0]]);
        let script: Vec<usize> = (0..5000).map(|i| i % 3).collect();
        let path = own(&dir).join(format!("{}.csv", hash_of(&loc.key().to_string())));
        for builder in [false, true] {
            if builder && nap > 5 {
                continue;
            }
            let wl = Scripted::new(&menu, script.clone());
            let seen = RefCell::new(vec![]);
            let r = with(kind, &train, Some(0.05), LogRun { wl: &wl, nap: std::time::Duration::from_millis(nap), look: Default::default(), path: &path, train: &train, test: &test, seen: &seen, limit, every: Some(2), builder, twice: false });
            loc.trace();
            loc.step();
            let rounds = wl.log.borrow().len();
            // Did the booster end by itself?  Replay the same number of rounds without a logger.
            let wl2 = Scripted::new(&menu, script.clone());
            let plain = with(kind, &train, Some(0.05), Stepwise { wl: &wl2, max_calls: 100_000.min(rounds + 2), want_current: true, want_out: true });
            let (out, body) = match r {
                Ok(x) => x,
                Err(e) => {
                    loc.viol(e);
                    continue;
                }
            };
            let seen = seen.into_inner();
            match log_lines(&body) {
                Err(e) => loc.viol(format!("log file: {e}")),
                Ok(lines) => {
                    // MLPBoost's LP is perturbed at random, its length may differ.
                    let own = matches!(kind, Kind::Mlp { .. }) || (plain.broke.is_some() && plain.calls <= lines.len());
                    if let Err(e) = log_ok(&lines, &seen, Some(ms), own) {
                        loc.viol(format!("limit {ms} ms, {nap} ms a round: {e}"));
                    }
                    let last = seen.iter().rfind(|s| s.0 == 'o').map(|s| s.1.clone()).unwrap();
                    loc.check(last.1 == out.1 && close_vec(&last.0, &out.0, 1e-6), || format!("result {out:?}, last line of {last:?}"));
                    loc.check(lines.last().unwrap()[3] >= ((lines.len() as u64 - 1).min(rounds as u64) * nap) as f64 * 0.99 - lines.len() as f64, || format!("{} rounds of {nap} ms logged as {} ms", lines.len(), lines.last().unwrap()[3]));
                    loc.outcome(&(lines.len() > 1));
                    loc.state(&lines.len());
                }
            }
        }
        let _ = std::fs::remove_file(&path);
    });
    // Time spent on looking at the hypotheses is no running time.
    let looks: Vec<(Kind, Limit, &str)> = [Kind::Ada, Kind::Mada, Kind::AdaV, Kind::Lp { nu: 1.0 }, Kind::Soft { nu: 1.0 }].into_iter().flat_map(|k| [(k, Limit::None, "none"), (k, Limit::Millis(600), "600ms")]).collect();
    run.explore("look-time", &looks, |c| format!("{},{}", c.0.name(), c.2), |&(kind, limit, _), loc| {
        let y = [1.0, -1.0, 1.0];
        let train = row_sample(&y);
        let test = row_sample(&[-1.0]);
        let menu = menu(&[vec![1.0, 1.0, 1.0], vec![1.0, -1.0, -1.0], vec![-1.0, -1.0, 1.0]]);
        let path = own(&dir).join(format!("look{}.csv", hash_of(&loc.key().to_string())));
        let mut times = vec![];
        // A busy machine may stall a round, but hardly three runs in a row.
        for _ in 0..3 {
            let wl = Scripted::new(&menu, (0..60).map(|i| i % 3).collect());
            let seen = RefCell::new(vec![]);
            let r = with(kind, &train, Some(0.7), LogRun { wl: &wl, nap: Default::default(), look: std::time::Duration::from_millis(400), path: &path, train: &train, test: &test, seen: &seen, limit, every: Some(1), builder: true, twice: false });
            loc.trace();
            let rounds = wl.log.borrow().len();
            loc.steps(rounds);
            loc.state(&rounds);
            let lines = match r.and_then(|b| log_lines(&b.1)) {
                Ok(l) => l,
                Err(e) => {
                    loc.viol(e);
                    return;
                }
            };
            let t = lines.last().map_or(0.0, |l| l[3]);
            times.push((lines.len(), t));
            // Looking takes 400 ms a round.
            if t < 200.0 * lines.len() as f64 {
                break;
            }
        }
        loc.check(times.last().unwrap().1 < 200.0 * times.last().unwrap().0 as f64, || format!("(lines, logged ms) {times:?} where only looking takes time, 400 ms a round"));
        let _ = std::fs::remove_file(&path);
    });
    // What is missing or impossible is refused.
    let cases: Vec<usize> = (0..10).collect();
    // Limits that no run reaches.
    let mut far: Vec<(u64, usize)> = vec![];
    for unit in 0..3usize {
        let per = [1u64, 1000, 60_000][unit];
        for e in [15u32, 16, 31, 32, 33, 53, 63] {
            for d in [0u64, 1, 30] {
                let v = (1u64 << e) / per + d;
                // At least a minute.
                if v.saturating_mul(per) >= 60_000 {
                    far.push((v, unit));
                }
                if (1u64 << e) >= 600_000 {
                    far.push(((1u64 << e) + d, unit));
                }
            }
        }
        far.push((u64::MAX, unit));
        far.push((u64::MAX / per, unit));
        far.push((u64::MAX / per - 1, unit));
    }
    far.sort();
    far.dedup();
    run.explore("far-limit", &far, |(v, u)| format!("{v}{}", ["ms", "s", "min"][*u]), |&(v, unit), loc| {
        use miniboosts::research::LoggerBuilder;
        let y = [1.0, -1.0, 1.0];
        let train = row_sample(&y);
        let menu = menu(&[vec![1.0, 1.0, 1.0], vec![1.0, -1.0, -1.0], vec![-1.0, -1.0, 1.0]]);
        let path = own(&dir).join(format!("far{v}-{unit}.csv"));
        let alone = Scripted::new(&menu, (0..30).map(|i| i % 3).collect());
        AdaBoost::init(&train).tolerance(0.3).run(&alone);
        let own = alone.log.borrow().len();
        for builder in [false, true] {
            let wl = Scripted::new(&menu, (0..30).map(|i| i % 3).collect());
            let seen = RefCell::new(vec![]);
            let r = guarded(|| {
                let mut b = LoggerBuilder::new()
                    .booster(AdaBoost::init(&train).tolerance(0.3))
                    .weak_learner(Lent(&wl, std::time::Duration::from_millis(2)))
                    .objective_function(Probe { seen: &seen, train: &train })
                    .loss_function(|_: &Sample, _: &Wm| 0.0)
                    .train_sample(&train)
                    .test_sample(&train);
                if builder {
                    b = match unit {
                        0 => b.time_limit_as_millis(v as u128),
                        1 => b.time_limit_as_secs(v),
                        _ => b.time_limit_as_mins(v),
                    };
                }
                let mut l = b.build();
                if !builder {
                    l = match unit {
                        0 => l.time_limit_as_millis(v as u128),
                        1 => l.time_limit_as_secs(v),
                        _ => l.time_limit_as_mins(v),
                    };
                }
                l.run(&path).map(wm_parts).map_err(|e| e.to_string())
            });
            loc.trace();
            let rounds = wl.log.borrow().len();
            loc.steps(rounds);
            loc.state(&(v, unit, rounds));
            loc.check(matches!(r, Ok(Ok(_))) && rounds == own, || format!("limit set on the {}: {rounds} rounds, {r:?}", if builder { "builder" } else { "logger" }));
        }
        let _ = std::fs::remove_file(&path);
    });
    run.explore("refuse", &cases, |c| format!("{c}"), |c, loc| {
        use miniboosts::research::LoggerBuilder;
        let y = [1.0, -1.0];
        let train = row_sample(&y);
        let menu = menu(&[vec![1.0, 0.5], vec![-0.5, -1.0]]);
        let wl = Scripted::new(&menu, vec![0, 1]);
        let seen = RefCell::new(vec![]);
        let c = *c;
        let loss = |_: &Sample, _: &Wm| 0.0;
        let path = if c == 9 { own(&dir).join("absent/file.csv") } else { own(&dir).join(format!("refuse{c}.csv")) };
        let r = guarded(|| {
            let mut b = LoggerBuilder::new();
            if c != 0 {
                b = b.booster(AdaBoost::init(&train).tolerance(0.5));
            }
            if c != 1 {
                b = b.weak_learner(Lent(&wl, Default::default()));
            }
            if c != 2 {
                b = b.objective_function(Probe { seen: &seen, train: &train });
            }
            if c != 3 {
                b = b.loss_function(loss);
            }
            if c != 4 {
                b = b.train_sample(&train);
            }
            if c != 5 {
                b = b.test_sample(&train);
            }
            if c == 6 {
                b = b.time_limit_as_secs(u64::MAX).time_limit_as_mins(u64::MAX);
            }
            let mut l = b.build();
            if c == 7 {
                l = l.time_limit_as_secs(u64::MAX).time_limit_as_mins(u64::MAX);
            }
            l.run(&path).map(wm_parts).map_err(|e| e.to_string())
        });
        loc.trace();
        loc.step();
        loc.outcome(&format!("{r:?}"));
        let ok = match c {
            0..=5 => r.is_err(),
            9 => matches!(r, Ok(Err(_))),
            _ => matches!(r, Ok(Ok(_))),
        };
        loc.check(ok, || format!("{r:?}"));
        let _ = std::fs::remove_file(&path);
    });
    drop(scratch);
    run.rule = "state = hypothesis of the last round; every logged run compared line by line with the hypotheses the functions were evaluated on and with the run without a logger".into();
}

// ---------------------------------------------------------------- C29

/// Kinds whose parameters come from the caller, unchecked.
fn kinds_with(nu: f64) -> Vec<Kind> {
    let mut v = vec![Kind::Lp { nu }, Kind::Erlp { nu }, Kind::Soft { nu }];
    for fw in FWS {
        v.push(Kind::Cerlp { nu, fw });
        v.push(Kind::Mlp { nu, fw });
    }
    v
}

/// Was the configuration refused before the first round?
fn refused(kind: Kind, s: &Sample, tol: Option<f64>, menu: &[TableH]) -> Result<bool, String> {
    let wl = Scripted::new(menu, vec![0]);
    let r = guarded(|| with(kind, s, tol, Stepwise { wl: &wl, max_calls: 1, want_current: false, want_out: false }));
    match r {
        Err(_) => Ok(true),
        Ok(t) if t.panic.is_some() && t.calls == 0 => Ok(true),
        Ok(t) if t.panic.is_none() => Ok(false),
        Ok(t) => Err(t.panic.unwrap()),
    }
}

fn permutations(k: usize) -> Vec<Vec<usize>> {
    sequences(k, k).into_iter().filter(|p| (0..k).all(|i| p.contains(&i))).collect()
}

struct Order<'a, W>(&'a W);
impl<W: Logged> Order<'_, W> {
    fn run<B>(&self, mut b: B) -> Result<((Vec<f64>, Vec<usize>), Vec<Vec<f64>>), String>
    where
        B: Booster<TableH, Output = Wm>,
    {
        self.0.forget();
        let r = guarded(|| wm_parts(b.run(self.0)))?;
        Ok((r, self.0.dists()))
    }
}

pub fn c29(run: &mut Run) {
    // Capping parameters.
    let mut cases: Vec<(usize, f64, bool)> = vec![];
    for m in 2..=run.pick(4, 7) {
        let n = m as f64;
        for bad in [0.0, -1.0, 0.5, 1.0 - 1e-9, n + 1e-9, n + 1.0, 2.0 * n, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300] {
            cases.push((m, bad, false));
        }
        for good in [1.0, 1.0 + 1e-9, n / 2.0, (n + 1.0) / 2.0, n - 1e-9, n] {
            if good >= 1.0 {
                cases.push((m, good, true));
            }
        }
    }
    run.explore("nu", &cases, |c| format!("m{},nu{}", c.0, c.1), |&(m, nu, ok), loc| {
        let y: Vec<f64> = (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let s = row_sample(&y);
        let menu = menu(&[(0..m).map(|i| if i == 0 { 0.25 } else { y[i] }).collect()]);
        for kind in kinds_with(nu) {
            let r = refused(kind, &s, Some(0.3), &menu);
            loc.trace();
            loc.step();
            loc.state(&kind.name());
            loc.outcome(&format!("{r:?}"));
            loc.check(r == Ok(!ok), || format!("{}: refused: {r:?}", kind.name()));
        }
        let r = guarded(|| BadBaseLearnerBuilder::new(&s).nu(nu).build().produce(&s, &vec![1.0 / m as f64; m])).is_err();
        loc.check(r == !ok, || format!("BadBaseLearner: refused: {r}"));
        let r = guarded(|| {
            use miniboosts::research::objective_functions::SoftMarginObjective;
            use miniboosts::research::ObjectiveFunction;
            SoftMarginObjective::new(nu).eval(&s, &menu[0])
        })
        .is_err();
        loc.check(r == !ok, || format!("SoftMarginObjective: refused: {r}"));
    });
    // Longer samples: every whole and many fractional capping parameters.
    let mut cases: Vec<(usize, f64)> = vec![];
    for m in 8..=run.pick(20, 60) {
        for k in 1..=m {
            cases.push((m, k as f64));
            cases.push((m, m as f64 / k as f64));
            cases.push((m, (m as f64 * k as f64 / (m as f64 + 1.0)).max(1.0)));
        }
    }
    run.explore("long", &cases, |c| format!("m{},nu{}", c.0, c.1), |&(m, nu), loc| {
        let y: Vec<f64> = (0..m).map(|i| if i % 3 == 0 { 1.0 } else { -1.0 }).collect();
        let s = row_sample(&y);
        let menu = menu(&[
            (0..m).map(|i| if i % 4 == 1 { -0.5 * y[i] } else { y[i] }).collect(),
            (0..m).map(|i| if i % 4 == 2 { -y[i] } else { 0.75 * y[i] }).collect(),
        ]);
        for kind in kinds_with(nu) {
            let r = refused(kind, &s, Some(0.3), &menu);
            loc.trace();
            loc.step();
            loc.state(&kind.name());
            loc.outcome(&format!("{r:?}"));
            loc.check(r == Ok(false), || format!("{}: refused: {r:?}", kind.name()));
        }
        let r = guarded(|| BadBaseLearnerBuilder::new(&s).nu(nu).build().produce(&s, &vec![1.0 / m as f64; m])).is_err();
        loc.check(!r, || "BadBaseLearner: refused".to_string());
    });
    let mut cases: Vec<(usize, f64)> = vec![];
    for m in run.pick(vec![5, 8, 10, 16, 31, 64, 100, 257], (5..=130).chain([200, 255, 256, 257, 300, 1000]).collect()) {
        let n = m as f64;
        for bad in [0.0, -0.0, f64::MIN_POSITIVE, 1.0 / n, 0.1, 0.99, 1.0 - 1e-7, n + 1e-7 * n, n + 0.5, n + 1.0, n * 1.01 + 1e-3, n * n, -n, f64::MAX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            cases.push((m, bad));
        }
    }
    run.explore("long-bad", &cases, |c| format!("m{},nu{}", c.0, c.1), |&(m, nu), loc| {
        let y: Vec<f64> = (0..m).map(|i| if i % 3 == 0 { 1.0 } else { -1.0 }).collect();
        let s = row_sample(&y);
        let menu = menu(&[(0..m).map(|i| if i % 4 == 1 { -0.5 * y[i] } else { y[i] }).collect()]);
        for kind in kinds_with(nu) {
            for tol in [None, Some(0.3), Some(1e-3)] {
                let r = refused(kind, &s, tol, &menu);
                loc.trace();
                loc.step();
                loc.state(&(kind.name(), tol.map(f64::to_bits)));
                loc.outcome(&format!("{r:?}"));
                loc.check(r == Ok(true), || format!("{}: refused: {r:?}", kind.name()));
            }
        }
        let r = guarded(|| BadBaseLearnerBuilder::new(&s).nu(nu).build().produce(&s, &vec![1.0 / m as f64; m])).is_err();
        loc.check(r, || "BadBaseLearner: accepted".to_string());
        let r = guarded(|| {
            use miniboosts::research::objective_functions::SoftMarginObjective;
            use miniboosts::research::ObjectiveFunction;
            SoftMarginObjective::new(nu).eval(&s, &menu[0])
        })
        .is_err();
        loc.check(r, || "SoftMarginObjective: accepted".to_string());
    });
    // One bad label somewhere in a longer sample; only one label; three labels.
    let mut cases: Vec<(usize, usize, f64)> = vec![];
    for m in run.pick(vec![6, 9, 17, 64, 130], vec![5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 128, 130, 257]) {
        for at in [0, 1, m / 3, m / 2, m - 2, m - 1] {
            for v in [2.0, -2.0, 0.0, 3.0, 0.5, -0.25, 1.0 + 1e-9, -1.0 + 1e-12, 0.999, f64::NAN, f64::INFINITY, 1e300, 1e-300] {
                cases.push((m, at, v));
            }
        }
        cases.push((m, m, 1.0));
        cases.push((m, m, -1.0));
    }
    run.explore("long-labels", &cases, |c| format!("m{},at{},{}", c.0, c.1, c.2), |&(m, at, v), loc| {
        let one = at == m;
        let y: Vec<f64> = (0..m).map(|i| if one || i == at { v } else if i % 3 == 0 { 1.0 } else { -1.0 }).collect();
        let s = row_sample(&y);
        let good = row_sample(&(0..m).map(|i| if i % 3 == 0 { 1.0 } else { -1.0 }).collect::<Vec<_>>());
        let menu = menu(&[(0..m).map(|i| if i % 4 == 1 { -0.5 } else { 1.0 } * if i % 3 == 0 { 1.0 } else { -1.0 }).collect()]);
        for kind in all_kinds(m, &[1.0, 2.5, m as f64]) {
            let r = refused(kind, &s, Some(0.3), &menu);
            loc.trace();
            loc.step();
            loc.state(&kind.name());
            loc.outcome(&format!("{r:?}"));
            loc.check(r == Ok(true), || format!("{}: refused: {r:?}", kind.name()));
            if at == 0 && v == 2.0 {
                let r = refused(kind, &good, Some(0.3), &menu);
                loc.check(r == Ok(false), || format!("{}, good labels: refused: {r:?}", kind.name()));
            }
        }
        let wl = Scripted::new(&menu, vec![0]);
        let r = guarded(|| GraphSepBoost::init(&s).preprocess(&wl)).is_err();
        loc.check(r, || "graph separation boosting: accepted".to_string());
    });
    // Labels.
    let top = run.pick(3, 4);
    let mut labels: Vec<Vec<f64>> = vec![];
    for m in 1..=top {
        labels.extend(vectors(&[1.0, -1.0, 2.0, 0.5, f64::NAN], m));
    }
    // Labels that no 32-bit integer holds.
    labels.extend(vectors(&[1.0, -1.0, 3e9, 4e9, 4294967297.0, f64::INFINITY], 3));
    run.explore("labels", &labels, |y| fmt_v(y), |y, loc| {
        let m = y.len();
        let s = row_sample(y);
        let ints = y.iter().all(|v| v.fract() == 0.0);
        let mut kinds: Vec<i64> = y.iter().map(|v| *v as i64).collect();
        kinds.sort();
        kinds.dedup();
        let pm = y.iter().all(|v| v.abs() == 1.0);
        let bad = !ints || kinds.len() != 2;
        if !bad && !pm {
            // Two other integers are accepted with a warning; the library promises nothing.
            loc.count("skipped: two labels, not both of them plus or minus one");
            return;
        }
        let menu = menu(&[(0..m).map(|i| if i == 0 { 0.25 * y[0] } else { y[i] }).collect()]);
        for kind in all_kinds(m, &[1.0, m as f64]) {
            let r = refused(kind, &s, Some(0.3), &menu);
            loc.trace();
            loc.step();
            loc.state(&kind.name());
            loc.outcome(&format!("{r:?}"));
            loc.check(r == Ok(bad), || format!("{}: refused: {r:?}", kind.name()));
        }
        let wl = Scripted::new(&menu, vec![0]);
        let r = guarded(|| GraphSepBoost::init(&s).preprocess(&wl)).is_err();
        loc.check(r == bad, || format!("graph separation boosting: refused: {r}"));
    });
    // The rest, one by one.
    let scratch = Scratch::new("c29");
    let csv = scratch.file("a.csv", "a,b,class\n1,2,1\n3,4,-1\n");
    let mut cases: Vec<(String, bool, Box<dyn Fn() + Send + Sync>)> = vec![];
    macro_rules! case {
        ($name:expr, $ok:expr, $f:expr) => {
            cases.push(($name.to_string(), $ok, Box::new($f)))
        };
    }
    fn sample() -> Sample {
        df_sample(&[("a", vec![1.0, 2.0, 3.0]), ("b", vec![0.0, 5.0, 1.0])], &[1.0, -1.0, 1.0])
    }
    for d in 0..4usize {
        case!(format!("decision tree depth {d}"), d > 0, move || {
            let s = sample();
            DecisionTreeBuilder::new(&s).max_depth(d).build().produce(&s, &[0.2, 0.4, 0.4]);
        });
        case!(format!("regression tree depth {d}"), d > 0, move || {
            let s = sample();
            RegressionTreeBuilder::new(&s).max_depth(d).loss(GBMLoss::L2).build().produce(&s, &[0.0; 3]);
        });
    }
    case!("regression tree without loss", false, || {
        let s = sample();
        let b: RegressionTreeBuilder<'_, GBMLoss> = RegressionTreeBuilder::new(&s);
        b.build();
    });
    for (name, ok) in [("a", true), ("b", true), ("c", false), ("", false), ("A", false), ("class", false)] {
        case!(format!("decision tree bins of {name:?}"), ok, move || {
            let s = sample();
            let mut b = DecisionTreeBuilder::new(&s);
            b.set_nbins(name, 2);
            b.build();
        });
        case!(format!("regression tree bins of {name:?}"), ok, move || {
            let s = sample();
            let mut b = RegressionTreeBuilder::new(&s);
            b.set_nbins(name, 2);
            b.loss(GBMLoss::L2).build();
        });
        case!(format!("target {name:?}"), ok, move || {
            sample().set_target(name);
        });
    }
    for r in [-1.0, 0.0, 1e-3, 0.5, 0.999, 1.0, 1.5, f64::NAN] {
        case!(format!("training ratio {r}"), 0.0 < r && r < 1.0, move || {
            let s = sample();
            miniboosts::research::CrossValidation::new(&s).train_ratio(r);
        });
    }
    for n in 0..4usize {
        case!(format!("{n} new names"), n == 2, move || {
            let mut s = sample();
            s.replace_names((0..n).map(|i| format!("n{i}")).collect::<Vec<_>>());
        });
    }
    {
        let p = csv.clone();
        case!("csv without target", false, move || {
            let r: SampleReader<std::path::PathBuf, &str> = SampleReader::default();
            let _ = r.file(p.clone()).has_header(true).read();
        });
        let p = csv.clone();
        case!("csv with target", true, move || {
            SampleReader::default().file(p.clone()).has_header(true).target_feature("class").read().unwrap();
        });
        case!("no file", false, || {
            let r: SampleReader<std::path::PathBuf, &str> = SampleReader::default();
            let _ = r.target_feature("class").read();
        });
    }
    let quick = run.quick();
    for (i, kappa) in [-0.5, 0.0, 1e-3, 0.3, 0.999, 1.0, 1.5, f64::NAN].into_iter().enumerate() {
        for gamma in [-0.1, 0.1, 0.25, 0.499, 0.5, 0.9, f64::NAN] {
            if quick && i == 2 {
                continue;
            }
            let ok = kappa > 0.0 && kappa < 1.0 && (0.0..0.5).contains(&gamma);
            case!(format!("SmoothBoost kappa {kappa} gamma {gamma}"), ok, move || {
                let y = [1.0, -1.0, 1.0];
                let s = row_sample(&y);
                let menu = menu(&[vec![1.0, -1.0, 0.9]]);
                if let Ok(true) = refused(Kind::Smooth { kappa, gamma }, &s, None, &menu) {
                    panic!("refused");
                }
            });
        }
    }
    run.explore("refuse", &cases, |c| c.0.clone(), |(_, ok, f), loc| {
        let r = guarded(f);
        loc.trace();
        loc.step();
        loc.state(&format!("{r:?}"));
        loc.outcome(&format!("{r:?}"));
        loc.check(r.is_ok() == *ok, || if *ok { format!("{:?}", r.err()) } else { "accepted".to_string() });
    });
    // The order of the setters does not matter.
    let mut cases: Vec<(usize, f64, f64, Vec<usize>)> = vec![];
    for m in 2..=3usize {
        for nu in [1.0, 1.5, m as f64] {
            for tol in [0.6, 0.2] {
                for s in sequences(if m == 2 { 4 } else { 3 }, run.pick(2, 3)) {
                    cases.push((m, nu, tol, s));
                }
            }
        }
    }
    run.explore("order", &cases, |c| format!("m{},nu{},tol{},{}", c.0, c.1, c.2, fmt_i(&c.3)), |(m, nu, tol, script), loc| {
        let y: Vec<f64> = (0..*m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let s = row_sample(&y);
        let confs: Vec<Vec<f64>> = match m {
            2 => vec![vec![1.0, 1.0], vec![1.0, -0.5], vec![-1.0, -1.0], vec![0.5, 0.0]],
            _ => vec![vec![1.0, 1.0, 1.0], vec![1.0, -0.5, -1.0], vec![-1.0, -1.0, 0.5]],
        };
        let menu = menu(&confs);
        let wl = Scripted::new(&menu, (0..60).map(|i| script[i % script.len()]).collect());
        let o = Order(&wl);
        let (nu, tol) = (*nu, *tol);
        let mut cmp = |name: String, rs: Vec<Result<((Vec<f64>, Vec<usize>), Vec<Vec<f64>>), String>>| {
            loc.trace();
            loc.step();
            for r in &rs[1..] {
                let same = match (&rs[0], r) {
                    (Err(_), Err(_)) => true,
                    (Ok(a), Ok(b)) => {
                        a.0 .1 == b.0 .1 && close_vec(&a.0 .0, &b.0 .0, 1e-6) && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| close_vec(x, y, 1e-6))
                    }
                    _ => false,
                };
                loc.check(same, || format!("{name}: {:?} in one order, {r:?} in another", rs[0]));
            }
            if let Ok(r) = &rs[0] {
                loc.state(&(canon(&r.0 .0), name));
                loc.outcome(&r.1.len());
            }
        };
        cmp("LPBoost".into(), vec![o.run(LPBoost::init(&s).nu(nu).tolerance(tol)), o.run(LPBoost::init(&s).tolerance(tol).nu(nu))]);
        cmp("SoftBoost".into(), vec![o.run(SoftBoost::init(&s).nu(nu).tolerance(tol)), o.run(SoftBoost::init(&s).tolerance(tol).nu(nu))]);
        cmp("ERLPBoost".into(), vec![o.run(ERLPBoost::init(&s).nu(nu).tolerance(tol)), o.run(ERLPBoost::init(&s).tolerance(tol).nu(nu))]);
        for fw in FWS {
            cmp(format!("CERLPBoost {fw:?}"), vec![
                o.run(CERLPBoost::init(&s).nu(nu).tolerance(tol).fw_type(fw.lib())),
                o.run(CERLPBoost::init(&s).tolerance(tol).nu(nu).fw_type(fw.lib())),
                o.run(CERLPBoost::init(&s).fw_type(fw.lib()).tolerance(tol).nu(nu)),
                o.run(CERLPBoost::init(&s).fw_type(fw.lib()).nu(nu).tolerance(tol)),
                o.run(CERLPBoost::init(&s).nu(nu).fw_type(fw.lib()).tolerance(tol)),
                o.run(CERLPBoost::init(&s).tolerance(tol).fw_type(fw.lib()).nu(nu)),
            ]);
            // MLPBoost chooses between two updates with the help of a randomly perturbed LP:
            // only the first distributions are comparable.
            let first = |r: Result<((Vec<f64>, Vec<usize>), Vec<Vec<f64>>), String>| r.map(|x| ((vec![], vec![]), x.1.into_iter().take(2).collect::<Vec<_>>()));
            cmp(format!("MLPBoost {fw:?}"), vec![
                first(o.run(MLPBoost::init(&s).nu(nu).tolerance(tol).frank_wolfe(fw.lib()))),
                first(o.run(MLPBoost::init(&s).tolerance(tol).nu(nu).frank_wolfe(fw.lib()))),
                first(o.run(MLPBoost::init(&s).frank_wolfe(fw.lib()).tolerance(tol).nu(nu))),
                first(o.run(MLPBoost::init(&s).frank_wolfe(fw.lib()).nu(nu).tolerance(tol))),
                first(o.run(MLPBoost::init(&s).nu(nu).frank_wolfe(fw.lib()).tolerance(tol))),
                first(o.run(MLPBoost::init(&s).tolerance(tol).frank_wolfe(fw.lib()).nu(nu))),
            ]);
        }
        cmp("SmoothBoost".into(), vec![o.run(SmoothBoost::init(&s).tolerance(tol).gamma(0.3)), o.run(SmoothBoost::init(&s).gamma(0.3).tolerance(tol))]);
    });
    // The same for everything else that has setters.
    let others: Vec<&str> = vec!["cross validation", "decision tree", "regression tree", "reader", "gradient boosting", "bad learner", "AdaBoost", "AdaBoostV", "MadaBoost", "logger builder", "logger"];
    let dir = scratch.0.clone();
    run.explore("order-more", &others, |o| o.to_string(), |what, loc| {
        let s = df_sample(
            &[("a", (0..23).map(|i| ((i * 7) % 11) as f64).collect()), ("b", (0..23).map(|i| ((i * 5) % 13) as f64 - 4.0).collect())],
            &(0..23).map(|i| if (i * 2654435761usize) % 7 < 3 { 1.0 } else { -1.0 }).collect::<Vec<_>>(),
        );
        let n = 23;
        let d: Vec<f64> = (0..n).map(|i| (i + 1) as f64 / (n * (n + 1) / 2) as f64).collect();
        let y = s.target().to_vec();
        let rated = menu(&[(0..n).map(|i| if i % 3 == 0 { -y[i] } else { y[i] }).collect(), (0..n).map(|i| if i % 4 == 1 { -0.5 } else { 0.8 } * y[i]).collect()]);
        let ops = match *what {
            "cross validation" => 5,
            "decision tree" | "regression tree" => 4,
            "reader" => 3,
            "logger builder" => 6,
            _ => 2,
        };
        let one = |perm: &[usize], values: usize| -> Result<String, String> {
            guarded(|| match *what {
                "cross validation" => {
                    let mut cv = miniboosts::research::CrossValidation::new(&s);
                    for p in perm {
                        cv = match p {
                            0 => cv.n_folds(3 + values),
                            1 => cv.train_ratio([0.7, 0.5][values]),
                            2 => cv.seed([77, 4242][values]),
                            3 => cv.shuffle(),
                            _ => cv.verbose(values == 1),
                        };
                    }
                    format!("{:?}", cv.map(|(a, b)| ((0..a.shape().0).map(|i| a.at(i).0).collect::<Vec<_>>(), (0..b.shape().0).map(|i| b.at(i).0).collect::<Vec<_>>())).collect::<Vec<_>>())
                }
                "decision tree" => {
                    let mut t = DecisionTreeBuilder::new(&s);
                    for p in perm {
                        match p {
                            0 => t = t.max_depth(2 + values),
                            1 => t = t.criterion([Criterion::Gini, Criterion::Edge][values]),
                            2 => t.set_nbins("a", 3 + values),
                            _ => t.set_nbins("b", 2 + values),
                        }
                    }
                    format!("{:?}", t.build().produce(&s, &d).confidence_all(&s))
                }
                "regression tree" => {
                    let mut t = RegressionTreeBuilder::new(&s);
                    for p in perm {
                        match p {
                            0 => t = t.max_depth(2 + values),
                            1 => t = t.loss([GBMLoss::L2, GBMLoss::L1][values]),
                            2 => t.set_nbins("a", 3 + values),
                            _ => t = t.lambda_l2([0.5, 3.0][values]),
                        }
                    }
                    format!("{:?}", t.build().produce(&s, &vec![0.25; n]).predict_all(&s))
                }
                "reader" => {
                    let (with, without) = (own(&dir).join("order1.csv"), own(&dir).join("order2.csv"));
                    std::fs::write(&with, "a,b,class\n1,2,1\n3,4,-1\n").unwrap();
                    std::fs::write(&without, "1,2,1\n3,4,-1\n").unwrap();
                    let mut r = SampleReader::default();
                    for p in perm {
                        r = match p {
                            0 => r.file(if values == 0 { with.clone() } else { without.clone() }),
                            1 => r.has_header(values == 0),
                            _ => r.target_feature(["class", "Feat. [1]"][values]),
                        };
                    }
                    let s = r.read().unwrap();
                    format!("{:?} {:?} {:?}", s.shape(), s.target(), (0..s.shape().0).map(|i| s.at(i).0).collect::<Vec<_>>())
                }
                "gradient boosting" => {
                    let mut b = GBM::init_with_loss(&s, [GBMLoss::L2, GBMLoss::L1][values]);
                    for p in perm {
                        b = match p {
                            0 => b.tolerance([0.5, 0.01][values]),
                            _ => b.loss([GBMLoss::L1, GBMLoss::L2][values]),
                        };
                    }
                    let t = RegressionTreeBuilder::new(&s).max_depth(2).loss([GBMLoss::L1, GBMLoss::L2][values]).build();
                    format!("{:?}", b.run(&t).predict_all(&s))
                }
                "bad learner" => {
                    let mut b = BadBaseLearnerBuilder::new(&s);
                    for p in perm {
                        b = match p {
                            0 => b.tolerance([0.5, 0.01][values]),
                            _ => b.nu([2.0, 5.5][values]),
                        };
                    }
                    let b = b.build();
                    let blocks: Vec<Vec<f64>> = (0..n).map(|a| b.produce(&s, &(0..n).map(|i| if i == a { 1.0 } else { 0.0 }).collect::<Vec<_>>()).confidence_all(&s)).collect();
                    format!("{blocks:?}")
                }
                name @ ("AdaBoost" | "AdaBoostV" | "MadaBoost") => {
                    let wl = Scripted::new(&rated, (0..5000).map(|i| i % 2).collect());
                    let tol = [0.4, 0.2][values];
                    let quit = [2, 4][values];
                    macro_rules! go {
                        ($b:expr) => {{
                            let mut b = $b;
                            for p in perm {
                                b = match p {
                                    0 => b.tolerance(tol),
                                    _ => b.force_quit_at(quit),
                                };
                            }
                            let f = b.run(&wl);
                            format!("{:?} {}", f.confidence_all(&s), wl.log.borrow().len())
                        }};
                    }
                    match name {
                        "AdaBoost" => go!(AdaBoost::init(&s)),
                        "AdaBoostV" => go!(AdaBoostV::init(&s)),
                        _ => go!(MadaBoost::init(&s)),
                    }
                }
                "logger builder" | "logger" => {
                    use miniboosts::research::{Logger, LoggerBuilder};
                    let wl = Scripted::new(&rated, (0..5000).map(|i| i % 2).collect());
                    let seen = RefCell::new(vec![]);
                    let loss = |_: &Sample, _: &Wm| 0.25;
                    let path = own(&dir).join(format!("order-{}.csv", what.len()));
                    let f = if *what == "logger" {
                        let mut l = Logger::new(AdaBoost::init(&s).tolerance(0.4), Lent(&wl, Default::default()), Probe { seen: &seen, train: &s }, loss, &s, &s);
                        for p in perm {
                            l = match p {
                                0 => l.print_every(2 + values),
                                _ => l.time_limit_as_secs(1000),
                            };
                        }
                        l.run(&path).unwrap()
                    } else {
                        let mut b = LoggerBuilder::new();
                        for p in perm {
                            b = match p {
                                0 => b.booster(AdaBoost::init(&s).tolerance(0.4)),
                                1 => b.weak_learner(Lent(&wl, Default::default())),
                                2 => b.objective_function(Probe { seen: &seen, train: &s }),
                                3 => b.loss_function(loss),
                                4 => b.train_sample(&s),
                                _ => b.test_sample(&s).print_every(2 + values).time_limit_as_secs(1000),
                            };
                        }
                        b.build().run(&path).unwrap()
                    };
                    format!("{:?} {}", wm_parts(f), std::fs::read_to_string(&path).unwrap().lines().map(|l| l.rsplit_once(',').unwrap().0.to_string()).collect::<Vec<_>>().join(";"))
                }
                _ => unreachable!(),
            })
        };
        for values in 0..2 {
            let mut first: Option<Result<String, String>> = None;
            for perm in permutations(ops) {
                let r = one(&perm, values);
                loc.trace();
                loc.step();
                loc.state(&r);
                loc.check(r.is_ok(), || format!("order {perm:?}: {r:?}"));
                match &first {
                    None => {
                        loc.outcome(&r);
                        first = Some(r);
                    }
                    Some(f) => {
                        loc.check(*f == r, || format!("order {perm:?}: {r:?}, in order {f:?}").chars().take(600).collect());
                    }
                }
            }
        }
    });
    drop(scratch);
    run.rule = "state = configuration (booster, parameters) on a sample; each is either refused before the first round or gets through it; results compared across all orders of the setters".into();
}
