//! C19 decision tree, C20 regression tree: every produced tree is matched
//! against the greedy definition, allowing every way of breaking ties.
use crate::fw::*;
use crate::p_feat::*;
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::LossFunction;
use serde_json::json;

/// Equal-width bins of one column.
#[derive(Clone, Debug)]
pub struct Grid {
    pub min: f64,
    pub width: f64,
    pub n: usize,
}

impl Grid {
    pub fn new(x: &[f64], n: Option<usize>) -> Self {
        let mut v = x.to_vec();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        let n = n.unwrap_or(v.len().min(255));
        let (mut lo, mut hi) = (v[0], v[v.len() - 1]);
        if lo == hi {
            lo -= 0.001;
            hi += 0.001;
        }
        Grid { min: lo, width: (hi - lo) / n as f64, n }
    }
    fn bin(&self, x: f64) -> usize {
        (((x - self.min) / self.width).floor().max(0.0) as usize).min(self.n - 1)
    }
    fn edge(&self, k: usize) -> f64 {
        self.min + self.width * k as f64
    }
    /// All bin edges are exact numbers (and computed without rounding).
    fn exact(&self) -> bool {
        let dyadic = |x: f64| x.abs() < 1e6 && (x * 1024.0).fract() == 0.0;
        dyadic(self.width) && dyadic(self.min) && self.n < 1024
    }
    /// A value so close to an inner bin boundary that rounding decides its bin.
    fn fuzzy(&self, x: f64) -> bool {
        let q = (x - self.min) / self.width;
        let k = q.round();
        k >= 1.0 && k <= self.n as f64 - 1.0 && (q - k).abs() < 1e-9 && (self.width * 1048576.0).fract() != 0.0
    }
}

/// One training problem; probes are the points at which functions are compared.
pub struct Problem<'a> {
    pub cols: &'a [Vec<f64>],
    pub grids: &'a [Grid],
    pub probes: &'a [Vec<f64>],
    /// Nodes that may still be compared; at zero the comparison is given up as undecided.
    pub budget: std::cell::Cell<usize>,
}

#[derive(Clone, Debug)]
struct Cand {
    feature: usize,
    threshold: f64,
    left: Vec<usize>,
    right: Vec<usize>,
}

impl Problem<'_> {
    /// Every way to separate the rows at the middle between two neighbouring non-empty bins.
    fn candidates(&self, rows: &[usize]) -> Vec<Cand> {
        let mut out = vec![];
        for (f, g) in self.grids.iter().enumerate() {
            let bin = |i: usize| g.bin(self.cols[f][i]);
            let mut bins: Vec<usize> = rows.iter().map(|i| bin(*i)).collect();
            bins.sort();
            bins.dedup();
            for w in bins.windows(2) {
                out.push(Cand {
                    feature: f,
                    threshold: (g.edge(w[0] + 1) + g.edge(w[1])) / 2.0,
                    left: rows.iter().copied().filter(|i| bin(*i) <= w[0]).collect(),
                    right: rows.iter().copied().filter(|i| bin(*i) > w[0]).collect(),
                });
            }
        }
        out
    }
    /// Is `seen` (values at the probes) a greedy tree over `rows`?
    /// `leaf`: value of the rows as a leaf, `score`: larger is better, `None` = no split.
    /// A probe within rounding of a threshold may go either way.
    fn matches(
        &self,
        rows: &[usize],
        probes: &[usize],
        depth: usize,
        seen: &[f64],
        leaf: &dyn Fn(&[usize]) -> f64,
        pure: &dyn Fn(&[usize]) -> bool,
        score: &dyn Fn(Option<(&[usize], &[usize])>, &[usize]) -> f64,
    ) -> bool {
        if self.budget.get() == 0 {
            return true;
        }
        self.budget.set(self.budget.get() - 1);
        let value = leaf(rows);
        let tol = 1e-9 * (1.0 + value.abs());
        let leaf_ok = || probes.iter().all(|p| (seen[*p] - value).abs() <= tol);
        if depth == 0 || pure(rows) {
            return leaf_ok();
        }
        let none = score(None, rows);
        let cands = self.candidates(rows);
        let scores: Vec<f64> = cands.iter().map(|c| score(Some((&c.left, &c.right)), rows)).collect();
        let best = scores.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let eps = 1e-9 * (1.0 + none.abs());
        if best <= none + eps && leaf_ok() {
            return true;
        }
        let bar = if best > none + eps { best } else { none };
        cands.iter().zip(&scores).any(|(c, s)| {
            *s >= bar - eps && {
                let x = |p: &usize| self.probes[*p][c.feature];
                // With bin edges that are exact numbers, so is the threshold.
                let exact = self.grids[c.feature].exact();
                let near = |p: &usize| !exact && (x(p) - c.threshold).abs() < 1e-9 * (1.0 + c.threshold.abs());
                let l: Vec<usize> = probes.iter().copied().filter(|p| !near(p) && x(p) < c.threshold).collect();
                let r: Vec<usize> = probes.iter().copied().filter(|p| !near(p) && x(p) >= c.threshold).collect();
                self.matches(&c.left, &l, depth - 1, seen, leaf, pure, score) && self.matches(&c.right, &r, depth - 1, seen, leaf, pure, score)
            }
        })
    }
}

/// Points at which trees are compared: all combinations of training values,
/// values far outside, and values between.
fn probe_points(cols: &[Vec<f64>], grids: &[Grid]) -> Vec<Vec<f64>> {
    let axes: Vec<Vec<f64>> = cols
        .iter()
        .zip(grids)
        .map(|(c, g)| {
            let mut v = c.clone();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            let mut a = vec![-1000.0];
            for w in v.windows(2) {
                // Off the middle on both sides.
                a.push(w[0] + (w[1] - w[0]) * 0.3);
                a.push(w[0] + (w[1] - w[0]) * 0.5);
                a.push(w[0] + (w[1] - w[0]) * 0.8);
            }
            a.extend(&v);
            // A single column: also inside every bin, near both of its ends.
            if cols.len() == 1 && g.n <= 16 {
                for b in 0..g.n {
                    for part in [0.1, 0.45, 0.55, 0.9] {
                        a.push(g.edge(b) + part * g.width);
                    }
                }
            }
            a.push(1000.0);
            a
        })
        .collect();
    let mut out: Vec<Vec<f64>> = vec![vec![]];
    for a in axes {
        out = out.into_iter().flat_map(|p: Vec<f64>| a.iter().map(move |x| { let mut q = p.clone(); q.push(*x); q })).collect();
    }
    out
}

/// The probes as a sample whose columns stand in another order, with one extra.
fn probe_sample(probes: &[Vec<f64>]) -> Sample {
    let k = probes[0].len();
    let names: Vec<String> = (0..k).map(|j| format!("Feat. [{}]", j + 1)).collect();
    let mut cols: Vec<(&str, Vec<f64>)> = vec![("extra", vec![0.25; probes.len()])];
    for j in (0..k).rev() {
        cols.push((&names[j], probes.iter().map(|p| p[j]).collect()));
    }
    let y: Vec<f64> = (0..probes.len()).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    df_sample(&cols, &y)
}

#[derive(Clone, Debug)]
struct Tab {
    cols: Vec<Vec<f64>>,
    sparse: bool,
    nbins: Option<usize>,
}

/// All tables for the two tree checks.
fn tables(quick: bool) -> Vec<Tab> {
    let mut out = vec![];
    let mut push = |cols: Vec<Vec<f64>>, nbins: Option<usize>| {
        for sparse in [false, true] {
            if sparse && cols.iter().any(|c| c.iter().all(|x| *x == 0.0)) {
                continue;
            }
            if cols.iter().any(|c| c.iter().any(|x| Grid::new(c, nbins).fuzzy(*x))) {
                continue;
            }
            out.push(Tab { cols: cols.clone(), sparse, nbins });
        }
    };
    for n in 1..=3 {
        for c in vectors(&[0.0, 1.0, 2.0, 5.0], n) {
            push(vec![c], None);
        }
    }
    for c in vectors(&[-3.0, 0.0, 1.0], 4) {
        push(vec![c], None);
    }
    for nb in [1, 2, 3, 8, 255] {
        for c in vectors(&[0.0, 1.0, 5.0, 7.0], 3) {
            push(vec![c], Some(nb));
        }
    }
    // Empty bins on both sides of zero.
    for nb in [4, 8, 16] {
        for c in vectors(&[-2.0, -0.5, 0.75, 2.0], 3) {
            push(vec![c], Some(nb));
        }
    }
    // Two columns on 3 (4) rows.
    let two: &[f64] = if quick { &[0.0, 1.0] } else { &[0.0, 1.0, 3.0] };
    for c in vectors(two, 6) {
        push(vec![c[..3].to_vec(), c[3..].to_vec()], None);
    }
    for c in vectors(&[0.0, 1.0], 8) {
        push(vec![c[..4].to_vec(), c[4..].to_vec()], None);
    }
    if !quick {
        for c in vectors(&[0.0, 1.0, 2.0, 5.0], 4) {
            push(vec![c.clone()], None);
            push(vec![c], Some(4));
        }
        for c in vectors(&[0.0, 1.0, 4.0], 5) {
            push(vec![c], None);
        }
        for c in vectors(&[0.0, 2.0], 9) {
            push(vec![c[..3].to_vec(), c[3..6].to_vec(), c[6..].to_vec()], None);
        }
        for c in vectors(&[-1.0, 1.0], 10) {
            push(vec![c[..5].to_vec(), c[5..].to_vec()], None);
        }
    }
    out
}

fn tab_key(t: &Tab) -> String {
    format!("{},bins{:?},{}", if t.sparse { "sparse" } else { "dense" }, t.nbins, t.cols.iter().map(|c| fmt_v(c)).collect::<Vec<_>>().join("/"))
}

/// What a decision tree's criterion thinks of a split (or of none); larger is better.
fn impurity_score(crit: Criterion, w: &dyn Fn(&[usize], f64) -> f64, c: Option<(&[usize], &[usize])>, r: &[usize]) -> f64 {
    let (tp, tm) = (w(r, 1.0), w(r, -1.0));
    let tot = tp + tm;
    let imp = |p: f64, m: f64| {
        let t = p + m;
        let h = |q: f64| if q <= 0.0 { 0.0 } else { -q * q.ln() };
        match crit {
            Criterion::Entropy => h(p / t) + h(m / t),
            _ => 1.0 - (p / t).powi(2) - (m / t).powi(2),
        }
    };
    match crit {
        Criterion::Entropy | Criterion::Gini => match c {
            None => -imp(tp, tm),
            Some((l, rr)) => {
                let (lp, lm, rp, rm) = (w(l, 1.0), w(l, -1.0), w(rr, 1.0), w(rr, -1.0));
                -((lp + lm) * imp(lp, lm) + (rp + rm) * imp(rp, rm)) / tot
            }
        },
        Criterion::Edge => match c {
            None => (tp - tm).abs() / tot,
            Some((l, rr)) => ((w(l, 1.0) - w(l, -1.0)) - (w(rr, 1.0) - w(rr, -1.0))).abs() / tot,
        },
        Criterion::Twoing => match c {
            None => 0.0,
            Some((l, rr)) => {
                let (lp, lm, rp, rm) = (w(l, 1.0), w(l, -1.0), w(rr, 1.0), w(rr, -1.0));
                let (pl, pr) = (lp + lm, rp + rm);
                let s = (lp / pl - rp / pr).abs() + (lm / pl - rm / pr).abs();
                s * s * pl * pr / (4.0 * tot * tot)
            }
        },
    }
}

const CRIT: [(Criterion, &str); 4] = [(Criterion::Entropy, "entropy"), (Criterion::Edge, "edge"), (Criterion::Gini, "gini"), (Criterion::Twoing, "twoing")];

pub fn c19(run: &mut Run) {
    let tabs = tables(run.quick());
    let quick = run.quick();
    let scratch = Scratch::new("c19");
    let dir = scratch.0.clone();
    run.explore("tree", &tabs, tab_key, |t, loc| {
        let n = t.cols[0].len();
        let k = t.cols.len();
        let grids: Vec<Grid> = t.cols.iter().map(|c| Grid::new(c, t.nbins)).collect();
        let probes = probe_points(&t.cols, &grids);
        let psample = probe_sample(&probes);
        let prob = Problem { cols: &t.cols, grids: &grids, probes: &probes, budget: usize::MAX.into() };
        let all: Vec<usize> = (0..probes.len()).collect();
        let mut dists: Vec<Vec<f64>> = if n <= 3 && k == 1 {
            vectors(&[0.0, 1.0, 3.0], n).into_iter().filter(|d| d.iter().any(|x| *x > 0.0)).collect()
        } else {
            vectors(&[1.0, 3.0], n)
        };
        if n >= 4 {
            dists = dists.into_iter().enumerate().filter(|(i, _)| i % if quick { 5 } else { 2 } == 0).map(|x| x.1).collect();
            dists.push((0..n).map(|i| if i == 1 { 0.0 } else { (i + 2) as f64 }).collect());
        }
        for y in vectors(&[-1.0, 1.0], n) {
            let s = if t.sparse { svm_sample(&dir, loc.key(), &t.cols, &y) } else { dense_sample(&t.cols, &y) };
            for (crit, cname) in CRIT {
                for depth in 1..=3usize {
                    if k == 1 && n <= 2 && depth == 3 {
                        continue;
                    }
                    let tree = match guarded(|| {
                        let mut b = DecisionTreeBuilder::new(&s);
                        if let Some(nb) = t.nbins {
                            for j in 0..k {
                                b.set_nbins(format!("Feat. [{}]", j + 1), nb);
                            }
                        }
                        b.max_depth(depth).criterion(crit).build()
                    }) {
                        Ok(x) => x,
                        Err(e) => {
                            loc.viol(format!("building the learner: {e}"));
                            return;
                        }
                    };
                    for (di, d) in dists.iter().enumerate() {
                        let total: f64 = d.iter().sum();
                        // Both a probability vector and an unnormalised one.
                        let shown: Vec<f64> = if di % 3 == 2 { d.clone() } else { d.iter().map(|x| x / total).collect() };
                        let what = || format!("labels {}, weights {shown:?}, {cname}, depth {depth}", fmt_y(&y));
                        let r = guarded(|| {
                            let h = tree.produce(&s, &shown);
                            (h.confidence_all(&s), h.predict_all(&s), h.confidence_all(&psample))
                        });
                        loc.trace();
                        let (own, labels, seen) = match r {
                            Ok(x) => x,
                            Err(e) => {
                                loc.viol(format!("{}: {e}", what()));
                                continue;
                            }
                        };
                        loc.step();
                        loc.state(&format!("{y:?}{d:?}{cname}{depth}"));
                        loc.outcome(&canon(&seen));
                        let rows: Vec<usize> = (0..n).filter(|i| d[*i] > 0.0).collect();
                        let w = |r: &[usize], l: f64| r.iter().filter(|i| y[**i] == l).map(|i| d[*i] / total).sum::<f64>();
                        let leaf = |r: &[usize]| {
                            let (p, m) = (w(r, 1.0), w(r, -1.0));
                            (p - m) / (p + m)
                        };
                        let pure = |r: &[usize]| r.iter().all(|i| y[*i] == y[r[0]]);
                        let score = |c: Option<(&[usize], &[usize])>, r: &[usize]| impurity_score(crit, &w, c, r);
                        let ok = prob.matches(&rows, &all, depth, &seen, &leaf, &pure, &score);
                        loc.check(ok, || format!("{}: confidences {own:?} are not those of a greedy tree", what()));
                        for i in 0..n {
                            let at = (0..probes.len()).find(|p| (0..k).all(|j| probes[*p][j] == t.cols[j][i])).unwrap();
                            loc.check(own[i].to_bits() == seen[at].to_bits(), || format!("{}: row {i} gets {} in the training sample and {} elsewhere", what(), own[i], seen[at]));
                            loc.check(own[i].abs() <= 1.0 && labels[i] == if own[i] >= 0.0 { 1 } else { -1 }, || format!("{}: row {i}: confidence {}, label {}", what(), own[i], labels[i]));
                        }
                    }
                }
            }
        }
        loc.sample(json!({"columns": t.cols, "sparse": t.sparse}));
    });
    big_decision(run, &dir);
    scales(run, "ranges", &dir, |s, cols, loc| {
        // A learner for these columns exists, and depth 1 separates the label if the bins do.
        let y = s.target().to_vec();
        let n = y.len();
        let d = vec![1.0 / n as f64; n];
        let r = guarded(|| {
            let h = DecisionTreeBuilder::new(s).max_depth(4).criterion(Criterion::Entropy).build().produce(s, &d);
            h.confidence_all(s)
        });
        match r {
            Err(e) => loc.viol(format!("{cols:?}: {e}")),
            Ok(c) => {
                loc.check(c.iter().all(|x| x.is_finite() && x.abs() <= 1.0), || format!("{cols:?}: confidences {c:?}"));
                // Monotone data: the smallest value is never given to the wrong side of the largest.
                let first = (0..n).min_by(|a, b| cols[*a].partial_cmp(&cols[*b]).unwrap()).unwrap();
                let last = (0..n).max_by(|a, b| cols[*a].partial_cmp(&cols[*b]).unwrap()).unwrap();
                if y[first] != y[last] && n == 2 && apart(cols) {
                    loc.check(close(c[first], y[first], 1e-9) && close(c[last], y[last], 1e-9), || format!("{cols:?}, labels {y:?}: confidences {c:?}"));
                }
            }
        }
    });
    // Rows of next to no weight count: labels that one threshold explains are all answered
    // with full confidence, whatever the weights.
    let mut tiny = vec![];
    for n in 2..=run.pick(4usize, 6) {
        for cut in 1..n {
            for sparse in [false, true] {
                for ws in vectors(if n <= 4 { &[1.0, 1e-3, 1e-8, 1e-11, 1e-13] } else { &[1.0, 1e-5, 1e-13] }, n) {
                    if ws.contains(&1.0) {
                        tiny.push((n, cut, sparse, ws));
                    }
                }
            }
        }
    }
    // The unit of the weights does not matter, however small or large (powers of two are exact).
    let mut units = vec![];
    for n in 2..=run.pick(4usize, 5) {
        for y in labelings(n) {
            for sparse in [false, true] {
                units.push((n, y.clone(), sparse));
            }
        }
    }
    run.explore("unit", &units, |c| format!("y={},{}", fmt_y(&c.1), if c.2 { "sparse" } else { "dense" }), |(n, y, sparse), loc| {
        let cols = vec![(0..*n).map(|i| ((i * 3 + 1) % 5) as f64).collect::<Vec<_>>(), (0..*n).map(|i| (i % 2) as f64).collect()];
        let s = if *sparse { svm_sample(&dir, loc.key(), &cols, y) } else { dense_sample(&cols, y) };
        for ws in vectors(&[0.0, 1.0, 2.0, 5.0], *n) {
            if ws.iter().all(|w| *w == 0.0) {
                continue;
            }
            for (crit, cname) in CRIT {
                for depth in [1usize, 3] {
                    let grow = |e: i32| {
                        let d: Vec<f64> = ws.iter().map(|w| w * 2f64.powi(e)).collect();
                        guarded(|| DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &d).confidence_all(&s))
                    };
                    let base = grow(-4);
                    for e in [-1000, -300, -60, 0, 60, 300, 900] {
                        let other = grow(e);
                        loc.trace();
                        loc.step();
                        loc.state(&format!("{ws:?}{cname}{depth}{e}"));
                        let same = match (&base, &other) {
                            (Ok(a), Ok(b)) => close_vec(a, b, 1e-9),
                            _ => false,
                        };
                        loc.check(same, || format!("{cname}, depth {depth}, weights {ws:?} times 2^{e}: confidences {other:?}; times 1/16: {base:?}"));
                    }
                }
            }
        }
        loc.outcome(n);
    });
    run.explore("tiny", &tiny, |c| format!("n{},cut{},{},{}", c.0, c.1, if c.2 { "sparse" } else { "dense" }, fmt_v(&c.3)), |(n, cut, sparse, ws), loc| {
        let z: f64 = ws.iter().sum();
        let d: Vec<f64> = ws.iter().map(|w| w / z).collect();
        let cols = vec![(0..*n).map(|i| i as f64).collect::<Vec<_>>()];
        for flip in [1.0, -1.0] {
            let y: Vec<f64> = (0..*n).map(|i| if i < *cut { -flip } else { flip }).collect();
            let s = if *sparse { svm_sample(&dir, loc.key(), &cols, &y) } else { dense_sample(&cols, &y) };
            for (crit, cname) in CRIT {
                for depth in [1usize, 2] {
                    let r = guarded(|| DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &d).confidence_all(&s));
                    loc.trace();
                    loc.step();
                    loc.state(&format!("{d:?}{flip}{cname}{depth}"));
                    loc.check(r.as_ref().is_ok_and(|c| close_vec(c, &y, 1e-9)), || format!("{cname}, depth {depth}, labels {y:?}: confidences {r:?}"));
                }
            }
        }
        loc.outcome(&cut);
    });
    drop(scratch);
    run.rule = "state = (labels, weights, criterion, depth) per table of columns, representation and number of bins; every produced tree compared with the greedy definition at all combinations of training values, values between and values far outside".into();
}

/// The two values differ by more than a few units of rounding.
fn apart(c: &[f64]) -> bool {
    (c[1] - c[0]).abs() > 1e-13 * c[0].abs().max(c[1].abs())
}

/// Columns of very different magnitude and spacing.
fn scales(run: &mut Run, group: &str, dir: &std::path::Path, f: impl Fn(&Sample, &[f64], &mut Local) + Sync) {
    let mut cases: Vec<(f64, f64, usize, bool)> = vec![];
    for base in [0.0, 1.0, -7.0, 1e6, 1e12] {
        for step in [1e-15, 1e-12, 1e-10, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 3.0, 1e3, 1e7, 1e9, 1e12, 1e15] {
            for n in [2usize, 3, 5, 7, 11, 40] {
                for sparse in [false, true] {
                    if base + step != base && base + step * (n as f64) > base + step * (n as f64 - 1.0) && (!sparse || base != 0.0 || n > 1) {
                        cases.push((base, step, n, sparse));
                    }
                }
            }
        }
    }
    // Up to the ends of the floating-point range.
    for n in [2usize, 3, 5, 8, 40] {
        let last = (n - 1) as f64;
        for sparse in [false, true] {
            for (base, step) in [(0.0, 1e-300), (1e-300, 1e-300), (0.0, 1e30), (0.0, 1e200), (-1e300, 1e299), (0.0, f64::MAX / last), (-f64::MAX, f64::MAX / last), (-1e308, 2.0 * (1e308 / last)), (-f64::MAX, 2.0 * (f64::MAX / last)), (1e308, 1e306), (-5.0, 1e308 / last)] {
                if (base + step * last).is_finite() {
                    cases.push((base, step, n, sparse));
                }
            }
        }
    }
    run.explore(group, &cases, |c| format!("base{:e},step{:e},n{},{}", c.0, c.1, c.2, if c.3 { "sparse" } else { "dense" }), |c, loc| {
        let cols: Vec<f64> = (0..c.2).map(|i| c.0 + c.1 * i as f64).collect();
        for flip in [1.0, -1.0] {
            let y: Vec<f64> = (0..c.2).map(|i| if 2 * i < c.2 { -flip } else { flip }).collect();
            let table = vec![cols.clone()];
            let s = if c.3 { svm_sample(dir, loc.key(), &table, &y) } else { dense_sample(&table, &y) };
            loc.trace();
            loc.step();
            loc.state(&format!("{cols:?}{flip}"));
            f(&s, &cols, loc);
        }
    });
}

/// A loss given by tables of gradients and Hessians.
#[derive(Clone)]
struct TableLoss {
    g: Vec<f64>,
    h: Vec<f64>,
}

impl LossFunction for TableLoss {
    fn name(&self) -> &str {
        "table"
    }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 {
        (p - y).powi(2)
    }
    fn gradient(&self, p: &[f64], _: &[f64]) -> Vec<f64> {
        assert_eq!(p.len(), self.g.len());
        self.g.clone()
    }
    fn hessian(&self, p: &[f64], _: &[f64]) -> Vec<f64> {
        assert_eq!(p.len(), self.h.len());
        self.h.clone()
    }
    fn best_coefficient(&self, _: &[f64], _: &[f64]) -> f64 {
        1.0
    }
}

pub fn c20(run: &mut Run) {
    let tabs = tables(run.quick());
    let quick = run.quick();
    let scratch = Scratch::new("c20");
    let dir = scratch.0.clone();
    run.explore("tree", &tabs, tab_key, |t, loc| {
        let n = t.cols[0].len();
        let k = t.cols.len();
        let grids: Vec<Grid> = t.cols.iter().map(|c| Grid::new(c, t.nbins)).collect();
        let probes = probe_points(&t.cols, &grids);
        let psample = probe_sample(&probes);
        let prob = Problem { cols: &t.cols, grids: &grids, probes: &probes, budget: usize::MAX.into() };
        let all: Vec<usize> = (0..probes.len()).collect();
        let mut gs: Vec<Vec<f64>> = if n <= 3 && k == 1 { vectors(&[-1.0, 0.0, 0.1, 0.7, 2.0], n) } else { vectors(&[-1.0, 0.3, 1.0], n) };
        let mut hs: Vec<Vec<f64>> = vec![vec![1.0; n], vec![0.0; n], (0..n).map(|i| 0.5 + i as f64).collect()];
        if n >= 4 {
            gs = gs.into_iter().enumerate().filter(|(i, _)| i % if quick { 13 } else { 4 } == 0).map(|x| x.1).collect();
            gs.push((0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect());
            gs.push((0..n).map(|i| [0.0, 1.0, -1.0, 0.0, 0.0][i]).collect());
        }
        if quick {
            hs.truncate(2);
        }
        let y: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let s = if t.sparse { svm_sample(&dir, loc.key(), &t.cols, &y) } else { dense_sample(&t.cols, &y) };
        for g in &gs {
            for h in &hs {
                for lambda in [0.01, 1.0, 0.0] {
                    if lambda == 0.0 && h.iter().any(|x| *x == 0.0) {
                        continue;
                    }
                    for levels in 1..=run_levels(n, k) {
                        let what = || format!("gradient {g:?}, Hessian {h:?}, lambda {lambda}, depth {levels}");
                        let loss = TableLoss { g: g.clone(), h: h.clone() };
                        let r = guarded(|| {
                            let mut b = RegressionTreeBuilder::new(&s);
                            if let Some(nb) = t.nbins {
                                for j in 0..k {
                                    b.set_nbins(format!("Feat. [{}]", j + 1), nb);
                                }
                            }
                            let tree = b.max_depth(levels).lambda_l2(lambda).loss(loss).build();
                            let f = tree.produce(&s, &vec![0.0; n]);
                            (f.predict_all(&s), f.predict_all(&psample))
                        });
                        loc.trace();
                        loc.step();
                        loc.state(&format!("{g:?}{h:?}{lambda}{levels}"));
                        let (own, seen) = match r {
                            Ok(x) => x,
                            Err(e) => {
                                loc.viol(format!("{}: {e}", what()));
                                continue;
                            }
                        };
                        loc.outcome(&canon(&seen));
                        let sum = |v: &[f64], r: &[usize]| r.iter().map(|i| v[*i]).sum::<f64>();
                        let leaf = |r: &[usize]| -sum(g, r) / (sum(h, r) + lambda);
                        let part = |r: &[usize]| sum(g, r).powi(2) / (sum(h, r) + lambda);
                        let score = |c: Option<(&[usize], &[usize])>, r: &[usize]| match c {
                            None => part(r),
                            Some((a, b)) => part(a) + part(b),
                        };
                        let rows: Vec<usize> = (0..n).collect();
                        let ok = prob.matches(&rows, &all, levels - 1, &seen, &leaf, &|_| false, &score);
                        loc.check(ok, || format!("{}: predictions {own:?} are not those of a greedy tree", what()));
                        for i in 0..n {
                            let at = (0..probes.len()).find(|p| (0..k).all(|j| probes[*p][j] == t.cols[j][i])).unwrap();
                            loc.check(own[i].to_bits() == seen[at].to_bits(), || format!("{}: row {i} gets {} in the training sample and {} elsewhere", what(), own[i], seen[at]));
                        }
                    }
                }
            }
        }
        loc.sample(json!({"columns": t.cols, "sparse": t.sparse}));
    });
    // The unit of the targets does not matter: powers of two scale exactly.
    let small: Vec<_> = tabs.iter().filter(|t| t.cols[0].len() <= 4).step_by(run.pick(3, 1)).cloned().collect();
    run.explore("units", &small, tab_key, |t, loc| {
        let n = t.cols[0].len();
        let k = t.cols.len();
        let y: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let s = if t.sparse { svm_sample(&dir, loc.key(), &t.cols, &y) } else { dense_sample(&t.cols, &y) };
        let psample = probe_sample(&probe_points(&t.cols, &t.cols.iter().map(|c| Grid::new(c, t.nbins)).collect::<Vec<_>>()));
        let grow = |g: &[f64], h: f64, lambda: f64, levels: usize| {
            guarded(|| {
                let mut b = RegressionTreeBuilder::new(&s);
                if let Some(nb) = t.nbins {
                    for j in 0..k {
                        b.set_nbins(format!("Feat. [{}]", j + 1), nb);
                    }
                }
                let loss = TableLoss { g: g.to_vec(), h: vec![h; n] };
                b.max_depth(levels).lambda_l2(lambda).loss(loss).build().produce(&s, &vec![0.0; n]).predict_all(&psample)
            })
        };
        let gs: Vec<Vec<f64>> = vectors(&[-1.0, 0.0, 0.5, 2.0], n).into_iter().step_by(if n <= 2 { 1 } else if n == 3 { 5 } else { 13 }).collect();
        for g in &gs {
            for (h, lambda) in [(1.0, 0.25), (0.0, 1.0), (1.0, 0.0)] {
                for levels in [2, 3] {
                    let base = grow(g, h, lambda, levels);
                    loc.trace();
                    loc.state(&format!("{g:?}{h}{lambda}{levels}"));
                    for e in [-200, -70, -33, -20, 20, 33, 70, 200] {
                        let q = 2f64.powi(e);
                        let scaled: Vec<f64> = g.iter().map(|x| x * q).collect();
                        loc.step();
                        let other = grow(&scaled, h, lambda, levels);
                        let want = base.clone().map(|v| v.iter().map(|x| x * q).collect::<Vec<_>>());
                        loc.check(other == want && other.is_ok(), || format!("gradient {g:?} times 2^{e}, Hessian {h}, lambda {lambda}, depth {levels}: predictions {other:?}, scaled back {base:?}"));
                        if h > 0.0 {
                            loc.step();
                            let other = grow(&scaled, h * q, lambda * q, levels);
                            loc.check(other == base, || format!("gradient {g:?}, Hessian {h} and lambda {lambda} all times 2^{e}, depth {levels}: predictions {other:?}, unscaled {base:?}"));
                        }
                    }
                    if let Ok(v) = base {
                        loc.outcome(&canon(&v));
                    }
                }
            }
        }
    });
    big_regression(run, &dir);
    scales(run, "ranges", &dir, |s, cols, loc| {
        let y = s.target().to_vec();
        let n = y.len();
        let r = guarded(|| RegressionTreeBuilder::new(s).max_depth(4).lambda_l2(1e-9).loss(miniboosts::GBMLoss::L2).build().produce(s, &vec![0.0; n]).predict_all(s));
        match r {
            Err(e) => loc.viol(format!("{cols:?}: {e}")),
            Ok(c) => {
                loc.check(c.iter().all(|x| x.is_finite() && x.abs() <= 1.0 + 1e-6), || format!("{cols:?}: predictions {c:?}"));
                if n == 2 && apart(cols) {
                    loc.check((0..2).all(|i| close(c[i], y[i], 1e-6)), || format!("{cols:?}, targets {y:?}: predictions {c:?}"));
                }
            }
        }
    });
    drop(scratch);
    run.rule = "state = (gradients, Hessians, regularisation, depth) per table of columns, representation and number of bins; every produced tree compared with the greedy definition at all combinations of training values, values between and values far outside".into();
}

fn run_levels(n: usize, k: usize) -> usize {
    if k == 1 && n <= 2 { 3 } else { 4 }
}

// Larger tables: more rows than bins, many columns, deep trees, weights from even to steep.
const SHAPES: [(&str, fn(usize, usize) -> f64); 17] = [
    ("ramp", |i, _| i as f64),
    ("down", |i, n| (n as f64 - i as f64) * 0.75),
    ("cycle", |i, _| ((i * 7) % 11) as f64 - 5.0),
    ("squares", |i, _| (i * i) as f64),
    ("powers", |i, _| 2f64.powi((i % 20) as i32)),
    ("wave", |i, _| (i as f64 * 1.3).sin()),
    ("rare", |i, _| if i % 9 == 3 { 4.0 + i as f64 } else { 0.0 }),
    ("blocks", |i, _| ((i / 8) % 3) as f64),
    ("close", |i, _| 1.0 + 1e-6 * ((i * 5) % 17) as f64),
    ("far", |i, _| 1e7 + ((i * 3) % 29) as f64),
    ("constant", |_, _| 0.7),
    ("outlier", |i, n| if i + 1 == n { 1e6 } else { ((i * 5) % 23) as f64 }),
    ("negative", |i, _| -1.0 - ((i * 11) % 31) as f64 / 7.0),
    ("binary", |i, _| (i % 2) as f64),
    ("ternary", |i, _| ((i / 3) % 3) as f64 - 1.0),
    ("hash", |i, _| ((i * 7919 + 13) % 1009) as f64 / 3.0),
    ("low", |i, _| -2e4 - 150.0 * ((i * 13) % 37) as f64),
];
const NAMES: [(&str, fn(usize) -> String); 3] = [("feat", |j| format!("Feat. [{}]", j + 1)), ("prefix", |j| "x".repeat(j + 1)), ("odd", |j| format!("[{}] a;\"{j}", 9 - j % 10))];

#[derive(Clone, PartialEq, PartialOrd, Debug)]
pub struct Big {
    pub n: usize,
    cols: Vec<usize>,
    bins: usize,
    pub names: usize,
    pub sparse: bool,
    seed: usize,
}
const BINS: [(&str, fn(usize) -> Option<usize>); 6] =
    [("default", |_| None), ("2", |_| Some(2)), ("7", |_| Some(7)), ("64", |_| Some(64)), ("300", |_| Some(300)), ("mixed", |j| [None, Some(3), Some(33), Some(1)][j % 4])];

pub fn bigs(quick: bool) -> Vec<Big> {
    let sets: Vec<Vec<usize>> = vec![
        vec![0], vec![2], vec![3], vec![5], vec![6], vec![8], vec![9], vec![11], vec![15], vec![16],
        vec![0, 5], vec![13, 14], vec![6, 2], vec![10, 7], vec![4, 12], vec![15, 5], vec![8, 9], vec![15, 13], vec![16, 5],
        vec![2, 7, 13], vec![5, 15, 12], vec![10, 6, 14, 8], (0..16).collect(), vec![13, 13, 14, 14, 7, 2, 15],
    ];
    let mut out = vec![];
    let ns: &[usize] = if quick { &[6, 9, 16, 33, 65, 130, 256, 300] } else { &[6, 7, 8, 9, 12, 16, 24, 33, 50, 65, 100, 130, 200, 255, 256, 257, 300, 520, 700] };
    for &n in ns {
        for (c, cols) in sets.iter().enumerate() {
            for bins in 0..BINS.len() {
                if n > 100 && (bins + c) % (if quick { 3 } else { 2 }) != 0 {
                    continue;
                }
                for sparse in [false, true] {
                    let names = if sparse { 0 } else { (n + c + bins) % NAMES.len() };
                    for seed in 0..if quick || n > 300 { 1 } else { 2 } {
                        out.push(Big { n, cols: cols.clone(), bins, names, sparse, seed });
                    }
                }
            }
        }
    }
    out
}

pub struct Made {
    pub cols: Vec<Vec<f64>>,
    pub names: Vec<String>,
    grids: Vec<Grid>,
    probes: Vec<Vec<f64>>,
    pub psample: Sample,
}

/// The table of a `Big`; `None` if rounding decides the bin of some value.
pub fn make_big(b: &Big) -> Option<Made> {
    let n = b.n;
    let cols: Vec<Vec<f64>> = b.cols.iter().enumerate().map(|(p, c)| (0..n).map(|i| SHAPES[*c].1((i * (2 * b.seed + 1) + p) % (n + 7 * b.seed), n)).collect()).collect();
    if b.sparse && cols.iter().any(|c| c.iter().all(|x| *x == 0.0)) {
        return None;
    }
    let grids: Vec<Grid> = cols.iter().enumerate().map(|(j, c)| Grid::new(c, BINS[b.bins].1(j))).collect();
    if cols.iter().zip(&grids).any(|(c, g)| c.iter().any(|x| g.fuzzy(*x))) {
        return None;
    }
    let names: Vec<String> = (0..cols.len()).map(NAMES[b.names].1).collect();
    // Every training row; rows moved in one column, or recombined.
    let mut probes: Vec<Vec<f64>> = (0..n).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
    let stride = 1 + n * cols.len() / 400;
    for i in (0..n).step_by(stride) {
        for j in 0..cols.len() {
            let mut v = cols[j].clone();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            let at = v.iter().position(|x| *x == cols[j][i]).unwrap();
            let mut row = probes[i].clone();
            let mut put = |x: f64| { row[j] = x; probes.push(row.clone()); };
            if at + 1 < v.len() {
                put(v[at] + (v[at + 1] - v[at]) * 0.3);
                put(v[at] + (v[at + 1] - v[at]) * 0.5);
                put(v[at] + (v[at + 1] - v[at]) * 0.8);
            }
            put(-1e9);
            put(1e9);
            put(cols[j][(i * 3 + 1) % n]);
        }
    }
    let mut named: Vec<(&str, Vec<f64>)> = vec![("extra", vec![0.25; probes.len()])];
    for j in (0..cols.len()).rev() {
        named.push((&names[j], probes.iter().map(|p| p[j]).collect()));
    }
    let py: Vec<f64> = (0..probes.len()).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let psample = df_sample(&named, &py);
    Some(Made { cols, names, grids, probes, psample })
}

pub fn big_sample(b: &Big, m: &Made, dir: &std::path::Path, key: &str, y: &[f64]) -> Sample {
    if b.sparse {
        svm_sample(dir, key, &m.cols, y)
    } else {
        let named: Vec<(&str, Vec<f64>)> = m.names.iter().map(|s| s.as_str()).zip(m.cols.iter().cloned()).collect();
        df_sample(&named, y)
    }
}

pub fn big_key(b: &Big) -> String {
    format!("n{},cols{},bins {},{},{},seed{}", b.n, fmt_i(&b.cols), BINS[b.bins].0, NAMES[b.names].0, if b.sparse { "sparse" } else { "dense" }, b.seed)
}

const UNDECIDED: usize = 40_000;

type Labeling<'a> = (String, Box<dyn Fn(usize) -> f64 + Sync + 'a>);

/// Judges the tree learnt from a `Big` table for each labelling, criterion
/// and depth against every greedy tree.
fn judge_big(b: &Big, m: &Made, dir: &std::path::Path, labelings: &[Labeling], depths: &[usize], skip: &dyn Fn(usize, usize, usize) -> bool, weightings: &[(&str, fn(usize) -> f64)], loc: &mut Local) {
    let n = b.n;
    let all: Vec<usize> = (0..m.probes.len()).collect();
    for (li, (lname, lab)) in labelings.iter().enumerate() {
        let y: Vec<f64> = (0..n).map(lab).collect();
        if !y.contains(&1.0) || !y.contains(&-1.0) {
            continue;
        }
        let s = big_sample(b, m, dir, loc.key(), &y);
        for (ci, (crit, cname)) in CRIT.into_iter().enumerate() {
            for &depth in depths {
                if skip(li, ci, depth) {
                    continue;
                }
                let tree = match guarded(|| {
                    let mut t = DecisionTreeBuilder::new(&s);
                    for (j, name) in m.names.iter().enumerate() {
                        if let Some(k) = BINS[b.bins].1(j) {
                            t.set_nbins(name, k);
                        }
                    }
                    t.max_depth(depth).criterion(crit).build()
                }) {
                    Ok(t) => t,
                    Err(e) => return loc.viol(format!("building the learner: {e}")),
                };
                for (wname, wf) in weightings {
                    let d: Vec<f64> = (0..n).map(wf).collect();
                    let total: f64 = d.iter().sum();
                    let d: Vec<f64> = d.iter().map(|x| x / total).collect();
                    let what = || format!("labels {lname}, weights {wname}, {cname}, depth {depth}");
                    let r = guarded(|| {
                        let h = tree.produce(&s, &d);
                        (h.confidence_all(&s), h.confidence_all(&m.psample))
                    });
                    loc.trace();
                    loc.step();
                    let (own, seen) = match r {
                        Ok(x) => x,
                        Err(e) => {
                            loc.viol(format!("{}: {e}", what()));
                            continue;
                        }
                    };
                    loc.state(&(big_key(b), lname, wname, cname, depth));
                    for i in 0..n {
                        loc.check(own[i].to_bits() == seen[i].to_bits() && own[i].abs() <= 1.0, || format!("{}: row {i} gets {} in the training sample and {} elsewhere", what(), own[i], seen[i]));
                    }
                    let rows: Vec<usize> = (0..n).filter(|i| d[*i] > 0.0).collect();
                    let w = |r: &[usize], l: f64| r.iter().filter(|i| y[**i] == l).map(|i| d[*i]).sum::<f64>();
                    let leaf = |r: &[usize]| {
                        let (p, q) = (w(r, 1.0), w(r, -1.0));
                        (p - q) / (p + q)
                    };
                    let pure = |r: &[usize]| r.iter().all(|i| y[*i] == y[r[0]]);
                    let score = |c: Option<(&[usize], &[usize])>, r: &[usize]| impurity_score(crit, &w, c, r);
                    let prob = Problem { cols: &m.cols, grids: &m.grids, probes: &m.probes, budget: UNDECIDED.into() };
                    let ok = prob.matches(&rows, &all, depth, &seen, &leaf, &pure, &score);
                    loc.count(if prob.budget.get() == 0 { "large trees left undecided (too many ties)" } else { "large trees decided" });
                    loc.outcome(&canon(&own));
                    loc.check(ok, || format!("{}: confidences {:?}... are not those of a greedy tree", what(), &own[..own.len().min(12)]));
                }
            }
        }
    }
}

fn big_decision(run: &mut Run, dir: &std::path::Path) {
    let cases = bigs(run.quick());
    let quick = run.quick();
    let labelings: Vec<(&str, fn(usize, usize) -> f64)> = vec![
        ("hash", |i, _| if (i * 2654435761) % 7 < 3 { 1.0 } else { -1.0 }),
        ("half", |i, n| if 2 * i < n { 1.0 } else { -1.0 }),
        ("bands", |i, _| if (i / 5) % 2 == 0 { 1.0 } else { -1.0 }),
        ("rare", |i, _| if i % 13 == 4 { 1.0 } else { -1.0 }),
        ("xor", |i, _| if (i % 2 == 0) != ((i / 3) % 3 == 1) { 1.0 } else { -1.0 }),
    ];
    let weightings: Vec<(&str, fn(usize) -> f64)> = vec![
        ("uniform", |_| 1.0),
        ("ramp", |i| (i % 10 + 1) as f64),
        ("holes", |i| if i % 4 == 1 { 0.0 } else { 1.0 + (i % 3) as f64 }),
        ("steep", |i| 10f64.powi(-((i % 6) as i32))),
    ];
    run.explore("large", &cases, big_key, |b, loc| {
        let Some(m) = make_big(b) else { return };
        let n = b.n;
        let labs: Vec<Labeling> = labelings.iter().map(|(name, f)| (name.to_string(), Box::new(move |i| f(i, n)) as Box<dyn Fn(usize) -> f64 + Sync>)).collect();
        judge_big(b, &m, dir, &labs, &[1, 2, 3, 4, 6], &|li, ci, depth| quick && (li + ci + depth + n) % 3 != 0, &weightings, loc);
    });
    // Trees that grow down one side, as deep as they have rows.
    let deep: Vec<Big> = (if quick { vec![24usize, 40] } else { vec![18, 24, 33, 40, 56, 70] }).into_iter().flat_map(|n| [0usize, 1, 3].into_iter().flat_map(move |c| [false, true].into_iter().map(move |sparse| Big { n, cols: vec![c], bins: 0, names: 0, sparse, seed: 0 }))).collect();
    let slopes: Vec<(&str, fn(usize) -> f64)> = vec![("rising", |i| i as f64 + 5.0), ("falling", |i| 1.09f64.powi(-(i as i32))), ("climbing", |i| 1.12f64.powi(i as i32))];
    run.explore("deep", &deep, big_key, |b, loc| {
        let Some(m) = make_big(b) else { return };
        let labs: Vec<Labeling> = vec![
            ("alternating".into(), Box::new(|i| if i % 2 == 0 { 1.0 } else { -1.0 })),
            ("in threes".into(), Box::new(|i| if i % 3 == 0 { 1.0 } else { -1.0 })),
        ];
        judge_big(b, &m, dir, &labs, &[9, 15, 16, 17, 20, 31, 33, b.n, 200, 1000], &|_, _, _| false, &slopes, loc);
    });
    // All rows but one or two carry the same label.
    let mut cases = vec![];
    for n in if quick { vec![5usize, 12, 25, 45] } else { vec![5, 8, 12, 18, 25, 33, 45, 61] } {
        for cols in [vec![0], vec![2], vec![14], vec![0, 14], vec![13, 3]] {
            for sparse in [false, true] {
                cases.push(Big { n, cols: cols.clone(), bins: 4, names: 0, sparse, seed: 0 });
            }
        }
    }
    run.explore("nearly-pure", &cases, big_key, |b, loc| {
        let Some(m) = make_big(b) else { return };
        let n = b.n;
        let mut labs: Vec<Labeling> = vec![];
        for sign in [1.0, -1.0] {
            for at in 0..n {
                labs.push((format!("{} but at {at}", -sign), Box::new(move |i| if i == at { sign } else { -sign })));
                if at % 5 == 2 {
                    labs.push((format!("{} but at {at} and {}", -sign, (2 * at + 1) % n), Box::new(move |i| if i == at || i == (2 * at + 1) % n { sign } else { -sign })));
                }
            }
        }
        judge_big(b, &m, dir, &labs, if quick { &[1, 3] } else { &[1, 2, 3, 6] }, &|_, _, _| false, &weightings[..2], loc);
    });
}

/// Gradients and Hessians that depend on prediction and target.
#[derive(Clone)]
struct MixedLoss;
impl LossFunction for MixedLoss {
    fn name(&self) -> &str {
        "mixed"
    }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 {
        (p - y).powi(2)
    }
    fn gradient(&self, p: &[f64], y: &[f64]) -> Vec<f64> {
        p.iter().zip(y).map(|(p, y)| 1.25 * p - y).collect()
    }
    fn hessian(&self, p: &[f64], y: &[f64]) -> Vec<f64> {
        p.iter().zip(y).map(|(p, y)| 0.5 + p.abs() + 0.1 * y.abs()).collect()
    }
    fn best_coefficient(&self, _: &[f64], _: &[f64]) -> f64 {
        1.0
    }
}

fn big_regression(run: &mut Run, dir: &std::path::Path) {
    let cases = bigs(run.quick());
    let quick = run.quick();
    let targets: Vec<(&str, fn(usize, usize) -> f64)> = vec![
        ("hash", |i, _| ((i * 7919) % 13) as f64 / 4.0 - 1.0),
        ("ramp", |i, n| i as f64 / n as f64),
        ("bands", |i, _| if (i / 5) % 2 == 0 { 1.0 } else { -1.0 }),
        ("rare", |i, _| if i % 13 == 4 { 100.0 } else { 0.0 }),
    ];
    let preds: Vec<(&str, fn(usize) -> f64)> = vec![("zero", |_| 0.0), ("wave", |i| (i as f64).cos()), ("large", |i| 30.0 * ((i % 4) as f64 - 1.0))];
    run.explore("large", &cases, big_key, |b, loc| {
        let Some(m) = make_big(b) else { return };
        let n = b.n;
        let all: Vec<usize> = (0..m.probes.len()).collect();
        for (ti, (tname, tf)) in targets.iter().enumerate() {
            let y: Vec<f64> = (0..n).map(|i| tf(i, n)).collect();
            let s = big_sample(b, &m, dir, loc.key(), &y);
            for (li, lambda) in [0.01, 1.0, 25.0].into_iter().enumerate() {
                for levels in [1usize, 2, 3, 4, 6] {
                    if quick && (ti + li + levels + b.n) % 3 != 0 {
                        continue;
                    }
                    let tree = match guarded(|| {
                        let mut t = RegressionTreeBuilder::new(&s);
                        for (j, name) in m.names.iter().enumerate() {
                            if let Some(k) = BINS[b.bins].1(j) {
                                t.set_nbins(name, k);
                            }
                        }
                        t.max_depth(levels).lambda_l2(lambda).loss(MixedLoss).build()
                    }) {
                        Ok(t) => t,
                        Err(e) => return loc.viol(format!("building the learner: {e}")),
                    };
                    for (pname, pf) in &preds {
                        let p: Vec<f64> = (0..n).map(pf).collect();
                        let what = || format!("targets {tname}, predictions {pname}, lambda {lambda}, depth {levels}");
                        let r = guarded(|| {
                            let f = tree.produce(&s, &p);
                            (f.predict_all(&s), f.predict_all(&m.psample))
                        });
                        loc.trace();
                        loc.step();
                        let (own, seen) = match r {
                            Ok(x) => x,
                            Err(e) => {
                                loc.viol(format!("{}: {e}", what()));
                                continue;
                            }
                        };
                        loc.state(&(big_key(b), tname, pname, li, levels));
                        for i in 0..n {
                            loc.check(own[i].to_bits() == seen[i].to_bits(), || format!("{}: row {i} gets {} in the training sample and {} elsewhere", what(), own[i], seen[i]));
                        }
                        let (g, h) = (MixedLoss.gradient(&p, &y), MixedLoss.hessian(&p, &y));
                        let sum = |v: &[f64], r: &[usize]| r.iter().map(|i| v[*i]).sum::<f64>();
                        let leaf = |r: &[usize]| -sum(&g, r) / (sum(&h, r) + lambda);
                        let part = |r: &[usize]| sum(&g, r).powi(2) / (sum(&h, r) + lambda);
                        let score = |c: Option<(&[usize], &[usize])>, r: &[usize]| match c {
                            None => part(r),
                            Some((a, b)) => part(a) + part(b),
                        };
                        let rows: Vec<usize> = (0..n).collect();
                        let prob = Problem { cols: &m.cols, grids: &m.grids, probes: &m.probes, budget: UNDECIDED.into() };
                        let ok = prob.matches(&rows, &all, levels - 1, &seen, &leaf, &|_| false, &score);
                        loc.count(if prob.budget.get() == 0 { "large trees left undecided (too many ties)" } else { "large trees decided" });
                        loc.outcome(&canon(&own));
                        loc.check(ok, || format!("{}: predictions {:?}... are not those of a greedy tree", what(), &own[..own.len().min(12)]));
                    }
                }
            }
        }
    });
    // Trees that grow down one side, as deep as they have rows.
    let mut deep = vec![];
    for n in if quick { vec![24usize, 40] } else { vec![18, 24, 33, 40, 56, 70] } {
        for c in [0usize, 1] {
            for sparse in [false, true] {
                for growth in [1.5f64, 1.9, 1.0 / 1.5, 1.0 / 1.9] {
                    deep.push((Big { n, cols: vec![c], bins: 0, names: 0, sparse, seed: 0 }, growth));
                }
            }
        }
    }
    run.explore("deep", &deep, |(b, q)| format!("{},growth{q:.2}", big_key(b)), |(b, growth), loc| {
        let Some(m) = make_big(b) else { return };
        let n = b.n;
        let all: Vec<usize> = (0..m.probes.len()).collect();
        let rows: Vec<usize> = (0..n).collect();
        let y: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let s = big_sample(b, &m, dir, loc.key(), &y);
        for sign in [1.0f64, -1.0] {
            let g: Vec<f64> = (0..n).map(|i| sign.powi(i as i32) * growth.powi(if *growth > 1.0 { i as i32 } else { i as i32 - n as i32 })).collect();
            for lambda in [0.01, 1.0] {
                for levels in [10usize, 16, 17, 18, 20, 32, 34, n, 200, 1000] {
                    let loss = TableLoss { g: g.clone(), h: vec![1.0; n] };
                    let r = guarded(|| {
                        let t = RegressionTreeBuilder::new(&s).max_depth(levels).lambda_l2(lambda).loss(loss).build();
                        t.produce(&s, &vec![0.0; n]).predict_all(&m.psample)
                    });
                    loc.trace();
                    loc.step();
                    let what = || format!("signs {sign}, lambda {lambda}, depth {levels}");
                    let seen = match r {
                        Ok(x) => x,
                        Err(e) => {
                            loc.viol(format!("{}: {e}", what()));
                            continue;
                        }
                    };
                    loc.state(&(big_key(b), canon(&[*growth, sign, lambda]), levels));
                    let sum = |r: &[usize]| r.iter().map(|i| g[*i]).sum::<f64>();
                    let leaf = |r: &[usize]| -sum(r) / (r.len() as f64 + lambda);
                    let part = |r: &[usize]| sum(r).powi(2) / (r.len() as f64 + lambda);
                    let score = |c: Option<(&[usize], &[usize])>, r: &[usize]| match c {
                        None => part(r),
                        Some((a, b)) => part(a) + part(b),
                    };
                    let prob = Problem { cols: &m.cols, grids: &m.grids, probes: &m.probes, budget: UNDECIDED.into() };
                    let ok = prob.matches(&rows, &all, levels - 1, &seen, &leaf, &|_| false, &score);
                    loc.count(if prob.budget.get() == 0 { "large trees left undecided (too many ties)" } else { "large trees decided" });
                    loc.outcome(&canon(&seen));
                    loc.check(ok, || format!("{}: predictions {:?}... are not those of a greedy tree", what(), &seen[..n]));
                }
            }
        }
    });
}
