//! Shared alphabet: tiny samples, table hypotheses, scripted weak learners,
//! and boring reference computations (LP by simplex, soft margin by sorting).
use miniboosts::prelude::*;
use crate::fw::guarded;
use polars::prelude::{DataFrame, NamedFrom, Series};
use std::cell::RefCell;
use std::sync::Arc;

pub fn df_sample(cols: &[(&str, Vec<f64>)], y: &[f64]) -> Sample {
    let series: Vec<Series> = cols.iter().map(|(n, c)| Series::new(n, c.clone())).collect();
    let df = DataFrame::new(series).expect("dataframe");
    Sample::from_dataframe(df, Series::new("class", y.to_vec())).expect("sample")
}

/// A sample whose single feature is the row number (irrelevant to table hypotheses).
pub fn row_sample(y: &[f64]) -> Sample {
    let col: Vec<f64> = (0..y.len()).map(|i| i as f64).collect();
    df_sample(&[("row", col)], y)
}

/// Hypothesis given by its table of confidences, one per training row.
#[derive(Clone, Debug, PartialEq)]
pub struct TableH {
    pub id: usize,
    pub conf: Arc<Vec<f64>>,
}

impl TableH {
    pub fn new(id: usize, conf: Vec<f64>) -> Self {
        TableH { id, conf: Arc::new(conf) }
    }
}

impl Classifier for TableH {
    fn confidence(&self, _s: &Sample, row: usize) -> f64 {
        self.conf[row]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TableR {
    pub id: usize,
    pub val: Arc<Vec<f64>>,
}

impl Regressor for TableR {
    fn predict(&self, _s: &Sample, row: usize) -> f64 {
        self.val[row]
    }
}

/// Weak learner answering from a script (by position in the menu); records what it is shown.
pub struct Scripted<'a, H> {
    pub menu: &'a [H],
    pub script: Vec<usize>,
    pub log: RefCell<Vec<Vec<f64>>>,
}

impl<'a, H> Scripted<'a, H> {
    pub fn new(menu: &'a [H], script: Vec<usize>) -> Self {
        Scripted { menu, script, log: RefCell::new(vec![]) }
    }
}

/// Refuse a weight vector that does not have one entry per example.
fn well_formed(s: &Sample, dist: &[f64]) {
    let m = s.shape().0;
    assert!(dist.len() == m, "the weak learner was shown {} weights for {m} examples", dist.len());
}

impl<H: Clone> WeakLearner for Scripted<'_, H> {
    type Hypothesis = H;
    fn produce(&self, s: &Sample, dist: &[f64]) -> H {
        well_formed(s, dist);
        let k = self.log.borrow().len();
        self.log.borrow_mut().push(dist.to_vec());
        // Past the script's end keep giving the last answer.
        let j = *self.script.get(k).or(self.script.last()).unwrap();
        self.menu[j].clone()
    }
}

/// Weak learner over a finite class returning a hypothesis of maximum edge.
/// `last` breaks ties towards the last element instead of the first.
pub struct MaxEdge<'a> {
    pub y: &'a [f64],
    pub class: &'a [TableH],
    pub last: bool,
    pub log: RefCell<Vec<Vec<f64>>>,
    pub picks: RefCell<Vec<usize>>,
}

impl<'a> MaxEdge<'a> {
    pub fn new(y: &'a [f64], class: &'a [TableH], last: bool) -> Self {
        MaxEdge { y, class, last, log: RefCell::new(vec![]), picks: RefCell::new(vec![]) }
    }
}

pub fn edge(y: &[f64], d: &[f64], h: &[f64]) -> f64 {
    (0..y.len()).map(|i| d[i] * y[i] * h[i]).sum()
}

impl WeakLearner for MaxEdge<'_> {
    type Hypothesis = TableH;
    fn produce(&self, s: &Sample, dist: &[f64]) -> TableH {
        well_formed(s, dist);
        let mut best = 0;
        let mut be = f64::NEG_INFINITY;
        for (j, h) in self.class.iter().enumerate() {
            let e = edge(self.y, dist, &h.conf);
            if e > be + 1e-12 || (self.last && e > be - 1e-12) {
                best = j;
                be = be.max(e);
            }
        }
        self.log.borrow_mut().push(dist.to_vec());
        self.picks.borrow_mut().push(best);
        self.class[best].clone()
    }
}

/// All vectors of length `m` over `alphabet`, lexicographic.
pub fn vectors(alphabet: &[f64], m: usize) -> Vec<Vec<f64>> {
    let mut out = vec![vec![]];
    for _ in 0..m {
        out = out
            .into_iter()
            .flat_map(|v: Vec<f64>| {
                alphabet.iter().map(move |a| {
                    let mut w = v.clone();
                    w.push(*a);
                    w
                })
            })
            .collect();
    }
    out
}

/// All labelings of length m over {-1,+1} using both labels.
pub fn labelings(m: usize) -> Vec<Vec<f64>> {
    vectors(&[1.0, -1.0], m).into_iter().filter(|y| y.iter().any(|v| *v > 0.0) && y.iter().any(|v| *v < 0.0)).collect()
}

/// All sequences of length `len` over 0..k.
pub fn sequences(k: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                (0..k).map(move |a| {
                    let mut w = v.clone();
                    w.push(a);
                    w
                })
            })
            .collect();
    }
    out
}

/// All subsets of 0..k with size in lo..=hi, as sorted index lists.
pub fn subsets(k: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(k: usize, start: usize, hi: usize, lo: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() >= lo {
            out.push(cur.clone());
        }
        if cur.len() == hi {
            return;
        }
        for i in start..k {
            cur.push(i);
            rec(k, i + 1, hi, lo, cur, out);
            cur.pop();
        }
    }
    rec(k, 0, hi, lo, &mut vec![], &mut out);
    out.sort_by_key(|s| (s.len(), s.clone()));
    out
}

/// Soft margin `min_{d in capped simplex} sum_i d_i margin_i` (cap 1/nu), by sorting.
pub fn soft_margin(margins: &[f64], nu: f64) -> f64 {
    let mut m = margins.to_vec();
    m.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut left = 1.0f64;
    let mut v = 0.0;
    for x in m {
        let take = left.min(1.0 / nu);
        v += take * x;
        left -= take;
        if left <= 0.0 {
            break;
        }
    }
    v
}

/// Maximise c.x s.t. A x = b, x >= 0 (b >= 0), two-phase simplex with Bland's rule.
pub fn simplex(a: &[Vec<f64>], b: &[f64], c: &[f64]) -> (f64, Vec<f64>) {
    let m = a.len();
    let n = c.len();
    let mut t: Vec<Vec<f64>> = (0..m)
        .map(|i| {
            let mut r = a[i].clone();
            r.extend((0..m).map(|k| if k == i { 1.0 } else { 0.0 }));
            r.push(b[i]);
            r
        })
        .collect();
    let mut basis: Vec<usize> = (n..n + m).collect();
    const E: f64 = 1e-11;
    fn run(t: &mut [Vec<f64>], basis: &mut [usize], cost: &[f64], ncols: usize) {
        let m = t.len();
        let rhs = t[0].len() - 1;
        for _ in 0..100_000 {
            // reduced costs
            let mut enter = None;
            for j in 0..ncols {
                if basis.contains(&j) {
                    continue;
                }
                let z: f64 = (0..m).map(|i| cost[basis[i]] * t[i][j]).sum();
                if cost[j] - z > 1e-10 {
                    enter = Some(j);
                    break;
                }
            }
            let Some(j) = enter else { return };
            let mut leave: Option<usize> = None;
            for i in 0..m {
                if t[i][j] > E {
                    let r = t[i][rhs] / t[i][j];
                    match leave {
                        None => leave = Some(i),
                        Some(l) => {
                            let rl = t[l][rhs] / t[l][j];
                            if r < rl - 1e-12 || (r < rl + 1e-12 && basis[i] < basis[l]) {
                                leave = Some(i)
                            }
                        }
                    }
                }
            }
            let l = leave.expect("reference LP unbounded");
            let p = t[l][j];
            for v in t[l].iter_mut() {
                *v /= p;
            }
            let row = t[l].clone();
            for (i, r) in t.iter_mut().enumerate() {
                if i != l && r[j] != 0.0 {
                    let f = r[j];
                    for (x, y) in r.iter_mut().zip(&row) {
                        *x -= f * y;
                    }
                }
            }
            basis[l] = j;
        }
        panic!("reference simplex did not terminate");
    }
    let mut cost1 = vec![0.0; n + m];
    for v in cost1[n..].iter_mut() {
        *v = -1.0;
    }
    run(&mut t, &mut basis, &cost1, n + m);
    let rhs = n + m;
    let infeas: f64 = (0..m).filter(|&i| basis[i] >= n).map(|i| t[i][rhs]).sum();
    assert!(infeas < 1e-8, "reference LP infeasible");
    // Drive zero artificials out where possible.
    for i in 0..m {
        if basis[i] >= n {
            if let Some(j) = (0..n).find(|&j| t[i][j].abs() > 1e-9 && !basis.contains(&j)) {
                let p = t[i][j];
                for v in t[i].iter_mut() {
                    *v /= p;
                }
                let row = t[i].clone();
                for (k, r) in t.iter_mut().enumerate() {
                    if k != i {
                        let f = r[j];
                        for (x, y) in r.iter_mut().zip(&row) {
                            *x -= f * y;
                        }
                    }
                }
                basis[i] = j;
            }
        }
    }
    let mut cost2 = c.to_vec();
    cost2.extend(vec![0.0; m]);
    run(&mut t, &mut basis, &cost2, n);
    let mut x = vec![0.0; n + m];
    for i in 0..m {
        x[basis[i]] = t[i][rhs];
    }
    x.truncate(n);
    (c.iter().zip(&x).map(|(a, b)| a * b).sum(), x)
}

/// Exact optimum of the soft-margin game: max over convex combinations of the
/// margin vectors `u[j][i]` of the soft margin with cap 1/nu. The certificate
/// (primal value = dual value) is checked before it is trusted.
pub fn game_value(u: &[Vec<f64>], nu: f64) -> f64 {
    game(u, nu).0
}

/// The same for large classes: solves over a growing part of the class; the weights of
/// the last part bound the whole class from above.
pub fn game_value_large(u: &[Vec<f64>], nu: f64) -> f64 {
    game_value_from(u, nu, &mut vec![])
}

/// The same, starting from (and returning in) `part` the part of the class that matters.
pub fn game_value_from(u: &[Vec<f64>], nu: f64, part: &mut Vec<usize>) -> f64 {
    let m = u[0].len();
    let mut d = vec![1.0 / m as f64; m];
    let mut v = f64::NEG_INFINITY;
    if !part.is_empty() {
        let rows: Vec<Vec<f64>> = part.iter().map(|j| u[*j].clone()).collect();
        (v, d) = game(&rows, nu);
    }
    loop {
        let e: Vec<f64> = u.iter().map(|u| u.iter().zip(&d).map(|(a, b)| a * b).sum()).collect();
        let j = (0..u.len()).max_by(|a, b| e[*a].partial_cmp(&e[*b]).unwrap()).unwrap();
        if e[j] <= v + 1e-9 || part.contains(&j) {
            assert!(e[j] <= v + 2e-7, "reference game: {} above {v}", e[j]);
            return v;
        }
        part.push(j);
        let rows: Vec<Vec<f64>> = part.iter().map(|j| u[*j].clone()).collect();
        (v, d) = game(&rows, nu);
    }
}

fn game_simplex(u: &[Vec<f64>], nu: f64) -> Option<(f64, Vec<f64>)> {
    let k = u.len();
    let m = u[0].len();
    // Primal: r = rho + 2 >= 0. variables: w_1..w_k, r, xi_1..xi_m, slack_1..slack_m
    //   sum_j u_ji w_j + xi_i - (r - 2) - s_i = 0  ->  r - xi_i - sum u w + s_i = 2
    let n = k + 1 + m + m;
    let mut a = vec![];
    let mut b = vec![];
    for i in 0..m {
        let mut row = vec![0.0; n];
        for j in 0..k {
            row[j] = -u[j][i];
        }
        row[k] = 1.0;
        row[k + 1 + i] = -1.0;
        row[k + 1 + m + i] = 1.0;
        a.push(row);
        b.push(2.0);
    }
    let mut row = vec![0.0; n];
    for v in row[..k].iter_mut() {
        *v = 1.0;
    }
    a.push(row);
    b.push(1.0);
    let mut c = vec![0.0; n];
    c[k] = 1.0;
    for v in c[k + 1..k + 1 + m].iter_mut() {
        *v = -1.0 / nu;
    }
    let (v, x) = simplex(&a, &b, &c);
    let primal = v - 2.0;
    let margins: Vec<f64> = (0..m).map(|i| (0..k).map(|j| x[j] * u[j][i]).sum()).collect();
    let achieved = soft_margin(&margins, nu);
    // Dual: min gamma s.t. sum_i d_i u_ji <= gamma, d capped simplex. g = gamma + 2 >= 0.
    let n2 = m + 1 + k + m;
    let mut a2 = vec![];
    let mut b2 = vec![];
    for j in 0..k {
        // sum d u - (g-2) + s = 0 -> g - sum d u - s = 2
        let mut row = vec![0.0; n2];
        for i in 0..m {
            row[i] = -u[j][i];
        }
        row[m] = 1.0;
        row[m + 1 + j] = -1.0;
        a2.push(row);
        b2.push(2.0);
    }
    for i in 0..m {
        let mut row = vec![0.0; n2];
        row[i] = 1.0;
        row[m + 1 + k + i] = 1.0;
        a2.push(row);
        b2.push(1.0 / nu);
    }
    let mut row = vec![0.0; n2];
    for v in row[..m].iter_mut() {
        *v = 1.0;
    }
    a2.push(row);
    b2.push(1.0);
    let mut c2 = vec![0.0; n2];
    c2[m] = -1.0;
    let (v2, x2) = simplex(&a2, &b2, &c2);
    let dual = -v2 - 2.0;
    if (primal - dual).abs() < 1e-7 && (primal - achieved).abs() < 1e-7 {
        Some((primal, x2[..m].to_vec()))
    } else {
        None
    }
}

/// Game value and optimal weights of the examples.
pub fn game(u: &[Vec<f64>], nu: f64) -> (f64, Vec<f64>) {
    if let Some(r) = game_interior(u, nu).or_else(|| game_revised(u, nu)) {
        return r;
    }
    if let Ok(Some(r)) = guarded(|| game_simplex(u, nu)) {
        return r;
    }
    panic!("reference game of {} hypotheses over {} examples not certified: {u:?}", u.len(), u[0].len())
}

/// The same by a revised simplex method that solves with the original columns at every step.
/// The value lies between the soft margin of some combination and the largest edge under
/// some weights; both are computed and must meet.
fn game_revised(u: &[Vec<f64>], nu: f64) -> Option<(f64, Vec<f64>)> {
    let k = u.len();
    let m = u[0].len();
    // Columns: w_1..w_k, r = rho + 3, xi_1..xi_m, s_1..s_m, all >= 0;
    // sum_j u_ji w_j + xi_i - r - s_i = -3, sum w = 1; maximise r - sum xi / nu.
    let col = |j: usize| -> Vec<f64> {
        let mut c = vec![0.0; m + 1];
        if j < k {
            c[..m].copy_from_slice(&u[j]);
            c[m] = 1.0;
        } else if j == k {
            c[..m].fill(-1.0);
        } else if j <= k + m {
            c[j - k - 1] = 1.0;
        } else {
            c[j - k - 1 - m] = -1.0;
        }
        c
    };
    let cost = |j: usize| if j == k { 1.0 } else if j > k && j <= k + m { -1.0 / nu } else { 0.0 };
    let mut rhs = vec![-3.0; m];
    rhs.push(1.0);
    let mut ix: Vec<usize> = (0..m).collect();
    ix.sort_by(|a, b| u[0][*a].partial_cmp(&u[0][*b]).unwrap());
    let mid = ix[(nu.ceil() as usize).clamp(1, m) - 1];
    let mut basis = vec![0, k];
    for i in 0..m {
        if i != mid {
            basis.push(if u[0][i] < u[0][mid] { k + 1 + i } else { k + 1 + m + i });
        }
    }
    let mut best: Option<(f64, f64, Vec<f64>)> = None;
    for it in 0..2000 {
        let cols: Vec<Vec<f64>> = basis.iter().map(|j| col(*j)).collect();
        let b: Vec<Vec<f64>> = (0..=m).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
        let cb: Vec<f64> = basis.iter().map(|j| cost(*j)).collect();
        let (Some(x), Some(y)) = (gauss(&b, &rhs), gauss(&cols, &cb)) else { break };
        let mut w = vec![0.0; k];
        for (j, v) in basis.iter().zip(&x) {
            if *j < k {
                w[*j] = v.max(0.0);
            }
        }
        let ws: f64 = w.iter().sum();
        let ms: Vec<f64> = (0..m).map(|i| (0..k).map(|j| w[j] * u[j][i]).sum::<f64>() / ws).collect();
        let lo = soft_margin(&ms, nu);
        // r: -sum y = 1; the weights are -y.
        let d = capped(&y[..m].iter().map(|v| -v).collect::<Vec<_>>(), nu);
        let hi = u.iter().map(|u| u.iter().zip(&d).map(|(a, b)| a * b).sum::<f64>()).fold(f64::NEG_INFINITY, f64::max);
        if best.as_ref().map_or(true, |(l, h, _)| hi - lo < h - l) {
            best = Some((lo, hi, d));
        }
        if hi - lo < 1e-11 {
            break;
        }
        let gain: Vec<f64> = (0..=k + 2 * m)
            .map(|j| if basis.contains(&j) { f64::NEG_INFINITY } else { cost(j) - col(j).iter().zip(&y).map(|(a, b)| a * b).sum::<f64>() })
            .collect();
        // Largest gain; the first one when that seems to go in circles.
        let enter = if it < 500 {
            (0..gain.len()).max_by(|a, b| gain[*a].partial_cmp(&gain[*b]).unwrap()).unwrap()
        } else {
            (0..gain.len()).find(|j| gain[*j] > 1e-13).unwrap_or(0)
        };
        if !(gain[enter] > 1e-13) {
            break;
        }
        let Some(dir) = gauss(&b, &col(enter)) else { break };
        let mut leave: Option<usize> = None;
        for i in 0..=m {
            if dir[i] > 1e-12 {
                let r = x[i].max(0.0) / dir[i];
                let better = match leave {
                    None => true,
                    Some(l) => {
                        let rl = x[l].max(0.0) / dir[l];
                        r < rl - 1e-13 || (r < rl + 1e-13 && if it < 500 { dir[i] > dir[l] } else { basis[i] < basis[l] })
                    }
                };
                if better {
                    leave = Some(i);
                }
            }
        }
        let Some(l) = leave else { break };
        basis[l] = enter;
    }
    let (lo, hi, d) = best?;
    if hi - lo < 1e-7 { Some((lo, d)) } else { None }
}

/// The same by a primal-dual interior-point method. The value lies between the soft margin
/// of some combination and the largest edge under some weights; both are computed and must meet.
fn game_interior(u: &[Vec<f64>], nu: f64) -> Option<(f64, Vec<f64>)> {
    let k = u.len();
    let m = u[0].len();
    let n = k + 1 + 2 * m;
    // sum_j u_ji w_j + xi_i - (r - 3) - s_i = 0, sum w = 1; minimise -r + sum xi / nu.
    let col = |j: usize, i: usize| -> f64 {
        if i == m {
            return if j < k { 1.0 } else { 0.0 };
        }
        if j < k {
            u[j][i]
        } else if j == k {
            -1.0
        } else if j <= k + m {
            if j - k - 1 == i { 1.0 } else { 0.0 }
        } else if j - k - 1 - m == i {
            -1.0
        } else {
            0.0
        }
    };
    let a: Vec<Vec<f64>> = (0..=m).map(|i| (0..n).map(|j| col(j, i)).collect()).collect();
    let mut b = vec![-3.0; m];
    b.push(1.0);
    let mut c = vec![0.0; n];
    c[k] = -1.0;
    for v in &mut c[k + 1..=k + m] {
        *v = 1.0 / nu;
    }
    let mut x = vec![1.0; n];
    for v in &mut x[..k] {
        *v = 1.0 / k as f64;
    }
    let mut s = vec![1.0; n];
    let mut y = vec![0.0; m + 1];
    let mut best: Option<(f64, f64, Vec<f64>)> = None;
    for _ in 0..80 {
        // Certificate.
        let ws: f64 = x[..k].iter().sum();
        let ms: Vec<f64> = (0..m).map(|i| (0..k).map(|j| x[j] * u[j][i]).sum::<f64>() / ws).collect();
        let lo = soft_margin(&ms, nu);
        let d = capped(&y[..m], nu);
        let hi = u.iter().map(|u| u.iter().zip(&d).map(|(a, b)| a * b).sum::<f64>()).fold(f64::NEG_INFINITY, f64::max);
        if best.as_ref().map_or(true, |(l, h, _)| hi - lo < h - l) {
            best = Some((lo, hi, d));
        }
        if hi - lo < 1e-11 {
            break;
        }
        let mu: f64 = x.iter().zip(&s).map(|(a, b)| a * b).sum::<f64>() / n as f64;
        if !(mu > 1e-18) {
            break;
        }
        let rp: Vec<f64> = (0..=m).map(|i| b[i] - (0..n).map(|j| a[i][j] * x[j]).sum::<f64>()).collect();
        let rd: Vec<f64> = (0..n).map(|j| c[j] - (0..=m).map(|i| a[i][j] * y[i]).sum::<f64>() - s[j]).collect();
        let w: Vec<f64> = x.iter().zip(&s).map(|(x, s)| x / s).collect();
        let mut mat = vec![vec![0.0; m + 1]; m + 1];
        for i in 0..=m {
            for l in 0..=i {
                let v: f64 = (0..n).map(|j| a[i][j] * w[j] * a[l][j]).sum();
                mat[i][l] = v;
                mat[l][i] = v;
            }
        }
        // Complementarity target t: x ds + s dx = t.
        let direction = |t: &[f64]| -> Option<(Vec<f64>, Vec<f64>, Vec<f64>)> {
            let rhs: Vec<f64> = (0..=m).map(|i| rp[i] + (0..n).map(|j| a[i][j] * (w[j] * rd[j] - t[j] / s[j])).sum::<f64>()).collect();
            let dy = semidefinite(&mat, &rhs)?;
            let ds: Vec<f64> = (0..n).map(|j| rd[j] - (0..=m).map(|i| a[i][j] * dy[i]).sum::<f64>()).collect();
            let dx: Vec<f64> = (0..n).map(|j| t[j] / s[j] - w[j] * ds[j]).collect();
            Some((dx, dy, ds))
        };
        let far = |v: &[f64], dv: &[f64]| v.iter().zip(dv).filter(|(_, d)| **d < 0.0).map(|(v, d)| -v / d).fold(f64::INFINITY, f64::min);
        let t: Vec<f64> = x.iter().zip(&s).map(|(x, s)| -x * s).collect();
        let Some((dx, _, ds)) = direction(&t) else { break };
        let (ap, ad) = (far(&x, &dx).min(1.0), far(&s, &ds).min(1.0));
        let mua = (0..n).map(|j| (x[j] + ap * dx[j]) * (s[j] + ad * ds[j])).sum::<f64>() / n as f64;
        let sigma = (mua / mu).powi(3);
        let t: Vec<f64> = (0..n).map(|j| sigma * mu - x[j] * s[j] - dx[j] * ds[j]).collect();
        let Some((dx, dy, ds)) = direction(&t) else { break };
        let (ap, ad) = ((0.99 * far(&x, &dx)).min(1.0), (0.99 * far(&s, &ds)).min(1.0));
        for j in 0..n {
            x[j] += ap * dx[j];
            s[j] += ad * ds[j];
        }
        for i in 0..=m {
            y[i] += ad * dy[i];
        }
    }
    let (lo, hi, d) = best?;
    if hi - lo < 1e-7 { Some((lo, d)) } else { None }
}

/// Solves a positive semidefinite system; directions of no curvature are left alone.
fn semidefinite(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut l = vec![vec![0.0; n]; n];
    let mut d = vec![0.0; n];
    for j in 0..n {
        let v = a[j][j] - (0..j).map(|k| l[j][k] * l[j][k] * d[k]).sum::<f64>();
        d[j] = if v > 1e-15 * a[j][j] { v } else { 1e128 };
        for i in j + 1..n {
            l[i][j] = (a[i][j] - (0..j).map(|k| l[i][k] * l[j][k] * d[k]).sum::<f64>()) / d[j];
        }
    }
    let solve = |b: &[f64]| {
        let mut x = b.to_vec();
        for i in 0..n {
            x[i] -= (0..i).map(|k| l[i][k] * x[k]).sum::<f64>();
        }
        for i in 0..n {
            x[i] /= d[i];
        }
        for i in (0..n).rev() {
            x[i] -= (i + 1..n).map(|k| l[k][i] * x[k]).sum::<f64>();
        }
        x
    };
    let mut x = solve(b);
    // One step of refinement.
    let r: Vec<f64> = (0..n).map(|i| b[i] - (0..n).map(|k| a[i][k] * x[k]).sum::<f64>()).collect();
    for (x, e) in x.iter_mut().zip(solve(&r)) {
        *x += e;
    }
    if x.iter().all(|v| v.is_finite()) { Some(x) } else { None }
}

/// The nearest capped probability vector, roughly: clipped, then shifted to sum to one.
fn capped(y: &[f64], nu: f64) -> Vec<f64> {
    let ub = 1.0 / nu;
    let at = |t: f64| -> f64 { y.iter().map(|v| (v + t).clamp(0.0, ub)).sum() };
    let big = y.iter().fold(1.0f64, |a, v| a.max(v.abs()));
    let (mut lo, mut hi) = (-big - 1.0, big + 1.0);
    for _ in 0..200 {
        let mid = (lo + hi) / 2.0;
        if at(mid) < 1.0 { lo = mid } else { hi = mid }
    }
    let d: Vec<f64> = y.iter().map(|v| (v + hi).clamp(0.0, ub)).collect();
    let s: f64 = d.iter().sum();
    d.iter().map(|v| v / s).collect()
}

/// Gaussian elimination with row pivoting.
fn gauss(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut t: Vec<Vec<f64>> = a.iter().zip(b).map(|(r, b)| { let mut r = r.clone(); r.push(*b); r }).collect();
    for c in 0..n {
        let p = (c..n).max_by(|i, j| t[*i][c].abs().partial_cmp(&t[*j][c].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if !(t[p][c].abs() > 1e-300) {
            return None;
        }
        t.swap(c, p);
        for i in c + 1..n {
            let f = t[i][c] / t[c][c];
            for l in c..=n {
                let v = t[c][l];
                t[i][l] -= f * v;
            }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let v: f64 = (i + 1..n).map(|l| t[i][l] * x[l]).sum();
        x[i] = (t[i][n] - v) / t[i][i];
    }
    if x.iter().all(|v| v.is_finite()) { Some(x) } else { None }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a.is_finite() && b.is_finite() && (a - b).abs() <= tol * (1.0f64).max(a.abs()).max(b.abs()))
        || (a.is_nan() && b.is_nan())
        || a == b
}

pub fn close_vec(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol))
}

pub fn fmt_v(v: &[f64]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("{x}")).collect();
    format!("[{}]", s.join(","))
}

pub fn fmt_i(v: &[usize]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    s.join(".")
}

pub fn fmt_y(y: &[f64]) -> String {
    y.iter().map(|v| if *v > 0.0 { '+' } else { '-' }).collect()
}

/// Private scratch directory of this process, removed on drop.
pub struct Scratch(pub std::path::PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = std::env::var_os("MC_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("mc-{}-{}-{:?}", tag, std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn file(&self, name: &str, body: &str) -> std::path::PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, body).expect("scratch file");
        p
    }
}

/// A directory of the calling thread's own inside `dir`: cases on other threads cannot touch its files.
pub fn own(dir: &std::path::Path) -> std::path::PathBuf {
    let p = dir.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&p).expect("scratch dir");
    p
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Keep the calling thread, and threads it spawns from now on, on one processor:
/// handing control from one to the other is then cheap. Does nothing where not allowed.
pub fn stay_on_one_processor(k: usize) {
    extern "C" {
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let mut mask = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, mask.as_mut_ptr()) } < 0 {
        return;
    }
    let on: Vec<usize> = (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
    if on.len() < 2 {
        return;
    }
    let i = on[k % on.len()];
    let mut one = [0u64; 16];
    one[i / 64] = 1 << (i % 64);
    unsafe { sched_setaffinity(0, 128, one.as_ptr()) };
}
