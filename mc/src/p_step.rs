//! Step-by-step oracles of the margin-maximising boosters, for arbitrary answers.
use crate::boost::*;
use crate::fw::*;
use crate::util::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

/// argmin over the 1/nu-capped simplex of KL(d, q), q proportional to exp(a).
pub fn capped_exp(a: &[f64], nu: f64) -> Vec<f64> {
    let m = a.len();
    let ub = 1.0 / nu;
    let mut ix: Vec<usize> = (0..m).collect();
    ix.sort_by(|&i, &j| a[j].partial_cmp(&a[i]).unwrap());
    let mut d = vec![0.0; m];
    for k in 0..m {
        let rest = 1.0 - k as f64 * ub;
        if rest <= 1e-15 {
            break;
        }
        let top = a[ix[k]];
        let z: f64 = ix[k..].iter().map(|&i| (a[i] - top).exp()).sum();
        if rest / z <= ub * (1.0 + 1e-12) || k + 1 == m {
            for &i in &ix[k..] {
                d[i] = (rest * (a[i] - top).exp() / z).min(ub);
            }
            break;
        }
        d[ix[k]] = ub;
    }
    d
}

pub fn kl_uniform(d: &[f64]) -> f64 {
    (d.len() as f64).ln() + d.iter().map(|x| if *x > 0.0 { x * x.ln() } else { 0.0 }).sum::<f64>()
}

/// The smoothed soft margin: min over capped d of d.margins + KL(d, uniform)/eta.
pub fn smoothed(margins: &[f64], nu: f64, eta: f64) -> f64 {
    let m = margins.len() as f64;
    if eta <= 0.0 {
        // Only nu = m: the uniform distribution is the only one.
        return margins.iter().sum::<f64>() / m;
    }
    let a: Vec<f64> = margins.iter().map(|x| -eta * x).collect();
    let d = capped_exp(&a, nu);
    dot(&d, margins) + kl_uniform(&d) / eta
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// Largest lower bound on KL(d, uniform) over capped d with all edges at most c
/// (concave dual, cyclic coordinate ascent; any point is a valid lower bound).
fn entropy_lower_bound(us: &[&Vec<f64>], nu: f64, c: f64) -> f64 {
    let m = us[0].len();
    let value = |w: &[f64]| {
        let a: Vec<f64> = (0..m).map(|i| -(0..us.len()).map(|j| w[j] * us[j][i]).sum::<f64>()).collect();
        let d = capped_exp(&a, nu);
        kl_uniform(&d) + (0..us.len()).map(|j| w[j] * (dot(&d, us[j]) - c)).sum::<f64>()
    };
    let slope = |w: &[f64], j: usize| {
        let a: Vec<f64> = (0..m).map(|i| -(0..us.len()).map(|k| w[k] * us[k][i]).sum::<f64>()).collect();
        dot(&capped_exp(&a, nu), us[j]) - c
    };
    let mut w = vec![0.0; us.len()];
    let mut last = value(&w);
    for _ in 0..400 {
        for j in 0..us.len() {
            // The slope along w_j is non-increasing.
            w[j] = 0.0;
            if slope(&w, j) <= 0.0 {
                continue;
            }
            let (mut lo, mut hi) = (0.0, 1.0);
            w[j] = hi;
            while slope(&w, j) > 0.0 && hi < 1e6 {
                lo = hi;
                hi *= 2.0;
                w[j] = hi;
            }
            for _ in 0..60 {
                let mid = (lo + hi) / 2.0;
                w[j] = mid;
                if slope(&w, j) > 0.0 { lo = mid } else { hi = mid }
            }
            w[j] = (lo + hi) / 2.0;
        }
        let v = value(&w);
        if v - last < 1e-12 {
            return v.max(last);
        }
        last = v;
    }
    last
}

/// Exact game values of the subsets of a menu, computed once per worker and sample.
pub struct Games<'a> {
    us: &'a [Vec<f64>],
    memo: RefCell<HashMap<(Vec<usize>, u64), f64>>,
    /// What mattered last time.
    part: RefCell<Vec<usize>>,
}

impl<'a> Games<'a> {
    pub fn new(us: &'a [Vec<f64>]) -> Self {
        Games { us, memo: RefCell::new(HashMap::new()), part: Default::default() }
    }
    pub fn value(&self, ids: &[usize], nu: f64) -> f64 {
        let set: Vec<usize> = ids.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
        let k = (set, nu.to_bits());
        if let Some(v) = self.memo.borrow().get(&k) {
            return *v;
        }
        let us: Vec<Vec<f64>> = k.0.iter().map(|j| self.us[*j].clone()).collect();
        let mut part: Vec<usize> = self.part.borrow().iter().filter_map(|j| k.0.iter().position(|i| i == j)).collect();
        let v = if us.len() <= 8 { game_value(&us, nu) } else { game_value_from(&us, nu, &mut part) };
        *self.part.borrow_mut() = part.iter().map(|j| k.0[*j]).collect();
        self.memo.borrow_mut().insert(k, v);
        v
    }
}

/// Checks every round of a run; Err((round, message)) at the first wrong one.
pub fn check_rounds(kind: Kind, tol: f64, us: &[Vec<f64>], games: &Games, t: &Trace, calls: usize, loc: &mut Local) -> Result<(), (usize, String)> {
    let m = us[0].len();
    let mf = m as f64;
    let nu = kind.nu();
    let half = tol / 2.0;
    let n = t.dists.len();
    let edges: Vec<f64> = (0..n).map(|k| dot(&t.dists[k], &us[t.picks[k]])).collect();
    // Margins of the hypothesis visible after round k (0-based), if it can be shown.
    let vis = |k: usize| -> Option<(Vec<f64>, Vec<f64>)> {
        match t.current.get(k) {
            Some(Ok((w, ids))) => Some(((0..m).map(|i| w.iter().zip(ids).map(|(w, j)| w * us[*j][i]).sum()).collect(), w.clone())),
            _ => None,
        }
    };
    let stopped_at = t.broke.map(|_| n.saturating_sub(1));
    let slack = 2e-5;
    // A decision `lhs <= rhs` is judged only when it is not a rounding question.
    let clearly = |x: f64| if x.abs() < slack { None } else { Some(x < 0.0) };
    for k in 0..n {
        let asked = &t.picks[..=k];
        let here = |s: String| (k + 1, s);
        let ended = stopped_at == Some(k) && t.calls == k + 1;
        let answered = games.value(asked, nu);
        let ghat = edges[..=k].iter().cloned().fold(f64::INFINITY, f64::min);
        if let Some((_, w)) = vis(k) {
            let s: f64 = w.iter().sum();
            if w.iter().any(|x| !(*x >= 0.0)) || (s - 1.0).abs() > 1e-9 {
                return Err(here(format!("visible weights {} are not a convex combination", fmt_v(&w))));
            }
        }
        match kind {
            Kind::Lp { .. } => {
                if let Some((ms, _)) = vis(k) {
                    let got = soft_margin(&ms, nu);
                    loc.max("lp_suboptimality", answered - got);
                    if got < answered - 1e-6 {
                        return Err(here(format!("visible soft margin {got}, best over the answers so far {answered}")));
                    }
                } else {
                    return Err(here(format!("no visible hypothesis: {:?}", t.current.get(k))));
                }
                if let Some(d) = t.dists.get(k + 1) {
                    let worst = asked.iter().map(|j| dot(d, &us[*j])).fold(f64::NEG_INFINITY, f64::max);
                    loc.max("lp_edge_excess", worst - answered);
                    if worst > answered + 1e-6 {
                        return Err(here(format!("weights {} give an answered hypothesis edge {worst}, {answered} was possible", fmt_v(d))));
                    }
                }
                // stop iff optimum >= smallest edge - tolerance
                match clearly(ghat - tol - answered) {
                    Some(true) if !ended => return Err(here(format!("goes on although the optimum {answered} is within the tolerance of the smallest edge {ghat}"))),
                    Some(false) if ended => return Err(here(format!("stops although the optimum {answered} is not within the tolerance of the smallest edge {ghat}"))),
                    _ => {}
                }
            }
            Kind::Erlp { .. } => {
                let eta = 0.5f64.max((mf / nu).ln() / half);
                let obj = |j: usize, d: &[f64]| dot(d, &us[j]) + kl_uniform(d) / eta;
                // The answer of round k is judged by d_k; stop iff ghat - gstar <= half.
                let gh = (0..=k).map(|i| obj(t.picks[i], &t.dists[i])).fold(1.0f64, f64::min);
                let gs = if k == 0 {
                    -1.0
                } else {
                    t.picks[..k].iter().map(|j| obj(*j, &t.dists[k])).fold(f64::NEG_INFINITY, f64::max)
                };
                match clearly(gh - gs - half) {
                    Some(true) if !ended => return Err(here(format!("goes on although the gap {} is within half the tolerance", gh - gs))),
                    Some(false) if ended => return Err(here(format!("stops although the gap {} is above half the tolerance", gh - gs))),
                    _ => {}
                }
                if let (Some(d), Some((ms, _))) = (t.dists.get(k + 1), vis(k)) {
                    // Both sides of the regularised problem over the answers so far.
                    let worst = asked.iter().map(|j| dot(d, &us[*j])).fold(f64::NEG_INFINITY, f64::max);
                    let got = soft_margin(&ms, nu);
                    let gap = worst + kl_uniform(d) / eta - smoothed(&ms, nu, eta);
                    loc.max("erlp_duality_gap_over_tolerance", gap / tol);
                    loc.max("erlp_margin_loss_over_tolerance", (answered - got) / tol);
                    loc.max("erlp_edge_excess_over_tolerance", (worst - answered) / tol);
                    if worst > answered + tol {
                        return Err(here(format!("weights {} give an answered hypothesis edge {worst}, {answered} was possible", fmt_v(d))));
                    }
                    if got < answered - tol {
                        return Err(here(format!("visible soft margin {got}, best over the answers so far {answered}")));
                    }
                    if gap > half {
                        return Err(here(format!("weights {} and the visible hypothesis leave a duality gap of {gap}", fmt_v(d))));
                    }
                }
            }
            Kind::Cerlp { fw, .. } => {
                let eta = (mf / nu).ln() / half;
                let cur = if k == 0 { Some(vec![0.0; m]) } else { vis(k - 1).map(|x| x.0) };
                if let Some(ms) = &cur {
                    expect_dist(&t.dists[k], ms, nu, eta).map_err(here)?;
                    let gap = edges[k] - dot(&t.dists[k], ms);
                    match clearly(gap - half) {
                        Some(true) if !ended => return Err(here(format!("goes on although the answer gains only {gap}"))),
                        Some(false) if ended => return Err(here(format!("stops although the answer gains {gap}"))),
                        _ => {}
                    }
                    if let (false, true, Some((now, _))) = (ended, k > 0, vis(k)) {
                        let atoms: Vec<(f64, &Vec<f64>)> = match t.current.get(k - 1) {
                            Some(Ok((w, ids))) => w.iter().copied().zip(ids.iter().map(|j| &us[*j])).collect(),
                            _ => vec![],
                        };
                        step_rule(fw, k + 1, &atoms, ms, &now, &us[t.picks[k]], nu, eta, loc).map_err(here)?;
                    }
                }
            }
            Kind::Mlp { fw, .. } => {
                let eta = (mf / nu).ln() / half;
                let cur = if k == 0 { Some(vec![0.0; m]) } else { vis(k - 1).map(|x| x.0) };
                if let Some(ms) = &cur {
                    expect_dist(&t.dists[k], ms, nu, eta).map_err(here)?;
                    if k > 0 {
                        let gap = ghat - smoothed(ms, nu, eta);
                        match clearly(gap - half) {
                            Some(true) if !ended => return Err(here(format!("goes on although the gap {gap} is within half the tolerance"))),
                            Some(false) if ended && t.calls <= calls => return Err(here(format!("stops although the gap {gap} is above half the tolerance"))),
                            _ => {}
                        }
                    }
                }
                if let (Some(ms), true, Some((now, _))) = (&cur, k > 0 && !ended, vis(k)) {
                    // At least as good as the Frank-Wolfe candidate.
                    let f = smoothed(&now, nu, eta);
                    let u = &us[t.picks[k]];
                    let at = |s: f64| -> f64 {
                        let v: Vec<f64> = ms.iter().zip(u).map(|(a, b)| a + s * (b - a)).collect();
                        smoothed(&v, nu, eta)
                    };
                    let least = match fw {
                        Fw::Classic => at(2.0 / (k as f64 + 2.0)),
                        Fw::ShortStep => at(short_step(ms, u, nu, eta)),
                        Fw::LineSearch => (0..=64).map(|i| at(i as f64 / 64.0)).fold(f64::NEG_INFINITY, f64::max),
                        Fw::BlendedPairwise => smoothed(ms, nu, eta),
                    };
                    loc.max("mlp_behind_fw", least - f);
                    if f < least - 1e-7 {
                        return Err(here(format!("smoothed soft margin {f}, the Frank-Wolfe step reaches {least}")));
                    }
                }
            }
            Kind::Soft { .. } | Kind::Total => {
                if let Some((ms, _)) = vis(k) {
                    let got = soft_margin(&ms, nu);
                    loc.max("lp_suboptimality", answered - got);
                    if got < answered - 1e-6 {
                        return Err(here(format!("visible soft margin {got}, best over the answers so far {answered}")));
                    }
                } else {
                    return Err(here(format!("no visible hypothesis: {:?}", t.current.get(k))));
                }
                let c = ghat - tol;
                match clearly(answered - c) {
                    Some(true) if ended && answered < c - (if m <= 5 { 1e-3 } else { (0.3 * tol).max(1e-3) }) && (m <= 5 || c >= -0.5) => return Err(here(format!("stops although edges of {answered} were possible, {c} was needed"))),
                    Some(false) if !ended && answered > c + 1e-4 => return Err(here(format!("goes on although no weights give edges below {c} (best {answered})"))),
                    _ => {}
                }
                if let Some(d) = t.dists.get(k + 1) {
                    let worst = asked.iter().map(|j| dot(d, &us[*j])).fold(f64::NEG_INFINITY, f64::max);
                    loc.max("soft_edge_excess", worst - c);
                    if worst > c + 1e-5 {
                        return Err(here(format!("weights {} give an answered hypothesis edge {worst}, at most {c} was asked for", fmt_v(d))));
                    }
                    let uniq: BTreeSet<usize> = asked.iter().copied().collect();
                    let rows: Vec<&Vec<f64>> = uniq.iter().map(|j| &us[*j]).collect();
                    if answered < c - 1e-3 && uniq.len() <= 12 {
                        let lb = entropy_lower_bound(&rows, nu, c);
                        let gap = kl_uniform(d) - lb;
                        loc.max("soft_entropy_gap", gap);
                        if gap > if m <= 5 { 0.2 } else { 0.5 } {
                            return Err(here(format!("weights {} have relative entropy {}, {lb} was possible", fmt_v(d), kl_uniform(d))));
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    Ok(())
}

fn expect_dist(d: &[f64], ms: &[f64], nu: f64, eta: f64) -> Result<(), String> {
    let a: Vec<f64> = ms.iter().map(|x| -eta * x).collect();
    let want = capped_exp(&a, nu);
    if !close_vec(d, &want, 1e-6) {
        return Err(format!("weights {} are not the capped exponential weights {} of the current combination", fmt_v(d), fmt_v(&want)));
    }
    Ok(())
}

/// What each Frank-Wolfe rule promises about the step from `old` to `now` (margin vectors).
#[allow(clippy::too_many_arguments)]
fn step_rule(fw: Fw, iteration: usize, atoms: &[(f64, &Vec<f64>)], old: &[f64], now: &[f64], h: &[f64], nu: f64, eta: f64, loc: &mut Local) -> Result<(), String> {
    let at = |s: f64| -> Vec<f64> { old.iter().zip(h).map(|(a, b)| a + s * (b - a)).collect() };
    let f = |ms: &[f64]| smoothed(ms, nu, eta);
    match fw {
        Fw::Classic => {
            let want = at(2.0 / (iteration as f64 + 1.0));
            if !close_vec(now, &want, 1e-9) {
                return Err(format!("classic step reached margins {}, expected {}", fmt_v(now), fmt_v(&want)));
            }
        }
        Fw::ShortStep => {
            // Moves towards the answer, and never down.
            let den: f64 = (0..old.len()).map(|i| (h[i] - old[i]).powi(2)).sum();
            let s: f64 = (0..old.len()).map(|i| (now[i] - old[i]) * (h[i] - old[i])).sum::<f64>() / den.max(1e-300);
            if !(-1e-9..=1.0 + 1e-9).contains(&s) || !close_vec(now, &at(s), 1e-7) {
                return Err(format!("short step left the segment from {} to the answer {}: {}", fmt_v(old), fmt_v(h), fmt_v(now)));
            }
            let want = short_step(old, h, nu, eta);
            if eta > 0.0 && den > 1e-18 && (s - want).abs() > 1e-6 {
                return Err(format!("short step of size {s}, expected {want}"));
            }
        }
        Fw::LineSearch => {
            let got = f(now);
            let best = (0..=64).map(|i| f(&at(i as f64 / 64.0))).fold(f64::NEG_INFINITY, f64::max);
            loc.max("line_search_loss", best - got);
            if got < best - 1e-7 {
                return Err(format!("line search reached a smoothed soft margin of {got}, {best} lies on the segment"));
            }
        }
        Fw::BlendedPairwise => blended(atoms, old, now, h, nu, eta, loc)?,
    }
    if fw != Fw::Classic {
        loc.max("step_descent", f(old) - f(now));
        if f(now) < f(old) - 1e-7 {
            return Err(format!("the step lowered the smoothed soft margin from {} to {}", f(old), f(now)));
        }
    }
    Ok(())
}

/// Blended pairwise: from the worst to the best of the voting hypotheses if that direction is at
/// least as steep as the one to the answer, else towards the answer; the best point of the segment.
fn blended(atoms: &[(f64, &Vec<f64>)], old: &[f64], now: &[f64], h: &[f64], nu: f64, eta: f64, loc: &mut Local) -> Result<(), String> {
    let d = capped_exp(&old.iter().map(|x| -eta * x).collect::<Vec<_>>(), nu);
    let edges: Vec<f64> = atoms.iter().map(|(_, u)| dot(&d, u)).collect();
    let hi = edges.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let lo = edges.iter().cloned().fold(f64::INFINITY, f64::min);
    let tie = 1e-7;
    let steeper = (hi - lo) - (dot(&d, h) - dot(&d, old));
    // The segments the rule may mean (several where edges tie).
    let mut segments: Vec<(Vec<f64>, f64)> = vec![];
    if steeper <= tie {
        segments.push(((0..old.len()).map(|i| h[i] - old[i]).collect(), 1.0));
        loc.count("bp_towards_answer");
    }
    if steeper >= -tie {
        for (i, (_, best)) in atoms.iter().enumerate().filter(|(i, _)| edges[*i] >= hi - tie) {
            for (j, (w, worst)) in atoms.iter().enumerate().filter(|(j, _)| edges[*j] <= lo + tie) {
                if i != j || atoms.len() == 1 {
                    segments.push((best.iter().zip(worst.iter()).map(|(a, b)| a - b).collect(), *w));
                }
            }
        }
        // All edges equal: nothing to exchange.
        if hi - lo <= tie {
            segments.push((vec![0.0; old.len()], 0.0));
        }
        loc.count("bp_pairwise");
    }
    let f = |ms: &[f64]| smoothed(ms, nu, eta);
    let got = f(now);
    let mut why = String::new();
    for (dir, top) in &segments {
        let at = |s: f64| -> Vec<f64> { old.iter().zip(dir).map(|(a, b)| a + s * b).collect() };
        let best = (0..=64).map(|i| f(&at(top * i as f64 / 64.0))).fold(f64::NEG_INFINITY, f64::max);
        let den: f64 = dot(dir, dir);
        let s: f64 = (0..old.len()).map(|i| (now[i] - old[i]) * dir[i]).sum::<f64>() / den.max(1e-300);
        if !(-1e-7..=top + 1e-7).contains(&s) || !close_vec(now, &at(s), 1e-7) {
            why = format!("{} is not on the segment from {} along {} (up to {top})", fmt_v(now), fmt_v(old), fmt_v(dir));
            continue;
        }
        if got < best - 1e-7 {
            why = format!("a smoothed soft margin of {got}, {best} lies on the segment");
            continue;
        }
        return Ok(());
    }
    Err(format!("blended pairwise step: {why}"))
}

/// A learner whose answers after the first have a prescribed edge: a sign vector, scaled so that
/// its edge lies `delta` above a reference that matters to the booster.
pub struct Graded {
    pub kind: Kind,
    pub tol: f64,
    pub y: Vec<f64>,
    pub base: Vec<Vec<f64>>,
    pub stride: usize,
    /// (reference, delta) by round, repeated.
    pub plan: Vec<(usize, f64)>,
    log: RefCell<Vec<Vec<f64>>>,
    us: RefCell<Vec<Vec<f64>>>,
    current: RefCell<(Vec<f64>, Vec<usize>)>,
}

impl Graded {
    fn answer(&self, d: &[f64]) -> Vec<f64> {
        let us = self.us.borrow();
        let k = us.len();
        let at = (self.stride * (k + 1)) % self.base.len();
        if k == 0 {
            return self.base[at].clone();
        }
        let m = d.len();
        let nu = self.kind.nu();
        let half = self.tol / 2.0;
        let ghat = self.log.borrow().iter().zip(us.iter()).map(|(d, u)| dot(d, u)).fold(f64::INFINITY, f64::min);
        let (w, ids) = &*self.current.borrow();
        let ms: Vec<f64> = (0..m).map(|i| w.iter().zip(ids).map(|(w, j)| w * us[*j][i]).sum()).collect();
        let (which, delta) = self.plan[(k - 1) % self.plan.len()];
        let spread = |which: usize| match which {
            0 => ghat,
            // Where the booster decides to stop.
            1 => match self.kind {
                Kind::Cerlp { .. } => dot(d, &ms) + half,
                Kind::Mlp { .. } => smoothed(&ms, nu, (m as f64 / nu).ln() / half) + half,
                Kind::Erlp { .. } => us.iter().map(|u| dot(d, u)).fold(f64::NEG_INFINITY, f64::max) + half,
                _ => us.iter().map(|u| dot(d, u)).fold(f64::NEG_INFINITY, f64::max) + self.tol,
            },
            // Where a pairwise step gets as steep as one towards the answer.
            _ => {
                let es: Vec<f64> = ids.iter().map(|j| dot(d, &us[*j])).collect();
                dot(d, &ms) + es.iter().cloned().fold(f64::NEG_INFINITY, f64::max) - es.iter().cloned().fold(f64::INFINITY, f64::min)
            }
        };
        let target = (spread(which) + delta).clamp(-1.0, 1.0);
        for j in 0..self.base.len() {
            let g = &self.base[(at + j) % self.base.len()];
            let e = dot(d, g);
            if e.abs() >= target.abs() && e.abs() > 1e-9 {
                return g.iter().map(|x| x * target / e).collect();
            }
        }
        vec![target; m]
    }
}

impl miniboosts::WeakLearner for Graded {
    type Hypothesis = TableH;
    fn produce(&self, s: &miniboosts::Sample, dist: &[f64]) -> TableH {
        assert_eq!(s.shape().0, dist.len());
        let u = self.answer(dist);
        let conf = margins(&self.y, &u);
        self.log.borrow_mut().push(dist.to_vec());
        self.us.borrow_mut().push(u);
        TableH::new(self.us.borrow().len() - 1, conf)
    }
}

impl Logged for Graded {
    fn dists(&self) -> Vec<Vec<f64>> {
        self.log.borrow().clone()
    }
    fn picks(&self) -> Vec<usize> {
        (0..self.us.borrow().len()).collect()
    }
    fn forget(&self) {
        self.log.borrow_mut().clear();
        self.us.borrow_mut().clear();
    }
    fn seen(&self, current: &(Vec<f64>, Vec<usize>)) {
        *self.current.borrow_mut() = current.clone();
    }
}

/// Answers with edges just above and below what the booster compares them with.
pub fn graded(run: &mut Run, kinds: &dyn Fn(f64, f64) -> Vec<Kind>, tols: &[f64]) {
    let deltas: Vec<f64> = run.pick(vec![-0.03, -1e-3, 0.0, 1e-3, 0.03], vec![-0.1, -0.03, -4e-3, -1e-3, -1e-4, 0.0, 1e-4, 1e-3, 4e-3, 0.03, 0.1]);
    let mut cases = vec![];
    for m in run.pick(vec![3, 5], vec![3, 4, 5, 8]) {
        let mf = m as f64;
        for nu in [1.0, 1.5, mf - 0.5] {
            for kind in kinds(nu, mf) {
                for tol in tols {
                    for stride in run.pick(vec![1, 3], vec![1, 3, 5]) {
                        cases.push((kind, *tol, m, stride));
                    }
                }
            }
        }
    }
    let rounds = run.pick(6, 9);
    run.explore("graded", &cases, |(k, t, m, s)| format!("{},tol{t},m{m},stride{s}", k.name()), |(kind, tol, m, stride), loc| {
        let y = crate::wide::labels(*m)[*stride % 3].clone();
        let sample = row_sample(&y);
        // Sign vectors with at most m/2 negative margins, in a fixed mixed order.
        let mut base: Vec<Vec<f64>> = vectors(&[1.0, -1.0], *m).into_iter().filter(|u| 2 * u.iter().filter(|x| **x < 0.0).count() <= *m).collect();
        base.rotate_left(1);
        let blended = matches!(kind, Kind::Cerlp { fw: Fw::BlendedPairwise, .. });
        let menu: Vec<(usize, f64)> = (0..if blended { 3 } else { 2 }).flat_map(|r| deltas.iter().map(move |d| (r, *d))).collect();
        for pattern in sequences(menu.len(), 1).into_iter().chain(sequences(menu.len(), 2)) {
            let wl = Graded {
                kind: *kind,
                tol: *tol,
                y: y.clone(),
                base: base.clone(),
                stride: *stride,
                plan: pattern.iter().map(|i| menu[*i]).collect(),
                log: Default::default(),
                us: Default::default(),
                current: Default::default(),
            };
            let t = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: rounds, want_current: true, want_out: false });
            let us = wl.us.borrow().clone();
            let key = format!("{}#{}", loc.key(), fmt_i(&pattern));
            loc.trace();
            loc.steps(t.calls);
            for d in &t.dists {
                loc.state(&canon(d));
            }
            loc.outcome(&(t.broke, t.dists.len()));
            if dot(&t.dists[0], &us[0]) <= kind.needs_edge(*tol) + 1e-6 {
                return loc.count("skipped_no_weak_learner");
            }
            if let Some(p) = &t.panic {
                return loc.viol_at(key, format!("round {}: {p}", t.calls));
            }
            let games = Games::new(&us);
            if let Err((round, msg)) = check_rounds(*kind, *tol, &us, &games, &t, rounds, loc) {
                return loc.viol_at(key, format!("round {round}: {msg}"));
            }
        }
    });
}

#[derive(Clone)]
pub struct StepCase {
    pub kind: Kind,
    pub tol: f64,
    pub tag: &'static str,
    pub y: Vec<f64>,
    pub us: Arc<Vec<Vec<f64>>>,
    pub first: usize,
    pub depth: usize,
}

impl StepCase {
    pub fn key(&self) -> String {
        format!("{},tol{},{}{},y={},h1={}", self.kind.name(), self.tol, self.tag, self.depth, fmt_y(&self.y), self.first)
    }
}

/// Every answer script to a depth, each round judged.
pub fn scripts(run: &mut Run, kinds: &dyn Fn(f64, f64) -> Vec<Kind>, tols: &[f64], costly: bool) {
    let sign = [-1.0, 1.0];
    let tern = [-1.0, 0.25, 1.0];
    let four = [-1.0, -0.3, 0.4, 1.0];
    let spaces: Vec<(&'static str, usize, &[f64], usize)> = match (run.quick(), costly) {
        (true, false) => vec![("four", 2, &four, 3), ("sign", 3, &sign, 4), ("tern", 3, &tern, 2), ("sign", 4, &sign, 3)],
        (true, true) => vec![("four", 2, &four, 2), ("sign", 3, &sign, 3), ("sign", 4, &sign, 2)],
        (false, false) => vec![("four", 2, &four, 4), ("sign", 3, &sign, 5), ("tern", 3, &tern, 3), ("sign", 4, &sign, 4), ("sign", 5, &sign, 2)],
        (false, true) => vec![("four", 2, &four, 3), ("sign", 3, &sign, 4), ("tern", 3, &tern, 2), ("sign", 4, &sign, 3), ("sign", 5, &sign, 2)],
    };
    let mut cases = vec![];
    for (tag, m, alphabet, depth) in spaces {
        let us = Arc::new(vectors(alphabet, m));
        let mf = m as f64;
        let mut nus = if run.quick() { vec![1.0, 1.5, mf] } else { vec![1.0, 1.5, 2.0, mf - 0.5, mf] };
        nus.dedup();
        let y = crate::p_lp::labels_for(m)[0].clone();
        for nu in nus {
            if nu == 2.0 && m == 2 { continue; }
            for kind in kinds(nu, mf) {
                for tol in tols {
                    for first in 0..us.len() {
                        cases.push(StepCase { kind, tol: *tol, tag, y: y.clone(), us: us.clone(), first, depth });
                    }
                }
            }
        }
    }
    run.explore("script", &cases, |c| c.key(), |c, loc| {
        let confs: Vec<Vec<f64>> = c.us.iter().map(|u| margins(&c.y, u)).collect();
        let menu = menu(&confs);
        let sample = row_sample(&c.y);
        let games = Games::new(&c.us);
        let mut viol = vec![];
        each_script(menu.len(), c.depth, Some(c.first), |script| {
            let wl = Scripted::new(&menu, script.to_vec());
            let t = with(c.kind, &sample, Some(c.tol), Stepwise { wl: &wl, max_calls: c.depth, want_current: true, want_out: false });
            loc.trace();
            loc.steps(t.calls);
            for d in &t.dists {
                loc.state(&canon(d));
            }
            loc.outcome(&(t.broke, t.dists.len()));
            let key = format!("{}#{}", loc.key(), fmt_i(script));
            if let Some(first) = t.dists.first() {
                if edge(&c.y, first, &menu[t.picks[0]].conf) <= c.kind.needs_edge(c.tol) + 1e-6 {
                    loc.count("skipped_no_weak_learner");
                    return 1;
                }
            }
            if let Some(p) = &t.panic {
                viol.push((key, format!("round {}: {p}", t.calls)));
                return t.calls;
            }
            if let Err((round, msg)) = check_rounds(c.kind, c.tol, &c.us, &games, &t, c.depth, loc) {
                viol.push((key, format!("round {round}: {msg}")));
                return round;
            }
            if t.broke.is_some() { t.dists.len() } else { c.depth }
        });
        for (k, v) in viol {
            loc.viol_at(k, v);
        }
    });
}

/// Longer samples: every schedule that repeats a short pattern, each round judged.
pub fn wide_scripts(run: &mut Run, kinds: &dyn Fn(f64, f64) -> Vec<Kind>, tols: &[f64]) {
    let mut cases = vec![];
    for m in run.pick(vec![6, 9, 14], vec![6, 8, 9, 11, 14, 20]) {
        let mf = m as f64;
        for w in crate::wide::wides(m) {
            let w = Arc::new(w);
            for nu in [1.0, 1.7, mf / 3.0, mf - 0.5] {
                for kind in kinds(nu, mf) {
                    for (ti, tol) in tols.iter().enumerate() {
                        if run.quick() && (ti + m + nu as usize) % 2 == 1 {
                            continue;
                        }
                        cases.push((kind, *tol, w.clone()));
                    }
                }
            }
        }
    }
    let (top, len) = run.pick((2, 6), (3, 9));
    run.explore("wide", &cases, |(k, t, w)| format!("{},tol{t},{}", k.name(), w.name), |(kind, tol, w), loc| {
        let y = crate::wide::labels(w.m)[w.us.len() % 3].clone();
        let confs: Vec<Vec<f64>> = w.us.iter().map(|u| margins(&y, u)).collect();
        let menu = menu(&confs);
        let sample = row_sample(&y);
        let games = Games::new(&w.us);
        for script in crate::wide::lassos(menu.len(), top, len) {
            let wl = Scripted::new(&menu, script.clone());
            let t = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: len, want_current: true, want_out: false });
            loc.trace();
            loc.steps(t.calls);
            for d in &t.dists {
                loc.state(&canon(d));
            }
            loc.outcome(&(t.broke, t.dists.len()));
            let key = format!("{}#{}", loc.key(), fmt_i(&script));
            if let Some(first) = t.dists.first() {
                if edge(&y, first, &menu[t.picks[0]].conf) <= kind.needs_edge(*tol) + 1e-6 {
                    loc.count("skipped_no_weak_learner");
                    continue;
                }
            }
            if let Some(p) = &t.panic {
                loc.viol_at(key, format!("round {}: {p}", t.calls));
                return;
            }
            if let Err((round, msg)) = check_rounds(*kind, *tol, &w.us, &games, &t, len, loc) {
                loc.viol_at(key, format!("round {round}: {msg}"));
                return;
            }
        }
    });
}

/// Long histories: large classes whose answers keep improving on each other by less and less,
/// with a learner that always answers best; each round judged, and the end.
pub fn curved(run: &mut Run, kinds: &dyn Fn(f64, f64) -> Vec<Kind>, tols: &[f64], rounds: usize) {
    let mut cases = vec![];
    let sizes: Vec<(usize, usize)> = run.pick(vec![(2, 60), (3, 20), (4, 9)], vec![(2, 60), (2, 200), (3, 20), (3, 35), (4, 12), (5, 6), (6, 4)]);
    for (m, steps) in sizes {
        let mf = m as f64;
        for shift in [0.0, 0.5] {
            let us = Arc::new(crate::wide::curved(m, steps, shift));
            for nu in [1.0, 1.4, mf - 0.5] {
                for kind in kinds(nu, mf) {
                    for tol in tols {
                        cases.push((kind, *tol, m, steps, shift, us.clone()));
                    }
                }
            }
        }
    }
    run.explore("curved", &cases, |(k, t, m, n, s, _)| format!("{},tol{t},curved{m}_{n}+{s}", k.name()), |(kind, tol, m, _, _, us), loc| {
        let y = crate::wide::labels(*m)[us.len() % 3].clone();
        let confs: Vec<Vec<f64>> = us.iter().map(|u| margins(&y, u)).collect();
        let class = menu(&confs);
        let sample = row_sample(&y);
        let wl = MaxEdge::new(&y, &class, false);
        let first = us.iter().map(|u| u.iter().sum::<f64>() / *m as f64).fold(f64::NEG_INFINITY, f64::max);
        if first <= kind.needs_edge(*tol) + 1e-9 {
            return loc.count("skipped_no_weak_learner");
        }
        let t = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: rounds, want_current: true, want_out: true });
        judge(*kind, *tol, us, &t, rounds, || game_value_large(us, kind.nu()), loc);
    });
    let mut cases = vec![];
    for m in run.pick(vec![3, 8], vec![3, 5, 8, 12]) {
        let mf = m as f64;
        for shape in 0..4 {
            for nu in [1.0, 1.8, mf / 2.0] {
                for kind in kinds(nu, mf) {
                    for tol in tols {
                        cases.push((kind, *tol, m, shape));
                    }
                }
            }
        }
    }
    run.explore("ellipsoid", &cases, |(k, t, m, s)| format!("{},tol{t},ellipsoid{m}_{s}", k.name()), |(kind, tol, m, shape), loc| {
        let wl = crate::wide::Ellipsoid::new(*m, *shape);
        let first = wl.answer(&vec![1.0 / *m as f64; *m]).iter().sum::<f64>() / *m as f64;
        if first <= kind.needs_edge(*tol) + 1e-9 {
            return loc.count("skipped_no_weak_learner");
        }
        let sample = row_sample(&wl.y);
        let t = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: rounds, want_current: true, want_out: true });
        let us = wl.us.borrow().clone();
        judge(*kind, *tol, &us, &t, rounds, || wl.value(kind.nu()), loc);
    });
}

/// Every round of a run, and its end.
fn judge(kind: Kind, tol: f64, us: &[Vec<f64>], t: &Trace, rounds: usize, opt: impl Fn() -> f64, loc: &mut Local) {
    loc.trace();
    loc.steps(t.calls);
    loc.max("rounds", t.calls as f64);
    for d in &t.dists {
        loc.state(&canon(d));
    }
    if let Some(p) = &t.panic {
        return loc.viol(format!("round {}: {p}", t.calls));
    }
    let games = Games::new(us);
    if let Err((round, msg)) = check_rounds(kind, tol, us, &games, t, rounds, loc) {
        return loc.viol(format!("round {round}: {msg}"));
    }
    match &t.out {
        Some(Ok((w, ids))) if t.broke.is_some() => {
            let m = us[0].len();
            let ms: Vec<f64> = (0..m).map(|i| w.iter().zip(ids).map(|(w, j)| w * us[*j][i]).sum()).collect();
            let got = soft_margin(&ms, kind.nu());
            let opt = opt();
            loc.max("suboptimality_over_tolerance", (opt - got) / tol);
            loc.outcome(&canon(&[got]));
            if got < opt - tol - 1e-5 {
                loc.viol(format!("soft margin {got} after {} rounds, optimum {opt}, tolerance {tol}", t.calls));
            }
        }
        Some(Ok(_)) => loc.count("cut"),
        o => loc.viol(format!("no output: {o:?}")),
    }
}

/// The short-step rule's step size.
fn short_step(old: &[f64], h: &[f64], nu: f64, eta: f64) -> f64 {
    let d = capped_exp(&old.iter().map(|x| -eta * x).collect::<Vec<_>>(), nu);
    let numer: f64 = (0..old.len()).map(|i| d[i] * (h[i] - old[i])).sum();
    let big = (0..old.len()).map(|i| (h[i] - old[i]).abs()).fold(0.0, f64::max);
    if eta <= 0.0 || big < 1e-12 { 0.0 } else { (numer / (eta * big * big)).clamp(0.0, 1.0) }
}
