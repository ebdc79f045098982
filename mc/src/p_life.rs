//! C01 (weights shown), C12 (life cycle), C13 (round bounds): all boosters,
//! all answer scripts.
use crate::boost::*;
use crate::fw::*;
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::research::Research;

use std::ops::ControlFlow;
use std::sync::Arc;

#[derive(Clone)]
struct Case {
    kind: Kind,
    tol: Option<f64>,
    tag: &'static str,
    y: Vec<f64>,
    confs: Arc<Vec<Vec<f64>>>,
    first: usize,
    depth: usize,
}

impl Case {
    fn key(&self) -> String {
        let t = self.tol.map(|t| format!(",tol{t}")).unwrap_or_default();
        format!("{}{t},{}{},y={},h1={}", self.kind.name(), self.tag, self.depth, fmt_y(&self.y), self.first)
    }
}

fn cases(run: &Run, spaces: &[(&'static str, usize, &[f64], usize)], tols: &[Option<f64>]) -> Vec<Case> {
    let mut out = vec![];
    for (tag, m, alphabet, depth) in spaces {
        let confs = Arc::new(vectors(alphabet, *m));
        let mf = *m as f64;
        let nus: &[f64] = if run.quick() { &[1.0, 1.5, mf] } else { &[1.0, 1.3, 2.0, mf - 0.5, mf] };
        let ys = if *m <= 3 || !run.quick() { labelings(*m) } else { crate::p_lp::labels_for(*m) };
        for kind in all_kinds(*m, nus) {
            for tol in tols {
                if matches!(kind, Kind::Smooth { .. }) && *tol != tols[0] {
                    continue;
                }
                for y in &ys {
                    for first in 0..confs.len() {
                        out.push(Case { kind, tol: *tol, tag, y: y.clone(), confs: confs.clone(), first, depth: *depth });
                    }
                }
            }
        }
    }
    out
}

fn cap(kind: &Kind, m: usize) -> f64 {
    match kind {
        Kind::Smooth { kappa, .. } => 1.0 / (kappa * m as f64),
        k => k.cap(),
    }
}

/// Is `d` a distribution over m examples with entries at most `cap`?
pub fn bad_dist(d: &[f64], m: usize, cap: f64, tol: f64) -> Option<String> {
    if d.len() != m {
        return Some(format!("{} weights for {m} examples", d.len()));
    }
    if let Some(x) = d.iter().find(|x| !x.is_finite() || **x < 0.0) {
        return Some(format!("weight {x}"));
    }
    let s: f64 = d.iter().sum();
    if (s - 1.0).abs() > tol {
        return Some(format!("weights sum to {s}"));
    }
    let mx = d.iter().cloned().fold(0.0, f64::max);
    if mx > cap + tol {
        return Some(format!("weight {mx} above the cap {cap}"));
    }
    None
}

/// Rounding near an answer that is perfect for the weights shown (|edge| = 1 up to 1e-6):
/// exponential updates leave their numeric range there.
/// AdaBoostV is also undefined once the smallest edge minus the tolerance is below -1.
fn degenerate(kind: &Kind, tol: Option<f64>, t: &Trace, y: &[f64], menu: &[TableH]) -> Option<usize> {
    let tol = if *kind == Kind::AdaV { tol.unwrap_or(1.0 / y.len() as f64) } else { 0.0 };
    if !matches!(kind, Kind::Ada | Kind::AdaV | Kind::Mada) {
        return None;
    }
    (0..t.dists.len()).find(|&k| {
        let e = edge(y, &t.dists[k], &menu[t.picks[k]].conf);
        e > 1.0 - 1e-6 || e - tol < -1.0 + 1e-6
    })
}

pub fn c01(run: &mut Run) {
    let five = [-1.0, -0.5, 0.0, 0.5, 1.0];
    let tern = [-1.0, 0.25, 1.0];
    let sign = [-1.0, 1.0];
    let spaces: Vec<(&'static str, usize, &[f64], usize)> = if run.quick() {
        vec![("five", 2, &five, 3), ("sign", 3, &sign, 4), ("sign", 4, &sign, 3)]
    } else {
        vec![("five", 2, &five, 4), ("sign", 3, &sign, 5), ("tern", 3, &tern, 3), ("sign", 4, &sign, 3), ("sign", 5, &sign, 2)]
    };
    let cs = cases(run, &spaces, &[Some(0.2)]);
    run.explore("weights", &cs, |c| c.key(), |c, loc| {
        let menu = menu(&c.confs);
        let sample = row_sample(&c.y);
        let m = c.y.len();
        let mut viol: Vec<(String, String)> = vec![];
        each_script(menu.len(), c.depth, Some(c.first), |script| {
            let wl = Scripted::new(&menu, script.to_vec());
            let t = with(c.kind, &sample, c.tol, Stepwise { wl: &wl, max_calls: c.depth, want_current: false, want_out: false });
            loc.trace();
            let key = format!("{}#{}", loc.key(), fmt_i(script));
            let upto = degenerate(&c.kind, c.tol, &t, &c.y, &menu).map(|k| k + 1).unwrap_or(usize::MAX);
            for (k, d) in t.dists.iter().enumerate().take(upto) {
                loc.step();
                loc.state(&canon(d));
                if let Some(b) = bad_dist(d, m, cap(&c.kind, m), 1e-6) {
                    viol.push((key.clone(), format!("round {}: {b}: {}", k + 1, fmt_v(d))));
                    return k.max(1);
                }
                if k == 0 && d.iter().any(|x| (x - 1.0 / m as f64).abs() > 1e-9) {
                    viol.push((key.clone(), format!("round 1: not uniform: {}", fmt_v(d))));
                    return 1;
                }
                loc.max("sum_error", (d.iter().sum::<f64>() - 1.0).abs());
                loc.max("over_cap", d.iter().cloned().fold(0.0, f64::max) - cap(&c.kind, m));
            }
            loc.outcome(&(t.broke, t.dists.len()));
            if t.dists.is_empty() {
                viol.push((key.clone(), "the weak learner was never consulted".into()));
            }
            if let Some(p) = &t.panic {
                if t.calls < upto {
                    viol.push((key, format!("round {}: {p}", t.calls)));
                }
            }
            if t.broke.is_some() || t.panic.is_some() { t.dists.len() } else { c.depth }
        });
        for (k, v) in viol {
            loc.viol_at(k, v);
        }
    });
    // Longer samples, smaller tolerances, longer histories.
    let mut cases = vec![];
    for m in run.pick(vec![6, 10, 17], vec![6, 7, 10, 13, 17, 25, 40]) {
        let mf = m as f64;
        for w in crate::wide::wides(m) {
            let w = Arc::new(w);
            for (ki, kind) in all_kinds(m, &[1.0, 1.9, mf / 3.0, mf - 0.3, mf]).into_iter().enumerate() {
                for (ti, tol) in [None, Some(0.3), Some(0.02), Some(0.002)].into_iter().enumerate() {
                    // The solver-based boosters are slow; every third combination in the quick tier.
                    let slow = matches!(kind, Kind::Erlp { .. } | Kind::Soft { .. } | Kind::Mlp { .. } | Kind::Total | Kind::Lp { .. });
                    if run.quick() && slow && (ki + ti + m) % 3 != 0 || matches!(kind, Kind::Smooth { .. }) && ti > 0 {
                        continue;
                    }
                    cases.push((kind, tol, w.clone()));
                }
            }
        }
    }
    let (top, len) = run.pick((2, 10), (3, 16));
    run.explore("wide", &cases, |(k, t, w)| format!("{},tol{t:?},{}", k.name(), w.name), |(kind, tol, w), loc| {
        let y = crate::wide::labels(w.m)[w.us.len() % 3].clone();
        let menu = menu(&w.us.iter().map(|u| margins(&y, u)).collect::<Vec<_>>());
        let sample = row_sample(&y);
        let m = w.m;
        for script in crate::wide::lassos(menu.len(), top, len) {
            let wl = Scripted::new(&menu, script.clone());
            let t = with(*kind, &sample, *tol, Stepwise { wl: &wl, max_calls: len, want_current: false, want_out: false });
            loc.trace();
            if let Some(first) = t.dists.first() {
                if edge(&y, first, &menu[t.picks[0]].conf) <= kind.needs_edge(tol.unwrap_or(0.01)) + 1e-6 {
                    loc.count("skipped_no_weak_learner");
                    continue;
                }
            }
            let key = format!("{}#{}", loc.key(), fmt_i(&script));
            let upto = degenerate(kind, *tol, &t, &y, &menu).map(|k| k + 1).unwrap_or(usize::MAX);
            for (k, d) in t.dists.iter().enumerate().take(upto) {
                loc.step();
                loc.state(&canon(d));
                if let Some(b) = bad_dist(d, m, cap(kind, m), 1e-6) {
                    return loc.viol_at(key, format!("round {}: {b}: {}", k + 1, fmt_v(d)));
                }
            }
            if let Some(p) = &t.panic {
                if t.calls < upto {
                    return loc.viol_at(key, format!("round {}: {p}", t.calls));
                }
            }
        }
    });
    run.rule = "case = (booster, capping parameter, step rule, labeling, first answer); inside it every answer script over the whole table class up to the depth; state = weights shown (rounded 1e-9), transition = one round, trace = one script driven on the real booster".into();
}

/// Answers of an endless weak learner: the script, then the script again and again
/// (`cycle`) or its last answer for ever.
fn endless(script: &[usize], cycle: bool, len: usize) -> Vec<usize> {
    (0..len.max(script.len()))
        .map(|k| if cycle { script[k % script.len()] } else { script[k.min(script.len() - 1)] })
        .collect()
}

/// Use a booster for one (complete or interrupted) run, then for a second one.
struct Reuse<'w> {
    before: &'w Scripted<'w, TableH>,
    /// `boost` calls of the first use; None = a complete `run`.
    rounds: Option<usize>,
    peek: bool,
    then: &'w Scripted<'w, TableH>,
}

impl Visit for Reuse<'_> {
    type Out = Result<(Vec<f64>, Vec<usize>), String>;
    fn go<B>(self, mut b: B) -> Self::Out
    where
        B: Booster<TableH, Output = Wm> + Research<Output = Wm>,
    {
        let first = guarded(|| match self.rounds {
            None => {
                b.run(self.before);
            }
            Some(k) => {
                b.preprocess(self.before);
                for it in 1..=k {
                    if let ControlFlow::Break(_) = b.boost(self.before, it) {
                        break;
                    }
                    if self.peek {
                        let _ = guarded(|| b.current_hypothesis());
                    }
                }
            }
        });
        if first.is_err() {
            // The first use itself failed: nothing is promised about the second.
            return Err("skip".into());
        }
        guarded(|| wm_parts(b.run(self.then)))
    }
}

fn same_out(a: &Result<(Vec<f64>, Vec<usize>), String>, b: &Result<(Vec<f64>, Vec<usize>), String>) -> bool {
    match (a, b) {
        (Ok((w, h)), Ok((v, g))) => h == g && close_vec(w, v, 1e-9),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

fn same_dists(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close_vec(x, y, 1e-9))
}

pub fn c12(run: &mut Run) {
    let tern = [-1.0, 0.25, 1.0];
    let sign = [-1.0, 1.0];
    let spaces: Vec<(&'static str, usize, &[f64], usize)> = if run.quick() {
        vec![("sign", 2, &sign, 2), ("sign", 3, &sign, 2)]
    } else {
        vec![("sign", 2, &sign, 4), ("tern", 2, &tern, 2), ("sign", 3, &sign, 3)]
    };
    let cs = cases(run, &spaces, &[Some(0.5)]);
    let deep = !run.quick();
    run.explore("reuse", &cs, |c| c.key(), |c, loc| {
        let menu = menu(&c.confs);
        let sample = row_sample(&c.y);
        let k = menu.len();
        let mut viol: Vec<(String, String)> = vec![];
        each_script(k, c.depth, Some(c.first), |script| {
            let long = endless(script, true, 12);
            let learner = || Scripted::new(&menu, long.clone());
            let key = format!("{}#{}", loc.key(), fmt_i(script));
            // One whole run.
            let wl = learner();
            let fresh = with(c.kind, &sample, c.tol, FullRun { wl: &wl });
            let dists = wl.dists();
            loc.trace();
            loc.steps(dists.len());
            for d in &dists {
                loc.state(&canon(d));
            }
            // A convex (or, for the signed boosters, absolutely convex) combination of answers.
            if let Ok((w, ids)) = &fresh {
                loc.outcome(&canon(w));
                let signed = matches!(c.kind, Kind::Ada | Kind::AdaV | Kind::Mada);
                let s: f64 = w.iter().map(|x| x.abs()).sum();
                let picks = wl.picks();
                if w.len() != ids.len() || (s - 1.0).abs() > 1e-9 || (!signed && w.iter().any(|x| *x < 0.0)) {
                    viol.push((key.clone(), format!("output weights {} are not a combination of total weight one", fmt_v(w))));
                }
                if ids.iter().any(|j| !picks.contains(j)) {
                    viol.push((key.clone(), format!("output uses hypotheses {ids:?}, answered were {picks:?}")));
                }
            }
            // The same, by hand, looking at the current hypothesis every round.
            let wl = learner();
            let hand = with(c.kind, &sample, c.tol, Stepwise { wl: &wl, max_calls: 100_000, want_current: true, want_out: true });
            loc.trace();
            let out = match (&hand.panic, &hand.out) {
                (Some(p), _) => Err(p.clone()),
                (None, Some(o)) => o.clone(),
                _ => Err("no output".into()),
            };
            if !same_out(&fresh, &out) || (fresh.is_ok() && !same_dists(&dists, &wl.dists())) {
                viol.push((key.clone(), format!("run gave {fresh:?}, stepping by hand {out:?}")));
            }
            if let (Ok(o), Some(last)) = (&out, hand.current.last()) {
                if hand.broke.is_some() && !same_out(&Ok(o.clone()), last) {
                    viol.push((key.clone(), format!("output {o:?}, but the hypothesis visible at the end is {last:?}")));
                }
            }
            // After any earlier use of the same booster.
            let prefixes: Vec<Vec<usize>> = if deep && k <= 4 { sequences(k, 2) } else { (0..k).map(|a| vec![a, (a + 1) % k]).collect() };
            for a in &prefixes {
                for rounds in [None, Some(0), Some(1), Some(2)] {
                    if rounds == Some(0) && a[0] != 0 {
                        continue;
                    }
                    for peek in [false, true] {
                        if peek && rounds.is_none() {
                            continue;
                        }
                        let before = Scripted::new(&menu, endless(a, true, 12));
                        let then = learner();
                        let again = with(c.kind, &sample, c.tol, Reuse { before: &before, rounds, peek, then: &then });
                        loc.trace();
                        if again.as_ref().err().map(|e| e == "skip").unwrap_or(false) {
                            loc.count("first_use_failed");
                            continue;
                        }
                        if !same_out(&fresh, &again) || (fresh.is_ok() && !same_dists(&dists, &then.dists())) {
                            viol.push((key.clone(), format!("a fresh booster gives {fresh:?}; after {rounds:?} rounds answered {a:?} it gives {again:?}")));
                        }
                    }
                }
            }
            c.depth
        });
        for (k, v) in viol {
            loc.viol_at(k, v);
        }
    });
    // Longer samples and histories.
    let mut wide = vec![];
    for m in run.pick(vec![7usize], vec![6, 9, 14, 25]) {
        for w in crate::wide::wides(m) {
            let w = Arc::new(w);
            for kind in all_kinds(m, &[2.5, m as f64]) {
                for tol in run.pick(vec![0.5], vec![0.7, 0.4]) {
                    if matches!(kind, Kind::Smooth { .. }) && tol == 0.7 {
                        continue;
                    }
                    wide.push((kind, tol, w.clone()));
                }
            }
        }
    }
    run.explore("widereuse", &wide, |(k, t, w)| format!("{},tol{t},{}", k.name(), w.name), |(kind, tol, w), loc| {
        let y = crate::wide::labels(w.m)[w.us.len() % 3].clone();
        let confs: Vec<Vec<f64>> = w.us.iter().map(|u| margins(&y, u)).collect();
        let menu = menu(&confs);
        let k = menu.len();
        let sample = row_sample(&y);
        let long = |p: &[usize]| endless(p, true, 60);
        let forward: Vec<usize> = (0..k).collect();
        let backward: Vec<usize> = (0..k).rev().collect();
        let repeat: Vec<usize> = vec![k - 1, 0, 0];
        for (script, befores) in [(&forward, [&backward, &repeat]), (&backward, [&forward, &repeat])] {
            let wl = Scripted::new(&menu, long(script));
            let fresh = with(*kind, &sample, Some(*tol), FullRun { wl: &wl });
            let dists = wl.dists();
            loc.trace();
            loc.steps(dists.len());
            for d in &dists {
                loc.state(&canon(d));
            }
            let wl = Scripted::new(&menu, long(script));
            let hand = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: 100_000, want_current: true, want_out: true });
            loc.trace();
            let out = match (&hand.panic, &hand.out) {
                (Some(p), _) => Err(p.clone()),
                (None, Some(o)) => o.clone(),
                _ => Err("no output".into()),
            };
            let key = format!("{}#{}", loc.key(), fmt_i(script));
            if !same_out(&fresh, &out) || (fresh.is_ok() && !same_dists(&dists, &wl.dists())) {
                loc.viol_at(key.clone(), format!("run gave {fresh:?}, stepping by hand {out:?}"));
            }
            for before in befores {
                for rounds in [None, Some(1), Some(4), Some(13), Some(40)] {
                    let first = Scripted::new(&menu, long(before));
                    let then = Scripted::new(&menu, long(script));
                    let again = with(*kind, &sample, Some(*tol), Reuse { before: &first, rounds, peek: rounds == Some(4), then: &then });
                    loc.trace();
                    if again.as_ref().err().map(|e| e == "skip").unwrap_or(false) {
                        loc.count("first_use_failed");
                        continue;
                    }
                    if !same_out(&fresh, &again) || (fresh.is_ok() && !same_dists(&dists, &then.dists())) {
                        loc.viol_at(key.clone(), format!("a fresh booster gives {fresh:?}; after {rounds:?} rounds answered {before:?} again and again it gives {again:?}"));
                    }
                }
            }
        }
    });
    // The booster whose result is not a weighted majority, and gradient boosting.
    let mut others = vec![];
    for m in run.pick(vec![2usize, 3], vec![2, 3, 4]) {
        for y in labelings(m) {
            for what in 0..3usize {
                others.push((what, y.clone()));
            }
        }
    }
    run.explore("others", &others, |(w, y)| format!("{},y={}", ["GraphSepBoost", "GBM-L1", "GBM-L2"][*w], fmt_y(y)), |(what, y), loc| {
        let m = y.len();
        let sample = row_sample(y);
        // One row more, for the aggregation's answers outside the sample.
        let mut wy = y.clone();
        wy.push(1.0);
        let wide = row_sample(&wy);
        let graph_menu = menu(&vectors(&[1.0, -1.0], m + 1));
        let gbm_menu: Vec<TableR> = vectors(&[-1.0, 0.0, 0.5], m).into_iter().take(27).enumerate().map(|(id, v)| TableR { id, val: v.into() }).collect();
        let k = if *what == 0 { graph_menu.len() } else { gbm_menu.len() };
        let step = if k > 16 { 3 } else { 1 };
        type Seen = Result<(Vec<f64>, Vec<usize>, Vec<Vec<f64>>), String>;
        // The second use: by `run`, or by hand looking at the current hypothesis.
        let go = |before: Option<(&[usize], Option<usize>)>, script: &[usize], hand: bool| -> Seen {
            let script = endless(script, false, 12);
            if *what == 0 {
                let mut b = GraphSepBoost::init(&sample);
                if let Some((a, rounds)) = before {
                    let wl = Scripted::new(&graph_menu, a.to_vec());
                    match rounds {
                        None => drop(b.run(&wl)),
                        Some(r) => {
                            b.preprocess(&wl);
                            for it in 1..=r {
                                if b.boost(&wl, it).is_break() {
                                    break;
                                }
                                let _ = b.current_hypothesis();
                            }
                        }
                    }
                }
                let wl = Scripted::new(&graph_menu, script);
                guarded(|| {
                    let f = if hand {
                        b.preprocess(&wl);
                        let mut it = 1;
                        while b.boost(&wl, it).is_continue() {
                            it += 1;
                            let _ = b.current_hypothesis();
                        }
                        let cur = b.current_hypothesis().confidence_all(&wide);
                        let f = b.postprocess(&wl);
                        assert!(cur == f.confidence_all(&wide), "the hypothesis visible at the end is not the result");
                        f
                    } else {
                        b.run(&wl)
                    };
                    (f.confidence_all(&wide), vec![], wl.log.borrow().clone())
                })
            } else {
                let l = if *what == 1 { GBMLoss::L1 } else { GBMLoss::L2 };
                let mut b: GBM<'_, TableR, GBMLoss> = GBM::init_with_loss(&sample, l);
                if let Some((a, rounds)) = before {
                    let wl = Scripted::new(&gbm_menu, a.to_vec());
                    match rounds {
                        None => drop(b.run(&wl)),
                        Some(r) => {
                            b.preprocess(&wl);
                            for it in 1..=r {
                                if b.boost(&wl, it).is_break() {
                                    break;
                                }
                            }
                        }
                    }
                }
                let wl = Scripted::new(&gbm_menu, script);
                guarded(|| {
                    let f = if hand {
                        b.preprocess(&wl);
                        let mut it = 1;
                        while b.boost(&wl, it).is_continue() {
                            it += 1;
                        }
                        b.postprocess(&wl)
                    } else {
                        b.run(&wl)
                    };
                    let (w, hs) = f.decompose();
                    (w, hs.iter().map(|h| h.id).collect(), wl.log.borrow().clone())
                })
            }
        };
        for i in (0..k).step_by(step) {
            for j in (0..k).step_by(step) {
                let script = [i, j];
                let fresh = go(None, &script, false);
                loc.trace();
                if let Ok(f) = &fresh {
                    loc.steps(f.2.len());
                    for d in &f.2 {
                        loc.state(&canon(d));
                    }
                    loc.outcome(&canon(&f.0));
                }
                let hand = go(None, &script, true);
                loc.trace();
                loc.check(hand == fresh, || format!("answers {script:?}: run gives {fresh:?}, stepping by hand {hand:?}"));
                for a in [[j, i], [(i + step) % k, (j + 2 * step) % k]] {
                    for rounds in [None, Some(0), Some(1), Some(2)] {
                        let again = go(Some((&a, rounds)), &script, false);
                        loc.trace();
                        loc.check(again == fresh, || format!("answers {script:?}: a fresh booster gives {fresh:?}; after {rounds:?} rounds answered {a:?} it gives {again:?}"));
                    }
                }
            }
        }
    });
    run.rule = "case = (booster, capping parameter, step rule, labeling, first answer); inside it every answer script x every earlier use of the booster (complete or interrupted after 0, 1, 2 rounds, with or without looking at the current hypothesis); trace = one complete execution of the real booster; widereuse: structured answers on longer samples, earlier uses of up to 40 rounds; others: GraphSepBoost and gradient boosting, all pairs of answers x earlier uses".into();
}

/// Largest number of times the weak learner may be consulted.
fn advertised(kind: &Kind, m: usize, tol: f64) -> Option<f64> {
    let mf = m as f64;
    Some(match kind {
        Kind::Ada => (mf.ln() / (tol * tol)).floor(),
        Kind::AdaV => (2.0 * mf.ln() / (tol * tol)).floor(),
        Kind::Mada => ((mf - 1.0) / (tol * tol)).ceil(),
        Kind::Smooth { kappa, gamma } => (2.0 / (kappa * gamma * gamma * (1.0 - gamma).sqrt())).ceil(),
        Kind::Lp { .. } => return None,
        Kind::Erlp { nu } => (8.0 / tol).max(32.0 * (mf / nu).ln() / (tol * tol)).ceil(),
        Kind::Cerlp { nu, .. } | Kind::Mlp { nu, .. } => (32.0 * (mf / nu).ln() / (tol * tol)).ceil().max(1.0),
        Kind::Soft { nu } => (2.0 * (mf / nu).ln() / (tol * tol)).ceil().max(1.0),
        Kind::Total => (2.0 * mf.ln() / (tol * tol)).ceil().max(1.0),
    })
}

pub fn c13(run: &mut Run) {
    let tern = [-1.0, 0.25, 1.0];
    let sign = [-1.0, 1.0];
    let spaces: Vec<(&'static str, usize, &[f64], usize)> = if run.quick() {
        vec![("sign", 2, &sign, 4), ("sign", 3, &sign, 3), ("sign", 4, &sign, 2)]
    } else {
        vec![("sign", 2, &sign, 5), ("tern", 2, &tern, 4), ("sign", 3, &sign, 4), ("sign", 4, &sign, 3)]
    };
    let tols: &[Option<f64>] = if run.quick() { &[Some(0.7)] } else { &[Some(0.7), Some(0.4)] };
    let cs = cases(run, &spaces, tols);
    run.explore("rounds", &cs, |c| c.key(), |c, loc| {
        let menu = menu(&c.confs);
        let sample = row_sample(&c.y);
        let m = c.y.len();
        let tol = c.tol.unwrap();
        let bound = advertised(&c.kind, m, tol);
        let limit = bound.map(|b| b as usize).unwrap_or(menu.len() + 1) + 3;
        let mut viol: Vec<(String, String)> = vec![];
        each_script(menu.len(), c.depth, Some(c.first), |script| {
            let mut used = 1;
            for cycle in [true, false] {
                let wl = Scripted::new(&menu, endless(script, cycle, limit + 1));
                let t = with(c.kind, &sample, c.tol, Stepwise { wl: &wl, max_calls: limit + 2, want_current: false, want_out: true });
                loc.trace();
                loc.steps(t.calls);
                loc.outcome(&(t.dists.len(), t.broke));
                for d in &t.dists {
                    loc.state(&canon(d));
                }
                let key = format!("{}#{}{}", loc.key(), fmt_i(script), if cycle { "" } else { "!" });
                let asked = t.dists.len();
                used = used.max(asked.min(c.depth));
                // Outside the weak-learning assumption: an answer that is perfect for the
                // weights shown, a useless first answer, or only useless answers.
                if degenerate(&c.kind, c.tol, &t, &c.y, &menu).is_some() {
                    loc.count("perfect_answer_runs");
                    if let Some(b) = bound {
                        if asked as f64 > b + 1e-9 {
                            viol.push((key, format!("the weak learner was consulted {asked} times, at most {b} are advertised")));
                        }
                    }
                    continue;
                }
                let edges: Vec<f64> = (0..asked).map(|k| edge(&c.y, &t.dists[k], &menu[t.picks[k]].conf)).collect();
                if edges.first().map(|e| *e <= c.kind.needs_edge(tol) + 1e-9).unwrap_or(false)
                    || (matches!(c.kind, Kind::Ada | Kind::AdaV | Kind::Mada) && edges.iter().all(|e| e.abs() < 1e-9))
                {
                    loc.count("no_weak_learner_runs");
                    continue;
                }
                if let Some(p) = &t.panic {
                    viol.push((key, format!("round {}: {p}", t.calls)));
                    continue;
                }
                if t.broke.is_none() {
                    viol.push((key, format!("still running after {} rounds", t.calls)));
                    continue;
                }
                if let Some(Err(p)) = &t.out {
                    viol.push((key, format!("no output after {} rounds: {p}", t.calls)));
                    continue;
                }
                match (c.kind, bound) {
                    (Kind::Lp { .. }, _) => {
                        let repeat = (0..asked).find(|k| t.picks[..*k].contains(&t.picks[*k]));
                        if let Some(k) = repeat {
                            if k + 1 < asked {
                                viol.push((key, format!("answer {} was a repetition, yet the weak learner was consulted {asked} times", k + 1)));
                            }
                        }
                    }
                    (kind, Some(b)) => {
                        if asked as f64 > b {
                            viol.push((key, format!("the weak learner was consulted {asked} times, at most {b} are advertised")));
                        } else if matches!(kind, Kind::Ada | Kind::AdaV | Kind::Mada) && (asked as f64) < b {
                            viol.push((key, format!("stopped after {asked} of {b} rounds without a perfect answer")));
                        }
                    }
                    _ => {}
                }
            }
            used
        });
        for (k, v) in viol {
            loc.viol_at(k, v);
        }
    });
    // Forced ends: exactly the hypothesis an unlimited run shows at that round.
    let mut forced = vec![];
    let hi = run.pick(4, 6);
    for m in [2usize, 3] {
        let confs = Arc::new(vectors(&sign, m));
        for y in labelings(m) {
            for kind in [Kind::Ada, Kind::AdaV, Kind::Mada] {
                for first in 0..confs.len() {
                    for quit in 0..=hi {
                        forced.push((Case { kind, tol: Some(0.05), tag: "sign", y: y.clone(), confs: confs.clone(), first, depth: if m == 2 { 4 } else { 3 } }, quit));
                    }
                }
            }
        }
    }
    run.explore("quit", &forced, |(c, q)| format!("{},at{q}", c.key()), |(c, q), loc| {
        let menu = menu(&c.confs);
        let sample = row_sample(&c.y);
        let mut viol = vec![];
        each_script(menu.len(), c.depth, Some(c.first), |script| {
            let long = endless(script, true, 12);
            let wl = Scripted::new(&menu, long.clone());
            let free = with(c.kind, &sample, c.tol, Stepwise { wl: &wl, max_calls: *q, want_current: true, want_out: false });
            let wl2 = Scripted::new(&menu, long);
            let step = Stepwise { wl: &wl2, max_calls: q + 2, want_current: false, want_out: true };
            let cut = match c.kind {
                Kind::Ada => step.go(AdaBoost::init(&sample).tolerance(0.05).force_quit_at(*q)),
                Kind::AdaV => step.go(AdaBoostV::init(&sample).tolerance(0.05).force_quit_at(*q)),
                _ => step.go(MadaBoost::init(&sample).tolerance(0.05).force_quit_at(*q)),
            };
            loc.trace();
            loc.steps(cut.calls);
            let key = format!("{}#{}", loc.key(), fmt_i(script));
            if cut.broke.is_none() && cut.panic.is_none() {
                viol.push((key.clone(), format!("asked to quit after {q} rounds, still running after {}", cut.calls)));
            }
            if !same_dists(&cut.dists, &free.dists) {
                viol.push((key.clone(), format!("asked to quit after {q} rounds: consulted the weak learner {} times instead of {}", cut.dists.len(), free.dists.len())));
            }
            if let (Some(Ok(o)), Some(Ok(f))) = (&cut.out, free.current.last()) {
                loc.outcome(&canon(&o.0));
                if !same_out(&Ok(o.clone()), &Ok(f.clone())) {
                    viol.push((key.clone(), format!("quit after {q} rounds gives {o:?}, the unlimited run showed {f:?}")));
                }
            } else if let (Some(Err(p)), Some(Ok(f))) = (&cut.out, free.current.last()) {
                viol.push((key.clone(), format!("quit after {q} rounds gives no output ({p}), the unlimited run showed {f:?}")));
            }
            c.depth
        });
        for (k, v) in viol {
            loc.viol_at(k, v);
        }
    });
    // Longer samples: every run ends by itself, within the advertised number of rounds.
    let mut wide = vec![];
    for m in run.pick(vec![7usize], vec![6, 9, 14, 25]) {
        for w in crate::wide::wides(m) {
            let w = Arc::new(w);
            for kind in all_kinds(m, &[1.0, 2.5, m as f64]) {
                if matches!(kind, Kind::Smooth { .. }) {
                    continue;
                }
                for tol in run.pick(vec![0.5], vec![0.8, 0.5, 0.35]) {
                    wide.push((kind, tol, w.clone()));
                }
            }
        }
    }
    let top = run.pick(1, 2);
    run.explore("widerounds", &wide, |(k, t, w)| format!("{},tol{t},{}", k.name(), w.name), |(kind, tol, w), loc| {
        let y = crate::wide::labels(w.m)[w.us.len() % 3].clone();
        let confs: Vec<Vec<f64>> = w.us.iter().map(|u| margins(&y, u)).collect();
        let menu = menu(&confs);
        let sample = row_sample(&y);
        let bound = advertised(kind, w.m, *tol);
        let limit = bound.map(|b| b as usize).unwrap_or(menu.len() + 1) + 3;
        for script in crate::wide::lassos(menu.len(), top, limit + 1) {
            let wl = Scripted::new(&menu, script.clone());
            let t = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: limit + 2, want_current: false, want_out: true });
            loc.trace();
            loc.steps(t.calls);
            let key = format!("{}#{}", loc.key(), fmt_i(&script[..script.len().min(3)]));
            let asked = t.dists.len();
            loc.outcome(&(asked, t.broke));
            if bound.map_or(false, |b| asked as f64 > b + 1e-9) {
                loc.viol_at(key, format!("the weak learner was consulted {asked} times, at most {} are advertised", bound.unwrap()));
                continue;
            }
            let edges: Vec<f64> = (0..asked).map(|k| edge(&y, &t.dists[k], &menu[t.picks[k]].conf)).collect();
            if degenerate(kind, Some(*tol), &t, &y, &menu).is_some()
                || edges.first().map_or(false, |e| *e <= kind.needs_edge(*tol) + 1e-9)
                || (matches!(kind, Kind::Ada | Kind::AdaV | Kind::Mada) && edges.iter().all(|e| e.abs() < 1e-9))
            {
                loc.count("outside");
                continue;
            }
            if let Some(p) = &t.panic {
                loc.viol_at(key, format!("round {}: {p}", t.calls));
            } else if t.broke.is_none() {
                loc.viol_at(key, format!("still running after {} rounds", t.calls));
            } else if !matches!(t.out, Some(Ok(_))) {
                loc.viol_at(key, format!("no output after {} rounds: {:?}", t.calls, t.out));
            } else if matches!(kind, Kind::Ada | Kind::AdaV | Kind::Mada) && (asked as f64) < bound.unwrap() {
                loc.viol_at(key, format!("stopped after {asked} of {} rounds without a perfect answer", bound.unwrap()));
            }
        }
    });
    // Forced ends far beyond the number of rounds that is advertised.
    let mut far = vec![];
    for m in run.pick(vec![2usize, 6], vec![2, 4, 6, 11]) {
        for w in crate::wide::wides(m) {
            let w = Arc::new(w);
            for kind in [Kind::Ada, Kind::AdaV, Kind::Mada] {
                for tol in [0.6, 0.3] {
                    let Some(b) = advertised(&kind, m, tol) else { continue };
                    let b = b as usize;
                    for quit in [1, b - b / 3, b, b + 1, 2 * b + 3] {
                        far.push((kind, tol, quit, w.clone()));
                    }
                }
            }
        }
    }
    run.explore("farquit", &far, |(k, t, q, w)| format!("{},tol{t},{},at{q}", k.name(), w.name), |(kind, tol, q, w), loc| {
        let y = crate::wide::labels(w.m)[w.us.len() % 3].clone();
        let confs: Vec<Vec<f64>> = w.us.iter().map(|u| margins(&y, u)).collect();
        let menu = menu(&confs);
        let sample = row_sample(&y);
        for script in crate::wide::lassos(menu.len(), 2, q + 2) {
            let wl = Scripted::new(&menu, script.clone());
            let step = Stepwise { wl: &wl, max_calls: q + 3, want_current: false, want_out: true };
            let cut = match kind {
                Kind::Ada => step.go(AdaBoost::init(&sample).tolerance(*tol).force_quit_at(*q)),
                Kind::AdaV => step.go(AdaBoostV::init(&sample).force_quit_at(*q).tolerance(*tol)),
                _ => step.go(MadaBoost::init(&sample).tolerance(*tol).force_quit_at(*q)),
            };
            loc.trace();
            loc.steps(cut.calls);
            let key = format!("{}#{}", loc.key(), fmt_i(&script[..script.len().min(4)]));
            let asked = cut.dists.len();
            if asked > *q {
                loc.viol_at(key, format!("asked to quit after {q} rounds, the weak learner was consulted {asked} times"));
                continue;
            }
            if degenerate(kind, Some(*tol), &cut, &y, &menu).is_some() || (0..asked).all(|k| edge(&y, &cut.dists[k], &menu[cut.picks[k]].conf).abs() < 1e-9) {
                loc.count("perfect_answer_runs");
                continue;
            }
            loc.outcome(&(asked, cut.broke));
            if let Some(p) = &cut.panic {
                loc.viol_at(key, format!("round {}: {p}", cut.calls));
            } else if asked != *q || cut.broke.is_none() {
                loc.viol_at(key, format!("asked to quit after {q} rounds, quit after {asked} without a perfect answer"));
            } else if !matches!(cut.out, Some(Ok(_))) {
                loc.viol_at(key, format!("no output: {:?}", cut.out));
            }
        }
    });
    // Tolerances so small that tens of thousands of rounds are advertised.
    let mut many = vec![];
    for m in run.pick(vec![3usize], vec![2, 3, 5]) {
        for kind in [Kind::Ada, Kind::AdaV, Kind::Mada] {
            for b in run.pick(vec![70_000f64], vec![33_000.0, 70_000.0, 140_000.0]) {
                for shape in 0..3usize {
                    let tol = match kind {
                        Kind::Ada => ((m as f64).ln() / b).sqrt(),
                        Kind::AdaV => (2.0 * (m as f64).ln() / b).sqrt(),
                        _ => ((m as f64 - 1.0) / b).sqrt(),
                    };
                    // Rounded so that the bound is no integer.
                    many.push((kind, m, (tol * 1e6).round() / 1e6, shape));
                }
            }
        }
    }
    run.explore("manyrounds", &many, |(k, m, t, s)| format!("{},m{m},tol{t},answers{s}", k.name()), |(kind, m, tol, shape), loc| {
        let m = *m;
        let y: Vec<f64> = (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let confs: Vec<Vec<f64>> = (0..m).map(|j| (0..m).map(|i| y[i] * match shape {
            0 => if i == j { -0.7 } else { 0.9 },
            1 => if i == j { -1.0 } else { 1.0 },
            _ => if i == j { -0.05 } else { 0.02 * (i + 2) as f64 },
        }).collect()).collect();
        let menu = menu(&confs);
        let sample = row_sample(&y);
        let b = advertised(kind, m, *tol).unwrap();
        let limit = b as usize + 5;
        let script: Vec<usize> = (0..limit).map(|k| if k % 11 == 0 { (k / 11) % m } else { k % m }).collect();
        let wl = Scripted::new(&menu, script);
        let t = with(*kind, &sample, Some(*tol), Stepwise { wl: &wl, max_calls: limit, want_current: false, want_out: true });
        loc.trace();
        loc.steps(t.calls);
        let asked = t.dists.len();
        loc.max("rounds", asked as f64);
        for d in t.dists.iter().step_by(97) {
            loc.state(&canon(d));
        }
        if degenerate(kind, Some(*tol), &t, &y, &menu).is_some() || (0..asked).all(|k| edge(&y, &t.dists[k], &menu[t.picks[k]].conf).abs() < 1e-9) {
            loc.count("perfect_answer_runs");
            return;
        }
        if let Some(p) = &t.panic {
            return loc.viol(format!("round {}: {p}", t.calls));
        }
        loc.check(t.broke.is_some() && asked as f64 == b, || format!("the weak learner was consulted {asked} times, {b} are advertised"));
        loc.check(matches!(t.out, Some(Ok(_))), || format!("no output: {:?}", t.out));
        loc.outcome(&asked);
    });
    run.rule = "case = (booster, capping parameter, step rule, labeling, first answer); inside it every answer script to the depth, continued for ever by cycling or by its last answer, run until the booster ends; second family: every forced number of rounds; third: answers that repeat a pattern over longer samples; fourth: forced numbers of rounds below, at and far above the advertised one over longer samples; fifth: tolerances that advertise tens of thousands of rounds".into();
}
