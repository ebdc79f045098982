//! C21 naive Bayes, C22 gradient boosting, C23 the worst-case learner,
//! C24 objectives and losses, C25 combined hypotheses and serialisation.
use crate::boost::*;
use crate::fw::*;
use crate::p_feat::*;
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::research::objective_functions::{ExponentialLoss, HardMarginObjective, SoftMarginObjective};
use miniboosts::research::ObjectiveFunction;
use miniboosts::LossFunction;
use serde_json::json;
use std::ops::ControlFlow;

// ---------------------------------------------------------------- C21

fn total(v: &[f64]) -> f64 {
    v.iter().sum()
}

/// Log of prior times density for every label with weight; `None` if some
/// weighted label has a column of variance zero.
fn posteriors(cols: &[Vec<f64>], y: &[f64], d: &[f64], x: &[f64]) -> Option<Vec<(f64, f64)>> {
    let mut labels = y.to_vec();
    labels.sort_by(|a, b| a.partial_cmp(b).unwrap());
    labels.dedup();
    let mut out = vec![];
    for l in labels {
        let w: Vec<f64> = y.iter().zip(d).map(|(a, b)| if *a == l { *b } else { 0.0 }).collect();
        let p = total(&w);
        if p == 0.0 {
            continue;
        }
        let mut lp = (p / total(d)).ln();
        for (c, v) in cols.iter().zip(x) {
            let mean = c.iter().zip(&w).map(|(c, w)| c * w).sum::<f64>() / p;
            let var = c.iter().zip(&w).map(|(c, w)| (c - mean).powi(2) * w).sum::<f64>() / p;
            if var < 1e-12 {
                return None;
            }
            lp += -0.5 * ((2.0 * std::f64::consts::PI * var).ln() + (v - mean).powi(2) / var);
        }
        out.push((l, lp));
    }
    Some(out)
}

pub fn c21(run: &mut Run) {
    let quick = run.quick();
    let scratch = Scratch::new("c21");
    let dir = scratch.0.clone();
    let mut cases: Vec<(Vec<Vec<f64>>, bool, f64)> = vec![];
    for sparse in [false, true] {
        for scale in [1.0, 1e-3, 1e4] {
            let mut add = |cols: Vec<Vec<f64>>| {
                if cols.iter().all(|c| c.iter().any(|x| *x != c[0])) {
                    cases.push((cols.iter().map(|c| c.iter().map(|x| x * scale).collect()).collect(), sparse, scale));
                }
            };
            let a: &[f64] = if quick { &[0.0, 1.0, 3.0] } else { &[0.0, 1.0, 3.0, -2.0] };
            for c in vectors(a, 4) {
                add(vec![c]);
            }
            for c in vectors(&[0.0, 1.0], 8) {
                add(vec![c[..4].iter().map(|x| x + 1.0).collect(), c[4..].iter().map(|x| x * 3.0).collect()]);
            }
            if scale == 1.0 || !quick {
                for c in vectors(&[0.0, 2.0, -1.0], 5) {
                    add(vec![c]);
                }
                let s: &[f64] = if quick { &[0.0, 1.5] } else { &[0.0, 1.5, 2.0] };
                for c in vectors(s, 6) {
                    add(vec![c]);
                }
            }
        }
    }
    run.explore("table", &cases, |(c, s, _)| format!("{},{}", if *s { "sparse" } else { "dense" }, c.iter().map(|c| fmt_v(c)).collect::<Vec<_>>().join("/")), |(cols, sparse, scale), loc| {
        let n = cols[0].len();
        let k = cols.len();
        let labelsets: &[&[f64]] = if n >= 5 { &[&[-1.0, 1.0]] } else { &[&[-1.0, 1.0], &[1.0, 2.0], &[3.0, 0.0]] };
        let mut ys: Vec<Vec<f64>> = vec![];
        for l in labelsets {
            ys.extend(vectors(l, n));
        }
        if n == 6 {
            ys = vectors(&[1.0, 2.0, 7.0], 6).into_iter().enumerate().filter(|(i, _)| i % if quick { 31 } else { 7 } == 0).map(|x| x.1).collect();
        }
        ys.dedup();
        let mut dists: Vec<Vec<f64>> = vectors(&[1.0, 3.0], n);
        if n >= 5 || k == 2 {
            dists = dists.into_iter().step_by(if quick { 7 } else { 3 }).collect();
        }
        dists.push((0..n).map(|i| if i < 2 { 1.0 } else { 0.0 }).collect());
        dists.push((0..n).map(|i| if i % 2 == 0 { (i + 1) as f64 } else { 0.0 }).collect());
        dists.push((0..n).map(|i| if i == 0 { 0.0 } else { 1.0 }).collect());
        // Points elsewhere: between, beyond, and far beyond the training values.
        let far: Vec<f64> = [-1.0, 0.25, 0.6, 1.4, 2.2, 10.0, -300.0, 3000.0].iter().map(|x| x * scale).collect();
        let mut probes: Vec<Vec<f64>> = far.iter().map(|x| vec![*x; k]).collect();
        if k == 2 {
            probes.extend(far.iter().zip(far.iter().rev()).map(|(a, b)| vec![*a, *b]));
        }
        let pcols: Vec<Vec<f64>> = (0..k).map(|j| probes.iter().map(|p| p[j]).collect()).collect();
        let psample = dense_sample(&pcols, &vec![1.0; probes.len()]);
        for y in &ys {
            let s = if *sparse { svm_sample(&dir, loc.key(), cols, y) } else { dense_sample(cols, y) };
            for d in &dists {
                let tot = total(d);
                let d: Vec<f64> = d.iter().map(|x| x / tot).collect();
                if posteriors(cols, y, &d, &probes[0]).is_none() {
                    loc.count("skipped: a label with a constant column");
                    continue;
                }
                let what = || format!("labels {y:?}, weights {d:?}");
                let r = guarded(|| {
                    let h = GaussianNB::init().produce(&s, &d);
                    let at = |s: &Sample| -> Vec<(f64, Vec<(f64, f64)>)> { (0..s.shape().0).map(|i| (h.confidence(s, i), h.probabilities(s, i))).collect() };
                    (at(&s), at(&psample))
                });
                loc.trace();
                let (own, other) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        loc.viol(format!("{}: {e}", what()));
                        continue;
                    }
                };
                loc.state(&format!("{y:?}{d:?}"));
                let rows: Vec<Vec<f64>> = (0..n).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
                for (x, (label, probs)) in rows.iter().zip(&own).chain(probes.iter().zip(&other)) {
                    loc.step();
                    let refr = posteriors(cols, y, &d, x).unwrap();
                    let best = refr.iter().fold(f64::NEG_INFINITY, |a, b| a.max(b.1));
                    let size = refr.iter().map(|r| r.1.abs()).fold(1.0, f64::max);
                    let ok = refr.iter().any(|(l, p)| l == label && *p >= best - 1e-9 * size);
                    loc.outcome(&(canon(&[*label]), refr.len()));
                    loc.check(ok, || format!("{}: at {x:?} the label is {label}, log scores {refr:?}", what()));
                    let mut names: Vec<f64> = probs.iter().map(|p| p.0).collect();
                    names.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    if !loc.check(names == refr.iter().map(|r| r.0).collect::<Vec<_>>(), || format!("{}: labels of the probabilities {names:?}", what())) {
                        continue;
                    }
                    // Ratios between labels, where both are representable.
                    for (l, p) in probs {
                        for (l2, p2) in probs {
                            let get = |l: f64| refr.iter().find(|r| r.0 == l).unwrap().1;
                            let diff = get(*l) - get(*l2);
                            if *p > 1e-250 && *p2 > 1e-250 && *p < 1e250 && *p2 < 1e250 {
                                loc.check((p.ln() - p2.ln() - diff).abs() <= 1e-7 * size, || format!("{}: at {x:?} probabilities {probs:?}, log scores {refr:?}", what()));
                            }
                        }
                    }
                }
            }
        }
        loc.sample(json!({"columns": cols, "sparse": sparse}));
    });
    // Many rows, columns and labels; steep and gappy weights.
    let shapes: Vec<(&str, fn(usize) -> f64)> = vec![
        ("wave", |i| (i as f64 * 1.3).sin()),
        ("cycle", |i| ((i * 7) % 11) as f64 - 5.0),
        ("offset", |i| 1e4 + ((i * 5) % 13) as f64),
        ("small", |i| 1e-4 * (((i * 3) % 7) as f64 - 2.0)),
        ("zeros", |i| if i % 3 == 0 { 0.0 } else { (i % 8) as f64 }),
        ("ramp", |i| i as f64 / 3.0),
        ("negative", |i| -1.0 - ((i * 11) % 31) as f64 / 7.0),
        ("large", |i| 1e5 * (((i * 13) % 17) as f64 - 8.0)),
    ];
    let labelings: Vec<(&str, fn(usize, usize) -> f64)> = vec![
        ("two", |i, _| if (i * 2654435761) % 7 < 3 { 1.0 } else { -1.0 }),
        ("three", |i, _| ((i * 5) % 3) as f64),
        ("ten", |i, _| ((i * 7) % 10) as f64 - 3.0),
        ("unbalanced", |i, _| if i % 16 < 2 { 1.0 } else { -1.0 }),
        ("halves", |i, n| if 2 * i < n { 0.5 } else { 0.25 }),
        ("close", |i, _| 1.0 + (i % 2) as f64 * 1e-7),
    ];
    let weightings: Vec<(&str, fn(usize) -> f64)> = vec![
        ("uniform", |_| 1.0),
        ("ramp", |i| (i + 1) as f64),
        ("steep", |i| 10f64.powi(-((i % 10) as i32))),
        ("holes", |i| if i % 5 == 2 { 0.0 } else { 1.0 }),
        ("faint", |i| if i % 16 < 2 { 1e-11 } else { 1.0 }),
        ("first", |i| if i < 4 { 1.0 } else { 1e-6 }),
    ];
    let ns: Vec<usize> = if quick { vec![7, 12, 20, 33, 64, 65, 100, 130, 257] } else { (6..40).chain([50, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513]).collect() };
    let sets: Vec<Vec<usize>> = (0..8).map(|j| vec![j]).chain([vec![0, 1], vec![2, 7], vec![3, 4, 5], vec![6, 0, 1, 2], (0..8).collect(), (0..30).map(|j| j % 8).collect()]).collect();
    let mut large = vec![];
    for &n in &ns {
        for (c, _) in sets.iter().enumerate() {
            for (l, _) in labelings.iter().enumerate() {
                for sparse in [false, true] {
                    large.push((n, c, l, sparse));
                }
            }
        }
    }
    run.explore("large", &large, |c| format!("n{},cols{},{},{}", c.0, fmt_i(&sets[c.1]), labelings[c.2].0, if c.3 { "sparse" } else { "dense" }), |&(n, c, l, sparse), loc| {
        let cols: Vec<Vec<f64>> = sets[c].iter().enumerate().map(|(p, j)| (0..n).map(|i| shapes[*j].1(i * (p / 8 + 1) + p)).collect()).collect();
        let y: Vec<f64> = (0..n).map(|i| labelings[l].1(i, n)).collect();
        let s = if sparse { svm_sample(&dir, loc.key(), &cols, &y) } else { dense_sample(&cols, &y) };
        let mut probes: Vec<Vec<f64>> = vec![];
        for i in (0..n).step_by(1 + n / 12) {
            probes.push(cols.iter().map(|c| c[i] + 0.5).collect());
            probes.push(cols.iter().map(|c| c[i] * 1.5).collect());
            probes.push(cols.iter().map(|c| c[i] * -40.0 - 3.0).collect());
            probes.push(cols.iter().map(|c| c[(i * 3 + 1) % n]).collect());
        }
        let pcols: Vec<Vec<f64>> = (0..cols.len()).map(|j| probes.iter().map(|p| p[j]).collect()).collect();
        let psample = dense_sample(&pcols, &vec![1.0; probes.len()]);
        for (wname, wf) in &weightings {
            let d: Vec<f64> = (0..n).map(wf).collect();
            let tot = total(&d);
            let d: Vec<f64> = d.iter().map(|x| x / tot).collect();
            // Spread of every weighted label in every column, relative to the size of the values.
            let mut labels = y.clone();
            labels.sort_by(|a, b| a.partial_cmp(b).unwrap());
            labels.dedup();
            let flat = labels.iter().any(|l| {
                let p: f64 = (0..n).filter(|i| y[*i] == *l).map(|i| d[i]).sum();
                p > 0.0 && cols.iter().any(|c| {
                    let mean = (0..n).filter(|i| y[*i] == *l).map(|i| d[i] * c[i]).sum::<f64>() / p;
                    let var = (0..n).filter(|i| y[*i] == *l).map(|i| d[i] * (c[i] - mean).powi(2)).sum::<f64>() / p;
                    let big = c.iter().fold(0.0f64, |a, x| a.max(x.abs()));
                    var < 1e-12 || var < 1e-9 * big * big
                })
            });
            if flat {
                loc.count("skipped: a label with a constant column");
                continue;
            }
            let r = guarded(|| {
                let h = GaussianNB::init().produce(&s, &d);
                let at = |s: &Sample| -> Vec<(f64, Vec<(f64, f64)>)> { (0..s.shape().0).map(|i| (h.confidence(s, i), h.probabilities(s, i))).collect() };
                (at(&s), at(&psample))
            });
            loc.trace();
            let (own, other) = match r {
                Ok(x) => x,
                Err(e) => {
                    loc.viol(format!("weights {wname}: {e}"));
                    continue;
                }
            };
            loc.state(&(wname, n, c, l, sparse));
            let rows: Vec<Vec<f64>> = (0..n).step_by(1 + n / 40).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
            let own = own.into_iter().step_by(1 + n / 40);
            for (x, (label, probs)) in rows.iter().zip(own).chain(probes.iter().zip(other)) {
                loc.step();
                let Some(refr) = posteriors(&cols, &y, &d, x) else { continue };
                let best = refr.iter().fold(f64::NEG_INFINITY, |a, b| a.max(b.1));
                let size = refr.iter().map(|r| r.1.abs()).fold(1.0, f64::max);
                loc.outcome(&(canon(&[label]), refr.len()));
                loc.check(refr.iter().any(|(l, p)| *l == label && *p >= best - 1e-7 * size), || format!("weights {wname}: at {:?}... the label is {label}, log scores {refr:?}", &x[..x.len().min(3)]));
                let mut names: Vec<f64> = probs.iter().map(|p| p.0).collect();
                names.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if !loc.check(names == refr.iter().map(|r| r.0).collect::<Vec<_>>(), || format!("weights {wname}: labels of the probabilities {names:?}, with weight {:?}", refr.iter().map(|r| r.0).collect::<Vec<_>>())) {
                    continue;
                }
                for (l, p) in &probs {
                    for (l2, p2) in &probs {
                        let get = |l: f64| refr.iter().find(|r| r.0 == l).unwrap().1;
                        let diff = get(*l) - get(*l2);
                        if *p > 1e-250 && *p2 > 1e-250 && *p < 1e250 && *p2 < 1e250 {
                            loc.check((p.ln() - p2.ln() - diff).abs() <= 1e-6 * size, || format!("weights {wname}: probabilities {probs:?}, log scores {refr:?}"));
                        }
                    }
                }
            }
        }
    });
    drop(scratch);
    run.rule = "state = (labels, weights) per table and representation; label and probability ratios compared at every training row and at points between, beyond and far beyond".into();
    run.assume("every label with weight has positive variance in every column (otherwise its Gaussian is undefined)");
}

// ---------------------------------------------------------------- C22

fn l_eval(loss: GBMLoss, p: &[f64], y: &[f64]) -> f64 {
    p.iter().zip(y).map(|(p, y)| if loss == GBMLoss::L1 { (p - y).abs() } else { (p - y).powi(2) }).sum::<f64>() / y.len() as f64
}

/// Smallest loss over the line `f + c h`.
fn best_on_line(loss: GBMLoss, f: &[f64], h: &[f64], y: &[f64]) -> f64 {
    let at = |c: f64| l_eval(loss, &f.iter().zip(h).map(|(f, h)| f + c * h).collect::<Vec<_>>(), y);
    match loss {
        GBMLoss::L2 => {
            let hh: f64 = h.iter().map(|x| x * x).sum();
            if hh == 0.0 {
                return at(0.0);
            }
            at((0..y.len()).map(|i| (y[i] - f[i]) * h[i]).sum::<f64>() / hh)
        }
        GBMLoss::L1 => (0..y.len()).filter(|i| h[*i] != 0.0).map(|i| at((y[i] - f[i]) / h[i])).fold(at(0.0), f64::min),
    }
}

pub fn c22(run: &mut Run) {
    let mut cases: Vec<(Vec<f64>, GBMLoss)> = vec![];
    for l in [GBMLoss::L1, GBMLoss::L2] {
        for y in vectors(&[0.0, 1.0, -2.0, 0.3], 2) {
            cases.push((y, l));
        }
        let a: &[f64] = run.pick(&[0.0, 1.0, -2.0], &[0.0, 1.0, -2.0, 10.0]);
        for y in vectors(a, 3) {
            cases.push((y, l));
        }
        for y in vectors(&[1.0, -3.0], 4) {
            cases.push((y, l));
        }
    }
    let quick = run.quick();
    let lname = |l: &GBMLoss| if *l == GBMLoss::L1 { "L1" } else { "L2" };
    run.explore("script", &cases, |(y, l)| format!("{},y={}", lname(l), fmt_v(y)), |(y, l), loc| {
        let n = y.len();
        let s = row_sample(y);
        let menu: Vec<TableR> = match n {
            2 => vectors(&[-1.0, 0.0, 0.5, 2.0], 2),
            3 => vectors(&[-1.0, 0.0, 0.5], 3),
            _ => vectors(&[-1.0, 2.0], 4).into_iter().chain([vec![0.0; 4], vec![0.0, 0.0, 1.0, 0.5]]).collect(),
        }
        .into_iter()
        .enumerate()
        .map(|(id, v)| TableR { id, val: v.into() })
        .collect();
        let depth = if n == 2 && !quick { 3 } else { 2 };
        each_script(menu.len(), depth, None, |script| {
            let wl = Scripted::new(&menu, script.to_vec());
            let what = || format!("answers {script:?}");
            let mut g: GBM<'_, TableR, GBMLoss> = GBM::init_with_loss(&s, *l);
            if let Err(e) = guarded(|| g.preprocess(&wl)) {
                loc.viol(format!("{}: {e}", what()));
                return depth;
            }
            let mut coefs: Vec<f64> = vec![];
            let mut ids: Vec<usize> = vec![];
            let mut used = depth;
            for it in 1..=depth {
                let flow = match guarded(|| g.boost(&wl, it)) {
                    Ok(f) => f,
                    Err(e) => {
                        loc.viol(format!("{} round {it}: {e}", what()));
                        return it;
                    }
                };
                loc.step();
                let f: Vec<f64> = (0..n).map(|i| coefs.iter().zip(&ids).map(|(c, j)| c * menu[*j].val[i]).sum()).collect();
                let shown = wl.log.borrow()[it - 1].clone();
                loc.check(close_vec(&shown, &f, 1e-9), || format!("{} round {it}: predictions shown {shown:?}, combined so far {f:?}", what()));
                loc.state(&(canon(&shown), script[it - 1]));
                let h = &menu[script[it - 1]].val;
                let best = best_on_line(*l, &f, h, y);
                let before = l_eval(*l, &f, y);
                let (w, hs) = match guarded(|| g.postprocess(&wl).decompose()) {
                    Ok(x) => x,
                    Err(e) => {
                        loc.viol(format!("{} round {it}: {e}", what()));
                        return it;
                    }
                };
                match flow {
                    ControlFlow::Break(r) => {
                        loc.check(r == it && best >= before - 1e-9 && w.len() == it - 1, || format!("{} round {it}: stopped ({r}) with {} votes though the loss {before} can still be lowered to {best} along {h:?}", what(), w.len()));
                        used = it;
                        break;
                    }
                    ControlFlow::Continue(()) => {
                        if !loc.check(w.len() == it && hs.len() == it, || format!("{} round {it}: {} votes", what(), w.len())) {
                            return it;
                        }
                        coefs.push(w[it - 1]);
                        ids.push(hs[it - 1].id);
                        loc.check(close_vec(&w, &coefs, 0.0) && ids == script[..it], || format!("{} round {it}: votes {w:?} on {ids:?}", what()));
                        let now: Vec<f64> = (0..n).map(|i| f[i] + w[it - 1] * h[i]).collect();
                        let got = l_eval(*l, &now, y);
                        loc.check(got <= best + 1e-9 * (1.0 + best), || format!("{} round {it}: coefficient {} gives loss {got}, the best along {h:?} from {f:?} is {best}", what(), w[it - 1]));
                        loc.outcome(&canon(&now));
                    }
                }
            }
            loc.trace();
            used
        });
        // Whole runs: the result, its size, its repeatability.
        each_script(menu.len(), 2.min(depth), None, |script| {
            let wl = Scripted::new(&menu, script.to_vec());
            let r = guarded(|| {
                let mut g: GBM<'_, TableR, GBMLoss> = GBM::init_with_loss(&s, *l);
                let a = g.run(&wl).decompose();
                let calls = wl.log.borrow().len();
                wl.log.borrow_mut().clear();
                let b = g.run(&wl).decompose();
                (a, b, calls)
            });
            loc.trace();
            match r {
                Err(e) => loc.viol(format!("run, answers {script:?}: {e}")),
                Ok(((w, hs), (w2, hs2), calls)) => {
                    let ids: Vec<usize> = hs.iter().map(|h| h.id).collect();
                    let ids2: Vec<usize> = hs2.iter().map(|h| h.id).collect();
                    loc.check(calls <= 100 && (calls == 100 || w.len() + 1 == calls), || format!("run, answers {script:?}: {calls} rounds, {} votes", w.len()));
                    loc.check(w == w2 && ids == ids2, || format!("run, answers {script:?}: a second run gives {w2:?} on {ids2:?} instead of {w:?} on {ids:?}"));
                    let f: Vec<f64> = (0..n).map(|i| w.iter().zip(&hs).map(|(c, h)| c * h.val[i]).sum()).collect();
                    let m = WeightedMajority { weights: w.clone(), hypotheses: hs };
                    let out: Vec<f64> = Regressor::predict_all(&m, &s);
                    loc.check(close_vec(&out, &f, 1e-9), || format!("run, answers {script:?}: predictions {out:?}, combination {f:?}"));
                    loc.check(l_eval(*l, &f, y) <= l_eval(*l, &vec![0.0; n], y) + 1e-9, || format!("run, answers {script:?}: loss rose"));
                }
            }
            2
        });
        loc.sample(json!({"targets": y, "loss": lname(l)}));
    });
    // With regression trees: the training loss never rises and reaches what the tree can separate.
    let mut tcases: Vec<(Vec<f64>, Vec<f64>, GBMLoss, usize)> = vec![];
    for l in [GBMLoss::L1, GBMLoss::L2] {
        for levels in [1usize, 2, 3] {
            for y in vectors(&[0.0, 1.0, -2.0], 3) {
                for x in [vec![0.0, 1.0, 2.0], vec![5.0, 0.0, 1.0], vec![1.0, 1.0, 0.0]] {
                    tcases.push((x, y.clone(), l, levels));
                }
            }
            if !quick {
                for y in vectors(&[0.0, 1.0, 7.0], 4) {
                    tcases.push((vec![3.0, 1.0, 0.0, 4.0], y, l, levels));
                }
            }
        }
    }
    run.explore("tree", &tcases, |(x, y, l, d)| format!("{},levels{d},x={},y={}", lname(l), fmt_v(x), fmt_v(y)), |(x, y, l, levels), loc| {
        let s = dense_sample(&[x.clone()], y);
        let n = y.len();
        let r = guarded(|| {
            let wl = RegressionTreeBuilder::new(&s).max_depth(*levels).loss(*l).build();
            let mut g = GBM::init_with_loss(&s, *l);
            let m = g.run(&wl);
            let fin = Regressor::predict_all(&m, &s);
            let (w, hs) = m.decompose();
            let hv: Vec<Vec<f64>> = hs.iter().map(|h| h.predict_all(&s)).collect();
            (w, hv, fin)
        });
        loc.trace();
        match r {
            Err(e) => loc.viol(e),
            Ok((w, hv, fin)) => {
                let mut f = vec![0.0; n];
                let mut last = l_eval(*l, &f, y);
                for (k, (w, h)) in w.iter().zip(&hv).enumerate() {
                    loc.step();
                    for i in 0..n {
                        f[i] += w * h[i];
                    }
                    let now = l_eval(*l, &f, y);
                    loc.check(now <= last + 1e-9, || format!("round {}: loss {last} -> {now}", k + 1));
                    last = now;
                    loc.state(&canon(&f));
                }
                loc.check(close_vec(&f, &fin, 1e-9), || format!("combined {f:?}, predicted {fin:?}"));
                if *l == GBMLoss::L2 && *levels >= 3 && x[0] == 0.0 {
                    loc.check(last <= 1e-6, || format!("final loss {last}"));
                }
            }
        }
    });
    // Long samples and whole runs of a hundred rounds, judged round by round.
    let targets: Vec<(&str, fn(usize, usize) -> f64)> = vec![
        ("wave", |i, _| (i as f64).sin() * 3.0),
        ("ramp", |i, n| i as f64 - n as f64 / 3.0),
        ("outlier", |i, _| if i == 2 { 1e4 } else { (i % 5) as f64 }),
        ("binary", |i, _| if (i * 3) % 7 < 3 { 1.0 } else { -1.0 }),
        ("small", |i, _| 1e-6 * ((i % 9) as f64 - 4.0)),
        ("zeros", |i, _| if i % 4 == 1 { 2.5 } else { 0.0 }),
        ("large", |i, _| 1e7 + 1e5 * (i % 6) as f64),
        ("nano", |i, _| 1e-10 * ((i % 4) as f64 + 0.5)),
    ];
    let answers: Vec<(&str, fn(usize, usize) -> f64)> = vec![
        ("one", |_, _| 1.0),
        ("left", |i, n| if 2 * i < n { -1.5 } else { 0.5 }),
        ("even", |i, _| if i % 2 == 0 { 1.0 } else { 0.0 }),
        ("cos", |i, _| (i as f64 * 0.7).cos()),
        ("spike", |i, _| if i == 2 { 100.0 } else { 0.0 }),
        ("tiny", |i, _| 1e-5 * ((i % 3) as f64 + 1.0)),
        ("bands", |i, _| ((i / 3) % 4) as f64 - 1.0),
        ("zero", |_, _| 0.0),
        ("steep", |i, _| 10f64.powi((i % 7) as i32 - 3)),
        ("micro", |i, _| 1e-8 * ((i % 5) as f64 - 1.5)),
        ("huge", |i, _| 1e9 * ((i % 3) as f64 - 0.5)),
        ("pico", |i, _| 1e-11 * ((i % 4) as f64 - 0.7)),
    ];
    let schedules: Vec<Vec<usize>> = vec![
        vec![0], vec![0, 1], vec![0, 2, 4], vec![6, 3, 1, 0], vec![5, 0], vec![4, 0, 3], vec![8, 2, 3, 1, 0], vec![2, 3, 5, 6, 8], vec![3], vec![8, 5], vec![1, 2, 3, 4, 6, 8, 0], vec![0, 7], vec![1, 6, 7], vec![9, 0], vec![9], vec![10, 2, 9], vec![11], vec![2, 11, 0],
    ];
    let ns: Vec<usize> = run.pick(vec![4, 5, 9, 16, 31, 64, 65, 130, 257], (4..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025]).collect());
    let mut long = vec![];
    for &n in &ns {
        for t in 0..targets.len() {
            for k in 0..schedules.len() {
                for l in [GBMLoss::L1, GBMLoss::L2] {
                    long.push((n, t, k, l));
                }
            }
        }
    }
    run.explore("long", &long, |c| format!("{},n{},{},answers{}", lname(&c.3), c.0, targets[c.1].0, fmt_i(&schedules[c.2])), |&(n, t, k, l), loc| {
        let y: Vec<f64> = (0..n).map(|i| targets[t].1(i, n)).collect();
        let s = row_sample(&y);
        let menu: Vec<TableR> = answers.iter().enumerate().map(|(id, a)| TableR { id, val: (0..n).map(|i| a.1(i, n)).collect::<Vec<f64>>().into() }).collect();
        let script: Vec<usize> = (0..101).map(|r| schedules[k][r % schedules[k].len()]).collect();
        let wl = Scripted::new(&menu, script.clone());
        let big = y.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let mut g: GBM<'_, TableR, GBMLoss> = GBM::init_with_loss(&s, l);
        g.preprocess(&wl);
        let mut f = vec![0.0; n];
        let mut last = l_eval(l, &f, &y);
        let unit = if l == GBMLoss::L1 { big } else { big * big };
        let mut votes = vec![];
        for it in 1..=101usize {
            let flow = match guarded(|| g.boost(&wl, it)) {
                Ok(x) => x,
                Err(e) => return loc.viol(format!("round {it}: {e}")),
            };
            loc.step();
            let asked = wl.log.borrow().len();
            if asked == it {
                let shown = wl.log.borrow()[it - 1].clone();
                loc.check((0..n).all(|i| (shown[i] - f[i]).abs() <= 1e-9 * (big + f[i].abs())), || format!("round {it}: the predictions shown are not the combination so far"));
                loc.state(&canon(&shown));
            }
            let (w, hs) = g.postprocess(&wl).decompose();
            if let ControlFlow::Break(_) = flow {
                if it == 101 {
                    loc.check(w.len() == 100 && asked == 100, || format!("{asked} answers and {} votes after the last round", w.len()));
                } else {
                    let h = &menu[script[it - 1]].val;
                    let best = best_on_line(l, &f, h, &y);
                    loc.check(w.len() == it - 1 && best >= last - 1e-9 * unit, || format!("round {it}: stopped although the loss {last} can be lowered to {best} along {}", answers[script[it - 1]].0));
                }
                break;
            }
            if !loc.check(it <= 100 && w.len() == it && hs[it - 1].id == script[it - 1] && w[..it - 1] == votes[..], || format!("round {it}: votes {} on the answers, earlier ones changed: {}", w.len(), w[..(it - 1).min(w.len())] != votes[..])) {
                return;
            }
            votes = w.clone();
            let h = &menu[script[it - 1]].val;
            let best = best_on_line(l, &f, h, &y);
            for i in 0..n {
                f[i] += w[it - 1] * h[i];
            }
            let now = l_eval(l, &f, &y);
            loc.check(now <= best + 1e-9 * (best + 1e-6 * unit), || format!("round {it}: coefficient {} for {} gives loss {now}, the best is {best}", w[it - 1], answers[script[it - 1]].0));
            loc.check(now <= last + 1e-9 * (last + 1e-6 * unit), || format!("round {it}: the loss rises from {last} to {now}"));
            last = now;
        }
        loc.trace();
        loc.outcome(&canon(&[last / unit.max(1e-30)]));
        // A second run of the same booster.
        let again = guarded(|| {
            wl.log.borrow_mut().clear();
            let a = g.run(&wl).decompose();
            wl.log.borrow_mut().clear();
            let b = GBM::init_with_loss(&s, l).run(&wl).decompose();
            (a.0 == b.0, a.0 == votes)
        });
        loc.check(again == Ok((true, true)), || format!("a second run (equal to a fresh run, to the stepped run): {again:?}"));
    });
    run.rule = "state = (predictions shown, answer); every prefix of every answer sequence, every whole run".into();
}

// ---------------------------------------------------------------- C24

/// Minimum of d.margins over the vertices of the capped simplex, by listing them all.
fn capped_min(margins: &[f64], nu: f64) -> f64 {
    fn rec(m: &[f64], left: f64, cap: f64, used: &mut Vec<bool>, acc: f64, best: &mut f64) {
        if left <= 1e-15 {
            *best = best.min(acc);
            return;
        }
        for i in 0..m.len() {
            if !used[i] {
                used[i] = true;
                let t = left.min(cap);
                rec(m, left - t, cap, used, acc + t * m[i], best);
                used[i] = false;
            }
        }
    }
    let mut best = f64::INFINITY;
    rec(margins, 1.0, 1.0 / nu, &mut vec![false; margins.len()], 0.0, &mut best);
    best
}

pub fn c24(run: &mut Run) {
    let mut ys: Vec<Vec<f64>> = vec![];
    for m in 1..=run.pick(4, 5) {
        ys.extend(vectors(&[1.0, -1.0], m));
    }
    run.explore("margin", &ys, |y| fmt_y(y), |y, loc| {
        let m = y.len();
        let s = row_sample(y);
        let alpha: &[f64] = if m >= 4 { &[-1.0, 0.0, 0.4, 1.0] } else { &[-1.0, -0.3, 0.0, 0.25, 1.0, 2.0] };
        let mut nus: Vec<f64> = vec![1.0, 1.3, 1.5, 2.0, 2.5, 3.0, 3.7, 4.0, 4.5, 5.0];
        nus.retain(|n| *n <= m as f64);
        for conf in vectors(alpha, m) {
            let h = TableH::new(0, conf.clone());
            let mg = margins(y, &conf);
            for nu in &nus {
                let r = guarded(|| SoftMarginObjective::new(*nu).eval(&s, &h));
                let want = capped_min(&mg, *nu);
                loc.trace();
                loc.step();
                loc.state(&(canon(&conf), canon(&[*nu])));
                loc.outcome(&canon(&[want]));
                loc.check(matches!(r, Ok(v) if close(v, want, 1e-9)), || format!("soft margin of {mg:?} at nu {nu}: {r:?}, expected {want}"));
            }
            let want = mg.iter().copied().fold(f64::INFINITY, f64::min);
            let r = guarded(|| (HardMarginObjective::new().eval(&s, &h), ObjectiveFunction::<TableH>::eval(&HardMarginObjective::default(), &s, &h)));
            loc.check(matches!(r, Ok((a, b)) if close(a, want, 1e-9) && a == b), || format!("hard margin of {mg:?}: {r:?}"));
            let want = mg.iter().zip(y).zip(&conf).map(|((_, y), c)| (-y * if *c >= 0.0 { 1.0 } else { -1.0 }).exp()).sum::<f64>() / m as f64;
            let r = guarded(|| ExponentialLoss::new().eval(&s, &h));
            loc.check(matches!(r, Ok(v) if close(v, want, 1e-9)), || format!("exponential loss of {conf:?} on {y:?}: {r:?}, expected {want}"));
        }
        loc.sample(json!({"labels": y}));
    });
    // Long samples: the same minimum, by giving the cap to the smallest margins in turn.
    let greedy = |mg: &[f64], nu: f64| {
        let mut v = mg.to_vec();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut left = 1.0f64;
        let mut out = 0.0;
        for x in v {
            let w = left.min(1.0 / nu);
            out += w * x;
            left = (left - w).max(0.0);
        }
        out
    };
    let patterns: Vec<(&str, fn(usize, usize) -> f64)> = vec![
        ("wave", |i, _| (i as f64 * 1.1).sin()),
        ("ramp", |i, n| i as f64 / n as f64 - 0.3),
        ("down", |i, n| (n - i) as f64 / n as f64 - 0.6),
        ("signs", |i, _| if (i * 5) % 7 < 3 { 1.0 } else { -1.0 }),
        ("zeros", |i, _| if i % 5 == 2 { -0.25 } else { 0.0 }),
        ("tiny", |i, _| 1e-9 * ((i % 7) as f64 - 3.0)),
        ("large", |i, _| 50.0 * ((i % 6) as f64 - 2.0)),
        ("equal", |_, _| 0.75),
        ("outlier", |i, n| if i + 1 == n { -1.0 } else { 0.9 }),
        ("close", |i, _| 0.5 + 1e-8 * ((i * 7) % 13) as f64),
        ("huge", |i, _| 1e10 * ((i * 5) % 9) as f64 - 3e10),
    ];
    let labs: Vec<(&str, fn(usize, usize) -> f64)> = vec![("alt", |i, _| if i % 2 == 0 { 1.0 } else { -1.0 }), ("half", |i, n| if 2 * i < n { 1.0 } else { -1.0 }), ("plus", |_, _| 1.0), ("minus", |_, _| -1.0)];
    let ms: Vec<usize> = run.pick((6..=40).chain([63, 64, 65, 100, 128, 129, 255, 256, 257, 1000]).collect(), (6..=300).chain([511, 513, 1000, 1025, 3000]).collect());
    let mut long = vec![];
    for &m in &ms {
        for p in 0..patterns.len() {
            for l in 0..labs.len() {
                long.push((m, p, l));
            }
        }
    }
    run.explore("long-margin", &long, |c| format!("m{},{},{}", c.0, patterns[c.1].0, labs[c.2].0), |&(m, p, l), loc| {
        let y: Vec<f64> = (0..m).map(|i| labs[l].1(i, m)).collect();
        let conf: Vec<f64> = (0..m).map(|i| patterns[p].1(i, m)).collect();
        let s = row_sample(&y);
        let h = TableH::new(0, conf.clone());
        let mg = margins(&y, &conf);
        let big = conf.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let mf = m as f64;
        let mut nus = vec![1.0, 1.5, 2.0, 2.9, 3.0, 7.0, 0.1 * mf, 0.25 * mf, mf / 3.0, 0.5 * mf, 0.7 * mf, 0.9 * mf, mf - 1.0, mf - 0.5, mf - 1e-9, mf, 1.0 + 1e-9, 49.0, 10.0];
        nus.retain(|n| *n >= 1.0 && *n <= mf);
        for nu in nus {
            let r = guarded(|| SoftMarginObjective::new(nu).eval(&s, &h));
            let want = greedy(&mg, nu);
            loc.trace();
            loc.step();
            loc.state(&(m, p, l, canon(&[nu])));
            loc.check(matches!(r, Ok(v) if (v - want).abs() <= 1e-9 * big), || format!("soft margin at nu {nu}: {r:?}, expected {want}"));
        }
        let want = mg.iter().copied().fold(f64::INFINITY, f64::min);
        let r = guarded(|| ObjectiveFunction::<TableH>::eval(&HardMarginObjective::default(), &s, &h));
        loc.check(matches!(r, Ok(a) if a == want), || format!("hard margin: {r:?}, expected {want}"));
        let want = y.iter().zip(&conf).map(|(y, c)| (-y * if *c >= 0.0 { 1.0 } else { -1.0 }).exp()).sum::<f64>() / mf;
        let r = guarded(|| ExponentialLoss::new().eval(&s, &h));
        loc.outcome(&canon(&[want]));
        loc.check(matches!(r, Ok(v) if close(v, want, 1e-9)), || format!("exponential loss: {r:?}, expected {want}"));
    });
    let mut lloss = vec![];
    for &m in &ms {
        for p in 0..patterns.len() {
            for q in 0..patterns.len() {
                lloss.push((m, p, q));
            }
        }
    }
    run.explore("long-loss", &lloss, |c| format!("m{},{},{}", c.0, patterns[c.1].0, patterns[c.2].0), |&(m, a, b), loc| {
        let p: Vec<f64> = (0..m).map(|i| patterns[a].1(i, m)).collect();
        let y: Vec<f64> = (0..m).map(|i| patterns[b].1((i * 3 + 1) % m, m)).collect();
        let big = p.iter().chain(&y).fold(0.0f64, |a, x| a.max(x.abs()));
        for l in [GBMLoss::L1, GBMLoss::L2] {
            let unit = if l == GBMLoss::L1 { big } else { big * big };
            let r = guarded(|| (l.eval(&p, &y), l.gradient(&p, &y), l.hessian(&p, &y), l.best_coefficient(&y, &p)));
            loc.trace();
            loc.step();
            let (e, g, h, c) = match r {
                Ok(x) => x,
                Err(e) => {
                    loc.viol(e);
                    continue;
                }
            };
            loc.state(&(m, a, b, l == GBMLoss::L1));
            let want = l_eval(l, &p, &y);
            loc.check((e - want).abs() <= 1e-12 * unit, || format!("loss {e}, expected {want}"));
            let ok = g.len() == m && h.len() == m && match l {
                GBMLoss::L2 => h[0] > 0.0 && h.iter().all(|x| *x == h[0]) && (0..m).all(|i| (g[i] - h[0] * (p[i] - y[i])).abs() <= 1e-12 * h[0] * big),
                GBMLoss::L1 => h.iter().all(|x| *x == 0.0) && (0..m).all(|i| if p[i] == y[i] { g[i].abs() <= 1.0 } else { g[i] == if p[i] > y[i] { 1.0 } else { -1.0 } }),
            };
            loc.check(ok, || "gradient or Hessian".to_string());
            let best = best_on_line(l, &vec![0.0; m], &p, &y);
            let got = l_eval(l, &p.iter().map(|x| c * x).collect::<Vec<_>>(), &y);
            loc.outcome(&canon(&[got / unit.max(1e-30)]));
            loc.check(got <= best + 1e-9 * (best + 1e-6 * unit), || format!("coefficient {c} leaves {got}, the best leaves {best}"));
        }
    });
    let mut preds: Vec<Vec<f64>> = vec![];
    for m in 1..=3 {
        preds.extend(vectors(&[0.0, 1.0, -2.0, 0.5], m));
    }
    if !run.quick() {
        preds.extend(vectors(&[0.0, 1.0, -2.0, 0.5], 4));
    }
    run.explore("loss", &preds, |p| fmt_v(p), |p, loc| {
        let m = p.len();
        for y in vectors(&[0.0, 1.0, -1.5, 0.5], m) {
            for l in [GBMLoss::L1, GBMLoss::L2] {
                loc.trace();
                loc.step();
                loc.state(&(canon(&y), l == GBMLoss::L1));
                let r = guarded(|| (l.eval(p, &y), l.gradient(p, &y), l.hessian(p, &y), l.best_coefficient(&y, p)));
                let (e, g, h, c) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        loc.viol(format!("targets {y:?}: {e}"));
                        continue;
                    }
                };
                let want = l_eval(l, p, &y);
                loc.check(close(e, want, 1e-12), || format!("targets {y:?}: loss {e}, expected {want}"));
                for i in 0..m {
                    let at = l.eval_at_point(p[i], y[i]);
                    loc.check(close(at, l_eval(l, &p[i..=i], &y[i..=i]), 1e-12), || format!("targets {y:?}: loss {at} at {i}"));
                }
                loc.check(g.len() == m && h.len() == m, || format!("targets {y:?}: {} gradients, {} Hessians", g.len(), h.len()));
                let ok = match l {
                    // Half the square, or the square: one common factor.
                    GBMLoss::L2 => {
                        let f = h[0];
                        f > 0.0 && h.iter().all(|x| *x == f) && (0..m).all(|i| close(g[i], f * (p[i] - y[i]), 1e-12))
                    }
                    GBMLoss::L1 => h.iter().all(|x| *x == 0.0) && (0..m).all(|i| if p[i] == y[i] { g[i].abs() <= 1.0 } else { g[i] == if p[i] > y[i] { 1.0 } else { -1.0 } }),
                };
                loc.check(ok, || format!("targets {y:?}: gradient {g:?}, Hessian {h:?}"));
                let zero = vec![0.0; m];
                let best = best_on_line(l, &zero, p, &y);
                let got = l_eval(l, &p.iter().map(|x| c * x).collect::<Vec<_>>(), &y);
                loc.check(got <= best + 1e-9 * (1.0 + best), || format!("residuals {y:?}: coefficient {c} leaves {got}, the best leaves {best}"));
                loc.outcome(&canon(&[e, c]));
            }
        }
    });
    run.rule = "state = (confidences, nu) per labeling; (targets, loss) per prediction vector; every value compared with its definition".into();
}
