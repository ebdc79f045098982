//! C26: results do not depend on how rayon divides and orders the work.
//! The vendored rayon-core hands every decision of its scheduler to a plan.
use crate::boost::*;
use crate::fw::*;
use crate::p_feat::{dense_sample, svm_sample};
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::research::CrossValidation;
use miniboosts::{Criterion, GBMLoss};
use std::cell::Cell;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};

struct Data {
    cols: Vec<Vec<f64>>,
    y: Vec<f64>,
    target: Vec<f64>,
    w: Vec<f64>,
    sample: Sample,
    sparse: Sample,
    regression: Sample,
}

/// No two sums, splits or counts of this data tie.
fn data(n: usize, k: usize, shape: usize, dir: &Path, tag: &str) -> Data {
    let f = |i: usize, j: usize| ((i * (7 + 3 * j + 2 * shape) + 5 * j + 1) % (n + 3)) as f64;
    let cols: Vec<Vec<f64>> = (0..k)
        .map(|j| (0..n).map(|i| if (i + 2 * j + shape) % 4 == 1 { 0.0 } else { f(i, j) * 1.37 - 2.0 + 0.01 * i as f64 }).collect())
        .collect();
    let y: Vec<f64> = (0..n).map(|i| if i == 0 || (i != 1 && (f(i, 0) + f(i, 1 % k)) as usize % 3 == 0) { 1.0 } else { -1.0 }).collect();
    let target: Vec<f64> = (0..n).map(|i| 0.3 * f(i, 0) + (i as f64 * 1.7).sin()).collect();
    let w: Vec<f64> = (0..n).map(|i| 1.0 + 0.37 * ((i * i + shape) % 5) as f64 + 0.0123 * i as f64).collect();
    let z: f64 = w.iter().sum();
    let w = w.iter().map(|x| x / z).collect();
    let sample = dense_sample(&cols, &y);
    let sparse = svm_sample(dir, tag, &cols, &y);
    let regression = dense_sample(&cols, &target);
    Data { cols, y, target, w, sample, sparse, regression }
}

fn entries(s: &Sample) -> Vec<f64> {
    let (n, k) = s.shape();
    let mut v = vec![n as f64, k as f64];
    for f in s.features() {
        v.extend((0..n).map(|i| f[i]));
    }
    v.extend(s.target());
    v
}


type Scenario = (String, Box<dyn Fn(&Data) -> Vec<f64> + Sync + Send>, f64);

fn scenarios() -> Vec<Scenario> {
    let mut out: Vec<Scenario> = vec![];
    let mut add = |name: &str, tol: f64, f: Box<dyn Fn(&Data) -> Vec<f64> + Sync + Send>| out.push((name.to_string(), f, tol));
    add("dataframe", 1e-12, Box::new(|d| entries(&dense_sample(&d.cols, &d.y))));
    add("moments", 1e-9, Box::new(|d| {
        let mut v = vec![];
        for s in [&d.sample, &d.sparse] {
            v.extend(s.weighted_mean(&d.w));
            for (a, b) in s.weighted_mean_and_variance(&d.w) {
                v.extend([a, b]);
            }
            for y in [1.0, -1.0] {
                v.extend(s.weighted_mean_for_label(y, &d.w));
                for (a, b) in s.weighted_mean_and_variance_for_label(y, &d.w) {
                    v.extend([a, b]);
                }
            }
        }
        v
    }));
    add("folds", 1e-12, Box::new(|d| {
        let mut v = vec![];
        let mut cv = CrossValidation::new(&d.sample).n_folds(3);
        for (a, b) in cv.by_ref() {
            v.extend(entries(&a));
            v.extend(entries(&b));
        }
        v
    }));
    for (name, c) in [("entropy", Criterion::Entropy), ("edge", Criterion::Edge), ("gini", Criterion::Gini), ("twoing", Criterion::Twoing)] {
        for depth in [1, 3] {
            add(&format!("tree-{name}{depth}"), 1e-9, Box::new(move |d| {
                let mut v = vec![];
                for s in [&d.sample, &d.sparse] {
                    let t = DecisionTreeBuilder::new(s).max_depth(depth).criterion(c).build().produce(s, &d.w);
                    if name == "edge" {
                        // Splits that leave the majority alone all tie: only the edge is determined.
                        if depth == 1 {
                            v.push(t.predict_all(s).iter().zip(&d.y).zip(&d.w).map(|((p, y), w)| *p as f64 * y * w).sum());
                        }
                    } else {
                        v.extend(t.confidence_all(s));
                    }
                }
                v
            }));
        }
    }
    for (name, l) in [("l1", GBMLoss::L1), ("l2", GBMLoss::L2)] {
        for levels in [2, 3] {
            add(&format!("regression-{name}{levels}"), 1e-9, Box::new(move |d| {
                let s = &d.regression;
                let t = RegressionTreeBuilder::new(s).max_depth(levels).loss(l).build().produce(s, &vec![0.1; d.y.len()]);
                t.predict_all(s)
            }));
        }
        add(&format!("gbm-{name}"), 1e-7, Box::new(move |d| {
            let s = &d.regression;
            let wl = RegressionTreeBuilder::new(s).max_depth(2).loss(l).build();
            let mut g = GBM::init_with_loss(s, l);
            g.preprocess(&wl);
            let mut v = vec![];
            for it in 1..=3 {
                if g.boost(&wl, it).is_break() {
                    break;
                }
            }
            v.extend(Regressor::predict_all(&g.postprocess(&wl), s));
            v
        }));
    }
    add("bayes", 1e-9, Box::new(|d| {
        let h = GaussianNB::init().produce(&d.sample, &d.w);
        let mut v = h.confidence_all(&d.sample);
        v.extend(h.predict_all(&d.sample).iter().map(|x| *x as f64));
        v
    }));
    let kinds = |n: usize| -> Vec<(Kind, f64)> {
        vec![
            (Kind::Ada, 1e-9), (Kind::AdaV, 1e-9), (Kind::Mada, 1e-9), (Kind::Smooth { kappa: 0.4, gamma: 0.3 }, 1e-9),
            (Kind::Lp { nu: 1.3 }, 1e-5), (Kind::Erlp { nu: 1.3 }, 1e-5), (Kind::Soft { nu: 1.3 }, 1e-4), (Kind::Total, 1e-4),
            (Kind::Cerlp { nu: n as f64 / 2.0, fw: Fw::Classic }, 1e-7), (Kind::Cerlp { nu: 1.5, fw: Fw::ShortStep }, 1e-7),
            (Kind::Cerlp { nu: 1.5, fw: Fw::LineSearch }, 1e-6), (Kind::Cerlp { nu: 1.5, fw: Fw::BlendedPairwise }, 1e-6),
        ]
    };
    for (i, (kind, tol)) in kinds(4).into_iter().enumerate() {
        add(&format!("rounds-{}", kind.name()), tol, Box::new(move |d| {
            let n = d.y.len();
            let kind = kinds(n)[i].0;
            let us: Vec<Vec<f64>> = (0..4).map(|k| (0..n).map(|i| if (i + k) % 4 == 0 { -0.6 - 0.03 * i as f64 / n as f64 } else { 0.5 + 0.4 * ((i * 3 + k) % 5) as f64 / 5.0 }).collect()).collect();
            let confs: Vec<Vec<f64>> = us.iter().map(|u| margins(&d.y, u)).collect();
            let menu = menu(&confs);
            let wl = Scripted::new(&menu, vec![0, 1, 2, 3, 1]);
            let t = with(kind, &d.sample, Some(0.05), Stepwise { wl: &wl, max_calls: 4, want_current: true, want_out: true });
            if let Some(p) = t.panic {
                panic!("{p}");
            }
            let mut v: Vec<f64> = vec![t.calls as f64];
            for d in &t.dists {
                v.extend(d);
            }
            // Optimal combinations need not be unique: compare what they say.
            for (w, ids) in t.current.iter().chain(t.out.iter()).flatten() {
                let ms: Vec<f64> = (0..n).map(|i| w.iter().zip(ids).map(|(w, j)| w * us[*j][i]).sum()).collect();
                v.push(soft_margin(&ms, kind.nu()));
            }
            v
        }));
    }
    add("graph", 1e-9, Box::new(|d| {
        let n = d.y.len();
        let confs: Vec<Vec<f64>> = (0..4).map(|k| (0..n).map(|i| if (i * 3 + k) % 5 < 2 { 1.0 } else { -1.0 }).collect()).collect();
        let menu = menu(&confs);
        let wl = Scripted::new(&menu, vec![0, 1, 2, 3]);
        let mut b = GraphSepBoost::init(&d.sample);
        b.preprocess(&wl);
        for it in 1..=4 {
            if b.boost(&wl, it).is_break() {
                break;
            }
        }
        let mut v: Vec<f64> = wl.log.borrow().iter().flatten().copied().collect();
        let h = b.postprocess(&wl);
        v.extend(h.confidence_all(&d.sample));
        v
    }));
    add("ada-trees", 1e-9, Box::new(|d| {
        let s = &d.sample;
        let wl = DecisionTreeBuilder::new(s).max_depth(1).criterion(Criterion::Entropy).build();
        let mut b = AdaBoost::init(s).tolerance(0.2).force_quit_at(4);
        let f = b.run(&wl);
        let mut v = f.confidence_all(s);
        let (w, _) = f.decompose();
        v.extend(w);
        v
    }));
    out
}

pub fn c26(run: &mut Run) {
    let scratch = Scratch::new("c26");
    let dir = scratch.0.clone();
    let scen = scenarios();
    let sizes: Vec<(usize, usize)> = run.pick(vec![(4, 2), (9, 3)], vec![(3, 1), (4, 2), (6, 3), (9, 3), (13, 2), (21, 4)]);
    let threads: Vec<usize> = run.pick(vec![1, 2, 3], vec![1, 2, 3, 4, 8]);
    let mut cases = vec![];
    for (s, sc) in scen.iter().enumerate() {
        for &(n, k) in &sizes {
            for shape in 0..run.pick(1, 3) {
                for &t in &threads {
                    for injected in [false, true] {
                        cases.push((s, sc.0.clone(), n, k, shape, t, injected));
                    }
                }
            }
        }
    }
    for (s, sc) in scen.iter().enumerate() {
        for (n, k, t) in run.pick(vec![(70, 2, 2)], vec![(70, 2, 2), (70, 2, 4), (150, 3, 2), (300, 2, 2)]) {
            cases.push((s, sc.0.clone(), n, k, 0, t, false));
        }
    }
    let places = AtomicUsize::new(0);
    thread_local! {
        static PLACE: Cell<bool> = const { Cell::new(false) };
    }
    let budget = run.pick(1500usize, 8_000);
    let limit = run.pick(5_000usize, 50_000);
    let begun = std::time::Instant::now();
    run.explore("schedule", &cases, |(_, name, n, k, sh, t, inj)| format!("{name},{n}x{k}.{sh},threads{t}{}", if *inj { ",injected" } else { "" }), |(s, _, n, k, shape, t, injected), loc| {
        PLACE.with(|p| {
            if !p.replace(true) {
                stay_on_one_processor(places.fetch_add(1, Ordering::SeqCst));
            }
        });
        let d = data(*n, *k, *shape, &dir, &loc.key());
        let (_, f, tol) = &scen[*s];
        let go = |plan: &[u8]| -> (Result<Vec<f64>, String>, Vec<(bool, u8)>, u64) {
            rayon_core::mc::install(Some(rayon_core::mc::Ctrl { threads: *t, injected: *injected, plan: plan.to_vec(), ..Default::default() }));
            let r = guarded(|| f(&d));
            let c = rayon_core::mc::install(None).unwrap();
            (r, c.alts, c.accesses)
        };
        let (want, joins) = {
            rayon_core::mc::install(Some(rayon_core::mc::Ctrl { threads: 1, injected: false, ..Default::default() }));
            let r = guarded(|| f(&d));
            rayon_core::mc::install(None);
            (r, go(&[]).1.len())
        };
        let want = match want {
            Ok(w) => w,
            Err(p) => return loc.viol(p),
        };
        loc.max("scheduling_decisions", joins as f64);
        // All plans with one decision against the default; with two as well where they are few enough.
        let deep = 2 * joins * joins <= budget;
        loc.count(if deep { "two_deviations" } else { "one_deviation" });
        let mut todo: Vec<(Vec<u8>, usize, usize)> = vec![(vec![], 0, 0)];
        let mut interrupted = 0;
        while let Some((plan, dev, cuts)) = todo.pop() {
            let (got, alts, accesses) = go(&plan);
            let pos = alts.len();
            loc.trace();
            loc.steps(pos);
            loc.state(&plan);
            loc.max("shared_memory_accesses", accesses as f64);
            if cuts > 0 {
                loc.count("schedules_with_an_interruption");
            }
            let same = matches!(&got, Ok(g) if close_vec(g, &want, *tol));
            if let Ok(g) = &got {
                loc.outcome(&canon(g));
            }
            if !same {
                let at: Vec<String> = plan.iter().enumerate().filter(|p| *p.1 != 0).map(|(i, c)| format!("{i}:{c}")).collect();
                let text = match &got {
                    Err(p) => p.clone(),
                    Ok(g) => {
                        let i = (0..want.len().max(g.len())).find(|i| match (want.get(*i), g.get(*i)) { (Some(a), Some(b)) => !close(*a, *b, *tol), _ => true });
                        format!("observation {i:?} is {:?}, on one thread {:?}", i.and_then(|i| g.get(i)), i.and_then(|i| want.get(i)))
                    }
                };
                return loc.viol(format!("schedule [{}]: {text}", at.join(" ")));
            }
            // Interruptions between two accesses to shared memory: one, two where there are few.
            let places = alts.iter().filter(|a| a.0).count();
            let cuts_here = if places * places <= budget { 2 } else { 1 };
            for j in plan.len()..pos {
                let (cut, n) = alts[j];
                if cut {
                    interrupted += 1;
                }
                let more = if cut { cuts < cuts_here && interrupted <= limit && begun.elapsed().as_secs() < 240 } else { cuts == 0 && dev < if deep { 2 } else { 1 } };
                for c in 1..=if more { n } else { 0 } {
                    let mut p = plan.clone();
                    p.resize(j, 0);
                    p.push(c);
                    todo.push((p, dev + !cut as usize, cuts + cut as usize));
                }
            }
        }
        loc.max("observations", want.len() as f64);
    });
    run.rule = "case = (operation, data, number of threads, called from inside or outside the pool); in each, every schedule with at most one (two where few decisions) of rayon's decisions - stolen and run before, stolen and run after - differing from a single worker's, and with one interruption (two where few) before an access to a lock or atomic of the library, executed on the real code".into();
}
