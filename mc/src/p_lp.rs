//! C07-C11: the margin-maximising boosters against exact game values.
use crate::boost::*;
use crate::fw::*;
use crate::util::*;
use serde_json::json;

/// One whole run with a maximum-edge weak learner.
pub fn whole_run(kind: Kind, tol: f64, y: &[f64], us: &[Vec<f64>], last: bool, loc: &mut Local) {
    let confs: Vec<Vec<f64>> = us.iter().map(|u| margins(y, u)).collect();
    let class = menu(&confs);
    let sample = row_sample(y);
    let wl = MaxEdge::new(y, &class, last);
    // A weak learner whose best answer to the uniform distribution is no better
    // than chance (up to the tolerance) is outside the boosters' assumption.
    let m = y.len() as f64;
    let first = us.iter().map(|u| u.iter().sum::<f64>() / m).fold(f64::NEG_INFINITY, f64::max);
    if first <= kind.needs_edge(tol) + 1e-9 {
        loc.count("skipped_no_weak_learner");
        return;
    }
    let t = drive(kind, &sample, Some(tol), &wl, 3000);
    loc.trace();
    loc.steps(t.calls);
    loc.max("rounds", t.calls as f64);
    for d in &t.dists {
        loc.state(&canon(d));
    }
    if let Some(p) = &t.panic {
        return loc.viol(format!("round {}: {p}", t.calls));
    }
    if t.broke.is_none() {
        return loc.viol("still running after 3000 rounds".to_string());
    }
    let (w, ids) = match &t.out {
        Some(Ok(o)) => o.clone(),
        o => return loc.viol(format!("no output: {o:?}")),
    };
    let sum: f64 = w.iter().sum();
    if w.is_empty() || w.iter().any(|x| !(*x >= 0.0)) || (sum - 1.0).abs() > 1e-9 {
        return loc.viol(format!("output weights {} are not a convex combination", fmt_v(&w)));
    }
    if ids.iter().any(|j| !t.picks.contains(j)) {
        return loc.viol(format!("output uses hypotheses {ids:?} the weak learner never produced"));
    }
    let nu = kind.nu();
    let got = soft_margin(&wmargins(y, &w, &ids, &class), nu);
    let opt = game_value(us, nu);
    loc.max("suboptimality_over_tolerance", (opt - got) / tol);
    loc.outcome(&canon(&[got]));
    loc.sample(json!({"booster": kind.name(), "y": y, "margins": us, "rounds": t.calls, "soft_margin": got, "optimum": opt}));
    if got < opt - tol - 1e-5 {
        loc.viol(format!("soft margin {got} after {} rounds, optimum {opt}, tolerance {tol}", t.calls));
    }
}

#[derive(Clone)]
pub struct ClassCase {
    pub kind: Kind,
    pub tol: f64,
    pub y: Vec<f64>,
    pub us: Vec<Vec<f64>>,
    pub name: String,
    pub last: bool,
}

impl ClassCase {
    pub fn key(&self) -> String {
        format!("{},tol{},y={},{}{}", self.kind.name(), self.tol, fmt_y(&self.y), self.name, if self.last { ",last" } else { "" })
    }
}

pub fn labels_for(m: usize) -> Vec<Vec<f64>> {
    let alt: Vec<f64> = (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let one: Vec<f64> = (0..m).map(|i| if i + 1 == m { 1.0 } else { -1.0 }).collect();
    if m == 2 { vec![alt, one] } else { vec![alt, one] }
}

/// All small hypothesis classes: subsets of a table class.
pub fn classes(run: &Run) -> Vec<(String, usize, Vec<Vec<f64>>)> {
    let mut out = vec![];
    let mut add = |tag: &str, m: usize, alphabet: &[f64], lo: usize, hi: usize| {
        let us = vectors(alphabet, m);
        for s in subsets(us.len(), lo, hi) {
            out.push((format!("{tag}{m}{{{}}}", fmt_i(&s)), m, s.iter().map(|j| us[*j].clone()).collect()));
        }
    };
    let sign = [-1.0, 1.0];
    add("sign", 2, &sign, 1, 4);
    add("sign", 3, &sign, 1, run.pick(3, 8));
    add("sign", 4, &sign, 1, run.pick(2, 4));
    add("tern", 2, &[-1.0, 0.0, 0.5, 1.0], 1, run.pick(2, 3));
    if !run.quick() {
        add("tern", 3, &[-1.0, 0.25, 1.0], 1, 3);
        add("sign", 5, &sign, 1, 2);
    }
    out
}

/// Larger classes over longer samples.
fn wide_classes(run: &mut Run, kinds: &dyn Fn(f64) -> Vec<Kind>, tols: &[f64]) {
    let mut cases = vec![];
    for m in run.pick(vec![6, 9], vec![6, 7, 9, 12, 16, 24]) {
        let mf = m as f64;
        for w in crate::wide::wides(m) {
            for (li, y) in crate::wide::labels(m).into_iter().enumerate() {
                for (ni, nu) in [1.0, 2.3, mf / 2.0, mf - 1.0].into_iter().enumerate() {
                    if run.quick() && (li + ni) % 3 != 0 {
                        continue;
                    }
                    for kind in kinds(nu) {
                        for tol in tols {
                            cases.push(ClassCase { kind, tol: *tol, y: y.clone(), us: w.us.clone(), name: w.name.clone(), last: li == 1 });
                        }
                    }
                }
            }
        }
    }
    run.explore("wideclass", &cases, |c| c.key(), |c, loc| whole_run(c.kind, c.tol, &c.y, &c.us, c.last, loc));
}

pub fn class_cases(run: &Run, kinds: &dyn Fn(f64) -> Vec<Kind>, tols: &[f64]) -> Vec<ClassCase> {
    let mut cases = vec![];
    for (name, m, us) in classes(run) {
        let mut nus = vec![1.0, 1.5, m as f64 - 0.5, m as f64 - 0.01, m as f64];
        nus.dedup();
        for (li, y) in labels_for(m).into_iter().enumerate() {
            for nu in &nus {
                for kind in kinds(*nu) {
                    for tol in tols {
                        for last in [false, true] {
                            if (li == 1) != last {
                                continue;
                            }
                            cases.push(ClassCase { kind, tol: *tol, y: y.clone(), us: us.clone(), name: name.clone(), last });
                        }
                    }
                }
            }
        }
    }
    cases
}

fn go(run: &mut Run, kinds: &dyn Fn(f64) -> Vec<Kind>, tols: &[f64], filter: &(dyn Fn(&ClassCase) -> bool + Sync)) {
    let cases: Vec<ClassCase> = class_cases(run, kinds, tols).into_iter().filter(|c| filter(c)).collect();
    run.explore("class", &cases, |c| c.key(), |c, loc| whole_run(c.kind, c.tol, &c.y, &c.us, c.last, loc));
    let quick = run.quick();
    wide_classes(run, kinds, if quick { &tols[..1] } else { tols });
}

pub fn c07(run: &mut Run) {
    go(run, &|nu| vec![Kind::Lp { nu }], &[0.2, 0.01], &|_| true);
    crate::p_step::scripts(run, &|nu, _| vec![Kind::Lp { nu }], &[0.2], false);
    crate::p_step::wide_scripts(run, &|nu, _| vec![Kind::Lp { nu }], &[0.2, 1e-4]);
    crate::p_step::curved(run, &|nu, _| vec![Kind::Lp { nu }], &[1e-2, 1e-4, 1e-6], 300);
    crate::p_step::graded(run, &|nu, _| vec![Kind::Lp { nu }], &[0.1]);
}

pub fn c08(run: &mut Run) {
    go(run, &|nu| vec![Kind::Erlp { nu }], run.pick(&[0.2, 0.02], &[0.2, 0.05, 0.01]), &|_| true);
    crate::p_step::scripts(run, &|nu, _| vec![Kind::Erlp { nu }], &[0.3], true);
    crate::p_step::wide_scripts(run, &|nu, _| vec![Kind::Erlp { nu }], &[0.2, 0.02]);
    crate::p_step::curved(run, &|nu, _| vec![Kind::Erlp { nu }], &[0.1, 0.01], 300);
    crate::p_step::graded(run, &|nu, _| vec![Kind::Erlp { nu }], &[0.1]);
}

pub fn c09(run: &mut Run) {
    go(run, &|nu| FWS.iter().map(|fw| Kind::Cerlp { nu, fw: *fw }).collect(), run.pick(&[0.3], &[0.3, 0.1]), &|_| true);
    crate::p_step::scripts(run, &|nu, _| FWS.iter().map(|fw| Kind::Cerlp { nu, fw: *fw }).collect(), &[0.3], true);
    crate::p_step::wide_scripts(run, &|nu, _| FWS.iter().map(|fw| Kind::Cerlp { nu, fw: *fw }).collect(), &[0.2, 0.004]);
    crate::p_step::curved(run, &|nu, _| FWS.iter().map(|fw| Kind::Cerlp { nu, fw: *fw }).collect(), &[0.1, 0.01], 300);
    crate::p_step::graded(run, &|nu, _| FWS.iter().map(|fw| Kind::Cerlp { nu, fw: *fw }).collect(), &[0.1]);
}

pub fn c10(run: &mut Run) {
    go(run, &|nu| FWS.iter().map(|fw| Kind::Mlp { nu, fw: *fw }).collect(), run.pick(&[0.3], &[0.3, 0.1]), &|_| true);
    crate::p_step::scripts(run, &|nu, _| FWS.iter().map(|fw| Kind::Mlp { nu, fw: *fw }).collect(), &[0.3], true);
    crate::p_step::wide_scripts(run, &|nu, _| FWS.iter().map(|fw| Kind::Mlp { nu, fw: *fw }).collect(), &[0.2, 0.004]);
    crate::p_step::curved(run, &|nu, _| FWS.iter().map(|fw| Kind::Mlp { nu, fw: *fw }).collect(), &[0.1, 0.01], 300);
    crate::p_step::graded(run, &|nu, _| FWS.iter().map(|fw| Kind::Mlp { nu, fw: *fw }).collect(), &[0.1]);
    perturbed(run);
}

/// MLPBoost perturbs its linear program at random: every draw is ours.
fn perturbed(run: &mut Run) {
    let mut cases = vec![];
    for (name, m, us) in classes(run).into_iter().filter(|c| c.1 <= 3 && c.2.len() >= 2) {
        for (li, y) in labels_for(m).into_iter().enumerate() {
            for nu in [1.0, m as f64 - 0.5] {
                for fw in FWS {
                    for tol in run.pick(&[0.3][..], &[0.3, 0.1]) {
                        if run.quick() && cases.len() % 3 != 0 && m == 3 && li == 1 {
                            continue;
                        }
                        cases.push(ClassCase { kind: Kind::Mlp { nu, fw }, tol: *tol, y: y.clone(), us: us.clone(), name: name.clone(), last: li == 1 });
                    }
                }
            }
        }
    }
    let limit = run.pick(30, 100);
    run.explore("perturbed", &cases, |c| c.key(), |c, loc| {
        use crate::p_net::{assignments, unit, with_draws};
        // ln ln 1/r ranges from -25 to 3.5 over these.
        let levels = [1e-14, 0.37, 1.0 - 1e-11];
        for a in assignments(2 * c.y.len(), 3, limit) {
            let list = a.iter().map(|v| unit(levels[*v])).collect();
            let before = loc.violations.len();
            with_draws(list, None, || whole_run(c.kind, c.tol, &c.y, &c.us, c.last, loc));
            if loc.violations.len() > before {
                return;
            }
        }
    });
}

pub fn c11(run: &mut Run) {
    go(run, &|nu| if nu == 1.0 { vec![Kind::Soft { nu }, Kind::Total] } else { vec![Kind::Soft { nu }] }, run.pick(&[0.2, 0.05], &[0.2, 0.05, 0.02]), &|_| true);
    crate::p_step::scripts(run, &|nu, _| if nu == 1.0 { vec![Kind::Soft { nu }, Kind::Total] } else { vec![Kind::Soft { nu }] }, &[0.2], true);
    crate::p_step::wide_scripts(run, &|nu, _| if nu == 1.0 { vec![Kind::Soft { nu }, Kind::Total] } else { vec![Kind::Soft { nu }] }, &[0.2, 0.02]);
    crate::p_step::curved(run, &|nu, _| if nu == 1.0 { vec![Kind::Soft { nu }, Kind::Total] } else { vec![Kind::Soft { nu }] }, &[0.1, 0.01, 1e-3], 300);
    crate::p_step::graded(run, &|nu, _| if nu == 1.0 { vec![Kind::Soft { nu }, Kind::Total] } else { vec![Kind::Soft { nu }] }, &[0.1]);
}

/// AdaBoostV's guarantee, and AdaBoost's training-error bound.
pub fn c14(run: &mut Run) {
    let tols: &[f64] = run.pick(&[0.3], &[0.3, 0.1]);
    let mut cases = vec![];
    for (name, m, us) in classes(run) {
        for (li, y) in labels_for(m).into_iter().enumerate() {
            for tol in tols {
                cases.push(ClassCase { kind: Kind::AdaV, tol: *tol, y: y.clone(), us: us.clone(), name: name.clone(), last: li == 1 });
            }
        }
    }
    run.explore("margin", &cases, |c| c.key(), |c, loc| {
        let confs: Vec<Vec<f64>> = c.us.iter().map(|u| margins(&c.y, u)).collect();
        let class = menu(&confs);
        let sample = row_sample(&c.y);
        let wl = MaxEdge::new(&c.y, &class, c.last);
        let t = drive(Kind::AdaV, &sample, Some(c.tol), &wl, 10_000);
        loc.trace();
        loc.steps(t.calls);
        for d in &t.dists {
            loc.state(&canon(d));
        }
        let opt = game_value(&c.us, 1.0);
        if opt > 1.0 - 1e-9 || opt - c.tol < -1.0 + 1e-6 {
            // A perfect hypothesis ends the run at once (C03); below -1 there is no margin to ask for.
            loc.count("outside");
            return;
        }
        match &t.out {
            Some(Ok((w, ids))) => {
                let got = soft_margin(&wmargins(&c.y, w, ids, &class), 1.0);
                loc.max("suboptimality_over_tolerance", (opt - got) / c.tol);
                loc.outcome(&canon(&[got]));
                if got < opt - c.tol - 1e-6 {
                    loc.viol(format!("hard margin {got} after {} rounds, optimum {opt}, tolerance {}", t.calls, c.tol));
                }
            }
            o => loc.viol(format!("no output after {} rounds: {o:?} {:?}", t.calls, t.panic)),
        }
    });
    // Every history of AdaBoost.
    let tern = [-1.0, 0.25, 1.0];
    let sign = [-1.0, 1.0];
    let spaces: Vec<(usize, &[f64], usize)> = run.pick(
        vec![(3, &sign[..], 5), (2, &tern[..], 4), (4, &sign[..], 3)],
        vec![(3, &sign[..], 6), (2, &tern[..], 5), (3, &tern[..], 3), (4, &sign[..], 4), (5, &sign[..], 3)],
    );
    let mut cases = vec![];
    for (m, alphabet, depth) in spaces {
        let n = vectors(alphabet, m).len();
        for y in labelings(m) {
            for first in 0..n {
                cases.push((m, alphabet, depth, y.clone(), first));
            }
        }
    }
    run.explore("error", &cases, |(m, a, d, y, f)| format!("{}{m},{d},y={},h1={f}", if a.len() == 2 { "sign" } else { "tern" }, fmt_y(y)), |(m, a, depth, y, first), loc| {
        let menu = menu(&vectors(a, *m));
        let sample = row_sample(y);
        let mut viol = vec![];
        each_script(menu.len(), *depth, Some(*first), |script| {
            let wl = Scripted::new(&menu, script.to_vec());
            let t = with(Kind::Ada, &sample, Some(0.01), Stepwise { wl: &wl, max_calls: *depth, want_current: true, want_out: false });
            loc.trace();
            let mut bound = 1.0f64;
            for k in 0..t.dists.len() {
                loc.step();
                loc.state(&canon(&t.dists[k]));
                let e = edge(y, &t.dists[k], &menu[t.picks[k]].conf);
                if e.abs() > 1.0 - 1e-6 && k > 0 {
                    break;
                }
                bound *= (1.0 - e * e).max(0.0).sqrt();
                if let Some(Ok((w, ids))) = t.current.get(k) {
                    let ms = wmargins(y, w, ids, &menu);
                    let err = ms.iter().filter(|x| **x < -1e-9).count() as f64 / *m as f64;
                    loc.outcome(&(err * *m as f64) .to_bits());
                    if err > bound + 1e-9 {
                        viol.push((format!("{}#{}", loc.key(), fmt_i(script)), format!("training error {err} after {} rounds, at most {bound} is guaranteed", k + 1)));
                        return k + 1;
                    }
                }
            }
            if t.broke.is_some() || t.panic.is_some() { t.dists.len() } else { *depth }
        });
        for (k, v) in viol {
            loc.viol_at(k, v);
        }
    });
    run.rule = "margin: case = (class of hypotheses, labeling, tie-break, tolerance), one whole AdaBoostV run against the exact game value; error: every answer script of AdaBoost, the visible hypothesis checked after every round".into();
}
