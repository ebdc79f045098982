//! C02-C05: the closed-form boosters against independent step models.
use crate::boost::*;
use crate::fw::*;
use crate::util::*;
use serde_json::json;

/// What a step model says after some rounds.
#[derive(Clone)]
pub struct Step {
    /// Distribution to be shown next.
    pub dist: Vec<f64>,
    /// Un-normalised votes so far.
    pub votes: Vec<f64>,
}

/// Normalised `exp(logs)`.
fn softmax(logs: &[f64]) -> Vec<f64> {
    let mx = logs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e: Vec<f64> = logs.iter().map(|l| (l - mx).exp()).collect();
    let z: f64 = e.iter().sum();
    e.iter().map(|x| x / z).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alg {
    Ada,
    AdaV { tol: f64 },
    Mada,
}

enum Verdict {
    Go,
    /// The hypothesis is perfect (or perfectly wrong): stop with it alone.
    Stop(f64),
    /// Numerically on the boundary, or outside the algorithm's domain: no further claim.
    Unknown,
}

/// The published update rule of each algorithm, evaluated from scratch.
struct Model {
    alg: Alg,
    logs: Vec<f64>,
    dist: Vec<f64>,
    votes: Vec<f64>,
    gamma: f64,
}

impl Model {
    fn new(alg: Alg, m: usize) -> Self {
        Model { alg, logs: vec![0.0; m], dist: vec![1.0 / m as f64; m], votes: vec![], gamma: 1.0 }
    }
    fn step(&mut self, u: &[f64]) -> Verdict {
        let e: f64 = self.dist.iter().zip(u).map(|(d, u)| d * u).sum();
        if (e.abs() - 1.0).abs() < 1e-9 {
            // The uniform weights of 2, 3 or 4 examples sum to exactly one in any order;
            // otherwise, and in later rounds, rounding may fall on either side.
            return if u.iter().all(|v| *v == u[0]) && u[0].abs() == 1.0 && self.votes.is_empty() && u.len() <= 4 {
                Verdict::Stop(u[0])
            } else {
                Verdict::Unknown
            };
        }
        let half = |e: f64| 0.5 * ((1.0 + e) / (1.0 - e)).ln();
        match self.alg {
            Alg::Ada => {
                let w = half(e);
                for (l, u) in self.logs.iter_mut().zip(u) {
                    *l -= w * u;
                }
                self.votes.push(w);
                self.dist = softmax(&self.logs);
            }
            Alg::AdaV { tol } => {
                self.gamma = self.gamma.min(e);
                let rho = self.gamma - tol;
                if rho <= -1.0 + 1e-6 {
                    return Verdict::Unknown;
                }
                let w = half(e) - half(rho);
                for (l, u) in self.logs.iter_mut().zip(u) {
                    *l -= w * u;
                }
                self.votes.push(w);
                self.dist = softmax(&self.logs);
            }
            Alg::Mada => {
                let eps = 0.5 * (1.0 - e);
                let e2 = (0.5 * eps).sqrt();
                let beta = (e2 / (1.0 - e2)).sqrt();
                for (l, u) in self.logs.iter_mut().zip(u) {
                    *l += u * beta.ln();
                }
                self.votes.push((1.0 / beta).ln());
                let capped: Vec<f64> = self.logs.iter().map(|l| l.min(0.0)).collect();
                self.dist = softmax(&capped);
            }
        }
        Verdict::Go
    }
}

/// Votes and hypothesis ids of the output against the model's votes over `picks`.
pub fn same_votes(got: &(Vec<f64>, Vec<usize>), votes: &[f64], picks: &[usize], tol: f64) -> bool {
    let z: f64 = votes.iter().map(|w| w.abs()).sum();
    let want: Vec<(f64, usize)> = votes
        .iter()
        .zip(picks)
        .map(|(w, j)| (w / z, *j))
        .filter(|x| x.0.abs() > 1e-8)
        .collect();
    let have: Vec<(f64, usize)> =
        got.0.iter().cloned().zip(got.1.iter().cloned()).filter(|x| x.0.abs() > 1e-8).collect();
    got.0.len() == got.1.len()
        && want.len() == have.len()
        && want.iter().zip(&have).all(|(a, b)| a.1 == b.1 && close(a.0, b.0, tol))
}

/// One script on the real booster against the model.
fn one_script(alg: Alg, y: &[f64], menu: &[TableH], script: &[usize], sample: &miniboosts::Sample, loc: &mut Local) {
    let key = format!("{}#{}", loc.key(), fmt_i(script));
    script_as(alg, None, true, key, y, menu, script, sample, loc)
}

/// `tol`: AdaBoost's and MadaBoost's tolerance (decides the number of rounds only);
/// `peek`: look at the current hypothesis after every round.
#[allow(clippy::too_many_arguments)]
fn script_as(
    alg: Alg,
    tol: Option<f64>,
    peek: bool,
    key: String,
    y: &[f64],
    menu: &[TableH],
    script: &[usize],
    sample: &miniboosts::Sample,
    loc: &mut Local,
) {
    let (kind, tol) = match alg {
        Alg::Ada => (Kind::Ada, tol),
        Alg::AdaV { tol } => (Kind::AdaV, Some(tol)),
        Alg::Mada => (Kind::Mada, tol),
    };
    let wl = Scripted::new(menu, script.to_vec());
    let t = with(
        kind,
        sample,
        tol,
        Stepwise { wl: &wl, max_calls: script.len(), want_current: peek, want_out: true },
    );
    loc.trace();
    let mut md = Model::new(alg, y.len());
    for k in 0..script.len() {
        if k >= t.dists.len() {
            if t.panic.is_none() {
                loc.viol_at(key, format!("round {}: the weak learner was not consulted", k + 1));
            } else {
                loc.viol_at(key, t.panic.clone().unwrap());
            }
            return;
        }
        loc.step();
        loc.state(&canon(&t.dists[k]));
        if !close_vec(&t.dists[k], &md.dist, 1e-7) {
            loc.viol_at(
                key,
                format!(
                    "round {}: distribution {} where the update rule gives {}",
                    k + 1,
                    fmt_v(&t.dists[k]),
                    fmt_v(&md.dist)
                ),
            );
            return;
        }
        let u = margins(y, &menu[script[k]].conf);
        let v = md.step(&u);
        match v {
            Verdict::Unknown => {
                loc.count("boundary_or_out_of_domain");
                return;
            }
            Verdict::Stop(sign) => {
                let ok_break = t.broke == Some(k + 1) && t.calls == k + 1;
                if !ok_break {
                    loc.viol_at(key, format!("round {}: a hypothesis with |edge| = 1 did not end the run", k + 1));
                    return;
                }
                match &t.out {
                    Some(Ok(o)) if o.1 == vec![script[k]] && o.0 == vec![sign] => {
                        loc.outcome(&("perfect", sign > 0.0));
                    }
                    o => loc.viol_at(key, format!("after a hypothesis with edge {sign} the output is {o:?}")),
                }
                return;
            }
            Verdict::Go => {
                if let Some(p) = &t.panic {
                    if t.calls == k + 1 {
                        loc.viol_at(key, format!("round {}: {p}", k + 1));
                        return;
                    }
                }
                if t.calls == k + 1 && t.broke.is_some() && k + 1 < script.len() {
                    loc.viol_at(key, format!("round {}: stopped although |edge| < 1", k + 1));
                    return;
                }
                let z: f64 = md.votes.iter().map(|w| w.abs()).sum();
                if peek && z > 1e-6 {
                    match t.current.get(k) {
                        Some(Ok(c)) if same_votes(c, &md.votes, script, 1e-7) => {}
                        c => {
                            loc.viol_at(
                                key,
                                format!("round {}: current hypothesis {c:?}, votes should be {} (normalised)", k + 1, fmt_v(&md.votes)),
                            );
                            return;
                        }
                    }
                }
            }
        }
    }
    let z: f64 = md.votes.iter().map(|w| w.abs()).sum();
    if z > 1e-6 {
        match &t.out {
            Some(Ok(o)) if same_votes(o, &md.votes, script, 1e-7) => {
                loc.outcome(&canon(&o.0));
                loc.sample(json!({"y": y, "script": script, "weights": o.0}));
            }
            o => loc.viol_at(key, format!("output {o:?}, votes should be {} (normalised)", fmt_v(&md.votes))),
        }
    }
}

struct Case {
    alg: Alg,
    y: Vec<f64>,
    confs: std::sync::Arc<Vec<Vec<f64>>>,
    first: usize,
    depth: usize,
    tag: &'static str,
}

fn script_cases(run: &Run, algs: &[Alg]) -> Vec<Case> {
    let mut cases = vec![];
    let mut add = |tag, m: usize, alphabet: &[f64], depth: usize| {
        let confs = std::sync::Arc::new(vectors(alphabet, m));
        for &alg in algs {
            for y in labelings(m) {
                for first in 0..confs.len() {
                    cases.push(Case { alg, y: y.clone(), confs: confs.clone(), first, depth, tag });
                }
            }
        }
    };
    let full = [-1.0, -0.5, 0.0, 0.5, 1.0];
    let tern = [-1.0, 0.25, 1.0];
    let sign = [-1.0, 1.0];
    add("five", 2, &full, run.pick(4, 5));
    add("tern", 3, &tern, run.pick(3, 4));
    add("sign", 3, &sign, run.pick(6, 7));
    add("sign", 4, &sign, run.pick(4, 5));
    add("sign", 5, &sign, run.pick(3, 3));
    add("sign", 6, &sign, 2);
    if !run.quick() {
        add("five3", 3, &full, 3);
        add("sign", 7, &sign, 2);
    }
    cases
}

fn run_scripts(run: &mut Run, algs: &[Alg]) {
    let cases = script_cases(run, algs);
    run.explore(
        "script",
        &cases,
        |c| format!("{:?},{}{},y={},h1={}", c.alg, c.tag, c.depth, fmt_y(&c.y), c.first),
        |c, loc| {
            let menu = menu(&c.confs);
            let sample = row_sample(&c.y);
            for rest in sequences(menu.len(), c.depth - 1) {
                let mut script = vec![c.first];
                script.extend(rest);
                one_script(c.alg, &c.y, &menu, &script, &sample, loc);
            }
        },
    );
    // Longer samples and longer histories.
    let mut wide = vec![];
    for m in run.pick(vec![6, 8, 9, 16, 40, 100], vec![6, 7, 8, 9, 12, 16, 24, 40, 64, 100, 300]) {
        for w in crate::wide::wides(m) {
            let w = std::sync::Arc::new(w);
            for (li, y) in crate::wide::labels(m).into_iter().enumerate() {
                for &alg in algs {
                    wide.push((alg, w.clone(), li, y.clone()));
                }
            }
        }
    }
    let (top, len) = run.pick((3, 25), (4, 60));
    run.explore(
        "wide",
        &wide,
        |(alg, w, li, _)| format!("{alg:?},{},y{li}", w.name),
        |(alg, w, _, y), loc| {
            let menu = menu(&w.us.iter().map(|u| margins(y, u)).collect::<Vec<_>>());
            let sample = row_sample(y);
            let n = y.len() as f64;
            let len = match alg {
                Alg::AdaV { tol } => len.min((2.0 * n.ln() / tol.powi(2)) as usize),
                _ => len,
            };
            for script in crate::wide::lassos(menu.len(), top, len) {
                one_script(*alg, y, &menu, &script, &sample, loc);
            }
        },
    );
    // Histories so long that weights underflow, and come back.
    let mut drift = vec![];
    let hard = 3usize;
    for easy in run.pick(vec![1usize, 2], vec![1, 2, 5]) {
        let m = easy + hard;
        for wrong in run.pick(vec![-0.6, -1.0], vec![-0.6, -1.0, 0.0, 0.4]) {
            // Answers that are right (or wrong) on the easy rows and err on one hard row each.
            let mut us: Vec<Vec<f64>> = vec![];
            for side in [1.0, -1.0] {
                for j in 0..hard {
                    us.push((0..m).map(|i| if i < easy { side } else if i - easy == j { wrong } else { 1.0 }).collect());
                }
            }
            // A bad start.
            us.push((0..m).map(|i| if i + 1 == m { 0.9 } else { -0.9 }).collect());
            us.push((0..m).map(|i| if i < easy { 0.5 } else { -0.8 }).collect());
            let us = std::sync::Arc::new(us);
            let cycles: Vec<Vec<usize>> = vec![vec![0, 1, 2], vec![0, 2], vec![0, 1, 0, 2]];
            for &alg in &algs[..1] {
                for start in [None, Some(6usize), Some(7)] {
                    for (ci, c) in cycles.iter().enumerate() {
                        for (di, d) in cycles.iter().enumerate() {
                            let rate = match (alg, start) {
                                (Alg::AdaV { .. }, _) => 1100,
                                _ => run.pick(2600, 4500),
                            };
                            let mut script: Vec<usize> = start.into_iter().collect();
                            script.extend((0..rate).map(|k| c[k % c.len()]));
                            script.extend((0..rate * 3 / 2).map(|k| 3 + d[k % d.len()]));
                            drift.push((alg, us.clone(), script, format!("easy{easy},w{wrong},{start:?},{ci}{di}")));
                        }
                    }
                }
            }
        }
    }
    run.explore(
        "drift",
        &drift,
        |(alg, _, _, name)| format!("{alg:?},{name}"),
        |(alg, us, script, _), loc| {
            let y: Vec<f64> = (0..us[0].len()).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let menu = menu(&us.iter().map(|u| margins(&y, u)).collect::<Vec<_>>());
            let sample = row_sample(&y);
            let alg = match alg {
                Alg::AdaV { .. } => Alg::AdaV { tol: 0.03 },
                a => *a,
            };
            let script = match alg {
                Alg::AdaV { tol } => &script[..script.len().min((2.0 * (y.len() as f64).ln() / (tol * tol)) as usize)],
                _ => &script[..],
            };
            script_as(alg, Some(0.01), false, loc.key().to_string(), &y, &menu, script, &sample, loc);
        },
    );
    // Answers that are almost, but not quite, perfect (or perfectly wrong).
    let mut near = vec![];
    let gaps: &[f64] = run.pick(&[2e-3, 3e-6, 1e-7][..], &[2e-3, 1e-4, 3e-6, 4e-7, 1e-7, 3e-8][..]);
    for &gap in gaps {
        for m in [2usize, 3] {
            let alphabet = if m == 2 {
                vec![-1.0, gap - 1.0, 0.0, 1.0 - gap, 1.0]
            } else {
                vec![gap - 1.0, 1.0 - gap, 1.0]
            };
            let us = std::sync::Arc::new(vectors(&alphabet, m));
            for y in labelings(m) {
                for &alg in algs {
                    for first in 0..us.len() {
                        near.push((alg, us.clone(), y.clone(), first, gap));
                    }
                }
            }
        }
    }
    let depth = run.pick(2, 3);
    run.explore(
        "near",
        &near,
        |(alg, us, y, first, gap)| format!("{alg:?},gap{gap},m{}y={},u1={}", y.len(), fmt_y(y), fmt_v(&us[*first])),
        |(alg, us, y, first, _), loc| {
            let menu = menu(&us.iter().map(|u| margins(y, u)).collect::<Vec<_>>());
            let sample = row_sample(y);
            for rest in sequences(menu.len(), depth - 1) {
                let mut script = vec![*first];
                script.extend(rest);
                one_script(*alg, y, &menu, &script, &sample, loc);
            }
        },
    );
    // Closer still: an answer of edge 1 - gap on every example leaves the weights uniform, so the
    // rounding of its (large) vote stays out of the next round.
    let mut verge = vec![];
    for &gap in &[1e-8, 1e-10, 1e-12] {
        for m in [2usize, 3, 4] {
            for y in labelings(m) {
                for &alg in algs {
                    for sign in [1.0, -1.0] {
                        if sign > 0.0 || !matches!(alg, Alg::AdaV { .. }) {
                            verge.push((alg, y.clone(), gap, sign));
                        }
                    }
                }
            }
        }
    }
    run.explore(
        "verge",
        &verge,
        |(alg, y, gap, sign)| format!("{alg:?},gap{gap:e},sign{sign},m{}y={}", y.len(), fmt_y(y)),
        |(alg, y, gap, sign), loc| {
            let m = y.len();
            let sample = row_sample(y);
            for second in vectors(&[-1.0, 0.25, 1.0], m) {
                let e2 = second.iter().sum::<f64>() / m as f64;
                if e2.abs() > 0.9 || e2.abs() < 1e-9 {
                    continue;
                }
                let us = [vec![sign * (1.0 - gap); m], second.clone()];
                let menu = menu(&us.iter().map(|u| margins(y, u)).collect::<Vec<_>>());
                let wl = Scripted::new(&menu, vec![0, 1]);
                let (kind, tol) = match alg {
                    Alg::Ada => (Kind::Ada, None),
                    Alg::AdaV { tol } => (Kind::AdaV, Some(*tol)),
                    Alg::Mada => (Kind::Mada, None),
                };
                let t = with(kind, &sample, tol, Stepwise { wl: &wl, max_calls: 2, want_current: false, want_out: true });
                loc.trace();
                loc.steps(2);
                loc.state(&format!("{us:?}"));
                if t.calls != 2 {
                    loc.viol(format!("an answer of edge {sign} times 1 - {gap:e} ended the run ({:?}, {:?})", t.broke, t.panic));
                    continue;
                }
                let uni = vec![1.0 / m as f64; m];
                if !close_vec(&t.dists[1], &uni, 1e-9) {
                    loc.viol(format!("after an answer of margin {} everywhere the weights are {}", us[0][0], fmt_v(&t.dists[1])));
                    continue;
                }
                let mut md = Model::new(*alg, m);
                let half = |e: f64, rest: f64| 0.5 * ((1.0 + e) / rest).ln();
                // 1 - gap is rounded; what is left to 1 is what the algorithm can see.
                let e1 = us[0][0];
                md.votes.push(match alg {
                    Alg::Ada => half(e1, 1.0 - e1),
                    Alg::AdaV { tol } => half(e1, 1.0 - e1) - half(e1 - tol, 1.0 - e1 + tol),
                    Alg::Mada => {
                        let b = (0.25 * (1.0 - e1)).sqrt();
                        (b / (1.0 - b)).sqrt().recip().ln()
                    }
                });
                md.votes.push(match alg {
                    Alg::Ada => half(e2, 1.0 - e2),
                    Alg::AdaV { tol } => half(e2, 1.0 - e2) - half(e2 - tol, 1.0 - e2 + tol),
                    Alg::Mada => {
                        let b = (0.25 * (1.0 - e2)).sqrt();
                        (b / (1.0 - b)).sqrt().recip().ln()
                    }
                });
                if matches!(alg, Alg::AdaV { tol } if e2 - tol <= -1.0 + 1e-6) {
                    continue;
                }
                match &t.out {
                    Some(Ok(o)) if same_votes(o, &md.votes, &[0, 1], 1e-4) => loc.outcome(&canon(&o.0)),
                    o => loc.viol(format!("margins {us:?}: output {o:?}, votes should be {} (normalised)", fmt_v(&md.votes))),
                }
            }
        },
    );
    run.rule = "case = (labeling, first answer); inside it every script of weak-learner answers over the whole table class up to the depth; state = distribution shown (rounded 1e-9), transition = one boosting round, trace = one script driven on the real booster".into();
}

pub fn c02(run: &mut Run) {
    run_scripts(run, &[Alg::Ada]);
}

pub fn c03(run: &mut Run) {
    run_scripts(run, &[Alg::AdaV { tol: 0.1 }, Alg::AdaV { tol: 0.5 }]);
}

pub fn c04(run: &mut Run) {
    run_scripts(run, &[Alg::Mada]);
}

// ------------------------------------------------------------------ SmoothBoost

#[derive(Clone, Copy, Debug)]
struct Sm {
    kappa: f64,
    gamma: f64,
}

impl Sm {
    fn theta(&self) -> f64 {
        self.gamma / (2.0 + self.gamma)
    }
    fn bound(&self) -> usize {
        (2.0 / (self.kappa * self.gamma * self.gamma * (1.0 - self.gamma).sqrt())).ceil() as usize
    }
    /// Measure of one example after `t` rounds with total margin `s`.
    fn measure(&self, s: f64, t: usize) -> f64 {
        // The library starts its accumulated excess at 1 (Servedio's figure: 0).
        let n = s - t as f64 * self.theta() + 1.0;
        if n <= 0.0 || t == 0 { 1.0 } else { (1.0 - self.gamma).powf(n / 2.0) }
    }
}

/// Drives the real SmoothBoost along `script` and compares it with the model.
/// `to_end`: the script is exactly long enough to reach the model's stopping point.
fn smooth_replay(p: Sm, y: &[f64], menu: &[TableH], script: &[usize], to_end: bool, sample: &miniboosts::Sample, key: String, loc: &mut Local) {
    let wl = Scripted::new(menu, script.to_vec());
    let calls = if to_end { script.len() + 1 } else { script.len() };
    let t = with(
        Kind::Smooth { kappa: p.kappa, gamma: p.gamma },
        sample,
        None,
        Stepwise { wl: &wl, max_calls: calls, want_current: !to_end, want_out: true },
    );
    loc.trace();
    let m = y.len();
    let mut s = vec![0.0; m];
    let mut used = 0;
    for k in 0..calls {
        let mu: Vec<f64> = s.iter().map(|s| p.measure(*s, k)).collect();
        let z: f64 = mu.iter().sum();
        let lim = p.kappa * m as f64;
        if (z - lim).abs() < 1e-9 {
            loc.count("boundary");
            return;
        }
        if z < lim || k >= p.bound() {
            if t.broke.is_none() || t.dists.len() != k {
                loc.viol_at(key, format!("round {}: total measure {z} < {lim} (or round bound reached), but boosting went on: consulted {} times", k + 1, t.dists.len()));
                return;
            }
            break;
        }
        if t.dists.len() <= k {
            loc.viol_at(key, format!("round {}: stopped although the total measure {z} >= {lim}: {:?} {:?}", k + 1, t.broke, t.panic));
            return;
        }
        let d: Vec<f64> = mu.iter().map(|x| x / z).collect();
        loc.step();
        loc.state(&canon(&t.dists[k]));
        if !close_vec(&t.dists[k], &d, 1e-9) {
            loc.viol_at(key, format!("round {}: distribution {} where the measure gives {}", k + 1, fmt_v(&t.dists[k]), fmt_v(&d)));
            return;
        }
        if d.iter().any(|x| *x > 1.0 / lim + 1e-9) {
            loc.viol_at(key, format!("round {}: not smooth: {}", k + 1, fmt_v(&d)));
            return;
        }
        used = k + 1;
        for (s, h) in s.iter_mut().zip(margins(y, &menu[script[k]].conf)) {
            *s += h;
        }
        if !to_end {
            let ones = vec![1.0; used];
            match t.current.get(k) {
                Some(Ok(c)) if same_votes(c, &ones, &script[..used], 1e-9) => {}
                c => {
                    loc.viol_at(key, format!("round {}: current hypothesis {c:?} is not the average of the {used} answers", k + 1));
                    return;
                }
            }
        }
    }
    if used > 0 {
        let ones = vec![1.0; used];
        match &t.out {
            Some(Ok(o)) if same_votes(o, &ones, &script[..used], 1e-9) => {
                loc.outcome(&canon(&s));
                if to_end {
                    let bad = s.iter().filter(|s| **s / used as f64 <= p.theta() - 1e-9).count();
                    if bad as f64 >= p.kappa * m as f64 {
                        loc.viol_at(key.clone(), format!("{bad} of {m} examples have margin <= theta after a weak learner that kept its promise"));
                    }
                    let wm = wmargins(y, &o.0, &o.1, menu);
                    let bad = wm.iter().filter(|s| **s <= p.theta() - 1e-9).count();
                    if bad as f64 >= p.kappa * m as f64 {
                        loc.viol_at(key, format!("{bad} of {m} examples have output margin <= theta"));
                    }
                }
            }
            o => loc.viol_at(key, format!("output {o:?} is not the average of the {used} answers")),
        }
    }
}

/// Explicit-state exploration of the SmoothBoost model under every weak learner
/// that keeps its promise; every terminal state is replayed on the real code.
fn smooth_bfs(p: Sm, m: usize, loc: &mut Local) {
    use std::collections::BTreeMap;
    let us = vectors(&[1.0, -1.0], m);
    let y: Vec<f64> = (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let confs: Vec<Vec<f64>> = us.iter().map(|u| margins(&y, u)).collect();
    let menu = menu(&confs);
    let sample = row_sample(&y);
    // layer: sums of margins -> path
    let mut layer: BTreeMap<Vec<i32>, Vec<u8>> = BTreeMap::new();
    layer.insert(vec![0; m], vec![]);
    for t in 0..=p.bound() {
        let mut next: BTreeMap<Vec<i32>, Vec<u8>> = BTreeMap::new();
        for (s, path) in &layer {
            loc.state(&(t, s));
            let mu: Vec<f64> = s.iter().map(|s| p.measure(*s as f64, t)).collect();
            let z: f64 = mu.iter().sum();
            if z < p.kappa * m as f64 {
                let script: Vec<usize> = path.iter().map(|b| *b as usize).collect();
                let key = format!("{}#{}", loc.key(), fmt_i(&script));
                loc.count("terminal_states");
                loc.max("rounds", t as f64);
                smooth_replay(p, &y, &menu, &script, true, &sample, key, loc);
                continue;
            }
            if t >= p.bound() {
                let k = loc.key().to_string();
                loc.viol_at(k, format!("the model itself has not terminated after {t} rounds at {s:?}"));
                return;
            }
            let mut any = false;
            for (j, u) in us.iter().enumerate() {
                let e: f64 = mu.iter().zip(u).map(|(a, b)| a * b).sum::<f64>() / z;
                if e >= 2.0 * p.gamma - 1e-12 {
                    any = true;
                    let mut ns: Vec<i32> = s.iter().zip(u).map(|(a, b)| a + *b as i32).collect();
                    let mut np = path.clone();
                    np.push(j as u8);
                    // Examples are interchangeable only together with the answers that
                    // produced them, so states are kept unsorted.
                    loc.step();
                    let e = next.entry(std::mem::take(&mut ns));
                    e.or_insert(np);
                }
            }
            assert!(any);
        }
        layer = next;
        if layer.is_empty() {
            break;
        }
    }
}

pub fn c05(run: &mut Run) {
    let params = [
        Sm { kappa: 0.5, gamma: 0.4 },
        Sm { kappa: 0.25, gamma: 0.3 },
        Sm { kappa: 0.7, gamma: 0.1 },
    ];
    let mut cases = vec![];
    for p in params {
        for (tag, m, alphabet, depth) in [
            ("five", 2usize, vec![-1.0, -0.5, 0.0, 0.5, 1.0], run.pick(3, 4)),
            ("sign", 3, vec![-1.0, 1.0], run.pick(5, 6)),
            ("tern", 3, vec![-1.0, 0.25, 1.0], 3),
            ("sign", 4, vec![-1.0, 1.0], run.pick(3, 4)),
            ("sign", 5, vec![-1.0, 1.0], run.pick(2, 3)),
        ] {
            let confs = std::sync::Arc::new(vectors(&alphabet, m));
            for y in labelings(m) {
                for first in 0..confs.len() {
                    cases.push((p, tag, y.clone(), confs.clone(), first, depth));
                }
            }
        }
    }
    run.explore(
        "script",
        &cases,
        |c| format!("{:?},{}{},y={},h1={}", c.0, c.1, c.5, fmt_y(&c.2), c.4),
        |c, loc| {
            let menu = menu(&c.3);
            let sample = row_sample(&c.2);
            for rest in sequences(menu.len(), c.5 - 1) {
                let mut script = vec![c.4];
                script.extend(rest);
                let key = format!("{}#{}", loc.key(), fmt_i(&script));
                smooth_replay(c.0, &c.2, &menu, &script, false, &sample, key, loc);
            }
        },
    );
    let mut wide = vec![];
    for m in run.pick(vec![6, 9, 16, 40], vec![6, 7, 8, 9, 12, 16, 24, 40, 100]) {
        for w in crate::wide::wides(m) {
            let w = std::sync::Arc::new(w);
            for (li, y) in crate::wide::labels(m).into_iter().enumerate() {
                for p in [Sm { kappa: 0.5, gamma: 0.4 }, Sm { kappa: 0.2, gamma: 0.45 }, Sm { kappa: 0.02, gamma: 0.2 }, Sm { kappa: 0.9, gamma: 0.05 }] {
                    wide.push((p, w.clone(), li, y.clone()));
                }
            }
        }
    }
    let (top, len) = run.pick((2, 90), (3, 200));
    run.explore("wide", &wide, |(p, w, li, _)| format!("{p:?},{},y{li}", w.name), |(p, w, _, y), loc| {
        let menu = menu(&w.us.iter().map(|u| margins(y, u)).collect::<Vec<_>>());
        let sample = row_sample(y);
        for script in crate::wide::lassos(menu.len(), top, len) {
            let key = format!("{}#{}", loc.key(), fmt_i(&script[..8]));
            smooth_replay(*p, y, &menu, &script, false, &sample, key, loc);
        }
    });
    // One answer for a while, then another: the excess runs far off and comes back.
    let mut blocks = vec![];
    let sides = vectors(&[-1.0, 0.6], 3);
    for p in [Sm { kappa: 0.1, gamma: 0.2 }, Sm { kappa: 0.05, gamma: 0.45 }] {
        for a in 0..sides.len() {
            for b in 0..sides.len() {
                blocks.push((p, a, b));
            }
        }
    }
    let lens: &[usize] = run.pick(&[5, 12, 30][..], &[3, 5, 8, 12, 20, 30, 60][..]);
    run.explore("blocks", &blocks, |(p, a, b)| format!("{p:?},{},{}", fmt_v(&sides[*a]), fmt_v(&sides[*b])), |(p, a, b), loc| {
        let y = vec![1.0, -1.0, 1.0, -1.0];
        // The last row is always wrong by a little, so the total measure stays up.
        let us: Vec<Vec<f64>> = [a, b].iter().map(|j| sides[**j].iter().copied().chain([-0.2]).collect()).collect();
        let menu = menu(&us.iter().map(|u| margins(&y, u)).collect::<Vec<_>>());
        let sample = row_sample(&y);
        for na in lens {
            for nb in lens {
                for nc in [0, 9] {
                    let script: Vec<usize> = [vec![0; *na], vec![1; *nb], vec![0; nc]].concat();
                    let key = format!("{}#{na}+{nb}+{nc}", loc.key());
                    smooth_replay(*p, &y, &menu, &script, false, &sample, key, loc);
                }
            }
        }
    });
    // A share of exactly kappa of the rows is always wrong, so the measure sinks towards
    // kappa times their number for ever and never falls below it: only the round bound ends the run.
    let mut floors = vec![];
    for (m, wrong) in [(2usize, 1usize), (4, 2), (4, 1), (4, 3), (8, 1), (8, 6)] {
        for gamma in run.pick(vec![0.05, 0.03], vec![0.05, 0.04, 0.03, 0.02]) {
            floors.push((Sm { kappa: wrong as f64 / m as f64, gamma }, m, wrong));
        }
    }
    run.explore("floor", &floors, |(p, m, w)| format!("{p:?},{w}/{m}"), |(p, m, wrong), loc| {
        let y: Vec<f64> = (0..*m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let u: Vec<f64> = (0..*m).map(|i| if i < *wrong { -1.0 } else { 1.0 }).collect();
        let menu = menu(&[margins(&y, &u)]);
        let sample = row_sample(&y);
        let bound = p.bound();
        let wl = Scripted::new(&menu, vec![0; bound + 2]);
        let t = with(Kind::Smooth { kappa: p.kappa, gamma: p.gamma }, &sample, None, Stepwise { wl: &wl, max_calls: bound + 2, want_current: false, want_out: true });
        loc.trace();
        loc.steps(t.dists.len());
        loc.state(&t.dists.len());
        loc.check(t.panic.is_none() && t.dists.len() == bound, || format!("{} rounds of {bound} although the measure never falls below {} rows: {:?}", t.dists.len(), wrong, t.panic));
        loc.outcome(&bound);
    });
    let mut bfs = vec![];
    for m in 2..=run.pick(4, 5) {
        for kappa in [0.95,0.9,0.79,0.74, 0.66,0.6, 0.5,0.49,0.46, 0.34,0.33,0.32, 0.24,0.2] {
            for gamma in [0.49,0.45,0.4,0.35, 0.3, 0.24,0.2, 0.15,0.1] {
                let p = Sm { kappa, gamma };
                if m >= 4 && p.bound() > run.pick(150, 400) || m >= 5 && p.bound() > 60 {
                    continue;
                }
                bfs.push((p, m));
            }
        }
    }
    run.explore("promise", &bfs, |c| format!("{:?},m={}", c.0, c.1), |c, loc| smooth_bfs(c.0, c.1, loc));
    run.rule = "script: every answer script over a table class up to the depth on the real booster; promise: explicit-state search of the margin-sum state space under every weak learner with edge >= 2 gamma, all terminal states replayed on the real booster".into();
}
