//! C06: GraphSepBoost and NaiveAggregation against the graph they are defined by.
use crate::boost::menu;
use crate::fw::*;
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::research::Research;
use miniboosts::NaiveAggregation;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::ControlFlow;

type Edges = BTreeSet<(usize, usize)>;

fn initial(y: &[f64]) -> Edges {
    let mut e = Edges::new();
    for i in 0..y.len() {
        for j in i + 1..y.len() {
            if y[i] != y[j] {
                e.insert((i, j));
            }
        }
    }
    e
}

fn sgn(c: f64) -> i64 {
    if c >= 0.0 { 1 } else { -1 }
}

fn cut(e: &Edges, h: &[f64]) -> Edges {
    e.iter().cloned().filter(|(i, j)| sgn(h[*i]) == sgn(h[*j])).collect()
}

/// Distribution of a state (twice the edge count is the total degree).
fn degrees(e: &Edges, m: usize) -> Vec<f64> {
    let mut d = vec![0.0; m];
    for (i, j) in e {
        d[*i] += 1.0;
        d[*j] += 1.0;
    }
    let z: f64 = d.iter().sum();
    d.iter().map(|x| x / z).collect()
}

fn pattern(hs: &[&Vec<f64>], row: usize) -> Vec<i64> {
    hs.iter().map(|h| sgn(h[row])).collect()
}

/// Sign patterns of the positive training rows.
fn positives(train_y: &[f64], hs: &[&Vec<f64>]) -> BTreeSet<Vec<i64>> {
    (0..train_y.len()).filter(|i| train_y[*i] > 0.0).map(|i| pattern(hs, i)).collect()
}

/// Prediction of the aggregation by its definition.
fn naive(train_y: &[f64], hs: &[&Vec<f64>], row: usize) -> f64 {
    if positives(train_y, hs).contains(&pattern(hs, row)) { 1.0 } else { -1.0 }
}

/// Replay one path of answers on the real booster.
fn replay(y: &[f64], menu: &[TableH], script: &[usize], sample: &Sample, wide: &Sample, loc: &mut Local) {
    let key = format!("{}#{}", loc.key(), fmt_i(script));
    let m = y.len();
    let wl = Scripted::new(menu, script.to_vec());
    let mut b = GraphSepBoost::init(sample);
    if let Err(e) = guarded(|| b.preprocess(&wl)) {
        return loc.viol_at(key, e);
    }
    loc.trace();
    let mut e = initial(y);
    let mut used = vec![];
    let mut it = 1;
    loop {
        if it > script.len() + 1 {
            break;
        }
        let before = wl.log.borrow().len();
        if it == script.len() + 1 && !e.is_empty() {
            break;
        }
        let flow = match guarded(|| b.boost(&wl, it)) {
            Ok(f) => f,
            Err(p) => return loc.viol_at(key, format!("round {it}: {p}")),
        };
        let consulted = wl.log.borrow().len() - before;
        if e.is_empty() {
            if consulted != 0 || flow != ControlFlow::Break(it) {
                return loc.viol_at(key, format!("round {it}: no edge left but boosting went on"));
            }
            break;
        }
        if consulted != 1 {
            return loc.viol_at(key, format!("round {it}: weak learner consulted {consulted} times"));
        }
        loc.step();
        let d = wl.log.borrow()[it - 1].clone();
        let want = degrees(&e, m);
        if !close_vec(&d, &want, 1e-12) {
            return loc.viol_at(key, format!("round {it}: distribution {} where the degrees give {}", fmt_v(&d), fmt_v(&want)));
        }
        let h = &menu[script[it - 1]].conf;
        used.push(&**h);
        let ne = cut(&e, h);
        let stuck = ne.len() == e.len();
        // Halving argument: an answer with (sign) edge g leaves at most (1-g) of the edges.
        let s: Vec<f64> = h.iter().map(|c| sgn(*c) as f64).collect();
        let g = edge(y, &want, &s);
        assert!(ne.len() as f64 <= (1.0 - g) * e.len() as f64 + 1e-9, "model invariant");
        e = ne;
        let cur = b.current_hypothesis();
        let pos = positives(y, &used);
        for r in 0..wide.shape().0 {
            let want = if pos.contains(&pattern(&used, r)) { 1.0 } else { -1.0 };
            if cur.confidence(wide, r) != want {
                return loc.viol_at(key, format!("round {it}: current hypothesis says {} on row {r}", cur.confidence(wide, r)));
            }
        }
        match (stuck, &flow) {
            (true, ControlFlow::Break(_)) => break,
            (false, ControlFlow::Continue(())) => {}
            _ => return loc.viol_at(key, format!("round {it}: edges {} the answer separated {}something, got {flow:?}", e.len(), if stuck { "none, " } else { "" })),
        }
        it += 1;
    }
    loc.state(&(&e, fmt_y(y)));
    let f: NaiveAggregation<TableH> = match guarded(|| b.postprocess(&wl)) {
        Ok(f) => f,
        Err(p) => return loc.viol_at(key, p),
    };
    let conf: Vec<f64> = (0..m).map(|r| f.confidence(sample, r)).collect();
    let pos = positives(y, &used);
    for r in 0..wide.shape().0 {
        let (got, want) = (f.confidence(wide, r), if pos.contains(&pattern(&used, r)) { 1.0 } else { -1.0 });
        if got != want || f.predict(wide, r) != want as i64 {
            return loc.viol_at(key, format!("output says {got} on row {r}, the aggregation rule says {want}"));
        }
    }
    for i in 0..m {
        let confused = e.iter().any(|(a, b)| *a == i || *b == i);
        let want = if y[i] > 0.0 || confused { 1.0 } else { -1.0 };
        if conf[i] != want {
            return loc.viol_at(key, format!("training row {i} gets {}, remaining edges say {want}", conf[i]));
        }
    }
    loc.outcome(&(fmt_y(y), conf.iter().map(|c| *c > 0.0).collect::<Vec<_>>(), used.len()));
    loc.sample(json!({"y": y, "script": script, "edges_left": e.len(), "train_predictions": conf}));
}

pub fn c06(run: &mut Run) {
    // (a) complete graph-state exploration: one replay per (state, answer).
    let mut cases = vec![];
    for m in 2..=run.pick(5, 6) {
        for y in labelings(m) {
            cases.push(y);
        }
    }
    run.explore("graph", &cases, |y| fmt_y(y), |y, loc| {
        let m = y.len();
        let menu = menu(&vectors(&[1.0, -1.0], m));
        let sample = row_sample(y);
        let mut seen: BTreeMap<Edges, Vec<usize>> = BTreeMap::new();
        let mut todo = vec![(initial(y), vec![])];
        seen.insert(initial(y), vec![]);
        while let Some((e, path)) = todo.pop() {
            if e.is_empty() {
                continue;
            }
            for j in 0..menu.len() {
                let mut p = path.clone();
                p.push(j);
                replay(y, &menu, &p, &sample, &sample, loc);
                let ne = cut(&e, &menu[j].conf);
                if ne.len() < e.len() && !seen.contains_key(&ne) {
                    seen.insert(ne.clone(), p.clone());
                    todo.push((ne, p));
                }
            }
        }
        loc.max("graph_states_of_one_labeling", seen.len() as f64);
    });
    // (b) confidence-rated answers and rows outside the training sample.
    let mut cases = vec![];
    for m in 2..=3usize {
        for y in labelings(m) {
            let n = vectors(&[-1.0, -0.25, 0.0, 1.0], m + 1).len();
            for first in 0..n {
                cases.push((y.clone(), first));
            }
        }
    }
    let thorough = !run.quick();
    run.explore("unseen", &cases, |c| format!("{},h1={}", fmt_y(&c.0), c.1), |c, loc| {
        let y = &c.0;
        let menu = menu(&vectors(&[-1.0, -0.25, 0.0, 1.0], y.len() + 1));
        let sample = row_sample(y);
        let mut wide_y = y.clone();
        wide_y.push(1.0);
        let wide = row_sample(&wide_y);
        for j in 0..menu.len() {
            replay(y, &menu, &[c.1, j], &sample, &wide, loc);
            if thorough && y.len() == 2 {
                for k in 0..menu.len() {
                    replay(y, &menu, &[c.1, j, k], &sample, &wide, loc);
                }
            }
        }
    });
    // (c) whole runs through run(), and run() twice.
    let mut cases = vec![];
    for m in 2..=4usize {
        for y in labelings(m) {
            cases.push(y);
        }
    }
    run.explore("run", &cases, |y| fmt_y(y), |y, loc| {
        let m = y.len();
        let class = menu(&vectors(&[1.0, -1.0], m));
        let sample = row_sample(y);
        for s in subsets(class.len(), 1, if m < 4 { 3 } else { 2 }) {
            let sub: Vec<TableH> = s.iter().map(|j| class[*j].clone()).collect();
            let key = format!("{}#{}", loc.key(), fmt_i(&s));
            let wl = MaxEdge::new(y, &sub, false);
            let mut b = GraphSepBoost::init(&sample);
            let r = guarded(|| {
                let f1 = b.run(&wl);
                let first: Vec<f64> = f1.confidence_all(&sample);
                let n1 = wl.log.borrow().len();
                let f2 = b.run(&wl);
                (first, f2.confidence_all(&sample), n1, wl.log.borrow().len() - n1)
            });
            loc.trace();
            match r {
                Err(p) => loc.viol_at(key, p),
                Ok((a, b2, n1, n2)) => {
                    loc.steps(n1 + n2);
                    if a != b2 || n1 != n2 {
                        loc.viol_at(key, format!("second run differs: {a:?} vs {b2:?}"));
                        continue;
                    }
                    // Reference: the greedy trajectory itself.
                    let mut e = initial(y);
                    let mut hs: Vec<&Vec<f64>> = vec![];
                    for id in wl.picks.borrow().iter().take(n1) {
                        e = cut(&e, &sub[*id].conf);
                        hs.push(&sub[*id].conf);
                    }
                    let want: Vec<f64> = (0..m).map(|r| naive(y, &hs, r)).collect();
                    if a != want {
                        loc.viol_at(key, format!("run() output {a:?}, expected {want:?}"));
                    } else if e.is_empty() && a != *y {
                        loc.viol_at(key, format!("all pairs separated but training predictions are {a:?}"));
                    }
                }
            }
        }
    });
    // (d) long samples and many hypotheses, each separating little.
    let mut cases = vec![];
    for m in run.pick(vec![12, 40, 90, 150], vec![12, 40, 66, 90, 140, 200, 280]) {
        for (li, y) in crate::wide::labels(m).into_iter().enumerate() {
            for family in 0..6 {
                cases.push((m, li, family, y.clone()));
            }
        }
    }
    run.explore("long", &cases, |(m, l, f, _)| format!("m{m},labels{l},family{f}"), |(m, _, family, y), loc| {
        let m = *m;
        // Three rows outside the sample: like no row, like the first, like the last but one.
        let extend = |f: &dyn Fn(usize) -> f64, odd: f64| -> Vec<f64> {
            let mut v: Vec<f64> = (0..m).map(f).collect();
            v.extend([odd, v[0], v[m - 2]]);
            v
        };
        let confs: Vec<Vec<f64>> = (0..m)
            .map(|k| {
                let odd = if k + 1 == m { 1.0 } else { -1.0 };
                match family {
                    0 => extend(&|i| if i == k { 1.0 } else { -1.0 }, odd),
                    1 => extend(&|i| if i + k + 1 == m { 1.0 } else { -1.0 }, odd),
                    2 => extend(&|i| if i > k { 0.5 } else { -0.5 }, odd),
                    3 => extend(&|i| if i == k { -0.3 } else { 0.3 }, odd),
                    4 => extend(&|i| if i >= k && i < k + 3 { 1.0 } else { -1.0 }, 1.0),
                    _ => extend(&|i| if (i * 7 + 3) % m == k { 1.0 } else { -0.2 }, odd),
                }
            })
            .collect();
        let menu = menu(&confs);
        let sample = row_sample(y);
        let mut wy = y.clone();
        wy.extend([1.0, -1.0, 1.0]);
        let wide = row_sample(&wy);
        let script: Vec<usize> = (0..m).collect();
        replay(y, &menu, &script, &sample, &wide, loc);
        // The rows that are told apart only by the last answers, first.
        let late: Vec<usize> = (0..m).rev().collect();
        replay(y, &menu, &late, &sample, &wide, loc);
    });
    run.rule = "graph: all labelings of up to m rows; every reachable set of unseparated pairs, every dichotomy as the next answer, each (state, answer) replayed on the real booster; unseen: confidence-rated answers and a row outside the training sample; run: complete runs with max-edge learners over all small classes; long: six families of answers that each separate little, over long samples, in both orders".into();
}
