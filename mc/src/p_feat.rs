//! C17 feature statistics and column operations, C18 splits.
use crate::fw::*;
use crate::p_data::{coherent, view, View};
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::research::CrossValidation;
use serde_json::json;

/// The same data stored sparsely: written to an svmlight file and read back.
/// Columns without a non-zero entry are dropped by the reader.
pub fn svm_sample(dir: &std::path::Path, tag: &str, cols: &[Vec<f64>], y: &[f64]) -> Sample {
    let mut body = String::new();
    for i in 0..y.len() {
        body += &format!("{}", y[i]);
        for (j, c) in cols.iter().enumerate() {
            if c[i] != 0.0 {
                body += &format!(" {j}:{}", c[i]);
            }
        }
        body += "\n";
    }
    let path = own(&dir).join(format!("{}.svm", hash_of(&tag.to_string())));
    std::fs::write(&path, body).unwrap();
    let r: SampleReader<std::path::PathBuf, &str> = SampleReader::default();
    let s = r.file(path.clone()).read();
    let _ = std::fs::remove_file(&path);
    s.expect("svmlight sample")
}

pub fn dense_sample(cols: &[Vec<f64>], y: &[f64]) -> Sample {
    let names: Vec<String> = (0..cols.len()).map(|j| format!("Feat. [{}]", j + 1)).collect();
    let named: Vec<(&str, Vec<f64>)> = names.iter().map(|s| s.as_str()).zip(cols.iter().cloned()).collect();
    df_sample(&named, y)
}

/// Weighted mean and variance of `x` over the rows that `keep` selects, as a textbook defines them.
fn moments(x: &[f64], w: &[f64], keep: impl Fn(usize) -> bool) -> (f64, f64) {
    let tot: f64 = (0..x.len()).filter(|i| keep(*i)).map(|i| w[i]).sum();
    if tot == 0.0 {
        return (0.0, 0.0);
    }
    let mean = (0..x.len()).filter(|i| keep(*i)).map(|i| w[i] * x[i]).sum::<f64>() / tot;
    let var = (0..x.len()).filter(|i| keep(*i)).map(|i| w[i] * (x[i] - mean) * (x[i] - mean)).sum::<f64>() / tot;
    (mean, var)
}

pub fn c17(run: &mut Run) {
    let alphabet: Vec<f64> = run.pick(vec![0.0, 1.0, -2.0], vec![0.0, 1.0, -2.0, 0.5]);
    let sizes: Vec<usize> = run.pick(vec![1, 2, 3, 4], vec![1, 2, 3, 4, 5]);
    let mut cases: Vec<Vec<f64>> = vec![];
    for m in sizes {
        cases.extend(vectors(&[-1.0, 1.0, 2.0], m));
    }
    let grid: Vec<f64> = run.pick(vec![0.0, 1.0, 3.0], vec![0.0, 0.5, 1.0, 3.0]);
    let scratch = Scratch::new("c17");
    let dir = scratch.0.clone();
    let quick = run.quick();
    run.explore("moments", &cases, |y| format!("y={}", fmt_v(y)), |y, loc| {
        let m = y.len();
        let alpha: &[f64] = if m >= 5 { &alphabet[..3] } else { &alphabet };
        let cols: Vec<Vec<f64>> = vectors(alpha, m).into_iter().filter(|c| c.iter().any(|x| *x != 0.0)).collect();
        let dense = dense_sample(&cols, y);
        let sparse = svm_sample(&dir, loc.key(), &cols, y);
        let (dv, sv) = (view(&dense), view(&sparse));
        loc.check(dv == sv, || "dense and sparse samples of the same data differ".into());
        for s in [&dense, &sparse] {
            if let Err(e) = coherent(s) {
                loc.viol(e);
            }
        }
        let g: &[f64] = if m >= 4 && quick { &grid[..2] } else if m >= 5 { &grid[1..3] } else { &grid };
        for w in vectors(g, m) {
            let total: f64 = w.iter().sum();
            loc.state(&format!("{y:?}{w:?}"));
            if total > 0.0 {
                let p: Vec<f64> = w.iter().map(|x| x / total).collect();
                for (s, what) in [(&dense, "dense"), (&sparse, "sparse")] {
                    loc.trace();
                    loc.steps(2 * cols.len());
                    let mv = s.weighted_mean_and_variance(&p);
                    let mo = s.weighted_mean(&p);
                    loc.check(mv.len() == cols.len() && mo.len() == cols.len(), || format!("{what}: {} moments for {} columns", mv.len(), cols.len()));
                    for (j, c) in cols.iter().enumerate() {
                        let (a, b) = moments(c, &p, |_| true);
                        loc.check(close(mv[j].0, a, 1e-9) && close(mv[j].1, b, 1e-9) && close(mo[j], a, 1e-9), || {
                            format!("{what} column {c:?}, weights {p:?}: mean {} ({}), variance {}; expected {a}, {b}", mv[j].0, mo[j], mv[j].1)
                        });
                    }
                }
            }
            // The unit of a label's weights does not matter, be it ever so small or large.
            for (unit, label) in [(1e-120, -1.0), (1e-250, 1.0), (1e-18, 1.0), (1e200, -1.0)] {
                let ws: Vec<f64> = w.iter().map(|x| x * unit).collect();
                for (s, what) in [(&dense, "dense"), (&sparse, "sparse")] {
                    loc.steps(cols.len());
                    let mv = s.weighted_mean_and_variance_for_label(label, &ws);
                    for (j, c) in cols.iter().enumerate() {
                        let (a, b) = moments(c, &w, |i| y[i] == label);
                        loc.check(close(mv[j].0, a, 1e-9) && close(mv[j].1, b, 1e-9), || {
                            format!("{what} column {c:?}, labels {y:?}, label {label}, weights {ws:?}: mean {}, variance {}; expected {a}, {b}", mv[j].0, mv[j].1)
                        });
                    }
                }
            }
            for label in [-1.0, 1.0, 2.0] {
                let present = (0..m).any(|i| y[i] == label);
                // Labels nothing is weighted for have no moments to speak of;
                // the library's convention (mean 0) is accepted but finiteness is required.
                let tot: f64 = (0..m).filter(|i| y[*i] == label).map(|i| w[i]).sum();
                for (s, what) in [(&dense, "dense"), (&sparse, "sparse")] {
                    loc.trace();
                    loc.steps(2 * cols.len());
                    let mv = s.weighted_mean_and_variance_for_label(label, &w);
                    let mo = s.weighted_mean_for_label(label, &w);
                    loc.outcome(&format!("{present}{}", tot > 0.0));
                    for (j, c) in cols.iter().enumerate() {
                        let (a, b) = moments(c, &w, |i| y[i] == label);
                        loc.check(close(mv[j].0, a, 1e-9) && close(mv[j].1, b, 1e-9) && close(mo[j], a, 1e-9), || {
                            format!("{what} column {c:?}, labels {y:?}, label {label}, weights {w:?}: mean {} ({}), variance {}; expected {a}, {b}", mv[j].0, mo[j], mv[j].1)
                        });
                    }
                }
            }
        }
    });

    // Long columns: many rows, values far from zero or tiny, many labels, weights of every shape.
    let patterns: Vec<(&str, fn(usize) -> f64)> = vec![
        ("ramp", |i| i as f64),
        ("cycle", |i| ((i * 7) % 11) as f64 - 5.0),
        ("huge", |i| 1e8 * (1.0 + (i % 13) as f64)),
        ("tiny", |i| 1e-9 * ((i % 5) as f64 - 1.0)),
        ("offset", |i| 1e3 + (i % 4) as f64),
        ("rare", |i| if i % 50 == 3 { 9.0 } else { 0.0 }),
        ("late", |i| if i >= 60 { -2.5 } else { 0.0 }),
        ("first", |i| if i == 0 { 4.0 } else { 0.0 }),
        ("blocks", |i| ((i / 16) % 3) as f64),
        ("constant", |_| 0.7),
        ("wave", |i| (i as f64 * 1.3).sin()),
        ("gaps", |i| if i % 2 == 0 { 0.0 } else { i as f64 }),
    ];
    let labelings: Vec<(&str, fn(usize) -> f64)> = vec![
        ("sign", |i| if i % 3 == 0 { 1.0 } else { -1.0 }),
        ("ten", |i| (i % 10) as f64),
        ("runs", |i| ((i / 20) % 4) as f64 - 1.0),
        ("one", |_| 1.0),
        ("odd-one", |i| if i == 17 { 5.0 } else { -1.0 }),
        ("half", |i| (i % 3) as f64 * 0.5 - 0.5),
        ("close", |i| 1.0 + 1e-7 * (i % 3) as f64),
        ("far", |i| [1e300, -1e300, 0.0, -0.125][i % 4]),
    ];
    let weightings: Vec<(&str, fn(usize) -> f64)> = vec![
        ("uniform", |_| 1.0),
        ("ramp", |i| (i + 1) as f64),
        ("alternate", |i| (i % 2) as f64),
        ("decay", |i| 0.5f64.powi((i % 60) as i32)),
        ("steep", |i| 1e-12f64.powf((i % 9) as f64 / 8.0)),
        ("one", |i| if i == 4 { 1.0 } else { 0.0 }),
        ("tail", |i| if i >= 30 { 1.0 } else { 0.0 }),
        ("small", |i| 1e-7 * (1.0 + (i % 3) as f64)),
    ];
    let lens: Vec<usize> = run.pick((6..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 2100]).collect(), (6..=300).chain([511, 513, 1000, 1025, 2100, 5000]).collect());
    let mut longs = vec![];
    for &n in &lens {
        for l in 0..labelings.len() {
            for w in 0..weightings.len() {
                longs.push((n, l, w));
            }
        }
    }
    run.explore("long-moments", &longs, |c| format!("n{},{},{}", c.0, labelings[c.1].0, weightings[c.2].0), |&(n, l, w), loc| {
        let y: Vec<f64> = (0..n).map(labelings[l].1).collect();
        let w: Vec<f64> = (0..n).map(weightings[w].1).collect();
        let total: f64 = w.iter().sum();
        if total == 0.0 {
            return;
        }
        let p: Vec<f64> = w.iter().map(|x| x / total).collect();
        let cols: Vec<Vec<f64>> = patterns.iter().map(|f| (0..n).map(f.1).collect::<Vec<f64>>()).filter(|c| c.iter().any(|x| *x != 0.0)).collect();
        let (dense, sparse) = (dense_sample(&cols, &y), svm_sample(&dir, loc.key(), &cols, &y));
        let (dv, sv) = (view(&dense), view(&sparse));
        loc.check(dv == sv, || "dense and sparse samples of the same data differ".into());
        let mut labels = y.clone();
        labels.sort_by(|a, b| a.partial_cmp(b).unwrap());
        labels.dedup();
        loc.state(&format!("{y:?}{w:?}"));
        for (s, what) in [(&dense, "dense"), (&sparse, "sparse")] {
            if let Err(e) = coherent(s) {
                loc.viol(e);
            }
            loc.trace();
            let near = |got: f64, want: f64, scale: f64| (got - want).abs() <= 1e-9 * scale.max(want.abs()).max(1e-12);
            let mut judge = |mv: Vec<(f64, f64)>, mo: Vec<f64>, keep: &dyn Fn(usize) -> bool, ww: &[f64], who: String| {
                loc.steps(2 * cols.len());
                if mv.len() != cols.len() || mo.len() != cols.len() {
                    return loc.viol(format!("{what}: {} moments for {} columns", mv.len(), cols.len()));
                }
                for (j, c) in cols.iter().enumerate() {
                    let (a, b) = moments(c, ww, keep);
                    let big = c.iter().fold(0.0f64, |s, x| s.max(x.abs()));
                    loc.check(near(mv[j].0, a, big) && near(mo[j], a, big) && (mv[j].1 - b).abs() <= 1e-9 * b.abs() + 1e-20 * big * big, || {
                        format!("{what}, {who}, column {}: mean {} ({}), variance {}; expected {a}, {b}", s.features()[j].name(), mv[j].0, mo[j], mv[j].1)
                    });
                }
            };
            judge(s.weighted_mean_and_variance(&p), s.weighted_mean(&p), &|_| true, &p, "all rows".into());
            for &label in &labels {
                // Scale: only weights above the library's floor of total weight matter.
                judge(s.weighted_mean_and_variance_for_label(label, &p), s.weighted_mean_for_label(label, &p), &|i| y[i] == label, &p, format!("label {label}"));
                judge(s.weighted_mean_and_variance_for_label(label, &w), s.weighted_mean_for_label(label, &w), &|i| y[i] == label, &w, format!("label {label}, raw weights"));
            }
        }
        loc.outcome(&labels.len());
    });

    // Column operations, against a list of named columns.
    #[derive(Clone, Debug)]
    enum Op {
        Target(usize),
        Rename(usize),
    }
    let ops = [Op::Target(0), Op::Target(1), Op::Target(2), Op::Target(3), Op::Rename(0), Op::Rename(1), Op::Rename(2)];
    let depth = run.pick(3usize, 4);
    let cols: Vec<Vec<Vec<f64>>> = vec![
        vec![vec![1.0, 0.0, -2.0], vec![0.0, 0.0, 5.0], vec![3.0, 4.0, 0.0], vec![-1.0, 1.0, 1.0]],
        vec![vec![0.5], vec![-1.0], vec![7.0]],
        vec![vec![0.0, 2.0], vec![1.0, -1.0]],
        // Longer: columns that start late, end early, are rare, tiny or nearly full.
        (0..6usize).map(|j| (0..40usize).map(|i| match j {
            0 => (i + 1) as f64,
            1 => if i < 3 { 2.0 } else { 0.0 },
            2 => if i > 33 { -1.0 } else { 0.0 },
            3 => if i == 20 { 7.0 } else { 0.0 },
            4 => if i == 11 { 0.0 } else { 1e-9 * (i as f64 - 50.0) },
            _ => [1.0, -1.0, 0.0][i % 3],
        }).collect()).collect(),
        (0..12usize).map(|j| (0..9usize).map(|i| if (i + j) % 4 == 0 { 0.0 } else { (i * 12 + j) as f64 - 20.0 }).collect()).collect(),
    ];
    let mut cases = vec![];
    for t in 0..cols.len() {
        for sparse in [false, true] {
            for s in sequences(ops.len(), depth) {
                cases.push((t, sparse, s));
            }
        }
    }
    run.explore("columns", &cases, |c| format!("table{},{},{}", c.0, if c.1 { "sparse" } else { "dense" }, fmt_i(&c.2)), |c, loc| {
        let table = &cols[c.0];
        let n = table[0].len();
        let y: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let mut s = if c.1 { svm_sample(&dir, loc.key(), table, &y) } else { dense_sample(table, &y) };
        let mut model: Vec<(String, Vec<f64>)> = (0..table.len()).map(|j| (format!("Feat. [{}]", j + 1), table[j].clone())).collect();
        let mut target = y.clone();
        let mut gone: std::collections::BTreeSet<String> = Default::default();
        for (step, o) in c.2.iter().enumerate() {
            match &ops[*o] {
                Op::Target(j) => {
                    if *j >= model.len() {
                        continue;
                    }
                    let (name, col) = model.remove(*j);
                    target = col;
                    gone.insert(name.clone());
                    s = s.set_target(&name);
                }
                Op::Rename(k) => {
                    let mut names: Vec<String> = model.iter().map(|x| x.0.clone()).collect();
                    match k {
                        0 if !names.is_empty() => names.rotate_left(1),
                        1 => names.reverse(),
                        _ => names = (0..model.len()).map(|j| format!("n{step}-{j}")).collect(),
                    }
                    let old: Vec<String> = model.iter().map(|x| x.0.clone()).collect();
                    let got = s.replace_names(&names);
                    loc.check(got == old, || format!("replace_names returned {got:?}, the names were {old:?}"));
                    gone.extend(old);
                    for (m, n) in model.iter_mut().zip(names) {
                        m.0 = n;
                    }
                }
            }
            loc.step();
            loc.state(&format!("{:?}{:?}{target:?}", c.1, model));
            let want = View {
                shape: (n, model.len()),
                names: model.iter().map(|x| x.0.clone()).collect(),
                rows: (0..n).map(|i| (model.iter().map(|x| x.1[i]).collect(), target[i])).collect(),
            };
            let got = view(&s);
            loc.check(got == want, || format!("after {:?}: {got:?}, expected {want:?}", &c.2[..=step]));
            if let Err(e) = coherent(&s) {
                loc.viol(e);
            }
            for (name, col) in &model {
                let by: Result<Vec<f64>, _> = guarded(|| (0..n).map(|i| s[name][i]).collect());
                loc.check(by.as_ref() == Ok(col), || format!("column {name:?} by name gives {by:?}, expected {col:?}"));
            }
            // A name that no column bears any longer.
            for name in gone.iter().filter(|n| model.iter().all(|m| m.0 != **n)) {
                let by = guarded(|| s[name][0]);
                loc.check(by.is_err(), || format!("after {:?} the name {name:?} still gives a column", &c.2[..=step]));
            }
        }
        // Statistics of what is left, over all rows and by the new target's values.
        let w: Vec<f64> = (0..n).map(|i| (1 + (i * 5) % 7) as f64).collect();
        let total: f64 = w.iter().sum();
        let p: Vec<f64> = w.iter().map(|x| x / total).collect();
        let mut labels = target.clone();
        labels.sort_by(|a, b| a.partial_cmp(b).unwrap());
        labels.dedup();
        loc.check(s.unique_target() == labels, || format!("unique targets {:?}, expected {labels:?}", s.unique_target()));
        let all = s.weighted_mean_and_variance(&p);
        for (j, (name, col)) in model.iter().enumerate() {
            let (a, b) = moments(col, &p, |_| true);
            loc.check(all.len() == model.len() && close(all[j].0, a, 1e-9) && close(all[j].1, b, 1e-9), || format!("{name:?}: moments {all:?}, expected {a}, {b}"));
        }
        for &label in &labels {
            let mv = s.weighted_mean_and_variance_for_label(label, &p);
            for (j, (name, col)) in model.iter().enumerate() {
                let (a, b) = moments(col, &p, |i| target[i] == label);
                loc.check(mv.len() == model.len() && close(mv[j].0, a, 1e-9) && close(mv[j].1, b, 1e-9), || format!("label {label}, {name:?}: moments {mv:?}, expected {a}, {b}"));
            }
        }
        loc.trace();
        loc.outcome(&model.len());
    });
    drop(scratch);
    run.rule = "moments: state = (labels, weights), with every column over the alphabet in one sample, stored densely and sparsely; columns: state = (names, columns, target) after each operation of every sequence of set_target / replace_names".into();
}

pub fn c18(run: &mut Run) {
    #[derive(Clone)]
    struct Case {
        n: usize,
        folds: usize,
        ratio: Option<f64>,
        sparse: bool,
        target2: bool,
    }
    let max_n = run.pick(12usize, 26);
    let ratios: Vec<Option<f64>> = run.pick(
        vec![None, Some(0.5), Some(0.75), Some(0.34), Some(0.05), Some(0.95), Some(0.875), Some(0.6)],
        vec![None, Some(0.5), Some(0.75), Some(0.34), Some(0.05), Some(0.95), Some(0.8), Some(0.9), Some(2.0 / 3.0), Some(0.999), Some(0.875), Some(0.6)],
    );
    let mut cases = vec![];
    for n in 1..=max_n {
        for folds in 0..=run.pick(9usize, 14) {
            for r in &ratios {
                for sparse in [false, true] {
                    for target2 in [false, true] {
                        cases.push(Case { n, folds, ratio: *r, sparse, target2 });
                    }
                }
            }
        }
    }
    // Larger samples, more folds than rows, ratios that leave one row or all but one.
    let big: Vec<usize> = run.pick((13..=40).chain([50, 63, 64, 65, 100, 128, 129, 255, 256, 257, 1000]).collect(), (27..=140).chain([200, 255, 256, 257, 300, 513, 1000, 2000]).collect());
    for n in big {
        for folds in [1, 2, 3, 5, 7, 8, 10, if n < 70 { n + 2 } else { 13 }] {
            for r in [None, Some(0.875), Some(0.9), Some(0.7), Some(0.5), Some(0.99), Some(0.1), Some(1.0 - 1.0 / n as f64), Some(1.0 / 3.0)] {
                if n > 60 && folds > 5 && run.quick() && r != Some(0.99) {
                    continue;
                }
                for sparse in [false, true] {
                    cases.push(Case { n, folds, ratio: r, sparse, target2: n % 2 == 1 });
                }
            }
        }
    }
    let seeds: Vec<u64> = run.pick(vec![0, 7], vec![0, 1, 7, 1234]);
    let scratch = Scratch::new("c18");
    let dir = scratch.0.clone();
    run.explore("folds", &cases, |c| format!("n{},folds{},ratio{:?},{},{}", c.n, c.folds, c.ratio, if c.sparse { "sparse" } else { "dense" }, c.target2), |c, loc| {
        let n = c.n;
        // Row i is recognised by its first column; the others have zeros in different places.
        let cols = vec![
            (0..n).map(|i| (i + 1) as f64).collect::<Vec<_>>(),
            (0..n).map(|i| if i % 3 == 0 { 0.0 } else { i as f64 / 8.0 }).collect(),
            (0..n).map(|i| if i + 1 == n { -3.0 } else { 0.0 }).collect(),
            (0..n).map(|i| 1e-9 * ((i % 5) as f64 - 2.0)).collect(),
            (0..n).map(|i| [1e200, 0.0, -1e-300][i % 3]).collect(),
        ];
        let cols: Vec<Vec<f64>> = cols.into_iter().filter(|v| v.iter().any(|x| *x != 0.0)).collect();
        let y: Vec<f64> = (0..n).map(|i| if c.target2 { i as f64 * 0.5 - 1.0 } else if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let mut s = if c.sparse { svm_sample(&dir, loc.key(), &cols, &y) } else { dense_sample(&cols, &y) };
        if (n + c.folds) % 2 == 1 {
            // Names that differ in blanks and case only.
            let odd = [" a", "a ", "A", "a", "\t a"];
            s.replace_names(odd[..cols.len()].to_vec());
        }
        let whole = view(&s);
        let mut plans: Vec<Option<u64>> = vec![None];
        plans.extend(seeds.iter().map(|x| Some(*x)));
        let mut shuffled: Vec<(Option<u64>, Vec<usize>)> = vec![];
        for seed in plans {
            let make = || {
                let mut cv = CrossValidation::new(&s).n_folds(c.folds);
                if let Some(r) = c.ratio {
                    cv = cv.train_ratio(r);
                }
                if let Some(sd) = seed {
                    cv = cv.seed(sd).shuffle();
                }
                let folds = cv.by_ref().collect::<Vec<(Sample, Sample)>>();
                // No further folds, however often it is asked.
                let more = (0..3).filter(|_| cv.next().is_some()).count();
                assert!(more == 0, "{more} folds after the last one");
                folds
            };
            let folds = match guarded(make) {
                Ok(f) => f,
                Err(e) => {
                    loc.viol(format!("seed {seed:?}: {e}"));
                    continue;
                }
            };
            loc.trace();
            loc.steps(folds.len() + 1);
            loc.check(folds.len() == c.folds, || format!("{} folds instead of {}", folds.len(), c.folds));
            let test_share = 1.0 - c.ratio.unwrap_or(0.8);
            let mut order: Vec<usize> = vec![];
            let mut tested = std::collections::HashSet::new();
            let mut sizes = vec![];
            for (f, (train, test)) in folds.iter().enumerate() {
                let mut ids: [Vec<usize>; 2] = [vec![], vec![]];
                for (which, part) in [train, test].into_iter().enumerate() {
                    let what = ["training", "test"][which];
                    if let Err(e) = coherent(part) {
                        loc.viol(format!("seed {seed:?}, fold {f}, {what} part: {e}"));
                        continue;
                    }
                    let v = view(part);
                    loc.check(v.names == whole.names && v.shape.1 == whole.shape.1, || format!("fold {f}: the {what} part has columns {:?}", v.names));
                    for r in &v.rows {
                        let id = r.0[0] as usize;
                        loc.check((1..=n).contains(&id) && *r == whole.rows[id - 1], || format!("seed {seed:?}, fold {f}: {what} row {r:?} is no row of the sample"));
                        ids[which].push(id);
                    }
                    for (j, name) in whole.names.iter().enumerate() {
                        let by: Result<Vec<f64>, _> = guarded(|| (0..v.shape.0).map(|i| part[name][i]).collect());
                        let w: Vec<f64> = v.rows.iter().map(|r| r.0[j]).collect();
                        loc.check(by.as_ref() == Ok(&w), || format!("fold {f}: {what} column {name:?} by name gives {by:?}"));
                    }
                }
                let mut all = ids.concat();
                all.sort();
                loc.check(all == (1..=n).collect::<Vec<_>>(), || format!("seed {seed:?}, fold {f}: training and test rows together are {all:?}"));
                if seed.is_none() {
                    let mut sorted = ids[1].clone();
                    sorted.sort();
                    loc.check(sorted == ids[1] && ids[1].iter().all(|i| order.iter().max().is_none_or(|j| j < i)), || format!("unshuffled fold {f} tests on {:?} after {order:?}", ids[1]));
                }
                for i in &ids[1] {
                    loc.check(tested.insert(*i), || format!("seed {seed:?}: row {i} is tested in two folds"));
                }
                order.extend(&ids[1]);
                sizes.push(ids[1].len());
            }
            // Every fold tests the stated share, until the rows are used up.
            let mut left = n;
            for (f, k) in sizes.iter().enumerate() {
                let ideal = test_share * n as f64;
                let full = (*k as f64 - ideal).abs() <= 1.0 + 1e-9;
                let ends = *k == left && (*k as f64) <= ideal + 1.0 + 1e-9;
                loc.check(full || ends, || format!("seed {seed:?}, fold {f} tests {k} of {n} rows, the share is {test_share} and {left} were left"));
                left = left.saturating_sub(*k);
            }
            if sizes.len() > 1 {
                loc.check(sizes.windows(2).all(|w| w[1] <= w[0]), || format!("test sizes {sizes:?}"));
            }
            if seed.is_some() && n >= 15 && order.len() >= 15 {
                // Fifteen rows in their own order by chance: once in a million million.
                loc.check(order.windows(2).any(|w| w[1] < w[0]), || format!("seed {seed:?}: shuffled rows are tested in order {order:?}"));
                shuffled.push((seed, order.clone()));
            }
            loc.state(&format!("{n} {:?} {:?} {order:?} {sizes:?}", c.sparse, seed.is_some()));
            loc.outcome(&sizes);
            // The same call again gives the same folds.
            let again = guarded(make);
            let same = again.as_ref().is_ok_and(|a| a.len() == folds.len() && a.iter().zip(&folds).all(|(x, z)| view(&x.0) == view(&z.0) && view(&x.1) == view(&z.1)));
            loc.check(same, || format!("seed {seed:?}: a second pass gives other folds"));
        }
        if shuffled.len() > 1 {
            loc.check(shuffled.iter().any(|x| x.1 != shuffled[0].1), || "every seed shuffles alike".to_string());
        }
        loc.sample(json!({"n": n, "folds": c.folds, "ratio": c.ratio}));
    });
    // Every permutation a shuffle can make: all draws are ours.
    let mut cases = vec![];
    for n in run.pick(vec![2usize, 3, 4], vec![2, 3, 4, 5]) {
        for folds in 1..=n {
            for sparse in [false, true] {
                cases.push((n, folds, sparse));
            }
        }
    }
    run.explore("permutations", &cases, |(n, f, sp)| format!("n{n},folds{f},{}", if *sp { "sparse" } else { "dense" }), |(n, folds, sparse), loc| {
        let n = *n;
        let cols = vec![(0..n).map(|i| (i + 1) as f64).collect::<Vec<_>>(), (0..n).map(|i| if i % 2 == 0 { 0.0 } else { -1.5 * i as f64 }).collect()];
        let y: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else { -1.0 }).collect();
        let s = if *sparse { svm_sample(&dir, loc.key(), &cols, &y) } else { dense_sample(&cols, &y) };
        let whole = view(&s);
        let levels = (1..=n).product::<usize>().min(12);
        let mut orders = std::collections::HashSet::new();
        for a in crate::p_net::assignments(n - 1, levels, 30_000) {
            let list: Vec<u64> = a.iter().map(|k| (*k as u128 * (1u128 << 64)).div_ceil(levels as u128) as u64 + (1 << 20)).collect();
            let got = crate::p_net::with_draws(list, Some(0), || CrossValidation::new(&s).n_folds(*folds).train_ratio(1.0 - 1.0 / n as f64 + 1e-9).seed(7).shuffle().collect::<Vec<_>>());
            loc.trace();
            loc.steps(got.len());
            let mut order = vec![];
            for (train, test) in &got {
                let parts = [view(train), view(test)];
                let ids: Vec<usize> = parts.iter().flat_map(|v| v.rows.iter().map(|r| r.0[0] as usize)).collect();
                let mut sorted = ids.clone();
                sorted.sort();
                loc.check(sorted == (1..=n).collect::<Vec<_>>(), || format!("draws {a:?}: rows {ids:?} in training and test"));
                for r in parts.iter().flat_map(|v| &v.rows) {
                    loc.check((1..=n).contains(&(r.0[0] as usize)) && *r == whole.rows[r.0[0] as usize - 1], || format!("draws {a:?}: {r:?} is no row of the sample"));
                }
                order.extend(parts[1].rows.iter().map(|r| r.0[0] as usize));
            }
            let distinct: std::collections::HashSet<_> = order.iter().collect();
            loc.check(got.len() == *folds && distinct.len() == order.len() && order.len() == *folds, || format!("draws {a:?}: rows tested in order {order:?} by {folds} folds of one row"));
            loc.state(&order);
            orders.insert(order);
        }
        loc.max("orders_reached", orders.len() as f64);
        // Any row can be tested first.
        loc.check((1..=n).all(|i| orders.iter().any(|o| o.first() == Some(&i))), || format!("over all draws only {orders:?} come first"));
        if *folds == n {
            loc.check(orders.len() == (1..=n).product::<usize>(), || format!("over all draws only {} orders of {n} rows occur", orders.len()));
        }
    });
    // Different seeds shuffle differently, every part of the sample.
    let ns: Vec<usize> = run.pick(vec![60, 1500], vec![60, 300, 1500, 5000]);
    run.explore("seeds", &ns, |n| format!("n{n}"), |&n, loc| {
        let s = dense_sample(&[(0..n).map(|i| i as f64 + 1.0).collect()], &(0..n).map(|i| (i % 2) as f64 * 2.0 - 1.0).collect::<Vec<_>>());
        let mut all: Vec<u64> = (0..64).map(|e| 1u64 << e).collect();
        all.extend([0, 3, 5, 7, 255, 1000, u64::MAX, u64::MAX - 1, u32::MAX as u64]);
        let mut orders: Vec<(u64, Vec<usize>)> = vec![];
        for seed in all {
            let r = guarded(|| {
                CrossValidation::new(&s).n_folds(3).train_ratio(2.0 / 3.0).seed(seed).shuffle()
                    .flat_map(|(_, test)| (0..test.shape().0).map(move |i| test.at(i).0[0] as usize - 1).collect::<Vec<_>>())
                    .collect::<Vec<usize>>()
            });
            loc.trace();
            loc.step();
            let o = match r {
                Ok(o) => o,
                Err(e) => return loc.viol(format!("seed {seed}: {e}")),
            };
            loc.check(o.len() + 3 >= n, || format!("seed {seed}: three folds test {} of {n} rows", o.len()));
            // A shuffle leaves about one row of a block of thirty where it was.
            for (k, block) in o.chunks_exact(30).enumerate() {
                let fixed = block.iter().enumerate().filter(|(i, v)| k * 30 + i == **v).count();
                loc.check(fixed < 20, || format!("seed {seed}: {fixed} of the rows {}.. stay where they are", k * 30));
            }
            for (other, p) in &orders {
                let alike = o.iter().zip(p).filter(|(a, b)| a == b).count();
                loc.check(2 * alike < n, || format!("seeds {seed} and {other} test {alike} of {n} rows at the same place"));
            }
            loc.state(&o);
            orders.push((seed, o));
        }
        loc.outcome(&orders.len());
    });
    drop(scratch);
    run.rule = "state = (size, representation, order in which rows are tested, test sizes); case = (size, folds, ratio, representation, kind of target), inside it no shuffle and each seed".into();
}
