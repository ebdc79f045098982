//! Larger instances than exhaustive tables allow: structured answer sets over longer
//! samples (margin space), and every schedule that repeats a short pattern for ever.
use crate::boost::Logged;
use crate::util::*;
use miniboosts::prelude::*;
use std::cell::RefCell;

pub struct Wide {
    pub name: String,
    pub m: usize,
    /// Margin vectors of the answers.
    pub us: Vec<Vec<f64>>,
}

/// Answer sets over m examples.
pub fn wides(m: usize) -> Vec<Wide> {
    let mut out = vec![];
    let mut add = |name: String, us: Vec<Vec<f64>>| out.push(Wide { name: format!("{name}{m}"), m, us });
    // Right everywhere but on one example, where it is off by a little or by everything.
    for v in [-1.0, -0.3, 0.0, 0.9, 0.999] {
        let us = (0..3).map(|k| (0..m).map(|i| if i == (k * (m / 3)) % m { v } else { 1.0 }).collect()).collect();
        add(format!("one{v}_"), us);
    }
    // Wrong on a block each.
    for k in [2usize, 3, 4] {
        if k <= m {
            let us = (0..k).map(|j| (0..m).map(|i| if i * k / m == j { -1.0 } else { 1.0 }).collect()).collect();
            add(format!("block{k}_"), us);
        }
    }
    // Threshold functions of the row number.
    let us = [1, m / 3, m / 2, 2 * m / 3].iter().map(|t| (0..m).map(|i| if i < *t { -1.0 } else { 1.0 }).collect()).collect();
    add("stump".into(), us);
    // Graded confidences, rising, falling, and in the middle.
    let f = |i: usize| i as f64 / (m - 1).max(1) as f64;
    add("graded".into(), vec![
        (0..m).map(|i| -0.4 + 1.3 * f(i)).collect(),
        (0..m).map(|i| 0.9 - 1.3 * f(i)).collect(),
        (0..m).map(|i| 1.0 - 3.0 * (f(i) - 0.5).abs()).collect(),
    ]);
    // Weak and unsure answers.
    add("unsure".into(), (1..4).map(|k| (0..m).map(|i| 0.05 * ((i * (2 * k + 1) + k) % 7) as f64 - 0.1).collect()).collect());
    // Alternating patterns of different period, some mistaken more often than right.
    add("period".into(), (2..6).map(|p| (0..m).map(|i| if i % p == 0 { -1.0 } else { 1.0 }).collect()).collect());
    // One answer nearly constant, one strong correction that is needed with a small weight only.
    add("rare".into(), vec![
        (0..m).map(|i| if i == 0 { -0.985 } else if i == 1 { -1.0 } else { 1.0 }).collect(),
        (0..m).map(|i| if i == 1 { 1.0 } else { -1.0 }).collect(),
        (0..m).map(|i| if i == 0 { 1.0 } else { -0.9 }).collect(),
    ]);
    // Values at many scales.
    add("scales".into(), vec![
        (0..m).map(|i| 10f64.powi(-((i % 5) as i32))).collect(),
        (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -10f64.powi(-((i % 4) as i32)) }).collect(),
        (0..m).map(|i| if i % 3 == 0 { -0.5 } else { 0.7 }).collect(),
    ]);
    out
}

/// Every schedule that repeats a pattern of length at most `top` over `k` answers, `len` rounds long.
pub fn lassos(k: usize, top: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    for l in 1..=top {
        for p in sequences(k, l) {
            out.push((0..len).map(|i| p[i % l]).collect());
        }
        // A different start, then one answer for ever.
        if l >= 2 {
            for p in sequences(k, l) {
                out.push((0..len).map(|i| p[i.min(l - 1)]).collect());
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Labels for m examples: alternating, one positive, two thirds positive.
pub fn labels(m: usize) -> Vec<Vec<f64>> {
    vec![
        (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        (0..m).map(|i| if i + 1 == m { 1.0 } else { -1.0 }).collect(),
        (0..m).map(|i| if i % 3 != 2 { 1.0 } else { -1.0 }).collect(),
    ]
}

/// Many answers on a smooth surface (no finite part of it is as good as the next one):
/// margin vectors of an octant of an ellipsoid, `steps` grid lines a side.
pub fn curved(m: usize, steps: usize, shift: f64) -> Vec<Vec<f64>> {
    let grid: Vec<f64> = (0..=steps).map(|i| i as f64 / steps as f64 * std::f64::consts::FRAC_PI_2).collect();
    sequences(steps + 1, m - 1)
        .into_iter()
        .map(|ix| {
            let mut r = 1.0;
            let mut u = vec![];
            for i in &ix {
                u.push(r * grid[*i].cos());
                r *= grid[*i].sin();
            }
            u.push(r);
            u.iter().enumerate().map(|(i, x)| 2.0 * x * (1.0 - 0.1 * i as f64) - 1.0 + shift * (1.0 - x)).collect()
        })
        .collect()
}

/// Best answers from an infinite class: margin vectors `mid + stretch * s`, |s| <= 1, clipped never
/// (mid +- stretch stays within [-1, 1]). Every answer is a new hypothesis.
pub struct Ellipsoid {
    pub y: Vec<f64>,
    pub mid: Vec<f64>,
    pub stretch: Vec<f64>,
    pub log: RefCell<Vec<Vec<f64>>>,
    pub us: RefCell<Vec<Vec<f64>>>,
}

impl Ellipsoid {
    pub fn new(m: usize, kind: usize) -> Self {
        let f = |i: usize| i as f64 / m as f64;
        let (mid, stretch): (Vec<f64>, Vec<f64>) = (0..m)
            .map(|i| match kind {
                0 => (0.0, 0.5 + 0.5 * f(i)),
                1 => (0.2 * f(i), 0.3 + 0.1 * ((i * 5) % 7) as f64 / 7.0),
                2 => (-0.1 * ((i * 3) % 5) as f64, 0.6),
                _ => (0.05, if i % 3 == 0 { 0.9 } else { 0.1 }),
            })
            .unzip();
        let y = labels(m)[kind % 3].clone();
        Ellipsoid { y, mid, stretch, log: Default::default(), us: Default::default() }
    }
    pub fn answer(&self, d: &[f64]) -> Vec<f64> {
        let a: Vec<f64> = d.iter().zip(&self.stretch).map(|(d, s)| d * s).collect();
        let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
        self.mid.iter().zip(&self.stretch).zip(&a).map(|((c, s), a)| c + s * a / n).collect()
    }
    /// Value of the whole game, by cutting planes.
    pub fn value(&self, nu: f64) -> f64 {
        let m = self.y.len();
        let mut d = vec![1.0 / m as f64; m];
        let mut rows: Vec<Vec<f64>> = vec![];
        let mut v = f64::NEG_INFINITY;
        for _ in 0..2000 {
            let u = self.answer(&d);
            if u.iter().zip(&d).map(|(a, b)| a * b).sum::<f64>() <= v + 1e-7 {
                return v;
            }
            rows.push(u);
            (v, d) = game(&rows, nu);
        }
        panic!("reference game did not converge")
    }
}

impl WeakLearner for Ellipsoid {
    type Hypothesis = TableH;
    fn produce(&self, s: &Sample, dist: &[f64]) -> TableH {
        assert_eq!(s.shape().0, dist.len());
        let u = self.answer(dist);
        let conf = u.iter().zip(&self.y).map(|(u, y)| u * y).collect();
        self.log.borrow_mut().push(dist.to_vec());
        self.us.borrow_mut().push(u);
        TableH::new(self.us.borrow().len() - 1, conf)
    }
}

impl Logged for Ellipsoid {
    fn dists(&self) -> Vec<Vec<f64>> {
        self.log.borrow().clone()
    }
    fn picks(&self) -> Vec<usize> {
        (0..self.us.borrow().len()).collect()
    }
    fn forget(&self) {
        self.log.borrow_mut().clear();
        self.us.borrow_mut().clear();
    }
}
