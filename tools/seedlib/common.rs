// Shared by the demonstrations: tables as hypotheses, scripted weak learners, files in a scratch folder.
#![allow(dead_code, unused_imports)]
use miniboosts::prelude::*;
use miniboosts::research::*;
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::path::PathBuf;

pub fn scratch(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("DEMO_TMP").expect("DEMO_TMP"));
    d.join(name)
}

pub fn write(name: &str, text: &str) -> PathBuf {
    let p = scratch(name);
    std::fs::write(&p, text).unwrap();
    p
}

/// A dense sample: columns by name, labels last.
pub fn table(cols: &[(&str, Vec<f64>)], y: &[f64]) -> Sample {
    let mut t: String = cols.iter().map(|c| format!("{},", c.0)).collect();
    t.push_str("class\n");
    for i in 0..y.len() {
        for c in cols {
            t.push_str(&format!("{:?},", c.1[i]));
        }
        t.push_str(&format!("{:?}\n", y[i]));
    }
    let p = write("table.csv", &t);
    SampleReader::default().file(p).has_header(true).target_feature("class").read().unwrap()
}

pub fn rows(y: &[f64]) -> Sample {
    table(&[("row", (0..y.len()).map(|i| i as f64).collect())], y)
}

#[derive(Clone, Debug, PartialEq)]
pub struct H(pub usize, pub Vec<f64>);
impl Classifier for H {
    fn confidence(&self, _s: &Sample, row: usize) -> f64 {
        self.1[row]
    }
}

#[derive(Clone, Debug)]
pub struct R(pub Vec<f64>);
impl Regressor for R {
    fn predict(&self, _s: &Sample, row: usize) -> f64 {
        self.0[row]
    }
}

/// Answers `answers[0]`, `answers[1]`, ..., then again and again the last one.
pub struct Script<T> {
    pub answers: Vec<T>,
    pub seen: RefCell<Vec<Vec<f64>>>,
}
impl<T> Script<T> {
    pub fn new(answers: Vec<T>) -> Self {
        Script { answers, seen: RefCell::new(vec![]) }
    }
}
impl<T: Clone> WeakLearner for Script<T> {
    type Hypothesis = T;
    fn produce(&self, _s: &Sample, d: &[f64]) -> T {
        let k = self.seen.borrow().len();
        self.seen.borrow_mut().push(d.to_vec());
        self.answers[k.min(self.answers.len() - 1)].clone()
    }
}

/// Answers the hypothesis of largest edge.
pub struct Best {
    pub y: Vec<f64>,
    pub class: Vec<Vec<f64>>,
    pub seen: RefCell<Vec<Vec<f64>>>,
}
impl Best {
    pub fn new(y: &[f64], class: Vec<Vec<f64>>) -> Self {
        Best { y: y.to_vec(), class, seen: RefCell::new(vec![]) }
    }
}
impl WeakLearner for Best {
    type Hypothesis = H;
    fn produce(&self, _s: &Sample, d: &[f64]) -> H {
        self.seen.borrow_mut().push(d.to_vec());
        let edge = |h: &Vec<f64>| -> f64 { (0..d.len()).map(|i| d[i] * self.y[i] * h[i]).sum() };
        let mut b = 0;
        for j in 1..self.class.len() {
            if edge(&self.class[j]) > edge(&self.class[b]) + 1e-12 {
                b = j;
            }
        }
        H(b, self.class[b].clone())
    }
}

/// Smallest weighted margin over distributions capped at 1/nu.
pub fn soft_margin(y: &[f64], f: &[f64], nu: f64) -> f64 {
    let mut m: Vec<f64> = (0..y.len()).map(|i| y[i] * f[i]).collect();
    m.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut left = 1.0;
    let mut v = 0.0;
    for x in m {
        let w = (1.0 / nu).min(left);
        v += w * x;
        left -= w;
    }
    v
}

pub fn near(a: f64, b: f64, eps: f64) -> bool {
    (a - b).abs() <= eps
}
pub fn all_near(a: &[f64], b: &[f64], eps: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, eps))
}
