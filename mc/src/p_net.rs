//! C28: neural networks. The vendored rand crate takes every random bit from a
//! source of ours, so initial weights and mini-batches are enumerated.
use crate::fw::*;
use crate::p_feat::dense_sample;
use crate::util::*;
use miniboosts::prelude::*;

/// Hands out a fixed list of draws, then a repeating tail (or the list again).
struct Draws {
    list: Vec<u64>,
    tail: Option<u64>,
    pos: usize,
}

impl rand::ctrl::Source for Draws {
    fn next(&mut self) -> u64 {
        let v = match (self.list.get(self.pos), self.tail) {
            (Some(v), _) => *v,
            (None, Some(t)) => t.wrapping_add((self.pos as u64) << 40),
            (None, None) => self.list[self.pos % self.list.len()],
        };
        self.pos += 1;
        v
    }
}

/// Runs `f` with every random bit of this thread taken from `list`,
/// which starts again at its end unless a tail is given.
pub fn with_draws<T>(list: Vec<u64>, tail: Option<u64>, f: impl FnOnce() -> T) -> T {
    rand::ctrl::set(Some(Box::new(Draws { list, tail, pos: 0 })));
    let r = guarded(f);
    rand::ctrl::set(None);
    match r {
        Ok(v) => v,
        Err(p) => panic!("{p}"),
    }
}

/// Bits from which the normal distribution of deviation 5 draws (about) `w`.
fn bits(w: f64) -> u64 {
    // Layer 1 of the ziggurat: accepted at once below x_tab[2].
    let u = w / 5.0 / 3.654152885361009;
    let m = ((u + 1.0) / 2.0 * (1u64 << 52) as f64) as u64;
    (m << 12) | 1
}

/// What the normal distribution makes of these bits.
fn normal(b: u64) -> f64 {
    use rand::prelude::Distribution;
    struct One(u64);
    impl rand::RngCore for One {
        fn next_u32(&mut self) -> u32 {
            (self.0 >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.0
        }
        fn fill_bytes(&mut self, _: &mut [u8]) {}
        fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> {
            Ok(())
        }
    }
    rand_distr::Normal::<f64>::new(0.0, 5.0).unwrap().sample(&mut One(b))
}

/// Bits of a uniform draw from [0, 1).
pub fn unit(u: f64) -> u64 {
    ((u * (1u64 << 53) as f64) as u64) << 11
}

#[derive(Clone)]
struct RefLayer {
    w: Vec<Vec<f64>>,
    b: Vec<f64>,
    act: Activation,
}

fn sigma(z: f64) -> f64 {
    if z >= 0.0 { 1.0 / (1.0 + (-z).exp()) } else { z.exp() / (1.0 + z.exp()) }
}

fn activate(a: Activation, u: &[f64]) -> Vec<f64> {
    match a {
        Activation::Id => u.to_vec(),
        Activation::ReLu(t) => u.iter().map(|x| if *x > t { *x } else { 0.0 }).collect(),
        Activation::Sigmoid(e) => u.iter().map(|x| sigma(e * x)).collect(),
        Activation::SoftMax(e) => {
            let top = u.iter().map(|x| e * x).fold(f64::MIN, f64::max);
            let v: Vec<f64> = u.iter().map(|x| (e * x - top).exp()).collect();
            let s: f64 = v.iter().sum();
            v.iter().map(|x| x / s).collect()
        }
    }
}

/// Gradient with respect to the inputs of an activation.
fn pull(a: Activation, u: &[f64], d: &[f64]) -> Vec<f64> {
    match a {
        Activation::Id => d.to_vec(),
        Activation::ReLu(t) => u.iter().zip(d).map(|(x, d)| if *x > t { *d } else { 0.0 }).collect(),
        Activation::Sigmoid(e) => u.iter().zip(d).map(|(x, d)| e * sigma(e * x) * sigma(-e * x) * d).collect(),
        Activation::SoftMax(e) => {
            let p = activate(a, u);
            let m: f64 = p.iter().zip(d).map(|(p, d)| p * d).sum();
            p.iter().zip(d).map(|(p, d)| e * p * (d - m)).collect()
        }
    }
}

#[derive(Clone)]
struct Net(Vec<RefLayer>);

/// The order in which a layer's parameters are drawn.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Order {
    MatrixBias,
    BiasMatrix,
    RowBias,
    BiasRow,
}
const ORDERS: [Order; 4] = [Order::MatrixBias, Order::BiasMatrix, Order::RowBias, Order::BiasRow];

impl Net {
    fn new(inputs: usize, shape: &[(usize, Activation)], draws: &[f64], order: Order) -> Net {
        let mut it = draws.iter().copied();
        let mut take = |n: usize| -> Vec<f64> { (0..n).map(|_| it.next().unwrap()).collect() };
        let mut ncol = inputs;
        let mut layers = vec![];
        for &(nrow, act) in shape {
            let (mut w, mut b) = (vec![], vec![]);
            match order {
                Order::MatrixBias => {
                    w.extend((0..nrow).map(|_| take(ncol)));
                    b = take(nrow);
                }
                Order::BiasMatrix => {
                    b = take(nrow);
                    w.extend((0..nrow).map(|_| take(ncol)));
                }
                Order::RowBias => {
                    for _ in 0..nrow {
                        w.push(take(ncol));
                        b.push(take(1)[0]);
                    }
                }
                Order::BiasRow => {
                    for _ in 0..nrow {
                        b.push(take(1)[0]);
                        w.push(take(ncol));
                    }
                }
            }
            layers.push(RefLayer { w, b, act });
            ncol = nrow;
        }
        Net(layers)
    }

    fn eval(&self, x: &[f64]) -> Vec<f64> {
        let mut z = x.to_vec();
        for l in &self.0 {
            let u: Vec<f64> = l.w.iter().zip(&l.b).map(|(r, b)| r.iter().zip(&z).map(|(a, c)| a * c).sum::<f64>() + b).collect();
            z = activate(l.act, &u);
        }
        z
    }

    /// The binary confidence: the winning output's probability with its label's sign.
    fn confidence(&self, x: &[f64]) -> f64 {
        let o = self.eval(x);
        if o.len() == 1 {
            2.0 * o[0] - 1.0
        } else if o[0] > o[1] {
            -o[0]
        } else {
            o[1]
        }
    }

    /// Whether some unit sits on a kink or two outputs nearly tie.
    fn delicate(&self, x: &[f64]) -> bool {
        let mut z = x.to_vec();
        for l in &self.0 {
            let u: Vec<f64> = l.w.iter().zip(&l.b).map(|(r, b)| r.iter().zip(&z).map(|(a, c)| a * c).sum::<f64>() + b).collect();
            if let Activation::ReLu(t) = l.act {
                if u.iter().any(|x| (x - t).abs() < 1e-6) {
                    return true;
                }
            }
            z = activate(l.act, &u);
        }
        z.len() == 2 && (z[0] - z[1]).abs() < 1e-9
    }

    /// One step against the gradient of the cross entropy summed over a batch.
    fn step(&mut self, rate: f64, xs: &[Vec<f64>], y: &[f64], batch: &[usize]) {
        let mut dw: Vec<Vec<Vec<f64>>> = self.0.iter().map(|l| vec![vec![0.0; l.w[0].len()]; l.w.len()]).collect();
        let mut db: Vec<Vec<f64>> = self.0.iter().map(|l| vec![0.0; l.b.len()]).collect();
        for &i in batch {
            let (mut zs, mut us) = (vec![xs[i].clone()], vec![]);
            for l in &self.0 {
                let z = zs.last().unwrap();
                let u: Vec<f64> = l.w.iter().zip(&l.b).map(|(r, b)| r.iter().zip(z).map(|(a, c)| a * c).sum::<f64>() + b).collect();
                zs.push(activate(l.act, &u));
                us.push(u);
            }
            let p = zs.last().unwrap();
            let class = (y[i] > 0.0) as usize;
            let mut delta: Vec<f64> = if p.len() == 1 {
                vec![p[0] - class as f64]
            } else {
                p.iter().enumerate().map(|(k, p)| p - (k == class) as u8 as f64).collect()
            };
            for l in (0..self.0.len()).rev() {
                for (r, d) in delta.iter().enumerate() {
                    db[l][r] += d;
                    for (c, z) in zs[l].iter().enumerate() {
                        dw[l][r][c] += d * z;
                    }
                }
                if l > 0 {
                    let back: Vec<f64> = (0..zs[l].len()).map(|c| delta.iter().enumerate().map(|(r, d)| d * self.0[l].w[r][c]).sum()).collect();
                    delta = pull(self.0[l - 1].act, &us[l - 1], &back);
                }
            }
        }
        for (l, layer) in self.0.iter_mut().enumerate() {
            for (r, row) in layer.w.iter_mut().enumerate() {
                for (c, v) in row.iter_mut().enumerate() {
                    *v -= rate * dw[l][r][c];
                }
                layer.b[r] -= rate * db[l][r];
            }
        }
    }
}

fn n_params(inputs: usize, shape: &[(usize, Activation)]) -> usize {
    let mut ncol = inputs;
    shape.iter().map(|s| { let n = s.0 * (ncol + 1); ncol = s.0; n }).sum()
}

struct Setup<'a> {
    s: &'a Sample,
    shape: &'a [(usize, Activation)],
    batch: Option<usize>,
    epochs: usize,
    iters: usize,
}

impl Setup<'_> {
    fn learner(&self) -> NeuralNetwork {
        let mut nn = NeuralNetwork::init(self.s).n_epoch(self.epochs).n_iter(self.iters);
        for (d, a) in self.shape {
            nn = nn.append(*d, *a);
        }
        if let Some(b) = self.batch {
            nn = nn.minibatch_size(b);
        }
        nn
    }
    /// Confidences on `test` of the network trained with these draws.
    fn train(&self, list: Vec<u64>, dist: &[f64], test: &Sample) -> Result<Vec<f64>, String> {
        let nn = self.learner();
        guarded(|| with_draws(list, Some(unit(0.5)), || {
            let h = nn.produce(self.s, dist);
            let c = h.confidence_all(test);
            for (c, p) in c.iter().zip(h.predict_all(test)) {
                assert!((*c >= 0.0) == (p == 1) && (p == 1 || p == -1), "a confidence of {c} predicts {p}");
            }
            c
        }))
    }
}

fn info(nn: &NeuralNetwork, key: &str) -> f64 {
    nn.info().unwrap().into_iter().find(|x| x.0 == key).and_then(|x| x.1.parse().ok()).unwrap_or(f64::NAN)
}

fn rows(cols: &[Vec<f64>]) -> Vec<Vec<f64>> {
    (0..cols[0].len()).map(|i| cols.iter().map(|c| c[i]).collect()).collect()
}

/// All vectors of `n` entries over `0..k`, or a covering family if there are too many:
/// all vectors that differ from a base in at most two places.
pub fn assignments(n: usize, k: usize, limit: usize) -> Vec<Vec<usize>> {
    if (k as f64).powi(n as i32) <= limit as f64 {
        let mut out = vec![vec![]];
        for _ in 0..n {
            out = out.into_iter().flat_map(|v| (0..k).map(move |a| { let mut v = v.clone(); v.push(a); v })).collect();
        }
        return out;
    }
    let base: Vec<Vec<usize>> = (0..k).map(|b| (0..n).map(|i| (b + i * i + i / 2) % k).collect()).collect();
    let mut out = base.clone();
    for b in &base {
        for i in 0..n {
            for a in 1..k {
                let mut v = b.clone();
                v[i] = (v[i] + a) % k;
                out.push(v.clone());
                for j in i + 1..n {
                    let mut w = v.clone();
                    w[j] = (w[j] + 1) % k;
                    if out.len() < limit {
                        out.push(w);
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// The order of the draws, read off untrained single layers with all different parameters.
fn probe() -> Option<Order> {
    let cols = vec![vec![0.0, 0.1, 0.0, 0.17, -0.2], vec![0.0, 0.0, 0.13, -0.11, 0.3]];
    let s = dense_sample(&cols, &[1.0, -1.0, 1.0, -1.0, 1.0]);
    let shape = [(2, Activation::Sigmoid(1.0)), (2, Activation::SoftMax(1.0))];
    let list: Vec<u64> = (0..12).map(|i| bits(0.3 + ((i * 5) % 12) as f64 * 0.21 - (i % 3) as f64)).collect();
    let draws: Vec<f64> = list.iter().map(|b| normal(*b)).collect();
    let set = Setup { s: &s, shape: &shape, batch: None, epochs: 0, iters: 0 };
    let got = set.train(list, &[0.2; 5], &s).ok()?;
    ORDERS.into_iter().find(|o| {
        let net = Net::new(2, &shape, &draws, *o);
        rows(&cols).iter().zip(&got).all(|(x, c)| close(net.confidence(x), *c, 1e-9))
    })
}

type Arch = (&'static str, usize, Vec<(usize, Activation)>);

fn archs(thorough: bool) -> Vec<Arch> {
    use Activation::*;
    let mut v: Vec<Arch> = vec![
        ("logistic1", 1, vec![(1, Sigmoid(1.0))]),
        ("logistic2", 2, vec![(1, Sigmoid(1.0))]),
        ("softmax1", 1, vec![(2, SoftMax(1.0))]),
        ("softmax2", 2, vec![(2, SoftMax(1.0))]),
        ("sigmoid-softmax", 1, vec![(2, Sigmoid(1.0)), (2, SoftMax(1.0))]),
        ("sigmoid-steep", 1, vec![(1, Sigmoid(3.0)), (2, SoftMax(1.0))]),
        ("relu-softmax", 1, vec![(2, ReLu(0.0)), (2, SoftMax(1.0))]),
        ("relu1-softmax", 1, vec![(2, ReLu(1.0)), (2, SoftMax(1.0))]),
        ("relu-logistic", 2, vec![(1, ReLu(-0.5)), (1, Sigmoid(1.0))]),
        ("id-softmax", 1, vec![(2, Id), (2, SoftMax(1.0))]),
        ("softmax-softmax", 1, vec![(2, SoftMax(1.0)), (2, SoftMax(1.0))]),
        ("softmax3-logistic", 1, vec![(3, SoftMax(0.7)), (1, Sigmoid(1.0))]),
        ("deep", 1, vec![(1, Sigmoid(1.0)), (1, ReLu(0.0)), (2, SoftMax(1.0))]),
        ("deeper", 2, vec![(1, Sigmoid(1.0)), (2, Sigmoid(0.5)), (1, Id), (1, Sigmoid(1.0))]),
    ];
    if thorough {
        v.push(("wide", 3, vec![(4, Sigmoid(1.0)), (2, SoftMax(1.0))]));
        v.push(("widerelu", 2, vec![(5, ReLu(0.0)), (2, SoftMax(1.0))]));
        v.push(("four", 1, vec![(2, Sigmoid(1.0)), (2, ReLu(0.0)), (2, Sigmoid(1.0)), (2, SoftMax(1.0))]));
        v.push(("softmax-middle", 2, vec![(2, Sigmoid(1.0)), (3, SoftMax(2.0)), (2, SoftMax(1.0))]));
    }
    v
}

fn tables(inputs: usize) -> Vec<(Vec<Vec<f64>>, Vec<f64>)> {
    let f = |i: usize, j: usize| [[-1.3, 0.4, 1.7, 0.9], [0.8, -0.6, 0.3, -1.9], [2.1, -0.2, -1.1, 0.5]][j][i];
    vec![
        ((0..inputs).map(|j| (0..3).map(|i| f(i, j)).collect()).collect(), vec![-1.0, 1.0, 1.0]),
        ((0..inputs).map(|j| (0..4).map(|i| f(3 - i, j) * if i == 2 { 0.0 } else { 1.0 }).collect()).collect(), vec![1.0, -1.0, -1.0, 1.0]),
        ((0..inputs).map(|j| (0..3).map(|i| 1e-5 * f(i, j)).collect()).collect(), vec![-1.0, 1.0, 1.0]),
        ((0..inputs).map(|j| (0..3).map(|i| 40.0 * f(i, j) + 3.0 * j as f64).collect()).collect(), vec![1.0, -1.0, 1.0]),
        ((0..inputs).map(|_| vec![0.0, 0.0]).collect(), vec![1.0, 1.0]),
    ]
}

pub fn c28(run: &mut Run) {
    let order = probe();
    run.set("draw_order_of_parameters", serde_json::json!(format!("{order:?}")));
    let levels: [[f64; 3]; 2] = [[0.9, -1.4, 2.3], [8.3, -7.6, 0.4]];
    let thorough = !run.quick();
    let limit = run.pick(800, 20_000);

    // Untrained networks of equal parameters: no order of the draws matters.
    let mut cases = vec![];
    for (name, inputs, shape) in archs(thorough) {
        for (k, w) in [0.9, -0.35, 2.2, -6.0, 12.0].into_iter().enumerate() {
            cases.push((name, inputs, shape.clone(), k, w));
        }
    }
    run.explore("forward", &cases, |(n, _, _, k, _)| format!("{n},{k}"), |(_, inputs, shape, _, w), loc| {
        let cols: Vec<Vec<f64>> = (0..*inputs).map(|j| [0.0, 1.0, -1.0, 0.01, -0.7, 3.5, -20.0, 1000.0, -4000.0, 0.2].iter().map(|x| x * (1.0 - 0.3 * j as f64)).collect()).collect();
        let s = dense_sample(&cols, &[1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0]);
        let p = n_params(*inputs, shape);
        let list = vec![bits(*w); p];
        let draws = vec![normal(list[0]); p];
        let net = Net::new(*inputs, shape, &draws, Order::MatrixBias);
        let set = Setup { s: &s, shape, batch: None, epochs: 0, iters: 5 };
        match set.train(list, &[0.1; 10], &s) {
            Err(e) => loc.viol(e),
            Ok(got) => {
                loc.trace();
                for (x, c) in rows(&cols).iter().zip(&got) {
                    loc.step();
                    let want = net.confidence(x);
                    let o = net.eval(x);
                    let ok = close(*c, want, 1e-9) || (o.len() == 2 && (o[0] - o[1]).abs() < 1e-9 && close(c.abs(), 0.5, 1e-9));
                    loc.check(ok, || format!("all parameters {w}: input {x:?} has confidence {c}, not {want}"));
                }
            }
        }
    });

    // One step, whole sample as the batch: every assignment of parameters.
    let mut cases = vec![];
    for (name, inputs, shape) in archs(thorough) {
        for t in 0..5 {
            for l in 0..2 {
                cases.push((name, inputs, shape.clone(), t, l));
            }
        }
    }
    run.explore("step", &cases, |(n, _, _, t, l)| format!("{n},{t},{l}"), |(_, inputs, shape, t, l), loc| {
        let (cols, y) = tables(*inputs).swap_remove(*t);
        let values = levels[*l];
        let s = dense_sample(&cols, &y);
        let xs = rows(&cols);
        let n = y.len();
        let p = n_params(*inputs, shape);
        let smooth = shape.iter().all(|s| !matches!(s.1, Activation::ReLu(_)));
        for a in assignments(p, values.len(), limit) {
            let list: Vec<u64> = a.iter().enumerate().map(|(i, v)| bits(values[*v] + 0.07 * i as f64)).collect();
            let draws: Vec<f64> = list.iter().map(|b| normal(*b)).collect();
            let dist = vec![1.0 / n as f64; n];
            let set = |iters: usize| Setup { s: &s, shape, batch: Some(n), epochs: 1, iters };
            let rate = info(&set(1).learner(), "Learning rate") / n as f64;
            let before = match (Setup { epochs: 0, ..set(0) }).train(list.clone(), &dist, &s) {
                Ok(c) => c,
                Err(e) => return loc.viol(e),
            };
            for iters in [1, 7] {
                let after = match set(iters).train(list.clone(), &dist, &s) {
                    Ok(c) => c,
                    Err(e) => return loc.viol(e),
                };
                loc.trace();
                loc.state(&(&a, iters));
                loc.outcome(&canon(&after));
                if smooth && *t != 3 && *l == 0 {
                    // Whatever the parameters, a small step must not increase the loss.
                    let loss = |c: &[f64]| -> f64 {
                        c.iter().zip(&y).map(|(c, y)| {
                            let right = if shape.last().unwrap().0 == 1 { (1.0 + c * y) / 2.0 } else if (*c >= 0.0) == (*y > 0.0) { c.abs() } else { 1.0 - c.abs() };
                            -right.max(1e-300).ln()
                        }).sum()
                    };
                    let (l0, l1) = (loss(&before), loss(&after));
                    loc.check(l1 <= l0 + 1e-9 * (1.0 + l0), || format!("parameters {draws:?}: {iters} steps raise the loss on the batch from {l0} to {l1}"));
                }
                let Some(order) = order else {
                    loc.count("draw_order_unknown");
                    continue;
                };
                let mut net = Net::new(*inputs, shape, &draws, order);
                if xs.iter().any(|x| net.delicate(x)) {
                    loc.count("on_a_kink");
                    continue;
                }
                let all: Vec<usize> = (0..n).collect();
                for _ in 0..iters {
                    loc.step();
                    net.step(rate, &xs, &y, &all);
                }
                if xs.iter().any(|x| net.delicate(x)) {
                    loc.count("on_a_kink");
                    continue;
                }
                for i in 0..n {
                    let want = net.confidence(&xs[i]);
                    if !loc.check((after[i] - want).abs() <= if *t == 3 { 1e-8 } else { 1e-11 }, || format!("parameters {draws:?}: after {iters} steps row {i} has confidence {}, gradient descent gives {want} (before {})", after[i], before[i])) {
                        return;
                    }
                }
            }
        }
    });

    // Mini-batches: every order of the draws that choose them.
    let mut cases = vec![];
    let dists: Vec<Vec<f64>> = vec![
        vec![0.25; 4],
        vec![0.5, 0.5, 0.0, 0.0],
        vec![0.0, 0.1, 0.7, 0.2],
        vec![0.97, 0.01, 0.01, 0.01],
        vec![1e-7, 0.4, 0.3, 0.3],
        vec![0.0, 0.0, 1.0, 0.0],
    ];
    for (name, inputs, shape) in archs(false).into_iter().filter(|a| ["logistic2", "softmax2", "sigmoid-softmax"].contains(&a.0)) {
        for d in 0..dists.len() {
            for b in 1..=4usize {
                for epochs in 1..=2usize {
                    cases.push((name, inputs, shape.clone(), d, b, epochs));
                }
            }
        }
    }
    run.explore("batch", &cases, |(n, _, _, d, b, e)| format!("{n},dist{d},batch{b},epochs{e}"), |(_, inputs, shape, d, b, epochs), loc| {
        let cols: Vec<Vec<f64>> = (0..*inputs).map(|j| vec![-1.3 + j as f64, 0.4, 1.7, 0.9 * (1.0 - 2.0 * j as f64)]).collect();
        let y = vec![-1.0, 1.0, 1.0, -1.0];
        let s = dense_sample(&cols, &y);
        let xs = rows(&cols);
        let p = n_params(*inputs, shape);
        let dist = &dists[*d];
        let init: Vec<u64> = (0..p).map(|i| bits([0.9, -1.4, 0.6][i % 3] + 0.05 * i as f64)).collect();
        let draws: Vec<f64> = init.iter().map(|b| normal(*b)).collect();
        let Some(order) = order else {
            loc.count("draw_order_unknown");
            return;
        };
        let start = Net::new(*inputs, shape, &draws, order);
        let iters = 3;
        let set = Setup { s: &s, shape, batch: Some(*b), epochs: *epochs, iters };
        let rate = info(&set.learner(), "Learning rate") / *b as f64;
        // What each choice of batches leads to.
        let subs = subsets(4, *b);
        let mut leads: Vec<(Vec<usize>, Vec<f64>)> = vec![];
        for i in 0..subs.len().pow(*epochs as u32) {
            let picks: Vec<usize> = if *epochs == 1 { vec![i] } else { vec![i / subs.len(), i % subs.len()] };
            let mut net = start.clone();
            for k in &picks {
                for _ in 0..iters {
                    net.step(rate, &xs, &y, &subs[*k]);
                }
            }
            leads.push((picks, xs.iter().map(|x| net.confidence(x)).collect()));
        }
        let positive = dist.iter().filter(|w| **w > 0.0).count();
        let mut drawn = [0usize; 4];
        let mut plans = 0;
        let mut aside = 0;
        let levels = if *epochs == 1 { 4 } else { 2 };
        let n_draws = 4 * *epochs;
        for a in assignments(n_draws, levels, usize::MAX) {
            let mut list = init.clone();
            list.extend(a.iter().enumerate().map(|(i, v)| unit((*v as f64 + 0.5 + 0.01 * (i % 4) as f64) / levels as f64)));
            let got = match set.train(list, dist, &s) {
                Ok(c) => c,
                Err(e) => return loc.viol(e),
            };
            loc.trace();
            loc.steps(iters * *epochs);
            let Some((picks, _)) = leads.iter().find(|l| l.1.iter().zip(&got).all(|(a, b)| (a - b).abs() <= 1e-12)) else {
                let near = leads.iter().map(|l| l.1.iter().zip(&got).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max)).fold(f64::MAX, f64::min);
                return loc.viol(format!("draws {a:?}: confidences {got:?} are no result of {iters} steps on a batch of {b} different rows per epoch (nearest {near:.1e})"));
            };
            loc.outcome(picks);
            loc.state(&a);
            plans += 1;
            aside += (picks.len() == 2 && picks[0] != picks[1]) as usize;
            for k in picks {
                for i in &subs[*k] {
                    drawn[*i] += 1;
                    if *b <= positive && dist[*i] == 0.0 {
                        return loc.viol(format!("draws {a:?}: row {i} of weight zero is in a batch of {b} although {positive} rows have weight"));
                    }
                }
                if *b > positive {
                    let missing = (0..4).find(|i| dist[*i] > 0.0 && !subs[*k].contains(i));
                    if let Some(i) = missing {
                        return loc.viol(format!("draws {a:?}: row {i} has weight but a row without was preferred"));
                    }
                }
            }
        }
        loc.max("draw_sequences", plans as f64);
        // Each epoch draws its own batch.
        if *epochs == 2 && *b < positive && *d < 3 {
            loc.check(aside > 0, || format!("none of {plans} sequences of draws gives the two epochs different batches"));
        }
        // Over all sequences of draws the heavier row is chosen at least as often.
        for i in 0..4 {
            for j in 0..4 {
                if dist[i] > 2.0 * dist[j] {
                    loc.check(drawn[i] >= drawn[j], || format!("over all draws row {i} of weight {} is used {} times, row {j} of weight {} is used {} times", dist[i], drawn[i], dist[j], drawn[j]));
                }
                if positive > *b && dist[i] >= 0.2 {
                    loc.check(drawn[i] > 0, || format!("row {i} of weight {} is never used", dist[i]));
                }
            }
        }
    });

    // A batch of one row: how often, over all draws, it is which row.
    let shares: Vec<Vec<f64>> = dists.iter().cloned().chain([vec![0.4, 0.3, 0.2, 0.1], vec![0.1, 0.1, 0.75, 0.05], vec![0.0, 0.6, 0.0, 0.4]]).collect();
    let levels = run.pick(10usize, 18);
    let cases: Vec<usize> = (0..shares.len()).collect();
    run.explore("share", &cases, |d| fmt_v(&shares[*d]), |&d, loc| {
        let Some(order) = order else {
            loc.count("draw_order_unknown");
            return;
        };
        let (inputs, shape) = archs(false).into_iter().find(|a| a.0 == "logistic2").map(|a| (a.1, a.2)).unwrap();
        let cols: Vec<Vec<f64>> = (0..inputs).map(|j| vec![-1.3 + j as f64, 0.4, 1.7, 0.9 * (1.0 - 2.0 * j as f64)]).collect();
        let y = vec![-1.0, 1.0, 1.0, -1.0];
        let s = dense_sample(&cols, &y);
        let xs = rows(&cols);
        let init: Vec<u64> = (0..n_params(inputs, &shape)).map(|i| bits([0.9, -1.4, 0.6][i % 3] + 0.05 * i as f64)).collect();
        let draws: Vec<f64> = init.iter().map(|b| normal(*b)).collect();
        let start = Net::new(inputs, &shape, &draws, order);
        let set = Setup { s: &s, shape: &shape, batch: Some(1), epochs: 1, iters: 3 };
        let rate = info(&set.learner(), "Learning rate");
        let leads: Vec<Vec<f64>> = (0..4)
            .map(|k| {
                let mut net = start.clone();
                (0..3).for_each(|_| net.step(rate, &xs, &y, &[k]));
                xs.iter().map(|x| net.confidence(x)).collect()
            })
            .collect();
        let mut drawn = [0usize; 4];
        let mut plans = 0;
        for a in assignments(4, levels, usize::MAX) {
            let mut list = init.clone();
            // Equal levels are told apart, in no row's favour.
            let turn: usize = a.iter().sum();
            list.extend(a.iter().enumerate().map(|(i, v)| unit((*v as f64 + 0.5 + 0.01 * ((i + turn) % 4) as f64) / levels as f64)));
            let got = match set.train(list, &shares[d], &s) {
                Ok(c) => c,
                Err(e) => return loc.viol(e),
            };
            loc.trace();
            loc.steps(3);
            let Some(k) = leads.iter().position(|l| l.iter().zip(&got).all(|(a, b)| (a - b).abs() <= 1e-12)) else {
                return loc.viol(format!("draws {a:?}: confidences {got:?} are no result of 3 steps on one row"));
            };
            drawn[k] += 1;
            plans += 1;
            loc.state(&a);
            loc.outcome(&k);
        }
        loc.max("draw_sequences", plans as f64);
        for i in 0..4 {
            let share = drawn[i] as f64 / plans as f64;
            loc.max("widest_share_gap", (share - shares[d][i]).abs());
            loc.check((share - shares[d][i]).abs() <= 0.1, || format!("row {i} of weight {} is the batch in {} of {plans} sequences of draws", shares[d][i], drawn[i]));
        }
    });

    // Long training, large inputs, sizes of the batch left to the library.
    let mut cases = vec![];
    for (name, inputs, shape) in archs(true) {
        for n in run.pick(vec![5usize, 40, 130, 300], vec![3, 5, 40, 65, 100, 128, 130, 200, 257, 300]) {
            for scale in [1.0, 30.0, 5000.0] {
                cases.push((name, inputs, shape.clone(), n, scale));
            }
        }
    }
    run.explore("long", &cases, |(n, _, _, m, s)| format!("{n},rows{m},scale{s}"), |(_, inputs, shape, n, scale), loc| {
        let cols: Vec<Vec<f64>> = (0..*inputs).map(|j| (0..*n).map(|i| scale * (((i * (7 + 4 * j) + j) % 13) as f64 / 6.0 - 1.0 + 0.001 * i as f64)).collect()).collect();
        let y: Vec<f64> = (0..*n).map(|i| if cols[0][i] > 0.2 * scale { 1.0 } else { -1.0 }).collect();
        let s = dense_sample(&cols, &y);
        let xs = rows(&cols);
        let p = n_params(*inputs, shape);
        let dist = vec![1.0 / *n as f64; *n];
        let init: Vec<u64> = (0..p).map(|i| bits([0.9, -1.4, 0.6, 2.0][i % 4] + 0.05 * i as f64)).collect();
        let draws: Vec<f64> = init.iter().map(|b| normal(*b)).collect();
        let own = Setup { s: &s, shape, batch: None, epochs: 1, iters: 40 };
        let b = info(&own.learner(), "Mini-batch size");
        loc.check(b >= 1.0 && b <= *n as f64 && b <= 128.0, || format!("the default mini-batch has {b} of {n} rows"));
        match own.train(init.clone(), &dist, &s) {
            Err(e) => return loc.viol(format!("default batch: {e}")),
            Ok(c) => {
                loc.trace();
                if let Some(i) = (0..*n).find(|i| !(c[*i].abs() <= 1.0)) {
                    return loc.viol(format!("row {i} has confidence {} after training", c[i]));
                }
            }
        }
        let full = Setup { s: &s, shape, batch: Some(*n), epochs: 2, iters: if *n > 50 { 30 } else { 150 } };
        let rate = info(&full.learner(), "Learning rate") / *n as f64;
        let got = match full.train(init.clone(), &dist, &s) {
            Err(e) => return loc.viol(e),
            Ok(c) => c,
        };
        loc.trace();
        if let Some(i) = (0..*n).find(|i| !(got[*i].abs() <= 1.0)) {
            return loc.viol(format!("row {i} has confidence {} after training", got[i]));
        }
        let Some(order) = order else { return };
        let mut net = Net::new(*inputs, shape, &draws, order);
        // A twin that starts a little aside tells where rounding decides.
        let mut twin = net.clone();
        twin.0[0].b[0] += 1e-10;
        let all: Vec<usize> = (0..*n).collect();
        for _ in 0..full.epochs * full.iters {
            loc.step();
            if xs.iter().any(|x| net.delicate(x)) {
                loc.count("on_a_kink");
                return;
            }
            net.step(rate, &xs, &y, &all);
            twin.step(rate, &xs, &y, &all);
        }
        if xs.iter().any(|x| !((net.confidence(x) - twin.confidence(x)).abs() < 1e-7)) {
            loc.count("rounding_decides");
            return;
        }
        loc.count("long_compared");
        for i in 0..*n {
            let want = net.confidence(&xs[i]);
            let o = net.eval(&xs[i]);
            if o.len() == 2 && (o[0] - o[1]).abs() < 1e-6 {
                continue;
            }
            loc.max("largest_difference", (got[i] - want).abs());
            if !loc.check((got[i] - want).abs() <= 1e-6, || format!("after {} steps row {i} has confidence {}, gradient descent gives {want}", full.epochs * full.iters, got[i])) {
                return;
            }
        }
    });
    run.rule = "state = (initial parameters, steps) or the sequence of draws that chooses the batches; every random bit of the run comes from the enumerated sequence; transition = one step of the reference gradient descent compared through the confidences of all rows".into();
}
