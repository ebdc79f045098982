//! Uniform driving of every booster of the library through its public API.
use crate::fw::guarded;
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::research::Research;
use std::ops::ControlFlow;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fw {
    Classic,
    ShortStep,
    LineSearch,
    BlendedPairwise,
}

pub const FWS: [Fw; 4] = [Fw::Classic, Fw::ShortStep, Fw::LineSearch, Fw::BlendedPairwise];

impl Fw {
    pub fn lib(&self) -> FWType {
        match self {
            Fw::Classic => FWType::Classic,
            Fw::ShortStep => FWType::ShortStep,
            Fw::LineSearch => FWType::LineSearch,
            Fw::BlendedPairwise => FWType::BlendedPairwise,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Ada,
    AdaV,
    Mada,
    Smooth { kappa: f64, gamma: f64 },
    Lp { nu: f64 },
    Erlp { nu: f64 },
    Cerlp { nu: f64, fw: Fw },
    Mlp { nu: f64, fw: Fw },
    Soft { nu: f64 },
    Total,
}

impl Kind {
    pub fn name(&self) -> String {
        match self {
            Kind::Ada => "ada".into(),
            Kind::AdaV => "adav".into(),
            Kind::Mada => "mada".into(),
            Kind::Smooth { kappa, gamma } => format!("smooth(k{kappa},g{gamma})"),
            Kind::Lp { nu } => format!("lp(nu{nu})"),
            Kind::Erlp { nu } => format!("erlp(nu{nu})"),
            Kind::Cerlp { nu, fw } => format!("cerlp(nu{nu},{fw:?})"),
            Kind::Mlp { nu, fw } => format!("mlp(nu{nu},{fw:?})"),
            Kind::Soft { nu } => format!("soft(nu{nu})"),
            Kind::Total => "total".into(),
        }
    }
    /// Largest probability one example may receive, times the number of examples... as 1/nu.
    pub fn cap(&self) -> f64 {
        match self {
            Kind::Lp { nu } | Kind::Erlp { nu } | Kind::Cerlp { nu, .. } | Kind::Mlp { nu, .. } | Kind::Soft { nu } => 1.0 / nu,
            _ => 1.0,
        }
    }
    /// The first answer must have a larger edge than this for the booster to start at all.
    pub fn needs_edge(&self, tol: f64) -> f64 {
        match self {
            Kind::Cerlp { .. } => tol / 2.0,
            Kind::Erlp { .. } => -1.0 + tol / 2.0,
            _ => f64::NEG_INFINITY,
        }
    }
    pub fn nu(&self) -> f64 {
        1.0 / self.cap()
    }
}

pub type Wm = WeightedMajority<TableH>;

pub trait Visit {
    type Out;
    fn go<B>(self, b: B) -> Self::Out
    where
        B: Booster<TableH, Output = Wm> + Research<Output = Wm>;
}

/// Build the booster `kind` over `sample` and hand it to the visitor.
pub fn with<V: Visit>(kind: Kind, sample: &Sample, tol: Option<f64>, v: V) -> V::Out {
    macro_rules! t {
        ($b:expr) => {{
            let b = $b;
            match tol {
                Some(t) => v.go(b.tolerance(t)),
                None => v.go(b),
            }
        }};
    }
    match kind {
        Kind::Ada => t!(AdaBoost::init(sample)),
        Kind::AdaV => t!(AdaBoostV::init(sample)),
        Kind::Mada => t!(MadaBoost::init(sample)),
        Kind::Smooth { kappa, gamma } => v.go(SmoothBoost::init(sample).tolerance(kappa).gamma(gamma)),
        Kind::Lp { nu } => t!(LPBoost::init(sample).nu(nu)),
        Kind::Erlp { nu } => t!(ERLPBoost::init(sample).nu(nu)),
        Kind::Cerlp { nu, fw } => t!(CERLPBoost::init(sample).nu(nu).fw_type(fw.lib())),
        Kind::Mlp { nu, fw } => t!(MLPBoost::init(sample).nu(nu).frank_wolfe(fw.lib())),
        Kind::Soft { nu } => t!(SoftBoost::init(sample).nu(nu)),
        Kind::Total => t!(TotalBoost::init(sample)),
    }
}

/// Everything observable of one run.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// Distributions shown to the weak learner, in order.
    pub dists: Vec<Vec<f64>>,
    /// Index of the hypothesis answered, in order.
    pub picks: Vec<usize>,
    /// `boost` calls made.
    pub calls: usize,
    pub broke: Option<usize>,
    /// current_hypothesis after each call (weights, ids), when asked for.
    pub current: Vec<Result<(Vec<f64>, Vec<usize>), String>>,
    /// Final output (weights, ids of hypotheses); Err = panic.
    pub out: Option<Result<(Vec<f64>, Vec<usize>), String>>,
    /// Panic in preprocess / boost.
    pub panic: Option<String>,
}

pub trait Logged: WeakLearner<Hypothesis = TableH> {
    fn dists(&self) -> Vec<Vec<f64>>;
    fn picks(&self) -> Vec<usize>;
    /// Start over.
    fn forget(&self);
    /// The combination visible after the last round (weights, ids).
    fn seen(&self, _current: &(Vec<f64>, Vec<usize>)) {}
}

impl Logged for Scripted<'_, TableH> {
    fn dists(&self) -> Vec<Vec<f64>> {
        self.log.borrow().clone()
    }
    fn picks(&self) -> Vec<usize> {
        (0..self.log.borrow().len())
            .map(|k| *self.script.get(k).or(self.script.last()).unwrap())
            .collect()
    }
    fn forget(&self) {
        self.log.borrow_mut().clear();
    }
}

impl Logged for MaxEdge<'_> {
    fn forget(&self) {
        self.log.borrow_mut().clear();
        self.picks.borrow_mut().clear();
    }
    fn dists(&self) -> Vec<Vec<f64>> {
        self.log.borrow().clone()
    }
    fn picks(&self) -> Vec<usize> {
        self.picks.borrow().clone()
    }
}

pub fn wm_parts(w: Wm) -> (Vec<f64>, Vec<usize>) {
    let (w, h) = w.decompose();
    (w, h.iter().map(|h| h.id).collect())
}

pub struct Stepwise<'w, W> {
    pub wl: &'w W,
    /// Stop driving after this many `boost` calls.
    pub max_calls: usize,
    pub want_current: bool,
    pub want_out: bool,
}

impl<W: Logged> Visit for Stepwise<'_, W> {
    type Out = Trace;
    fn go<B>(self, mut b: B) -> Trace
    where
        B: Booster<TableH, Output = Wm> + Research<Output = Wm>,
    {
        let mut t = Trace::default();
        if let Err(e) = guarded(|| b.preprocess(self.wl)) {
            t.panic = Some(e);
            return t;
        }
        for it in 1..=self.max_calls {
            t.calls = it;
            match guarded(|| b.boost(self.wl, it)) {
                Err(e) => {
                    t.panic = Some(e);
                    break;
                }
                Ok(ControlFlow::Break(k)) => {
                    t.broke = Some(k);
                    if self.want_current {
                        t.current.push(guarded(|| wm_parts(b.current_hypothesis())));
                    }
                    break;
                }
                Ok(ControlFlow::Continue(())) => {
                    if self.want_current {
                        let now = guarded(|| wm_parts(b.current_hypothesis()));
                        if let Ok(now) = &now {
                            self.wl.seen(now);
                        }
                        t.current.push(now);
                    }
                }
            }
        }
        t.dists = self.wl.dists();
        t.picks = self.wl.picks();
        if t.panic.is_none() && self.want_out {
            t.out = Some(guarded(|| wm_parts(b.postprocess(self.wl))));
        }
        t
    }
}

pub fn drive<W: Logged>(kind: Kind, sample: &Sample, tol: Option<f64>, wl: &W, max_calls: usize) -> Trace {
    with(kind, sample, tol, Stepwise { wl, max_calls, want_current: false, want_out: true })
}

/// Full `run()`.
pub struct FullRun<'w, W> {
    pub wl: &'w W,
}

impl<W: Logged> Visit for FullRun<'_, W> {
    type Out = Result<(Vec<f64>, Vec<usize>), String>;
    fn go<B>(self, mut b: B) -> Self::Out
    where
        B: Booster<TableH, Output = Wm> + Research<Output = Wm>,
    {
        guarded(|| wm_parts(b.run(self.wl)))
    }
}

/// Table menu: `confs[j]` becomes hypothesis j.
pub fn menu(confs: &[Vec<f64>]) -> Vec<TableH> {
    confs.iter().enumerate().map(|(j, c)| TableH::new(j, c.clone())).collect()
}

pub fn margins(y: &[f64], h: &[f64]) -> Vec<f64> {
    y.iter().zip(h).map(|(a, b)| a * b).collect()
}

/// Margins of a weighted combination.
pub fn wmargins(y: &[f64], w: &[f64], ids: &[usize], menu: &[TableH]) -> Vec<f64> {
    (0..y.len())
        .map(|i| y[i] * w.iter().zip(ids).map(|(w, j)| w * menu[*j].conf[i]).sum::<f64>())
        .collect()
}

/// Every kind of booster at the capping parameters of interest for m examples.
pub fn all_kinds(m: usize, nus: &[f64]) -> Vec<Kind> {
    let mut v = vec![Kind::Ada, Kind::AdaV, Kind::Mada, Kind::Smooth { kappa: 0.5, gamma: 0.4 }, Kind::Smooth { kappa: 0.3, gamma: 0.2 }, Kind::Total];
    for &nu in nus {
        if nu > m as f64 {
            continue;
        }
        v.push(Kind::Lp { nu });
        v.push(Kind::Erlp { nu });
        v.push(Kind::Soft { nu });
        for fw in FWS {
            v.push(Kind::Cerlp { nu, fw });
            v.push(Kind::Mlp { nu, fw });
        }
    }
    v
}

/// Depth-first over all answer sequences of length `depth` from a menu of `k`.
/// `f` returns how many answers the run consumed before it ended for good
/// (`depth` if it was still going); scripts that only differ after that are skipped.
pub fn each_script(k: usize, depth: usize, first: Option<usize>, mut f: impl FnMut(&[usize]) -> usize) {
    let mut s = vec![0; depth];
    if let Some(a) = first {
        s[0] = a;
    }
    loop {
        let used = f(&s).clamp(1, depth);
        // Next script that differs within the first `used` answers.
        let mut i = used;
        loop {
            if i == 0 || (first.is_some() && i == 1) {
                return;
            }
            i -= 1;
            if s[i] + 1 < k {
                s[i] += 1;
                for x in s[i + 1..].iter_mut() {
                    *x = 0;
                }
                break;
            }
        }
    }
}
