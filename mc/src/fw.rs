//! Exploration framework: parallel, deterministic enumeration of cases with
//! counters, violations, replay, known findings and evidence.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const CASE_TIMEOUT: Duration = Duration::from_secs(150);
pub const ENOUGH: Duration = Duration::from_secs(120);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

static OUT_FD: AtomicUsize = AtomicUsize::new(1);

/// The library prints while it works; keep its output away from ours.
pub fn silence() {
    if std::env::var_os("MC_NOISY").is_some() {
        return;
    }
    unsafe {
        let saved = dup(1);
        OUT_FD.store(saved as usize, Ordering::SeqCst);
        let null = open(b"/dev/null\0".as_ptr(), 1);
        if null >= 0 {
            dup2(null, 1);
            dup2(null, 2);
        }
    }
}

pub fn say(line: &str) {
    let s = format!("{line}\n");
    unsafe {
        write(OUT_FD.load(Ordering::SeqCst) as i32, s.as_ptr(), s.len());
    }
}

/// A harness problem: neither "held" nor "violated".
pub fn harness_error(msg: &str) -> ! {
    say(&format!("HARNESS-ERROR {msg}"));
    std::process::exit(3);
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs code of the system under test; a panic becomes `Err("location: message")`.
/// That includes a panic of a weak learner or hypothesis of ours which the system
/// under test called with something it must never pass (a short weight vector, ...).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            drop(e);
            // Line numbers are not part of the message: they move with edits.
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("").to_string();
            let msg = msg.lines().next().unwrap_or("").to_string();
            Err(format!("panicked in {file}: {msg}"))
        }
    }
}

/// A panic of an oracle on what the system under test returned (too few items, say),
/// not one of files or threads.
fn malformed(msg: &str) -> bool {
    ["index out of bounds", "range start index", "range end index", "called `Option::unwrap()` on a `None`", "attempt to subtract with overflow", "slice index starts"].iter().any(|m| msg.starts_with(m))
}

fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/mc/src/")
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: usize,
    pub key: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Local {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Value>,
    case: usize,
    key: String,
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Canonical integer image of a float vector (rounded at 1e-9).
pub fn canon(v: &[f64]) -> Vec<i64> {
    v.iter().map(|x| if x.is_finite() { (x * 1e9).round() as i64 } else { i64::MIN }).collect()
}

impl Local {
    pub fn state<T: Hash>(&mut self, t: &T) -> bool {
        self.states.insert(hash_of(t))
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// One complete execution of the real code compared with the oracle.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        self.outcomes.insert(hash_of(t));
    }
    pub fn count(&mut self, name: &str) {
        *self.counters.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn max(&mut self, name: &str, v: f64) {
        let e = self.maxima.entry(name.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
    pub fn viol(&mut self, msg: impl Into<String>) {
        let key = self.key.clone();
        self.viol_at(key, msg);
    }
    /// Violation at a finer key than the case's own.
    pub fn viol_at(&mut self, key: String, msg: impl Into<String>) {
        self.count("violations_raw");
        if self.violations.len() < 200 {
            self.violations.push(Violation { case: self.case, key, msg: msg.into() });
        }
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.count("assertions");
        if !ok {
            self.viol(msg());
        }
        ok
    }
    pub fn key(&self) -> &str {
        &self.key
    }
}

#[derive(Clone)]
pub struct Known {
    pub key: String,
    pub what: String,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<String>,
    pub root: PathBuf,
    pub known: Vec<Known>,
    pub start: Instant,
    pub total: Local,
    pub n_cases: usize,
    pub assumptions: Vec<String>,
    pub extra: Map<String, Value>,
    pub rule: String,
    capped: bool,
    /// A case the harness itself stumbled over.
    fault: Option<String>,
}

type Watch = Arc<Mutex<Vec<Option<(Instant, String)>>>>;

impl Run {
    pub fn new(id: &str, tier: Tier, seed: u64, replay: Option<String>, root: PathBuf) -> Self {
        let known = load_known(&root, id);
        Run {
            id: id.to_string(),
            tier,
            seed,
            replay,
            root,
            known,
            start: Instant::now(),
            total: Local::default(),
            n_cases: 0,
            assumptions: vec![],
            extra: Map::new(),
            rule: String::new(),
            fault: None,
            capped: false,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn set(&mut self, k: &str, v: Value) {
        self.extra.insert(k.to_string(), v);
    }

    /// Explore every case. `f` runs the real code and reports to `Local`.
    pub fn explore<T: Sync>(
        &mut self,
        group: &str,
        cases: &[T],
        key: impl Fn(&T) -> String + Sync,
        f: impl Fn(&T, &mut Local) + Sync,
    ) {
        let n_threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let next = AtomicUsize::new(0);
        let base = self.n_cases;
        let watch: Watch = Arc::new(Mutex::new(vec![None; n_threads]));
        let done = AtomicBool::new(false);
        let ran = AtomicU64::new(0);
        let results: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let harness_fault: Mutex<Option<String>> = Mutex::new(None);
        let this: &Run = self;
        let hung: Mutex<Option<String>> = Mutex::new(None);
        let active = AtomicUsize::new(n_threads);
        let found = AtomicBool::new(!self.total.violations.is_empty() && self.known.is_empty());
        std::thread::scope(|s| {
            for t in 0..n_threads {
                let (next, watch, results, key, f, ran, fault, active, found) =
                    (&next, &watch, &results, &key, &f, &ran, &harness_fault, &active, &found);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut loc = Local::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases.len() {
                            break;
                        }
                        // Once there is a violation to report, do not spend for ever on more.
                        if found.load(Ordering::SeqCst) && this.start.elapsed() > ENOUGH {
                            break;
                        }
                        let k = format!("{group}:{}", key(&cases[i]));
                        if let Some(r) = &this.replay {
                            // A finer violation key extends the case key with "#...".
                            if r != &k && !r.starts_with(&format!("{k}#")) {
                                continue;
                            }
                        }
                        ran.fetch_add(1, Ordering::SeqCst);
                        watch.lock().unwrap()[t] = Some((Instant::now(), k.clone()));
                        loc.case = base + i;
                        loc.key = k;
                        default_schedule();
                        let r = panic::catch_unwind(AssertUnwindSafe(|| f(&cases[i], &mut loc)));
                        default_schedule();
                        if r.is_err() {
                            let (l, m) =
                                LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                            if is_harness_location(&l) && malformed(&m) {
                                // An answer of a shape no oracle expects.
                                let m = m.lines().next().unwrap_or("").to_string();
                                loc.viol(format!("an answer the check cannot make sense of: {m}"));
                            } else if is_harness_location(&l) {
                                *fault.lock().unwrap() =
                                    Some(format!("case {}: {l}: {m}", loc.key));
                            } else {
                                let file =
                                    l.rsplit_once(':').map(|x| x.0).unwrap_or("").to_string();
                                let m = m.lines().next().unwrap_or("").to_string();
                                loc.viol(format!("panicked in {file}: {m}"));
                            }
                        }
                        watch.lock().unwrap()[t] = None;
                        if !loc.violations.is_empty() && this.known.is_empty() {
                            found.store(true, Ordering::SeqCst);
                        }
                    }
                    rayon_core::mc::install(None);
                    results.lock().unwrap().push(loc);
                    active.fetch_sub(1, Ordering::SeqCst);
                }).unwrap();
            }
            // Watchdog on this thread.
            loop {
                if active.load(Ordering::SeqCst) == 0 {
                    done.store(true, Ordering::SeqCst);
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
                let w = watch.lock().unwrap();
                for e in w.iter().flatten() {
                    if e.0.elapsed() > CASE_TIMEOUT {
                        *hung.lock().unwrap() = Some(e.1.clone());
                    }
                }
                drop(w);
                let h = hung.lock().unwrap().clone();
                if let Some(k) = h {
                    // Cannot unwind a stuck thread: report and leave the process.
                    this.hang_exit(&k);
                }
            }
        });
        let fault = harness_fault.into_inner().unwrap();
        if self.fault.is_none() {
            self.fault = fault;
        }
        for l in results.into_inner().unwrap() {
            self.merge(l);
        }
        self.n_cases += cases.len();
        let r = ran.load(Ordering::SeqCst);
        *self.total.counters.entry(format!("cases[{group}]")).or_insert(0) += r;
    }

    fn merge(&mut self, l: Local) {
        self.total.states.extend(l.states);
        self.total.outcomes.extend(l.outcomes);
        self.total.transitions += l.transitions;
        self.total.traces += l.traces;
        for (k, v) in l.counters {
            *self.total.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.maxima {
            self.total.max(&k, v);
        }
        self.total.violations.extend(l.violations);
        for s in l.samples {
            if self.total.samples.len() < 6 {
                self.total.samples.push(s);
            }
        }
    }

    fn hang_exit(&self, key: &str) -> ! {
        let known = self.known.iter().find(|k| k.key == key);
        let msg = format!(
            "did not return within {} s (every case normally takes milliseconds)",
            CASE_TIMEOUT.as_secs()
        );
        let v = Violation { case: 0, key: key.to_string(), msg };
        let p = self.write_replay(0, &v);
        self.write_evidence(1);
        if known.is_some() {
            harness_error(&format!("known finding hangs: {key}"));
        }
        say(&format!("  {}: {}", v.key, v.msg));
        say(&format!("VIOLATION property={} replay={}", self.id, p));
        std::process::exit(1);
    }

    fn write_replay(&self, i: usize, v: &Violation) -> String {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, i));
        let body = json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "key": v.key,
            "message": v.msg,
            "how_to_replay": format!("/verif/check {} --replay {}", self.id, path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        path.display().to_string()
    }

    pub fn cap_hit(&mut self, what: &str) {
        self.capped = true;
        self.set("cap_hit", json!(what));
    }

    fn write_evidence(&self, violations: usize) {
        if self.replay.is_some() {
            return;
        }
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let mut cov = Map::new();
        cov.insert("states".into(), json!(self.total.states.len()));
        cov.insert("transitions".into(), json!(self.total.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(self.total.traces));
        cov.insert("distinct_outcomes".into(), json!(self.total.outcomes.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("exhaustive".into(), json!(!self.capped));
        cov.insert("counters".into(), json!(self.total.counters));
        if !self.total.maxima.is_empty() {
            cov.insert("observed_maxima".into(), json!(self.total.maxima));
        }
        cov.insert("samples".into(), json!(self.total.samples));
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": violations,
        });
        let p = dir.join(format!("{}.json", self.id));
        if std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            harness_error("cannot write the evidence file");
        }
    }

    /// Runs the whole check; a panic between the groups of cases is one of the library
    /// (a violation) or of the harness (no answer, unless violations were found before).
    pub fn whole(&mut self, f: impl FnOnce(&mut Run)) {
        if panic::catch_unwind(AssertUnwindSafe(|| f(self))).is_err() {
            let (l, m) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_location(&l) {
                self.fault.get_or_insert(format!("{l}: {m}"));
            } else {
                let file = l.rsplit_once(':').map(|x| x.0).unwrap_or("").to_string();
                let m = m.lines().next().unwrap_or("").to_string();
                self.total.violations.push(Violation { case: self.n_cases, key: "preparing".into(), msg: format!("panicked in {file}: {m}") });
                self.total.traces += 1;
            }
        }
    }

    pub fn finish(mut self) -> i32 {
        let mut vs = std::mem::take(&mut self.total.violations);
        vs.sort_by(|a, b| (a.case, &a.key, &a.msg).cmp(&(b.case, &b.key, &b.msg)));
        let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
        let mut fresh = vec![];
        for v in vs {
            match self.known.iter().find(|k| k.key == v.key) {
                Some(k) => {
                    known_hit.insert(k.key.clone(), k.what.clone());
                }
                None => fresh.push(v),
            }
        }
        if self.replay.is_none() && self.total.traces == 0 {
            harness_error("nothing was explored");
        }
        // What was found before the harness stumbled stands; otherwise there is no answer.
        if let (Some(m), true) = (&self.fault, fresh.is_empty()) {
            harness_error(m);
        }
        self.write_evidence(fresh.len());
        for (k, what) in &known_hit {
            say(&format!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k));
        }
        if self.replay.is_some() && fresh.is_empty() && self.total.counters.iter().filter(|(k, _)| k.starts_with("cases[")).all(|(_, v)| *v == 0) {
            harness_error("the replay key matches no case of this tier");
        }
        if fresh.is_empty() {
            say(&format!(
                "OK property={} cases={} states={} transitions={} traces={} outcomes={} wall={:.1}s",
                self.id,
                self.n_cases,
                self.total.states.len(),
                self.total.transitions,
                self.total.traces,
                self.total.outcomes.len(),
                self.start.elapsed().as_secs_f64()
            ));
            return 0;
        }
        let show: usize = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        for v in fresh.iter().take(show) {
            say(&format!("  {}: {}", v.key, v.msg));
        }
        say(&format!("  ({} violations recorded)", fresh.len()));
        let p = self.write_replay(0, &fresh[0]);
        say(&format!("VIOLATION property={} replay={}", self.id, p));
        1
    }
}

/// Every worker executes the library's data-parallel code inline, on its own
/// thread, under one fixed schedule (4 workers, nothing stolen).
pub fn default_schedule() {
    rayon_core::mc::install(Some(rayon_core::mc::Ctrl {
        threads: 4,
        injected: true,
        plain: true,
        ..Default::default()
    }));
}

fn load_known(root: &PathBuf, id: &str) -> Vec<Known> {
    let p = root.join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => harness_error(&format!("known_findings.json: {e}")),
    };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| Known {
                    key: f["key"].as_str().unwrap_or("").to_string(),
                    what: f["what"].as_str().unwrap_or("").to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}
