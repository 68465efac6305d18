//! Running checks: seeded generation, tallying, shrinking, replay files, evidence.

use proptest::{
    strategy::Strategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::{
    any::Any,
    cell::RefCell,
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

/// Why a case failed.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is violated
    Violation(String),
    /// The failure has the exact shape of a finding; it counts as one only if the finding is listed
    Known(&'static str, String),
}

impl Fail {
    /// Adds where it happened
    pub fn within(self, place: &str) -> Self {
        match self {
            Fail::Violation(m) => Fail::Violation(format!("{place}: {m}")),
            Fail::Known(s, m) => Fail::Known(s, format!("{place}: {m}")),
        }
    }
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}

impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Violation(s.to_string())
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::ctx::Fail::Violation(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($t:tt)*) => { if !$cond { $crate::fail!($($t)*) } };
}

/// What a single case reports about itself
#[derive(Default)]
pub struct Tally {
    nontrivial: bool,
    classes: Vec<String>,
}

impl Tally {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Inner {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    nontrivial_enumerated: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    subs: Vec<Value>,
    rules: Vec<String>,
    violations: Vec<(String, String)>,
    known_hits: BTreeMap<String, (u64, String)>,
    assumptions: Vec<String>,
    extra: BTreeMap<String, Value>,
    all_exhaustive: Option<bool>,
}

struct Slot {
    started: Instant,
    tid: u32,
    sub: String,
    case: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    replay: Option<(String, Value)>,
    replayed: AtomicBool,
    known: BTreeMap<String, String>,
    inner: Mutex<Inner>,
    slots: Arc<Vec<Mutex<Option<Slot>>>>,
    start: Instant,
    threads: usize,
    level: &'static str,
    case_limit: Arc<AtomicU64>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn tid() -> u32 {
    thread_local! {
        static TID: u32 = std::fs::read_link("/proc/thread-self")
            .ok()
            .and_then(|p| p.file_name()?.to_str()?.parse().ok())
            .unwrap_or(0);
    }
    TID.with(|t| *t)
}

fn cpu_seconds(tid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    Some(s.split_whitespace().next()?.parse::<u64>().ok()? as f64 / 1e9)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
        if std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-string panic)".into()
    }
}

/// Runs `f`, turning a panic into an error text
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn hash64(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}... ({} bytes)", &s[..end], s.len()))
    }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, root: PathBuf, replay: Option<(String, Value)>) -> Self {
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(root.join("known-findings.json")) {
            let v: Value = serde_json::from_str(&text).expect("known-findings.json is valid JSON");
            for f in v["findings"].as_array().into_iter().flatten() {
                if f["property"] == id {
                    known.insert(
                        f["signature"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap().to_string(),
                    );
                }
            }
        }
        let slots: Arc<Vec<Mutex<Option<Slot>>>> =
            Arc::new((0..64).map(|_| Mutex::new(None)).collect());
        let ctx = Ctx {
            id: id.to_string(),
            tier,
            seed,
            root,
            replay,
            replayed: AtomicBool::new(false),
            known,
            inner: Mutex::new(Inner::default()),
            slots,
            start: Instant::now(),
            threads,
            level: "exploration",
            case_limit: Arc::new(AtomicU64::new(100)),
        };
        ctx.spawn_watchdog();
        ctx
    }

    /// A case that uses minutes of processor time where it normally takes milliseconds does not
    /// finish: that is reported as such. Waiting (a stalled machine) does not count.
    fn spawn_watchdog(&self) {
        let slots = self.slots.clone();
        let id = self.id.clone();
        let root = self.root.clone();
        let seed = self.seed;
        let limit = self.case_limit.clone();
        std::thread::spawn(move || {
            let mut first: BTreeMap<usize, (Instant, f64)> = BTreeMap::new();
            loop {
                std::thread::sleep(Duration::from_secs(2));
                for (i, slot) in slots.iter().enumerate() {
                    let guard = slot.lock().unwrap();
                    let Some(s) = guard.as_ref() else {
                        first.remove(&i);
                        continue;
                    };
                    let Some(cpu) = cpu_seconds(s.tid) else { continue };
                    match first.get(&i) {
                        Some((started, before)) if *started == s.started => {
                            if cpu - before > limit.load(Ordering::Relaxed) as f64 {
                                let case = serde_json::from_str(&s.case).unwrap_or(Value::Null);
                                let path = write_replay(&root, &id, &s.sub, seed, &case, "the case does not finish");
                                println!("[{}] the case does not finish: {}", s.sub, clip(case));
                                println!("VIOLATION property={id} replay={path}");
                                let _ = std::io::stdout().flush();
                                std::process::exit(1);
                            }
                        }
                        _ => {
                            first.insert(i, (s.started, cpu));
                        }
                    }
                }
            }
        });
    }

    /// Processor seconds after which a single case counts as never finishing
    pub fn case_limit(&self, seconds: u64) {
        self.case_limit.store(seconds, Ordering::Relaxed);
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Scales a number of cases by the tier
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            Tier::Quick => quick * self.scale(),
            Tier::Thorough => thorough,
        }
    }

    /// Cheap checks draw more in the quick tier
    fn scale(&self) -> u32 {
        match self.id.as_str() {
            "C15" | "C16" | "C17" | "C19" => 1,
            "C02" | "C03" | "C18" | "C26" | "C27" => 3,
            _ => 8,
        }
    }

    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rules.push(s.to_string());
    }

    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.to_string());
    }

    pub fn extra(&self, k: &str, v: Value) {
        self.inner.lock().unwrap().extra.insert(k.to_string(), v);
    }

    pub fn threads(&self) -> usize {
        self.threads
    }

    fn seed_for(&self, name: &str, shard: usize) -> [u8; 32] {
        let mut out = [0u8; 32];
        for i in 0..4u64 {
            let h = hash64(&(self.seed, &self.id, name, shard as u64, i));
            out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
        }
        out
    }

    /// A 64 bit seed derived from the run seed and a label
    pub fn seed_u64(&self, name: &str) -> u64 {
        hash64(&(self.seed, &self.id, name))
    }

    /// Whether anything else than replaying the given sub-check should be skipped
    pub fn skip(&self, name: &str) -> bool {
        matches!(&self.replay, Some((sub, _)) if sub != name)
    }

    /// The case to replay, for sub-checks that go through their cases by themselves
    pub fn replay_case(&self, name: &str) -> Option<Value> {
        let (sub, case) = self.replay.as_ref()?;
        if sub != name {
            return None;
        }
        self.replayed.store(true, Ordering::Relaxed);
        self.inner.lock().unwrap().evaluations += 1;
        Some(case.clone())
    }

    pub fn failed(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }

    pub fn violation(&self, sub: &str, case: Value, msg: &str) {
        let path = write_replay(&self.root, &self.id, sub, self.seed, &case, msg);
        self.inner
            .lock()
            .unwrap()
            .violations
            .push((path, format!("[{sub}] {msg}\n  case: {}", clip(case))));
    }

    fn known(&self, sig: &str, msg: &str) -> bool {
        if !self.known.contains_key(sig) {
            return false;
        }
        let mut inner = self.inner.lock().unwrap();
        let e = inner.known_hits.entry(sig.to_string()).or_insert((0, msg.to_string()));
        e.0 += 1;
        true
    }

    fn judge(&self, r: Result<Res, String>) -> Result<(), String> {
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(Fail::Violation(m))) => Err(m),
            Ok(Err(Fail::Known(sig, m))) => {
                if self.known(sig, &m) {
                    Ok(())
                } else {
                    Err(m)
                }
            }
            Err(p) => Err(p),
        }
    }

    /// Property over random cases of a strategy. `test` sees each case and tallies it.
    pub fn prop<S, F>(&self, name: &str, cases: u32, mk: impl Fn() -> S + Sync, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
        F: Fn(&S::Value, &mut Tally) -> Res + Sync,
    {
        self.prop_on(self.threads, name, cases, mk, test)
    }

    /// The same, one case after the other
    pub fn prop_serial<S, F>(&self, name: &str, cases: u32, mk: impl Fn() -> S + Sync, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
        F: Fn(&S::Value, &mut Tally) -> Res + Sync,
    {
        self.prop_on(1, name, cases, mk, test)
    }

    fn prop_on<S, F>(&self, threads: usize, name: &str, cases: u32, mk: impl Fn() -> S + Sync, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
        F: Fn(&S::Value, &mut Tally) -> Res + Sync,
    {
        if let Some((sub, case)) = &self.replay {
            if sub == name {
                self.replayed.store(true, Ordering::Relaxed);
                let v: S::Value = serde_json::from_value(case.clone()).expect("replay case fits");
                let mut t = Tally::default();
                let r = self.judge(no_panic(|| test(&v, &mut t)));
                if let Err(m) = r {
                    self.violation(name, case.clone(), &m);
                }
                self.inner.lock().unwrap().evaluations += 1;
            }
            return;
        }
        let t0 = Instant::now();
        let shards = threads.min(cases.max(1) as usize);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, Value, String)>> = Mutex::new(vec![]);
        let evals = AtomicU64::new(0);
        let nontriv = AtomicU64::new(0);
        std::thread::scope(|scope| {
            for shard in 0..shards {
                let (stop, results, mk, test, evals, nontriv) =
                    (&stop, &results, &mk, &test, &evals, &nontriv);
                let body = move || {
                    let my_cases = cases / shards as u32 + u32::from((shard as u32) < cases % shards as u32);
                    let config = Config {
                        cases: my_cases,
                        max_shrink_iters: 60_000,
                        max_shrink_time: 60_000,
                        failure_persistence: None,
                        max_global_rejects: 1 << 24,
                        max_local_rejects: 1 << 24,
                        verbose: 0,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &self.seed_for(name, shard));
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let failing = std::cell::Cell::new(false);
                    let local: RefCell<(u64, HashSet<u64>, BTreeMap<String, u64>, Vec<Value>)> =
                        RefCell::new(Default::default());
                    let last_msg = RefCell::new(String::new());
                    let outcome = runner.run(&mk(), |v| {
                        if !failing.get() && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        let text = serde_json::to_string(&v).unwrap();
                        *self.slots[shard].lock().unwrap() = Some(Slot {
                            started: Instant::now(),
                            tid: tid(),
                            sub: name.to_string(),
                            case: text.clone(),
                        });
                        let mut t = Tally::default();
                        let r = self.judge(no_panic(|| test(&v, &mut t)));
                        *self.slots[shard].lock().unwrap() = None;
                        if !failing.get() {
                            let mut l = local.borrow_mut();
                            l.0 += 1;
                            if t.nontrivial {
                                let new = l.1.insert(hash64(&(name, &text)));
                                if new && l.3.len() < 2 && text.len() > 8 && l.0 > 10 {
                                    let v: Value = serde_json::from_str(&text).unwrap();
                                    l.3.push(v);
                                }
                            }
                            for c in t.classes {
                                *l.2.entry(c).or_insert(0) += 1;
                            }
                        }
                        r.map_err(|m| {
                            failing.set(true);
                            *last_msg.borrow_mut() = m.clone();
                            TestCaseError::fail(m)
                        })
                    });
                    let l = local.into_inner();
                    evals.fetch_add(l.0, Ordering::Relaxed);
                    nontriv.fetch_add(l.1.len() as u64, Ordering::Relaxed);
                    {
                        let mut inner = self.inner.lock().unwrap();
                        inner.evaluations += l.0;
                        inner.nontrivial.extend(l.1);
                        for (k, n) in l.2 {
                            *inner.classes.entry(format!("{name}/{k}")).or_insert(0) += n;
                        }
                        for v in l.3 {
                            let already = inner.samples.iter().filter(|s| s["sub"] == name).count();
                            if already < 2 {
                                inner.samples.push(json!({"sub": name, "case": clip(v)}));
                            }
                        }
                    }
                    match outcome {
                        Ok(()) => {}
                        Err(TestError::Fail(_, v)) => {
                            stop.store(true, Ordering::Relaxed);
                            // the message of the minimal case
                            let mut t = Tally::default();
                            let m = self
                                .judge(no_panic(|| test(&v, &mut t)))
                                .err()
                                .unwrap_or_else(|| last_msg.borrow().clone());
                            results.lock().unwrap().push((shard, serde_json::to_value(&v).unwrap(), m));
                        }
                        Err(TestError::Abort(r)) => {
                            eprintln!("check broken: {name}: generation aborted: {r}");
                            std::process::exit(3);
                        }
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, body).unwrap();
            }
        });
        let mut r = results.into_inner().unwrap();
        r.sort_by_key(|(s, v, _)| (v.to_string().len(), *s));
        if let Some((_, v, m)) = r.into_iter().next() {
            self.violation(name, v, &m);
        }
        let mut inner = self.inner.lock().unwrap();
        inner.all_exhaustive = Some(false);
        inner.subs.push(json!({"sub": name, "kind": "random", "evaluations": evals.load(Ordering::Relaxed),
            "distinct_nontrivial": nontriv.load(Ordering::Relaxed),
            "seconds": (t0.elapsed().as_secs_f64()*100.0).round()/100.0}));
    }

    /// Runs the test on every case of a finite list (smallest cases first), in parallel.
    pub fn all<T, F>(&self, name: &str, cases: Vec<T>, test: F)
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Sync,
        F: Fn(&T, &mut Tally) -> Res + Sync,
    {
        if let Some((sub, case)) = &self.replay {
            if sub == name {
                self.replayed.store(true, Ordering::Relaxed);
                let v: T = serde_json::from_value(case.clone()).expect("replay case fits");
                let mut t = Tally::default();
                if let Err(m) = self.judge(no_panic(|| test(&v, &mut t))) {
                    self.violation(name, case.clone(), &m);
                }
                self.inner.lock().unwrap().evaluations += 1;
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let first_fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk = (cases.len() / (self.threads * 8)).clamp(1, 4096) as u64;
        let nontriv = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let first_nontrivial = AtomicU64::new(u64::MAX);
        std::thread::scope(|scope| {
            for shard in 0..self.threads {
                let (next, first_fail, cases, test, nontriv, done, first_nontrivial) =
                    (&next, &first_fail, &cases, &test, &nontriv, &done, &first_nontrivial);
                let body = move || {
                    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= cases.len() as u64 || first_fail.lock().unwrap().as_ref().is_some_and(|f| f.0 < from) {
                            break;
                        }
                        for i in from..(from + chunk).min(cases.len() as u64) {
                            let case = &cases[i as usize];
                            *self.slots[shard].lock().unwrap() = Some(Slot {
                                started: Instant::now(),
                                tid: tid(),
                                sub: name.to_string(),
                                case: if cases.len() < 100_000 {
                                    serde_json::to_string(case).unwrap()
                                } else {
                                    format!("\"case {i}\"")
                                },
                            });
                            let mut t = Tally::default();
                            let r = self.judge(no_panic(|| test(case, &mut t)));
                            *self.slots[shard].lock().unwrap() = None;
                            done.fetch_add(1, Ordering::Relaxed);
                            if t.nontrivial {
                                nontriv.fetch_add(1, Ordering::Relaxed);
                                first_nontrivial.fetch_min(i, Ordering::Relaxed);
                            }
                            for c in t.classes {
                                *classes.entry(c).or_insert(0) += 1;
                            }
                            if let Err(m) = r {
                                let mut f = first_fail.lock().unwrap();
                                if f.as_ref().is_none_or(|(j, _)| i < *j) {
                                    *f = Some((i, m));
                                }
                                break;
                            }
                        }
                    }
                    let mut inner = self.inner.lock().unwrap();
                    for (k, n) in classes {
                        *inner.classes.entry(format!("{name}/{k}")).or_insert(0) += n;
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, body).unwrap();
            }
        });
        let ff = first_fail.into_inner().unwrap();
        let complete = ff.is_none();
        if let Some((i, m)) = ff {
            self.violation(name, serde_json::to_value(&cases[i as usize]).unwrap(), &m);
        }
        let mut inner = self.inner.lock().unwrap();
        inner.evaluations += done.load(Ordering::Relaxed);
        inner.nontrivial_enumerated += nontriv.load(Ordering::Relaxed);
        inner.all_exhaustive = Some(inner.all_exhaustive.unwrap_or(true) && complete);
        let fnt = first_nontrivial.load(Ordering::Relaxed);
        if fnt != u64::MAX {
            let v = serde_json::to_value(&cases[fnt as usize]).unwrap();
            inner.samples.push(json!({"sub": name, "case": clip(v)}));
        }
        inner.subs.push(json!({"sub": name, "kind": "enumerated", "evaluations": done.load(Ordering::Relaxed),
            "distinct_nontrivial": nontriv.load(Ordering::Relaxed), "complete": complete,
            "seconds": (t0.elapsed().as_secs_f64()*100.0).round()/100.0}));
    }

    /// Counts cases that a check evaluated by itself
    pub fn count(&self, name: &str, evaluations: u64, nontrivial: u64, exhaustive: bool, sample: Value) {
        let mut inner = self.inner.lock().unwrap();
        inner.evaluations += evaluations;
        inner.nontrivial_enumerated += nontrivial;
        inner.all_exhaustive = Some(inner.all_exhaustive.unwrap_or(true) && exhaustive);
        inner.samples.push(json!({"sub": name, "case": clip(sample)}));
        inner.subs.push(json!({"sub": name, "kind": if exhaustive {"enumerated"} else {"generated"},
            "evaluations": evaluations, "distinct_nontrivial": nontrivial, "complete": exhaustive}));
    }

    /// Writes the evidence, prints the verdict and gives the exit code
    pub fn finish(&self) -> i32 {
        let inner = self.inner.lock().unwrap();
        if let Some((sub, _)) = &self.replay {
            if !self.replayed.load(Ordering::Relaxed) && inner.evaluations == 0 {
                println!("no sub-check named {sub}");
                return 2;
            }
        }
        let mut coverage = json!({
            "evaluations": inner.evaluations,
            "distinct_nontrivial": inner.nontrivial.len() as u64 + inner.nontrivial_enumerated,
            "rule": inner.rules.join(" "),
            "samples": inner.samples,
            "sub_checks": inner.subs,
            "classes": inner.classes,
            "exhaustive": inner.all_exhaustive.unwrap_or(false),
            "known_findings_hit": inner.known_hits.iter().map(|(k, v)| json!({"signature": k, "cases": v.0, "example": v.1})).collect::<Vec<_>>(),
        });
        for (k, v) in &inner.extra {
            coverage[k] = v.clone();
        }
        let evidence = json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": inner.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": inner.violations.len(),
        });
        if self.replay.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&evidence).unwrap() + "\n",
            )
            .expect("evidence is writable");
        }
        for (sig, (n, msg)) in &inner.known_hits {
            println!(
                "KNOWN-FINDING: property={} {} ({n} generated cases, e.g. {msg})",
                self.id, self.known[sig]
            );
        }
        println!(
            "{} {:?}: {} cases, {} distinct non-trivial, {:.1}s",
            self.id,
            self.tier,
            inner.evaluations,
            inner.nontrivial.len() as u64 + inner.nontrivial_enumerated,
            self.start.elapsed().as_secs_f64()
        );
        for (path, text) in &inner.violations {
            println!("{text}");
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        i32::from(!inner.violations.is_empty())
    }
}

fn write_replay(root: &std::path::Path, id: &str, sub: &str, seed: u64, case: &Value, msg: &str) -> String {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let clean: String = sub.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let path = dir.join(format!("{id}-{clean}.json"));
    let v = json!({"property": id, "sub": sub, "seed": seed, "case": case, "message": msg,
        "rerun": format!("./check.sh {id} --replay {}", path.display())});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    path.display().to_string()
}
