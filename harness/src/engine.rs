//! Drives one property: its sub-checks are generators (proptest strategies) plus oracles.
//!
//! The work of a run is fixed by (tier, seed): every sub-check is cut into shards, every shard
//! has a PRNG of its own derived from (VERIF_SEED, property, sub-check, shard), and the shards
//! are handed to worker threads. A failing case is shrunk by proptest and becomes the replay.
use crate::exec::{self, Outcome};
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// What an oracle notes about a case besides its verdict.
#[derive(Default, Clone)]
pub struct Obs {
    pub discard: bool,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}
impl Obs {
    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t)
        }
    }
}
pub type Res = Result<(), String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seeded<C> {
    /// determines the iteration order of every HashMap/HashSet the code under test creates
    pub hash_seed: u64,
    pub case: C,
}

#[derive(Default)]
pub struct Stats {
    evals: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

pub struct Failure {
    pub sub: String,
    pub message: String,
    pub case: Value,
    pub original: String,
}

pub trait AnySub: Send + Sync {
    fn name(&self) -> &str;
    fn cases(&self, thorough: bool) -> u32;
    fn shards(&self) -> u32;
    fn run_shard(&self, rng_seed: [u8; 32], cases: u32, stop: &AtomicBool) -> (Stats, Option<Failure>);
    fn replay(&self, case: &Value) -> Result<Res, String>;
}

pub struct Sub<C> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub eval: fn(&C, u64, &mut Obs) -> Res,
    /// run the oracle inside one isolated case (false: the oracle isolates runs by itself)
    pub isolated: bool,
    /// plain code: panics are caught, but nothing else is isolated
    pub light: bool,
    pub budget: u64,
}

impl<C> Sub<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    pub fn new(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: fn() -> BoxedStrategy<C>,
        eval: fn(&C, u64, &mut Obs) -> Res,
    ) -> Self {
        Sub { name, quick, thorough, strategy, eval, isolated: true, light: false, budget: exec::BUDGET }
    }
    pub fn budget(mut self, b: u64) -> Self {
        self.budget = b;
        self
    }
    pub fn direct(mut self) -> Self {
        self.isolated = false;
        self
    }
    pub fn light(mut self) -> Self {
        self.light = true;
        self
    }
    pub fn boxed(self) -> Box<dyn AnySub> {
        Box::new(self)
    }
    /// the check's name and the input, of a case under evaluation in another thread
    fn render(here: *const ()) -> (String, Value) {
        let (sub, c) = unsafe { *(here as *const (&Self, &Seeded<C>)) };
        (sub.name.to_string(), serde_json::to_value(c).unwrap())
    }
    fn eval_case(&self, c: &Seeded<C>) -> (Obs, Res) {
        let f = self.eval;
        if self.light {
            let here = (self, c);
            match exec::run_light(self.budget, &here as *const _ as *const (), Self::render, || {
                let mut o = Obs::default();
                let r = f(&c.case, c.hash_seed, &mut o);
                (o, r)
            }) {
                Outcome::Done(x) => x,
                Outcome::Panic(p) => (Obs::default(), Err(format!("panicked: {p}"))),
                Outcome::OverBudget => unreachable!(),
            }
        } else if self.isolated {
            let case = c.case.clone();
            let hs = c.hash_seed;
            let budget = std::env::var("VH_BUDGET").ok().and_then(|b| b.parse().ok()).unwrap_or(self.budget);
            match exec::run_case(c.hash_seed, budget, move || {
                let mut o = Obs::default();
                let r = f(&case, hs, &mut o);
                (o, r)
            }) {
                Outcome::Done(x) => x,
                Outcome::Panic(p) => (Obs::default(), Err(format!("panicked: {p}"))),
                Outcome::OverBudget => (
                    Obs::default(),
                    Err("did not finish within its work budget".to_string()),
                ),
            }
        } else {
            let mut o = Obs::default();
            let r = f(&c.case, c.hash_seed, &mut o);
            (o, r)
        }
    }
}

const MAX_OVER_BUDGET: usize = 24;

impl<C> AnySub for Sub<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &str {
        self.name
    }
    fn cases(&self, thorough: bool) -> u32 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn run_shard(&self, rng_seed: [u8; 32], cases: u32, stop: &AtomicBool) -> (Stats, Option<Failure>) {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 1500,
            max_global_rejects: 200 + cases * 20,
            max_local_rejects: 1_000_000,
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = ((0u64..1 << 32), (self.strategy)())
            .prop_map(|(hash_seed, case)| Seeded { hash_seed, case });
        let stats = Rc::new(RefCell::new(Stats::default()));
        let failing = RefCell::new(false);
        let first_message: RefCell<String> = RefCell::new(String::new());
        let r = runner.run(&strat, |c| {
            let shrinking = *failing.borrow();
            if !shrinking && stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            if shrinking && exec::OVER_BUDGETS.load(Ordering::SeqCst) > MAX_OVER_BUDGET {
                return Ok(()); // stop shrinking: over-budget cases leak their thread
            }
            let (obs, res) = self.eval_case(&c);
            if !shrinking {
                let mut s = stats.borrow_mut();
                if obs.discard && res.is_ok() {
                    s.discards += 1;
                } else {
                    s.evals += 1;
                    for t in &obs.tags {
                        *s.tags.entry(t).or_default() += 1;
                    }
                    if obs.nontrivial {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        serde_json::to_string(&c.case).unwrap().hash(&mut h);
                        s.nontrivial.insert(h.finish());
                        if s.samples.len() < 2 && s.nontrivial.len() % 3 == 1 {
                            s.samples.push(json!({"check": self.name, "case": serde_json::to_value(&c).unwrap()}));
                        }
                    }
                }
            }
            if obs.discard && res.is_ok() {
                return Err(TestCaseError::reject("outside the domain"));
            }
            match res {
                Ok(()) => Ok(()),
                Err(m) => {
                    if !shrinking {
                        *failing.borrow_mut() = true;
                        *first_message.borrow_mut() = m.clone();
                    }
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let stats = Rc::try_unwrap(stats).ok().unwrap().into_inner();
        match r {
            Ok(()) => (stats, None),
            Err(TestError::Fail(reason, c)) => (
                stats,
                Some(Failure {
                    sub: self.name.to_string(),
                    message: reason.message().to_string(),
                    case: serde_json::to_value(&c).unwrap(),
                    original: first_message.into_inner(),
                }),
            ),
            Err(TestError::Abort(reason)) => {
                eprintln!("INCONCLUSIVE: {}: generator aborted: {}", self.name, reason);
                std::process::exit(3);
            }
        }
    }
    fn replay(&self, case: &Value) -> Result<Res, String> {
        let c: Seeded<C> = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(self.eval_case(&c).1)
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn AnySub>>,
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub struct RunOpts {
    pub thorough: bool,
    pub seed: u64,
    pub verif: std::path::PathBuf,
    pub only: Option<String>,
    pub scale: f64,
}

/// Runs the property; returns the process's exit code.
pub fn run_property(p: &Property, o: &RunOpts) -> i32 {
    let start = std::time::Instant::now();
    let known = known_findings(&o.verif, p.id);
    for (k, sub, case) in &known {
        let s = p.subs.iter().find(|s| s.name() == sub);
        match s.map(|s| s.replay(case)) {
            Some(Ok(Err(_))) => println!("KNOWN-FINDING: property={} {}", p.id, k),
            Some(Ok(Ok(()))) => {}
            _ => {
                eprintln!("INCONCLUSIVE: known finding of {} cannot be replayed: {}", p.id, k);
                return 3;
            }
        }
    }
    // jobs
    let mut jobs: Vec<(usize, u32, u32)> = Vec::new();
    for (i, s) in p.subs.iter().enumerate() {
        if let Some(f) = &o.only {
            if s.name() != f {
                continue;
            }
        }
        let total = ((s.cases(o.thorough) as f64 * o.scale).ceil() as u32).max(1);
        let n = s.shards().min(total);
        for k in 0..n {
            jobs.push((i, k, total / n + u32::from(k < total % n)));
        }
    }
    let jobs = Arc::new(jobs);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let results: Mutex<Vec<(usize, u32, Stats, Option<Failure>)>> = Mutex::new(Vec::new());
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let slots: Mutex<Vec<&'static exec::Slot>> = Mutex::new(Vec::new());
    let working = AtomicUsize::new(workers);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| {
                slots.lock().unwrap().push(exec::Slot::for_me());
                loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let (i, k, n) = jobs[j];
                    let mut st = o.seed ^ fnv(p.id) ^ fnv(p.subs[i].name()).rotate_left(17) ^ ((k as u64) << 40);
                    let mut seed = [0u8; 32];
                    for c in seed.chunks_mut(8) {
                        c.copy_from_slice(&exec::splitmix(&mut st).to_le_bytes());
                    }
                    let (s, f) = p.subs[i].run_shard(seed, n, &stop);
                    if f.is_some() {
                        stop.store(true, Ordering::SeqCst);
                    }
                    results.lock().unwrap().push((i, k, s, f));
                }
                working.fetch_sub(1, Ordering::SeqCst);
            });
        }
        // a worker whose case crashed or hangs never comes back: report from here
        let mut seen = vec![(0, 0); workers];
        while working.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let stuck = slots.lock().unwrap().iter().zip(&mut seen).find_map(|(s, seen)| s.stuck(seen));
            if let Some((sub, message, case)) = stuck {
                let results = std::mem::take(&mut *results.lock().unwrap());
                let failure = Failure { sub, original: message.clone(), message, case };
                std::process::exit(report(p, o, start, results, Some(failure)));
            }
        }
    });
    report(p, o, start, results.into_inner().unwrap(), None)
}

/// Writes the evidence and the replays, prints the verdict and returns the exit code.
fn report(p: &Property, o: &RunOpts, start: std::time::Instant, mut results: Vec<(usize, u32, Stats, Option<Failure>)>, unfinished: Option<Failure>) -> i32 {
    results.sort_by_key(|r| (r.0, r.1));

    let mut evals = 0;
    let mut discards = 0;
    let mut nontrivial = 0;
    let mut samples: Vec<Value> = Vec::new();
    let mut per_sub: BTreeMap<String, Value> = BTreeMap::new();
    let mut merged: BTreeMap<usize, (u64, u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<Value>)> = BTreeMap::new();
    let mut failures: Vec<Failure> = unfinished.into_iter().collect();
    for (i, _, s, f) in results {
        let m = merged.entry(i).or_default();
        m.0 += s.evals;
        m.1 += s.discards;
        m.2.extend(s.nontrivial);
        for (t, n) in s.tags {
            *m.3.entry(t).or_default() += n;
        }
        m.4.extend(s.samples);
        failures.extend(f);
    }
    for (i, (e, d, nt, tags, sm)) in merged {
        evals += e;
        discards += d;
        nontrivial += nt.len();
        samples.extend(sm.into_iter().filter(|v| v.to_string().len() < 6000).take(2));
        per_sub.insert(
            p.subs[i].name().to_string(),
            json!({"evaluated": e, "discarded": d, "distinct_nontrivial": nt.len(), "classes": tags}),
        );
    }
    let violations = failures.len();
    let evidence = json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": p.rule,
            "samples": samples,
            "explanation": format!("{discards} generated cases fell outside the domain and were discarded; by check: {}", serde_json::to_string(&per_sub).unwrap()),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let ev = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("INCONCLUSIVE: cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{} tier={} seed={} evaluated={} distinct_nontrivial={} discarded={} wall={:.1}s",
        p.id, if o.thorough { "thorough" } else { "quick" }, o.seed, evals, nontrivial, discards, start.elapsed().as_secs_f64()
    );
    for (k, v) in &per_sub {
        println!("  {k}: {v}");
    }
    if failures.is_empty() {
        return 0;
    }
    for f in failures.iter() {
        let dir = o.verif.join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", p.id, f.sub));
        let body = json!({"property": p.id, "check": f.sub, "message": f.message, "first_message": f.original, "input": f.case});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n");
        println!("  {}: {}", f.sub, f.message);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    1
}

/// Findings of this property recorded, not repaired, one per line of known-findings.txt:
/// `known: property=<id> check=<check> input=<json> | <what fails>` -> (text, check, input).
fn known_findings(verif: &std::path::Path, id: &str) -> Vec<(String, String, Value)> {
    let text = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let start = format!("known: property={id} check=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&start))
        .map(|l| {
            let (check, rest) = l.split_once(" input=").expect("known-findings.txt: no input");
            let (input, what) = rest.split_once(" | ").expect("known-findings.txt: no text");
            let input = serde_json::from_str(input).expect("known-findings.txt: bad input");
            (what.to_string(), check.to_string(), input)
        })
        .collect()
}

pub fn replay_file(props: &[Property], path: &std::path::Path) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read replay file");
            return 2;
        }
    };
    for p in props {
        if v["property"] == p.id {
            for s in &p.subs {
                if v["check"] == s.name() {
                    return match s.replay(&v["input"]) {
                        Ok(Ok(())) => {
                            println!("replay of {} passes", p.id);
                            0
                        }
                        Ok(Err(m)) => {
                            println!("  {}: {}", s.name(), m);
                            println!("VIOLATION property={} replay={}", p.id, path.display());
                            1
                        }
                        Err(e) => {
                            eprintln!("bad replay: {e}");
                            2
                        }
                    };
                }
            }
        }
    }
    eprintln!("no such check");
    2
}
