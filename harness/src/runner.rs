//! Case generation, parallel evaluation, shrinking, replay files and evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    /// The case met the rule for being non-trivial.
    pub nontrivial: bool,
    /// Executions inside this case beyond the first (crash points, cache configurations, ...).
    pub sub_evals: u64,
    /// How many of those were distinct and met the rule.
    pub sub_nontrivial: u64,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn get(&self, k: &'static str) -> u64 {
        self.counts.get(k).copied().unwrap_or(0)
    }
    fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.counts {
            *self.counts.entry(k).or_default() += v;
        }
    }
}

pub trait CaseT: Serialize + DeserializeOwned + Clone + Debug + Send + 'static {}
impl<T: Serialize + DeserializeOwned + Clone + Debug + Send + 'static> CaseT for T {}

pub struct Phase<C: CaseT> {
    pub name: &'static str,
    /// Relative number of cases: times `QUICK` in the quick tier, times `THOROUGH` in the thorough one.
    pub quick: u64,
    pub strat: Box<dyn Fn() -> BoxedStrategy<C> + Sync>,
    pub eval: Box<dyn Fn(&C, &mut Stats) -> Result<(), String> + Sync>,
}

pub fn phase<C: CaseT, S: Strategy<Value = C> + 'static>(
    name: &'static str,
    quick: u64,
    strat: impl Fn() -> S + Sync + 'static,
    eval: impl Fn(&C, &mut Stats) -> Result<(), String> + Sync + 'static,
) -> Box<dyn DynPhase> {
    Box::new(Phase {
        name,
        quick,
        strat: Box::new(move || strat().boxed()),
        eval: Box::new(eval),
    })
}

const QUICK: f64 = 2.5;
const THOROUGH: f64 = 60.0;

pub struct Found {
    pub phase: &'static str,
    pub message: String,
    pub case: Value,
    pub shrunk_steps: u64,
    pub index: u64,
}

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct: u64,
    pub stats: Stats,
    pub samples: Vec<Value>,
    pub found: Option<Found>,
    pub truncated: bool,
}

pub struct Cfg {
    pub property: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Instant,
    pub scale: f64,
}

pub trait DynPhase: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, cfg: &Cfg, watch: &Watch) -> Report;
    fn replay(&self, case: &Value) -> Result<Result<(), String>, String>;
}

/// `VERIF_TRACE=1` with `replay`: print every operation and the decoded flash after it.
pub fn trace() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var_os("VERIF_TRACE").is_some())
}

pub fn trace_pages(label: &str, op: &str, res: &str, pages: &[crate::format::Page]) {
    eprintln!("{label} {op} -> {res}");
    for (i, p) in pages.iter().enumerate() {
        let items: Vec<String> = p
            .items
            .iter()
            .map(|i| format!("{}:{:?}:{:02x?}", i.off, i.state, &i.data[..i.data.len().min(6)]))
            .collect();
        eprintln!("    page {i} {:?} free@{} skipped {} {}", p.state, p.free, p.skipped, items.join(" "));
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg} at {loc}")));
    }));
}

/// Run `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// What every worker is currently evaluating, for the hang detector.
pub struct Watch {
    slots: Vec<Mutex<Option<(Instant, &'static str, Value)>>>,
}
impl Watch {
    pub fn new(n: usize) -> Self {
        Watch { slots: (0..n).map(|_| Mutex::new(None)).collect() }
    }
}

fn seed_bytes(parts: &[&str], nums: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        i.hash(&mut h);
        parts.hash(&mut h);
        nums.hash(&mut h);
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

fn runner_for(cfg_seed: u64, property: &str, phase: &str, index: u64) -> TestRunner {
    let c = Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() };
    TestRunner::new_with_rng(
        c,
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[property, phase], &[cfg_seed, index])),
    )
}

impl<C: CaseT> DynPhase for Phase<C> {
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, case: &Value) -> Result<Result<(), String>, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {e}"))?;
        let mut st = Stats::default();
        Ok(guarded(|| (self.eval)(&c, &mut st)))
    }

    fn run(&self, cfg: &Cfg, watch: &Watch) -> Report {
        let n = (self.quick as f64 * if cfg.thorough { THOROUGH } else { QUICK } * cfg.scale) as u64;
        let stop = AtomicBool::new(false);
        let next = AtomicU64::new(0);
        let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let total: Mutex<Report> = Mutex::new(Report::default());
        std::thread::scope(|s| {
            for t in 0..cfg.threads {
                let (stop, next, seen, total) = (&stop, &next, &seen, &total);
                s.spawn(move || {
                    let strat = (self.strat)();
                    let mut rep = Report::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > cfg.deadline {
                            rep.truncated = true;
                            break;
                        }
                        let mut tr = runner_for(cfg.seed, cfg.property, self.name, i);
                        let mut tree = match strat.new_tree(&mut tr) {
                            Ok(t) => t,
                            Err(_) => continue,
                        };
                        let case = tree.current();
                        let js = serde_json::to_value(&case).expect("case to json");
                        let h = hash_of(&js.to_string());
                        *watch.slots[t].lock().unwrap() = Some((Instant::now(), self.name, js.clone()));
                        let mut st = Stats::default();
                        let res = guarded(|| (self.eval)(&case, &mut st));
                        *watch.slots[t].lock().unwrap() = None;
                        rep.evals += 1 + st.sub_evals;
                        rep.stats.merge(&st);
                        if st.nontrivial || st.sub_nontrivial > 0 {
                            if seen.lock().unwrap().insert(h) {
                                rep.distinct += st.nontrivial as u64 + st.sub_nontrivial;
                            }
                            if rep.samples.len() < 2 && i % 7 == 3 {
                                rep.samples.push(json!({"phase": self.name, "case": abridged(&js)}));
                            }
                        }
                        if let Err(first) = res {
                            stop.store(true, Ordering::Relaxed);
                            let mut best = (case, first);
                            let start = Instant::now();
                            let mut steps = 0u64;
                            let lim = Duration::from_secs(if cfg.thorough { 120 } else { 40 });
                            if tree.simplify() {
                                loop {
                                    steps += 1;
                                    if start.elapsed() > lim || steps > 20_000 {
                                        break;
                                    }
                                    let c = tree.current();
                                    let mut st = Stats::default();
                                    match guarded(|| (self.eval)(&c, &mut st)) {
                                        Err(m) => {
                                            best = (c, m);
                                            if !tree.simplify() {
                                                break;
                                            }
                                        }
                                        Ok(()) => {
                                            if !tree.complicate() {
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                            rep.found = Some(Found {
                                phase: self.name,
                                message: best.1,
                                case: serde_json::to_value(&best.0).unwrap(),
                                shrunk_steps: steps,
                                index: i,
                            });
                            break;
                        }
                    }
                    let mut tot = total.lock().unwrap();
                    tot.evals += rep.evals;
                    tot.distinct += rep.distinct;
                    tot.stats.merge(&rep.stats);
                    tot.truncated |= rep.truncated;
                    if tot.samples.len() < 3 {
                        tot.samples.extend(rep.samples);
                        tot.samples.truncate(3);
                    }
                    if let Some(f) = rep.found {
                        if tot.found.as_ref().is_none_or(|g| f.index < g.index) {
                            tot.found = Some(f);
                        }
                    }
                });
            }
        });
        total.into_inner().unwrap()
    }
}

/// A sample as it goes into the evidence file: of a list that's very long only the start is written out.
fn abridged(v: &Value) -> Value {
    const MOST: usize = 48;
    match v {
        Value::Array(a) => {
            let mut out: Vec<Value> = a.iter().take(MOST).map(abridged).collect();
            if a.len() > MOST {
                out.push(json!(format!("... and {} more", a.len() - MOST)));
            }
            Value::Array(out)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), abridged(v))).collect()),
        other => other.clone(),
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must be non-zero for the run to mean anything (guards against a vacuous check).
    pub must_hit: &'static [&'static str],
    pub phases: Vec<Box<dyn DynPhase>>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn write_replay(dir: &Path, id: &str, f: &Found, seed: u64, tag: &str) -> PathBuf {
    let d = dir.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let phase: String = f.phase.chars().map(|c| if c.is_alphanumeric() { c } else { '-' }).collect();
    let p = d.join(format!("{id}-{phase}-{tag}.json"));
    let v = json!({
        "property": id, "phase": f.phase, "message": f.message, "seed": seed,
        "case_index": f.index, "shrink_steps": f.shrunk_steps, "case": f.case,
        "debug_assertions": cfg!(debug_assertions),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
    p
}

struct Known {
    phase: String,
    case: Value,
    what: String,
}

fn known_findings(dir: &Path, id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(dir.join("known-findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| Known {
                    phase: f["phase"].as_str().unwrap_or("").into(),
                    case: f["case"].clone(),
                    what: f["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Entry point of every check binary. Usage: `<bin> <property> [replay FILE]`.
pub fn main_with(make: impl Fn(&str) -> Option<Check>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let Some(check) = args.get(1).and_then(|p| make(p)) else {
        eprintln!("usage: {} <property> [replay FILE]", args[0]);
        std::process::exit(2);
    };
    install_panic_hook();
    if args.get(2).map(String::as_str) == Some("replay") {
        let v: Value =
            serde_json::from_str(&std::fs::read_to_string(&args[3]).expect("read replay file"))
                .expect("replay file is json");
        let ph = check
            .phases
            .iter()
            .find(|p| Some(p.name()) == v["phase"].as_str())
            .expect("phase of the replay file");
        match ph.replay(&v["case"]).expect("case of the replay file") {
            Ok(()) => {
                println!("replay: property {} holds on this case", check.id);
                std::process::exit(0);
            }
            Err(m) => {
                println!("replay: {m}");
                println!("VIOLATION property={} replay={}", check.id, args[3]);
                std::process::exit(1);
            }
        }
    }
    let code = run_check(&check);
    std::process::exit(code);
}

fn run_check(check: &Check) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(
        || std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16),
    );
    let limit: u64 = std::env::var("VERIF_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 6 * 3600 } else { 240 });
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let verif = verif_dir();
    let cfg = Cfg {
        property: check.id,
        seed,
        thorough,
        threads,
        deadline: start + Duration::from_secs(limit),
        scale,
    };
    let watch: &'static Watch = Box::leak(Box::new(Watch::new(threads)));
    let (id, vdir) = (check.id, verif.clone());
    // Hang detector: a single case that is still running after three minutes does not terminate.
    std::thread::spawn(move || {
        let mut stuck = vec![(None::<Instant>, 0u32); threads];
        loop {
            std::thread::sleep(Duration::from_secs(10));
            for (t, s) in watch.slots.iter().enumerate() {
                let cur = s.lock().unwrap().clone();
                match cur {
                    Some((at, phase, case)) if stuck[t].0 == Some(at) => {
                        stuck[t].1 += 1;
                        if stuck[t].1 >= 18 {
                            let f = Found {
                                phase,
                                message: "a case did not terminate within 180 s".into(),
                                case,
                                shrunk_steps: 0,
                                index: 0,
                            };
                            let p = write_replay(&vdir, id, &f, seed, "hang");
                            println!("{id}: a case did not terminate within 180 s");
                            println!("VIOLATION property={id} replay={}", p.display());
                            std::process::exit(1);
                        }
                    }
                    Some((at, _, _)) => stuck[t] = (Some(at), 0),
                    None => stuck[t] = (None, 0),
                }
            }
        }
    });

    let mut violations = 0;
    let mut stats = Stats::default();
    let (mut evals, mut distinct, mut corpus_n) = (0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut per_phase = serde_json::Map::new();
    let mut truncated = false;

    // Recorded genuine defects that were not repaired.
    let known = known_findings(&verif, check.id);
    for k in &known {
        if let Some(ph) = check.phases.iter().find(|p| p.name() == k.phase) {
            if let Ok(Err(_)) = ph.replay(&k.case) {
                println!("KNOWN-FINDING: property={} {}", check.id, k.what);
            }
        }
    }

    // Regression corpus: minimal cases of everything ever found (on this tree or on planted bugs).
    let mut files: Vec<PathBuf> = std::fs::read_dir(verif.join("corpus").join(check.id))
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        if f.extension().is_none_or(|e| e != "json") {
            continue;
        }
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).expect("corpus json");
        let Some(ph) = check.phases.iter().find(|p| Some(p.name()) == v["phase"].as_str()) else {
            panic!("corpus file {} names an unknown phase", f.display());
        };
        corpus_n += 1;
        evals += 1;
        match ph.replay(&v["case"]) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                if known.iter().any(|k| k.phase == ph.name() && k.case == v["case"]) {
                    continue;
                }
                println!("{}: [{}] {m}", check.id, ph.name());
                println!("VIOLATION property={} replay={}", check.id, f.display());
                violations += 1;
                break;
            }
            Err(e) => panic!("{}: {e}", f.display()),
        }
    }

    if violations == 0 {
        for ph in &check.phases {
            let t0 = Instant::now();
            let rep = ph.run(&cfg, watch);
            evals += rep.evals;
            distinct += rep.distinct;
            truncated |= rep.truncated;
            stats.merge(&rep.stats);
            samples.extend(rep.samples);
            per_phase.insert(
                ph.name().into(),
                json!({"evaluations": rep.evals, "distinct_nontrivial": rep.distinct,
                       "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0}),
            );
            if let Some(f) = rep.found {
                let p = write_replay(&verif, check.id, &f, seed, "found");
                println!("{}: [{}] {}", check.id, f.phase, f.message);
                println!("minimal case: {}", f.case);
                println!("VIOLATION property={} replay={}", check.id, p.display());
                violations += 1;
                break;
            }
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let mut vacuous = vec![];
    if violations == 0 && !truncated && cfg.scale >= 1.0 {
        vacuous = check.must_hit.iter().filter(|k| stats.get(k) == 0).copied().collect();
    }
    let ev = json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": check.rule,
            "samples": samples,
            "classes": stats.counts,
            "phases": per_phase,
            "corpus_cases": corpus_n,
            "stopped_at_time_limit": truncated,
            "threads": threads,
        },
        "assumptions": check.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let plain = verif.join("evidence/plain");
    let evd = if cfg!(debug_assertions) { verif.join("evidence") } else { plain.clone() };
    let mut ev = ev;
    if cfg!(debug_assertions) && thorough {
        // Written by the run without debug assertions that came before this one.
        let read = std::fs::read_to_string(plain.join(format!("{}.json", check.id))).ok();
        if let Some(v) = read.and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            ev["coverage"]["without_debug_assertions"] = json!({
                "evaluations": v["coverage"]["evaluations"],
                "distinct_nontrivial": v["coverage"]["distinct_nontrivial"],
                "violations": v["violations"],
                "wall_s": v["wall_s"],
            });
        }
    }
    std::fs::create_dir_all(&evd).expect("evidence dir");
    std::fs::write(evd.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("write evidence");
    if violations > 0 {
        return 1;
    }
    if !vacuous.is_empty() {
        eprintln!("{}: the run never reached {vacuous:?}; it decides nothing", check.id);
        return 3;
    }
    println!(
        "{}: held on {evals} executions ({distinct} distinct non-trivial) in {wall:.1} s, seed {seed}",
        check.id
    );
    0
}
