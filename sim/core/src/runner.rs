//! Batch driver: seeded search over many simulated runs, minimisation, replay files, evidence.
use crate::exec::{self, Mode, Policy};
use crate::interpose::real_now;
use crate::rng::{mix, Rng64};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// coarse class; minimisation preserves it
    pub class: String,
    /// specific identification of what failed, matched against the known-findings file
    pub signature: String,
    pub detail: String,
}
impl Violation {
    pub fn new(class: &str, signature: impl Into<String>, detail: impl Into<String>) -> Self {
        Violation { class: class.into(), signature: signature.into(), detail: detail.into() }
    }
}

#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub nontrivial: bool,
    pub trace: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub runs: u64,
    pub counters: BTreeMap<String, u64>,
    pub choices: Vec<u32>,
    pub log: Vec<String>,
}
impl RunOut {
    pub fn absorb(&mut self, r: &exec::Report) {
        self.steps += r.steps;
        self.sim_ns += r.time;
        self.runs += 1;
        self.trace = mix(&[self.trace, r.trace, r.choice_hash]);
        for (k, v) in &r.counters {
            *self.counters.entry(k.to_string()).or_insert(0) += v;
        }
        self.choices = r.choices.clone();
        self.log = r.log.clone();
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, v: Violation) {
        if self.violation.is_none() {
            self.violation = Some(v);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "mode", rename_all = "snake_case")]
pub enum RunMode {
    Seeded { seed: u64, policy: Policy },
    Choices { choices: Vec<u32> },
}
impl RunMode {
    pub fn to_mode(&self) -> Mode {
        match self {
            RunMode::Seeded { seed, policy } => Mode::Random { seed: *seed, policy: *policy },
            RunMode::Choices { choices } => Mode::Replay(choices.clone()),
        }
    }
}

pub trait Property: Sync {
    type Case: Serialize + DeserializeOwned + Clone + Send + Sync;
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> String;
    fn real(&self) -> Vec<String>;
    fn stubbed(&self) -> Vec<String>;
    fn assumptions(&self) -> Vec<String>;
    /// (maximum runs, wall budget in seconds)
    fn budget(&self, tier: Tier) -> (usize, f64);
    fn gen(&self, idx: usize, rng: &mut Rng64, tier: Tier) -> Self::Case;
    fn run(&self, case: &Self::Case, mode: &Mode, log: bool) -> RunOut;
    fn shrink(&self, case: &Self::Case) -> Vec<Self::Case>;
    /// does a recorded choice list drive this property's runs?
    fn choice_replay(&self) -> bool {
        true
    }
    /// verdict over the whole batch (statistical properties)
    fn finish(&self, _stats: &BTreeMap<String, u64>) -> Option<Violation> {
        None
    }
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    verif_seed: u64,
    case_index: usize,
    case: Value,
    run: RunMode,
    original_run: RunMode,
    original_case: Value,
    violation: Violation,
    minimised: Value,
    #[serde(default)]
    trace_hash: String,
    #[serde(default)]
    log: Vec<String>,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Known {
    property: String,
    signature: String,
    text: String,
}
fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| Known {
                    property: e["property"].as_str().unwrap().into(),
                    signature: e["signature"].as_str().unwrap().into(),
                    text: e["what"].as_str().unwrap().into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn run_isolated<P: Property>(p: &P, case: &P::Case, mode: &Mode, log: bool) -> RunOut {
    exec::on_fresh_thread(|| p.run(case, mode, log))
}

pub fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn case_of<P: Property>(p: &P, seed: u64, i: usize, tier: Tier) -> (P::Case, RunMode) {
    let idh = crate::rng::hash_bytes(p.id().as_bytes());
    let mut rng = Rng64::new(mix(&[seed, idh, i as u64, 7]));
    let case = p.gen(i, &mut rng, tier);
    let mut r2 = Rng64::new(mix(&[seed, idh, i as u64, 11]));
    let policy = Policy::from_rng(&mut r2);
    (case, RunMode::Seeded { seed: r2.next(), policy })
}

/// A run that takes this long without yielding an answer counts as an endless loop.
const HANG_S: f64 = 120.0;

/// The cases being run right now, in a file the supervising process can read after a crash.
struct InFlight(Option<std::fs::File>);
impl InFlight {
    fn open() -> Self {
        InFlight(std::env::var("VSIM_CHILD").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    fn set(&self, worker: usize, case: Option<usize>) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            if let Some(i) = case {
                b[..8].copy_from_slice(&(i as u64 + 1).to_le_bytes());
                b[8..].copy_from_slice(&real_now().to_le_bytes());
            }
            let _ = f.write_all_at(&b, worker as u64 * 16);
        }
    }
    fn read(path: &Path) -> Vec<(usize, f64)> {
        let b = std::fs::read(path).unwrap_or_default();
        b.chunks_exact(16)
            .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), f64::from_le_bytes(c[8..].try_into().unwrap())))
            .filter(|c| c.0 > 0)
            .map(|c| (c.0 as usize - 1, c.1))
            .collect()
    }
}

enum Ended {
    Code(i32),
    /// killed by a signal
    Crashed,
    /// this case did not come to an end
    Hung(usize),
}
fn run_child(flight: &Path, single: Option<usize>) -> Ended {
    let _ = std::fs::write(flight, []);
    let exe = std::env::current_exe().expect("own executable");
    let mut c = std::process::Command::new(exe);
    c.args(std::env::args().skip(1)).env("VSIM_CHILD", flight);
    if let Some(i) = single {
        c.env("VSIM_SINGLE", i.to_string()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let mut child = c.spawn().expect("start the simulator");
    let scratch = std::env::temp_dir().join(format!("vsim-net-{}", child.id()));
    let clean = || {
        let _ = std::fs::remove_dir_all(&scratch);
    };
    let mut ticks = 0u64;
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return match st.code() {
                Some(c) => Ended::Code(c),
                None => {
                    clean();
                    Ended::Crashed
                }
            };
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        ticks += 1;
        if ticks % 50 == 0 {
            if let Some((i, _)) = InFlight::read(flight).into_iter().find(|c| real_now() - c.1 > HANG_S) {
                let _ = child.kill();
                let _ = child.wait();
                clean();
                return Ended::Hung(i);
            }
        }
    }
}

/// Runs the check in a child process, so that code under test that aborts the process or never
/// returns is reported like any other violation.
pub fn check<P: Property>(p: &P, tier: Tier) -> i32 {
    if std::env::var("VSIM_CHILD").is_ok() {
        return check_here(p, tier);
    }
    let t0 = real_now();
    let flight = std::env::temp_dir().join(format!("vsim-inflight-{}", std::process::id()));
    let ended = run_child(&flight, None);
    let suspects: Vec<usize> = InFlight::read(&flight).into_iter().map(|c| c.0).collect();
    let (i, class, detail) = match ended {
        Ended::Code(c) => {
            let _ = std::fs::remove_file(&flight);
            return c;
        }
        Ended::Hung(i) => (i, "endless loop", format!("the run did not come to an end within {HANG_S} s of real time")),
        Ended::Crashed => {
            let found = suspects.iter().copied().find(|i| !matches!(run_child(&flight, Some(*i)), Ended::Code(_)));
            match found {
                Some(i) => (i, "process aborted", "the process was ended by a signal: abort, stack overflow or failed allocation".to_string()),
                None => {
                    let _ = std::fs::remove_file(&flight);
                    eprintln!("the simulator was ended from outside");
                    return 3;
                }
            }
        }
    };
    let _ = std::fs::remove_file(&flight);
    let seed = seed_env();
    let (case, rm) = case_of(p, seed, i, tier);
    let v = Violation::new(class, class, detail);
    let rf = ReplayFile {
        property: p.id().into(),
        verif_seed: seed,
        case_index: i,
        case: serde_json::to_value(&case).unwrap(),
        run: rm.clone(),
        original_run: rm,
        original_case: serde_json::to_value(&case).unwrap(),
        violation: v.clone(),
        minimised: json!({"attempts": 0}),
        trace_hash: String::new(),
        log: vec![],
    };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-case{}.json", p.id(), seed, i));
    std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).expect("write replay");
    println!("violation: class={} signature={}", v.class, v.signature);
    println!("detail: {}", v.detail);
    println!("VIOLATION property={} replay={}", p.id(), path.display());
    let ev = json!({
        "property": p.id(), "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": i + 1, "distinct_nontrivial": 0, "rule": p.rule(), "samples": []},
        "assumptions": p.assumptions(), "wall_s": real_now() - t0, "violations": 1,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap());
    1
}

fn check_here<P: Property>(p: &P, tier: Tier) -> i32 {
    let seed = seed_env();
    let t0 = real_now();
    let flight = InFlight::open();
    if let Some(i) = std::env::var("VSIM_SINGLE").ok().and_then(|s| s.parse::<usize>().ok()) {
        let (case, rm) = case_of(p, seed, i, tier);
        flight.set(0, Some(i));
        run_isolated(p, &case, &rm.to_mode(), false);
        return 0;
    }
    println!("seed={} property={} tier={:?}", seed, p.id(), tier);
    let (mut max_runs, budget) = p.budget(tier);
    if let Ok(s) = std::env::var("VSIM_RUNS") {
        max_runs = s.parse().unwrap();
    }
    let budget = std::env::var("VSIM_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(budget);
    let workers = std::env::var("VSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    let known = load_known();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Agg {
        runs: u64,
        sims: u64,
        steps: u64,
        sim_ns: u64,
        counters: BTreeMap<String, u64>,
        traces: HashSet<u64>,
        nontrivial: HashSet<u64>,
        found: Vec<(usize, Violation)>,
        known_hits: BTreeMap<String, u64>,
        samples: Vec<(usize, Value)>,
    }
    let agg = Mutex::new(Agg {
        runs: 0,
        sims: 0,
        steps: 0,
        sim_ns: 0,
        counters: BTreeMap::new(),
        traces: HashSet::new(),
        nontrivial: HashSet::new(),
        found: vec![],
        known_hits: BTreeMap::new(),
        samples: vec![],
    });
    let slow: f64 = std::env::var("VSIM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (stop, next, agg, flight, known) = (&stop, &next, &agg, &flight, &known);
            s.spawn(move || loop {
                flight.set(w, None);
                if stop.load(Ordering::Relaxed) || real_now() - t0 > budget {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= max_runs {
                    break;
                }
                let (case, rm) = case_of(p, seed, i, tier);
                let t1 = real_now();
                flight.set(w, Some(i));
                let out = run_isolated(p, &case, &rm.to_mode(), false);
                if slow > 0.0 && real_now() - t1 > slow {
                    let s = serde_json::to_string(&case).unwrap();
                    eprintln!("slow case {i}: {:.2}s {}", real_now() - t1, s.chars().take(1500).collect::<String>());
                }
                let mut a = agg.lock().unwrap();
                a.runs += 1;
                a.sims += out.runs;
                a.steps += out.steps;
                a.sim_ns += out.sim_ns;
                for (k, v) in &out.counters {
                    *a.counters.entry(k.clone()).or_insert(0) += v;
                }
                a.traces.insert(out.trace);
                if out.nontrivial {
                    a.nontrivial.insert(out.trace);
                    if a.samples.len() < 3 {
                        let mut v = serde_json::to_value(&case).unwrap();
                        truncate(&mut v);
                        a.samples.push((i, json!({"case_index": i, "schedule": rm, "case": v, "steps": out.steps, "sim_s": out.sim_ns as f64/1e9})));
                    }
                }
                if let Some(v) = out.violation {
                    if let Some(k) = known.iter().find(|k| k.property == p.id() && k.signature == v.signature) {
                        *a.known_hits.entry(k.signature.clone()).or_insert(0) += 1;
                    } else {
                        a.found.push((i, v));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    // batch-level verdict
    if a.found.is_empty() {
        if let Some(v) = p.finish(&a.counters) {
            if !known.iter().any(|k| k.property == p.id() && k.signature == v.signature) {
                a.found.push((usize::MAX, v));
            }
        }
    }
    // determinism self-test: re-run a sample of cases and compare what was observed
    let mut det_checked = 0;
    let mut det_bad = vec![];
    if a.found.is_empty() {
        let n = 8.min(a.runs as usize);
        let bad = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for i in 0..n {
                let bad = &bad;
                s.spawn(move || {
                    let (case, rm) = case_of(p, seed, i, tier);
                    let x = run_isolated(p, &case, &rm.to_mode(), false);
                    let y = run_isolated(p, &case, &rm.to_mode(), false);
                    if (x.trace, x.steps, x.sim_ns, &x.choices) != (y.trace, y.steps, y.sim_ns, &y.choices) {
                        bad.lock().unwrap().push(i);
                    }
                });
            }
        });
        det_checked = n;
        det_bad = bad.into_inner().unwrap();
    }
    let wall_search = real_now() - t0;
    let mut code = 0;
    a.found.sort_by_key(|f| f.0);
    let nviol = a.found.len();
    if let Some((i, v)) = a.found.first().cloned() {
        code = 1;
        let path = if i == usize::MAX {
            write_batch_replay(p, seed, tier, &v)
        } else {
            minimise_and_write(p, seed, i, tier, &v)
        };
        println!("violation: class={} signature={}", v.class, v.signature);
        println!("detail: {}", v.detail.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id(), path.display());
    }
    for k in known.iter().filter(|k| k.property == p.id()) {
        println!("KNOWN-FINDING: property={} {} [observed {} times in this run]", k.property, k.text, a.known_hits.get(&k.signature).copied().unwrap_or(0));
    }
    let wall = real_now() - t0;
    let faults: BTreeMap<&String, u64> = a.counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k, *v)).collect();
    let probes: BTreeMap<&String, u64> = a.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k, *v)).collect();
    a.samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = a.samples.iter().map(|s| s.1.clone()).collect();
    let ev = json!({
        "property": p.id(),
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": p.rule(),
            "samples": samples,
            "simulated_executions": a.sims,
            "distinct_executions_by_trace_hash": a.traces.len(),
            "distinctness_measure": "64-bit hash over the scheduler's decisions and the observed message deliveries (time, link, length, content hash) and results of one run",
            "cases_per_hour": (a.runs as f64 / wall_search * 3600.0).round(),
            "simulated_executions_per_hour": (a.sims as f64 / wall_search * 3600.0).round(),
            "scheduler_steps": a.steps,
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "faults_injected": faults,
            "probes": probes,
            "components_real": p.real(),
            "components_stubbed": p.stubbed(),
            "determinism_selftest": {"cases_run_twice": det_checked, "diverged": det_bad},
            "known_finding_hits": a.known_hits,
            "workers": workers,
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "property={} runs={} sims={} distinct={} nontrivial={} steps={} sim_s={:.1} wall_s={:.1} det_bad={:?} counters={:?}",
        p.id(),
        a.runs,
        a.sims,
        a.traces.len(),
        a.nontrivial.len(),
        a.steps,
        a.sim_ns as f64 / 1e9,
        wall,
        det_bad,
        a.counters
    );
    code
}

fn truncate(v: &mut Value) {
    match v {
        Value::Array(a) => {
            if a.len() > 40 {
                a.truncate(40);
                a.push(json!("..."));
            }
            a.iter_mut().for_each(truncate);
        }
        Value::Object(o) => o.values_mut().for_each(truncate),
        _ => {}
    }
}

fn write_batch_replay<P: Property>(p: &P, seed: u64, tier: Tier, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-batch-seed{}.json", p.id(), seed));
    let v = json!({"property": p.id(), "batch": true, "verif_seed": seed, "tier": format!("{:?}", tier), "violation": v});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn minimise_and_write<P: Property>(p: &P, seed: u64, i: usize, tier: Tier, v: &Violation) -> PathBuf {
    let t0 = real_now();
    let limit: f64 = std::env::var("VSIM_MIN_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(40.0);
    let (case0, rm0) = case_of(p, seed, i, tier);
    let mut case = case0.clone();
    let mut rm = rm0.clone();
    let mut best = run_isolated(p, &case, &rm.to_mode(), false);
    let mut tries = 0u64;
    let orig_choices = best.choices.len();
    let same = |o: &RunOut| o.violation.as_ref().map(|x| x.class == v.class).unwrap_or(false);
    // switch to an explicit decision list
    if p.choice_replay() && best.choices.len() < exec::MAX_REC {
        let m = RunMode::Choices { choices: best.choices.clone() };
        let o = run_isolated(p, &case, &m.to_mode(), false);
        tries += 1;
        if same(&o) {
            rm = m;
            best = o;
        }
    }
    // shrink the case
    'outer: loop {
        if real_now() - t0 > limit * 0.7 {
            break;
        }
        for c in p.shrink(&case) {
            if real_now() - t0 > limit * 0.7 {
                break 'outer;
            }
            let mut modes = vec![rm.clone()];
            if p.choice_replay() {
                modes.push(RunMode::Choices { choices: vec![] });
            }
            for m in modes {
                tries += 1;
                let o = run_isolated(p, &c, &m.to_mode(), false);
                if same(&o) {
                    case = c;
                    // keep the decisions actually taken, so that no seed is involved any more
                    rm = match &m {
                        RunMode::Choices { .. } if o.choices.len() < exec::MAX_REC => RunMode::Choices { choices: trim(o.choices.clone()) },
                        _ => m,
                    };
                    best = o;
                    continue 'outer;
                }
            }
        }
        break;
    }
    // shrink the decision list
    if let RunMode::Choices { choices } = rm.clone() {
        let mut ch = trim(choices);
        let test = |c: &Vec<u32>, tries: &mut u64| -> Option<RunOut> {
            *tries += 1;
            let o = run_isolated(p, &case, &Mode::Replay(c.clone()), false);
            if same(&o) {
                Some(o)
            } else {
                None
            }
        };
        if let Some(o) = test(&vec![], &mut tries) {
            ch = vec![];
            best = o;
        } else {
            let mut len = ch.len();
            while len > 0 && real_now() - t0 < limit {
                len /= 2;
                let c = ch[..len].to_vec();
                match test(&c, &mut tries) {
                    Some(o) => {
                        ch = trim(c);
                        best = o;
                        len = ch.len();
                    }
                    None => break,
                }
            }
            let mut block = (ch.len() / 2).max(1);
            while real_now() - t0 < limit && !ch.is_empty() {
                let mut k = 0;
                let mut changed = false;
                while k < ch.len() && real_now() - t0 < limit {
                    let e = (k + block).min(ch.len());
                    if ch[k..e].iter().any(|x| *x != 0) {
                        let mut c = ch.clone();
                        c[k..e].iter_mut().for_each(|x| *x = 0);
                        if let Some(o) = test(&c, &mut tries) {
                            ch = c;
                            best = o;
                            changed = true;
                        }
                    }
                    k = e;
                }
                ch = trim(ch);
                if block == 1 {
                    if !changed {
                        break;
                    }
                } else {
                    block = (block / 2).max(1);
                }
            }
        }
        rm = RunMode::Choices { choices: ch };
    }
    let fin = run_isolated(p, &case, &rm.to_mode(), true);
    let viol = fin.violation.clone().unwrap_or_else(|| v.clone());
    let nz = match &rm {
        RunMode::Choices { choices } => choices.iter().filter(|c| **c != 0).count() as i64,
        _ => -1,
    };
    let _ = best;
    let rf = ReplayFile {
        property: p.id().into(),
        verif_seed: seed,
        case_index: i,
        case: serde_json::to_value(&case).unwrap(),
        run: rm,
        original_run: rm0,
        original_case: serde_json::to_value(&case0).unwrap(),
        violation: viol,
        minimised: json!({"attempts": tries, "wall_s": real_now()-t0, "decisions_before": orig_choices, "non_default_decisions_after": nz}),
        trace_hash: format!("{:016x}", fin.trace),
        log: fin.log,
    };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-case{}.json", p.id(), seed, i));
    std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).expect("write replay");
    // replay in a fresh process
    if let Ok(exe) = std::env::current_exe() {
        let out = std::process::Command::new(exe).arg("replay").arg(&path).output();
        if let Ok(o) = out {
            println!("replay in a fresh process: exit={:?} {}", o.status.code(), String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or(""));
        }
    }
    path
}

fn trim(mut c: Vec<u32>) -> Vec<u32> {
    while c.last() == Some(&0) {
        c.pop();
    }
    c
}

/// Re-run a replay file; exit code 1 and the same violation if it reproduces.
pub fn replay<P: Property>(p: &P, path: &Path) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let raw: Value = serde_json::from_str(&s).expect("replay json");
    if raw["batch"].as_bool() == Some(true) {
        println!("batch verdict: re-run the check with VERIF_SEED={}", raw["verif_seed"]);
        std::env::set_var("VERIF_SEED", raw["verif_seed"].to_string());
        return check(p, if raw["tier"] == "Thorough" { Tier::Thorough } else { Tier::Quick });
    }
    let rf: ReplayFile = serde_json::from_value(raw).expect("replay json");
    let case: P::Case = serde_json::from_value(rf.case).expect("case");
    let fatal = ["process aborted", "endless loop"].contains(&rf.violation.class.as_str());
    if fatal && std::env::var("VSIM_CHILD").is_err() {
        let flight = std::env::temp_dir().join(format!("vsim-inflight-{}", std::process::id()));
        let ended = run_child(&flight, None);
        let _ = std::fs::remove_file(&flight);
        return match ended {
            Ended::Code(_) => {
                println!("NOT REPRODUCED property={}", p.id());
                0
            }
            _ => {
                println!("REPRODUCED property={} class={} signature={}", p.id(), rf.violation.class, rf.violation.signature);
                1
            }
        };
    }
    if fatal {
        InFlight::open().set(0, Some(rf.case_index));
    }
    let out = run_isolated(p, &case, &rf.run.to_mode(), true);
    for l in &out.log {
        println!("  {l}");
    }
    match out.violation {
        Some(v) => {
            let exact = format!("{:016x}", out.trace) == rf.trace_hash && v.class == rf.violation.class;
            println!("detail: {}", v.detail);
            println!("REPRODUCED property={} class={} signature={} exact={}", p.id(), v.class, v.signature, exact);
            1
        }
        None => {
            println!("NOT REPRODUCED property={}", p.id());
            0
        }
    }
}

/// Every case twice, across threads; prints the fingerprint of each so that processes can be diffed.
pub fn determinism<P: Property>(p: &P, n: usize, tier: Tier) -> i32 {
    let seed = seed_env();
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(vec![]);
    let lines = Mutex::new(BTreeMap::new());
    let workers: usize = std::env::var("VSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                let (case, rm) = case_of(p, seed, i, tier);
                let x = run_isolated(p, &case, &rm.to_mode(), false);
                let y = run_isolated(p, &case, &rm.to_mode(), false);
                if (x.trace, x.steps, x.sim_ns, &x.choices) != (y.trace, y.steps, y.sim_ns, &y.choices) {
                    bad.lock().unwrap().push(i);
                }
                lines.lock().unwrap().insert(i, format!("{} {} {:016x} {} {}", p.id(), i, x.trace, x.steps, x.sim_ns));
            });
        }
    });
    for l in lines.into_inner().unwrap().values() {
        println!("{l}");
    }
    let b = bad.into_inner().unwrap();
    eprintln!("{}: {} cases twice, diverged {:?}", p.id(), n, b);
    (!b.is_empty()) as i32
}
