//! Seeded search, minimisation, replay and evidence, for any family of simulations.
use crate::oracle::{Stats, Viol};
use crate::rng::{mix, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Family {
    type Cfg: Serialize + DeserializeOwned + Clone;
    type Step: Serialize + DeserializeOwned + Clone;
    type World;
    type Gen;
    const NAME: &'static str;
    const REAL: &'static str;
    const STUB: &'static str;
    fn draw(prop: &str, seed: u64, r: &mut Rng) -> (Self::Cfg, Self::Gen, usize);
    /// Builds the simulated system; an error is a violation of the system's own set-up.
    fn boot(cfg: &Self::Cfg) -> Result<Self::World, Viol>;
    fn next(g: &mut Self::Gen, w: &Self::World, r: &mut Rng) -> Self::Step;
    fn tail(g: &mut Self::Gen, w: &Self::World, r: &mut Rng) -> Vec<Self::Step>;
    fn apply(w: &mut Self::World, s: &Self::Step, st: &mut Stats) -> Vec<Viol>;
    fn state_hash(w: &Self::World) -> u64;
    fn slots(w: &Self::World) -> u64;
    /// Simpler variants of a step, most drastic first.
    fn simplify(s: &Self::Step) -> Vec<Self::Step>;
}

pub struct RunOut<F: Family> {
    pub cfg: F::Cfg,
    pub steps: Vec<F::Step>,
    pub viol: Option<Viol>,
    pub known: Vec<String>,
    pub hash: u64,
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let v: Value = serde_json::from_str(&txt).expect("known-findings file");
    let s = |x: &Value, k: &str| x[k].as_str().unwrap_or("").to_string();
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    property: s(x, "property"),
                    class: s(x, "class"),
                    contains: s(x, "detail_contains"),
                    what: s(x, "what"),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn bit(prop: &str) -> u64 {
    1 << prop.trim_start_matches('C').parse::<u32>().unwrap()
}

fn pick_viol(prop: &str, vs: Vec<Viol>, known: &[Known], seen: &mut Vec<String>) -> Option<Viol> {
    for v in vs {
        if v.props & bit(prop) == 0 {
            continue;
        }
        if let Some(k) = known
            .iter()
            .find(|k| k.property == prop && k.class == v.class && v.detail.contains(&k.contains))
        {
            if !seen.contains(&k.what) {
                seen.push(k.what.clone());
            }
            continue;
        }
        return Some(v);
    }
    None
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let p: u64 = prop.bytes().fold(7, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    mix(&[seed, p, idx])
}

pub fn run_one<F: Family>(prop: &str, seed: u64, known: &[Known], st: &mut Stats) -> RunOut<F> {
    let mut r = Rng::new(seed);
    let (cfg, mut g, n) = F::draw(prop, seed, &mut r);
    st.hit("runs");
    let mut out = RunOut::<F> { cfg: cfg.clone(), steps: vec![], viol: None, known: vec![], hash: seed };
    let mut w = match F::boot(&cfg) {
        Ok(w) => w,
        Err(v) => {
            st.hit("runs that could not be set up");
            out.viol = pick_viol(prop, vec![v], known, &mut out.known);
            return out;
        }
    };
    let h0 = st.h;
    st.h = seed;
    for _ in 0..n {
        let s = F::next(&mut g, &w, &mut r);
        out.steps.push(s.clone());
        let vs = F::apply(&mut w, &s, st);
        out.viol = pick_viol(prop, vs, known, &mut out.known);
        if out.viol.is_some() {
            break;
        }
    }
    if out.viol.is_none() {
        for s in F::tail(&mut g, &w, &mut r) {
            out.steps.push(s.clone());
            let vs = F::apply(&mut w, &s, st);
            out.viol = pick_viol(prop, vs, known, &mut out.known);
            if out.viol.is_some() {
                break;
            }
        }
    }
    st.add("steps", out.steps.len() as u64);
    st.add("simulated slots", F::slots(&w));
    out.hash = mix(&[st.h, F::state_hash(&w)]);
    st.h = h0;
    out
}

/// Replays explicit steps; the first violation of the property.
pub fn replay_steps<F: Family>(prop: &str, cfg: &F::Cfg, steps: &[F::Step], known: &[Known]) -> Option<(usize, Viol)> {
    let mut st = Stats::default();
    let mut seen = vec![];
    let mut w = match F::boot(cfg) {
        Ok(w) => w,
        Err(v) => return pick_viol(prop, vec![v], known, &mut seen).map(|v| (0, v)),
    };
    for (i, s) in steps.iter().enumerate() {
        let vs = F::apply(&mut w, s, &mut st);
        if let Some(v) = pick_viol(prop, vs, known, &mut seen) {
            return Some((i, v));
        }
    }
    None
}

/// Delta debugging over the step list, keeping the violation class; then simplification of the single steps.
pub fn minimise<F: Family>(
    prop: &str,
    cfg: &F::Cfg,
    steps: &[F::Step],
    class: &str,
    known: &[Known],
    budget: Duration,
) -> Vec<F::Step> {
    let t0 = Instant::now();
    let test = |s: &[F::Step]| -> Option<usize> {
        match replay_steps::<F>(prop, cfg, s, known) {
            Some((i, v)) if v.class == class => Some(i),
            _ => None,
        }
    };
    let mut cur: Vec<F::Step> = steps.to_vec();
    match test(&cur) {
        Some(i) => cur.truncate(i + 1),
        None => return cur,
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < budget {
            let j = (i + chunk).min(cur.len());
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[j..]);
            if let Some(k) = test(&cand) {
                cand.truncate(k + 1);
                cur = cand;
                changed = true;
            } else {
                i = j;
            }
        }
        if t0.elapsed() >= budget || (chunk == 1 && !changed) {
            break;
        }
        if !changed || chunk > cur.len() {
            chunk = (chunk / 2).max(1);
        }
    }
    let mut i = 0;
    while i < cur.len() && t0.elapsed() < budget {
        let mut better = false;
        for s in F::simplify(&cur[i]) {
            let mut cand = cur.clone();
            cand[i] = s;
            if let Some(k) = test(&cand) {
                cand.truncate(k + 1);
                cur = cand;
                better = true;
                break;
            }
        }
        if !better {
            i += 1;
        }
    }
    cur
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub secs: f64,
    pub threads: usize,
    pub root: String,
    pub level: String,
}

pub fn check<F: Family>(o: &Opts) -> i32 {
    let t0 = Instant::now();
    println!("check property={} tier={} seed={} family={}", o.prop, o.tier, o.seed, F::NAME);
    let known = load_known(&format!("{}/known-findings.json", o.root));
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let hashes: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let nontrivial: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let known_seen: Mutex<Vec<String>> = Mutex::new(vec![]);
    let found: Mutex<Option<u64>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..o.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    let mut hs = vec![];
                    let mut nt = vec![];
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= o.runs || idx >= best.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > o.secs && idx > 0 {
                            stop.store(true, Ordering::SeqCst);
                        }
                        let (a, b) = (st.get("tx committed"), st.faults());
                        let out = run_one::<F>(&o.prop, run_seed(o.seed, &o.prop, idx), &known, &mut st);
                        if st.get("tx committed") >= a + 5 && st.faults() > b {
                            nt.push(out.hash);
                        }
                        if idx < 24 {
                            hs.push((idx, out.hash));
                        }
                        if !out.known.is_empty() {
                            let mut k = known_seen.lock().unwrap();
                            for x in out.known {
                                if !k.contains(&x) {
                                    k.push(x);
                                }
                            }
                        }
                        if out.viol.is_some() {
                            best.fetch_min(idx, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            *f = Some(f.map_or(idx, |x| x.min(idx)));
                        }
                    }
                    total.lock().unwrap().merge(st);
                    hashes.lock().unwrap().extend(hs);
                    nontrivial.lock().unwrap().extend(nt);
                })
                .unwrap();
        }
    });
    let search = t0.elapsed();
    let st = total.into_inner().unwrap();
    let nt = nontrivial.into_inner().unwrap().len();
    let found = found.into_inner().unwrap();
    // Determinism: a sample of runs again, on other threads, must leave identical logs and states.
    let hs = hashes.into_inner().unwrap();
    let mut differs: Vec<u64> = vec![];
    if found.is_none() {
        let list: Vec<(u64, u64)> = hs.into_iter().collect();
        let bad: Mutex<Vec<u64>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for part in list.chunks((list.len() / 3).max(1)) {
                let (known, bad) = (&known, &bad);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        for (i, h) in part.iter().rev() {
                            let mut s = Stats::default();
                            let x = run_one::<F>(&o.prop, run_seed(o.seed, &o.prop, *i), known, &mut s);
                            if x.hash != *h {
                                bad.lock().unwrap().push(*i);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        differs = bad.into_inner().unwrap();
    }
    // Samples for the evidence file.
    let mut scratch = Stats::default();
    let sample = {
        let out = run_one::<F>(&o.prop, run_seed(o.seed, &o.prop, 0), &known, &mut scratch);
        json!({
            "run_seed": run_seed(o.seed, &o.prop, 0),
            "configuration": serde_json::to_value(&out.cfg).unwrap(),
            "first_steps": out.steps.iter().take(6).map(|s| serde_json::to_value(s).unwrap()).collect::<Vec<_>>(),
            "steps": out.steps.len(),
        })
    };
    let mut code = 0;
    let mut nviol = 0;
    if let Some(idx) = found {
        nviol = 1;
        let s = run_seed(o.seed, &o.prop, idx);
        let out = run_one::<F>(&o.prop, s, &known, &mut scratch);
        let v = match out.viol {
            Some(v) => v,
            None => {
                eprintln!("harness error: run {} did not fail again", idx);
                return 2;
            }
        };
        let min = minimise::<F>(&o.prop, &out.cfg, &out.steps, &v.class, &known, Duration::from_secs(40));
        let (at, v2) = match replay_steps::<F>(&o.prop, &out.cfg, &min, &known) {
            Some(x) => x,
            None => (out.steps.len() - 1, v.clone()),
        };
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{:016x}.json", dir, o.prop, s);
        let file = json!({
            "property": o.prop, "family": F::NAME, "seed": o.seed, "run": idx, "run_seed": s,
            "class": v2.class, "detail": v2.detail, "at_step": at,
            "steps_before_minimising": out.steps.len(),
            "cfg": out.cfg, "steps": min,
        });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()) {
            eprintln!("harness error: cannot write {}: {}", path, e);
            return 2;
        }
        // Replay in a fresh process: it has to fail the same way.
        let again = std::env::current_exe().ok().and_then(|e| {
            std::process::Command::new(e).args(["replay", &path]).env("SIM_ROOT", &o.root).output().ok()
        });
        let same = again.map(|x| String::from_utf8_lossy(&x.stdout).contains(&v2.detail)).unwrap_or(false);
        println!("run {} of seed {}: {} steps, minimised to {}", idx, o.seed, out.steps.len(), min.len());
        println!("violation class: {}", v2.class);
        println!("{}", v2.detail);
        println!("replay in a fresh process: {}", if same { "same violation" } else { "DIFFERENT" });
        println!("VIOLATION property={} replay={}", o.prop, path);
        code = 1;
    } else if !differs.is_empty() {
        eprintln!("harness error: runs {:?} are not deterministic", differs);
        code = 2;
    } else if st.get("runs that could not be set up") == st.get("runs") {
        eprintln!("harness error: no run could be set up");
        code = 2;
    }
    for k in known_seen.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {}", o.prop, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = st.get("runs");
    let per_hour = (runs as f64 / search.as_secs_f64() * 3600.0) as u64;
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        st.n.iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| (k.trim_start_matches(pre).to_string(), *v))
            .collect()
    };
    let slots = st.get("simulated slots");
    let ev = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": o.level,
        "wall_s": wall,
        "violations": nviol,
        "assumptions": [
            format!("real code: {}", F::REAL),
            format!("stubs: {}", F::STUB),
            "sampling: a clean batch is evidence, not proof",
        ],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nt,
            "rule": "one evaluation = one simulated run (seed -> configuration, workload, schedule, faults); non-trivial = at least 5 committed transactions and at least one injected fault, refusal or byzantine transaction; distinct by a hash over the sequence of (operation, outcome) and the final state of all accounts",
            "samples": [sample],
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "steps": st.get("steps"),
            "transactions": st.get("tx"),
            "transactions_committed": st.get("tx committed"),
            "simulated_slots": slots,
            "simulated_hours_at_400ms_per_slot": slots as f64 * 0.4 / 3600.0,
            "faults_injected": pick("fault: "),
            "refusals_expected_and_seen": pick("refused: "),
            "conditions_reached": pick("reach: "),
            "operations_committed": pick("ok: "),
            "byzantine_transactions_rejected": st.get("byzantine tx (rejected)"),
            "byzantine_transactions_harmless": st.get("byzantine tx (harmless, accepted)"),
            "exit_phases": st.get("exit phases"),
            "crank_schedule_comparisons": st.get("drain comparisons"),
            "fault_sweeps": st.get("fault sweeps"),
            "distinct_states": st.states.len(),
            "distinct_states_measure": "distinct abstract states after a committed transaction: log2 sizes of books, queue and order slots, flags, kind of the next event, claims present, fees present",
            "determinism_runs_repeated": 24.min(runs),
            "determinism_runs_differing": differs.len(),
        },
    });
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, o.prop), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("harness error: evidence: {}", e);
        return 2;
    }
    if std::env::var("SIM_STATS").is_ok() {
        for (k, v) in &st.n {
            println!("  {:50} {}", k, v);
        }
    }
    println!(
        "{} runs, {} steps, {} transactions ({} committed), {} states, {:.1} s",
        runs,
        st.get("steps"),
        st.get("tx"),
        st.get("tx committed"),
        st.states.len(),
        wall
    );
    if code == 0 {
        println!("OK property={} held on everything explored", o.prop);
    }
    code
}

pub fn replay_file<F: Family>(root: &str, v: &Value) -> i32 {
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let cfg: F::Cfg = serde_json::from_value(v["cfg"].clone()).expect("cfg");
    let steps: Vec<F::Step> = serde_json::from_value(v["steps"].clone()).expect("steps");
    let known = load_known(&format!("{}/known-findings.json", root));
    match replay_steps::<F>(&prop, &cfg, &steps, &known) {
        Some((i, x)) => {
            println!("step {}: {}", i, x.class);
            println!("{}", x.detail);
            if Some(x.class.as_str()) == v["class"].as_str() {
                println!("REPRODUCED property={}", prop);
            }
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Bare search without minimisation or evidence: the first failing run.
pub fn scan<F: Family>(prop: &str, seed: u64, runs: u64, secs: f64, threads: usize) -> Option<(u64, Viol)> {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let best: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
    let hit = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= runs || hit.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let out = run_one::<F>(prop, run_seed(seed, prop, idx), &[], &mut st);
                        if let Some(v) = out.viol {
                            hit.store(true, Ordering::SeqCst);
                            let mut b = best.lock().unwrap();
                            if b.as_ref().map_or(true, |(i, _)| idx < *i) {
                                *b = Some((idx, v));
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    best.into_inner().unwrap()
}
