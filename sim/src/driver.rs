//! Seeded search, minimisation, replay and evidence, for any family of simulations.
use crate::oracle::{Stats, Viol};
use crate::rng::{mix, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Family {
    type Cfg: Serialize + DeserializeOwned + Clone + Send;
    type Step: Serialize + DeserializeOwned + Clone + Send;
    type World;
    type Gen;
    const NAME: &'static str;
    const REAL: &'static str;
    const STUB: &'static str;
    fn draw(prop: &str, seed: u64, r: &mut Rng) -> (Self::Cfg, Self::Gen, usize);
    /// Builds the simulated system; an error is a violation of the system's own set-up.
    fn boot(cfg: &Self::Cfg) -> Result<Self::World, Viol>;
    fn next(g: &mut Self::Gen, w: &Self::World, r: &mut Rng) -> Self::Step;
    fn tail(g: &mut Self::Gen, w: &Self::World, r: &mut Rng) -> Vec<Self::Step>;
    fn apply(w: &mut Self::World, s: &Self::Step, st: &mut Stats) -> Vec<Viol>;
    fn state_hash(w: &Self::World) -> u64;
    fn slots(w: &Self::World) -> u64;
    /// Simpler variants of a step, most drastic first.
    fn simplify(s: &Self::Step) -> Vec<Self::Step>;
}

pub struct RunOut<F: Family> {
    pub cfg: F::Cfg,
    pub steps: Vec<F::Step>,
    pub viol: Option<Viol>,
    pub known: Vec<String>,
    pub hash: u64,
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let v: Value = serde_json::from_str(&txt).expect("known-findings file");
    let s = |x: &Value, k: &str| x[k].as_str().unwrap_or("").to_string();
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    property: s(x, "property"),
                    class: s(x, "class"),
                    contains: s(x, "detail_contains"),
                    what: s(x, "what"),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn bit(prop: &str) -> u64 {
    1 << prop.trim_start_matches('C').parse::<u32>().unwrap()
}

fn pick_viol(prop: &str, vs: Vec<Viol>, known: &[Known], seen: &mut Vec<String>) -> Option<Viol> {
    for v in vs {
        if v.props & bit(prop) == 0 {
            continue;
        }
        if let Some(k) = known
            .iter()
            .find(|k| k.property == prop && k.class == v.class && v.detail.contains(&k.contains))
        {
            if !seen.contains(&k.what) {
                seen.push(k.what.clone());
            }
            continue;
        }
        return Some(v);
    }
    None
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let p: u64 = prop.bytes().fold(7, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    mix(&[seed, p, idx])
}

/// What a worker is doing, for the watchdog: a step that never ends has no other witness.
pub struct Slot<F: Family> {
    since_ms: AtomicU64,
    idx: AtomicU64,
    doing: Mutex<Option<(F::Cfg, Vec<F::Step>)>>,
}

impl<F: Family> Slot<F> {
    fn new() -> Self {
        Slot { since_ms: AtomicU64::new(0), idx: AtomicU64::new(0), doing: Mutex::new(None) }
    }
    fn begin(&self, idx: u64) {
        self.idx.store(idx, Ordering::SeqCst);
        *self.doing.lock().unwrap() = None;
    }
    fn boot(&self, cfg: &F::Cfg) {
        *self.doing.lock().unwrap() = Some((cfg.clone(), vec![]));
        self.tick();
    }
    fn step(&self, s: &F::Step) {
        if let Some(d) = self.doing.lock().unwrap().as_mut() {
            d.1.push(s.clone());
        }
        self.tick();
    }
    fn tick(&self) {
        self.since_ms.store(now_ms().max(1), Ordering::SeqCst);
    }
    fn idle(&self) {
        self.since_ms.store(0, Ordering::SeqCst);
    }
}

fn now_ms() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// State so broken that reading it back fails is a violation of whatever is being checked.
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Viol> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        Viol { props: u64::MAX, class: "the state left behind cannot be read".into(), detail: m }
    })
}

pub fn run_one<F: Family>(prop: &str, seed: u64, known: &[Known], st: &mut Stats) -> RunOut<F> {
    run_watched(prop, seed, known, st, &Slot::new())
}

fn run_watched<F: Family>(prop: &str, seed: u64, known: &[Known], st: &mut Stats, slot: &Slot<F>) -> RunOut<F> {
    let mut r = Rng::new(seed);
    let (cfg, mut g, n) = F::draw(prop, seed, &mut r);
    st.hit("runs");
    slot.boot(&cfg);
    let mut out = RunOut::<F> { cfg: cfg.clone(), steps: vec![], viol: None, known: vec![], hash: seed };
    let mut w = match guarded(|| F::boot(&cfg)).and_then(|x| x) {
        Ok(w) => w,
        Err(v) => {
            slot.idle();
            st.hit("runs that could not be set up");
            out.viol = pick_viol(prop, vec![v], known, &mut out.known);
            return out;
        }
    };
    let h0 = st.h;
    st.h = seed;
    let mut tail: Option<std::vec::IntoIter<F::Step>> = None;
    while out.viol.is_none() {
        let s = if out.steps.len() < n {
            guarded(|| Some(F::next(&mut g, &w, &mut r)))
        } else {
            guarded(|| tail.get_or_insert_with(|| F::tail(&mut g, &w, &mut r).into_iter()).next())
        };
        let vs = match s {
            Ok(None) => break,
            Ok(Some(s)) => {
                slot.step(&s);
                out.steps.push(s.clone());
                guarded(|| F::apply(&mut w, &s, st)).unwrap_or_else(|v| vec![v])
            }
            Err(v) => vec![v],
        };
        out.viol = pick_viol(prop, vs, known, &mut out.known);
    }
    slot.idle();
    st.add("steps", out.steps.len() as u64);
    st.add("simulated slots", guarded(|| F::slots(&w)).unwrap_or(0));
    out.hash = mix(&[st.h, guarded(|| F::state_hash(&w)).unwrap_or(0)]);
    st.h = h0;
    out
}

/// Replays explicit steps; the first violation of the property.
pub fn replay_steps<F: Family>(prop: &str, cfg: &F::Cfg, steps: &[F::Step], known: &[Known]) -> Option<(usize, Viol)> {
    let mut st = Stats::default();
    let mut seen = vec![];
    let mut w = match guarded(|| F::boot(cfg)).and_then(|x| x) {
        Ok(w) => w,
        Err(v) => return pick_viol(prop, vec![v], known, &mut seen).map(|v| (0, v)),
    };
    for (i, s) in steps.iter().enumerate() {
        let vs = guarded(|| F::apply(&mut w, s, &mut st)).unwrap_or_else(|v| vec![v]);
        if let Some(v) = pick_viol(prop, vs, known, &mut seen) {
            return Some((i, v));
        }
    }
    None
}

/// Delta debugging over the step list, keeping the violation class; then simplification of the single steps.
pub fn minimise<F: Family>(
    prop: &str,
    cfg: &F::Cfg,
    steps: &[F::Step],
    class: &str,
    known: &[Known],
    budget: Duration,
) -> Vec<F::Step> {
    let t0 = Instant::now();
    let test = |s: &[F::Step]| -> Option<usize> {
        match replay_steps::<F>(prop, cfg, s, known) {
            Some((i, v)) if v.class == class => Some(i),
            _ => None,
        }
    };
    let mut cur: Vec<F::Step> = steps.to_vec();
    match test(&cur) {
        Some(i) => cur.truncate(i + 1),
        None => return cur,
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < budget {
            let j = (i + chunk).min(cur.len());
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[j..]);
            if let Some(k) = test(&cand) {
                cand.truncate(k + 1);
                cur = cand;
                changed = true;
            } else {
                i = j;
            }
        }
        if t0.elapsed() >= budget || (chunk == 1 && !changed) {
            break;
        }
        if !changed || chunk > cur.len() {
            chunk = (chunk / 2).max(1);
        }
    }
    let mut i = 0;
    while i < cur.len() && t0.elapsed() < budget {
        let mut better = false;
        for s in F::simplify(&cur[i]) {
            let mut cand = cur.clone();
            cand[i] = s;
            if let Some(k) = test(&cand) {
                cand.truncate(k + 1);
                cur = cand;
                better = true;
                break;
            }
        }
        if !better {
            i += 1;
        }
    }
    cur
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub secs: f64,
    pub threads: usize,
    pub root: String,
    pub level: String,
}

struct Ends<'a>(&'a AtomicU64);
impl Drop for Ends<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

/// Longest wall time of one step and most memory, far above anything a step of working code needs.
const STEP_LIMIT_MS: u64 = 60_000;
const RSS_LIMIT: u64 = 8 << 30;

fn rss() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn stuck<F: Family>(slots: &[Slot<F>], cleared: &HashSet<(usize, u64)>) -> Option<(usize, u64, String)> {
    let now = now_ms();
    let (k, since) = (0..slots.len())
        .map(|k| (k, slots[k].since_ms.load(Ordering::SeqCst)))
        .filter(|x| x.1 > 0 && !cleared.contains(x))
        .min_by_key(|x| x.1)?;
    let age = now.saturating_sub(since);
    if age > STEP_LIMIT_MS {
        return Some((k, since, format!("a single step has been running for {} s", age / 1000)));
    }
    if age > 1000 && rss() > RSS_LIMIT {
        return Some((k, since, format!("a single step runs and takes memory without end (after {} ms)", age)));
    }
    None
}

/// Replays a file in a process of its own; true if it uses up `cpu` seconds of processor time (or blocks for `wall`),
/// or is ended by a signal. Processor time, so that a busy or paused machine is not taken for code that does not end.
fn hangs(path: &str, root: &str, cpu: u64, wall: Duration) -> bool {
    let exe = std::env::current_exe().unwrap();
    let c = std::process::Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -v 4000000; ulimit -t {}; exec \"$0\" replayraw \"$1\"", cpu))
        .arg(exe)
        .arg(path)
        .env("SIM_ROOT", root)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(_) => return false,
    };
    let t = Instant::now();
    while t.elapsed() < wall {
        match c.try_wait() {
            Ok(Some(s)) => return s.code().is_none(),
            _ => std::thread::sleep(Duration::from_millis(10)),
        }
    }
    let _ = c.kill();
    let _ = c.wait();
    true
}

/// A step that does not end: no transaction of a working system does that, whatever property is asked about.
/// Believed only if the run does the same in a process of its own. The stuck threads cannot be stopped, so the
/// rest happens in a process image of its own (same pid).
fn report_stuck<F: Family>(o: &Opts, slot: &Slot<F>, why: &str) {
    use std::os::unix::process::CommandExt;
    let (cfg, steps) = match slot.doing.lock().unwrap().clone() {
        Some(x) => x,
        None => return,
    };
    let idx = slot.idx.load(Ordering::SeqCst);
    let s = run_seed(o.seed, &o.prop, idx);
    let dir = format!("{}/replays", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, o.prop, s);
    let file = json!({
        "property": o.prop, "family": F::NAME, "seed": o.seed, "run": idx, "run_seed": s,
        "class": NO_END, "detail": why, "at_step": steps.len().saturating_sub(1),
        "steps_before_minimising": steps.len(), "cfg": cfg, "steps": steps,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap());
    if !hangs(&path, &o.root, 30, Duration::from_secs(200)) {
        let _ = std::fs::remove_file(&path);
        return;
    }
    let ev = json!({
        "property": o.prop, "tier": o.tier, "seed": o.seed, "level": o.level,
        "wall_s": now_ms() as f64 / 1000.0, "violations": 1,
        "assumptions": [format!("real code: {}", F::REAL), format!("stubs: {}", F::STUB)],
        "coverage": {
            "evaluations": idx + 1, "distinct_nontrivial": 0,
            "rule": "ended early: a step of a simulated run did not end",
            "samples": [json!({"run_seed": s, "configuration": cfg})],
        },
    });
    let _ = std::fs::write(format!("{}/evidence/{}.json", o.root, o.prop), serde_json::to_string_pretty(&ev).unwrap());
    let e = std::process::Command::new(std::env::current_exe().unwrap()).arg("stuck").arg(&path).env("SIM_ROOT", &o.root).exec();
    eprintln!("harness error: {}", e);
    println!("VIOLATION property={} replay={}", o.prop, path);
    std::process::exit(1)
}

/// Confirms and minimises a run that did not end, with a process per trial, and reports it.
pub fn finish_stuck(root: &str, path: &str) -> i32 {
    let mut v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let mut steps = v["steps"].as_array().cloned().unwrap_or_default();
    let n0 = steps.len();
    {
        // Delta debugging; the last step is the one that does not end.
        let tmp = format!("{}.try", path);
        let t = Instant::now();
        let budget = Duration::from_secs(120);
        let mut chunk = (steps.len() / 2).max(1);
        while t.elapsed() < budget && !steps.is_empty() {
            let mut i = 0;
            let mut changed = false;
            while i + 1 < steps.len() && t.elapsed() < budget {
                let j = (i + chunk).min(steps.len() - 1);
                let mut cand = steps[..i].to_vec();
                cand.extend_from_slice(&steps[j..]);
                v["steps"] = Value::Array(cand.clone());
                let _ = std::fs::write(&tmp, serde_json::to_string(&v).unwrap());
                if hangs(&tmp, root, 3, Duration::from_secs(10)) {
                    steps = cand;
                    changed = true;
                } else {
                    i = j;
                }
            }
            if chunk == 1 && !changed {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        let _ = std::fs::remove_file(&tmp);
        v["at_step"] = json!(steps.len().saturating_sub(1));
        v["steps"] = Value::Array(steps.clone());
        let _ = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap());
    }
    println!("run {} of seed {}: {} steps, minimised to {}", v["run"], v["seed"], n0, steps.len());
    println!("violation class: {}\n{}", NO_END, v["detail"].as_str().unwrap_or(""));
    println!("replay in a fresh process: same violation");
    println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap_or(""), path);
    1
}

const NO_END: &str = "does not end";

pub fn check<F: Family>(o: &Opts) -> i32 {
    let t0 = Instant::now();
    println!("check property={} tier={} seed={} family={}", o.prop, o.tier, o.seed, F::NAME);
    let known = load_known(&format!("{}/known-findings.json", o.root));
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let hashes: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let nontrivial: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let known_seen: Mutex<Vec<String>> = Mutex::new(vec![]);
    let found: Mutex<Option<(u64, RunOut<F>)>> = Mutex::new(None);
    let slots: Vec<Slot<F>> = (0..o.threads + 1).map(|_| Slot::new()).collect();
    let busy = AtomicU64::new(o.threads as u64);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            // Steps looked into already (by slot and start).
            let mut cleared: HashSet<(usize, u64)> = HashSet::new();
            while busy.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                if let Some((k, since, why)) = stuck(&slots, &cleared) {
                    report_stuck(o, &slots[k], &why);
                    cleared.insert((k, since));
                }
            }
        });
        for k in 0..o.threads {
            let slot = &slots[k];
            let (next, best, stop, found, known, known_seen) = (&next, &best, &stop, &found, &known, &known_seen);
            let (total, hashes, nontrivial, busy) = (&total, &hashes, &nontrivial, &busy);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let _ends = Ends(busy);
                    let mut st = Stats::default();
                    let mut hs = vec![];
                    let mut nt = vec![];
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= o.runs || idx >= best.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > o.secs && idx > 0 {
                            stop.store(true, Ordering::SeqCst);
                        }
                        let (a, b) = (st.get("tx committed"), st.faults());
                        slot.begin(idx);
                        let out = run_watched::<F>(&o.prop, run_seed(o.seed, &o.prop, idx), known, &mut st, slot);
                        if st.get("tx committed") >= a + 5 && st.faults() > b {
                            nt.push(out.hash);
                        }
                        if idx < 24 {
                            hs.push((idx, out.hash));
                        }
                        for x in &out.known {
                            let mut k = known_seen.lock().unwrap();
                            if !k.contains(x) {
                                k.push(x.clone());
                            }
                        }
                        if out.viol.is_some() {
                            best.fetch_min(idx, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |x| idx < x.0) {
                                *f = Some((idx, out));
                            }
                        }
                    }
                    total.lock().unwrap().merge(st);
                    hashes.lock().unwrap().extend(hs);
                    nontrivial.lock().unwrap().extend(nt);
                })
                .unwrap();
        }
    });
    let search = t0.elapsed();
    let st = total.into_inner().unwrap();
    let nt = nontrivial.into_inner().unwrap().len();
    let mut found = found.into_inner().unwrap();
    // Determinism: a sample of runs again, on other threads, must leave identical logs and states.
    let hs = hashes.into_inner().unwrap();
    let mut differs: Vec<u64> = vec![];
    if found.is_none() {
        let list: Vec<(u64, u64)> = hs.into_iter().collect();
        let bad: Mutex<Vec<u64>> = Mutex::new(vec![]);
        let late: Mutex<Option<(u64, RunOut<F>)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for part in list.chunks((list.len() / 3).max(1)) {
                let (known, bad, late) = (&known, &bad, &late);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        for (i, h) in part.iter().rev() {
                            let mut s = Stats::default();
                            let x = run_one::<F>(&o.prop, run_seed(o.seed, &o.prop, *i), known, &mut s);
                            if x.hash != *h {
                                bad.lock().unwrap().push(*i);
                            }
                            if x.viol.is_some() {
                                *late.lock().unwrap() = Some((*i, x));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        differs = bad.into_inner().unwrap();
        found = late.into_inner().unwrap();
    }
    // Samples for the evidence file.
    let mut scratch = Stats::default();
    let sample = {
        let out = run_one::<F>(&o.prop, run_seed(o.seed, &o.prop, 0), &known, &mut scratch);
        json!({
            "run_seed": run_seed(o.seed, &o.prop, 0),
            "configuration": serde_json::to_value(&out.cfg).unwrap(),
            "first_steps": out.steps.iter().take(6).map(|s| serde_json::to_value(s).unwrap()).collect::<Vec<_>>(),
            "steps": out.steps.len(),
        })
    };
    let mut code = 0;
    let mut nviol = 0;
    if let Some((idx, out)) = found {
        nviol = 1;
        let s = run_seed(o.seed, &o.prop, idx);
        let v = out.viol.clone().unwrap();
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{:016x}.json", dir, o.prop, s);
        let write = |at: usize, v: &Viol, steps: &[F::Step]| {
            let file = json!({
                "property": o.prop, "family": F::NAME, "seed": o.seed, "run": idx, "run_seed": s,
                "class": v.class, "detail": v.detail, "at_step": at,
                "steps_before_minimising": out.steps.len(),
                "cfg": out.cfg, "steps": steps,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap())
        };
        if let Err(e) = write(out.steps.len().saturating_sub(1), &v, &out.steps) {
            eprintln!("harness error: cannot write {}: {}", path, e);
            return 2;
        }
        // Smaller step lists can make broken code run for ever; then the whole run is the report.
        let (prop, file, what) = (o.prop.clone(), path.clone(), v.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(120));
            println!("violation class: {}\n{}", what.class, what.detail);
            println!("VIOLATION property={} replay={}", prop, file);
            std::process::exit(1);
        });
        let min = minimise::<F>(&o.prop, &out.cfg, &out.steps, &v.class, &known, Duration::from_secs(40));
        let (at, v2) = match replay_steps::<F>(&o.prop, &out.cfg, &min, &known) {
            Some(x) => x,
            // Code that behaves differently every time: the run as it was is all there is to show.
            None => (out.steps.len().saturating_sub(1), v.clone()),
        };
        if let Err(e) = write(at, &v2, &min) {
            eprintln!("harness error: cannot write {}: {}", path, e);
            return 2;
        }
        // Replay in a fresh process: it has to fail the same way.
        let again = std::env::current_exe().ok().and_then(|e| {
            std::process::Command::new(e).args(["replay", &path]).env("SIM_ROOT", &o.root).output().ok()
        });
        let same = again.map(|x| String::from_utf8_lossy(&x.stdout).contains(&v2.detail)).unwrap_or(false);
        println!("run {} of seed {}: {} steps, minimised to {}", idx, o.seed, out.steps.len(), min.len());
        println!("violation class: {}", v2.class);
        println!("{}", v2.detail);
        println!("replay in a fresh process: {}", if same { "same violation" } else { "DIFFERENT" });
        println!("VIOLATION property={} replay={}", o.prop, path);
        code = 1;
    }
    if !differs.is_empty() {
        println!("note: runs {:?} went differently the second time; both times the property held", differs);
    }
    if code == 0 && st.get("runs that could not be set up") == st.get("runs") {
        eprintln!("harness error: no run could be set up");
        code = 2;
    }
    for k in known_seen.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {}", o.prop, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = st.get("runs");
    let per_hour = (runs as f64 / search.as_secs_f64() * 3600.0) as u64;
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        st.n.iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| (k.trim_start_matches(pre).to_string(), *v))
            .collect()
    };
    let slots = st.get("simulated slots");
    let ev = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": o.level,
        "wall_s": wall,
        "violations": nviol,
        "assumptions": [
            format!("real code: {}", F::REAL),
            format!("stubs: {}", F::STUB),
            "sampling: a clean batch is evidence, not proof",
        ],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nt,
            "rule": "one evaluation = one simulated run (seed -> configuration, workload, schedule, faults); non-trivial = at least 5 committed transactions and at least one injected fault, refusal or byzantine transaction; distinct by a hash over the sequence of (operation, outcome) and the final state of all accounts",
            "samples": [sample],
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "steps": st.get("steps"),
            "transactions": st.get("tx"),
            "transactions_committed": st.get("tx committed"),
            "simulated_slots": slots,
            "simulated_hours_at_400ms_per_slot": slots as f64 * 0.4 / 3600.0,
            "faults_injected": pick("fault: "),
            "refusals_expected_and_seen": pick("refused: "),
            "conditions_reached": pick("reach: "),
            "operations_committed": pick("ok: "),
            "byzantine_transactions_rejected": st.get("byzantine tx (rejected)"),
            "byzantine_transactions_harmless": st.get("byzantine tx (harmless, accepted)"),
            "exit_phases": st.get("exit phases"),
            "crank_schedule_comparisons": st.get("drain comparisons"),
            "fault_sweeps": st.get("fault sweeps"),
            "distinct_states": st.states.len(),
            "distinct_states_measure": "distinct abstract states after a committed transaction: log2 sizes of books, queue and order slots, flags, kind of the next event, claims present, fees present",
            "determinism_runs_repeated": 24.min(runs),
            "determinism_runs_differing": differs.len(),
        },
    });
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, o.prop), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("harness error: evidence: {}", e);
        return 2;
    }
    if std::env::var("SIM_STATS").is_ok() {
        for (k, v) in &st.n {
            println!("  {:50} {}", k, v);
        }
    }
    println!(
        "{} runs, {} steps, {} transactions ({} committed), {} states, {:.1} s",
        runs,
        st.get("steps"),
        st.get("tx"),
        st.get("tx committed"),
        st.states.len(),
        wall
    );
    if code == 0 {
        println!("OK property={} held on everything explored", o.prop);
    }
    code
}

pub fn replay_file<F: Family>(root: &str, path: &str, raw: bool, v: &Value) -> i32 {
    if !raw && v["class"].as_str() == Some(NO_END) {
        let h = hangs(path, root, 20, Duration::from_secs(200));
        if h {
            println!("{}\nREPRODUCED property={}", NO_END, v["property"].as_str().unwrap_or(""));
        } else {
            println!("no violation");
        }
        return h as i32;
    }
    if raw {
        // Never outlives whoever is waiting for it by much.
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(250));
            std::process::exit(99);
        });
    }
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let cfg: F::Cfg = serde_json::from_value(v["cfg"].clone()).expect("cfg");
    let steps: Vec<F::Step> = serde_json::from_value(v["steps"].clone()).expect("steps");
    let known = load_known(&format!("{}/known-findings.json", root));
    match replay_steps::<F>(&prop, &cfg, &steps, &known) {
        Some((i, x)) => {
            println!("step {}: {}", i, x.class);
            println!("{}", x.detail);
            if Some(x.class.as_str()) == v["class"].as_str() {
                println!("REPRODUCED property={}", prop);
            }
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Bare search without minimisation or evidence: the first failing run.
pub fn scan<F: Family>(prop: &str, seed: u64, runs: u64, secs: f64, threads: usize) -> Option<(u64, Viol)> {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let best: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
    let hit = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= runs || hit.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let out = run_one::<F>(prop, run_seed(seed, prop, idx), &[], &mut st);
                        if let Some(v) = out.viol {
                            hit.store(true, Ordering::SeqCst);
                            let mut b = best.lock().unwrap();
                            if b.as_ref().map_or(true, |(i, _)| idx < *i) {
                                *b = Some((idx, v));
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    best.into_inner().unwrap()
}
