//! Case driver: deterministic cases, spread over the cores; logs, evidence, replay files.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Cfg {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub out: String,
    pub only: Option<u64>,
    pub stage: Option<String>,
    pub scale: f64,
    /// the command line program under test, and the library that makes its hash order replayable
    pub bin: String,
    pub shim: String,
    pub t0: Instant,
    pub wall: f64,
}
impl Cfg {
    pub fn quick(&self) -> bool {
        self.tier != "thorough"
    }
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub what: String,
    pub input: String,
    pub case: u64,
    pub stage: String,
}
/// keys of the recorded findings: they are reported apart, and don't end a run
pub static KNOWN: std::sync::OnceLock<std::collections::BTreeSet<String>> = std::sync::OnceLock::new();
#[derive(Default)]
pub struct Log {
    pub case: u64,
    pub verbose: bool,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub findings: BTreeMap<String, Violation>,
}
impl Log {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max {}", k)).or_default();
        *e = (*e).max(n);
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, key: u64) {
        /* bounded memory: beyond this many the count is a lower bound */
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(key);
        }
    }
    pub fn distinct_in(&mut self, set: &str, key: u64) {
        self.sets.entry(set.to_string()).or_default().insert(key);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            s.truncate(1500);
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, key: &str, what: String, input: String) {
        if KNOWN.get().map_or(false, |k| k.contains(key)) {
            self.count(&format!("observations of the known finding '{}'", key), 1);
            let case = self.case;
            self.findings.entry(key.to_string()).or_insert_with(|| Violation { key: key.to_string(), what, input, case, stage: String::new() });
            return;
        }
        if self.violations.len() < 20 {
            self.violations.push(Violation { key: key.to_string(), what, input, case: self.case, stage: String::new() });
        }
        self.count("violations", 1);
    }
    fn merge(&mut self, o: Log) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            let e = self.counters.entry(k.clone()).or_default();
            if k.starts_with("max ") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        for (k, v) in o.findings {
            self.findings.entry(k).or_insert(v);
        }
    }
}
pub fn stream(id: &str, case: u64) -> u64 {
    let mut h = 1469598103934665603u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    h ^ case.wrapping_mul(0xA24BAED4963EE407)
}
/// Runs cases 0..n of the property over all cores, until n is reached, the wall-clock guard fires
/// (fewer cases are then reported) or enough violations were seen.
pub fn drive<F: Fn(u64, &mut Rng, &mut Log) + Sync>(cfg: &Cfg, total: &mut Log, name: &str, n: u64, f: F) {
    if cfg.stage.as_deref().map_or(false, |s| s != name) {
        return;
    }
    let n = if cfg.scale == 1.0 { n } else { (n as f64 * cfg.scale) as u64 };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let nviol = AtomicU64::new(0);
    let acc: Mutex<Vec<Log>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut log = Log { verbose: cfg.only.is_some(), ..Default::default() };
                if let Some(i) = cfg.only {
                    next.store(n.max(i + 1), Ordering::SeqCst);
                    if nviol.fetch_add(1 << 32, Ordering::SeqCst) >> 32 == 0 {
                        log.case = i;
                        let mut r = Rng::new(cfg.seed, stream(&format!("{}/{}", cfg.id, name), i));
                        f(i, &mut r, &mut log);
                    }
                    acc.lock().unwrap().push(log);
                    return;
                }
                loop {
                    if stop.load(Ordering::Relaxed) || cfg.t0.elapsed().as_secs_f64() > cfg.wall {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    log.case = i;
                    let before = log.violations.len();
                    let mut r = Rng::new(cfg.seed, stream(&format!("{}/{}", cfg.id, name), i));
                    f(i, &mut r, &mut log);
                    if log.violations.len() > before && nviol.fetch_add(1, Ordering::Relaxed) > 6 {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                acc.lock().unwrap().push(log);
            });
        }
    });
    let done = next.load(Ordering::Relaxed).min(n);
    if done < n && !stop.load(Ordering::Relaxed) {
        total.count("stages stopped by the wall-clock guard", 1);
    }
    for mut l in acc.into_inner().unwrap() {
        for v in l.violations.iter_mut() {
            v.what = format!("[stage {} case {}] {}", name, v.case, v.what);
            v.stage = name.to_string();
        }
        total.merge(l);
    }
}
