//! Case runner: generates cases from (seed, family, index), runs them in parallel with panics
//! captured, aggregates what the monitors observed, writes evidence and replay files.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        // these abort the process: say why
        let full = info.to_string();
        if full.contains("unsafe precondition") { eprintln!("{full}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run `f`, turning a panic into Err(description).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

/// What one case observed.
#[derive(Default)]
pub struct Obs {
    pub sig: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: Vec<(&'static str, u64)>,
    pub sample: Option<String>,
}

impl Obs {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    /// contribute to the case signature (used to count distinct cases)
    pub fn sign(&mut self, s: &str) {
        self.sig = mix(self.sig ^ hash_bytes(s.as_bytes()));
        self.nontrivial = true;
    }
    /// Count a distinct observed state/interleaving under a named set.
    pub fn state(&mut self, set: &'static str, h: u64) {
        self.distinct.push((set, h));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

/// A case outcome: Err = violation of the property with a description.
pub type Case = Result<(), String>;

pub struct Runner {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub start: Instant,
    pub rules: Vec<String>,
    pub evaluations: AtomicU64,
    pub agg: Mutex<Agg>,
    pub only: Option<(String, u64)>,
    pub required: Vec<&'static str>,
    pub assumptions: Vec<String>,
    pub out_dir: std::path::PathBuf,
    pub shard: Option<(u64, u64)>,
    pub scale: f64,
    /// worker mode: results go to this directory, and the case in progress is noted there
    pub worker_dir: Option<std::path::PathBuf>,
    pub last: Option<std::fs::File>,
    /// do not end a family at its first violation
    pub keep_going: bool,
}

#[derive(Default)]
pub struct Agg {
    pub sigs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<&'static str, HashSet<u64>>,
    pub samples: Vec<serde_json::Value>,
    pub families: BTreeMap<String, u64>,
    pub violations: Vec<(String, u64, String)>,
    pub errors: Vec<String>,
}

/// Case-count multipliers that bring each property's quick run to some ten seconds on eight cores.
fn weight(prop: &str) -> f64 {
    match prop {
        "C01" | "C02" | "C08" => 5.0,
        "C03" | "C20" => 8.0,
        "C04" | "C16" => 40.0,
        "C05" | "C23" => 30.0,
        "C06" => 50.0,
        "C07" | "C22" => 20.0,
        "C09" => 10.0,
        "C10" | "C11" => 100.0,
        "C12" => 6.0,
        "C13" => 5.0,
        "C17" | "C18" => 50.0,
        "C19" => 2.0,
        _ => 1.0,
    }
}

impl Runner {
    pub fn new(prop: &str, seed: u64, thorough: bool, out_dir: std::path::PathBuf) -> Self {
        Runner {
            prop: prop.to_string(),
            seed,
            thorough,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            start: Instant::now(),
            rules: vec![],
            evaluations: AtomicU64::new(0),
            agg: Mutex::new(Agg::default()),
            only: None,
            required: vec![],
            assumptions: vec![],
            out_dir,
            shard: None,
            scale: std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| weight(prop)),
            worker_dir: None,
            last: None,
            keep_going: false,
        }
    }

    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    pub fn require(&mut self, ks: &[&'static str]) {
        self.required.extend_from_slice(ks);
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    fn case_rng(&self, family: &str, idx: u64) -> Rng {
        Rng::new(mix(self.seed ^ hash_bytes(self.prop.as_bytes()))
            ^ mix(hash_bytes(family.as_bytes()) ^ mix(idx)))
    }

    /// Run `quick` (or `thorough`) cases of a family.
    pub fn family(
        &self,
        name: &str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Rng, &mut Obs, u64) -> Case + Sync,
    ) {
        if let Ok(f) = std::env::var("VMON_FAMILIES") {
            if !f.split(',').any(|x| x == name) { return; }
        }
        let n = if self.thorough { thorough } else { quick };
        let n = if self.scale != 1.0 { ((n as f64 * self.scale) as u64).max(1) } else { n };
        self.family_n(name, n, self.threads, f)
    }

    pub fn family_n(
        &self,
        name: &str,
        n: u64,
        threads: usize,
        f: impl Fn(&mut Rng, &mut Obs, u64) -> Case + Sync,
    ) {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let (lo, hi) = match &self.only {
            Some((fam, idx)) => {
                if fam != name {
                    return;
                }
                (*idx, *idx + 1)
            }
            None => (0, n),
        };
        next.store(lo, Ordering::SeqCst);
        let work = || {
            let mut local = Agg::default();
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= hi {
                    break;
                }
                if let Some((k, m)) = self.shard {
                    if self.only.is_none() && i % m != k {
                        continue;
                    }
                }
                let mut rng = self.case_rng(name, i);
                let mut obs = Obs::default();
                if let Some(f) = &self.last {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_all_at(format!("{:<100}\n", format!("{name} {i}")).as_bytes(), 0);
                }
                let r = match no_panic(|| f(&mut rng, &mut obs, i)) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                };
                self.evaluations.fetch_add(1, Ordering::Relaxed);
                *local.families.entry(name.to_string()).or_default() += 1;
                if obs.nontrivial {
                    local.sigs.insert(mix(obs.sig ^ hash_bytes(name.as_bytes())));
                }
                for (k, v) in obs.counters {
                    *local.counters.entry(k.to_string()).or_default() += v;
                }
                for (k, h) in obs.distinct {
                    local.sets.entry(k).or_default().insert(h);
                }
                if let Some(s) = obs.sample {
                    if local.samples.len() < 2 {
                        local.samples.push(json!({"family": name, "index": i, "case": s}));
                    }
                }
                if let Err(m) = r {
                    if let Some(e) = m.strip_prefix("HARNESS:") {
                        local.errors.push(format!("{name}#{i}: {e}"));
                    } else {
                        local.violations.push((name.to_string(), i, m));
                    }
                    stop.store(self.worker_dir.is_none() || !self.keep_going, Ordering::Relaxed);
                }
            }
            let mut a = self.agg.lock().unwrap();
            a.sigs.extend(local.sigs);
            for (k, v) in local.counters {
                *a.counters.entry(k).or_default() += v;
            }
            for (k, v) in local.sets {
                a.sets.entry(k).or_default().extend(v);
            }
            for (k, v) in local.families {
                *a.families.entry(k).or_default() += v;
            }
            let have = a.samples.iter().filter(|s| s["family"] == name).count();
            for s in local.samples {
                if have < 2 && a.samples.len() < 40 {
                    a.samples.push(s);
                }
            }
            a.violations.extend(local.violations);
            a.errors.extend(local.errors);
        };
        if threads <= 1 || hi - lo <= 1 {
            work();
        } else {
            std::thread::scope(|s| {
                for _ in 0..threads {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, work)
                        .unwrap();
                }
            });
        }
        eprintln!(
            "[{}] family {:<28} {:>8} cases in {:.2}s",
            self.prop,
            name,
            hi - lo,
            t0.elapsed().as_secs_f64()
        );
    }

    /// Write evidence and report. Returns the process exit code.
    pub fn finish(mut self, level: &str, extra: serde_json::Value) -> i32 {
        let mut a = std::mem::take(self.agg.get_mut().unwrap());
        if let Some(d) = &self.worker_dir {
            return crate::iso::write_partial(&self, &a, d);
        }
        let evals = self.evaluations.load(Ordering::SeqCst);
        let verif = self.out_dir.clone();
        a.violations.sort();
        let mut code = 0;
        let replay_dir = verif.join("replay");
        for (n, (fam, idx, msg)) in a.violations.iter().take(5).enumerate() {
            code = 1;
            let _ = std::fs::create_dir_all(&replay_dir);
            let p = replay_dir.join(format!("{}-{}-{}-{}.json", self.prop, fam, self.seed, idx));
            let j = json!({"property": self.prop, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                "family": fam, "index": idx, "message": msg});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
            let short: String = msg.chars().take(1500).collect();
            println!("detail[{n}] {fam}#{idx}: {short}");
            println!("VIOLATION property={} replay={}", self.prop, p.display());
        }
        if code == 0 && self.only.is_none() {
            for e in a.errors.iter().take(5) {
                eprintln!("HARNESS ERROR: {e}");
            }
            if !a.errors.is_empty() {
                code = 2;
            }
            for k in &self.required {
                if a.counters.get(*k).copied().unwrap_or(0) == 0 {
                    eprintln!("INCONCLUSIVE: monitor observed no '{k}' event");
                    code = 2;
                }
            }
        }
        let distinct_sets: BTreeMap<_, _> = a.sets.iter().map(|(k, v)| (*k, v.len())).collect();
        let mut cov = json!({
            "evaluations": evals,
            "distinct_nontrivial": a.sigs.len(),
            "rule": self.rules.join(" | "),
            "samples": a.samples,
            "cases_per_family": a.families,
            "observed_events": a.counters,
            "distinct_observed": distinct_sets,
        });
        if let (Some(o), Some(x)) = (cov.as_object_mut(), extra.as_object()) {
            for (k, v) in x {
                o.insert(k.clone(), v.clone());
            }
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": a.violations.len(),
        });
        if self.only.is_none() {
            let dir = verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let name = std::env::var("VMON_EVIDENCE_NAME").unwrap_or_else(|_| self.prop.clone());
            if let Err(e) = std::fs::write(dir.join(format!("{name}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
                eprintln!("cannot write evidence: {e}");
                if code == 0 { code = 2; }
            }
        }
        eprintln!("[{}] {} evaluations, {} distinct, {} violations, exit {}", self.prop, evals, a.sigs.len(), a.violations.len(), code);
        code
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
