//! Case enumeration, verdicts and measured coverage.

use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

/// Err carries the description of a violated property.
pub type R<T = ()> = Result<T, String>;

/// Prefix of errors that are the harness's or the environment's fault, never a violation.
pub const HARNESS: &str = "HARNESS-ERROR: ";

static LAST_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        let mut v = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if v.len() < 64 {
            v.push(msg);
        }
    }));
}

pub fn clear_panics() {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
}

pub fn panics() -> String {
    let v = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
    match v.first() {
        Some(first) => format!("{} panic(s), first: {}", v.len(), first.replace('\n', " ")),
        None => "no panic recorded".into(),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub profile: String,
    pub only: Option<(String, u64)>,
    pub scratch: PathBuf,
    pub budget_s: f64,
    pub start: Instant,
    out: PathBuf,
    progress: std::fs::File,
    pub evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    stats: BTreeMap<String, [f64; 4]>,
    samples: Vec<Value>,
    sample_keys: BTreeMap<String, u64>,
    pub rule: String,
    pub assumptions: Vec<String>,
    violation: Option<(String, u64, String)>,
    harness_error: Option<String>,
    truncated: bool,
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub profile: String,
    pub only: Option<(String, u64)>,
    pub out: PathBuf,
    pub scratch: PathBuf,
    pub budget_s: f64,
}

impl Cx {
    pub fn new(a: Args) -> Self {
        let progress = std::fs::File::create(a.out.with_extension("progress")).unwrap();
        Cx {
            prop: a.prop,
            seed: a.seed,
            tier: a.tier,
            shard: a.shard,
            nshards: a.nshards,
            profile: a.profile,
            only: a.only,
            scratch: a.scratch,
            budget_s: a.budget_s,
            start: Instant::now(),
            out: a.out,
            progress,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            stats: BTreeMap::new(),
            samples: Vec::new(),
            sample_keys: BTreeMap::new(),
            rule: String::new(),
            assumptions: Vec::new(),
            violation: None,
            harness_error: None,
            truncated: false,
        }
    }

    pub fn rng(&self, group: &str, idx: u64) -> ChaCha12Rng {
        let mut h = Sha256::new();
        h.update(self.prop.as_bytes());
        h.update([0]);
        h.update(group.as_bytes());
        h.update([0]);
        h.update(idx.to_le_bytes());
        h.update(self.seed.to_le_bytes());
        h.update(self.profile.as_bytes());
        ChaCha12Rng::from_seed(h.finalize().into())
    }

    /// Picks the amount for the tier.
    pub fn amount(&self, quick: u64, thorough: u64) -> u64 {
        // Slow builds run a part of the workload.
        let percent = std::env::var("HARNESS_PERCENT")
            .ok()
            .and_then(|s| s.parse::<u64>().ok())
            .unwrap_or(100);
        let full = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        (full * percent).div_ceil(100)
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn failed(&self) -> bool {
        self.violation.is_some() || self.harness_error.is_some()
    }

    /// Runs this shard's part of `count` cases. Stops at the first violation.
    pub fn cases<F>(&mut self, group: &str, count: u64, mut f: F)
    where
        F: FnMut(&mut Cx, u64, &mut ChaCha12Rng) -> R,
    {
        for idx in 0..count {
            if self.failed() {
                return;
            }
            match &self.only {
                Some((g, i)) => {
                    if g != group || *i != idx {
                        continue;
                    }
                }
                None => {
                    if idx % self.nshards != self.shard {
                        continue;
                    }
                    if self.start.elapsed().as_secs_f64() > self.budget_s {
                        self.truncated = true;
                        return;
                    }
                }
            }
            let _ = self.progress.seek(SeekFrom::Start(0));
            let _ = self
                .progress
                .write_all(format!("{} {}                    \n", group, idx).as_bytes());
            let mut rng = self.rng(group, idx);
            clear_panics();
            let res = catch_unwind(AssertUnwindSafe(|| f(self, idx, &mut rng)));
            let err = match res {
                Ok(Ok(())) => continue,
                Ok(Err(e)) => e,
                Err(_) => format!("unexpected panic: {}", panics()),
            };
            if err.contains(HARNESS) {
                self.harness_error = Some(format!("{} {}: {}", group, idx, err));
            } else {
                self.violation = Some((group.to_string(), idx, err));
            }
        }
    }

    /// Registers one evaluated case; `key` identifies it, `nontrivial` by the check's rule.
    pub fn eval<K: Hash>(&mut self, key: K, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }

    /// Registers many evaluations that are distinct by construction under `key`.
    pub fn evals_bulk<K: Hash>(&mut self, key: K, num: u64) {
        self.evals += num;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.distinct.insert(h.finish());
    }

    pub fn count(&mut self, name: &str, by: u64) {
        if by > 0 {
            *self.counters.entry(name.to_string()).or_insert(0) += by;
        }
    }

    /// Keeps at most `max` samples under one key.
    pub fn sample(&mut self, key: &str, max: u64, v: impl FnOnce() -> Value) {
        let c = self.sample_keys.entry(key.to_string()).or_insert(0);
        if *c < max && self.shard == 0 {
            *c += 1;
            self.samples.push(json!({ key: v() }));
        }
    }

    /// Pools observations of a statistic with known mean and variance under the property; the
    /// runner pools over shards and tests at 7 standard deviations.
    pub fn stat(&mut self, name: &str, trials: f64, sum: f64, mean: f64, var: f64) {
        let e = self.stats.entry(name.to_string()).or_insert([0.0; 4]);
        e[0] += trials;
        e[1] += sum;
        e[2] += trials * mean;
        e[3] += trials * var;
    }

    pub fn finish(&mut self) {
        let mut dist = Vec::with_capacity(self.distinct.len() * 8);
        for d in &self.distinct {
            dist.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(self.out.with_extension("distinct"), dist).unwrap();
        let v = json!({
            "evaluations": self.evals,
            "counters": self.counters,
            "stats": self.stats,
            "samples": self.samples,
            "rule": self.rule,
            "assumptions": self.assumptions,
            "violation": self.violation.as_ref().map(|(g, i, m)| json!({"group": g, "idx": i, "message": m})),
            "harness_error": self.harness_error,
            "truncated": self.truncated,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.out, serde_json::to_vec(&v).unwrap()).unwrap();
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err(format!($($arg)*)); }
    };
}

pub fn hash_of<K: Hash>(k: &K) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}
