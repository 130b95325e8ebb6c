//! Collecting what a check observed.

use crate::client::Stop;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct Inner {
    pub evaluations: u64,
    pub fingerprints: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Value>,
    pub inconclusive: Vec<String>,
}

pub struct Report {
    pub prop: String,
    pub rule: String,
    pub seed: u64,
    pub inner: Mutex<Inner>,
    stop: AtomicBool,
    /// what the traffic shows is judged by other checks; only the sanitizer's word counts here
    pub mute: AtomicBool,
}

impl Report {
    pub fn new(prop: &str, rule: &str) -> Report {
        Report { prop: prop.into(), rule: rule.into(), seed: env_u64("VERIF_SEED", 1), inner: Default::default(), stop: AtomicBool::new(false), mute: AtomicBool::new(false) }
    }
    pub fn eval(&self, fingerprint: u64) {
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        i.fingerprints.insert(fingerprint);
    }
    pub fn evals(&self, n: u64) {
        self.inner.lock().unwrap().evaluations += n;
    }
    pub fn nontrivial(&self, fingerprint: u64) {
        self.inner.lock().unwrap().fingerprints.insert(fingerprint);
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 5 {
            i.samples.push(v);
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.into()).or_insert(0) += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        let e = i.counters.entry(name.into()).or_insert(0);
        *e = (*e).max(n);
    }
    /// `sig` identifies the failing situation exactly; known findings are matched on it.
    pub fn violation(&self, sig: &str, msg: String, replay: Value) {
        if self.mute.load(Ordering::SeqCst) {
            return self.count("functional differences, judged by other checks", 1);
        }
        let mut i = self.inner.lock().unwrap();
        // known findings are reported once, and do not end the run
        if i.violations.iter().filter(|v| v["sig"] == sig).count() < 3 {
            eprintln!("[{}] {}: {}", self.prop, sig, msg);
            i.violations.push(json!({"sig": sig, "msg": msg, "replay": replay}));
        }
        if !sig.starts_with("known:") {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    pub fn inconclusive(&self, msg: String) {
        eprintln!("[{}] inconclusive: {}", self.prop, msg);
        let mut i = self.inner.lock().unwrap();
        if i.inconclusive.len() < 20 {
            i.inconclusive.push(msg);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }
    pub fn stop_to(&self, ctx: &str, s: Stop, replay: Value) {
        match s {
            Stop::Stuck(m) => self.violation(&format!("{}:stuck", ctx), m, replay),
            Stop::Bad(m) => self.violation(&format!("{}:bad", ctx), m, replay),
            Stop::Dead(m) => self.violation(&format!("{}:dead", ctx), m, replay),
            Stop::Unknown(m) => self.inconclusive(format!("{}: {}", ctx, m)),
            Stop::Harness(m) => self.inconclusive(format!("{}: harness: {}", ctx, m)),
        }
    }
    pub fn json(&self) -> Value {
        let i = self.inner.lock().unwrap();
        json!({
            "prop": self.prop, "rule": self.rule, "seed": self.seed,
            "evaluations": i.evaluations, "distinct": i.fingerprints.len(),
            "samples": i.samples, "counters": i.counters,
            "violations": i.violations, "inconclusive": i.inconclusive,
        })
    }
}

/// Runs scenario `f(i, seed_i)` on `workers` threads until the time is used, `max` were run, or a
/// violation is found; at least `min` scenarios are run.
pub fn run_many(r: &Report, workers: usize, secs: f64, min: u64, max: u64, f: impl Fn(u64, u64) + Sync) {
    let next = AtomicU64::new(0);
    let tb = TimeBox::secs(secs);
    let only = std::env::var("VERIF_ONLY").ok().and_then(|v| v.parse::<u64>().ok());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let mut i = next.fetch_add(1, Ordering::SeqCst);
                if let Some(o) = only {
                    if i > 0 {
                        return;
                    }
                    i = o;
                }
                if i >= max || r.stopped() || (i >= min && tb.over()) {
                    return;
                }
                let seed = mix64(r.seed.wrapping_mul(0x1_0000_0001).wrapping_add(i));
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, seed)));
                if let Err(e) = res {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    r.inconclusive(format!("harness panic in scenario {}: {}", i, m));
                }
            });
        }
    });
}
