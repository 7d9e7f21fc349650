//! What one harness run observed: counts, distinct non-trivial cases, samples and violations.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature, matched against the known findings
    pub sig: String,
    pub what: String,
    /// everything needed to see it again
    pub replay: String,
}
#[derive(Default)]
pub struct Inner {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub extra: Map<String, Value>,
    pub inconclusive: Vec<String>,
}
#[derive(Default)]
pub struct Report {
    pub i: Mutex<Inner>,
}
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
impl Report {
    fn l(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.i.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn eval(&self, n: u64) {
        crate::progress::tick();
        self.l().evaluations += n;
    }
    pub fn distinct<T: Hash + ?Sized>(&self, t: &T) {
        self.l().distinct.insert(h64(t));
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.l().counters.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&self, v: Value) {
        let mut l = self.l();
        if l.samples.len() < 6 {
            let s = v.to_string();
            l.samples.push(if s.len() > 1500 { json!(format!("{}…", s.chars().take(1400).collect::<String>())) } else { v });
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.l().extra.insert(k.to_string(), v);
    }
    pub fn inconclusive(&self, s: String) {
        self.l().inconclusive.push(s);
    }
    pub fn violation(&self, sig: &str, what: String, replay: String) {
        let mut l = self.l();
        let n = l.violations.iter().filter(|v| v.sig == sig).count();
        *l.counters.entry("violations_raw".into()).or_default() += 1;
        if n < 2 && l.violations.len() < 200 {
            eprintln!("[violation] {}: {}", sig, what.chars().take(1500).collect::<String>());
            l.violations.push(Violation { sig: sig.into(), what, replay });
        }
    }
    /// Violations that are not listed as known findings.
    pub fn nviol(&self) -> usize {
        static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        let known = KNOWN.get_or_init(|| std::env::var("VH_KNOWN").unwrap_or_default().split(',').map(String::from).collect());
        self.l().violations.iter().filter(|v| !known.contains(&v.sig)).count()
    }
    pub fn to_json(&self) -> Value {
        let l = self.l();
        json!({
            "evaluations": l.evaluations,
            "distinct": l.distinct.iter().map(|h| format!("{:x}", h)).take(200_000).collect::<Vec<_>>(),
            "distinct_n": l.distinct.len(),
            "counters": l.counters,
            "samples": l.samples,
            "extra": l.extra,
            "inconclusive": l.inconclusive,
            "violations": l.violations.iter().map(|v| json!({"sig": v.sig, "what": v.what, "replay": v.replay})).collect::<Vec<_>>(),
        })
    }
}
