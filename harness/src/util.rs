//! Reporting, parallel enumeration, panic capture.
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap, HashSet},
    panic::{AssertUnwindSafe, catch_unwind},
    path::PathBuf,
    sync::{
        Mutex, Once,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

pub fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .unwrap()
        .to_path_buf()
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from("/repo")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static HOOK: Once = Once::new();

/// Runs `f`; a panic becomes `Err(message at location)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    HOOK.call_once(|| {
        let verbose = std::env::var("MC_PANIC").is_ok();
        std::panic::set_hook(Box::new(move |info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.strip_prefix("/repo/").unwrap_or(f);
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            if verbose {
                eprintln!("panic: {msg} at {loc}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        }));
    });
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// As `catch` for code of the harness itself: a panic there is an engine error.
pub struct Report {
    pub property: String,
    pub tier: Tier,
    start: Instant,
    pub deadline: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<(String, String)>>,
    seen_keys: Mutex<HashSet<String>>,
    known_hits: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>,
    pub capped: AtomicBool,
    notes: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    engine_errors: Mutex<Vec<String>>,
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Report {
    pub fn new(property: &str, tier: Tier, budget_s: u64) -> Report {
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) {
            for l in t.lines() {
                // known: property=C05 key=<key> | description
                let Some(r) = l.strip_prefix("known: property=") else {
                    continue;
                };
                let Some((id, rest)) = r.split_once(" key=") else {
                    continue;
                };
                if id.trim() != property {
                    continue;
                }
                let (k, d) = rest.split_once(" | ").unwrap_or((rest, ""));
                known.push((k.trim().to_string(), d.trim().to_string()));
            }
        }
        let budget_s = std::env::var("MC_BUDGET")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(budget_s);
        Report {
            property: property.to_string(),
            tier,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(budget_s),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(Vec::new()),
            seen_keys: Mutex::new(HashSet::new()),
            known_hits: Mutex::new(BTreeMap::new()),
            known,
            capped: AtomicBool::new(false),
            notes: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
            engine_errors: Mutex::new(Vec::new()),
        }
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self
            .counters
            .lock()
            .unwrap()
            .entry(k.to_string())
            .or_default() += n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    /// Registers an observed outcome, so that vacuity is visible.
    pub fn outcome(&self, s: &str) {
        self.outcomes.lock().unwrap().insert(fnv(s));
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            s.push(v);
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        let mut n = self.notes.lock().unwrap();
        if n.len() < 200 && !n.contains(&s) {
            n.push(s);
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn engine_error(&self, s: impl Into<String>) {
        self.engine_errors.lock().unwrap().push(s.into());
    }
    pub fn expired(&self) -> bool {
        if Instant::now() > self.deadline {
            self.capped.store(true, Ordering::Relaxed);
            true
        } else {
            false
        }
    }
    /// Enough has been found; more would only repeat it.
    pub fn saturated(&self) -> bool {
        self.violations.lock().unwrap().len() >= max_violations()
    }
    pub fn stop(&self) -> bool {
        self.saturated() || self.expired()
    }
    /// `key` identifies the failing case, `detail` is the replayable description.
    pub fn violation(&self, key: &str, detail: String) {
        self.report(key, detail);
    }
    /// Report a violation; whether it is a known finding.
    pub fn report(&self, key: &str, detail: String) -> bool {
        for (k, d) in &self.known {
            if k == key || (k.ends_with('*') && key.starts_with(&k[..k.len() - 1])) {
                self.known_hits.lock().unwrap().insert(k.clone(), d.clone());
                return true;
            }
        }
        if !self.seen_keys.lock().unwrap().insert(key.to_string()) {
            return false;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < max_violations() {
            v.push((key.to_string(), detail));
        }
        false
    }
    pub fn finish(self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let violations = self.violations.into_inner().unwrap();
        let capped = self.capped.load(Ordering::Relaxed);
        let mut coverage = serde_json::Map::new();
        coverage.insert("states".into(), json!(self.states.into_inner()));
        coverage.insert("transitions".into(), json!(self.transitions.into_inner()));
        coverage.insert(
            "traces_validated_against_impl".into(),
            json!(self.traces.into_inner()),
        );
        coverage.insert(
            "distinct_outcomes".into(),
            json!(self.outcomes.into_inner().unwrap().len()),
        );
        coverage.insert(
            "exhaustive".into(),
            json!(!capped && violations.len() < max_violations()),
        );
        let mut samples = self.samples.into_inner().unwrap();
        if samples.is_empty() {
            samples.push(json!("no sample recorded"));
        }
        coverage.insert("samples".into(), json!(samples));
        let counters = self.counters.into_inner().unwrap();
        coverage.insert("counters".into(), json!(counters));
        coverage.insert("notes".into(), json!(self.notes.into_inner().unwrap()));
        let ev = json!({
            "property": self.property,
            "tier": self.tier.name(),
            "seed": std::env::var("VERIF_SEED").ok().and_then(|v| v.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": coverage,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence file");
        for (k, d) in self.known_hits.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {} {}", self.property, k, d);
        }
        let errs = self.engine_errors.into_inner().unwrap();
        let rdir = verif_dir().join("replays").join(&self.property);
        if !violations.is_empty() {
            let _ = std::fs::create_dir_all(&rdir);
        }
        for (i, (k, d)) in violations.iter().enumerate() {
            let p = rdir.join(format!("{:03}.txt", i));
            let _ = std::fs::write(
                &p,
                format!("property: {}\nkey: {}\n\n{}\n", self.property, k, d),
            );
            println!(
                "VIOLATION property={} replay={}",
                self.property,
                p.display()
            );
            println!("  key: {k}");
            for l in d.lines().take(40) {
                println!("  | {}", l.chars().take(400).collect::<String>());
            }
        }
        println!(
            "{} {}: {} states, {} transitions, {} traces, {} outcomes, {:.1}s{}",
            self.property,
            self.tier.name(),
            ev["coverage"]["states"],
            ev["coverage"]["transitions"],
            ev["coverage"]["traces_validated_against_impl"],
            ev["coverage"]["distinct_outcomes"],
            wall,
            if capped { " (time cap reached)" } else { "" }
        );
        for (k, v) in &counters {
            println!("  {k}: {v}");
        }
        for e in errs.iter().take(20) {
            eprintln!("ENGINE ERROR: {e}");
        }
        if !violations.is_empty() {
            1
        } else if !errs.is_empty() {
            2
        } else {
            0
        }
    }
}

fn max_violations() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| {
        std::env::var("MC_MAXV")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(12)
    })
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

/// Calls `f` on every item, on all cores. Items are handed out in order.
pub fn par_each<T: Sync>(r: &Report, items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() || r.stop() {
                            break;
                        }
                        if let Err(e) = catch(|| f(&items[i])) {
                            r.engine_error(format!("harness panic on item {i}: {e}"));
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let d = done.load(Ordering::Relaxed);
    if d < items.len() {
        r.capped.store(true, Ordering::Relaxed);
        r.note(format!("stopped after {d} of {} work items", items.len()));
    }
}

/// Splits a lazily enumerated space into chunks processed in parallel.
pub fn par_range(r: &Report, n: u64, chunk: u64, f: impl Fn(u64) + Sync) {
    let chunks: Vec<u64> = (0..n.div_ceil(chunk)).collect();
    par_each(r, &chunks, |c| {
        for i in c * chunk..((c + 1) * chunk).min(n) {
            if r.saturated() {
                return;
            }
            f(i);
        }
    });
}

/// First differing line of two texts.
pub fn first_diff(a: &str, b: &str) -> String {
    let mut ai = a.lines();
    let mut bi = b.lines();
    let mut n = 1;
    loop {
        match (ai.next(), bi.next()) {
            (None, None) => return "no difference".into(),
            (x, y) if x == y => n += 1,
            (x, y) => {
                return format!(
                    "line {n}:\n  expected: {}\n  actual:   {}",
                    x.unwrap_or("<end>"),
                    y.unwrap_or("<end>")
                );
            }
        }
    }
}

/// JSON equality that ignores the order of object members.
pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(k, v)| y.get(k).is_some_and(|w| json_eq(v, w)))
        }
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(v, w)| json_eq(v, w))
        }
        _ => a == b,
    }
}

/// Text of a JSON document with sorted members.
pub fn canon(v: &Value) -> String {
    fn go(v: &Value, out: &mut String) {
        match v {
            Value::Object(m) => {
                let mut ks: Vec<_> = m.keys().collect();
                ks.sort();
                out.push('{');
                for (i, k) in ks.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(&Value::String((*k).clone()).to_string());
                    out.push(':');
                    go(&m[*k], out);
                }
                out.push('}');
            }
            Value::Array(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    go(x, out);
                }
                out.push(']');
            }
            _ => out.push_str(&v.to_string()),
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}

pub fn diff_json(a: &Value, b: &Value, path: &str, out: &mut Vec<String>) {
    if out.len() > 10 {
        return;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut ks: Vec<_> = x.keys().chain(y.keys()).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                match (x.get(k), y.get(k)) {
                    (Some(v), Some(w)) => diff_json(v, w, &format!("{path}/{k}"), out),
                    (Some(v), None) => out.push(format!("{path}/{k}: {v} vs absent")),
                    (None, Some(w)) => out.push(format!("{path}/{k}: absent vs {w}")),
                    _ => {}
                }
            }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                diff_json(v, w, &format!("{path}/{i}"), out);
            }
        }
        _ if a == b => {}
        _ => out.push(format!("{path}: {a} vs {b}")),
    }
}

pub type Map<K, V> = HashMap<K, V>;
