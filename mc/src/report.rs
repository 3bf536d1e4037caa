//! Collecting what a check explored and found.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Violation {
    /// A stable identification of what fails (for the list of known findings).
    pub key: String,
    pub detail: String,
    pub trace: Vec<String>,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}

/// Calls that are being executed, for noticing those that never return.
pub mod watch {
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::{Arc, Mutex, OnceLock};
    use std::time::Instant;

    static START: OnceLock<Instant> = OnceLock::new();
    static ALL: Mutex<Vec<Arc<AtomicU64>>> = Mutex::new(Vec::new());
    thread_local! {
        static MINE: Arc<AtomicU64> = {
            let a = Arc::new(AtomicU64::new(0));
            ALL.lock().unwrap().push(a.clone());
            a
        };
    }
    fn now() -> u64 {
        START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
    }
    pub struct Call(bool);
    pub fn call() -> Call {
        MINE.with(|m| {
            if m.load(Ordering::Relaxed) != 0 {
                return Call(false);
            }
            m.store(now(), Ordering::Relaxed);
            Call(true)
        })
    }
    impl Drop for Call {
        fn drop(&mut self) {
            if self.0 {
                MINE.with(|m| m.store(0, Ordering::Relaxed));
            }
        }
    }
    /// The age of the oldest running call in seconds.
    pub fn oldest() -> u64 {
        let n = now();
        ALL.lock().unwrap().iter().map(|a| a.load(Ordering::Relaxed)).filter(|t| *t != 0).map(|t| n.saturating_sub(t)).max().unwrap_or(0) / 1000
    }
}

pub struct Ctx {
    pub root: String,
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub configs: AtomicU64,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub incomplete: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
    /// Panics of this program itself.
    pub broken: Mutex<Vec<String>>,
    pub only: Option<String>,
}

impl Ctx {
    pub fn new(root: &str, property: &str, thorough: bool, seed: u64, only: Option<String>) -> Ctx {
        Ctx {
            root: root.into(),
            property: property.into(),
            thorough,
            seed,
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            configs: 0.into(),
            counters: Default::default(),
            samples: Default::default(),
            incomplete: Default::default(),
            violations: Default::default(),
            broken: Default::default(),
            only,
        }
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Ordering::Relaxed);
        self.transitions.fetch_add(transitions, Ordering::Relaxed);
        self.traces.fetch_add(traces, Ordering::Relaxed);
    }
    pub fn count(&self, what: &str, n: u64) {
        *self.counters.lock().unwrap().entry(what.into()).or_default() += n;
    }
    pub fn sample(&self, v: serde_json::Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn incomplete(&self, what: impl Into<String>) {
        self.incomplete.lock().unwrap().push(what.into());
    }
    /// Records a violation; only the first (shortest) few per key are kept.
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>, trace: Vec<String>) {
        let (key, detail) = (key.into(), detail.into());
        let mut v = self.violations.lock().unwrap();
        if let Some(old) = v.iter_mut().find(|x| x.key == key) {
            if trace.len() < old.trace.len() {
                *old = Violation { key, detail, trace };
            }
            return;
        }
        v.push(Violation { key, detail, trace });
    }
    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    /// When to stop exploring and report what is done.
    pub fn deadline(&self) -> Instant {
        self.start + std::time::Duration::from_secs(if self.thorough { 780 } else { 600 })
    }
    pub fn wants(&self, cfg: &str) -> bool {
        self.only.as_ref().is_none_or(|o| cfg.contains(o.as_str()))
    }

    /// Runs `f` on every item, on all cores.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let limit = self.deadline() - self.start;
        let threads = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
        let running = std::sync::atomic::AtomicBool::new(true);
        std::thread::scope(|w| {
            w.spawn(|| {
                while running.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    if watch::oldest() > 150 {
                        self.violation("a call does not return", "it has been running for 150 s; calls take milliseconds", vec![]);
                        std::process::exit(self.finish(&[], "stopped because a call does not return"));
                    }
                }
            });
            self.workers(items, &next, limit, threads, f);
            running.store(false, Ordering::Relaxed);
        });
    }

    fn workers<T: Sync>(&self, items: &[T], next: &AtomicUsize, limit: std::time::Duration, threads: usize, f: impl Fn(&T) + Sync) {
        std::thread::scope(|s| {
            for _ in 0..threads.min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        if self.start.elapsed() > limit {
                            self.incomplete(format!("configuration {i} of {}: out of time", items.len()));
                            continue;
                        }
                        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&items[i]))).is_err() {
                            let what = LAST_PANIC.with(|p| p.borrow().clone());
                            self.broken.lock().unwrap().push(what);
                        }
                        self.configs.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
        });
    }

    /// Writes the evidence file and the replays, prints the verdict, returns the exit code.
    pub fn finish(&self, assumptions: &[&str], rule: &str) -> i32 {
        let root = &self.root;
        let known = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
        let mut fresh = Vec::new();
        for v in self.violations.lock().unwrap().iter() {
            let line = format!("property={} {}", self.property, v.key);
            if known.lines().any(|l| l.trim() == line) {
                println!("KNOWN-FINDING: {line}");
            } else {
                fresh.push(v.clone());
            }
        }
        let dir = format!("{root}/evidence");
        let _ = std::fs::create_dir_all(&dir);
        let incomplete = self.incomplete.lock().unwrap().clone();
        let mut coverage = serde_json::json!({
            "states": self.states.load(Ordering::Relaxed),
            "transitions": self.transitions.load(Ordering::Relaxed),
            "traces_validated_against_impl": self.traces.load(Ordering::Relaxed),
            "configurations": self.configs.load(Ordering::Relaxed),
            "rule": rule,
            "samples": *self.samples.lock().unwrap(),
            "exhaustive": incomplete.is_empty(),
            "incomplete": incomplete,
        });
        for (k, v) in self.counters.lock().unwrap().iter() {
            coverage[k] = serde_json::json!(v);
        }
        let ev = serde_json::json!({
            "property": self.property,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        if self.only.is_none() {
            std::fs::write(format!("{dir}/{}.json", self.property), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        println!(
            "{}: {} configurations, {} states, {} transitions, {} executions, {:.1} s{}",
            self.property,
            ev["coverage"]["configurations"],
            ev["coverage"]["states"],
            ev["coverage"]["transitions"],
            ev["coverage"]["traces_validated_against_impl"],
            self.start.elapsed().as_secs_f64(),
            if incomplete.is_empty() { "" } else { " (not exhaustive)" },
        );
        for (i, v) in fresh.iter().enumerate().take(20) {
            let path = format!("{dir}/{}-violation-{i}.txt", self.property);
            let mut text = format!("{}\n{}\n\n", v.key, v.detail);
            for t in &v.trace {
                text += t;
                text.push('\n');
            }
            let _ = std::fs::write(&path, text);
            println!("  {} :: {}", v.key, v.detail.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        let broken = self.broken.lock().unwrap();
        for b in broken.iter().take(5) {
            println!("this program failed: {b}");
        }
        if !fresh.is_empty() {
            1
        } else if broken.is_empty() {
            0
        } else {
            2
        }
    }
}
