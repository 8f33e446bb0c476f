//! Exploration framework: parallel exhaustive enumeration, panic capture, hang watchdog,
//! measured coverage, known findings, evidence and replay files.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const HANG_SECS: u64 = 30;
const MAX_KEPT: usize = 200;

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{}{}", msg, loc));
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("panic: {}{}", msg, loc);
        }
    }));
}

/// Runs code under test, `Err` holds the panic message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

struct Slot {
    started: AtomicU64, // ms since run start + 1, 0 = idle
    what: Mutex<String>,
}

/// Per thread handle; cases are announced to the watchdog through it.
pub struct Worker<'r> {
    pub run: &'r Run,
    slot: Arc<Slot>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    sample_tick: u64,
}

impl<'r> Worker<'r> {
    /// Announces a case (a distinct input / history about to be executed on the real code).
    pub fn begin(&mut self, what: &str) {
        {
            let mut w = self.slot.what.lock().unwrap();
            w.clear();
            w.push_str(what);
        }
        self.slot.started.store(self.run.now_ms() + 1, Relaxed);
        self.traces += 1;
        self.sample_tick += 1;
        if self.sample_tick.is_power_of_two() {
            self.run.sample(what);
        }
    }
    pub fn end(&mut self) {
        self.slot.started.store(0, Relaxed);
    }
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
        self.run.violation(key, detail)
    }
}

impl Drop for Worker<'_> {
    fn drop(&mut self) {
        self.slot.started.store(0, Relaxed);
        self.run.states.fetch_add(self.states, Relaxed);
        self.run.transitions.fetch_add(self.transitions, Relaxed);
        self.run.traces.fetch_add(self.traces, Relaxed);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub variant: String,
    pub seed: u64,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    total_violations: AtomicU64,
    violations: Mutex<BTreeMap<(usize, String), String>>,
    samples: Mutex<Vec<String>>,
    seen_samples: Mutex<HashSet<String>>,
    bounds: Mutex<Map<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    slots: Mutex<Vec<Arc<Slot>>>,
    pub threads: usize,
}

impl Run {
    pub fn new(id: &str, tier: Tier, variant: &str) -> Run {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Run {
            id: id.to_string(),
            tier,
            variant: variant.to_string(),
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            total_violations: AtomicU64::new(0),
            violations: Default::default(),
            samples: Default::default(),
            seen_samples: Default::default(),
            bounds: Default::default(),
            assumptions: Default::default(),
            slots: Default::default(),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
    pub fn sample(&self, s: &str) {
        if s.len() > 500 {
            return;
        }
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 && self.seen_samples.lock().unwrap().insert(s.to_string()) {
            v.push(s.to_string());
        }
    }
    /// Records a bound of the exploration in the evidence.
    pub fn bound(&self, key: &str, value: impl Into<Value>) {
        self.bounds.lock().unwrap().insert(key.to_string(), value.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        self.total_violations.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        let k = (key.chars().count(), key);
        if v.len() < MAX_KEPT {
            v.insert(k, detail.into());
        } else if let Some((last, _)) = v.iter().next_back() {
            if k < *last {
                let last = last.clone();
                v.remove(&last);
                v.insert(k, detail.into());
            }
        }
    }

    fn new_worker(&self) -> Worker<'_> {
        let slot = Arc::new(Slot { started: AtomicU64::new(0), what: Mutex::new(String::new()) });
        self.slots.lock().unwrap().push(slot.clone());
        Worker { run: self, slot, states: 0, transitions: 0, traces: 0, sample_tick: 0 }
    }

    /// Single threaded section.
    pub fn solo<R>(&self, f: impl FnOnce(&mut Worker) -> R) -> R {
        let mut w = self.new_worker();
        f(&mut w)
    }

    /// Distributes the items over all the cores. Every item is explored exactly once.
    pub fn par<T: Sync, I>(
        &self,
        items: &[T],
        init: impl Fn() -> I + Sync,
        f: impl Fn(&mut Worker, &mut I, &T) + Sync,
    ) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(items.len().max(1)) {
                s.spawn(|| {
                    let mut w = self.new_worker();
                    let mut st = match catch_unwind(AssertUnwindSafe(&init)) {
                        Ok(st) => st,
                        Err(_) => {
                            self.violation("cannot prepare the evaluator", PANIC_MSG.with(|m| m.borrow().clone()));
                            return;
                        }
                    };
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        // a check panics when something that the property needs is missing or unusable
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut w, &mut st, &items[i])));
                        w.end();
                        if r.is_err() {
                            let what = w.slot.what.lock().unwrap().clone();
                            self.violation(format!("cannot continue after: {}", what), PANIC_MSG.with(|m| m.borrow().clone()));
                            st = match catch_unwind(AssertUnwindSafe(&init)) {
                                Ok(st) => st,
                                Err(_) => break,
                            };
                        }
                    }
                });
            }
        });
    }

    /// Starts the hang watchdog: a case that runs longer than HANG_SECS is a violation.
    pub fn watchdog(self: &Arc<Self>) {
        let run = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = run.now_ms();
            let slots: Vec<_> = run.slots.lock().unwrap().clone();
            for s in slots {
                let st = s.started.load(Relaxed);
                if st != 0 && now + 1 > st + HANG_SECS * 1000 {
                    let what = s.what.lock().unwrap().clone();
                    if s.started.load(Relaxed) == st {
                        run.violation(format!("hang {}", what), format!("no answer after {} s", HANG_SECS));
                        let code = run.finish(&["stopped early: a case did not terminate".to_string()]);
                        std::process::exit(code);
                    }
                }
            }
        });
    }

    /// Writes the partial result used by the driver script. Returns the exit code.
    pub fn finish(&self, notes: &[String]) -> i32 {
        let viol: Vec<Value> = self
            .violations
            .lock()
            .unwrap()
            .iter()
            .map(|((_, k), d)| json!({"key": k, "detail": d}))
            .collect();
        let n = viol.len();
        let out = json!({
            "property": self.id,
            "variant": self.variant,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "states": self.states.load(Relaxed),
            "transitions": self.transitions.load(Relaxed),
            "traces": self.traces.load(Relaxed),
            "samples": *self.samples.lock().unwrap(),
            "bounds": Value::Object(self.bounds.lock().unwrap().clone()),
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "total_violations": self.total_violations.load(Relaxed),
            "violations": viol,
            "notes": notes,
        });
        let path = std::env::var("MC_OUT").unwrap_or_else(|_| "/dev/stdout".to_string());
        std::fs::write(&path, serde_json::to_string_pretty(&out).unwrap()).unwrap();
        if n == 0 {
            0
        } else {
            1
        }
    }
}
