//! Run-time support: exploration context, counters, violations, parallel enumeration, guards.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

thread_local! { static LAST_PANIC: Cell<Option<String>> = Cell::new(None); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| p.set(Some(format!("{}", info))));
    }));
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.take())
            .unwrap_or_else(|| "panic".to_string())
            .replace('\n', " ")
    })
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    counts: Mutex<BTreeMap<String, u64>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<String>>,
    viols: Mutex<Vec<String>>,
    stop: AtomicBool,
    only: Option<String>,
    start: Instant,
    limit: u64,
    root: String,
}

/// Limits that keep a run on changed code finite: one search, and the whole check. Both are far above
/// what the unchanged tree needs; what they cut off is counted in the evidence.
pub static SEARCH_SECS: AtomicU64 = AtomicU64::new(20);
const MAX_VIOLS: usize = 8;

impl Ctx {
    pub fn new(id: &str, thorough: bool, root: &str) -> Ctx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)) {
            for l in s.lines() {
                // "known: property=<id> key=<key> <what fails>"
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").trim_start_matches("key=");
                    if p == id {
                        known.push((k.to_string(), it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
        Ctx {
            id: id.to_string(),
            thorough,
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            counts: Mutex::new(BTreeMap::new()),
            known,
            known_hit: Mutex::new(BTreeSet::new()),
            viols: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            only: std::env::var("MC_ONLY").ok(),
            start: Instant::now(),
            limit: if thorough { 6 * 3600 } else { 640 },
            root: root.to_string(),
        }
    }
    /// quick or thorough bound
    pub fn b<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, SeqCst);
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, SeqCst);
    }
    pub fn tv(&self, n: u64) {
        self.traces.fetch_add(n, SeqCst);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s());
        }
    }
    pub fn viol(&self, key: &str, detail: String) {
        if let Some((k, what)) = self.known.iter().find(|(k, _)| k == key) {
            let mut h = self.known_hit.lock().unwrap();
            if h.insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {} ({})", self.id, what, k);
            }
            return;
        }
        let mut v = self.viols.lock().unwrap();
        if v.len() < MAX_VIOLS {
            v.push(format!("[{}] {}", key, detail));
        }
        if v.len() >= MAX_VIOLS {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    /// Checks a boolean; reports a violation when false.
    pub fn check(&self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.viol(key, detail());
        }
        ok
    }
    /// Evaluates `f` for every item, on all cores. A panic that escapes is a violation.
    pub fn par<T: Sync>(&self, what: &str, items: &[T], f: impl Fn(&T) + Sync) {
        if let Some(o) = &self.only {
            if !what.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let nt = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(items.len().max(1));
        std::thread::scope(|s| {
            for _ in 0..nt {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= items.len() || self.stopped() {
                            break;
                        }
                        if self.start.elapsed().as_secs() > self.limit {
                            self.count("cases cut off by the time limit", 1);
                            continue;
                        }
                        if let Err(e) = guard(|| f(&items[i])) {
                            self.viol(&format!("{}/panic", what), format!("item {}: {}", i, e));
                        }
                    })
                    .unwrap();
            }
        });
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("mc: {} {}: {} items {:.1}s", self.id, what, items.len(), t0.elapsed().as_secs_f64());
        }
        self.count(&format!("{} (cases)", what), items.len() as u64);
    }
    pub fn seq(&self, what: &str, f: impl Fn() + Sync) {
        self.par(what, &[()], |_| f())
    }
    pub fn finish(self) -> i32 {
        let viols = self.viols.into_inner().unwrap();
        let esc = |s: &str| serde_json::to_string(s).unwrap();
        let samples: Vec<String> = self.samples.into_inner().unwrap().iter().map(|s| esc(s)).collect();
        let cut = {
            let c = self.counts.lock().unwrap();
            ["search budget exhausted", "cases cut off by the time limit"].iter().any(|k| c.contains_key(*k))
        };
        let counts: Vec<String> = self
            .counts
            .into_inner()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {}", esc(k), v))
            .collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"breakdown\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            esc(&self.id),
            esc(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.traces.load(SeqCst),
            viols.is_empty() && !cut,
            esc(&crate::describe(&self.id)),
            counts.join(", "),
            samples.join(", "),
            esc("amcl/amcl_wrapper field and curve arithmetic, merlin/STROBE and rustc are trusted; bounds are those named in breakdown and DESIGN.md"),
            self.start.elapsed().as_secs_f64(),
            viols.len()
        );
        std::fs::create_dir_all(format!("{}/evidence", self.root)).ok();
        std::fs::write(format!("{}/evidence/{}.json", self.root, self.id), ev).expect("evidence");
        if viols.is_empty() {
            println!(
                "mc: {} held: states={} transitions={} traces={} wall={:.1}s",
                self.id,
                self.states.load(SeqCst),
                self.transitions.load(SeqCst),
                self.traces.load(SeqCst),
                self.start.elapsed().as_secs_f64()
            );
            return 0;
        }
        std::fs::create_dir_all(format!("{}/replays", self.root)).ok();
        let path = format!("{}/replays/{}.txt", self.root, self.id);
        std::fs::write(&path, viols.join("\n\n") + "\n").ok();
        for v in &viols {
            let s: String = v.chars().take(600).collect();
            println!("mc: {}", s.replace('\n', " "));
        }
        println!("VIOLATION property={} replay={}", self.id, path);
        1
    }
}
