//! Exploration framework: counters, evidence, violations, replay files, parallel driver.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<String, (String, String)>>,
    parts: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<Vec<String>>,
    capped: AtomicBool,
    pub start: Instant,
    progress: AtomicU64,
    current: Mutex<BTreeMap<usize, (String, Instant)>>,
    only: Option<String>,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// FNV-1a based 64-bit hash of bytes.
pub fn h64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn hmix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x
}
pub fn hashf(v: &[f32]) -> u64 {
    let mut h = 1u64;
    for x in v {
        h = hmix(h, x.to_bits() as u64);
    }
    h
}

impl Ctx {
    pub fn new(id: &'static str, thorough: bool, only: Option<String>) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let s = format!("{}", info);
            LAST_PANIC.with(|p| *p.borrow_mut() = s);
        }));
        Ctx {
            id,
            thorough,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(BTreeMap::new()),
            parts: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(vec![]),
            capped: AtomicBool::new(false),
            start: Instant::now(),
            progress: 0.into(),
            current: Mutex::new(BTreeMap::new()),
            only,
        }
    }
    /// Tier dependent bound.
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    /// Record a visited state by hash. Returns true if it is new.
    pub fn state(&self, h: u64) -> bool {
        let new = self.distinct[(h & 63) as usize].lock().unwrap().insert(h);
        if new {
            self.states.fetch_add(1, Ordering::Relaxed);
        }
        new
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
        self.progress.fetch_add(1, Ordering::Relaxed);
    }
    pub fn part(&self, name: &str, n: u64) {
        *self.parts.lock().unwrap().entry(name.into()).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let s = s();
            v.push(s);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    pub fn set_capped(&self) {
        self.capped.store(true, Ordering::Relaxed);
    }
    pub fn has_violation(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    pub fn violation_count(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    /// Report a violation. `key` identifies call site or configuration, `what` the observation, `replay` the full trace.
    pub fn violation(&self, key: impl Into<String>, what: impl Into<String>, replay: impl Into<String>) {
        let mut v = self.violations.lock().unwrap();
        let key = key.into();
        let (what, replay) = (what.into(), replay.into());
        if v.len() < 200 {
            // Keep the shortest counterexample for each key.
            let e = v.entry(key).or_insert_with(|| (what.clone(), replay.clone()));
            if replay.len() < e.1.len() {
                *e = (what, replay);
            }
        }
    }
    /// Run one case; a panic is a violation. The case name doubles as the violation key.
    pub fn case(&self, name: &str, f: impl FnOnce()) {
        if let Some(only) = &self.only {
            if !name.contains(only.as_str()) {
                return;
            }
        }
        let w = WORKER.with(|w| w.get());
        self.current.lock().unwrap().insert(w, (name.to_string(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        self.current.lock().unwrap().remove(&w);
        self.progress.fetch_add(1, Ordering::Relaxed);
        if r.is_err() {
            self.violation(name, format!("panic: {}", last_panic()), format!("case {} panicked: {}", name, last_panic()));
        }
    }
    /// Parallel for over 0..n.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        std::thread::scope(|s| {
            for t in 0..threads {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        WORKER.with(|w| w.set(t + 1));
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            f(i);
                        }
                    })
                    .unwrap();
            }
        });
    }
    fn known(&self) -> Vec<(String, String)> {
        // known_findings.txt: lines "known: property=<id> key=<key> <what>"; "fixed:" lines suppress nothing.
        let mut v = vec![];
        if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: ") {
                    let mut prop = "";
                    let mut key = "";
                    let mut rest = vec![];
                    for w in r.split(' ') {
                        if let Some(p) = w.strip_prefix("property=") {
                            prop = p;
                        } else if let Some(k) = w.strip_prefix("key=") {
                            key = k;
                        } else {
                            rest.push(w);
                        }
                    }
                    if prop == self.id {
                        v.push((key.to_string(), rest.join(" ")));
                    }
                }
            }
        }
        v
    }
    /// Start a watchdog: a case that makes no progress for `limit` seconds is reported as non-termination.
    pub fn watchdog(&'static self, limit: u64) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let stuck: Vec<String> = self
                .current
                .lock()
                .unwrap()
                .values()
                .filter(|x| x.1.elapsed().as_secs() > limit)
                .map(|x| x.0.clone())
                .collect();
            if let Some(name) = stuck.first() {
                self.violation(name.clone(), "no termination", format!("case {} did not terminate within {} s", name, limit));
                let code = self.finish();
                std::process::exit(code);
            }
        });
    }
    pub fn finish(&self) -> i32 {
        let known = self.known();
        let v = self.violations.lock().unwrap();
        let mut real = vec![];
        let mut hit = HashSet::new();
        for (key, (what, replay)) in v.iter() {
            let k = key.replace(' ', "_");
            if known.iter().any(|x| x.0 == k) {
                hit.insert(k);
            } else {
                real.push((key.clone(), what.clone(), replay.clone()));
            }
        }
        for (key, what) in known.iter() {
            if hit.contains(key) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, key);
            }
        }
        let root = "/verif/evidence";
        let _ = std::fs::create_dir_all(root);
        let mut code = 0;
        let _ = std::fs::remove_file(format!("/verif/evidence/replay/{}.txt", self.id));
        if !real.is_empty() {
            code = 1;
            let dir = "/verif/evidence/replay";
            let _ = std::fs::create_dir_all(dir);
            let path = format!("{}/{}.txt", dir, self.id);
            let mut s = String::new();
            for (k, w, r) in real.iter() {
                s += &format!("== {}\n{}\n{}\n", k, w, r);
            }
            let _ = std::fs::write(&path, s);
            for (k, w, _) in real.iter().take(12) {
                println!("  {} : {}", k, w.chars().take(400).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    '\n' => o += "\\n",
                    '\r' => o += "\\r",
                    '\t' => o += "\\t",
                    c if (c as u32) < 32 => o += " ",
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|x| esc(x)).collect();
        let parts: Vec<String> = self.parts.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        let notes: Vec<String> = self.notes.lock().unwrap().iter().map(|x| esc(x)).collect();
        let ev = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"parts\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            seed,
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            !self.capped.load(Ordering::Relaxed),
            parts.join(", "),
            samples.join(",\n   "),
            notes.join(", "),
            self.start.elapsed().as_secs_f64(),
            real.len()
        );
        let _ = std::fs::write(format!("{}/{}.json", root, self.id), ev);
        println!(
            "{} {}: states={} transitions={} traces={} violations={} wall={:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            real.len(),
            self.start.elapsed().as_secs_f64()
        );
        code
    }
}

/// Deterministic pseudorandom value in -1...1 (splitmix); only used to make fixed input waveforms.
pub fn det(i: u64) -> f32 {
    let mut z = i.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^= z >> 31;
    ((z >> 40) as f32) / (1u64 << 23) as f32 - 1.0
}

/// Enumerate all sequences over 0..alphabet of length exactly `len` (index -> digits).
pub fn digits(mut index: usize, alphabet: usize, len: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(index % alphabet);
        index /= alphabet;
    }
    v
}

pub fn main_with(table: &[(&'static str, fn(&Ctx))]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let only = std::env::var("MC_ONLY").ok();
    for (name, f) in table {
        if *name == id {
            let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(name, thorough, only)));
            ctx.watchdog(if thorough { 7200 } else { 150 });
            f(ctx);
            std::process::exit(ctx.finish());
        }
    }
    eprintln!("unknown property {}", id);
    std::process::exit(2);
}
