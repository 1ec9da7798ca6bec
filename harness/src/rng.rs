use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static PANICS: AtomicU64 = AtomicU64::new(0);
pub static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn chance(&mut self, n: u64) -> bool {
        self.below(100) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub struct Rep {
    pub suite: String,
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    out: String,
    start: Instant,
    inner: Mutex<Inner>,
    progress: AtomicU64,
    now: Mutex<String>,
}
#[derive(Default)]
struct Inner {
    cases: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<serde_json::Value>,
    /// deviations that speak for other properties
    others: Vec<serde_json::Value>,
    rule: Vec<String>,
    error: Option<String>,
    counts: std::collections::BTreeMap<String, u64>,
}

impl Rep {
    pub fn new(suite: &str, prop: &str, thorough: bool, seed: u64, out: &str) -> std::sync::Arc<Self> {
        std::sync::Arc::new(Rep {
            suite: suite.into(),
            prop: prop.into(),
            thorough,
            seed,
            out: out.into(),
            start: Instant::now(),
            inner: Mutex::new(Inner::default()),
            progress: AtomicU64::new(0),
            now: Mutex::new(String::new()),
        })
    }
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rule.push(s.into());
    }
    /// one evaluated case; `key` identifies it
    pub fn case<K: Hash>(&self, key: &K) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        let mut i = self.inner.lock().unwrap();
        i.cases += 1;
        if i.distinct.len() < 2_000_000 {
            i.distinct.insert(h.finish());
        }
        drop(i);
        self.progress.fetch_add(1, Ordering::SeqCst);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 4 {
            let s = f();
            i.samples.push(s.chars().take(600).collect());
        }
    }
    pub fn at(&self, s: String) {
        *self.now.lock().unwrap() = s;
        self.progress.fetch_add(1, Ordering::SeqCst);
    }
    pub fn fail(&self, props: &[&str], key: &str, what: String, input: String) {
        if !props.contains(&self.prop.as_str()) {
            let mut i = self.inner.lock().unwrap();
            if i.others.len() < 3 {
                i.others.push(serde_json::json!({"key": key, "speaks_for": props, "what": what.chars().take(2000).collect::<String>(), "input": input.chars().take(12000).collect::<String>(), "suite": self.suite}));
            }
            return;
        }
        let mut i = self.inner.lock().unwrap();
        if i.violations.len() < 6 {
            i.violations.push(serde_json::json!({"key": key, "what": what.chars().take(2000).collect::<String>(), "input": input.chars().take(12000).collect::<String>(), "suite": self.suite}));
        }
    }
    pub fn full(&self) -> bool {
        self.inner.lock().unwrap().violations.len() >= 3
    }
    pub fn secs(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// time left of this suite's budget
    pub fn go(&self, quick: f64, thorough: f64) -> bool {
        !self.full() && self.secs() < if self.thorough { thorough } else { quick }
    }
    pub fn error(&self, m: &str) {
        self.inner.lock().unwrap().error = Some(m.into());
    }
    pub fn write(&self) {
        let i = self.inner.lock().unwrap();
        let mut v = serde_json::json!({"cases": i.cases, "distinct": i.distinct.len(), "rule": i.rule.join("; "), "samples": i.samples, "violations": i.violations, "others": i.others, "counts": i.counts});
        if let Some(e) = &i.error {
            v["error"] = serde_json::json!(e);
        }
        std::fs::write(&self.out, v.to_string()).unwrap();
    }
}

/// a run that makes no progress for a minute hangs
pub fn watchdog(rep: &std::sync::Arc<Rep>) {
    let rep = std::sync::Arc::clone(rep);
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = rep.progress.load(Ordering::SeqCst);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(60) {
                let at = rep.now.lock().unwrap().clone();
                let p = rep.prop.clone();
                rep.fail(&[&p], "hang", "the code did not come to an end within 60 s".into(), at);
                rep.write();
                std::process::exit(0);
            }
        }
    });
}

/// runs f, returns its value or the panic message
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.lock().unwrap().clone().unwrap_or_default())
}
