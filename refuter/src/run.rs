//! Case runner: counts cases, traps panics, watches for hangs and memory blow-up,
//! and records the first failing case of a property.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static BEAT: AtomicU64 = AtomicU64::new(0);

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub struct Failure {
    pub case: u64,
    pub input: String,
    pub what: String,
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub skipped: u64,
    pub deadline: Instant,
    pub trace: Option<String>,
    pub exhaustive_parts: Vec<String>,
    pub known: Vec<String>,
    pub known_hit: Vec<String>,
}

impl Run {
    /// Number of random cases to try for a nominal count.
    pub fn n(&self, quick: usize) -> usize {
        let m = if self.thorough { 60.0 } else { 5.0 };
        ((quick as f64) * m * self.scale) as usize
    }
    pub fn over(&self) -> bool {
        self.failure.is_some() || Instant::now() > self.deadline
    }
    /// Run one case. `nontrivial` is the key under which it counts as distinct (None: trivial).
    pub fn case<F: FnOnce() -> Result<(), String>>(
        &mut self,
        key: Option<&str>,
        describe: &dyn Fn() -> String,
        f: F,
    ) {
        if self.failure.is_some() {
            return;
        }
        self.evaluations += 1;
        BEAT.fetch_add(1, Ordering::Relaxed);
        if let Some(path) = &self.trace {
            let _ = std::fs::write(path, describe());
        }
        if let Some(k) = key {
            let mut h = DefaultHasher::new();
            k.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 3 || (self.samples.len() < 6 && self.evaluations % 997 == 0) {
            let mut s = describe();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(_) => format!(
                "panic: {}",
                LAST_PANIC.with(|p| p.borrow().replace('\n', " "))
            ),
        };
        let input = describe();
        for k in &self.known {
            if what.contains(k.as_str()) || input.contains(k.as_str()) {
                if !self.known_hit.contains(k) {
                    self.known_hit.push(k.clone());
                }
                return;
            }
        }
        self.failure = Some(Failure { case: self.evaluations, input, what });
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
}

/// Watchdog: ends the process with code 3 when one case takes too long or memory runs away.
pub fn watchdog(hang_secs: u64, mem_mb: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(25));
            let now = BEAT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = Instant::now();
            }
            let rss = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0)
                * 4
                / 1024;
            let why = if since.elapsed().as_secs() >= hang_secs {
                Some(format!("no result after {} s (does not terminate)", hang_secs))
            } else if rss > mem_mb {
                Some(format!("memory grew beyond {} MB in one case", mem_mb))
            } else {
                None
            };
            if let Some(why) = why {
                println!("HANG {}", why);
                std::process::exit(3);
            }
        }
    });
}
