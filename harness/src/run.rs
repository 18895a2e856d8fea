//! Running the crate over many words: blocks in parallel, panics caught, hangs noticed, and the
//! collection of what was found.

use crate::json::quote;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const BLOCK: u64 = 1 << 16;
const MAX_REPORTS: usize = 40;

#[derive(Clone)]
pub struct Finding {
    pub width: u8,
    pub w: u64,
    pub isa: usize,
    pub what: String,
}

/// What one block found.
#[derive(Default)]
pub struct Local {
    pub counts: [u64; 8],
    pub finds: Vec<Finding>,
    pub total: u64,
    pub devs: [u64; 8],
    pub dev_words: [Option<u64>; 8],
    pub suspects: Vec<(u32, u8)>,
}

impl Local {
    #[inline]
    pub fn bad(&mut self, width: u8, w: u64, isa: usize, what: impl FnOnce() -> String) {
        self.total += 1;
        if self.finds.len() < MAX_REPORTS {
            let what = what();
            self.finds.push(Finding { width, w, isa, what });
        }
    }
    #[inline]
    pub fn dev(&mut self, k: u8, w: u64) {
        self.devs[k as usize] += 1;
        if self.dev_words[k as usize].is_none() {
            self.dev_words[k as usize] = Some(w);
        }
    }
    pub fn merge(&mut self, o: Local) {
        for i in 0..8 {
            self.counts[i] += o.counts[i];
            self.devs[i] += o.devs[i];
            self.dev_words[i] = match (self.dev_words[i], o.dev_words[i]) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            };
        }
        self.total += o.total;
        self.finds.extend(o.finds);
        if self.suspects.len() < 4_000_000 {
            self.suspects.extend(o.suspects);
        }
    }
}

pub struct Run {
    pub all: Mutex<Local>,
    pub named: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    found: AtomicU64,
    /// Does a panic break the property under check?
    pub panic_is_bad: bool,
    pub seed: u64,
}

/// Where each worker is, for the watchdog: item + 1, 0 when idle, and a count of blocks.
/// One cache line each.
#[repr(align(128))]
struct Spot {
    at: AtomicU64,
    tick: AtomicU64,
}
static SPOT: [Spot; THREADS] = [const { Spot { at: AtomicU64::new(0), tick: AtomicU64::new(0) } }; THREADS];

impl Run {
    pub fn new(panic_is_bad: bool, seed: u64) -> Self {
        Run {
            all: Mutex::new(Local::default()),
            named: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            found: AtomicU64::new(0),
            panic_is_bad,
            seed,
        }
    }

    pub fn add(&self, name: &str, n: u64) {
        *self.named.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }

    /// Runs `f` on every item of 0..n in parallel. `width` is only for reports; items are words.
    pub fn each<F>(&self, name: &str, width: u8, n: u64, f: F)
    where
        F: Fn(u64, &mut Local) + Sync,
    {
        let next = AtomicU64::new(0);
        let me = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..THREADS {
                let b = std::thread::Builder::new().stack_size(8 << 20);
                b.spawn_scoped(s, || {
                    let id = me.fetch_add(1, Relaxed);
                    let mut mine = Local::default();
                    let size = BLOCK.min((n / (THREADS as u64 * 8)).max(1));
                    loop {
                        let lo = next.fetch_add(size, Relaxed);
                        if lo >= n || self.stop.load(Relaxed) {
                            break;
                        }
                        let hi = (lo + size).min(n);
                        let mut l = Local::default();
                        let go = |lo: u64, hi: u64, l: &mut Local| {
                            catch_unwind(AssertUnwindSafe(|| {
                                for i in lo..hi {
                                    SPOT[id].at.store(i + 1, Relaxed);
                                    f(i, l);
                                }
                            }))
                            .is_ok()
                        };
                        SPOT[id].tick.fetch_add(1, Relaxed);
                        if !go(lo, hi, &mut l) {
                            l = Local::default();
                            for i in lo..hi {
                                let mut one = Local::default();
                                if go(i, i + 1, &mut one) {
                                    l.merge(one);
                                } else {
                                    SPOT[id].tick.fetch_add(1, Relaxed);
                                    l.counts[7] += 1;
                                    if self.panic_is_bad {
                                        l.bad(width, i, 2, || "panicked".to_string());
                                    }
                                }
                            }
                        }
                        done.fetch_add(hi - lo, Relaxed);
                        if l.total > 0 && self.found.fetch_add(l.total, Relaxed) + l.total > 2000 {
                            self.stop.store(true, Relaxed);
                        }
                        mine.merge(l);
                    }
                    SPOT[id].at.store(0, Relaxed);
                    self.all.lock().unwrap().merge(mine);
                })
                .unwrap();
            }
        });
        self.add(name, done.load(Relaxed));
    }
}

/// A worker that stays on one item for too long: report it and give up. The report goes where the
/// normal result would go.
pub fn watchdog(out: String, limit: Duration) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u64); THREADS];
        let mut since = [Instant::now(); THREADS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..THREADS {
                let now = (SPOT[i].at.load(Relaxed), SPOT[i].tick.load(Relaxed));
                if now.0 == 0 || now != last[i] {
                    last[i] = now;
                    since[i] = Instant::now();
                } else if since[i].elapsed() > limit {
                    let text = format!("{{\"hang\": {}}}\n", now.0 - 1);
                    let _ = std::fs::write(&out, text);
                    std::process::exit(3);
                }
            }
        }
    });
}

/// Result file for run.py.
pub fn report(run: &Run, devs: &[String], extra: &[(String, String)]) -> String {
    let l = run.all.lock().unwrap();
    let mut f: Vec<&Finding> = l.finds.iter().collect();
    f.sort_by_key(|x| (x.width, x.w, x.isa));
    f.truncate(MAX_REPORTS);
    let finds: Vec<String> = f
        .iter()
        .map(|x| {
            format!(
                "{{\"width\": {}, \"word\": \"{:#x}\", \"isa\": \"{}\", \"what\": {}}}",
                x.width,
                x.w,
                ["Rv32", "Rv64", "any"][x.isa],
                quote(&x.what)
            )
        })
        .collect();
    let known: Vec<String> = devs
        .iter()
        .enumerate()
        .map(|(k, d)| {
            format!(
                "{}: {{\"count\": {}, \"first\": {}}}",
                quote(d),
                l.devs[k],
                l.dev_words[k].map_or("null".into(), |w| format!("\"{w:#x}\""))
            )
        })
        .collect();
    let named: Vec<String> = run.named.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect();
    let extra: Vec<String> = extra.iter().map(|(k, v)| format!("{}: {}", quote(k), quote(v))).collect();
    format!(
        "{{\"total\": {}, \"finds\": [{}], \"deviations\": {{{}}}, \"runs\": {{{}}}, \"counts\": {:?}, \"info\": {{{}}}}}\n",
        l.total,
        finds.join(", "),
        known.join(", "),
        named.join(", "),
        l.counts,
        extra.join(", ")
    )
}

/// Deterministic random numbers.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
