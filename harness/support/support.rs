// Shared by the executable-contract harnesses: seeded generation, one case at a time, panics and
// hangs of the code under test count as failures of the case.
#![allow(dead_code)]
use std::{
    panic::{AssertUnwindSafe, catch_unwind},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// integers near boundaries more often than elsewhere
    pub fn edgy(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
            3 => self.below(300),
            4 => u32::MAX as u64 + self.below(3) - 1,
            _ => self.u64() >> self.below(64),
        }
    }
}

static STARTED: AtomicU64 = AtomicU64::new(0);
static SINCE_MS: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicU64 = AtomicU64::new(0);

pub struct Run {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    suite: &'static str,
    cases: u64,
    nontrivial: u64,
    pub samples: Vec<String>,
    failed: Vec<&'static str>,
    t0: Instant,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    pub fn from_args() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let run = Run {
            property: a.get(1).cloned().unwrap_or_default(),
            thorough: a.get(2).map(|s| s == "thorough").unwrap_or(false),
            seed: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1),
            suite: "",
            cases: 0,
            nontrivial: 0,
            samples: vec![],
            failed: vec![],
            t0: Instant::now(),
        };
        let prop = run.property.clone();
        std::panic::set_hook(Box::new(|_| {}));
        let start = Instant::now();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let started = STARTED.load(Ordering::SeqCst);
                if started > DONE.load(Ordering::SeqCst)
                    && start.elapsed().as_millis() as u64 > SINCE_MS.load(Ordering::SeqCst) + 45_000
                {
                    println!(
                        "FAIL {{\"property\":{},\"suite\":\"case number {}\",\"input\":\"(deterministic: rerun with the same seed)\",\"what\":\"the call did not return within 45 s\"}}",
                        esc(&prop),
                        started
                    );
                    std::process::exit(1);
                }
            }
        });
        run
    }
    pub fn quick_or(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    pub fn suite(&mut self, name: &'static str) {
        self.suite = name;
    }
    /// One case. `input` is only rendered when needed. Err is a failed contract.
    pub fn case<I: Fn() -> String, F: FnOnce() -> Result<bool, String>>(&mut self, input: I, f: F) {
        if self.failed.contains(&self.suite) {
            return;
        }
        SINCE_MS.store(self.t0.elapsed().as_millis() as u64, Ordering::SeqCst);
        STARTED.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        DONE.fetch_add(1, Ordering::SeqCst);
        self.cases += 1;
        let what = match r {
            Ok(Ok(nontrivial)) => {
                self.nontrivial += nontrivial as u64;
                if nontrivial && self.samples.len() < 3 && (self.cases % 7 == 3) {
                    let s: String = input().chars().take(400).collect();
                    self.samples.push(format!("{}: {}", self.suite, s));
                }
                return;
            }
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "(no message)".into());
                format!("panicked: {m}")
            }
        };
        self.failed.push(self.suite);
        let inp: String = input().chars().take(40000).collect();
        let what: String = what.chars().take(3000).collect();
        println!(
            "FAIL {{\"property\":{},\"suite\":{},\"seed\":{},\"input\":{},\"what\":{}}}",
            esc(&self.property),
            esc(self.suite),
            self.seed,
            esc(&inp),
            esc(&what)
        );
    }
    pub fn finish(self) -> ! {
        let samples: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        println!(
            "DONE {{\"cases\":{},\"nontrivial\":{},\"failed\":{},\"samples\":[{}]}}",
            self.cases,
            self.nontrivial,
            self.failed.len(),
            samples.join(",")
        );
        std::process::exit(if self.failed.is_empty() { 0 } else { 1 });
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, contract says {want:?}")) }
}
