//! Runs the cases of one property, turns panics and wrong answers into
//! recorded failures and prints a JSON report.
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

static CASE: AtomicU64 = AtomicU64::new(0);

pub struct Fail {
    pub index: u64,
    pub input: String,
    pub message: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    distinct: HashSet<u64>,
    nontrivial: u64,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    trace: Option<std::fs::File>,
    start: Instant,
    budget: Duration,
    pub rules: Vec<String>,
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, trace: Option<&str>) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        let thorough = tier == "thorough";
        // a case that runs for 20 s does not terminate
        std::thread::spawn(|| {
            let mut last = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = CASE.load(Ordering::Relaxed);
                if c != last.0 {
                    last = (c, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(20) {
                    println!("HANG case {}", c);
                    std::io::stdout().flush().ok();
                    std::process::exit(97);
                }
            }
        });
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            rng: Rng(seed),
            evals: 0,
            distinct: HashSet::new(),
            nontrivial: 0,
            samples: vec![],
            fails: vec![],
            trace: trace.map(|p| std::fs::File::create(p).unwrap()),
            start: Instant::now(),
            budget: Duration::from_secs(if thorough { 400 } else { 90 }),
            rules: vec![],
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.into());
    }
    /// Enough failures or out of time.
    pub fn done(&self) -> bool {
        self.fails.len() >= 5 || self.start.elapsed() > self.budget
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.rng.below(xs.len())].clone()
    }
    /// Runs one case; `input` describes it.
    pub fn case(&mut self, input: impl Fn() -> String, key: &[u8], nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if self.fails.len() >= 5 {
            return;
        }
        self.evals += 1;
        CASE.store(self.evals, Ordering::Relaxed);
        if let Some(t) = &mut self.trace {
            use std::io::Seek;
            let _ = t.set_len(0);
            let _ = t.seek(std::io::SeekFrom::Start(0));
            let _ = t.write_all(input().as_bytes());
        }
        if nontrivial && self.distinct.len() < 4_000_000 && self.distinct.insert(fnv(key)) {
            self.nontrivial += 1;
            if self.samples.len() < 8 && (self.nontrivial.is_power_of_two()) {
                let mut s = input();
                if s.len() > 200 {
                    let mut e = 200;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                }
                self.samples.push(s);
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!(
                "panicked: {}",
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            ),
        };
        let index = self.evals;
        self.fails.push(Fail { index, input: input(), message: msg });
    }
    pub fn check(&mut self, input: &str, f: impl FnOnce() -> Result<(), String>) {
        self.case(|| input.to_string(), input.as_bytes(), true, f)
    }
    pub fn report(&self) -> String {
        let mut o = String::new();
        o += &format!(
            "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rules\":[{}],\"samples\":[{}],\"fails\":[{}]}}",
            js(&self.prop),
            self.evals,
            self.nontrivial,
            self.rules.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.fails
                .iter()
                .map(|f| format!("{{\"case\":{},\"input\":{},\"message\":{}}}", f.index, js(&f.input), js(&f.message)))
                .collect::<Vec<_>>()
                .join(",")
        );
        o
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

/// Bytes as a readable Rust byte string.
pub fn show(b: &[u8]) -> String {
    let mut o = String::from("b\"");
    for &c in b {
        for e in std::ascii::escape_default(c) {
            o.push(e as char);
        }
    }
    o.push('"');
    o
}
