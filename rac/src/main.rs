//! Run-time checking of the contracts of every property on the compiled real code.
//! usage: rac PROPERTY --out RESULT.json [--tier quick|thorough] [--seed N] [--only CASE]
mod bus;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod reg;
mod sys;

use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static CASE_START: AtomicI64 = AtomicI64::new(0);
static CASE_KEY: Mutex<String> = Mutex::new(String::new());
static QUIET: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);
/// a case running longer than this (real time) is a hang
const HANG_NS: i64 = 25_000_000_000;

pub type R = Result<(), String>;

#[derive(Default)]
struct State {
    out: String,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    rules: Vec<String>,
    counters: HashMap<String, u64>,
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    only: Option<String>,
    max_violations: usize,
}

macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
pub(crate) use check;

fn write_result(done: bool) {
    let st = STATE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(s) = st.as_ref() {
        let v: Vec<_> = s
            .violations
            .iter()
            .map(|(k, d)| serde_json::json!({"case": k, "detail": d}))
            .collect();
        let j = serde_json::json!({"done": done, "evaluations": s.evaluations, "distinct": s.distinct.len(),
            "samples": s.samples, "violations": v, "rules": s.rules, "counters": s.counters});
        let _ = std::fs::write(&s.out, serde_json::to_string_pretty(&j).unwrap());
    }
}

pub fn hash<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    /// How cases are made and what makes one count as non-trivial.
    pub fn rule(&self, r: &str) {
        STATE.lock().unwrap().as_mut().unwrap().rules.push(r.to_string());
    }
    pub fn count(&self, name: &str, n: u64) {
        *STATE.lock().unwrap().as_mut().unwrap().counters.entry(name.to_string()).or_default() += n;
    }
    pub fn stop(&self) -> bool {
        STATE.lock().unwrap().as_ref().unwrap().violations.len() >= self.max_violations
    }
    pub fn wanted(&self, key: &str) -> bool {
        match &self.only {
            Some(o) => o == key,
            None => !self.stop(),
        }
    }
    /// `only` restricts to cases starting with the prefix
    pub fn group(&self, prefix: &str) -> bool {
        match &self.only {
            Some(o) => o.starts_with(prefix),
            None => !self.stop(),
        }
    }
    /// One evaluation of the contract on one input or history. `f` returns whether the case was non-trivial.
    pub fn case(&self, key: &str, f: impl FnOnce() -> Result<bool, String>) {
        if !self.wanted(key) {
            return;
        }
        *CASE_KEY.lock().unwrap() = key.to_string();
        if let Some(s) = STATE.lock().unwrap().as_mut() {
            let _ = std::fs::write(format!("{}.current", s.out), key);
        }
        CASE_START.store(sys::real_ns(), SeqCst);
        PANICS.lock().unwrap().clear();
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(0, SeqCst);
        bus::reset();
        let panics: Vec<String> = PANICS.lock().unwrap().drain(..).collect();
        let mut st = STATE.lock().unwrap();
        let s = st.as_mut().unwrap();
        s.evaluations += 1;
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", panics.join("; "))),
        };
        let r = match r {
            Ok(_) if !panics.is_empty() => Err(format!("panic in another thread: {}", panics.join("; "))),
            r => r,
        };
        match r {
            Ok(nontrivial) => {
                if nontrivial && s.distinct.insert(hash(key)) && (s.samples.len() < 6 || (s.samples.len() < 12 && s.distinct.len() % 97 == 0)) {
                    s.samples.push(key.to_string());
                }
            }
            Err(e) => {
                eprintln!("FAILED {key}: {e}");
                s.violations.push((key.to_string(), e));
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let prop = args[1].clone();
    if prop.starts_with("child-") {
        return bus::child(&args[1..]);
    }
    let out = get("--out").unwrap_or("/dev/null".into());
    *STATE.lock().unwrap() = Some(State { out, ..Default::default() });
    if get("--verbose").is_none() {
        QUIET.store(true, SeqCst);
    }
    std::panic::set_hook(Box::new(|info| {
        let t = std::thread::current();
        let m = format!("[{}] {}", t.name().unwrap_or("?"), info.to_string().replace('\n', " "));
        if !QUIET.load(SeqCst) {
            eprintln!("{m}");
        }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(m);
    }));
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = CASE_START.load(SeqCst);
            if s != 0 && sys::real_ns() - s > HANG_NS {
                let key = CASE_KEY.lock().unwrap().clone();
                eprintln!("HANG {key}");
                if let Some(s) = STATE.lock().unwrap().as_mut() {
                    let p = PANICS.lock().map(|p| p.join("; ")).unwrap_or_default();
                    s.violations.push((key, format!("did not finish within {} s {p}", HANG_NS / 1_000_000_000)));
                }
                write_result(false);
                unsafe { libc::_exit(3) };
            }
        })
        .unwrap();
    let ctx = Ctx {
        thorough: get("--tier").as_deref() == Some("thorough"),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        only: get("--only"),
        max_violations: 3,
    };
    match prop.as_str() {
        "C01" => c01::run(&ctx),
        "C02" => c02::run(&ctx),
        "C03" => c03::run(&ctx),
        "C04" => c04::run(&ctx),
        "C05" => c05::run(&ctx),
        "C06" => c06::run(&ctx),
        "C07" => c07::run(&ctx),
        "C08" => c08::run(&ctx),
        "C09" => c09::run(&ctx),
        "C10" => reg::run(&ctx, false),
        "C11" => reg::run(&ctx, true),
        "C12" => c12::run(&ctx),
        "C13" => c13::run(&ctx),
        "C14" => c14::run(&ctx),
        "C15" => c15::run(&ctx),
        "C16" => c16::run(&ctx),
        "C17" => c17::run(&ctx),
        "C18" => c18::run(&ctx),
        "C19" => c19::run(&ctx),
        p => panic!("unknown property {p}"),
    }
    write_result(true);
    let n = STATE.lock().unwrap().as_ref().unwrap().violations.len();
    std::process::exit(if n > 0 { 1 } else { 0 });
}

/// deterministic pseudo-random numbers
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
