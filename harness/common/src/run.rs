//! Case runner: runs numbered cases in parallel, each from its own random
//! stream, collects what the monitors observed and the violations they raised.
use crate::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    /// run only this (section, case) pair
    pub only: Option<(String, u64)>,
    pub budget: f64,
    pub threads: usize,
    pub extra: BTreeMap<String, String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let mut a = Args {
            prop: it.next().expect("property"),
            seed: 1,
            thorough: false,
            out: String::new(),
            only: None,
            budget: 60.0,
            threads: 8,
            extra: BTreeMap::new(),
        };
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            match k.as_str() {
                "--seed" => a.seed = v.parse().expect("seed"),
                "--tier" => a.thorough = v == "thorough",
                "--out" => a.out = v,
                "--budget" => a.budget = v.parse().expect("budget"),
                "--threads" => a.threads = v.parse().expect("threads"),
                "--case" => {
                    let (s, c) = v.rsplit_once(':').expect("section:case");
                    a.only = Some((s.to_string(), c.parse().expect("case")));
                }
                k => {
                    a.extra.insert(k.trim_start_matches("--").to_string(), v);
                }
            }
        }
        a
    }
}

/// What one case observed.
#[derive(Default)]
pub struct Case {
    pub evals: u64,
    /// fingerprints of distinct non-trivial things judged
    pub keys: Vec<u64>,
    pub classes: Vec<String>,
    pub sample: Option<Value>,
    pub violation: Option<Value>,
    pub skipped: bool,
}

impl Case {
    pub fn new() -> Case {
        Case::default()
    }
    pub fn eval(&mut self, class: &str, key: impl std::hash::Hash) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        class.hash(&mut h);
        key.hash(&mut h);
        self.evals += 1;
        self.keys.push(h.finish());
        self.classes.push(class.to_string());
    }
    pub fn fail(&mut self, v: Value) {
        if self.violation.is_none() {
            self.violation = Some(v);
        }
    }
    pub fn ok(&self) -> bool {
        self.violation.is_none()
    }
}

pub struct Report {
    pub args: Args,
    pub evals: u64,
    pub cases: u64,
    pub skipped: u64,
    pub keys: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub internal: Vec<String>,
    pub notes: BTreeMap<String, Value>,
    pub start: Instant,
}

impl Report {
    pub fn new(args: &Args) -> Report {
        install_panic_hook();
        Report {
            args: args.clone(),
            evals: 0,
            cases: 0,
            skipped: 0,
            keys: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            internal: vec![],
            notes: BTreeMap::new(),
            start: Instant::now(),
        }
    }
    pub fn note(&mut self, k: &str, v: impl Into<Value>) {
        self.notes.insert(k.to_string(), v.into());
    }
    pub fn absorb(&mut self, section: &str, case: u64, c: Case) {
        self.evals += c.evals;
        self.cases += 1;
        if c.skipped {
            self.skipped += 1;
        }
        self.keys.extend(c.keys);
        let per = self.classes.entry(format!("section:{section}")).or_insert(0);
        *per += 1;
        for k in c.classes {
            *self.classes.entry(k).or_insert(0) += 1;
        }
        if let Some(s) = c.sample {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        if let Some(v) = c.violation {
            let detail = json!({"section": section, "case": case, "seed": self.args.seed,
                "tier": if self.args.thorough {"thorough"} else {"quick"}, "what": v});
            eprintln!("broken property in {section}:{case}: {v}");
            self.violations.push(detail);
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn left(&self) -> f64 {
        self.args.budget - self.elapsed()
    }

    /// Runs up to `n` cases of a section, stopping early at `frac` of the
    /// remaining budget or after three violations.
    pub fn section<F>(&mut self, name: &str, n: u64, frac: f64, threads: usize, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Case) + Sync,
    {
        let only = match &self.args.only {
            Some((s, _)) if s != name => return,
            Some((_, c)) => Some(*c),
            None => None,
        };
        let deadline = Instant::now() + Duration::from_secs_f64((self.left() * frac).max(1.0));
        let next = AtomicU64::new(only.unwrap_or(0));
        let end = only.map(|c| c + 1).unwrap_or(n);
        let bad = AtomicU64::new(0);
        let seed = self.args.seed;
        let stream = format!("{}/{}", self.args.prop, name);
        let results: Mutex<Vec<(u64, Case)>> = Mutex::new(vec![]);
        let internal: Mutex<Vec<String>> = Mutex::new(vec![]);
        let dog = Watchdog::start();
        std::thread::scope(|s| {
            for _ in 0..threads.max(1) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= end || bad.load(Ordering::SeqCst) >= 3 {
                            break;
                        }
                        // always run at least one case per worker
                        if only.is_none() && Instant::now() > deadline && i >= threads as u64 {
                            break;
                        }
                        let mut rng = Rng::new(seed, &stream, i);
                        let mut c = Case::new();
                        let tok = dog.begin(&format!("{name}:{i}"));
                        let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rng, &mut c)));
                        dog.end(tok);
                        if let Err(e) = r {
                            if panic_in_library() {
                                c.fail(json!({"what": format!("the library panicked: {}", panic_text(&*e))}));
                            } else {
                                internal
                                    .lock()
                                    .unwrap()
                                    .push(format!("{name}:{i}: {}", panic_text(&*e)));
                                bad.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                        if c.violation.is_some() {
                            bad.fetch_add(1, Ordering::SeqCst);
                        }
                        results.lock().unwrap().push((i, c));
                    })
                    .unwrap();
            }
        });
        dog.stop();
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|x| x.0);
        for (i, c) in rs {
            self.absorb(name, i, c);
        }
        self.internal.extend(internal.into_inner().unwrap());
    }

    /// Writes the result file; the runner script turns it into the verdict.
    pub fn finish(mut self) -> ! {
        let wall = self.elapsed();
        let (evals, distinct) = (self.evals, self.keys.len());
        let v = json!({
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "cases": self.cases,
            "skipped": self.skipped,
            "classes": self.classes,
            "samples": self.samples,
            "violations": self.violations,
            "internal_errors": self.internal,
            "notes": self.notes,
            "wall_s": wall,
            "complete": true,
        });
        let text = serde_json::to_string_pretty(&v).unwrap();
        if self.args.out.is_empty() {
            println!("{text}");
        } else {
            std::fs::write(&self.args.out, text).unwrap();
        }
        self.keys.clear();
        let code = if !v["violations"].as_array().unwrap().is_empty() {
            1
        } else if !v["internal_errors"].as_array().unwrap().is_empty() {
            2
        } else {
            0
        };
        std::process::exit(code);
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

static HOOKED: AtomicBool = AtomicBool::new(false);
pub static PANICS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
thread_local! { static MY_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    if HOOKED.swap(true, Ordering::SeqCst) {
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let n = PANICS.fetch_add(1, Ordering::SeqCst);
        let loc = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = loc.clone();
        MY_PANIC.with(|m| *m.borrow_mut() = loc);
        if n < 10 {
            eprintln!("panic: {i}");
        }
    }));
}

/// Did the panic that was just caught start in the library (or one of its
/// dependencies) rather than in the harness?
pub fn panic_in_library() -> bool {
    let mut l = MY_PANIC.with(|m| std::mem::take(&mut *m.borrow_mut()));
    if l.is_empty() {
        l = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    }
    !(l.is_empty() || l.starts_with("src/") || l.contains("/harness/"))
}

/// Calls into the library under test: a panic is an observation, not an error
/// of the harness.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        MY_PANIC.with(|m| m.borrow_mut().clear());
        panic_text(&*e)
    })
}

/// Entry point: a library panic outside any case (for example while building
/// a context from a valid setup) is a violation too.
pub fn main_with(f: impl FnOnce(Args)) {
    let args = Args::parse();
    if !args.out.is_empty() {
        *HANG_OUT.lock().unwrap() = Some(format!("{}.hang", args.out));
    }
    install_panic_hook();
    crate::refm::self_check(args.seed);
    let dog = Watchdog::start();
    dog.begin_idle_only("the check itself");
    let rep = Report::new(&args);
    let r = catch_unwind(AssertUnwindSafe(|| f(args)));
    if let Err(e) = r {
        let text = panic_text(&*e);
        let mut rep = rep;
        if panic_in_library() {
            let mut c = Case::new();
            c.fail(json!({"what": format!("the library panicked while the workload was being prepared: {text}")}));
            rep.absorb("setup", 0, c);
        } else {
            rep.internal.push(text);
        }
        rep.finish();
    }
}

/// Deadlock and non-termination monitor. It decides on CPU time, not on the
/// wall clock: a call is deadlocked if it is outstanding while the whole
/// process makes no CPU progress at all for 25 s, and does not terminate if
/// the process spends more than 1600 CPU seconds on it.
pub struct Watchdog {
    open: std::sync::Arc<Mutex<BTreeMap<u64, (String, f64)>>>,
    stop: std::sync::Arc<AtomicBool>,
    next: AtomicU64,
}

pub fn cpu_seconds() -> f64 {
    // utime + stime of the process, all threads, in clock ticks of 1/100 s
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit_once(')').map(|x| x.1).unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 14 {
        return 0.0;
    }
    let u: f64 = f[11].parse().unwrap_or(0.0);
    let t: f64 = f[12].parse().unwrap_or(0.0);
    (u + t) / 100.0
}

pub static HANG_OUT: Mutex<Option<String>> = Mutex::new(None);

impl Watchdog {
    pub fn start() -> Watchdog {
        let open: std::sync::Arc<Mutex<BTreeMap<u64, (String, f64)>>> = Default::default();
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let (o2, s2) = (open.clone(), stop.clone());
        std::thread::spawn(move || {
            let mut last = cpu_seconds();
            let mut idle = 0u32;
            while !s2.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(500));
                let now = cpu_seconds();
                let o = o2.lock().unwrap();
                if o.is_empty() || now - last > 0.015 {
                    idle = 0;
                    last = now;
                } else {
                    idle += 1;
                }
                let dead = idle >= 50;
                let spin = o.values().find(|(_, c)| now - *c > 1600.0).cloned();
                if dead || spin.is_some() {
                    let which: Vec<String> = o.values().map(|x| x.0.clone()).collect();
                    let what = if dead {
                        "no CPU progress for 25 s while calls are outstanding (deadlock)"
                    } else {
                        "a call used more than 1600 CPU seconds (does not terminate)"
                    };
                    eprintln!("HANG: {what}: {which:?}");
                    if let Some(p) = HANG_OUT.lock().unwrap().clone() {
                        let _ = std::fs::write(
                            p,
                            json!({"hang": what, "outstanding": which}).to_string(),
                        );
                    }
                    unsafe { libc_exit(97) }
                }
            }
        });
        Watchdog { open, stop, next: AtomicU64::new(0) }
    }
    pub fn begin(&self, what: &str) -> u64 {
        let t = self.next.fetch_add(1, Ordering::SeqCst);
        self.open.lock().unwrap().insert(t, (what.to_string(), cpu_seconds()));
        t
    }
    pub fn begin_idle_only(&self, what: &str) -> u64 {
        let t = self.next.fetch_add(1, Ordering::SeqCst);
        self.open.lock().unwrap().insert(t, (what.to_string(), f64::INFINITY));
        t
    }
    pub fn end(&self, t: u64) {
        self.open.lock().unwrap().remove(&t);
    }
    pub fn stop(&self) {
        self.stop.store(true, Ordering::SeqCst);
    }
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
