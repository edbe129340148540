//! A small explicit explorer for sequential code.
//!
//! A scenario is a closed program over the real library: a function of a `Ctx`
//! that asks the context for every choice it makes (operation, argument, fault,
//! environment answer).  The explorer runs the scenario once for every sequence
//! of choices there is (stateless depth-first search over the choice tree, in
//! parallel), optionally bounding the number of *deviations* from the default
//! answers.  Each execution runs on a fresh thread whose random sources are
//! reseeded, so that a list of choices identifies one execution; the list is the
//! replay artefact.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub use getrandom as rng;
pub use serde_json::{json, Value};

pub mod jsonmut;
#[cfg(feature = "openssl")]
pub mod ossl;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of what fails (matched against known-findings).
    pub key: String,
    pub msg: String,
}
/// What the check itself prints. The code under test (and its dependencies) may print, too:
/// its standard output is discarded (see `quiet`).
macro_rules! say {
    ($($t:tt)*) => { crate::say_line(&format!($($t)*)) };
}
static OUT: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
fn say_line(l: &str) {
    use std::io::Write;
    match &mut *OUT.lock().unwrap() {
        Some(f) => {
            let _ = f.write_all(format!("{}\n", l).as_bytes());
        }
        None => println!("{}", l),
    }
}
fn quiet() {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let keep = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        if keep >= 0 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            *OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(keep));
        }
    }
}
pub type R<T = ()> = Result<T, Violation>;

pub fn violation<T>(key: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Violation { key: key.into(), msg: msg.into() })
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
struct Pt {
    choice: u32,
    arity: u32,
    dev: bool,
}

pub struct Ctx {
    prefix: Vec<Pt>,
    points: Vec<Pt>,
    pub tier: Tier,
    trace: Vec<String>,
    states: Vec<u64>,
    transitions: u64,
    evals: u64,
    outcomes: BTreeMap<String, u64>,
    soft: Vec<Violation>,
    diverged: bool,
    salt: u64,
}

impl Ctx {
    /// A context outside of the exploration, which takes the first alternative everywhere.
    pub fn scratch() -> Ctx {
        Ctx::new(vec![], Tier::Quick, 0)
    }
    fn new(prefix: Vec<Pt>, tier: Tier, salt: u64) -> Ctx {
        Ctx {
            prefix,
            points: vec![],
            tier,
            trace: vec![],
            states: vec![],
            transitions: 0,
            evals: 0,
            outcomes: BTreeMap::new(),
            soft: vec![],
            diverged: false,
            salt,
        }
    }
    fn pt(&mut self, label: &str, n: usize, dev: bool) -> usize {
        assert!(n > 0, "choice point {} with no alternatives", label);
        let i = self.points.len();
        let c = if i < self.prefix.len() {
            let p = self.prefix[i];
            if p.arity as usize != n || p.dev != dev {
                self.diverged = true;
                panic!("mc: divergence while replaying a prefix at {} ({} vs {})", label, p.arity, n);
            }
            p.choice
        } else {
            0
        };
        self.points.push(Pt { choice: c, arity: n as u32, dev });
        if n > 1 {
            self.trace.push(format!("{}={}", label, c));
        }
        c as usize
    }
    /// A free choice among `n` alternatives: all are explored.
    pub fn choose(&mut self, label: &str, n: usize) -> usize {
        self.pt(label, n, false)
    }
    /// A choice whose alternative 0 is the default; taking another costs one deviation.
    pub fn deviate(&mut self, label: &str, n: usize) -> usize {
        self.pt(label, n, true)
    }
    pub fn flag(&mut self, label: &str) -> bool {
        self.choose(label, 2) == 1
    }
    pub fn pick<T: Clone + Debug>(&mut self, label: &str, of: &[T]) -> T {
        let i = self.choose(label, of.len());
        if of.len() > 1 {
            self.trace.pop();
            self.trace.push(format!("{}={}", label, short(&format!("{:?}", of[i]))));
        }
        of[i].clone()
    }
    /// A subset of 0..n (all 2^n explored).
    pub fn subset(&mut self, label: &str, n: usize) -> Vec<usize> {
        let m = self.choose(label, 1 << n);
        (0..n).filter(|i| m >> i & 1 == 1).collect()
    }
    /// A record of what the execution does, for the replay artefact.
    pub fn note(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            self.trace.push(s.into());
        }
    }
    /// The model state reached, reduced to what the property can observe.
    pub fn state<T: Hash>(&mut self, t: &T) {
        let mut h = DefaultHasher::new();
        self.salt.hash(&mut h);
        t.hash(&mut h);
        self.states.push(h.finish());
    }
    /// One real call whose result was compared with the model.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn outcome(&mut self, s: impl Into<String>) {
        *self.outcomes.entry(s.into()).or_insert(0) += 1;
    }
    /// A violation that does not end the execution.
    pub fn soft(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        if self.soft.len() < 200 {
            self.soft.push(Violation { key: key.into(), msg: msg.into() });
        }
    }
    pub fn ensure(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> R {
        self.transitions += 1;
        if ok {
            Ok(())
        } else {
            Err(Violation { key: key.to_string(), msg: msg() })
        }
    }
    pub fn same<T: PartialEq + Debug>(&mut self, got: T, want: T, key: &str, what: &str) -> R {
        self.transitions += 1;
        if got == want {
            Ok(())
        } else {
            violation(key, format!("{}: got {:?}, want {:?}", what, got, want))
        }
    }
    /// Runs `f`; a panic in it is a violation with the given key.
    pub fn no_panic<T>(&mut self, key: &str, what: &str, f: impl FnOnce() -> T) -> R<T> {
        match guard(f) {
            Ok(t) => Ok(t),
            Err(p) => violation(key, format!("{} panicked: {}", what, p)),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 120 {
        let a: String = s.chars().take(117).collect();
        format!("{}...", a)
    } else {
        s.to_string()
    }
}

thread_local! {
    static IN_EXEC: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// catch_unwind that returns the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let m = LAST_PANIC.with(|l| l.borrow().clone());
            if !m.is_empty() {
                return Err(m);
            }
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            Err(m)
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{}{}", short(&m), loc);
        if !IN_EXEC.with(|f| f.get()) {
            eprintln!("mc: {}", text);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = text);
    }));
}

pub struct Scenario {
    pub name: &'static str,
    /// What is enumerated, and within which bounds.
    pub bound: String,
    pub max_dev: u32,
    pub body: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>,
}
impl Scenario {
    pub fn new(
        name: &'static str,
        bound: impl Into<String>,
        body: impl Fn(&mut Ctx) -> R + Send + Sync + 'static,
    ) -> Scenario {
        Scenario { name, bound: bound.into(), max_dev: u32::MAX, body: Box::new(body) }
    }
    pub fn dev(mut self, n: u32) -> Scenario {
        self.max_dev = n;
        self
    }
}

pub struct Check {
    pub rule: String,
    pub assumptions: Vec<String>,
    pub scenarios: Vec<Scenario>,
}

pub type Build = fn(Tier) -> Check;

struct Stat {
    execs: u64,
    transitions: u64,
    evals: u64,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    max_choices: usize,
    wall_us: u64,
}

struct Found {
    scen: usize,
    points: Vec<Pt>,
    trace: Vec<String>,
    v: Violation,
}

struct RunOut {
    points: Vec<Pt>,
    trace: Vec<String>,
    states: Vec<u64>,
    transitions: u64,
    evals: u64,
    outcomes: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    diverged: bool,
}

fn salt_of(name: &str) -> u64 {
    let mut h = DefaultHasher::new();
    name.hash(&mut h);
    h.finish()
}

fn run_one(sc: &Scenario, prefix: Vec<Pt>, tier: Tier, seed: u64) -> RunOut {
    let salt = salt_of(sc.name);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                let mut h = DefaultHasher::new();
                (seed, salt).hash(&mut h);
                for p in &prefix {
                    p.choice.hash(&mut h);
                }
                // The seed depends on the scenario only, not on the choices: two executions
                // that share a prefix of choices share their random answers as well.
                let _ = h.finish();
                getrandom::seed(seed ^ salt);
                IN_EXEC.with(|f| f.set(true));
                LAST_PANIC.with(|l| l.borrow_mut().clear());
                let mut ctx = Ctx::new(prefix, tier, salt);
                let r = guard(|| (sc.body)(&mut ctx));
                let mut violations = std::mem::take(&mut ctx.soft);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => violations.push(v),
                    Err(m) => violations.push(Violation {
                        key: format!("panic:{}:{}", sc.name, m),
                        msg: format!("panic: {}", m),
                    }),
                }
                RunOut {
                    points: ctx.points,
                    trace: ctx.trace,
                    states: ctx.states,
                    transitions: ctx.transitions,
                    evals: ctx.evals,
                    outcomes: ctx.outcomes,
                    violations,
                    diverged: ctx.diverged,
                }
            })
            .expect("spawn");
        h.join().expect("execution thread")
    })
}

fn env_or(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

struct Known {
    findings: Vec<(String, String, String)>, // property, key prefix, text
}
fn load_known(dir: &str) -> Known {
    let mut findings = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", dir)) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                // finding: property=X key=<key without blanks> <text>
                let mut prop = String::new();
                let mut key = String::new();
                let mut text = vec![];
                for w in rest.split_whitespace() {
                    if prop.is_empty() && w.starts_with("property=") {
                        prop = w["property=".len()..].to_string();
                    } else if key.is_empty() && w.starts_with("key=") {
                        key = w["key=".len()..].to_string();
                    } else {
                        text.push(w);
                    }
                }
                if !prop.is_empty() && !key.is_empty() {
                    findings.push((prop, key, text.join(" ")));
                }
            }
        }
    }
    Known { findings }
}

fn pts_json(p: &[Pt]) -> Value {
    Value::Array(p.iter().map(|p| json!([p.choice, p.arity, p.dev])).collect())
}
fn pts_from(v: &Value) -> Vec<Pt> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| Pt {
                    choice: x[0].as_u64().unwrap_or(0) as u32,
                    arity: x[1].as_u64().unwrap_or(1) as u32,
                    dev: x[2].as_bool().unwrap_or(false),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Entry point of a harness binary: `bin ID [--replay FILE]`.
pub fn main(checks: &[(&'static str, Build)]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let build = match checks.iter().find(|c| c.0 == id) {
        Some(c) => c.1,
        None => {
            eprintln!("unknown check {:?}; have {:?}", id, checks.iter().map(|c| c.0).collect::<Vec<_>>());
            std::process::exit(2);
        }
    };
    let tier = if env_or("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = env_or("VERIF_SEED", "1").parse().unwrap_or(1);
    let dir = env_or("VERIF_DIR", "/verif");
    if let Some(k) = args.iter().position(|a| a == "--replay") {
        quiet();
        install_hook();
        std::process::exit(replay(&id, build, tier, seed, &args[k + 1]));
    }
    if std::env::var("MC_CHILD").is_ok() {
        quiet();
        install_hook();
        std::process::exit(child(&id, build, tier, seed, &dir));
    }
    std::process::exit(supervise(&id, &dir));
}

fn replay(id: &str, build: Build, tier: Tier, seed: u64, file: &str) -> i32 {
    init_rng();
    getrandom::seed(seed);
    let v: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read replay {}", file);
            return 2;
        }
    };
    let tier = match v["tier"].as_str() {
        Some("thorough") => Tier::Thorough,
        Some("quick") => Tier::Quick,
        _ => tier,
    };
    let c = build(tier);
    let name = v["scenario"].as_str().unwrap_or("");
    let sc = match c.scenarios.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no scenario {}", name);
            return 2;
        }
    };
    let out = run_one(sc, pts_from(&v["choices"]), tier, v["seed"].as_u64().unwrap_or(seed));
    for t in &out.trace {
        say!("  {}", t);
    }
    for x in &out.violations {
        say!("REPLAY violation property={} key={} {}", id, x.key, x.msg);
    }
    if out.violations.is_empty() {
        say!("REPLAY no violation");
        0
    } else {
        1
    }
}

fn init_rng() {
    #[cfg(feature = "openssl")]
    ossl::install();
}

fn tmpdir() -> String {
    env_or("MC_TMP", "/tmp")
}

/// Runs the exploration in a child process, so that a crash of the code under test
/// (stack overflow, abort, out-of-memory allocation) is attributed to the execution
/// that caused it, by running the executions in flight again one by one.
fn supervise(id: &str, dir: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let base = format!("{}/mc-{}-{}", tmpdir(), id, std::process::id());
    let _ = std::fs::create_dir_all(&base);
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe).arg(id).env("MC_CHILD", &base).status().expect("child");
    let code = match st.code() {
        Some(c) => c,
        None => {
            let sig = st.signal().unwrap_or(0);
            eprintln!("explorer child ended by signal {}", sig);
            let mut rc = 2;
            if sig == libc::SIGABRT || sig == libc::SIGSEGV || sig == libc::SIGBUS || sig == libc::SIGILL || sig == libc::SIGFPE {
                let mut files: Vec<_> = std::fs::read_dir(&base)
                    .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
                    .unwrap_or_else(|_| vec![]);
                files.sort();
                for f in files {
                    let s = std::process::Command::new(&exe)
                        .arg(id)
                        .arg("--replay")
                        .arg(&f)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status()
                        .expect("replay");
                    if s.code().is_none() {
                        let rp = format!("{}/replays", dir);
                        let _ = std::fs::create_dir_all(&rp);
                        let to = format!("{}/{}-crash.json", rp, id);
                        let _ = std::fs::copy(&f, &to);
                        println!(
                            "the process crashed (signal {}) while running the code under test",
                            s.signal().unwrap_or(0)
                        );
                        println!("VIOLATION property={} replay={}", id, to);
                        rc = 1;
                        break;
                    }
                }
            }
            rc
        }
    };
    let _ = std::fs::remove_dir_all(&base);
    code
}

fn child(id: &str, build: Build, tier: Tier, seed: u64, dir: &str) -> i32 {
    let base = env_or("MC_CHILD", "");
    init_rng();
    getrandom::seed(seed);
    let t0 = Instant::now();
    let known = load_known(dir);
    let check = match guard(|| build(tier)) {
        Ok(c) => c,
        Err(m) => {
            // The fixture itself could not be built by the library: honest set-up calls fail.
            say!("setting up the fixtures with the code under test failed: {}", m);
            let rp = format!("{}/replays", dir);
            let _ = std::fs::create_dir_all(&rp);
            let to = format!("{}/{}-setup.json", rp, id);
            let _ = std::fs::write(&to, json!({"property": id, "setup_failure": m}).to_string());
            say!("VIOLATION property={} replay={}", id, to);
            write_evidence(id, tier, seed, dir, &[], &[], t0, 1, false, &["set-up failed".into()], "set-up", &[]);
            return 1;
        }
    };
    let only = std::env::var("MC_ONLY").ok();
    let n_workers: usize = env_or("MC_WORKERS", "0").parse().ok().filter(|n| *n > 0).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    let budget = Duration::from_secs(env_or("MC_BUDGET_S", if tier == Tier::Quick { "420" } else { "20000" }).parse().unwrap());
    let hang = Duration::from_secs(env_or("MC_HANG_S", "300").parse().unwrap());

    let stack: Mutex<Vec<(usize, Vec<Pt>)>> = Mutex::new(
        (0..check.scenarios.len())
            .rev()
            .filter(|i| only.as_ref().map_or(true, |o| check.scenarios[*i].name.starts_with(o.as_str())))
            .map(|i| (i, vec![]))
            .collect(),
    );
    let cv = Condvar::new();
    let pending = AtomicUsize::new(stack.lock().unwrap().len());
    let stats: Vec<Mutex<Stat>> = check
        .scenarios
        .iter()
        .map(|_| {
            Mutex::new(Stat {
                execs: 0,
                transitions: 0,
                evals: 0,
                states: HashSet::new(),
                outcomes: BTreeMap::new(),
                samples: vec![],
                max_choices: 0,
                wall_us: 0,
            })
        })
        .collect();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let diverged = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_seen: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
    let started: Vec<AtomicU64> = (0..n_workers).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<(usize, Vec<Pt>)>> = (0..n_workers).map(|_| Mutex::new((0, vec![]))).collect();
    let done = AtomicBool::new(false);

    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..n_workers {
            let (stack, cv, pending, stats, stop, capped, found, check, base, known, known_seen, diverged) = (
                &stack, &cv, &pending, &stats, &stop, &capped, &found, &check, &base, &known, &known_seen, &diverged,
            );
            let (started, current) = (&started, &current);
            hs.push(s.spawn(move || loop {
                let job = {
                    let mut g = stack.lock().unwrap();
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            return;
                        }
                        if let Some(j) = g.pop() {
                            break j;
                        }
                        if pending.load(Ordering::SeqCst) == 0 {
                            return;
                        }
                        let r = cv.wait_timeout(g, Duration::from_millis(50)).unwrap();
                        g = r.0;
                    }
                };
                if t0.elapsed() > budget {
                    capped.store(true, Ordering::SeqCst);
                    stop.store(true, Ordering::SeqCst);
                    cv.notify_all();
                    return;
                }
                let (si, prefix) = job;
                let sc = &check.scenarios[si];
                {
                    let f = format!("{}/w{}.json", base, w);
                    let v = json!({"property": id, "scenario": sc.name, "seed": seed,
                        "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "choices": pts_json(&prefix)});
                    let _ = std::fs::write(&f, v.to_string());
                }
                *current[w].lock().unwrap() = (si, prefix.clone());
                started[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let te = Instant::now();
                let plen = prefix.len();
                let out = run_one(sc, prefix, tier, seed);
                started[w].store(0, Ordering::SeqCst);
                if out.diverged {
                    diverged.store(true, Ordering::SeqCst);
                    stop.store(true, Ordering::SeqCst);
                    cv.notify_all();
                    return;
                }
                let us = te.elapsed().as_micros() as u64;
                {
                    let mut st = stats[si].lock().unwrap();
                    st.execs += 1;
                    st.transitions += out.transitions;
                    st.evals += out.evals;
                    st.wall_us += us;
                    st.states.extend(out.states.iter().cloned());
                    for (k, v) in &out.outcomes {
                        *st.outcomes.entry(k.clone()).or_insert(0) += v;
                    }
                    st.max_choices = st.max_choices.max(out.points.len());
                    let n = st.execs;
                    if st.samples.len() < 3 && (n == 1 || n == 7 || n == 101) {
                        let tr: Vec<String> = out.trace.iter().take(60).map(|t| short(t)).collect();
                        st.samples.push(json!({"scenario": sc.name, "trace": tr}));
                    }
                }
                if !out.violations.is_empty() {
                    let mut new = vec![];
                    for v in out.violations.iter() {
                        match known.findings.iter().position(|k| k.0 == id && v.key == k.1) {
                            Some(i) => *known_seen.lock().unwrap().entry(i).or_insert(0) += 1,
                            None => new.push(v.clone()),
                        }
                    }
                    if !new.is_empty() {
                        let mut f = found.lock().unwrap();
                        for v in new {
                            f.push(Found { scen: si, points: out.points.clone(), trace: out.trace.clone(), v });
                        }
                        if std::env::var("MC_ALL").is_err() {
                            stop.store(true, Ordering::SeqCst);
                            cv.notify_all();
                        }
                    }
                }
                // Push the unexplored alternatives of this execution's new choice points.
                let mut fresh = vec![];
                let mut devs: u32 = out.points[..plen.min(out.points.len())]
                    .iter()
                    .filter(|p| p.dev && p.choice != 0)
                    .count() as u32;
                for i in plen..out.points.len() {
                    let p = out.points[i];
                    let cost = if p.dev { devs + 1 } else { devs };
                    if cost <= sc.max_dev {
                        for alt in 1..p.arity {
                            let mut q = out.points[..i].to_vec();
                            q.push(Pt { choice: alt, ..p });
                            fresh.push((si, q));
                        }
                    }
                    if p.dev && p.choice != 0 {
                        devs += 1;
                    }
                }
                fresh.reverse();
                let n = fresh.len();
                if n > 0 {
                    pending.fetch_add(n, Ordering::SeqCst);
                    stack.lock().unwrap().extend(fresh);
                }
                pending.fetch_sub(1, Ordering::SeqCst);
                cv.notify_all();
            }));
        }
        // Watchdog: an execution that does not end is a violation as well.
        let (started, current, found, done, stop, check) = (&started, &current, &found, &done, &stop, &check);
        s.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for w in 0..n_workers {
                    let st = started[w].load(Ordering::SeqCst);
                    if st != 0 && now.saturating_sub(st) > hang.as_millis() as u64 {
                        let (si, pts) = current[w].lock().unwrap().clone();
                        let f = Found {
                            scen: si,
                            points: pts,
                            trace: vec![],
                            v: Violation {
                                key: format!("hang:{}", check.scenarios[si].name),
                                msg: format!("an execution did not end within {} s", hang.as_secs()),
                            },
                        };
                        stop.store(true, Ordering::SeqCst);
                        let to = write_replay(id, tier, seed, dir, check, &f, 0);
                        say!("{}", f.v.msg);
                        say!("VIOLATION property={} replay={}", id, to);
                        let _ = std::io::stdout().flush();
                        let _ = found;
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            h.join().expect("worker");
        }
        done.store(true, Ordering::SeqCst);
    });

    if diverged.load(Ordering::SeqCst) {
        eprintln!("mc: the harness diverged while replaying a prefix (uncontrolled nondeterminism)");
        return 2;
    }
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.scen, f.points.len(), f.points.iter().map(|p| p.choice).collect::<Vec<_>>()));
    let capped = capped.load(Ordering::SeqCst);
    let stats: Vec<Stat> = stats.into_iter().map(|s| s.into_inner().unwrap()).collect();
    let mut rc = 0;
    if !found.is_empty() {
        rc = 1;
        let mut seen = HashSet::new();
        let mut n = 0;
        for f in found.iter() {
            if !seen.insert(f.v.key.clone()) {
                continue;
            }
            let to = write_replay(id, tier, seed, dir, &check, f, n);
            say!("scenario {}: {} [key={}]", check.scenarios[f.scen].name, f.v.msg, f.v.key);
            for t in f.trace.iter().take(80) {
                say!("    {}", short(t));
            }
            say!("VIOLATION property={} replay={}", id, to);
            n += 1;
            if n >= 25 {
                break;
            }
        }
    }
    let ks = known_seen.into_inner().unwrap();
    let mut known_lines = vec![];
    for (i, n) in &ks {
        let k = &known.findings[*i];
        say!("KNOWN-FINDING: property={} {} (key={}, met {} times)", k.0, k.2, k.1, n);
        known_lines.push(format!("{}: {}", k.1, k.2));
    }
    write_evidence(
        id, tier, seed, dir, &check.scenarios, &stats, t0, found.len() as i64, !capped && found.is_empty() && only.is_none(),
        &check.assumptions, &check.rule, &known_lines,
    );
    for (i, sc) in check.scenarios.iter().enumerate() {
        let st = &stats[i];
        say!(
            "{:<34} executions={} states={} transitions={} evaluations={} outcomes={} cpu={:.1}s",
            sc.name, st.execs, st.states.len(), st.transitions, st.evals, st.outcomes.len(), st.wall_us as f64 / 1e6
        );
    }
    say!(
        "property={} tier={:?} violations={} exhaustive_within_bounds={} wall={:.1}s",
        id, tier, found.len(), !capped, t0.elapsed().as_secs_f64()
    );
    rc
}

fn write_replay(id: &str, tier: Tier, seed: u64, dir: &str, check: &Check, f: &Found, n: usize) -> String {
    let rp = format!("{}/replays", dir);
    let _ = std::fs::create_dir_all(&rp);
    let to = format!("{}/{}-{}.json", rp, id, n);
    let v = json!({
        "property": id, "scenario": check.scenarios[f.scen].name, "seed": seed,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "choices": pts_json(&f.points), "trace": f.trace, "key": f.v.key, "message": f.v.msg,
        "how": format!("bash /verif/run.sh {} --replay {}", id, to),
    });
    let _ = std::fs::write(&to, serde_json::to_string_pretty(&v).unwrap());
    to
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    id: &str, tier: Tier, seed: u64, dir: &str, scen: &[Scenario], stats: &[Stat], t0: Instant, violations: i64,
    exhaustive: bool, assumptions: &[String], rule: &str, known: &[String],
) {
    let mut samples = vec![];
    let (mut st, mut tr, mut ex, mut ev, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut per = vec![];
    for (i, s) in stats.iter().enumerate() {
        st += s.states.len() as u64;
        tr += s.transitions;
        ex += s.execs;
        ev += s.evals;
        nontrivial += s.outcomes.len() as u64;
        for x in s.samples.iter().take(2) {
            if samples.len() < 12 {
                samples.push(x.clone());
            }
        }
        let outs: BTreeMap<&String, &u64> = s.outcomes.iter().take(40).collect();
        per.push(json!({"scenario": scen[i].name, "bound": scen[i].bound,
            "deviation_bound": if scen[i].max_dev == u32::MAX { Value::Null } else { json!(scen[i].max_dev) },
            "executions": s.execs, "states": s.states.len(), "transitions": s.transitions,
            "inner_evaluations": s.evals, "max_choice_points": s.max_choices,
            "distinct_outcomes": s.outcomes.len(), "outcomes": outs}));
    }
    if samples.is_empty() {
        samples.push(json!({"scenario": "none", "trace": []}));
    }
    let v = json!({
        "property": id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": st, "transitions": tr, "traces_validated_against_impl": ex,
            "inner_evaluations": ev, "distinct_outcomes": nontrivial,
            "rule": rule, "exhaustive": exhaustive, "samples": samples, "per_scenario": per,
            "known_findings_met": known,
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let p = format!("{}/evidence/{}.json", dir, id);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n") {
        eprintln!("cannot write {}: {}", p, e);
        std::process::exit(2);
    }
}

// ---- helpers shared by the harnesses -------------------------------------------------

/// All k-element subsets of 0..n, in lexicographic order.
pub fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            go(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    out
}
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// std (HashMap keys) and anything else that asks libc directly get the explorer's bytes.
/// # Safety
/// `buf` is valid for `n` bytes, as the caller of getrandom(2) guarantees.
#[cfg(not(test))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: usize, _flags: u32) -> isize {
    if n > 0 {
        getrandom::fill(std::slice::from_raw_parts_mut(buf as *mut u8, n));
    }
    n as isize
}

/// Values made once and shared by all executions (each execution has a thread of its own).
/// A value is made on a thread of its own too, seeded with where it is made and its key: it is
/// the same whichever execution makes it, and differs from the values of other keys.
pub struct Memo<K, V>(std::sync::Mutex<BTreeMap<K, std::sync::Arc<V>>>);
impl<K: Ord + Clone + std::hash::Hash, V: Send> Memo<K, V> {
    pub const fn new() -> Self {
        Memo(std::sync::Mutex::new(BTreeMap::new()))
    }
    #[track_caller]
    pub fn get<E: Send>(&self, k: &K, f: impl FnOnce() -> Result<V, E> + Send) -> Result<std::sync::Arc<V>, E> {
        use std::hash::{Hash, Hasher};
        if let Some(v) = self.0.lock().unwrap_or_else(|e| e.into_inner()).get(k) {
            return Ok(v.clone());
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let at = std::panic::Location::caller();
        (at.file(), at.line(), at.column()).hash(&mut h);
        k.hash(&mut h);
        let salt = h.finish();
        let in_exec = IN_EXEC.with(|i| i.get());
        let made = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    getrandom::seed(salt);
                    IN_EXEC.with(|i| i.set(in_exec));
                    guard(f)
                })
                .expect("thread")
                .join()
        });
        let made = match made {
            Ok(Ok(m)) => m,
            Ok(Err(m)) => panic!("{}", m),
            Err(p) => std::panic::resume_unwind(p),
        };
        let v = std::sync::Arc::new(made?);
        Ok(self.0.lock().unwrap_or_else(|e| e.into_inner()).entry(k.clone()).or_insert(v).clone())
    }
    #[track_caller]
    pub fn of(&self, k: &K, f: impl FnOnce() -> V + Send) -> std::sync::Arc<V> {
        self.get(k, || Ok::<V, ()>(f())).unwrap()
    }
}
