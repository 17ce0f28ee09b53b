//! Deterministic sharded property runner on top of proptest strategies.
//!
//! * every generated input is plain serde data: it is hashed for distinctness, traced before it
//!   is executed (so that a crash of the whole process still leaves a reproduction behind) and
//!   written as the replay file when it fails;
//! * the work is fixed (cases x shards), never time-bounded, and a pure function of VERIF_SEED;
//! * exit codes: 0 = held, 1 = VIOLATION, 2 = harness error (never a verdict).

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A failed case: message and, for recorded findings, the exact signature.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: Option<String>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), sig: None }
    }
}
impl Fail {
    pub fn with_sig(sig: &str, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: Some(sig.to_string()) }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) { return Err($crate::runner::Fail::from(format!($($t)*))); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::runner::Fail::from(format!(
                "{}: got {}, expected {}", format!($($t)*),
                $crate::runner::clip(&format!("{:?}", a)), $crate::runner::clip(&format!("{:?}", b)))));
        }
    }};
}

pub fn clip(s: &str) -> String {
    if s.len() <= 600 {
        s.to_string()
    } else {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes)", &s[..e], s.len())
    }
}

/// What a case actually exercised.
#[derive(Default)]
pub struct Obs {
    tags: Vec<&'static str>,
    nontrivial: bool,
}
impl Obs {
    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t)
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic '{msg}' at {loc}"));
        let named = std::thread::current().name().map(|n| n.starts_with("shard-")).unwrap_or(false);
        if named {
            old(info);
        }
    }));
}

/// Run `f`, turning a panic into `Err(description)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

struct CaseStats {
    evals: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<Failure>,
    known: BTreeMap<String, u64>,
}
impl CaseStats {
    fn new() -> Self {
        CaseStats {
            evals: 0,
            nontrivial: HashSet::new(),
            tags: BTreeMap::new(),
            samples: vec![],
            failure: None,
            known: BTreeMap::new(),
        }
    }
}

struct Failure {
    input: serde_json::Value,
    message: String,
}

pub struct ShardCtx<'a> {
    seed: u64,
    shard: u64,
    shards: u64,
    cases: u64,
    name: &'static str,
    property: &'static str,
    stop: &'a (dyn Fn() -> bool + Sync),
    known: &'a [Known],
    trace: Option<&'a Trace>,
    beat: &'a Beat,
}

/// When the running case began (milliseconds since the start of the process, 0 when none runs).
struct Beat {
    t0: Instant,
    since: AtomicU64,
}
impl Beat {
    fn go(&self) {
        self.since.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    fn rest(&self) {
        self.since.store(0, Ordering::Relaxed);
    }
    fn renew(&self) {
        let t = self.since.load(Ordering::Relaxed);
        if t != 0 {
            let _ = self.since.compare_exchange(t, self.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed, Ordering::Relaxed);
        }
    }
    fn age_ms(&self) -> u64 {
        match self.since.load(Ordering::Relaxed) {
            0 => 0,
            t => (self.t0.elapsed().as_millis() as u64).saturating_sub(t),
        }
    }
}
/// Cases take milliseconds; one that takes this long never ends.
const HANG_MS: u64 = 90_000;
const HANG_CODE: i32 = 70;

#[derive(Clone, Debug)]
struct Known {
    sig: String,
    text: String,
}

struct Trace {
    file: std::fs::File,
    len: Cell<usize>,
}
impl Trace {
    fn write(&self, check: &str, input: &[u8]) {
        use std::os::unix::fs::FileExt;
        let mut b = Vec::with_capacity(input.len() + 64);
        b.extend_from_slice(check.as_bytes());
        b.push(b'\n');
        b.extend_from_slice(input);
        b.push(b'\n');
        // No truncation on the hot path: a NUL terminates the record.
        b.push(0);
        let _ = self.file.write_all_at(&b, 0);
        self.len.set(b.len());
    }
}

type RunShard = Box<dyn Fn(&ShardCtx) -> CaseStats + Send + Sync>;
type RunOne = Box<dyn Fn(&serde_json::Value) -> Result<(), Fail> + Send + Sync>;

struct Check {
    name: &'static str,
    rule: &'static str,
    quick: u64,
    run: RunShard,
    replay: RunOne,
}

pub struct Suite {
    id: &'static str,
    checks: Vec<Check>,
    assumptions: Vec<String>,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn mk_rng(seed: u64, name: &str, shard: u64) -> TestRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&fnv(name.as_bytes()).to_le_bytes());
    s[16..24].copy_from_slice(&shard.to_le_bytes());
    s[24..32].copy_from_slice(b"rustica!");
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn exec<V>(test: &(dyn Fn(&V, &mut Obs) -> Res + Send + Sync), v: &V, obs: &mut Obs) -> Res {
    match catch_unwind(AssertUnwindSafe(|| test(v, obs))) {
        Ok(r) => r,
        Err(_) => Err(Fail::from(format!("unexpected {}", last_panic()))),
    }
}

impl Suite {
    pub fn new(id: &'static str) -> Self {
        Suite { id, checks: vec![], assumptions: vec![] }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Register a generated check. `quick` is the number of cases of the quick tier.
    pub fn check<S, F, T>(&mut self, name: &'static str, rule: &'static str, quick: u64, strat: F, test: T)
    where
        F: Fn() -> S + Send + Sync + 'static,
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + 'static,
        T: Fn(&S::Value, &mut Obs) -> Res + Send + Sync + 'static,
    {
        let test: std::sync::Arc<dyn Fn(&S::Value, &mut Obs) -> Res + Send + Sync> = std::sync::Arc::new(test);
        let t2 = test.clone();
        let run = move |cx: &ShardCtx| -> CaseStats {
            let mut st = CaseStats::new();
            let cfg = Config { failure_persistence: None, ..Config::default() };
            let mut runner = TestRunner::new_with_rng(cfg, mk_rng(cx.seed, cx.name, cx.shard));
            let strat = strat();
            let lo = cx.cases * cx.shard / cx.shards;
            let hi = cx.cases * (cx.shard + 1) / cx.shards;
            for _ in lo..hi {
                if (cx.stop)() {
                    break;
                }
                let mut tree = match strat.new_tree(&mut runner) {
                    Ok(t) => t,
                    Err(e) => harness_error(&format!("generator of {} failed: {e}", cx.name)),
                };
                let v = tree.current();
                let bytes = serde_json::to_vec(&v).expect("input serializes");
                if let Some(t) = cx.trace {
                    t.write(cx.name, &bytes);
                }
                let mut obs = Obs::default();
                cx.beat.go();
                let r = exec(&*test, &v, &mut obs);
                cx.beat.rest();
                st.evals += 1;
                for t in &obs.tags {
                    *st.tags.entry(t).or_insert(0) += 1;
                }
                if obs.nontrivial {
                    let new = st.nontrivial.insert(fnv(&bytes));
                    if new && st.samples.len() < 2 && bytes.len() < 900 {
                        if let Ok(j) = serde_json::from_slice(&bytes) {
                            st.samples.push(j);
                        }
                    }
                }
                if let Err(f) = r {
                    if let Some(sig) = &f.sig {
                        if cx.known.iter().any(|k| &k.sig == sig) {
                            *st.known.entry(sig.clone()).or_insert(0) += 1;
                            continue;
                        }
                    }
                    // Shrink: keep simplifying while the failure (unlisted) persists.
                    let mut best = v;
                    let mut best_msg = f.msg;
                    let mut iters = 0;
                    let t0 = Instant::now();
                    let mut ok_step = tree.simplify();
                    while ok_step && iters < 20_000 && t0.elapsed() < Duration::from_secs(60) {
                        iters += 1;
                        let cand = tree.current();
                        if let Some(t) = cx.trace {
                            t.write(cx.name, &serde_json::to_vec(&cand).unwrap());
                        }
                        let mut o = Obs::default();
                        cx.beat.go();
                        let r = exec(&*test, &cand, &mut o);
                        cx.beat.rest();
                        let still = match r {
                            Ok(()) => None,
                            Err(f) => match &f.sig {
                                Some(s) if cx.known.iter().any(|k| &k.sig == s) => None,
                                _ => Some(f.msg),
                            },
                        };
                        ok_step = match still {
                            Some(m) => {
                                best = cand;
                                best_msg = m;
                                tree.simplify()
                            }
                            None => tree.complicate(),
                        };
                    }
                    st.failure = Some(Failure {
                        input: serde_json::to_value(&best).unwrap(),
                        message: best_msg,
                    });
                    return st;
                }
            }
            st
        };
        let replay = move |j: &serde_json::Value| -> Result<(), Fail> {
            let v: S::Value = match serde_json::from_value(j.clone()) {
                Ok(v) => v,
                Err(e) => harness_error(&format!("replay input does not parse: {e}")),
            };
            exec(&*t2, &v, &mut Obs::default())
        };
        self.checks.push(Check { name, rule, quick, run: Box::new(run), replay: Box::new(replay) });
    }

    pub fn main(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        let has = |f: &str| args.iter().any(|a| a == f);
        let val = |f: &str| args.iter().position(|a| a == f).and_then(|i| args.get(i + 1)).cloned();
        if has("--list") {
            for c in &self.checks {
                println!("{}\t{}\t{}", self.id, c.name, c.quick);
            }
            std::process::exit(0);
        }
        if let Some(p) = val("--replay") {
            self.replay_main(&p, has("--probe"));
        }
        if has("--child") {
            self.child(&args);
        }
        self.parent(&args)
    }

    fn replay_main(self, path: &str, probe: bool) -> ! {
        install_hook();
        let txt = std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
        let f: ReplayFile = serde_json::from_str(&txt).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
        let id = self.id;
        let known = load_known(id);
        let r = on_big_stack(move || {
            let c = self
                .checks
                .iter()
                .find(|c| c.name == f.subcheck)
                .unwrap_or_else(|| harness_error(&format!("no subcheck {}", f.subcheck)));
            (c.replay)(&f.input)
        });
        match r {
            Ok(()) => {
                println!("OK property={id}: replay passes");
                std::process::exit(0)
            }
            Err(e) => {
                if let Some(k) = e.sig.as_ref().and_then(|s| known.iter().find(|k| &k.sig == s)) {
                    println!("KNOWN-FINDING: property={id} {}", k.text);
                    std::process::exit(0)
                }
                if !probe {
                    println!("{}", e.msg);
                    println!("VIOLATION property={id} replay={path}");
                }
                std::process::exit(1)
            }
        }
    }

    fn parent(self, args: &[String]) -> ! {
        let exe = std::env::current_exe().unwrap();
        let tdir = trace_dir(self.id);
        let _ = std::fs::remove_dir_all(&tdir);
        std::fs::create_dir_all(&tdir).unwrap_or_else(|e| harness_error(&format!("{tdir:?}: {e}")));
        let status = std::process::Command::new(&exe)
            .args(args.iter().skip(1))
            .arg("--child")
            .status()
            .unwrap_or_else(|e| harness_error(&format!("spawn: {e}")));
        use std::os::unix::process::ExitStatusExt;
        let hung = status.code() == Some(HANG_CODE);
        if let (Some(code), false) = (status.code(), hung) {
            let _ = std::fs::remove_dir_all(&tdir);
            std::process::exit(code);
        }
        let sig = status.signal().unwrap_or(0);
        let what = if hung { "does not finish".to_string() } else { format!("process killed by signal {sig}") };
        if !hung && ![libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) {
            harness_error(&format!("child killed by signal {sig}"));
        }
        // The library crashed the process. Find which traced input does it on its own.
        let mut cands: Vec<PathBuf> = std::fs::read_dir(&tdir).unwrap().flatten().map(|e| e.path()).collect();
        cands.sort();
        for c in cands {
            let Ok(b) = std::fs::read(&c) else { continue };
            let end = b.iter().position(|x| *x == 0).unwrap_or(b.len());
            let s = String::from_utf8_lossy(&b[..end]).to_string();
            let Some((name, rest)) = s.split_once('\n') else { continue };
            let Ok(input) = serde_json::from_str::<serde_json::Value>(rest.trim_end()) else { continue };
            let msg = format!("{what} while executing this input");
            let path = write_replay(self.id, name, &input, &msg);
            for _ in 0..3 {
                let st = std::process::Command::new(&exe)
                    .args(["--replay", path.to_str().unwrap(), "--probe"])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .and_then(wait_limited);
                if let Ok(st) = st {
                    // a run that does not finish is ended by a signal too
                    let died = st.code().is_none();
                    if died || st.code() == Some(1) {
                        println!("{name}: {msg}: {}", clip(rest.trim_end()));
                        println!("VIOLATION property={} replay={}", self.id, path.display());
                        std::process::exit(1);
                    }
                }
            }
            let _ = std::fs::remove_file(&path);
        }
        harness_error(&format!("child: {what}; no traced input reproduces it alone"));
    }

    fn child(self, args: &[String]) -> ! {
        install_hook();
        let t0 = Instant::now();
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let tier = if args.iter().any(|a| a == "--thorough") {
            "thorough"
        } else if args.iter().any(|a| a == "--quick") {
            "quick"
        } else {
            match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => "thorough",
                _ => "quick",
            }
        };
        let mult: f64 = std::env::var("VERIF_MULT")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { 50.0 } else { 2.0 });
        let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
        let limit = if tier == "thorough" { 10 * 3600 } else { 840 };
        let id = self.id;
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("ERROR property={id}: watchdog after {limit} s (inconclusive)");
            std::process::exit(2);
        });
        let known = load_known(self.id);
        let checks: Vec<&Check> = self.checks.iter().filter(|c| only.as_ref().is_none_or(|o| c.name.contains(o.as_str()))).collect();
        const SHARDS: u64 = 16;
        let jobs: Vec<(usize, u64)> = (0..SHARDS).flat_map(|s| (0..checks.len()).map(move |c| (c, s))).collect();
        let next = AtomicUsize::new(0);
        let failed: Vec<std::sync::atomic::AtomicBool> =
            checks.iter().map(|_| std::sync::atomic::AtomicBool::new(false)).collect();
        let any_failed = std::sync::atomic::AtomicBool::new(false);
        let results: Mutex<Vec<(usize, u64, CaseStats)>> = Mutex::new(vec![]);
        let times: Vec<AtomicUsize> = checks.iter().map(|_| AtomicUsize::new(0)).collect();
        let tdir = trace_dir(self.id);
        std::fs::create_dir_all(&tdir).ok();
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
        let beats: std::sync::Arc<Vec<Beat>> = std::sync::Arc::new((0..workers).map(|_| Beat { t0, since: AtomicU64::new(0) }).collect());
        let watched = beats.clone();
        std::thread::spawn(move || {
            let mut last = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                // the whole process was stopped for a while: give the cases a new start
                if last.elapsed() > Duration::from_secs(20) {
                    watched.iter().for_each(|b| b.renew());
                }
                last = Instant::now();
                if watched.iter().any(|b| b.age_ms() > HANG_MS) {
                    eprintln!("property={id}: a case has not finished after {HANG_MS} ms");
                    std::process::exit(HANG_CODE);
                }
            }
        });
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (jobs, next, failed, results, checks, known, tdir, any_failed, times, beats) =
                    (&jobs, &next, &failed, &results, &checks, &known, &tdir, &any_failed, &times, &beats);
                std::thread::Builder::new()
                    .name(format!("worker-{w}"))
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let trace = std::fs::File::create(tdir.join(format!("t{w}")))
                            .ok()
                            .map(|file| Trace { file, len: Cell::new(0) });
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= jobs.len() {
                                break;
                            }
                            let (c, s) = jobs[i];
                            let stop = || any_failed.load(Ordering::Relaxed);
                            let cx = ShardCtx {
                                seed,
                                shard: s,
                                shards: SHARDS,
                                cases: ((checks[c].quick as f64) * mult).ceil() as u64,
                                name: checks[c].name,
                                property: id,
                                stop: &stop,
                                known,
                                trace: trace.as_ref(),
                                beat: &beats[w],
                            };
                            let _ = cx.property;
                            let t = Instant::now();
                            let st = (checks[c].run)(&cx);
                            times[c].fetch_add(t.elapsed().as_millis() as usize, Ordering::Relaxed);
                            if st.failure.is_some() {
                                failed[c].store(true, Ordering::Relaxed);
                                any_failed.store(true, Ordering::Relaxed);
                            }
                            results.lock().unwrap().push((c, s, st));
                        }
                    })
                    .unwrap();
            }
        });
        let mut res = results.into_inner().unwrap();
        res.sort_by_key(|(c, s, _)| (*c, *s));
        let mut evals = 0u64;
        let mut distinct = 0usize;
        let mut subs = vec![];
        let mut samples = vec![];
        let mut violations = vec![];
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut viol_seen: HashSet<usize> = HashSet::new();
        for (ci, c) in checks.iter().enumerate() {
            let mut e = 0;
            let mut d: HashSet<u64> = HashSet::new();
            let mut tags: BTreeMap<&str, u64> = BTreeMap::new();
            let mut got = 0;
            for (_, _, st) in res.iter_mut().filter(|(k, _, _)| *k == ci) {
                e += st.evals;
                d.extend(st.nontrivial.iter());
                for (t, n) in &st.tags {
                    *tags.entry(t).or_insert(0) += n;
                }
                for s in st.samples.drain(..) {
                    if got < 2 {
                        got += 1;
                        samples.push(serde_json::json!({"subcheck": c.name, "input": s}));
                    }
                }
                for (k, n) in &st.known {
                    *known_hits.entry(k.clone()).or_insert(0) += n;
                }
                if let Some(f) = st.failure.take() {
                    if viol_seen.insert(ci) {
                        violations.push((c.name, f));
                    }
                }
            }
            evals += e;
            distinct += d.len();
            subs.push(serde_json::json!({
                "name": c.name, "rule": c.rule, "evaluations": e, "distinct_nontrivial": d.len(), "classes": tags,
            }));
            if args.iter().any(|a| a == "-v") {
                eprintln!(
                    "{:<40} evals {:>8} nontrivial {:>8} cpu {:>7} ms {:?}",
                    c.name,
                    e,
                    d.len(),
                    times[ci].load(Ordering::Relaxed),
                    tags
                );
            }
        }
        for (k, n) in &known_hits {
            let t = known.iter().find(|x| &x.sig == k).unwrap();
            println!("KNOWN-FINDING: property={} {} [{} cases]", self.id, t.text, n);
        }
        let mut vjson = vec![];
        for (name, f) in &violations {
            let p = write_replay(self.id, name, &f.input, &f.message);
            println!("{name}: {}", clip(&f.message));
            println!("  input: {}", clip(&f.input.to_string()));
            println!("VIOLATION property={} replay={}", self.id, p.display());
            vjson.push(serde_json::json!({"subcheck": name, "message": clip(&f.message), "replay": p.display().to_string()}));
        }
        // keep the evidence file small
        let mut size = 0;
        samples.retain(|s| {
            size += s.to_string().len();
            size < 30_000
        });
        let rule = "Inputs are generated by the named proptest strategies from VERIF_SEED; a case is non-trivial by the rule of its subcheck (coverage.subchecks[].rule); distinct = different serialized inputs within a subcheck.";
        let ev = serde_json::json!({
            "property": self.id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": rule,
                "samples": samples,
                "subchecks": subs,
                "known_finding_cases": known_hits,
            },
            "assumptions": self.assumptions,
            "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
            "violations": vjson,
        });
        if only.is_none() {
            let path = verif_root().join("evidence").join(format!("{}.json", self.id));
            std::fs::create_dir_all(path.parent().unwrap()).ok();
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
                harness_error(&format!("{path:?}: {e}"));
            }
        }
        if violations.is_empty() {
            println!(
                "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
                self.id,
                tier,
                seed,
                evals,
                distinct,
                t0.elapsed().as_secs_f64()
            );
            std::process::exit(0)
        }
        std::process::exit(1)
    }
}

/// Wait for a process; end it when it does not finish.
fn wait_limited(mut p: std::process::Child) -> std::io::Result<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(st) = p.try_wait()? {
            return Ok(st);
        }
        if t.elapsed() > Duration::from_secs(30) {
            p.kill()?;
            return p.wait();
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    subcheck: String,
    message: String,
    input: serde_json::Value,
}

fn write_replay(id: &str, sub: &str, input: &serde_json::Value, msg: &str) -> PathBuf {
    let dir = verif_root().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let h = fnv(format!("{sub}{input}").as_bytes());
    let p = dir.join(format!("{id}-{}-{h:016x}.json", sub.replace(['/', ' ', ','], "_")));
    let f = ReplayFile { property: id.into(), subcheck: sub.into(), message: msg.into(), input: input.clone() };
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&f).unwrap()) {
        eprintln!("cannot write {p:?}: {e}");
    }
    p
}

pub fn verif_root() -> PathBuf {
    if let Ok(r) = std::env::var("VERIF_ROOT") {
        return PathBuf::from(r);
    }
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn trace_dir(id: &str) -> PathBuf {
    verif_root().join("replays").join(format!(".trace-{id}"))
}

/// Lines `known: property=<id> sig=<signature> <what fails>` of /verif/known_findings.txt.
fn load_known(id: &str) -> Vec<Known> {
    let p = verif_root().join("known_findings.txt");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={id} sig=")))
        .map(|l| {
            let (sig, text) = l.split_once(' ').unwrap_or((l, ""));
            Known { sig: sig.to_string(), text: text.to_string() }
        })
        .collect()
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("ERROR: {msg}");
    std::process::exit(2)
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .name("worker-r".into())
            .stack_size(256 << 20)
            .spawn_scoped(sc, f)
            .unwrap()
            .join()
            .unwrap()
    })
}
