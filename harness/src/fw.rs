//! Check framework: deterministic generated-input search, shrinking, replay and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: u32 = 8;

/// Hexadecimal byte string, so that cases stay readable in replay files.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Hex(pub Vec<u8>);
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x\"{}\"", hex(&self.0))
    }
}
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> serde::Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16))
            .collect::<Result<Vec<_>, _>>()
            .map(Hex)
            .map_err(serde::de::Error::custom)
    }
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

/// What one evaluation tells the evidence.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
impl Cx {
    /// The case exercises what the property is about (see the rule of its sub-check).
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {}, expected {}", format!($($m)*), $crate::fw::short(a), $crate::fw::short(b)));
        }
    }};
}
pub fn short<T: std::fmt::Debug + ?Sized>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.chars().count() > 300 {
        let h: String = s.chars().take(200).collect();
        format!("{h}… ({} chars)", s.chars().count())
    } else {
        s
    }
}
/// An `Ok` is required here.
pub fn must<T>(r: anyhow::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what} was refused: {e}"))
}
/// An error is required here.
pub fn refuse<T: std::fmt::Debug>(r: anyhow::Result<T>, what: &str) -> R {
    match r {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{what} was accepted as {}", short(&v))),
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into())),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub shrink_evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
}

pub struct Failure {
    pub message: String,
    pub case: serde_json::Value,
}

type RunFn = dyn Fn(u32, u64, u32, &Watch) -> (Stats, Option<Failure>) + Send + Sync;
type ReplayFn = dyn Fn(&serde_json::Value) -> Result<R, String> + Send + Sync;

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub run: Box<RunFn>,
    pub replay: Box<ReplayFn>,
}

/// Tells the watchdog which evaluation is running and since when.
#[derive(Default)]
pub struct Watch {
    started_ms: AtomicU64,
    what: Mutex<String>,
    /// the worker's thread, to read the processor time it has used
    tid: AtomicU64,
    cpu_at_start: AtomicU64,
    /// gives the running case, for a case that does not end
    case: Mutex<Option<Box<dyn Fn() -> serde_json::Value + Send>>>,
    /// where to note each case before it runs, to find the one that ends the process
    trace: Option<std::path::PathBuf>,
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Processor time a thread of this process has used, in clock ticks (hundredths of a second).
fn cpu_ticks(tid: u64) -> u64 {
    let text = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = text.rsplit_once(')').map(|x| x.1).unwrap_or_default();
    let f: Vec<u64> = rest.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum()
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

fn seed_bytes(seed: u64, name: &str, worker: u32) -> [u8; 32] {
    let h = blake3::hash(format!("{seed}/{name}/{worker}").as_bytes());
    *h.as_bytes()
}

fn hash_of(bytes: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    bytes.hash(&mut h);
    h.finish()
}

fn shorten(v: &serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.chars().count() > 600 {
        serde_json::Value::String(format!("{}…", s.chars().take(600).collect::<String>()))
    } else {
        v.clone()
    }
}

/// A sub-check: a strategy for its cases and the oracle that judges one case.
pub fn sub<C>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: impl Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
    check: fn(&C, &mut Cx) -> R,
) -> Sub
where
    C: Serialize + DeserializeOwned + Clone + Send + std::fmt::Debug + 'static,
{
    let run = move |cases: u32, seed: u64, worker: u32, watch: &Watch| {
        let stats = RefCell::new(Stats::default());
        let failed = std::cell::Cell::new(false);
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 40_000,
            max_global_rejects: 10_000_000,
            max_local_rejects: 10_000_000,
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, name, worker));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = strategy();
        let result = runner.run(&strat, |case: C| {
            let mut cx = Cx::default();
            {
                let case = case.clone();
                *watch.case.lock().unwrap() = Some(Box::new(move || serde_json::to_value(&case).unwrap_or_default()));
            }
            if let Some(p) = &watch.trace {
                let _ = std::fs::write(p, serde_json::json!({"sub": name, "case": &case}).to_string());
            }
            watch.started_ms.store(now_ms(), Ordering::Relaxed);
            let r = match guarded(|| check(&case, &mut cx)) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            watch.started_ms.store(0, Ordering::Relaxed);
            let mut st = stats.borrow_mut();
            if failed.get() {
                st.shrink_evaluations += 1;
            } else {
                st.evaluations += 1;
                if cx.nontrivial {
                    st.nontrivial += 1;
                    let js = serde_json::to_vec(&case).unwrap_or_default();
                    st.distinct.insert(hash_of(&js));
                    if worker == 0 && st.samples.len() < 3 && st.nontrivial % 7 == 1 {
                        let v = serde_json::to_value(&case).unwrap_or_default();
                        st.samples.push(serde_json::json!({"sub": name, "case": shorten(&v)}));
                    }
                }
                for c in cx.classes {
                    *st.classes.entry(c).or_default() += 1;
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failed.set(true);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let failure = match result {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some(Failure {
                message: reason.message().to_string(),
                case: serde_json::to_value(&case).unwrap_or_default(),
            }),
            Err(TestError::Abort(reason)) => {
                eprintln!("ERROR: generator of {name} gave up: {reason}");
                std::process::exit(3);
            }
        };
        (stats.into_inner(), failure)
    };
    let replay = move |v: &serde_json::Value| -> Result<R, String> {
        let case: C = serde_json::from_value(v.clone()).map_err(|e| format!("{e}"))?;
        let mut cx = Cx::default();
        Ok(match guarded(|| check(&case, &mut cx)) {
            Ok(r) => r,
            Err(p) => Err(p),
        })
    };
    Sub { name, rule, quick, thorough, run: Box::new(run), replay: Box::new(replay) }
}

/// Replays a case from its file, without the generator. Ok(Err(..)): the property is violated.
pub fn replay_file(subs: &[Sub], path: &std::path::Path) -> Result<(String, R), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path:?}: {e}"))?;
    let v: serde_json::Value = deep(&text).map_err(|e| format!("{path:?}: {e}"))?;
    let name = v["sub"].as_str().unwrap_or_default().to_string();
    let s = subs.iter().find(|s| s.name == name).ok_or(format!("{path:?}: no sub-check {name}"))?;
    let r = (s.replay)(&v["case"]).map_err(|e| format!("{path:?}: {e}"))?;
    Ok((name, r))
}

fn write_replay(id: &str, dir: &std::path::Path, sub: &str, seed: u64, message: &str, case: &serde_json::Value) -> std::path::PathBuf {
    let body = serde_json::json!({
        "property": id, "sub": sub, "seed": seed, "message": message, "case": case
    });
    let path = dir.join(format!("{sub}-{:016x}.json", hash_of(case.to_string().as_bytes())));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}
/// Evidence of a run that was cut short by its first violation.
fn write_short_evidence(id: &str, root: &std::path::Path, tier: &str, seed: u64, case: &serde_json::Value, wall: f64) {
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let body = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended by the case shown", "samples": [shorten(case)]},
        "wall_s": wall, "violations": 1,
    });
    let _ = std::fs::write(ev.join(format!("{id}.json")), serde_json::to_string_pretty(&body).unwrap() + "\n");
}

/// Runs the check in a process of its own. Should a case end that process (abort, stack overflow),
/// the run is repeated with each case noted before it starts, and the cases that were running are
/// tried one by one.
pub fn supervise(id: &str, root: &std::path::Path) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let st = Command::new(&exe).args(["check-inner", id]).status();
    let code = match st {
        Ok(s) => match s.code() {
            Some(c) => return c,
            None => s,
        },
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 3;
        }
    };
    eprintln!("{id}: the run ended with {code}; looking for the case");
    let dir = root.join("replays").join(id);
    let trace = dir.join("trace");
    let _ = std::fs::create_dir_all(&trace);
    let again = Command::new(&exe).args(["check-inner", id]).env("VERIF_TRACE", &trace).status();
    if let Ok(Some(c)) = again.map(|s| s.code()) {
        return c;
    }
    let (seed, tier) = (
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" },
    );
    for k in 0..WORKERS {
        let f = trace.join(format!("{k}.json"));
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        let Ok(v) = deep::<serde_json::Value>(&text) else { continue };
        let st = Command::new(&exe).args(["replay", id]).arg(&f).output();
        if let Ok(o) = st {
            if o.status.code().is_none() {
                let m = format!("ended the process: {}", o.status);
                let sub = v["sub"].as_str().unwrap_or_default().to_string();
                let path = write_replay(id, &dir, &sub, seed, &m, &v["case"]);
                write_short_evidence(id, root, tier, seed, &v["case"], t0.elapsed().as_secs_f64());
                println!("  {sub}: {m}");
                println!("VIOLATION property={id} replay={}", path.display());
                return 1;
            }
        }
    }
    eprintln!("ERROR: {id}: the run ends with {code}, but no single case does");
    5
}

/// Lines `finding: property=<id> sub=<name> case=<json> -- <what fails>` of known_findings.txt.
fn known_findings(id: &str, root: &std::path::Path) -> Vec<(String, serde_json::Value, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("finding: property={id} sub="))?;
            let (sub, l) = l.split_once(" case=")?;
            let (case, what) = l.split_once(" -- ")?;
            Some((sub.to_string(), deep(case).ok()?, what.to_string()))
        })
        .collect()
}

/// The quick counts of cheap checks, raised so that every check gets some seconds of search.
fn boosted(id: &str, n: u32) -> u32 {
    let k = match id {
        "C07" | "C29" => 10,
        "C08" | "C10" | "C12" => 8,
        "C05" | "C09" | "C30" => 6,
        "C01" | "C11" | "C17" | "C18" | "C26" => 5,
        "C02" | "C04" | "C06" | "C16" | "C25" => 3,
        "C03" | "C13" | "C14" | "C20" | "C21" | "C22" | "C23" | "C24" | "C27" | "C28" => 2,
        _ => 1,
    };
    // the dear ones stay
    if n < 1000 {
        n
    } else {
        n * k
    }
}

pub fn run_check(id: &str, subs: Vec<Sub>, root: &std::path::Path) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let tier = if thorough { "thorough" } else { "quick" };
    let limit = Duration::from_secs(if thorough { 600 } else { 100 });

    let mut violations: Vec<(String, String, std::path::PathBuf)> = vec![];
    let dir = root.join("replays").join(id);
    let _ = std::fs::create_dir_all(&dir);

    // 1. cases kept from defects found earlier
    let mut kept = 0u64;
    if let Ok(rd) = std::fs::read_dir(root.join("regress").join(id)) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        files.sort();
        for f in files {
            match replay_file(&subs, &f) {
                Ok((_, Ok(()))) => kept += 1,
                Ok((name, Err(m))) => {
                    kept += 1;
                    violations.push((name, m, f))
                }
                Err(e) => {
                    eprintln!("ERROR: kept case unusable: {e}");
                    return 3;
                }
            }
        }
    }

    // known findings: shown to fail still, each by its own input
    for (name, case, what) in known_findings(id, root) {
        match subs.iter().find(|s| s.name == name).map(|s| (s.replay)(&case)) {
            Some(Ok(Err(_))) => println!("KNOWN-FINDING: property={id} {what}"),
            Some(Ok(Ok(()))) => println!("{id}: a listed finding no longer fails: {what}"),
            _ => {
                eprintln!("ERROR: unusable known finding of {id}: {what}");
                return 3;
            }
        }
    }

    // 2. generated cases, a fixed number per sub-check and worker
    let subs = Arc::new(subs);
    let mut jobs = vec![];
    for (i, s) in subs.iter().enumerate() {
        let n = ((if thorough { s.thorough } else { boosted(id, s.quick) }) as f64 * scale) as u32;
        let w = WORKERS.min(n.max(1));
        for k in 0..w {
            let m = n / w + u32::from(k < n % w);
            if m > 0 {
                jobs.push((i, k, m));
            }
        }
    }
    // long jobs first is not needed: jobs of a sub-check are spread over the workers
    let jobs = Arc::new(Mutex::new(jobs.into_iter().rev().collect::<Vec<_>>()));
    let results = Arc::new(Mutex::new(BTreeMap::new()));
    let times: Arc<Mutex<BTreeMap<usize, f64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let trace = std::env::var("VERIF_TRACE").ok().map(std::path::PathBuf::from);
    let watches: Vec<Arc<Watch>> = (0..WORKERS)
        .map(|k| Arc::new(Watch { trace: trace.as_ref().map(|t| t.join(format!("{k}.json"))), ..Watch::default() }))
        .collect();
    let done = Arc::new(AtomicBool::new(false));
    {
        let watches = watches.clone();
        let done = done.clone();
        let id = id.to_string();
        let (dir, root) = (dir.clone(), root.to_path_buf());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::Relaxed) {
                return;
            }
            for w in &watches {
                let s = w.started_ms.load(Ordering::Relaxed);
                let held = now_ms().saturating_sub(s);
                // the first look at a slow case notes the processor time its thread has used
                if s == 0 || held < 2_000 {
                    w.cpu_at_start.store(0, Ordering::Relaxed);
                    continue;
                }
                let ticks = cpu_ticks(w.tid.load(Ordering::Relaxed)).max(1);
                if w.cpu_at_start.load(Ordering::Relaxed) == 0 {
                    w.cpu_at_start.store(ticks, Ordering::Relaxed);
                }
                let used = ticks.saturating_sub(w.cpu_at_start.load(Ordering::Relaxed)) / 100;
                if used < limit.as_secs() {
                    if held > 6 * limit.as_millis() as u64 {
                        eprintln!("ERROR: {id}: a case has not been given enough processor time to end");
                        std::process::exit(4);
                    }
                } else {
                    let what = w.what.lock().unwrap().clone();
                    let case = w.case.lock().unwrap().as_ref().map(|f| f()).unwrap_or_default();
                    let m = format!("did not end within {} s of processor time", limit.as_secs());
                    let path = write_replay(&id, &dir, &what, seed, &m, &case);
                    write_short_evidence(&id, &root, tier, seed, &case, t0.elapsed().as_secs_f64());
                    println!("  {what}: {m}");
                    println!("VIOLATION property={id} replay={}", path.display());
                    std::process::exit(1);
                }
            }
        });
    }
    let handles: Vec<_> = watches
        .iter()
        .cloned()
        .map(|watch| {
            let (subs, jobs, results, times) =
                (subs.clone(), jobs.clone(), results.clone(), times.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    watch.tid.store(own_tid(), Ordering::Relaxed);
                    let Some((i, k, m)) = jobs.lock().unwrap().pop() else { return };
                    *watch.what.lock().unwrap() = subs[i].name.to_string();
                    let t = Instant::now();
                    let out = (subs[i].run)(m, seed, k, &watch);
                    *times.lock().unwrap().entry(i).or_default() += t.elapsed().as_secs_f64();
                    results.lock().unwrap().insert((i, k), out);
                })
                .unwrap()
        })
        .collect();
    for h in handles {
        if h.join().is_err() {
            eprintln!("ERROR: a worker of {id} died");
            return 3;
        }
    }
    done.store(true, Ordering::Relaxed);

    // 3. report
    let mut total = Stats::default();
    let mut per_sub = serde_json::Map::new();
    let results = std::mem::take(&mut *results.lock().unwrap());
    let mut by_sub: BTreeMap<usize, Vec<(Stats, Option<Failure>)>> = BTreeMap::new();
    for ((i, _), v) in results {
        by_sub.entry(i).or_default().push(v);
    }
    let mut rules = vec![];
    for (i, rs) in by_sub {
        let s = &subs[i];
        let mut st = Stats::default();
        let mut fail: Option<Failure> = None;
        for (x, f) in rs {
            st.evaluations += x.evaluations;
            st.nontrivial += x.nontrivial;
            st.distinct.extend(x.distinct);
            for (c, n) in x.classes {
                *st.classes.entry(c).or_default() += n;
            }
            st.samples.extend(x.samples);
            // the smallest of the workers' minimal cases
            if let Some(f) = f {
                let better = match &fail {
                    None => true,
                    Some(g) => f.case.to_string().len() < g.case.to_string().len(),
                };
                if better {
                    fail = Some(f);
                }
            }
        }
        rules.push(format!("{}: {}", s.name, s.rule));
        per_sub.insert(
            s.name.to_string(),
            serde_json::json!({
                "evaluations": st.evaluations,
                "nontrivial": st.nontrivial,
                "distinct_nontrivial": st.distinct.len(),
                "classes": st.classes,
                "cpu_s": (times.lock().unwrap().get(&i).copied().unwrap_or(0.0)*10.0).round()/10.0,
            }),
        );
        total.evaluations += st.evaluations;
        total.nontrivial += st.nontrivial;
        total.samples.extend(st.samples);
        // distinct within a sub-check; sub-checks have different case types
        total.distinct.extend(st.distinct.iter().map(|h| h ^ hash_of(s.name.as_bytes())));
        if let Some(f) = fail {
            let path = write_replay(id, &dir, s.name, seed, &f.message, &f.case);
            violations.push((s.name.to_string(), f.message, path));
        }
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.distinct.len(),
            "rule": rules.join(" | "),
            "samples": total.samples,
            "kept_cases_replayed": kept,
            "sub_checks": per_sub,
        },
        "assumptions": [
            "generated-input search: absence of a violation is shown for the explored cases only",
            "the reference codec, models and the crypto crates used as oracle in /verif/harness are right"
        ],
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(
        ev.join(format!("{id}.json")),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("ERROR: cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{id} {tier} seed={seed}: {} cases, {} distinct non-trivial, {} kept cases, {:.1}s",
        total.evaluations,
        total.distinct.len(),
        kept,
        t0.elapsed().as_secs_f64()
    );
    if violations.is_empty() {
        return 0;
    }
    for (name, m, path) in &violations {
        println!("  {name}: {m}");
        println!("VIOLATION property={id} replay={}", path.display());
    }
    1
}
/// JSON of any depth: cases hold documents, each level of which takes several of their description.
pub fn deep<T: serde::de::DeserializeOwned>(text: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(text);
    d.disable_recursion_limit();
    let t = T::deserialize(&mut d)?;
    d.end()?;
    Ok(t)
}
