//! Small framework around proptest: registration of sub-checks, parallel worker processes with
//! derived seeds, shrinking, replay files, evidence files and known findings.
//!
//! Every sub-check is a pure function of a generated, serialisable case. A worker process runs a
//! fixed number of cases per sub-check; the parent merges the reports. A failing case is shrunk
//! by proptest and written as JSON, so that `lyverif replay FILE` re-runs it without proptest.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant as StdInstant;

pub const WORKERS: usize = 8;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fail {
    /// Stable signature of the kind of failure; known findings are keyed on it.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Self {
            sig: sig.into(),
            msg: clip(msg.into(), 1500),
        }
    }
}

pub fn clip(mut t: String, max: usize) -> String {
    if t.len() > max {
        let mut n = max;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
        t.push('…');
    }
    t
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::fw::Fail::new($sig, format!($($arg)+)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::fw::Fail::new(
                $sig,
                format!("{}: {:?} != {:?}", format!($($arg)+), a, b),
            ));
        }
    }};
}

/// What one case observed: labels for the distribution, and whether it was non-trivial.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn count(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_default() += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

#[derive(Serialize, Deserialize, Default, Debug, Clone)]
pub struct SubReport {
    pub sub: String,
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known_hits: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub sub: String,
    pub sig: String,
    pub msg: String,
    pub case: serde_json::Value,
    pub shrunk_from: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub seed: u64,
    pub tier: Tier,
    pub worker: usize,
    pub workers: usize,
    pub known: HashSet<String>,
    /// When set, every case is written here before it runs (used to find a case that kills the
    /// process).
    pub trace: Option<PathBuf>,
}

pub struct Sub {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: Box<dyn Fn(&Sub, &Env) -> SubReport>,
    pub replay: Box<dyn Fn(&serde_json::Value) -> Result<Res, String>>,
}

pub trait Case: Debug + Clone + Serialize + DeserializeOwned + 'static {}
impl<T: Debug + Clone + Serialize + DeserializeOwned + 'static> Case for T {}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        // keep the first panic of a case: later ones are usually consequences
        if g.is_none() {
            *g = Some(format!("{msg} at {loc}"));
        }
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .take()
            .unwrap_or_else(|| "panic".into())),
    }
}

fn panic_sig(msg: &str) -> String {
    // file without the line: lines move when unrelated code is edited
    let file = msg
        .rsplit(" at ")
        .next()
        .and_then(|l| l.rsplit_once(':'))
        .map(|(f, _)| f.rsplit("/crates/").next().unwrap_or(f).to_string())
        .unwrap_or_default();
    format!("panic:{file}")
}

/// Milliseconds (since the process started, plus one) at which the current case began; 0 = idle.
static CASE_START: AtomicU64 = AtomicU64::new(0);
/// Exit status of a worker whose current case did not end in time.
const HANG: i32 = 77;
const CASE_LIMIT_MS: u64 = 60_000;

fn now_ms() -> u64 {
    static T0: OnceLock<StdInstant> = OnceLock::new();
    T0.get_or_init(StdInstant::now).elapsed().as_millis() as u64 + 1
}

fn exec<C: Case>(check: &dyn Fn(&C, &mut Obs) -> Res, case: &C, obs: &mut Obs) -> Res {
    crate::util::reset_globals();
    CASE_START.store(now_ms(), Ordering::SeqCst);
    let r = catch(|| check(case, obs));
    CASE_START.store(0, Ordering::SeqCst);
    match r {
        Ok(r) => r,
        Err(p) => Err(Fail::new(panic_sig(&p), format!("panicked: {p}"))),
    }
}

fn mix(seed: u64, parts: &[&str], worker: usize) -> u64 {
    // FNV-1a: stable across toolchains, unlike DefaultHasher
    let mut h: u64 = 0xcbf29ce484222325;
    let mut eat = |b: u8| {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    };
    seed.to_le_bytes().into_iter().for_each(&mut eat);
    for p in parts {
        p.bytes().for_each(&mut eat);
        eat(0xff);
    }
    (worker as u64).to_le_bytes().into_iter().for_each(&mut eat);
    h
}

pub fn sub<C: Case>(
    prop: &'static str,
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: impl Fn() -> BoxedStrategy<C> + 'static,
    check: impl Fn(&C, &mut Obs) -> Res + 'static,
) -> Sub {
    let check: Rc<dyn Fn(&C, &mut Obs) -> Res> = Rc::new(check);
    let check2 = check.clone();
    Sub {
        prop,
        name,
        quick,
        thorough,
        run: Box::new(move |s, env| run_sub::<C>(s, env, strategy(), &*check)),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            Ok(exec(&*check2, &case, &mut Obs::default()))
        }),
    }
}

fn run_sub<C: Case>(
    s: &Sub,
    env: &Env,
    strategy: BoxedStrategy<C>,
    check: &dyn Fn(&C, &mut Obs) -> Res,
) -> SubReport {
    let total = match env.tier {
        Tier::Quick => s.quick,
        Tier::Thorough => s.thorough,
    };
    let w = env.workers as u64;
    let cases = total / w + u64::from((env.worker as u64) < total % w);
    let mut report = SubReport {
        sub: s.name.to_string(),
        ..Default::default()
    };
    if cases == 0 {
        return report;
    }
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(mix(env.seed, &[s.prop, s.name], env.worker)),
        max_shrink_iters: 3000,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    let mut runner = TestRunner::new(config);
    let rep = RefCell::new(&mut report);
    let seen = RefCell::new(HashSet::<u64>::new());
    let first_fail: RefCell<Option<Fail>> = RefCell::new(None);
    let last_fail: RefCell<Option<Fail>> = RefCell::new(None);
    let first_case: RefCell<Option<String>> = RefCell::new(None);
    let shrink_deadline: RefCell<Option<StdInstant>> = RefCell::new(None);
    let outcome = runner.run(&strategy, |case| {
        let shrinking = first_fail.borrow().is_some();
        if let Some(t) = *shrink_deadline.borrow()
            && t < StdInstant::now()
        {
            // out of shrinking time: every further candidate counts as passing, which ends it
            return Ok(());
        }
        if let Some(path) = &env.trace {
            let f = Failure {
                sub: s.name.to_string(),
                sig: "process-died".into(),
                msg: "the process running this case ended abnormally".into(),
                case: serde_json::to_value(&case).unwrap_or_default(),
                shrunk_from: None,
            };
            let _ = std::fs::write(path, serde_json::to_vec(&f).unwrap());
        }
        let mut obs = Obs::default();
        let r = exec(check, &case, &mut obs);
        if !shrinking {
            let mut rep = rep.borrow_mut();
            rep.evaluations += 1;
            for (k, v) in obs.labels {
                *rep.labels.entry(k).or_default() += v;
            }
            if obs.nontrivial {
                let text = serde_json::to_string(&case).unwrap();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.name.hash(&mut h);
                text.hash(&mut h);
                let h = h.finish();
                if seen.borrow_mut().insert(h) {
                    rep.nontrivial_hashes.push(h);
                    if rep.samples.len() < 1 {
                        rep.samples.push(clip(text, 1500));
                    }
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(f) if env.known.contains(&f.sig) => {
                if !shrinking {
                    *rep.borrow_mut().known_hits.entry(f.sig).or_default() += 1;
                }
                Ok(())
            }
            Err(f) => {
                let t = TestCaseError::fail(f.msg.clone());
                let mut first = first_fail.borrow_mut();
                if first.is_none() {
                    *first = Some(f.clone());
                    *first_case.borrow_mut() = Some(format!("{case:?}"));
                    *shrink_deadline.borrow_mut() =
                        Some(StdInstant::now() + std::time::Duration::from_secs(25));
                }
                *last_fail.borrow_mut() = Some(f);
                Err(t)
            }
        }
    });
    drop(rep);
    match outcome {
        Ok(()) => {}
        Err(TestError::Fail(_, case)) => {
            // re-run the minimal case for its own message
            let f = match exec(check, &case, &mut Obs::default()) {
                Err(f) => f,
                Ok(()) => {
                    let mut f = first_fail.into_inner().unwrap();
                    f.msg = format!("{} (not reproduced on the second run of this case)", f.msg);
                    f
                }
            };
            report.failure = Some(Failure {
                sub: s.name.to_string(),
                sig: f.sig,
                msg: f.msg,
                case: serde_json::to_value(&case).unwrap(),
                shrunk_from: first_case.into_inner().map(|t| clip(t, 4000)),
            });
        }
        Err(TestError::Abort(reason)) => {
            eprintln!("generator aborted in {}/{}: {reason}", s.prop, s.name);
            std::process::exit(4);
        }
    }
    report
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

#[derive(Deserialize, Default, Clone)]
pub struct KnownFinding {
    pub property: String,
    pub sub: String,
    pub signature: String,
    pub what: String,
    pub case: serde_json::Value,
}

#[derive(Deserialize, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<KnownFinding>,
}

pub fn known_findings(prop: &str) -> Vec<KnownFinding> {
    let path = verif_dir().join("known_findings.json");
    let Ok(text) = std::fs::read_to_string(&path) else {
        return vec![];
    };
    let file: KnownFile = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("known_findings.json: {e}");
        std::process::exit(4)
    });
    file.findings
        .into_iter()
        .filter(|f| f.property == prop)
        .collect()
}

fn start_watchdog(secs: u64) {
    let end = now_ms() + secs * 1000;
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (now, start) = (now_ms(), CASE_START.load(Ordering::SeqCst));
            if start != 0 && now > start + CASE_LIMIT_MS {
                std::process::exit(HANG);
            }
            if now > end {
                eprintln!("watchdog: no answer after {secs} s");
                std::process::exit(3);
            }
        }
    });
}

fn read_env() -> (u64, Tier) {
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    (seed, tier)
}

pub fn main(subs: Vec<Sub>, rules: &BTreeMap<String, PropInfo>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for s in &subs {
                println!("{} {} {} {}", s.prop, s.name, s.quick, s.thorough);
            }
            std::process::exit(0)
        }
        Some("worker") => {
            let (prop, w, n, out) = (&args[2], &args[3], &args[4], &args[5]);
            worker(&subs, prop, w.parse().unwrap(), n.parse().unwrap(), out)
        }
        Some("check") => check(&subs, &args[2], rules),
        Some("replay") => replay(&subs, &args[2]),
        _ => {
            eprintln!("usage: lyverif list | check PROP | replay FILE");
            std::process::exit(2)
        }
    }
}

fn worker(subs: &[Sub], prop: &str, w: usize, n: usize, out: &str) -> ! {
    let (seed, tier) = read_env();
    start_watchdog(if tier == Tier::Quick { 700 } else { 6 * 3600 });
    let env = Env {
        seed,
        tier,
        worker: w,
        workers: n,
        known: known_findings(prop)
            .into_iter()
            .map(|k| k.signature)
            .collect(),
        trace: std::env::var_os("LYVERIF_TRACE").map(PathBuf::from),
    };
    let only = std::env::var("LYVERIF_SUB").ok();
    let mut reports = Vec::new();
    for s in subs.iter().filter(|s| s.prop == prop) {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let t = StdInstant::now();
        let r = (s.run)(s, &env);
        if std::env::var_os("LYVERIF_VERBOSE").is_some() {
            eprintln!("[{w}] {prop}/{}: {} cases in {:?}", s.name, r.evaluations, t.elapsed());
        }
        reports.push(r);
        std::fs::write(out, serde_json::to_vec(&reports).unwrap()).unwrap();
        if reports.last().unwrap().failure.is_some() {
            break;
        }
    }
    std::process::exit(0)
}

#[derive(Deserialize)]
pub struct PropInfo {
    pub rule: String,
    pub assumptions: Vec<String>,
}

fn check(subs: &[Sub], prop: &str, rules: &BTreeMap<String, PropInfo>) -> ! {
    let start = StdInstant::now();
    let (seed, tier) = read_env();
    let dir = verif_dir();
    if !subs.iter().any(|s| s.prop == prop) {
        eprintln!("no check for {prop}");
        std::process::exit(2);
    }
    let tmp = std::env::temp_dir().join(format!("lyverif-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |w: usize, trace: bool| {
        let out = tmp.join(format!("w{w}.json"));
        let mut c = std::process::Command::new(&exe);
        c.args(["worker", prop, &w.to_string(), &WORKERS.to_string()])
            .arg(&out)
            .env("VERIF_DIR", &dir);
        if trace {
            c.env("LYVERIF_TRACE", tmp.join(format!("t{w}.json")));
        }
        // Planted or real panics in the code under test can flood stderr.
        if std::env::var_os("LYVERIF_VERBOSE").is_none() {
            c.stderr(std::process::Stdio::null());
        }
        c.spawn().expect("spawn worker")
    };
    let mut children: Vec<_> = (0..WORKERS).map(|w| (w, spawn(w, false))).collect();
    let mut dead: Vec<(usize, std::process::ExitStatus)> = Vec::new();
    for (w, c) in &mut children {
        let st = c.wait().unwrap();
        if !st.success() {
            dead.push((*w, st));
        }
    }
    let mut failure: Option<Failure> = None;
    let mut hard_error: Option<String> = None;
    for (w, st) in &dead {
        use std::os::unix::process::ExitStatusExt;
        match (st.code(), st.signal()) {
            (Some(HANG), _) => {
                let st2 = spawn(*w, true).wait().unwrap();
                if st2.code() == Some(HANG)
                    && let Ok(text) = std::fs::read(tmp.join(format!("t{w}.json")))
                    && let Ok(mut f) = serde_json::from_slice::<Failure>(&text)
                {
                    f.sig = "hang".into();
                    f.msg = format!("the case does not end within {CASE_LIMIT_MS} ms");
                    failure = Some(f);
                } else {
                    hard_error = Some(format!("worker {w} hung, not reproduced"));
                }
            }
            (None, Some(sig)) if sig != 9 && sig != 15 => {
                // The code under test killed the process (abort, stack overflow, …): find the case.
                let st2 = spawn(*w, true).wait().unwrap();
                if st2.signal().is_some()
                    && let Ok(text) = std::fs::read(tmp.join(format!("t{w}.json")))
                    && let Ok(mut f) = serde_json::from_slice::<Failure>(&text)
                {
                    f.msg = format!("{} (signal {sig})", f.msg);
                    failure = Some(f);
                } else {
                    hard_error = Some(format!("worker {w} died with signal {sig}, not reproduced"));
                }
            }
            _ => hard_error = Some(format!("worker {w} ended with {st}")),
        }
    }
    let mut merged: BTreeMap<String, SubReport> = BTreeMap::new();
    for w in 0..WORKERS {
        let Ok(text) = std::fs::read(tmp.join(format!("w{w}.json"))) else {
            continue;
        };
        let reports: Vec<SubReport> = serde_json::from_slice(&text).unwrap();
        for r in reports {
            let m = merged.entry(r.sub.clone()).or_insert_with(|| SubReport {
                sub: r.sub.clone(),
                ..Default::default()
            });
            m.evaluations += r.evaluations;
            m.nontrivial_hashes.extend(r.nontrivial_hashes);
            for (k, v) in r.labels {
                *m.labels.entry(k).or_default() += v;
            }
            for (k, v) in r.known_hits {
                *m.known_hits.entry(k).or_default() += v;
            }
            if m.samples.len() < 1 {
                m.samples.extend(r.samples);
            }
            if let Some(f) = r.failure {
                let smaller = failure
                    .as_ref()
                    .is_none_or(|old| old.sub == f.sub && old.case.to_string().len() > f.case.to_string().len());
                if smaller {
                    failure = Some(f);
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);

    for k in known_findings(prop) {
        let Some(s) = subs.iter().find(|s| s.prop == prop && s.name == k.sub) else {
            continue;
        };
        match (s.replay)(&k.case) {
            Ok(Err(f)) if f.sig == k.signature => {
                println!("KNOWN-FINDING: property={prop} {}", k.what);
            }
            Ok(Err(f)) => {
                failure.get_or_insert(Failure {
                    sub: k.sub.clone(),
                    sig: f.sig,
                    msg: f.msg,
                    case: k.case.clone(),
                    shrunk_from: None,
                });
            }
            Ok(Ok(())) => println!("note: known finding no longer reproduces: {}", k.what),
            Err(e) => {
                eprintln!("known finding cannot be replayed: {e}");
                hard_error = Some("known finding cannot be replayed".into());
            }
        }
    }

    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = Vec::new();
    let mut per_sub = serde_json::Map::new();
    for s in subs.iter().filter(|s| s.prop == prop) {
        let Some(m) = merged.get(s.name) else { continue };
        let d = m.nontrivial_hashes.iter().collect::<HashSet<_>>().len();
        evaluations += m.evaluations;
        distinct += d;
        samples.extend(m.samples.iter().take(1).map(|t| format!("{}: {t}", s.name)));
        per_sub.insert(
            s.name.to_string(),
            serde_json::json!({
                "evaluations": m.evaluations, "distinct_nontrivial": d,
                "labels": m.labels, "known_finding_hits": m.known_hits,
            }),
        );
    }
    let info = rules.get(prop);
    let evidence = serde_json::json!({
        "property": prop,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": info.map(|i| i.rule.as_str()).unwrap_or(""),
            "samples": samples,
            "sub_checks": per_sub,
        },
        "assumptions": info.map(|i| i.assumptions.clone()).unwrap_or_default(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": u64::from(failure.is_some()),
    });
    std::fs::create_dir_all(dir.join("evidence")).unwrap();
    std::fs::write(
        dir.join("evidence").join(format!("{prop}.json")),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .unwrap();

    if let Some(f) = failure {
        std::fs::create_dir_all(dir.join("replays")).unwrap();
        let path = dir.join("replays").join(format!("{prop}-{}.json", f.sub));
        let body = serde_json::json!({
            "property": prop, "sub": f.sub, "signature": f.sig, "message": f.msg,
            "case": f.case, "seed": seed as i64, "first_failing_case": f.shrunk_from,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{}/{}: [{}] {}", prop, f.sub, f.sig, f.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
        std::process::exit(1);
    }
    if let Some(e) = hard_error {
        eprintln!("check error: {e}");
        std::process::exit(3);
    }
    println!(
        "{prop}: held on {evaluations} cases ({distinct} distinct non-trivial), {:.1} s",
        start.elapsed().as_secs_f64()
    );
    std::process::exit(0)
}

fn replay(subs: &[Sub], path: &str) -> ! {
    start_watchdog(600);
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let name = v["sub"].as_str().unwrap();
    let s = subs
        .iter()
        .find(|s| s.prop == prop && s.name == name)
        .expect("unknown sub-check");
    match (s.replay)(&v["case"]).expect("case does not parse") {
        Ok(()) => {
            println!("replay: the case passes");
            std::process::exit(0)
        }
        Err(f) => {
            println!("replay: [{}] {}", f.sig, f.msg);
            println!("VIOLATION property={prop} replay={path}");
            std::process::exit(1)
        }
    }
}

/// Shorthand for boxed strategies.
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
