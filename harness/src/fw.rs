//! Small framework: sections (generator + executable check), deterministic seeding,
//! sharding, shrinking, known findings, evidence and replay.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

pub const SHARDS: usize = 8;
const MAX_SHRINK: usize = 20_000;
const MAX_SHRINK_S: u64 = 60;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<&'static str>,
    evals: u64,
}

impl Obs {
    /// The case is non-trivial by the section's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// Classify the case (distribution printed in the evidence).
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l);
        }
    }
    /// One execution of the code under test compared with its oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
}

/// A failed check.
#[derive(Clone, Debug)]
pub struct Failure {
    pub message: String,
    /// harness bug (panic inside the harness), never a violation
    pub internal: bool,
}

pub type CheckResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($left:expr, $right:expr, $($arg:tt)*) => {{
        let l = &$left;
        let r = &$right;
        if l != r {
            return Err(format!("{}: code under test gave {:?}, oracle says {:?}", format!($($arg)*), l, r));
        }
    }};
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let payload: &dyn Any = info.payload();
        let msg = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<panic>".to_string());
        // A panic of an `Index` implementation is located at its caller: look at the frames.
        let loc = if loc.starts_with("src/") { panicking_file().unwrap_or(loc) } else { loc };
        if std::env::var_os("VHARNESS_SHOW_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// The file and line of the innermost frame which is not in the standard library, if this is not
/// the harness.
fn panicking_file() -> Option<String> {
    let frames = std::backtrace::Backtrace::force_capture().to_string();
    frames
        .lines()
        .filter_map(|l| l.trim_start().strip_prefix("at "))
        .find(|f| {
            !(f.starts_with("/rustc/")
                || f.contains("/rustlib/src/")
                || f.contains("src/fw.rs")
                || f.contains("/registry/src/"))
        })
        .filter(|f| !(f.starts_with("./") || f.starts_with("src/") || f.contains("/harness/src/")))
        .map(|f| f.to_string())
}

thread_local! {
    static INDEXING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run `f`, which does nothing but call the code under test: a panic in it is the code's, even where
/// it is located in the harness (the one of an `Index` implementation is located at its caller).
pub fn indexing<T>(f: impl FnOnce() -> T) -> T {
    INDEXING.with(|i| i.set(true));
    let r = f();
    INDEXING.with(|i| i.set(false));
    r
}

/// Run `f`, turning a panic into an error message "panicked at ..".
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC_INFO
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            let indexing = INDEXING.with(|i| i.replace(false));
            if let Some(m) = msg.strip_prefix("VIOLATES: ") {
                // the harness could not go on because the code under test refused something it
                // has to accept
                Err(m.to_string())
            } else if loc.starts_with("src/") && !indexing {
                // The harness crate is compiled with relative paths, the crate under test with
                // absolute ones (path dependency outside of the workspace).
                Err(format!("INTERNAL panic at harness {loc}: {msg}"))
            } else {
                Err(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}

fn run_check<T: std::fmt::Debug>(check: &dyn Fn(&T, &mut Obs) -> CheckResult, case: &T, obs: &mut Obs) -> Result<(), Failure> {
    let start = std::time::Instant::now();
    let r = catch(|| check(case, obs));
    if start.elapsed().as_millis() > 1500 && std::env::var_os("VHARNESS_SLOW").is_some() {
        eprintln!("{:?}: {:.700}", start.elapsed(), format!("{case:?}"));
    }
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(message)) => {
            let internal = message.contains("INTERNAL panic");
            Err(Failure { message, internal })
        }
        Err(message) => {
            let internal = message.starts_with("INTERNAL");
            Err(Failure { message, internal })
        }
    }
}

#[derive(Clone, Debug)]
pub struct FoundFailure {
    pub case: Value,
    pub debug: String,
    pub message: String,
    pub internal: bool,
    pub order: u64,
}

#[derive(Default)]
pub struct SectionReport {
    pub name: String,
    pub rule: String,
    pub exhaustive: bool,
    pub cases: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<FoundFailure>,
    pub known: BTreeMap<String, u64>,
    pub wall_s: f64,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub property: String,
    pub trace: Option<PathBuf>,
    pub known: Vec<KnownFinding>,
    pub scale: f64,
}

#[derive(Clone, Debug)]
pub struct KnownFinding {
    pub id: String,
    pub section: String,
    pub case: Value,
    pub what: String,
}

pub struct Section {
    pub name: &'static str,
    run: Box<dyn Fn(&Ctx) -> SectionReport + Send + Sync>,
    replay: Box<dyn Fn(&Value) -> Result<Result<(), Failure>, String> + Send + Sync>,
}

impl Section {
    pub fn run(&self, ctx: &Ctx) -> SectionReport {
        let start = std::time::Instant::now();
        let mut r = (self.run)(ctx);
        r.wall_s = start.elapsed().as_secs_f64();
        r
    }
    pub fn replay(&self, case: &Value) -> Result<Result<(), Failure>, String> {
        (self.replay)(case)
    }
}

/// Heartbeats of the shards (milliseconds since start, 0 when idle): a case that does not end is
/// noticed by the watchdog of the child process.
static BEATS: [std::sync::atomic::AtomicU64; SHARDS] = [const { std::sync::atomic::AtomicU64::new(0) }; SHARDS];

fn now_ms() -> u64 {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}

/// The threads of the shards, as the system numbers them.
static THREADS: [std::sync::atomic::AtomicU64; SHARDS] = [const { std::sync::atomic::AtomicU64::new(0) }; SHARDS];

fn beat(shard: usize) {
    use std::sync::atomic::Ordering::Relaxed;
    if THREADS[shard].load(Relaxed) == 0 {
        let tid = std::fs::read_link("/proc/thread-self")
            .ok()
            .and_then(|p| p.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok()));
        THREADS[shard].store(tid.unwrap_or(u64::MAX), Relaxed);
    }
    BEATS[shard].store(now_ms(), Relaxed);
}

/// The shard's thread ends.
fn leave(shard: usize) {
    BEATS[shard].store(0, std::sync::atomic::Ordering::Relaxed);
    THREADS[shard].store(0, std::sync::atomic::Ordering::Relaxed);
}

/// Processor time used, from a "stat" file of /proc (a hundredth of a second is the unit there).
pub fn cpu_ms(stat: &str) -> Option<u64> {
    let t = std::fs::read_to_string(stat).ok()?;
    let mut f = t.rsplit_once(')')?.1.split_whitespace().skip(11);
    let (u, s): (u64, u64) = (f.next()?.parse().ok()?, f.next()?.parse().ok()?);
    Some((u + s) * 10)
}

/// Exit code of a child in which some case did not end.
pub const STALLED: i32 = 4;

/// A case is endless when it has used that much processor time, or when far more time has passed
/// (a busy machine may give a thread no time at all for long).
pub fn spawn_stall_watch(cpu_limit_ms: u64, wall_limit_ms: u64) {
    use std::sync::atomic::Ordering::Relaxed;
    now_ms();
    std::thread::spawn(move || {
        // the case seen last for each shard, and the processor time its thread had used then
        let mut seen = [(0u64, 0u64); SHARDS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            let now = now_ms();
            for i in 0..SHARDS {
                let v = BEATS[i].load(Relaxed);
                if v == 0 || now.saturating_sub(v) < 2000 {
                    continue;
                }
                let cpu = cpu_ms(&format!("/proc/self/task/{}/stat", THREADS[i].load(Relaxed))).unwrap_or(0);
                if seen[i].0 != v {
                    seen[i] = (v, cpu);
                }
                let used = cpu.saturating_sub(seen[i].1);
                let passed = now.saturating_sub(v);
                if used > cpu_limit_ms || passed > wall_limit_ms {
                    eprintln!("shard {i}: one case has been running for {passed} ms and has used {used} ms of processor time");
                    std::process::exit(STALLED);
                }
            }
        }
    });
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn rng_for(ctx: &Ctx, section: &str, shard: usize) -> TestRng {
    let mut x = ctx
        .seed
        .wrapping_mul(0x2545F4914F6CDD1D)
        ^ fnv(&ctx.property).rotate_left(17)
        ^ fnv(section)
        ^ (shard as u64).wrapping_mul(0xA24BAED4963EE407);
    let mut seed = [0u8; 32];
    for chunk in seed.chunks_mut(8) {
        chunk.copy_from_slice(&splitmix(&mut x).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

#[derive(Default)]
struct ShardAcc {
    cases: u64,
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    failure: Option<FoundFailure>,
    known: BTreeMap<String, u64>,
}

impl ShardAcc {
    fn note<T: Serialize>(&mut self, case: &T, obs: Obs, hash: Option<u64>, shard: usize) {
        self.cases += 1;
        self.evaluations += obs.evals.max(1);
        if obs.nontrivial {
            self.nontrivial += 1;
            if let Some(h) = hash {
                self.distinct.insert(h);
            }
            if shard == 0 && matches!(self.nontrivial, 1 | 7 | 57 | 1009 | 20011) {
                let v = serde_json::to_value(case).unwrap_or(Value::Null);
                self.samples.push(shorten(v));
            }
        }
        for l in obs.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
    }
}

fn shorten(v: Value) -> Value {
    let s = v.to_string();
    if s.chars().count() > 600 {
        let t: String = s.chars().take(600).collect();
        Value::String(format!("{t}… (truncated)"))
    } else {
        v
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn known_match(ctx: &Ctx, section: &str, case: &Value) -> Option<String> {
    ctx.known
        .iter()
        .find(|k| k.section == section && &k.case == case)
        .map(|k| k.id.clone())
}

fn trace<T: Serialize>(ctx: &Ctx, section: &str, shard: usize, case: &T) {
    if let Some(dir) = &ctx.trace {
        let v = json!({"property": ctx.property, "section": section, "case": case});
        let _ = std::fs::write(dir.join(format!("shard-{shard}.json")), v.to_string());
    }
}

fn merge(name: &str, rule: &str, exhaustive: bool, shards: Vec<ShardAcc>) -> SectionReport {
    let mut r = SectionReport {
        name: name.to_string(),
        rule: rule.to_string(),
        exhaustive,
        ..Default::default()
    };
    let mut distinct: HashSet<u64> = HashSet::new();
    for s in shards {
        r.cases += s.cases;
        r.evaluations += s.evaluations;
        r.nontrivial += s.nontrivial;
        distinct.extend(s.distinct);
        for (k, v) in s.labels {
            *r.labels.entry(k).or_insert(0) += v;
        }
        r.samples.extend(s.samples);
        for (k, v) in s.known {
            *r.known.entry(k).or_insert(0) += v;
        }
        if let Some(f) = s.failure {
            let replace = match &r.failure {
                None => true,
                Some(old) => f.order < old.order,
            };
            if replace {
                r.failure = Some(f);
            }
        }
    }
    r.distinct_nontrivial = if exhaustive { r.nontrivial } else { distinct.len() as u64 };
    r
}

fn replay_fn<T>(
    check: std::sync::Arc<dyn Fn(&T, &mut Obs) -> CheckResult + Send + Sync>,
) -> Box<dyn Fn(&Value) -> Result<Result<(), Failure>, String> + Send + Sync>
where
    T: DeserializeOwned + std::fmt::Debug + 'static,
{
    Box::new(move |v| {
        let case: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        Ok(run_check(&*check, &case, &mut obs))
    })
}

/// Random section driven by a proptest strategy, with proptest shrinking.
pub fn random<T, S, C>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strategy: S,
    check: C,
) -> Section
where
    T: Debug + Clone + Serialize + DeserializeOwned + Hash + 'static,
    S: Fn(Tier) -> BoxedStrategy<T> + Send + Sync + 'static,
    C: Fn(&T, &mut Obs) -> CheckResult + Send + Sync + 'static,
{
    let check: std::sync::Arc<dyn Fn(&T, &mut Obs) -> CheckResult + Send + Sync> = std::sync::Arc::new(check);
    let replay = replay_fn::<T>(check.clone());
    let run = Box::new(move |ctx: &Ctx| {
        let total = match ctx.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let total = ((total as f64) * ctx.scale).ceil() as u64;
        let per = total.div_ceil(SHARDS as u64);
        let strategy = &strategy;
        let check = &check;
        let shards: Vec<ShardAcc> = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..SHARDS)
                .map(|shard| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || {
                            let strat = strategy(ctx.tier);
                            let mut runner =
                                TestRunner::new_with_rng(Config::default(), rng_for(ctx, name, shard));
                            let mut acc = ShardAcc::default();
                            for i in 0..per {
                                let mut tree = match strat.new_tree(&mut runner) {
                                    Ok(t) => t,
                                    Err(_) => continue,
                                };
                                let case = tree.current();
                                trace(ctx, name, shard, &case);
                                beat(shard);
                                let mut obs = Obs::default();
                                let r = run_check(&**check, &case, &mut obs);
                                match r {
                                    Ok(()) => {
                                        let h = if obs.nontrivial { Some(hash_of(&case)) } else { None };
                                        acc.note(&case, obs, h, shard);
                                    }
                                    Err(f) => {
                                        let v = serde_json::to_value(&case).unwrap_or(Value::Null);
                                        if let Some(id) = known_match(ctx, name, &v) {
                                            *acc.known.entry(id).or_insert(0) += 1;
                                            acc.cases += 1;
                                            continue;
                                        }
                                        acc.cases += 1;
                                        acc.evaluations += 1;
                                        acc.failure = Some(shrink(&mut *tree, case, f, &**check, i, shard));
                                        break;
                                    }
                                }
                            }
                            leave(shard);
                            acc
                        })
                        .expect("spawn")
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        merge(name, rule, false, shards)
    });
    Section { name, run, replay }
}

fn shrink<T>(
    tree: &mut dyn ValueTree<Value = T>,
    case: T,
    f: Failure,
    check: &dyn Fn(&T, &mut Obs) -> CheckResult,
    order: u64,
    shard: usize,
) -> FoundFailure
where
    T: Debug + Clone + Serialize,
{
    let mut best = case;
    let mut bf = f;
    let mut steps = 0;
    let start = std::time::Instant::now();
    if tree.simplify() {
        loop {
            steps += 1;
            if steps > MAX_SHRINK || start.elapsed().as_secs() > MAX_SHRINK_S {
                break;
            }
            let cur = tree.current();
            beat(shard);
            let mut obs = Obs::default();
            match run_check(check, &cur, &mut obs) {
                // do not let the shrinker drift from a genuine failure to a harness one
                Err(f2) if f2.internal == bf.internal => {
                    best = cur;
                    bf = f2;
                    if !tree.simplify() {
                        break;
                    }
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    FoundFailure {
        case: serde_json::to_value(&best).unwrap_or(Value::Null),
        debug: format!("{best:?}"),
        message: bf.message,
        internal: bf.internal,
        order,
    }
}

/// Exhaustive section: `count(tier)` cases, `nth(i)` builds the i-th; ordered from small to big so
/// that the first failure is a minimal one.
pub fn exhaustive<T, N, G, C>(name: &'static str, rule: &'static str, count: N, nth: G, check: C) -> Section
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    N: Fn(Tier) -> u64 + Send + Sync + 'static,
    G: Fn(u64) -> T + Send + Sync + 'static,
    C: Fn(&T, &mut Obs) -> CheckResult + Send + Sync + 'static,
{
    let check: std::sync::Arc<dyn Fn(&T, &mut Obs) -> CheckResult + Send + Sync> = std::sync::Arc::new(check);
    let replay = replay_fn::<T>(check.clone());
    let run = Box::new(move |ctx: &Ctx| {
        let total = count(ctx.tier);
        let nth = &nth;
        let check = &check;
        let shards: Vec<ShardAcc> = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..SHARDS)
                .map(|shard| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || {
                            let mut acc = ShardAcc::default();
                            let mut i = shard as u64;
                            while i < total {
                                let case = nth(i);
                                trace(ctx, name, shard, &case);
                                beat(shard);
                                let mut obs = Obs::default();
                                match run_check(&**check, &case, &mut obs) {
                                    Ok(()) => acc.note(&case, obs, None, shard),
                                    Err(f) => {
                                        let v = serde_json::to_value(&case).unwrap_or(Value::Null);
                                        acc.cases += 1;
                                        acc.evaluations += 1;
                                        if let Some(id) = known_match(ctx, name, &v) {
                                            *acc.known.entry(id).or_insert(0) += 1;
                                        } else {
                                            acc.failure = Some(FoundFailure {
                                                case: v,
                                                debug: format!("{case:?}"),
                                                message: f.message,
                                                internal: f.internal,
                                                order: i,
                                            });
                                            break;
                                        }
                                    }
                                }
                                i += SHARDS as u64;
                            }
                            leave(shard);
                            acc
                        })
                        .expect("spawn")
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        merge(name, rule, true, shards)
    });
    Section { name, run, replay }
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: fn() -> Vec<Section>,
}

pub fn load_known(root: &Path, property: &str) -> Vec<KnownFinding> {
    let mut out = vec![];
    let Ok(txt) = std::fs::read_to_string(root.join("known_findings.json")) else {
        return out;
    };
    let Ok(v) = serde_json::from_str::<Value>(&txt) else {
        return out;
    };
    if let Some(a) = v.get("findings").and_then(|a| a.as_array()) {
        for f in a {
            if f["property"] == property {
                out.push(KnownFinding {
                    id: f["id"].as_str().unwrap_or("?").to_string(),
                    section: f["section"].as_str().unwrap_or("").to_string(),
                    case: f["case"].clone(),
                    what: f["what"].as_str().unwrap_or("").to_string(),
                });
            }
        }
    }
    out
}
