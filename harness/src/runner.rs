//! Generic property runner: seeded generation, parallel workers, shrinking,
//! replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one passing case covered.
#[derive(Default, Clone, Debug)]
pub struct Covered {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Covered {
    pub fn trivial() -> Self {
        Self::default()
    }
    pub fn label(&mut self, l: &'static str, when: bool) {
        if when && !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
}

pub type CheckResult = Result<Covered, String>;

pub struct Part<C> {
    pub name: &'static str,
    /// What makes a case of this part non-trivial.
    pub rule: &'static str,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C) -> CheckResult,
    pub quick: u64,
    pub thorough: u64,
    pub max_shrink: u32,
    /// How often a replay repeats the case (select! in the code under test
    /// draws from a per-thread generator the harness cannot seed).
    pub repeat: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cfg {
    pub property: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub workers: usize,
    pub scale: f64,
    pub slots: Option<PathBuf>,
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    part: String,
    #[serde(default)]
    note: String,
    case: serde_json::Value,
}

pub struct Failure {
    pub part: &'static str,
    pub message: String,
    pub path: PathBuf,
}

#[derive(Default)]
pub struct PartReport {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
    /// The longest any case took.
    pub slowest_ms: u64,
}

pub trait AnyPart: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, cfg: &Cfg) -> PartReport;
    /// Ok(None): not for this part. Ok(Some(r)): ran.
    fn replay(&self, json: &serde_json::Value, repeat: Option<u32>) -> Result<CheckResult, String>;
    fn sample(&self, seed: u64, n: usize) -> Vec<String>;
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static PANICS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Panics on this thread so far, caught ones included.
pub fn panics() -> u64 {
    PANICS.with(|p| p.get())
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone().unwrap_or_default())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VP_SHOW_PANICS").is_ok() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = PANICS.try_with(|p| p.set(p.get() + 1));
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{msg} at {loc}"))
            }
        });
    }));
}

/// Run `f`; a panic becomes Err with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        format!("panic: {}", LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "(another thread)".into()))
    })
}

fn guarded<C>(check: fn(&C) -> CheckResult, c: &C) -> CheckResult {
    crate::session::use_names(vec![]);
    match no_panic(|| check(c)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn hash64(parts: &[&[u8]]) -> u64 {
    // FNV-1a, stable across runs and versions.
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn test_runner(seed: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    let mut x = seed;
    for c in bytes.chunks_mut(8) {
        x = splitmix(x);
        c.copy_from_slice(&x.to_le_bytes());
    }
    let config = Config { failure_persistence: None, max_global_rejects: 1 << 30, max_local_rejects: 1 << 30, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// One random number.
pub fn draw(r: &mut TestRunner) -> u64 {
    use proptest::prelude::Rng;
    r.rng().next_u64()
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A case that runs for this long goes to the parent process for a second look.
static CASE_LIMIT_S: u64 = 100;
/// Exit code for that.
pub const STUCK: i32 = 4;

/// The case a worker is at, where the parent process finds it when this one
/// does not survive it: length (16 hex digits), then a replay file.
struct Slot {
    file: Option<std::fs::File>,
    head: String,
}

impl Slot {
    fn new(cfg: &Cfg, part: &str, w: usize) -> Slot {
        let file = cfg.slots.as_ref().and_then(|d| std::fs::File::create(d.join(format!("{part}-{w}"))).ok());
        Slot { file, head: format!("{{\"property\":{:?},\"part\":{:?},\"case\":", cfg.property, part) }
    }
    fn set(&self, case: &str) {
        use std::os::unix::fs::FileExt;
        let Some(f) = &self.file else { return };
        let text = format!("{:016x}{}{case}}}", self.head.len() + case.len() + 1, self.head);
        let _ = f.write_all_at(text.as_bytes(), 0);
    }
    fn clear(&self) {
        if let Some(f) = &self.file {
            let _ = f.set_len(0);
        }
    }
}

pub fn read_slot(p: &Path) -> Option<String> {
    let b = std::fs::read(p).ok()?;
    let n = usize::from_str_radix(std::str::from_utf8(b.get(..16)?).ok()?, 16).ok()?;
    String::from_utf8(b.get(16..16 + n)?.to_vec()).ok()
}

impl<C> AnyPart for Part<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }

    fn run(&self, cfg: &Cfg) -> PartReport {
        let total = match cfg.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * cfg.scale) as u64).max(1);
        // Cases with threads of their own leave room for them.
        let workers = if self.name == "threads" { cfg.workers.div_ceil(4) } else { cfg.workers }.max(1);
        let stop = Arc::new(AtomicBool::new(false));
        let merged: Mutex<(PartReport, HashSet<u64>)> = Mutex::new((PartReport::default(), HashSet::new()));
        let started = Instant::now();
        let slots: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(0)).collect();
        let slots = &slots;
        let merged_ref = &merged;
        let done = AtomicBool::new(false);
        let done = &done;
        // Workers start one after another so that per-thread state inside the
        // dependencies is initialised in a fixed order.
        let turn = AtomicU64::new(0);
        let turn = &turn;
        let strategy = self.strategy;
        let check = self.check;
        let max_shrink = self.max_shrink;
        let part_name = self.name;
        let check_id = cfg.property;
        let found: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
        let found = &found;
        std::thread::scope(|scope| {
            scope.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(200));
                    let now = started.elapsed().as_millis() as u64 + 1;
                    for (w, s) in slots.iter().enumerate() {
                        let t = s.load(Ordering::SeqCst);
                        if t != 0 && now > t + CASE_LIMIT_S * 1000 {
                            println!("{check_id}/{part_name}: one case runs for over {CASE_LIMIT_S} s (worker {w})");
                            std::process::exit(STUCK);
                        }
                    }
                }
            });
            let handles: Vec<_> = (0..workers)
                .map(|w| {
                    let stop = stop.clone();
                    std::thread::Builder::new()
                        .name(format!("{part_name}-{w}"))
                        .stack_size(32 << 20)
                        .spawn_scoped(scope, move || {
                            while turn.load(Ordering::SeqCst) != w as u64 {
                                std::thread::yield_now();
                            }
                            init_thread();
                            turn.fetch_add(1, Ordering::SeqCst);
                            let n = total / workers as u64 + if (w as u64) < total % workers as u64 { 1 } else { 0 };
                            let seed = hash64(&[&cfg.seed.to_le_bytes(), cfg.property.as_bytes(), part_name.as_bytes(), &(w as u64).to_le_bytes()]);
                            let slot = Slot::new(cfg, part_name, w);
                            let mut runner = test_runner(seed);
                            let strat = strategy(cfg.tier);
                            let mut report = PartReport::default();
                            let mut distinct = HashSet::new();
                            let mut failed: Option<(String, String)> = None;
                            for i in 0..n {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let mut tree = match strat.new_tree(&mut runner) {
                                    Ok(t) => t,
                                    Err(e) => {
                                        println!("ERROR: {}/{}: generator rejected too much: {}", cfg.property, part_name, e);
                                        std::process::exit(3);
                                    }
                                };
                                let case = tree.current();
                                let json = serde_json::to_string(&case).expect("case serializes");
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                json.hash(&mut h);
                                let hash = h.finish();
                                slot.set(&json);
                                slots[w].store(started.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                                let t = Instant::now();
                                let r = guarded(check, &case);
                                if t.elapsed().as_secs() >= 5 && std::env::var_os("VP_SLOW").is_some() {
                                    eprintln!("{} s: {json}", t.elapsed().as_secs());
                                }
                                report.slowest_ms = report.slowest_ms.max(t.elapsed().as_millis() as u64);
                                report.evaluations += 1;
                                match r {
                                    Ok(cov) => {
                                        for l in &cov.labels {
                                            *report.labels.entry(l).or_default() += 1;
                                        }
                                        if cov.nontrivial {
                                            // Counting stops where memory would; the number is then a lower bound.
                                            let fresh = distinct.len() < 8_000_000 && distinct.insert(hash);
                                            if fresh && w == 0 && report.samples.len() < 3 && (i % 7 == report.samples.len() as u64) {
                                                report.samples.push(sample_json(&case));
                                            }
                                        }
                                    }
                                    Err(msg) => {
                                        stop.store(true, Ordering::SeqCst);
                                        let (case, msg) = shrink(check, &mut tree, case, msg, max_shrink, |c| {
                                            slot.set(&serde_json::to_string(c).unwrap());
                                            slots[w].store(started.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                                        });
                                        failed = Some((serde_json::to_string(&case).unwrap(), msg));
                                        break;
                                    }
                                }
                                slots[w].store(0, Ordering::SeqCst);
                            }
                            slots[w].store(0, Ordering::SeqCst);
                            slot.clear();
                            if let Some((case, msg)) = failed {
                                found.lock().unwrap().push((w, case, msg));
                            }
                            let mut m = merged_ref.lock().unwrap();
                            m.0.evaluations += report.evaluations;
                            m.0.slowest_ms = m.0.slowest_ms.max(report.slowest_ms);
                            for (l, c) in report.labels {
                                *m.0.labels.entry(l).or_default() += c;
                            }
                            m.0.samples.extend(report.samples);
                            m.1.extend(distinct);
                        })
                        .expect("spawn worker")
                })
                .collect();
            let mut bad = false;
            for h in handles {
                bad |= h.join().is_err();
            }
            done.store(true, Ordering::SeqCst);
            if bad {
                println!("ERROR: {}/{}: a worker of the harness itself failed", cfg.property, part_name);
                std::process::exit(3);
            }
        });
        let (mut report, distinct) = merged.into_inner().unwrap();
        report.distinct_nontrivial = distinct.len() as u64;
        let mut f = std::mem::take(&mut *found.lock().unwrap());
        f.sort();
        if let Some((_, case, msg)) = f.into_iter().next() {
            let path = write_replay(cfg, part_name, &case, &msg);
            report.failure = Some(Failure { part: part_name, message: msg, path });
        }
        report
    }

    fn replay(&self, json: &serde_json::Value, repeat: Option<u32>) -> Result<CheckResult, String> {
        let text = json.to_string();
        let case: C = serde_json::from_str(&text).map_err(|e| format!("bad case: {e}"))?;
        let mut last = Ok(Covered::trivial());
        for _ in 0..repeat.unwrap_or(self.repeat) {
            last = guarded(self.check, &case);
            if last.is_err() {
                break;
            }
        }
        Ok(last)
    }

    fn sample(&self, seed: u64, n: usize) -> Vec<String> {
        let mut runner = test_runner(seed);
        let s = (self.strategy)(Tier::Quick);
        (0..n)
            .map(|_| {
                let c = s.new_tree(&mut runner).unwrap().current();
                let r = guarded(self.check, &c);
                format!("{}\n   => {:?}", serde_json::to_string(&c).unwrap(), r)
            })
            .collect()
    }
}

/// Touch per-thread state of the dependencies in a fixed order.
fn init_thread() {
    touch();
    crate::race::init(touch);
}

fn touch() {
    // futures' select! seeds its per-thread generator from a global counter on
    // first use.
    let mut a = futures::future::ready(());
    let mut b = futures::future::ready(());
    futures::executor::block_on(async {
        futures::select! { _ = a => (), _ = b => () }
    });
}

fn sample_json<C: Serialize>(c: &C) -> serde_json::Value {
    let s = serde_json::to_string(c).unwrap();
    if s.len() > 3000 {
        let mut cut = 3000;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..cut], s.len()))
    } else {
        serde_json::to_value(c).unwrap_or(serde_json::Value::String(s))
    }
}

fn shrink<C: Clone + std::fmt::Debug>(
    check: fn(&C) -> CheckResult,
    tree: &mut impl ValueTree<Value = C>,
    case: C,
    msg: String,
    max: u32,
    at: impl Fn(&C),
) -> (C, String) {
    let mut best = (case, msg);
    let t0 = Instant::now();
    let mut n = 0;
    if !tree.simplify() {
        return best;
    }
    loop {
        n += 1;
        if n > max || t0.elapsed() > Duration::from_secs(60) {
            return best;
        }
        let c = tree.current();
        at(&c);
        match guarded(check, &c) {
            Err(m) => {
                best = (c, m);
                if !tree.simplify() {
                    return best;
                }
            }
            Ok(_) => {
                if !tree.complicate() {
                    return best;
                }
            }
        }
    }
}

pub fn write_replay(cfg: &Cfg, part: &str, case: &str, msg: &str) -> PathBuf {
    let dir = cfg.root.join("out").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash64(&[case.as_bytes()]);
    let path = dir.join(format!("{}-{}-{:016x}.json", cfg.property, part, h));
    let file = ReplayFile {
        property: cfg.property.to_string(),
        part: part.to_string(),
        note: msg.to_string(),
        case: serde_json::from_str(case).unwrap(),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("write replay");
    path
}

/// Replay one file. Err(e): unusable file; Ok(None): held; Ok(Some(msg)): violated.
pub fn replay_file(parts: &[Box<dyn AnyPart>], path: &Path, repeat: Option<u32>) -> Result<Option<String>, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let f: ReplayFile = serde_json::from_str(&text).map_err(|e| format!("{}: {e}", path.display()))?;
    let part = parts.iter().find(|p| p.name() == f.part).ok_or_else(|| format!("no part {}", f.part))?;
    // Own thread: same stack size as the workers, fresh per-thread state.
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(s, || part.replay(&f.case, repeat))
            .unwrap()
            .join()
            .map_err(|_| "replay thread failed".to_string())
    })??;
    Ok(r.err())
}
