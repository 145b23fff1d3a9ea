//! Runner: laws = (generator, oracle) pairs grouped into properties; deterministic sharding,
//! shrinking, replay files, evidence, known findings.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const SHARDS: u64 = 8;

/** What one evaluation of an oracle tells besides pass/fail. */
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub known: Option<&'static str>,
}

impl Obs {
    pub fn nt(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l);
        }
    }
}

pub type Res = Result<(), String>;

#[derive(Clone)]
pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub known: Vec<String>,
    /** No further cases after this. */
    pub deadline: Instant,
}

#[derive(Default)]
pub struct LawReport {
    pub name: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub exhaustive: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known_hits: BTreeMap<&'static str, (u64, String)>,
    pub failure: Option<(String, String)>, // message, case in RON
    pub harness_error: Option<String>,
}

pub struct Law {
    pub name: &'static str,
    pub run: Box<dyn Fn(&Env) -> LawReport + Send + Sync>,
    pub replay: Box<dyn Fn(&Env, &str) -> Result<Outcome, String> + Send + Sync>,
    /** One case from the given bytes of randomness, for the coverage-guided driver. */
    pub from_bytes: Option<Box<dyn Fn(&Env, &[u8]) -> Option<(Outcome, String)> + Send + Sync>>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub laws: Vec<Law>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Pass,
    Known(&'static str),
    Fail(String),
    HarnessError(String),
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn last_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default()
}

/** Call into the code under test; a panic there is an Err with its message. */
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (l, m) = last_panic();
        format!("panicked at {l}: {m}")
    })
}

// ------------------------------------------------------- cases that do not end, or end the process

/** The case a shard is at. The pointer is good while the slot's lock is held: the shard clears its slot
before it drops the case. */
struct Watched {
    tick: u64,
    case: *const (),
    text: fn(*const ()) -> String,
}
unsafe impl Send for Watched {}

const SLOTS: usize = SHARDS as usize + 1;
static WATCH: [Mutex<Option<Watched>>; SLOTS] = [const { Mutex::new(None) }; SLOTS];
static TICK: AtomicU64 = AtomicU64::new(0);
static LAW: Mutex<&'static str> = Mutex::new("");
static TRACE: OnceLock<String> = OnceLock::new();

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(SLOTS - 1) };
}

fn text_of<C: Serialize>(p: *const ()) -> String {
    ron_text(unsafe { &*(p as *const C) })
}

struct Leave(usize);
impl Drop for Leave {
    fn drop(&mut self) {
        *WATCH[self.0].lock().unwrap_or_else(|e| e.into_inner()) = None;
    }
}

fn watched<C: Serialize>(case: &C) -> Leave {
    let i = SLOT.get();
    if let Some(dir) = TRACE.get() {
        let text = format!("law: {}\ncase:\n{}\n", LAW.lock().expect("law"), ron_text(case));
        std::fs::write(format!("{dir}/{i}"), text).expect("trace");
    }
    *WATCH[i].lock().expect("watch") = Some(Watched {
        tick: TICK.load(Ordering::Relaxed),
        case: case as *const C as *const (),
        text: text_of::<C>,
    });
    Leave(i)
}

/** Write every case to a file of its shard before it is judged, so that the last one is known when the
process dies. */
pub fn trace_to(dir: String) {
    TRACE.set(dir).expect("trace");
}

/** Call `hung` with the law and the case once a case has taken `limit` seconds. Counts seconds this
thread was awake, not the clock, so a stopped machine does not count. */
pub fn start_watchdog(limit: u64, hung: impl Fn(&str, &str) + Send + 'static) {
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = TICK.fetch_add(1, Ordering::Relaxed) + 1;
            for w in &WATCH {
                let g = w.lock().unwrap_or_else(|e| e.into_inner());
                if let Some(x) = &*g {
                    if now - x.tick > limit {
                        let text = (x.text)(x.case);
                        let law = *LAW.lock().unwrap_or_else(|e| e.into_inner());
                        hung(law, &text);
                    }
                }
            }
        }
    });
}

fn is_harness_location(loc: &str) -> bool {
    loc.contains("harness/src") || (loc.starts_with("src/") && !loc.is_empty())
}

pub fn judge<C: Serialize>(
    env: &Env,
    case: &C,
    check: &(dyn Fn(&C, &mut Obs) -> Res + Send + Sync),
) -> (Outcome, Obs) {
    let mut obs = Obs::default();
    let _leave = watched(case);
    let r = catch_unwind(AssertUnwindSafe(|| check(case, &mut obs)));
    let out = match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => match obs.known {
            Some(k) if env.known.iter().any(|x| x == k) => Outcome::Known(k),
            _ => Outcome::Fail(m),
        },
        Err(_) => {
            let (loc, msg) = last_panic();
            if is_harness_location(&loc) {
                Outcome::HarnessError(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Fail(format!("the library panicked at {loc}: {msg}"))
            }
        }
    };
    (out, obs)
}

fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, law: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(hash_of(law))
        .wrapping_add(shard.wrapping_mul(0xD1B5_4A32_D192_ED03));
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known_hits: BTreeMap<&'static str, (u64, String)>,
}

impl Acc {
    fn note(&mut self, out: &Outcome, obs: &Obs, text: impl FnOnce() -> String, hash: bool) {
        self.evaluations += 1;
        for l in &obs.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        let mut t = None;
        if obs.nontrivial {
            self.nontrivial += 1;
            if hash || self.samples.len() < 2 {
                let s = text();
                if hash {
                    self.distinct.insert(hash_of(&s));
                }
                if self.samples.len() < 2 {
                    self.samples.push(clip(&s, 500));
                }
                t = Some(s);
            }
        }
        if let Outcome::Known(k) = out {
            let e = self
                .known_hits
                .entry(k)
                .or_insert((0, String::new()));
            e.0 += 1;
            if e.1.is_empty() {
                e.1 = clip(&t.unwrap_or_default(), 300);
            }
        }
    }
}

/** A randomly generated law. `quick`/`thorough` are total case counts. */
pub fn law<S, C>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strategy: impl Fn() -> S + Send + Sync + 'static,
    check: impl Fn(&C, &mut Obs) -> Res + Send + Sync + 'static,
) -> Law
where
    S: Strategy<Value = C>,
    C: std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    let check: std::sync::Arc<dyn Fn(&C, &mut Obs) -> Res + Send + Sync> = std::sync::Arc::new(check);
    let strategy = std::sync::Arc::new(strategy);
    let (c1, s1) = (check.clone(), strategy.clone());
    let (c2, s2) = (check.clone(), strategy.clone());
    Law {
        name,
        run: Box::new(move |env| {
            *LAW.lock().expect("law") = name;
            let total = ((if env.thorough { thorough } else { quick }) as f64 * env.scale) as u64;
            let per = (total / SHARDS).max(1);
            let stop = AtomicBool::new(false);
            let parts: Vec<(Acc, Option<(String, String)>, Option<String>)> =
                std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..SHARDS)
                        .map(|shard| {
                            let (check, strategy) = (c1.clone(), s1.clone());
                            let stop = &stop;
                            std::thread::Builder::new()
                                .stack_size(16 << 20)
                                .spawn_scoped(sc, move || {
                                    shard_run(env, name, shard, per, &*check, strategy(), stop)
                                })
                                .expect("spawn")
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("shard")).collect()
                });
            merge(name, parts, false)
        }),
        replay: Box::new(move |env, text| {
            let case: C = ron::from_str(text).map_err(|e| format!("bad case: {e}"))?;
            Ok(judge(env, &case, &*check).0)
        }),
        from_bytes: Some(Box::new(move |env, bytes| {
            let rng = TestRng::from_seed(RngAlgorithm::PassThrough, bytes);
            let mut runner = TestRunner::new_with_rng(Config::default(), rng);
            let tree = s2().new_tree(&mut runner).ok()?;
            let case = proptest::strategy::ValueTree::current(&tree);
            let out = judge(env, &case, &*c2).0;
            let text = match out {
                Outcome::Fail(_) => ron_text(&case),
                _ => String::new(),
            };
            Some((out, text))
        })),
    }
}

fn ron_text<C: Serialize>(c: &C) -> String {
    ron::to_string(c).unwrap_or_else(|e| format!("unserialisable: {e}"))
}

fn shard_run<C, S>(
    env: &Env,
    name: &'static str,
    shard: u64,
    per: u64,
    check: &(dyn Fn(&C, &mut Obs) -> Res + Send + Sync),
    strategy: S,
    stop: &AtomicBool,
) -> (Acc, Option<(String, String)>, Option<String>)
where
    S: Strategy<Value = C>,
    C: std::fmt::Debug + Serialize + 'static,
{
    SLOT.set(shard as usize);
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(env.seed, name, shard));
    // `cases` only bounds how often a nested generator is drawn again while shrinking
    let config = Config { cases: 64, failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(config, rng);
    let mut acc = Acc::default();
    for _ in 0..per {
        if stop.load(Ordering::Relaxed) || Instant::now() > env.deadline {
            break; // another shard failed: its case is shrunk and reported; or the time is up
        }
        let tree = match strategy.new_tree(&mut runner) {
            Ok(t) => t,
            Err(r) => return (acc, None, Some(format!("generator gave up: {}", r.message()))),
        };
        let case = tree.current();
        let (out, obs) = judge(env, &case, check);
        acc.note(&out, &obs, || format!("{case:?}"), true);
        match out {
            Outcome::Pass | Outcome::Known(_) => {}
            Outcome::HarnessError(m) => return (acc, None, Some(m)),
            Outcome::Fail(m) => {
                stop.store(true, Ordering::Relaxed);
                let (m, case) = shrink(env, check, tree, m, case);
                return (acc, Some((m, ron_text(&case))), None);
            }
        }
    }
    (acc, None, None)
}

/** The smallest failing case found in at most 30 000 steps and 90 s. */
fn shrink<C>(
    env: &Env,
    check: &(dyn Fn(&C, &mut Obs) -> Res + Send + Sync),
    mut tree: impl ValueTree<Value = C>,
    msg: String,
    case: C,
) -> (String, C)
where
    C: std::fmt::Debug + Serialize + 'static,
{
    let until = Instant::now() + std::time::Duration::from_secs(90);
    let mut best = (msg, case);
    let mut more = tree.simplify();
    for _ in 0..30_000 {
        if !more || Instant::now() > until {
            break;
        }
        let case = tree.current();
        more = match judge(env, &case, check).0 {
            Outcome::Fail(m) => {
                best = (m, case);
                tree.simplify()
            }
            _ => tree.complicate(),
        };
    }
    best
}

/** A law over a finite space, enumerated completely: case number i in 0..n. */
pub fn enum_law<C>(
    name: &'static str,
    n: impl Fn(&Env) -> u64 + Send + Sync + 'static,
    case: impl Fn(u64) -> C + Send + Sync + 'static,
    check: impl Fn(&C, &mut Obs) -> Res + Send + Sync + 'static,
) -> Law
where
    C: std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    let check: std::sync::Arc<dyn Fn(&C, &mut Obs) -> Res + Send + Sync> = std::sync::Arc::new(check);
    let c1 = check.clone();
    let case = std::sync::Arc::new(case);
    Law {
        name,
        run: Box::new(move |env| {
            *LAW.lock().expect("law") = name;
            let total = n(env);
            let stop = AtomicBool::new(false);
            let parts = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..SHARDS)
                    .map(|shard| {
                        let (check, case, stop) = (c1.clone(), case.clone(), &stop);
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn_scoped(sc, move || {
                                let mut acc = Acc::default();
                                SLOT.set(shard as usize);
                                let (mut fail, mut herr) = (None, None);
                                let (lo, hi) = (total * shard / SHARDS, total * (shard + 1) / SHARDS);
                                for i in lo..hi {
                                    if stop.load(Ordering::Relaxed) || Instant::now() > env.deadline {
                                        break;
                                    }
                                    let c = case(i);
                                    let (out, obs) = judge(env, &c, &*check);
                                    acc.note(&out, &obs, || format!("{c:?}"), false);
                                    match out {
                                        Outcome::Fail(m) => {
                                            fail = Some((m, ron_text(&c)));
                                            stop.store(true, Ordering::Relaxed);
                                            break;
                                        }
                                        Outcome::HarnessError(m) => {
                                            herr = Some(m);
                                            break;
                                        }
                                        _ => {}
                                    }
                                }
                                (acc, fail, herr)
                            })
                            .expect("spawn")
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| h.join().expect("shard"))
                    .collect::<Vec<_>>()
            });
            let mut r = merge(name, parts, true);
            r.exhaustive = r.evaluations == total;
            r
        }),
        replay: Box::new(move |env, text| {
            let case: C = ron::from_str(text).map_err(|e| format!("bad case: {e}"))?;
            Ok(judge(env, &case, &*check).0)
        }),
        from_bytes: None,
    }
}

fn merge(
    name: &'static str,
    parts: Vec<(Acc, Option<(String, String)>, Option<String>)>,
    exhaustive: bool,
) -> LawReport {
    let mut r = LawReport {
        name,
        exhaustive,
        ..Default::default()
    };
    let mut distinct: HashSet<u64> = HashSet::new();
    for (a, f, h) in parts {
        r.evaluations += a.evaluations;
        r.nontrivial += a.nontrivial;
        if distinct.is_empty() {
            distinct = a.distinct;
        } else {
            distinct.extend(a.distinct);
        }
        for (k, v) in a.labels {
            *r.labels.entry(k).or_insert(0) += v;
        }
        for (k, (n, s)) in a.known_hits {
            let e = r.known_hits.entry(k).or_insert((0, s.clone()));
            e.0 += n;
        }
        if r.samples.len() < 3 {
            r.samples.extend(a.samples.into_iter().take(1));
        }
        if r.failure.is_none() {
            r.failure = f;
        }
        if r.harness_error.is_none() {
            r.harness_error = h;
        }
    }
    r.distinct_nontrivial = if exhaustive {
        r.nontrivial
    } else {
        distinct.len() as u64
    };
    r
}

// ---------------------------------------------------------------- comparisons

/** |a - b| <= tol, false for NaN. */
pub fn within(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}

pub fn same(what: &str, got: f64, want: f64, tol: f64) -> Res {
    if within(got, want, tol) {
        Ok(())
    } else {
        Err(format!(
            "{what}: got {got:?}, expected {want:?} (difference {:e}, tolerance {tol:e})",
            (got - want).abs()
        ))
    }
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Res {
    if cond { Ok(()) } else { Err(msg()) }
}
