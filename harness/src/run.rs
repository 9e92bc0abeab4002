//! Runner: shards of proptest, shrinking, replay files, evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

pub const SHARDS: u64 = 8;

#[derive(Default, Debug, Clone)]
pub struct Outcome {
    /// violation of the property under check
    pub fail: Option<String>,
    pub nontrivial: bool,
    pub labels: Vec<(&'static str, u32)>,
}

impl Outcome {
    pub fn ok(nontrivial: bool) -> Outcome {
        Outcome { fail: None, nontrivial, labels: vec![] }
    }
    pub fn fail(m: impl Into<String>) -> Outcome {
        Outcome { fail: Some(m.into()), nontrivial: true, labels: vec![] }
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<serde_json::Value>,
    /// percentage applied to case counts
    pub scale: u64,
}

#[derive(Default)]
pub struct Acc {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    pub engines: Vec<String>,
    pub replayed: bool,
}

pub struct Violation {
    pub engine: String,
    pub message: String,
    /// JSON text (serde_json values do not hold 128-bit numbers)
    pub case: String,
}

fn hash_case<C: Hash>(c: &C, salt: &str) -> u64 {
    #[allow(deprecated)]
    let mut h = std::collections::hash_map::DefaultHasher::new();
    salt.hash(&mut h);
    c.hash(&mut h);
    h.finish()
}

fn seed32(ctx: &Ctx, engine: &str, shard: u64) -> [u8; 32] {
    let mut s = ctx.seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in ctx.prop.bytes().chain(engine.bytes()) {
        s = (s ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    s = s.wrapping_add(shard.wrapping_mul(0xD134_2543_DE82_EF95));
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

/// Runs one engine: three times `cases` (thorough tier: forty times) generated cases over SHARDS threads.
pub fn engine<C>(
    ctx: &Ctx,
    acc: &mut Acc,
    name: &str,
    cases: u64,
    strat: impl Fn() -> BoxedStrategy<C> + Sync,
    check: impl Fn(&C) -> Outcome + Sync,
) where
    C: Serialize + DeserializeOwned + Debug + Clone + Hash + Send,
{
    acc.engines.push(name.to_string());
    if let Some(r) = &ctx.replay {
        if r["engine"].as_str() == Some(name) {
            acc.replayed = true;
            match serde_json::from_str::<C>(r["case"].as_str().unwrap_or("")) {
                Err(e) => acc.harness_errors.push(format!("unreadable replay case: {}", e)),
                Ok(c) => match catch_unwind(AssertUnwindSafe(|| check(&c))) {
                    Err(e) => acc.harness_errors.push(panic_text(e)),
                    Ok(o) => {
                        acc.evaluations += 1;
                        if let Some(m) = o.fail {
                            acc.violations.push(Violation { engine: name.into(), message: m, case: r["case"].as_str().unwrap_or("").to_string() });
                        }
                    }
                },
            }
        }
        return;
    }
    if !acc.violations.is_empty() {
        return;
    }
    let total = (cases * if ctx.thorough { 40 } else { 3 } * ctx.scale / 100).max(SHARDS);
    let stop = AtomicBool::new(false);
    let errors = Mutex::new(Vec::<String>::new());
    type Shard = (u64, HashSet<u64>, BTreeMap<String, u64>, Vec<serde_json::Value>, Option<(String, String)>);
    let results: Vec<Shard> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|shard| {
                let (stop, errors, strat, check) = (&stop, &errors, &strat, &check);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || -> Shard {
                        let n = total / SHARDS + u64::from(shard < total % SHARDS);
                        let cfg = Config {
                            cases: n as u32,
                            max_shrink_iters: 2000,
                            max_shrink_time: 40_000,
                            failure_persistence: None,
                            max_global_rejects: 1 << 30,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(ctx, name, shard)));
                        let st = std::cell::RefCell::new((0u64, HashSet::new(), BTreeMap::<String, u64>::new(), Vec::<serde_json::Value>::new()));
                        let failed = std::cell::Cell::new(false);
                        let res = runner.run(&strat(), |case: C| {
                            if !failed.get() && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            let o = match catch_unwind(AssertUnwindSafe(|| check(&case))) {
                                Ok(o) => o,
                                Err(e) => {
                                    stop.store(true, Ordering::Relaxed);
                                    let mut l = errors.lock().unwrap();
                                    if l.len() < 3 {
                                        l.push(format!("{} on case {}", panic_text(e), serde_json::to_string(&case).unwrap_or_default()));
                                    }
                                    return Ok(());
                                }
                            };
                            if !failed.get() {
                                let mut s = st.borrow_mut();
                                s.0 += 1;
                                if o.nontrivial {
                                    let h = hash_case(&case, name);
                                    if s.1.insert(h) && s.3.len() < 2 && shard < 2 {
                                        s.3.push(serde_json::json!({"engine": name, "case": serde_json::to_string(&case).unwrap()}));
                                    }
                                }
                                for (l, k) in &o.labels {
                                    *s.2.entry(l.to_string()).or_default() += *k as u64;
                                }
                            }
                            match o.fail {
                                Some(m) => {
                                    failed.set(true);
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(m))
                                }
                                None => Ok(()),
                            }
                        });
                        let bad = match res {
                            Ok(()) => None,
                            Err(TestError::Fail(_, case)) => {
                                // message of the shrunk case
                                let m = match catch_unwind(AssertUnwindSafe(|| check(&case))) {
                                    Ok(o) => o.fail.unwrap_or_else(|| "failure did not reproduce after shrinking".into()),
                                    Err(e) => panic_text(e),
                                };
                                Some((m, serde_json::to_string(&case).unwrap()))
                            }
                            Err(TestError::Abort(r)) => {
                                errors.lock().unwrap().push(format!("generator aborted: {}", r));
                                None
                            }
                        };
                        let s = st.into_inner();
                        (s.0, s.1, s.2, s.3, bad)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (n, d, l, sm, bad) in results {
        acc.evaluations += n;
        acc.distinct.extend(d);
        for (k, v) in l {
            *acc.labels.entry(k).or_default() += v;
        }
        for s in sm {
            if acc.samples.len() < 6 {
                acc.samples.push(s);
            }
        }
        if let Some((m, case)) = bad {
            acc.violations.push(Violation { engine: name.into(), message: m, case });
        }
    }
    acc.harness_errors.extend(errors.into_inner().unwrap());
}
