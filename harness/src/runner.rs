//! Generic generated-input search: deterministic seeds, parallel shards,
//! shrinking, replay files and evidence.

use crate::engine::Stats;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    Violation(String),
    /// another property is broken: nothing can be said about this one
    Irrelevant(String),
    Inconclusive,
}

pub struct Outcome {
    pub verdict: Verdict,
    pub stats: Stats,
    pub nontrivial: bool,
}

pub trait CaseT: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + Sync + 'static> CaseT for T {}

pub struct Opts {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub replay: Option<PathBuf>,
    pub build: PathBuf,
    pub threads: usize,
    pub scale: f64,
}

/// One kind of generated cases of a check.
pub struct Part<C: CaseT> {
    pub name: &'static str,
    pub rule: &'static str,
    pub cases: (u64, u64),
    /// wall clock limits of the generation, in seconds
    pub limit: (u64, u64),
    pub strategy: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    pub run: Box<dyn Fn(&C) -> Outcome + Send + Sync>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub irrelevant: u64,
    pub inconclusive: u64,
    pub panics: u64,
    pub rules: Vec<String>,
    pub samples: Vec<String>,
    pub parts: Vec<serde_json::Value>,
    pub violation: Option<(String, PathBuf)>,
    pub first_irrelevant: Option<String>,
}

thread_local! {
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PLACE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
        PLACE.with(|p| *p.borrow_mut() = place.unwrap_or_default());
        if std::env::var_os("VERIF_PANICS").is_some() || !IN_CASE.with(|c| c.get()) {
            eprintln!("{}\n{}", info, if std::env::var_os("VERIF_BT").is_some() { std::backtrace::Backtrace::force_capture().to_string() } else { String::new() })
        }
    }));
}

fn guarded<C: CaseT>(part: &Part<C>, c: &C) -> Result<Outcome, String> {
    IN_CASE.with(|f| f.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (part.run)(c)));
    IN_CASE.with(|f| f.set(false));
    r.or_else(|e| {
        let e = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        // Parts that call the code under test directly: a panic there is its own.
        let place = PLACE.with(|p| p.borrow().clone());
        let ours = place.starts_with("src/") || ["/rustc/", "/library/", "/registry/"].iter().any(|x| place.contains(x));
        if part.direct() && !ours && !place.is_empty() {
            return Ok(Outcome {
                verdict: Verdict::Violation(format!("the code panics at {place}: {e}")),
                nontrivial: false,
                stats: Stats::default(),
            });
        }
        Err(e)
    })
}

fn shorten(s: String) -> String {
    if s.len() > 1500 {
        format!(
            "{}…({} chars)",
            s.chars().take(1500).collect::<String>(),
            s.len()
        )
    } else {
        s
    }
}

fn write_replay<C: CaseT>(opts: &Opts, part: &Part<C>, c: &C, why: &str) -> PathBuf {
    let dir = opts.build.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", opts.id, part.name, opts.seed));
    let v = serde_json::json!({
        "property": opts.id, "part": part.name, "why": why, "case": c,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

impl<C: CaseT> Part<C> {
    /// Does it call functions of the crate on the thread of the harness?
    fn direct(&self) -> bool {
        ["framing", "parse", "print"].contains(&self.name)
    }

    pub fn execute(self, opts: &Opts, report: &mut Report) {
        if let Some(path) = &opts.replay {
            let text = std::fs::read_to_string(path).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            if v["part"] != self.name {
                return;
            }
            let c: C = serde_json::from_value(v["case"].clone()).expect("replay case");
            let r = guarded(&self, &c);
            report.evaluations += 1;
            match r {
                Ok(o) => {
                    println!("replay: {:?}", o.verdict);
                    if let Verdict::Violation(d) = o.verdict {
                        report.violation = Some((d, path.clone()))
                    }
                }
                Err(e) => println!("replay: harness panic: {}", e),
            }
            return;
        }
        if report.violation.is_some() {
            return;
        }
        let thorough = opts.tier == "thorough";
        let total = if thorough { self.cases.1 } else { self.cases.0 };
        let total = ((total as f64 * opts.scale) as u64).max(1);
        let limit = Duration::from_secs(if thorough { self.limit.1 } else { self.limit.0 });
        let start = Instant::now();
        let part = Arc::new(self);
        let stop = Arc::new(AtomicBool::new(false));
        let done = Arc::new(AtomicU64::new(0));
        #[derive(Default)]
        struct Shared<C> {
            stats: Stats,
            evaluations: u64,
            irrelevant: u64,
            inconclusive: u64,
            panics: u64,
            hashes: HashSet<u64>,
            samples: Vec<(u64, String)>,
            first_irrelevant: Option<String>,
            panic_detail: Option<String>,
            violations: Vec<(usize, String, C)>,
            current: Vec<Option<(Instant, C)>>,
        }
        let threads = opts.threads.max(1);
        let shared = Arc::new(Mutex::new(Shared::<C> {
            stats: Stats::default(),
            evaluations: 0,
            irrelevant: 0,
            inconclusive: 0,
            panics: 0,
            hashes: HashSet::new(),
            samples: vec![],
            first_irrelevant: None,
            panic_detail: None,
            violations: vec![],
            current: vec![None; threads],
        }));
        let mut handles = vec![];
        for shard in 0..threads {
            let part = part.clone();
            let stop = stop.clone();
            let shared = shared.clone();
            let done = done.clone();
            let mut h = DefaultHasher::new();
            (opts.seed, shard, part.name, &opts.id).hash(&mut h);
            let k = h.finish();
            let quota = total / threads as u64 + ((shard as u64) < total % threads as u64) as u64;
            let current = opts.build.join("current");
            let _ = std::fs::create_dir_all(&current);
            let current = current.join(format!("{}-{}.json", opts.id, shard));
            let id = opts.id.clone();
            let body = move || {
                let mut seed = [0u8; 32];
                for i in 0..4u64 {
                    seed[i as usize * 8..][..8]
                        .copy_from_slice(&crate::sim::mix(k ^ (i << 56)).to_le_bytes());
                }
                let mut runner = TestRunner::new_with_rng(
                    Config {
                        failure_persistence: None,
                        max_shrink_iters: 0,
                        ..Config::default()
                    },
                    TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                );
                let strategy = (part.strategy)();
                for _ in 0..quota {
                    if stop.load(Ordering::Relaxed) || start.elapsed() > limit {
                        break;
                    }
                    let mut tree = match strategy.new_tree(&mut runner) {
                        Ok(t) => t,
                        Err(_) => continue,
                    };
                    let case = tree.current();
                    shared.lock().unwrap().current[shard] = Some((Instant::now(), case.clone()));
                    // kept for a crash of the whole process
                    let _ = std::fs::write(
                        &current,
                        serde_json::to_string(&serde_json::json!({
                            "property": id, "part": part.name, "case": &case,
                        }))
                        .unwrap(),
                    );
                    let out = guarded(&part, &case);
                    done.fetch_add(1, Ordering::Relaxed);
                    let mut sh = shared.lock().unwrap();
                    sh.current[shard] = None;
                    sh.evaluations += 1;
                    let out = match out {
                        Ok(o) => o,
                        Err(e) => {
                            sh.panics += 1;
                            sh.panic_detail.get_or_insert(e);
                            continue;
                        }
                    };
                    sh.stats.merge(&out.stats);
                    if out.nontrivial {
                        let mut h = DefaultHasher::new();
                        case.hash(&mut h);
                        let hv = h.finish();
                        if sh.hashes.insert(hv) && sh.samples.len() < 4 {
                            let s = shorten(serde_json::to_string(&case).unwrap());
                            sh.samples.push((hv, s));
                        }
                    }
                    match out.verdict {
                        Verdict::Ok => (),
                        Verdict::Inconclusive => sh.inconclusive += 1,
                        Verdict::Irrelevant(d) => {
                            sh.irrelevant += 1;
                            sh.first_irrelevant.get_or_insert(d);
                        }
                        Verdict::Violation(d) => {
                            drop(sh);
                            stop.store(true, Ordering::Relaxed);
                            // shrink
                            let t0 = Instant::now();
                            let mut best = (d, case);
                            let mut iters = 0;
                            let mut ok = tree.simplify();
                            while ok && iters < 3000 && t0.elapsed() < Duration::from_secs(25) {
                                iters += 1;
                                let c = tree.current();
                                shared.lock().unwrap().current[shard] =
                                    Some((Instant::now(), c.clone()));
                                let failed = match guarded(&part, &c) {
                                    Ok(Outcome {
                                        verdict: Verdict::Violation(d),
                                        ..
                                    }) => Some(d),
                                    _ => None,
                                };
                                ok = match failed {
                                    Some(d) => {
                                        best = (d, c);
                                        tree.simplify()
                                    }
                                    None => tree.complicate(),
                                };
                            }
                            let mut sh = shared.lock().unwrap();
                            sh.current[shard] = None;
                            sh.violations.push((shard, best.0, best.1));
                            return;
                        }
                    }
                }
            };
            handles.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(body)
                    .unwrap(),
            );
        }
        // Watchdog: a case that never ends is a hang of the implementation.
        let hang = Duration::from_secs(120);
        loop {
            if handles.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
            let sh = shared.lock().unwrap();
            let stuck = sh
                .current
                .iter()
                .flatten()
                .find(|(t, _)| t.elapsed() > hang)
                .cloned();
            drop(sh);
            if let Some((_, case)) = stuck {
                let why = "the implementation does not terminate on this case (over 120 s)";
                let path = write_replay(opts, &part, &case, why);
                report.violation = Some((why.to_string(), path));
                break;
            }
        }
        for shard in 0..threads {
            let _ = std::fs::remove_file(
                opts.build
                    .join("current")
                    .join(format!("{}-{}.json", opts.id, shard)),
            );
        }
        let sh = shared.lock().unwrap();
        report.evaluations += sh.evaluations;
        report.distinct += sh.hashes.len() as u64;
        report.irrelevant += sh.irrelevant;
        report.inconclusive += sh.inconclusive;
        report.panics += sh.panics;
        report.rules.push(format!("{}: {}", part.name, part.rule));
        for (_, s) in &sh.samples {
            report.samples.push(format!("{}: {}", part.name, s));
        }
        if report.first_irrelevant.is_none() {
            report.first_irrelevant = sh.first_irrelevant.clone();
        }
        if let Some(p) = &sh.panic_detail {
            eprintln!("harness panic in {}: {}", part.name, p);
        }
        report.parts.push(serde_json::json!({
            "part": part.name,
            "evaluations": sh.evaluations,
            "planned": total,
            "distinct_nontrivial": sh.hashes.len(),
            "inconclusive": sh.inconclusive,
            "other_property_broken": sh.irrelevant,
            "counters": sh.stats.c,
            "wall_s": start.elapsed().as_secs_f64(),
        }));
        // the smallest minimal case of all the shards
        if let Some((_, d, c)) = sh
            .violations
            .iter()
            .min_by_key(|v| serde_json::to_string(&v.2).unwrap().len())
        {
            let path = write_replay(opts, &part, c, d);
            report.violation = Some((d.clone(), path));
        }
    }
}

pub fn finish(opts: &Opts, report: Report, start: Instant, evidence: Option<PathBuf>) -> i32 {
    let violations = report.violation.is_some() as u64;
    if let (Some(path), None) = (&evidence, &opts.replay) {
        let v = serde_json::json!({
            "property": opts.id,
            "tier": opts.tier,
            "seed": opts.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": report.evaluations,
                "distinct_nontrivial": report.distinct,
                "rule": report.rules.join("; "),
                "samples": report.samples,
                "inconclusive": report.inconclusive,
                "other_property_broken": report.irrelevant,
                "parts": report.parts,
            },
            "assumptions": crate::checks::ASSUMPTIONS,
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
    }
    if let Some(d) = &report.first_irrelevant {
        eprintln!("note: another property is broken in some cases: {}", d);
    }
    println!(
        "{} {} seed={} evaluations={} nontrivial={} inconclusive={} other={} panics={} wall={:.1}s",
        opts.id,
        opts.tier,
        opts.seed,
        report.evaluations,
        report.distinct,
        report.inconclusive,
        report.irrelevant,
        report.panics,
        start.elapsed().as_secs_f64()
    );
    match report.violation {
        Some((d, path)) => {
            println!("{}", d);
            println!("VIOLATION property={} replay={}", opts.id, path.display());
            1
        }
        None => 0,
    }
}
