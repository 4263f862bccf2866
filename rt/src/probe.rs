//! Probes: named questions asked of the real code over proptest-generated choice vectors.
use crate::run::{Failure, Report, RunCfg};
pub use pd_model::src::Src;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what a probe says about a case it generated
pub struct Case {
    pub kind: &'static str,
    pub input: String,
    pub expected: String,
    pub actual: String,
    pub nontrivial: bool,
}
impl Case {
    pub fn new(kind: &'static str, input: impl Into<String>, expected: String, actual: String, nontrivial: bool) -> Case {
        Case { kind, input: input.into(), expected, actual, nontrivial }
    }
}
/// one call generates one case, asks the real code, and reports every comparison it made
pub type Ask = fn(&mut Src, &mut Vec<Case>);
pub struct Probe {
    pub name: String,
    pub ask: Ask,
}
pub fn probe(name: impl Into<String>, ask: Ask) -> Probe {
    Probe { name: name.into(), ask }
}
/// the text of a result, or of a panic of the code under test
pub fn caught<R: std::fmt::Debug>(f: impl FnOnce() -> R) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => format!("{r:?}"),
        Err(p) => format!("panic: {}", message(p)),
    }
}
fn message(p: Box<dyn std::any::Any + Send>) -> String {
    match p.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => p.downcast_ref::<&str>().map_or("?".into(), |s| s.to_string()),
    }
}
fn h64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Stats {
    evals: u64,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<serde_json::Value>,
}

fn one(i: usize, p: &Probe, c: &[u32], stats: Option<&RefCell<Stats>>) -> Result<(), Failure> {
    let mut cases = vec![];
    (p.ask)(&mut Src::new(c), &mut cases);
    if let Some(s) = stats {
        let mut s = s.borrow_mut();
        for k in &cases {
            s.evals += 1;
            let class = format!("{}/{}", k.kind, if k.nontrivial { "non-trivial" } else { "trivial" });
            *s.counters.entry(class).or_default() += 1;
            if k.nontrivial {
                let h = h64((i, k.kind, &k.input));
                if s.distinct.insert(h) && s.samples.len() < 60 && h % 11 == 0 {
                    let cut = |t: &str| t.chars().take(120).collect::<String>();
                    s.samples.push(serde_json::json!({"probe": p.name, "kind": k.kind, "input": cut(&k.input), "expected": cut(&k.expected)}));
                }
            }
        }
    }
    for k in cases {
        if k.expected != k.actual {
            return Err(Failure {
                unit: i,
                kind: k.kind.into(),
                def: p.name.clone(),
                input: k.input,
                expected: k.expected,
                actual: k.actual,
                choices: c.to_vec(),
            });
        }
    }
    Ok(())
}

fn run(i: usize, p: &Probe, cfg: &RunCfg, stats: &RefCell<Stats>) -> Result<(), Failure> {
    if let Some(c) = &cfg.choices {
        return one(i, p, c, Some(stats));
    }
    let mut runner = TestRunner::new(Config {
        cases: cfg.cases,
        failure_persistence: None,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(cfg.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ h64(&p.name)),
        max_shrink_iters: 4000,
        ..Config::default()
    });
    let frozen = std::cell::Cell::new(false);
    let last: RefCell<Option<Failure>> = RefCell::new(None);
    let r = runner.run(&proptest::collection::vec(proptest::num::u32::ANY, 0..300), |c| {
        match one(i, p, &c, if frozen.get() { None } else { Some(stats) }) {
            Ok(()) => Ok(()),
            Err(f) => {
                frozen.set(true);
                let m = f.kind.clone();
                *last.borrow_mut() = Some(f);
                Err(TestCaseError::fail(m))
            }
        }
    });
    match r {
        Ok(()) => Ok(()),
        Err(TestError::Fail(_, min)) => Err(one(i, p, &min, None).err().unwrap_or_else(|| last.into_inner().unwrap())),
        Err(TestError::Abort(r)) => panic!("harness: proptest gave up: {r}"),
    }
}

/// args: cfg.json out.json
pub fn main(entries: &[fn() -> Vec<Probe>]) {
    let args: Vec<String> = std::env::args().collect();
    let cfg: RunCfg = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    if std::env::var_os("PD_TRACE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut rep = Report::default();
    let stats = RefCell::new(Stats::default());
    let probes: Vec<Probe> = entries.iter().flat_map(|e| e()).collect();
    for (i, p) in probes.iter().enumerate() {
        if std::env::var("PD_ONLY").is_ok_and(|o| o != p.name) {
            continue;
        }
        rep.units += 1;
        match catch_unwind(AssertUnwindSafe(|| run(i, p, &cfg, &stats))) {
            Ok(Ok(())) => {}
            Ok(Err(f)) => rep.failures.push(f),
            Err(e) => rep.harness_errors.push(format!("probe {}: {}", p.name, message(e))),
        }
    }
    let s = stats.into_inner();
    rep.evaluations = s.evals;
    rep.distinct_nontrivial = s.distinct.len() as u64;
    rep.counters = s.counters;
    rep.samples = s.samples;
    std::fs::write(&args[2], serde_json::to_string(&rep).unwrap()).unwrap();
}
