//! Checks made of generated definition units.
use crate::ws::*;
use pd_model::ast::*;
use pd_model::codegen::{self, Opts, Surround};
use pd_model::gen::{self, Profile};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestRunner};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunCfg {
    pub flags: String,
    pub cases: u32,
    pub seed: u64,
    pub only: Option<Vec<usize>>,
    pub choices: Option<Vec<u32>>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub unit: usize,
    pub kind: String,
    pub def: String,
    pub input: String,
    pub expected: String,
    pub actual: String,
    #[serde(default)]
    pub choices: Vec<u32>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub units: usize,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failures: Vec<Failure>,
    pub harness_errors: Vec<String>,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.units += o.units;
        self.evaluations += o.evaluations;
        self.distinct_nontrivial += o.distinct_nontrivial;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.failures.extend(o.failures);
        self.harness_errors.extend(o.harness_errors);
    }
}

/// a family of units: one profile, one way of rendering, one set of comparisons
#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub profile: Profile,
    pub flags: &'static str,
    pub units: usize,
    pub cases: u32,
    pub surround: Surround,
    pub krate: Option<&'static str>,
    pub std: bool,
    pub macros: bool,
    /// keep a unit only if it has one of these features (empty: keep all)
    pub want: &'static [&'static str],
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub family: String,
    pub kind: String,
    pub what: String,
    pub source: String,
    pub unit: Option<Unit>,
    pub run: Option<RunCfg>,
    pub surround: String,
    pub krate: Option<String>,
    pub std: bool,
    #[serde(default)]
    pub macros: bool,
    pub edition: String,
    pub failure: Option<Failure>,
    pub messages: Vec<String>,
    /// for checks made of hand-shaped modules
    #[serde(default)]
    pub case: Option<crate::items::Case>,
}

#[derive(Clone)]
pub struct Made {
    pub unit: Unit,
    pub choices: Vec<u32>,
}

pub fn choices(n: usize, len: usize, seed: u64) -> Vec<Vec<u32>> {
    let mut r = TestRunner::new(Config {
        failure_persistence: None,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5bd1_e995),
        ..Config::default()
    });
    let s = proptest::collection::vec(proptest::num::u32::ANY, len);
    (0..n).map(|_| s.new_tree(&mut r).unwrap().current()).collect()
}

pub const EDITIONS: [&str; 8] = ["2021", "2024", "2018", "2021", "2021", "2024", "2021", "2018"];

impl Family {
    pub fn opts(&self) -> Opts {
        Opts { surround: self.surround, krate: self.krate.map(|s| s.to_string()), std: self.std, macros: self.macros }
    }
    pub fn generate(&self, seed: u64) -> Vec<Made> {
        let mut out = vec![];
        let mut round = 0u64;
        while out.len() < self.units && round < 12 {
            for c in choices(self.units, 700, seed.wrapping_add(round.wrapping_mul(7919))) {
                if out.len() >= self.units {
                    break;
                }
                let unit = gen::gen_unit(out.len(), &self.profile, &c);
                if !self.want.is_empty() {
                    let f = gen::features(&unit);
                    if !self.want.iter().any(|w| f.contains(w)) {
                        continue;
                    }
                }
                out.push(Made { unit, choices: c });
            }
            round += 1;
        }
        out
    }
    fn deps(&self) -> String {
        let mut s = rt_dep(self.std);
        match self.krate {
            None => s += &pd_dep(None, self.std),
            Some("::pdx") | Some("pdx") => s += &pd_dep(Some("pdx"), self.std),
            Some(_) => {} // reached through pd_rt
        }
        s
    }
    pub fn workspace(&self, name: &str, units: &[&Unit], bins: usize) -> Ws {
        let mut ws = Ws::new(name, if self.std { "gen" } else { "gen-nostd" });
        for b in 0..bins {
            let mut files = BTreeMap::new();
            for u in units.iter().enumerate().filter(|(i, _)| i % bins == b).map(|x| x.1) {
                files.insert(format!("u{}.rs", u.id), codegen::module(u, &self.opts()));
            }
            ws.crates.push(Krate {
                name: format!("{name}-b{b}"),
                edition: EDITIONS[b % 8],
                deps: self.deps(),
                files,
                main: if self.surround == Surround::NoStd {
                    main_nostd
                } else if self.krate.is_some_and(|k| k.starts_with("crate::")) {
                    main_local
                } else {
                    main_rs
                },
                fixed: BTreeSet::new(),
                lib: false,
            });
        }
        ws
    }
}
fn main_nostd(mods: &BTreeSet<String>) -> String {
    main_rs(mods).replacen("\n", "\n#![no_std]\nextern crate std as hstd;\n", 1)
}
/// the crate known by a path inside the user's own crate
fn main_local(mods: &BTreeSet<String>) -> String {
    main_rs(mods) + "pub mod local { pub use ::pd_rt::parse_display as r#mod; }\n"
}
fn main_rs(mods: &BTreeSet<String>) -> String {
    let mut s = String::from("#![allow(unused, deprecated, uncommon_codepoints, mixed_script_confusables, confusable_idents)]\n");
    for m in mods {
        s += &format!("mod {m};\n");
    }
    s += "fn main() { pd_rt::main(&[";
    for m in mods {
        s += &format!("{m}::entry, ");
    }
    s += "]) }\n";
    s
}

pub struct Outcome {
    pub report: Report,
    /// units that did not compile
    pub rejected: Vec<(usize, Vec<String>)>,
    pub build_s: f64,
    pub run_s: f64,
}

/// builds and runs a set of units
pub fn execute(fam: &Family, name: &str, units: &[&Unit], cfg: &RunCfg, bins: usize) -> Outcome {
    let t0 = Instant::now();
    let mut ws = fam.workspace(name, units, bins);
    let (exes, dropped) = ws.build_dropping(10);
    let build_s = t0.elapsed().as_secs_f64();
    let t1 = Instant::now();
    let all: Vec<Unit> = units.iter().map(|u| (*u).clone()).collect();
    let up = ws.dir.join("units.json");
    std::fs::write(&up, serde_json::to_string(&all).unwrap()).unwrap_or_else(|e| infra(e.to_string()));
    let mut report = Report::default();
    let left: Vec<(usize, Vec<usize>, PathBuf)> = ws
        .crates
        .iter()
        .enumerate()
        .map(|(b, k)| {
            let ids = k.files.keys().map(|f| f[1..f.len() - 3].parse().unwrap()).collect();
            let exe = exes.get(&k.name).cloned().unwrap_or_else(|| infra(format!("no executable for {}", k.name)));
            (b, ids, exe)
        })
        .collect();
    let dir = ws.dir.clone();
    let handles: Vec<_> = left
        .into_iter()
        .map(|(b, ids, exe)| {
            let cfg = cfg.clone();
            let dir = dir.clone();
            let up = up.clone();
            std::thread::spawn(move || run_bin(b, &ids, &exe, &cfg, &dir, &up))
        })
        .collect();
    for h in handles {
        report.merge(h.join().unwrap_or_else(|_| infra("runner thread")));
    }
    if !report.harness_errors.is_empty() {
        infra(format!("harness: {}", report.harness_errors.join("\n")));
    }
    let rejected = dropped.into_iter().map(|e| (e.file[1..e.file.len() - 3].parse().unwrap(), e.messages)).collect();
    Outcome { report, rejected, build_s, run_s: t1.elapsed().as_secs_f64() }
}

fn run_bin(b: usize, ids: &[usize], exe: &PathBuf, cfg: &RunCfg, dir: &PathBuf, units: &PathBuf) -> Report {
    let one = |tag: &str, only: Option<Vec<usize>>, limit: u64| -> Result<Report, String> {
        let cp = dir.join(format!("cfg-{b}-{tag}.json"));
        let op = dir.join(format!("out-{b}-{tag}.json"));
        let c = RunCfg { only: only.or(cfg.only.clone()), ..cfg.clone() };
        std::fs::write(&cp, serde_json::to_string(&c).unwrap()).unwrap_or_else(|e| infra(e.to_string()));
        let r = run(
            exe,
            &[units.to_str().unwrap(), cp.to_str().unwrap(), op.to_str().unwrap()],
            Duration::from_secs(limit),
            &[],
        );
        match r {
            Ran::Done(0, _) => match std::fs::read_to_string(&op).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(r) => Ok(r),
                None => infra("no report from a generated program"),
            },
            Ran::Done(c, o) => Err(format!("exit {c}: {}", tail(&o))),
            Ran::Crashed(o) => Err(format!("crashed: {}", tail(&o))),
            Ran::Timeout => Err(format!("no answer in {limit} s")),
        }
    };
    match one("all", None, 240) {
        Ok(r) => r,
        Err(whole) => {
            // which unit is it
            let mut rep = Report::default();
            let mut bad = 0;
            for id in ids {
                if bad >= 2 {
                    break;
                }
                match one("one", Some(vec![*id]), 30) {
                    Ok(r) => rep.merge(r),
                    Err(e) => {
                        bad += 1;
                        rep.failures.push(Failure {
                            unit: *id,
                            kind: "crash".into(),
                            def: String::new(),
                            input: String::new(),
                            expected: "an answer".into(),
                            actual: e,
                            choices: vec![],
                        })
                    }
                }
            }
            if bad == 0 {
                // none of them alone
                infra(format!("a generated program failed, but none of its units alone: {whole}"));
            }
            rep
        }
    }
}
fn tail(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    c[c.len().saturating_sub(1500)..].iter().collect()
}

pub struct Found {
    pub replay: Replay,
    pub size: usize,
}

/// One family: generate, build, run, and shrink what fails.
pub fn check_family(prop: &str, fam: &Family, seed: u64, shrink_s: f64, rep: &mut Report, feats: &mut BTreeMap<String, u64>) -> Vec<Found> {
    let made = fam.generate(seed);
    for m in &made {
        for f in gen::features(&m.unit) {
            *feats.entry(f.to_string()).or_default() += 1;
        }
    }
    let refs: Vec<&Unit> = made.iter().map(|m| &m.unit).collect();
    let cfg = RunCfg { flags: fam.flags.into(), cases: fam.cases, seed, only: None, choices: None };
    let ws_name = format!("{}-{}", prop.to_lowercase(), fam.name);
    let out = execute(fam, &ws_name, &refs, &cfg, 8);
    eprintln!(
        "[{prop}/{}] {} units built in {:.1}s, {} evaluations in {:.1}s, {} rejected, {} failures",
        fam.name,
        refs.len(),
        out.build_s,
        out.report.evaluations,
        out.run_s,
        out.rejected.len(),
        out.report.failures.len()
    );
    *rep.counters.entry("definition units compiled".into()).or_default() += (refs.len() - out.rejected.len()) as u64;
    let mut bad: Vec<(usize, String, Option<Failure>, Vec<String>)> = vec![];
    for f in &out.report.failures {
        bad.push((f.unit, f.kind.clone(), Some(f.clone()), vec![]));
    }
    for (u, m) in &out.rejected {
        bad.push((*u, "definition-rejected".into(), None, m.clone()));
    }
    let mut r = out.report;
    r.failures.clear();
    rep.merge(r);
    if std::env::var_os("PDV_ALL").is_some() {
        for (u, k, f, m) in &bad {
            let m0 = m.first().cloned().unwrap_or_default();
            println!("---- unit {u} {k} {}\n{}", f.as_ref().map(|f| format!("{} input={:?} want={} got={}", f.def, f.input, f.expected, f.actual)).unwrap_or(m0), codegen::source(&made[*u].unit, &fam.opts()));
        }
    }
    let mut found = vec![];
    // smallest first, one shrunk example per kind of failure
    bad.sort_by_key(|b| codegen::source(&made[b.0].unit, &fam.opts()).len());
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    for (u, kind, fail, msgs) in bad {
        if !kinds.insert(kind.clone()) || found.len() >= 3 {
            continue;
        }
        let m = &made[u];
        let (unit, fail, msgs) = if found.is_empty() { shrink(fam, &ws_name, m, &kind, fail, msgs, &cfg, shrink_s) } else { (m.unit.clone(), fail, msgs) };
        let src = codegen::source(&unit, &fam.opts());
        let what = match &fail {
            Some(f) => format!("{} of {}: input {:?}: expected {}, got {}", f.kind, f.def, f.input, f.expected, f.actual),
            None => format!("a valid definition does not compile: {}", msgs.first().cloned().unwrap_or_default()),
        };
        let b = u % 8;
        found.push(Found {
            size: src.len(),
            replay: Replay {
                property: prop.into(),
                family: fam.name.clone(),
                kind,
                what,
                source: src,
                run: Some(RunCfg {
                    only: Some(vec![unit.id]),
                    choices: fail.as_ref().filter(|f| !f.choices.is_empty()).map(|f| f.choices.clone()),
                    ..cfg.clone()
                }),
                unit: Some(unit),
                surround: format!("{:?}", fam.surround),
                krate: fam.krate.map(|s| s.into()),
                std: fam.std,
                macros: fam.macros,
                edition: EDITIONS[b].into(),
                failure: fail,
                messages: msgs,
                case: None,
            },
        });
    }
    found
}

/// choice-sequence reduction with batched recompiles
fn shrink(
    fam: &Family,
    ws_name: &str,
    m: &Made,
    kind: &str,
    fail: Option<Failure>,
    msgs: Vec<String>,
    cfg: &RunCfg,
    budget_s: f64,
) -> (Unit, Option<Failure>, Vec<String>) {
    let start = Instant::now();
    let mut best = (m.unit.clone(), m.choices.clone(), fail, msgs);
    let size = |u: &Unit| codegen::source(u, &fam.opts()).len();
    let mut round = 0;
    while start.elapsed().as_secs_f64() < budget_s && round < 12 {
        round += 1;
        let mut cands: Vec<(usize, Unit, Vec<u32>)> = vec![];
        let mut seen: BTreeSet<String> = BTreeSet::new();
        seen.insert(format!("{:?}", best.0.defs));
        let tries = reductions(&best.1);
        for t in tries {
            let u = gen::gen_unit(0, &fam.profile, &t);
            if size(&u) < size(&best.0) && seen.insert(format!("{:?}", u.defs)) {
                cands.push((size(&u), u, t));
            }
        }
        cands.sort_by_key(|c| c.0);
        // a spread over sizes: some aggressive, some cautious
        let k = 48.min(cands.len());
        let step = (cands.len() / k.max(1)).max(1);
        let mut cands: Vec<_> = cands.into_iter().step_by(step).take(48).collect();
        for (i, c) in cands.iter_mut().enumerate() {
            c.1.id = i;
        }
        if cands.is_empty() {
            break;
        }
        let refs: Vec<&Unit> = cands.iter().map(|c| &c.1).collect();
        let scfg = RunCfg { cases: cfg.cases.max(60), only: None, choices: None, ..cfg.clone() };
        let out = execute(fam, &format!("{ws_name}-shrink"), &refs, &scfg, 8);
        let mut hit: Option<(usize, Option<Failure>, Vec<String>)> = None;
        if kind == "definition-rejected" {
            for (u, m) in out.rejected {
                if hit.as_ref().is_none_or(|h| cands[u].0 < cands[h.0].0) {
                    hit = Some((u, None, m));
                }
            }
        } else {
            for f in out.report.failures {
                if f.kind == kind && hit.as_ref().is_none_or(|h| cands[f.unit].0 < cands[h.0].0) {
                    hit = Some((f.unit, Some(f), vec![]));
                }
            }
        }
        match hit {
            Some((i, f, m)) => best = (cands[i].1.clone(), cands[i].2.clone(), f, m),
            None => break,
        }
    }
    (best.0, best.2, best.3)
}

/// reductions of a choice sequence, most aggressive first
pub fn reductions(c: &[u32]) -> Vec<Vec<u32>> {
    let n = c.len();
    let mut tries: Vec<Vec<u32>> = vec![];
    let mut w = n.div_ceil(2).max(1);
    while w >= 1 {
        let mut i = 0;
        while i < n {
            if c[i..(i + w).min(n)].iter().any(|x| *x != 0) {
                let mut d = c.to_vec();
                d[i..(i + w).min(n)].iter_mut().for_each(|x| *x = 0);
                tries.push(d);
                let mut d = c.to_vec();
                d.drain(i..(i + w).min(n));
                d.resize(n, 0);
                tries.push(d);
            }
            i += w;
        }
        if w == 1 {
            break;
        }
        w /= 2;
    }
    tries
}

pub fn replay_unit(r: &Replay) -> Option<(String, String)> {
    if let Some(c) = &r.case {
        return crate::items::replay(c);
    }
    if r.family == "probe" {
        return crate::probe::replay(r);
    }
    let unit = r.unit.as_ref()?;
    let fam = Family {
        name: "replay".into(),
        profile: Profile::default(),
        flags: "",
        units: 1,
        cases: 1,
        surround: match r.surround.as_str() {
            "Hostile" => Surround::Hostile,
            "NoPrelude" => Surround::NoPrelude,
            "Strict" => Surround::Strict,
            "NoStd" => Surround::NoStd,
            _ => Surround::Plain,
        },
        krate: r.krate.clone().map(|s| &*Box::leak(s.into_boxed_str())),
        std: r.std,
        macros: r.macros,
        want: &[],
    };
    let cfg = r.run.clone()?;
    let out = execute(&fam, "replay", &[unit], &cfg, 1);
    if let Some((_, m)) = out.rejected.first() {
        return Some(("definition-rejected".into(), m.join("\n")));
    }
    let f = out.report.failures.first()?;
    Some((f.kind.clone(), json!(f).to_string()))
}

pub type Feats = HashMap<String, u64>;
