//! Checks made of generated modules that are compiled (or must not compile) and answer questions about themselves.
use crate::family::{choices, reductions, Failure, Found, Replay, Report, EDITIONS};
use crate::ws::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Expect {
    /// compiles and has `pub fn entry() -> pd_rt::b::Checks`
    Runs,
    Compiles,
    Rejected,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Module {
    pub text: String,
    pub expect: Expect,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub modules: Vec<Module>,
    pub features: Vec<String>,
    /// for reports
    pub shown: String,
    pub class: String,
}
#[derive(Clone)]
pub struct Bad {
    pub case: usize,
    pub kind: String,
    pub what: String,
    pub failure: Option<Failure>,
    pub messages: Vec<String>,
}
pub type Maker = fn(usize, &[u32]) -> Case;

fn main_items(mods: &BTreeSet<String>) -> String {
    let mut s = String::from("#![allow(unused, deprecated)]\n");
    for m in mods {
        s += &format!("mod {m};\n");
    }
    s += "fn main() { pd_rt::b::main(&[";
    for m in mods.iter().filter(|m| m.starts_with('r')) {
        s += &format!("{m}::entry, ");
    }
    s += "]) }\n";
    s
}

/// builds and runs; `id` of a module's entry is the case index
pub fn evaluate(ws_name: &str, cases: &[Case], rep: Option<&mut Report>) -> Vec<Bad> {
    let t0 = Instant::now();
    let mut ws = Ws::new(ws_name, "gen");
    let bins = 8.min(cases.len()).max(1);
    let deps = rt_dep(true) + &pd_dep(None, true);
    for b in 0..bins {
        let mut files = BTreeMap::new();
        for (i, c) in cases.iter().enumerate().filter(|(i, _)| i % bins == b) {
            for (k, m) in c.modules.iter().enumerate() {
                let p = if m.expect == Expect::Runs { "r" } else { "m" };
                files.insert(format!("{p}{i}_{k}.rs"), m.text.replace("@ID@", &i.to_string()));
            }
        }
        ws.crates.push(Krate {
            name: format!("{ws_name}-b{b}"),
            edition: EDITIONS[b % 8],
            deps: deps.clone(),
            files,
            main: main_items,
            fixed: BTreeSet::new(),
            lib: false,
        });
    }
    let any_reject = cases.iter().any(|c| c.modules.iter().any(|m| m.expect == Expect::Rejected));
    let (exes, dropped, skipped) = ws.build_dropping_until(16, if any_reject { 12 } else { 5 });
    let build_s = t0.elapsed().as_secs_f64();
    let dropped: BTreeMap<String, Vec<String>> = dropped.into_iter().map(|e| (e.file, e.messages)).collect();
    let mut bad = vec![];
    for (i, c) in cases.iter().enumerate() {
        for (k, m) in c.modules.iter().enumerate() {
            let f = format!("{}{i}_{k}.rs", if m.expect == Expect::Runs { "r" } else { "m" });
            if skipped.contains(&f) {
                continue;
            }
            match (m.expect, dropped.get(&f)) {
                (Expect::Rejected, None) => bad.push(Bad {
                    case: i,
                    kind: format!("accepted/{}", c.class),
                    what: format!("a definition without meaning compiles ({})", c.class),
                    failure: None,
                    messages: vec![],
                }),
                (Expect::Rejected, Some(_)) | (_, None) => {}
                (_, Some(msgs)) => bad.push(Bad {
                    case: i,
                    kind: "definition-rejected".into(),
                    what: format!("a valid definition does not compile: {}", msgs.first().cloned().unwrap_or_default()),
                    failure: None,
                    messages: msgs.clone(),
                }),
            }
        }
    }
    let mut out = Report::default();
    if cases.iter().any(|c| c.modules.iter().any(|m| m.expect == Expect::Runs)) {
        for (b, k) in ws.crates.iter().enumerate() {
            if k.files.is_empty() {
                continue;
            }
            let exe = exes.get(&k.name).unwrap_or_else(|| infra(format!("no executable for {}", k.name)));
            let op = ws.dir.join(format!("out-{b}.json"));
            let one = |only: Option<usize>, limit: u64| -> Result<Report, String> {
                let only = only.map(|k| k.to_string()).unwrap_or_default();
                match run(exe, &[op.to_str().unwrap(), &only], Duration::from_secs(limit), &[]) {
                    Ran::Done(0, _) => match std::fs::read_to_string(&op).ok().and_then(|t| serde_json::from_str::<Report>(&t).ok()) {
                        Some(r) => Ok(r),
                        None => infra("no report from a generated program"),
                    },
                    Ran::Done(_, o) | Ran::Crashed(o) if o.contains("harness:") => infra(format!("a generated program failed: {o}")),
                    Ran::Done(_, o) => Err(format!("panic: {o}")),
                    Ran::Crashed(o) => Err(format!("crash: {o}")),
                    Ran::Timeout => Err(format!("no answer in {limit} s")),
                }
            };
            match one(None, 120) {
                Ok(r) => out.merge(r),
                Err(whole) => {
                    // which module is it
                    let mut n = 0;
                    for (at, file) in k.files.keys().filter(|m| m.starts_with('r')).enumerate() {
                        match one(Some(at), 20) {
                            Ok(r) => out.merge(r),
                            Err(e) => {
                                n += 1;
                                let case = file[1..].split('_').next().unwrap().parse().unwrap();
                                bad.push(Bad { case, kind: "crash".into(), what: e, failure: None, messages: vec![] });
                            }
                        }
                        if n >= 2 {
                            break;
                        }
                    }
                    if n == 0 {
                        infra(format!("a generated program failed, but none of its modules alone: {whole}"));
                    }
                }
            }
        }
    }
    for f in &out.failures {
        bad.push(Bad {
            case: f.unit,
            kind: f.kind.clone(),
            what: format!("{}: expected {}, got {}", f.input, f.expected, f.actual),
            failure: Some(f.clone()),
            messages: vec![],
        });
    }
    if let Some(rep) = rep {
        eprintln!("[{ws_name}] {} cases built in {build_s:.1}s, {} questions, {} bad", cases.len(), out.evaluations, bad.len());
        out.failures.clear();
        rep.merge(out);
        *rep.counters.entry("modules compiled or rejected".into()).or_default() += cases.iter().map(|c| c.modules.len() as u64).sum::<u64>();
    }
    bad
}

pub fn check_items(prop: &str, name: &str, make: Maker, n: usize, seed: u64, rep: &mut Report, feats: &mut BTreeMap<String, u64>) -> Vec<Found> {
    let cs = choices(n, if name == "faults" { 400 } else { 200 }, seed);
    let cases: Vec<Case> = cs.iter().enumerate().map(|(i, c)| make(i, c)).collect();
    let mut seen = BTreeSet::new();
    for c in &cases {
        for f in &c.features {
            *feats.entry(f.clone()).or_default() += 1;
        }
        if !c.modules.is_empty() && c.modules.iter().all(|m| m.expect != Expect::Runs) {
            rep.evaluations += 1;
            *rep.counters.entry(c.class.clone()).or_default() += 1;
            if seen.insert(c.shown.clone()) {
                rep.distinct_nontrivial += 1;
                if rep.samples.len() < 40 && seen.len() % 17 == 1 {
                    rep.samples.push(serde_json::json!({"class": c.class, "definition": c.shown}));
                }
            }
        }
    }
    let ws_name = format!("{}-{name}", prop.to_lowercase());
    let mut bad = evaluate(&ws_name, &cases, Some(rep));
    if std::env::var_os("PDV_ALL").is_some() {
        for b in &bad {
            println!("---- case {} {}: {}\n{}", b.case, b.kind, b.what, cases[b.case].shown);
        }
    }
    bad.sort_by_key(|b| cases[b.case].shown.len());
    let mut kinds = BTreeSet::new();
    let mut found = vec![];
    for b in bad {
        if found.len() >= 3 || !kinds.insert(b.kind.clone()) {
            continue;
        }
        let mut best = (cases[b.case].clone(), cs[b.case].clone(), b.clone());
        let start = Instant::now();
        while found.is_empty() && start.elapsed().as_secs_f64() < 60.0 {
            let mut cands: Vec<(usize, Vec<u32>, Case)> = vec![];
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for t in reductions(&best.1) {
                let c = make(0, &t);
                if c.shown.len() < best.0.shown.len() && seen.insert(c.shown.clone()) {
                    cands.push((c.shown.len(), t, c));
                }
            }
            cands.sort_by_key(|c| c.0);
            let step = (cands.len() / 48).max(1);
            let cands: Vec<_> = cands.into_iter().step_by(step).take(48).collect();
            if cands.is_empty() {
                break;
            }
            let cc: Vec<Case> = cands.iter().map(|c| c.2.clone()).collect();
            let hit = evaluate(&format!("{ws_name}-shrink"), &cc, None).into_iter().filter(|x| x.kind == best.2.kind).min_by_key(|x| cands[x.case].0);
            match hit {
                Some(h) => best = (cands[h.case].2.clone(), cands[h.case].1.clone(), h),
                None => break,
            }
        }
        let (case, _, b) = best;
        found.push(Found {
            size: case.shown.len(),
            replay: Replay {
                property: prop.into(),
                family: name.into(),
                kind: b.kind,
                what: b.what,
                source: case.shown.clone(),
                unit: None,
                run: None,
                surround: "Plain".into(),
                krate: None,
                std: true,
                macros: false,
                edition: EDITIONS[b.case % 8].into(),
                failure: b.failure,
                messages: b.messages,
                case: Some(case),
            },
        });
    }
    found
}

pub fn replay(c: &Case) -> Option<(String, String)> {
    evaluate("replay-items", std::slice::from_ref(c), None).into_iter().next().map(|b| (b.kind, b.what))
}
