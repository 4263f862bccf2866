//! Checks made of probes: hand-shaped programs with generated inputs.
use crate::family::*;
use crate::ws::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

pub struct Set {
    pub name: &'static str,
    pub files: Vec<(String, String)>,
    pub cases: u32,
}

fn c09() -> Vec<(String, String)> {
    let mut v = vec![];
    let src = include_str!("probes/c09.rs");
    let mut add = |name: &str, ty: &str, kind: &str, free: &str, bits: &str| {
        let t = src
            .replace("TYPE", ty)
            .replace("\"KIND\"", &format!("{kind:?}"))
            .replace("= FREE;", &format!("= {free};"))
            .replace("BITS", bits)
            .replace("NAME/", &format!("{ty}/"));
        v.push((format!("t_{name}.rs"), t));
    };
    let std = "format!(\"{x:?}\")";
    for p in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
        add(p, p, "int", "false", std);
        add(&format!("nz_{p}"), &format!("std::num::NonZero<{p}>"), "int", "false", std);
    }
    for p in ["f32", "f64"] {
        add(p, p, "float", "false", "format!(\"{:x}\", x.to_bits())");
    }
    add("bool", "bool", "bool", "false", std);
    add("char", "char", "char", "false", std);
    add("string", "String", "free", "true", std);
    add("osstring", "std::ffi::OsString", "free", "true", std);
    add("pathbuf", "std::path::PathBuf", "free", "true", "format!(\"{:?}\", x.as_os_str())");
    v
}

pub fn sets(id: &str, tier: &str) -> Vec<Set> {
    let k = if tier == "thorough" { 8 } else { 1 };
    match id {
        "C09" => vec![Set { name: "types", files: c09(), cases: 4000 * k }],
        "C20" => vec![Set { name: "lists", files: vec![("lists.rs".into(), include_str!("probes/c20.rs").into())], cases: 12000 * k }],
        _ => vec![],
    }
}

fn main_rs(mods: &BTreeSet<String>) -> String {
    let mut s = String::from("#![allow(unused, deprecated)]\n");
    for m in mods {
        s += &format!("mod {m};\n");
    }
    s += "fn main() { pd_rt::probe::main(&[";
    for m in mods {
        s += &format!("{m}::entry, ");
    }
    s += "]) }\n";
    s
}

struct Out {
    rep: Report,
    dropped: Vec<CompileError>,
}

fn execute(ws_name: &str, set: &Set, cfg: &RunCfg, only: Option<&str>) -> Out {
    let mut ws = Ws::new(ws_name, "gen");
    let bins = 8.min(set.files.len());
    let deps = rt_dep(true)
        + &pd_dep(None, true)
        + &format!("parse-display-with = {{ path = \"{}\" }}\nregex = \"1\"\n", repo().join("parse-display-with").display());
    for b in 0..bins {
        let files = set.files.iter().enumerate().filter(|(i, _)| i % bins == b).map(|x| x.1.clone()).collect();
        ws.crates.push(Krate {
            name: format!("{ws_name}-b{b}"),
            edition: EDITIONS[b % 8],
            deps: deps.clone(),
            files,
            main: main_rs,
            fixed: BTreeSet::new(),
            lib: false,
        });
    }
    let (exes, dropped) = ws.build_dropping(10);
    let cp = ws.dir.join("cfg.json");
    std::fs::write(&cp, serde_json::to_string(cfg).unwrap()).unwrap_or_else(|e| infra(e.to_string()));
    let hs: Vec<_> = ws
        .crates
        .iter()
        .enumerate()
        .map(|(b, k)| {
            let exe = exes.get(&k.name).cloned().unwrap_or_else(|| infra(format!("no executable for {}", k.name)));
            let (cp, op) = (cp.clone(), ws.dir.join(format!("out-{b}.json")));
            let only = only.map(|s| s.to_string());
            std::thread::spawn(move || {
                let env: Vec<(&str, &str)> = only.iter().map(|o| ("PD_ONLY", o.as_str())).collect();
                match run(&exe, &[cp.to_str().unwrap(), op.to_str().unwrap()], Duration::from_secs(400), &env) {
                    Ran::Done(0, _) => std::fs::read_to_string(&op)
                        .ok()
                        .and_then(|t| serde_json::from_str::<Report>(&t).ok())
                        .unwrap_or_else(|| infra("no report from a probe")),
                    Ran::Done(_, o) => infra(format!("a probe program failed: {o}")),
                    Ran::Crashed(o) => {
                        let mut r = Report::default();
                        r.failures.push(crash(&exe.display().to_string(), format!("crashed: {o}")));
                        r
                    }
                    Ran::Timeout => {
                        let mut r = Report::default();
                        r.failures.push(crash(&exe.display().to_string(), "no answer in 400 s".into()));
                        r
                    }
                }
            })
        })
        .collect();
    let mut rep = Report::default();
    for h in hs {
        rep.merge(h.join().unwrap_or_else(|_| infra("runner thread")));
    }
    if !rep.harness_errors.is_empty() {
        infra(format!("harness: {}", rep.harness_errors.join("\n")));
    }
    Out { rep, dropped }
}
fn crash(def: &str, actual: String) -> Failure {
    Failure {
        unit: 0,
        kind: "crash".into(),
        def: def.into(),
        input: String::new(),
        expected: "an answer".into(),
        actual,
        choices: vec![],
    }
}

pub fn check(prop: &str, set: &Set, seed: u64, rep: &mut Report, feats: &mut BTreeMap<String, u64>) -> Vec<Found> {
    let t = Instant::now();
    let cfg = RunCfg { flags: String::new(), cases: set.cases, seed, only: None, choices: None };
    let o = execute(&format!("{}-{}", prop.to_lowercase(), set.name), set, &cfg, None);
    eprintln!("[{prop}/{}] {} probes, {} evaluations, {:.1}s", set.name, o.rep.units, o.rep.evaluations, t.elapsed().as_secs_f64());
    *feats.entry("probes".into()).or_default() += o.rep.units as u64;
    let mut found = vec![];
    let mut push = |kind: &str, what: String, source: String, failure: Option<Failure>, messages: Vec<String>| {
        if found.len() < 3 {
            found.push(Found {
                size: what.len(),
                replay: Replay {
                    property: prop.into(),
                    family: "probe".into(),
                    kind: kind.into(),
                    what,
                    source,
                    unit: None,
                    run: Some(RunCfg { choices: failure.as_ref().filter(|f| !f.choices.is_empty()).map(|f| f.choices.clone()), ..cfg.clone() }),
                    surround: "Plain".into(),
                    krate: None,
                    std: true,
                    macros: false,
                    edition: String::new(),
                    failure,
                    messages,
                    case: None,
                },
            });
        }
    };
    let mut rep1 = o.rep;
    let mut fails = std::mem::take(&mut rep1.failures);
    fails.sort_by_key(|f| f.input.len());
    for f in fails {
        let what = format!("{} of {}: {:?}: expected {}, got {}", f.kind, f.def, f.input, f.expected, f.actual);
        push(&f.kind.clone(), what, format!("// probe {} of {prop}/{}", f.def, set.name), Some(f), vec![]);
    }
    for e in o.dropped {
        let src = format!("// {} of {prop}/{}\n{}", e.file, set.name, e.messages.join("\n"));
        push("definition-rejected", format!("a valid program does not compile: {}", e.messages.first().cloned().unwrap_or_default()), src, None, e.messages);
    }
    rep.merge(rep1);
    found
}

pub fn replay(r: &Replay) -> Option<(String, String)> {
    for set in sets(&r.property, "quick") {
        let cfg = r.run.clone()?;
        let o = execute("replay-probe", &set, &cfg, r.failure.as_ref().map(|f| f.def.as_str()).filter(|_| r.kind != "crash"));
        if r.kind == "definition-rejected" {
            if let Some(e) = o.dropped.first() {
                return Some((r.kind.clone(), e.messages.join("\n")));
            }
        }
        if let Some(f) = o.rep.failures.first() {
            return Some((f.kind.clone(), format!("{:?}: expected {}, got {}", f.input, f.expected, f.actual)));
        }
    }
    None
}
