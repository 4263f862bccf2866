mod bounds;
mod checks;
mod exotic;
mod richrx;
mod family;
mod heavy;
mod history;
mod items;
mod probe;
mod reject;
mod tokens;
mod ws;

use family::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::Instant;
use ws::*;

pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64;
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(Run { id, tier: if tier == "thorough" { tier } else { "quick".into() }, seed });
        }
        Some("replay") => {
            let t = std::fs::read_to_string(a.get(2).map(|s| s.as_str()).unwrap_or("")).unwrap_or_else(|e| infra(e.to_string()));
            let r: Replay = serde_json::from_str(&t).unwrap_or_else(|e| infra(e.to_string()));
            println!("{}", r.source);
            match replay_unit(&r) {
                Some((k, w)) => {
                    println!("reproduced: {k}: {w}");
                    std::process::exit(1)
                }
                None => println!("not reproduced"),
            }
        }
        Some("setup") => {
            // compiles what all generated programs depend on
            for id in ["C05", "C16", "C22"] {
                for f in checks::families(id, "quick") {
                    let f = Family { units: 8, cases: 1, ..f };
                    let (mut rep, mut feats) = (Report::default(), BTreeMap::new());
                    check_family("setup", &f, 1, 0.0, &mut rep, &mut feats);
                }
            }
        }
        Some("show") => {
            // pdv show <ID> <n>: sources of generated units
            let id = a[2].clone();
            for f in checks::families(&id, "quick") {
                let f = Family { units: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5), ..f };
                for m in f.generate(1) {
                    println!("// {} unit {}\n{}", f.name, m.unit.id, pd_model::codegen::source(&m.unit, &f.opts()));
                }
            }
        }
        _ => infra("usage: pdv check <ID> | replay <file>"),
    }
}

fn check(r: Run) {
    let start = Instant::now();
    let ev_path = verif().join("evidence").join(format!("{}.json", r.id));
    let rp_dir = verif().join("evidence").join("replay");
    std::fs::create_dir_all(&rp_dir).unwrap_or_else(|e| infra(e.to_string()));
    let _ = std::fs::remove_file(&ev_path);
    let mut rep = Report::default();
    let mut feats: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let fams = checks::families(&r.id, &r.tier);
    let items = checks::items(&r.id, &r.tier);
    let sets = probe::sets(&r.id, &r.tier);
    if fams.is_empty() && items.is_empty() && sets.is_empty() {
        infra(format!("no check for {}", r.id));
    }
    let budget = if r.tier == "thorough" { 600.0 } else { 0.0 };
    let mut round = 0u64;
    let mut names: Vec<String> = vec![];
    loop {
        for f in &fams {
            if !names.contains(&f.name) {
                names.push(f.name.clone());
            }
            let seed = r.seed.wrapping_mul(1_000_003).wrapping_add(round.wrapping_mul(104_729)).wrapping_add(hash(&f.name));
            found.extend(check_family(&r.id, f, seed, 60.0, &mut rep, &mut feats));
            if !found.is_empty() {
                break;
            }
        }
        for (name, make, n) in &items {
            if !found.is_empty() {
                break;
            }
            if !names.contains(&name.to_string()) {
                names.push(name.to_string());
            }
            let seed = r.seed.wrapping_mul(1_000_003).wrapping_add(round.wrapping_mul(104_729)).wrapping_add(hash(name));
            found.extend(items::check_items(&r.id, name, *make, *n, seed, &mut rep, &mut feats));
        }
        for set in &sets {
            if !found.is_empty() {
                break;
            }
            if !names.contains(&set.name.to_string()) {
                names.push(set.name.to_string());
            }
            let seed = r.seed.wrapping_mul(1_000_003).wrapping_add(round.wrapping_mul(104_729)).wrapping_add(hash(set.name));
            found.extend(probe::check(&r.id, set, seed, &mut rep, &mut feats));
        }
        round += 1;
        if !found.is_empty() || start.elapsed().as_secs_f64() >= budget {
            break;
        }
    }
    let rule = checks::rule(&r.id);
    let mut lines = vec![];
    found.sort_by_key(|f| f.size);
    for (i, f) in found.iter().enumerate() {
        let p = rp_dir.join(format!("{}-{i}.json", r.id));
        std::fs::write(&p, serde_json::to_string_pretty(&f.replay).unwrap()).unwrap_or_else(|e| infra(e.to_string()));
        println!("{}\n{}", f.replay.what, f.replay.source);
        lines.push(format!("VIOLATION property={} replay={}", r.id, p.display()));
    }
    let mut samples = std::mem::take(&mut rep.samples);
    if samples.len() > 12 {
        let step = samples.len() / 12;
        samples = samples.into_iter().step_by(step).take(12).collect();
    }
    if samples.is_empty() {
        samples.push(json!("no case was run before the violation"));
    }
    let ev = json!({
        "property": r.id, "tier": r.tier, "seed": r.seed as i64, "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.distinct_nontrivial,
            "rule": rule,
            "samples": samples,
            "rounds": round,
            "families": names,
            "case_classes": rep.counters,
            "definition_features": feats,
        },
        "assumptions": checks::ASSUMPTIONS,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    std::fs::write(&ev_path, serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| infra(e.to_string()));
    for l in &lines {
        println!("{l}");
    }
    std::process::exit(if lines.is_empty() { 0 } else { 1 });
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
}
