//! Generated cargo workspaces: writing, building, attributing compiler errors, running.
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    std::env::var_os("PDV_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
pub fn repo() -> PathBuf {
    std::env::var_os("PDV_REPO").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/repo"))
}
pub fn target() -> PathBuf {
    std::env::var_os("PDV_TARGET").map(PathBuf::from).unwrap_or_else(|| verif().join("target"))
}

/// an error of the check itself: neither "held" nor "violated"
pub fn infra(msg: impl AsRef<str>) -> ! {
    eprintln!("ERROR: {}", msg.as_ref());
    std::process::exit(2)
}

#[derive(Clone)]
pub struct Krate {
    pub name: String,
    pub edition: &'static str,
    /// `[dependencies]` body
    pub deps: String,
    /// src/<file> -> text; main.rs is written by the workspace from `mods`
    pub files: BTreeMap<String, String>,
    /// body of main.rs, given the modules that are left
    pub main: fn(&BTreeSet<String>) -> String,
    /// files that must not be dropped
    pub fixed: BTreeSet<String>,
    pub lib: bool,
}

#[derive(Clone, Debug)]
pub struct CompileError {
    pub krate: String,
    pub file: String,
    pub messages: Vec<String>,
}

pub struct Built {
    pub exes: HashMap<String, PathBuf>,
    pub errors: Vec<CompileError>,
    /// crates on which the compiler died without an error message
    pub crashed: Vec<String>,
    pub crash_text: String,
}

pub struct Ws {
    pub dir: PathBuf,
    pub tgt: PathBuf,
    pub crates: Vec<Krate>,
}

pub const PROFILE: &str = r#"
[profile.dev]
debug = false
opt-level = 0
incremental = false
codegen-units = 4
debug-assertions = true
overflow-checks = true

[profile.dev.package."*"]
opt-level = 1
debug = false

[profile.dev.build-override]
opt-level = 1
codegen-units = 8
"#;

fn write_if_changed(p: &Path, text: &str) {
    if std::fs::read_to_string(p).map(|t| t == text).unwrap_or(false) {
        return;
    }
    std::fs::create_dir_all(p.parent().unwrap()).unwrap_or_else(|e| infra(format!("{}: {e}", p.display())));
    std::fs::write(p, text).unwrap_or_else(|e| infra(format!("{}: {e}", p.display())));
}

/// rt crate paths inside generated manifests
pub fn rt_dep(std: bool) -> String {
    let v = rt_dir();
    if std {
        format!("pd-rt = {{ path = \"{}\" }}\n", v.display())
    } else {
        format!("pd-rt = {{ path = \"{}\", default-features = false }}\n", v.display())
    }
}
/// `rt` has a path dependency on /repo; for experiments against another tree it is copied with that path replaced
pub fn rt_dir() -> PathBuf {
    let v = verif();
    let r = repo();
    if r == Path::new("/repo") {
        return v.join("rt");
    }
    let d = target().join("rt-alt");
    for f in ["src/lib.rs", "src/run.rs", "src/w.rs", "src/b.rs", "src/h.rs", "src/probe.rs", "src/texts.rs"] {
        write_if_changed(&d.join(f), &std::fs::read_to_string(v.join("rt").join(f)).unwrap());
    }
    let t = std::fs::read_to_string(v.join("rt/Cargo.toml")).unwrap();
    let t = t.replace("/repo/", &format!("{}/", r.display())).replace("../model", &v.join("model").display().to_string());
    write_if_changed(&d.join("Cargo.toml"), &t);
    d
}
pub fn pd_dep(rename: Option<&str>, std: bool) -> String {
    let p = repo().join("parse-display");
    let feats = if std { String::new() } else { ", default-features = false".into() };
    match rename {
        None => format!("parse-display = {{ path = \"{}\"{feats} }}\n", p.display()),
        Some(n) => format!("{n} = {{ package = \"parse-display\", path = \"{}\"{feats} }}\n", p.display()),
    }
}

/// hash of what /repo builds from
pub fn repo_hash() -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut files = vec![];
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let n = e.file_name().to_string_lossy().to_string();
            if n == "target" || n == ".git" || n == "tests" || n == "benches" {
                continue;
            }
            if p.is_dir() {
                walk(&p, out)
            } else if ["rs", "toml", "md", "lock"].contains(&p.extension().and_then(|x| x.to_str()).unwrap_or("")) {
                out.push(p)
            }
        }
    }
    walk(&repo(), &mut files);
    files.sort();
    for f in files {
        f.hash(&mut h);
        std::fs::read(&f).unwrap_or_default().hash(&mut h);
    }
    format!("{:016x}", h.finish())
}

fn cargo() -> Command {
    // a macro that never ends or eats memory becomes a compiler crash
    let mut c = Command::new("sh");
    c.args(["-c", "ulimit -t 240; ulimit -v 12000000; exec cargo \"$@\"", "cargo"]);
    c.env("CARGO_NET_OFFLINE", "true").env("CARGO_TERM_COLOR", "never").env_remove("RUSTFLAGS").env("RUST_BACKTRACE", "0");
    c
}

impl Ws {
    pub fn new(name: &str, tgt: &str) -> Ws {
        let dir = target().join("work").join(name);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| infra(format!("{}: {e}", dir.display())));
        Ws { dir, tgt: target().join(tgt), crates: vec![] }
    }
    fn write(&self) {
        let members: Vec<String> = self.crates.iter().map(|c| format!("\"{}\"", c.name)).collect();
        write_if_changed(
            &self.dir.join("Cargo.toml"),
            &format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n{PROFILE}", members.join(", ")),
        );
        let lock = self.dir.join("Cargo.lock");
        if !lock.exists() {
            std::fs::copy(verif().join("rt/Cargo.lock"), &lock).unwrap_or_else(|e| infra(format!("lock: {e}")));
        }
        for c in &self.crates {
            let d = self.dir.join(&c.name);
            write_if_changed(
                &d.join("Cargo.toml"),
                &format!(
                    "[package]\nname = \"{}\"\nversion = \"0.0.0\"\nedition = \"{}\"\npublish = false\n\n[dependencies]\n{}",
                    c.name, c.edition, c.deps
                ),
            );
            let mods: BTreeSet<String> = c.files.keys().map(|f| f.trim_end_matches(".rs").to_string()).collect();
            for (f, t) in &c.files {
                write_if_changed(&d.join("src").join(f), t);
            }
            write_if_changed(&d.join("src").join(if c.lib { "lib.rs" } else { "main.rs" }), &(c.main)(&mods));
        }
    }
    /// makes sure cargo does not reuse what it built from other contents of /repo
    fn freshen(&self) {
        let h = repo_hash();
        let mark = self.tgt.join(".repo-hash");
        let old = std::fs::read_to_string(&mark).unwrap_or_default();
        if old == h {
            return;
        }
        if !old.is_empty() {
            let out = cargo()
                .args(["clean", "--offline", "-p", "parse-display", "-p", "parse-display-derive"])
                .args(if self.uses("parse-display-with") || self.uses("pd-rt") { vec!["-p", "parse-display-with", "-p", "pd-rt"] } else { vec![] })
                .current_dir(&self.dir)
                .env("CARGO_TARGET_DIR", &self.tgt)
                .output()
                .unwrap_or_else(|e| infra(format!("cargo: {e}")));
            if !out.status.success() {
                // start over rather than trust stale output
                let _ = std::fs::remove_dir_all(&self.tgt);
            }
        }
        std::fs::create_dir_all(&self.tgt).unwrap_or_else(|e| infra(format!("{}: {e}", self.tgt.display())));
        std::fs::write(&mark, h).unwrap_or_else(|e| infra(format!("{e}")));
    }
    fn uses(&self, dep: &str) -> bool {
        self.crates.iter().any(|c| c.deps.contains(dep))
    }
    /// one cargo run; errors by (crate, file)
    pub fn build_once(&self) -> Built {
        self.write();
        self.freshen();
        let mut child = cargo()
            .args(["build", "--offline", "--message-format=json", "--keep-going", "-q"])
            .current_dir(&self.dir)
            .env("CARGO_TARGET_DIR", &self.tgt)
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| infra(format!("cargo: {e}")));
        let mut err = child.stderr.take().unwrap();
        let et = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = err.read_to_string(&mut s);
            s
        });
        let mut out = String::new();
        let mut raw = vec![];
        child.stdout.take().unwrap().read_to_end(&mut raw).unwrap_or_else(|e| infra(format!("cargo: {e}")));
        out.push_str(&String::from_utf8_lossy(&raw));
        let status = child.wait().unwrap_or_else(|e| infra(format!("cargo: {e}")));
        let stderr = et.join().unwrap_or_default();
        let mut exes = HashMap::new();
        let mut errs: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
        let names: BTreeSet<&str> = self.crates.iter().map(|c| c.name.as_str()).collect();
        let mut foreign = vec![];
        for line in out.lines() {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            match v["reason"].as_str() {
                Some("compiler-artifact") => {
                    if let (Some(n), Some(e)) = (v["target"]["name"].as_str(), v["executable"].as_str()) {
                        exes.insert(n.to_string(), PathBuf::from(e));
                    }
                }
                Some("compiler-message") => {
                    let m = &v["message"];
                    if m["level"].as_str().is_none_or(|l| !l.starts_with("error")) {
                        continue;
                    }
                    let name = v["target"]["name"].as_str().unwrap_or("").to_string();
                    let text = m["rendered"].as_str().unwrap_or("").to_string();
                    if !names.contains(name.as_str()) && !names.contains(name.replace('_', "-").as_str()) {
                        foreign.push(text);
                        continue;
                    }
                    let krate = if names.contains(name.as_str()) { name } else { name.replace('_', "-") };
                    let mut fs = BTreeSet::new();
                    files_of(m, &mut fs);
                    if fs.is_empty() {
                        // "aborting due to ..." and the like
                        if !text.contains("aborting due to") && !text.contains("could not compile") {
                            errs.entry((krate, String::new())).or_default().push(text);
                        }
                        continue;
                    }
                    for f in fs {
                        errs.entry((krate.clone(), f)).or_default().push(text.clone());
                    }
                }
                _ => {}
            }
        }
        if !foreign.is_empty() {
            infra(format!("/repo or the harness does not compile:\n{}", foreign.join("\n")));
        }
        let errors: Vec<CompileError> =
            errs.into_iter().map(|((krate, file), messages)| CompileError { krate, file, messages }).collect();
        let mut crashed = vec![];
        if !status.success() {
            for c in &self.crates {
                let us = c.name.replace('-', "_");
                let by_signal = stderr
                    .split(&format!("could not compile `{}`", c.name))
                    .skip(1)
                    .any(|t| t.split("could not compile").next().unwrap_or("").contains("(signal: "));
                if by_signal {
                    crashed.push(c.name.clone());
                    continue;
                }
                if stderr.contains(&format!("could not compile `{}`", c.name))
                    && !errors.iter().any(|e| e.krate == c.name)
                    && !exes.contains_key(&c.name)
                    && !exes.contains_key(&us)
                {
                    crashed.push(c.name.clone());
                }
            }
            if errors.is_empty() && crashed.is_empty() {
                infra(format!("cargo failed:\n{stderr}"));
            }
        }
        let crash_text = if crashed.is_empty() { String::new() } else { stderr.lines().filter(|l| !l.contains("process didn't exit") && !l.starts_with('/') && !l.is_empty()).take(12).collect::<Vec<_>>().join("\n") };
        Built { exes, errors, crashed, crash_text }
    }
    /// the files of a crate on which the compiler itself dies
    fn crashers(&self, k: &Krate) -> Vec<(String, String)> {
        let mut groups: Vec<Vec<String>> = vec![k.files.keys().filter(|f| !k.fixed.contains(*f)).cloned().collect()];
        let mut bad = vec![];
        while !groups.is_empty() {
            let mut parts = vec![];
            for g in &groups {
                for c in g.chunks(g.len().div_ceil(12).max(1)) {
                    parts.push(c.to_vec());
                }
            }
            let mut ws = Ws { dir: self.dir.join("crash"), tgt: self.tgt.clone(), crates: vec![] };
            let _ = std::fs::remove_dir_all(&ws.dir);
            for (i, p) in parts.iter().enumerate() {
                let files = k.files.iter().filter(|(f, _)| p.contains(f) || k.fixed.contains(*f)).map(|(a, b)| (a.clone(), b.clone())).collect();
                ws.crates.push(Krate { name: format!("{}-c{i}", k.name), files, ..k.clone() });
            }
            let b = ws.build_once();
            groups.clear();
            for (i, p) in parts.into_iter().enumerate() {
                if b.crashed.contains(&format!("{}-c{i}", k.name)) {
                    if p.len() == 1 {
                        bad.push((p[0].clone(), b.crash_text.clone()));
                    } else {
                        groups.push(p);
                    }
                }
            }
            let _ = std::fs::remove_dir_all(&ws.dir);
        }
        bad
    }
    /// builds, dropping modules that do not compile; returns executables and what was dropped
    pub fn build_dropping(&mut self, max_rounds: usize) -> (HashMap<String, PathBuf>, Vec<CompileError>) {
        let (a, b, _) = self.build_dropping_until(max_rounds, 5);
        (a, b)
    }
    /// from round `give_up` on, crates that still fail are left out as a whole; the third result names their files
    pub fn build_dropping_until(&mut self, max_rounds: usize, give_up: usize) -> (HashMap<String, PathBuf>, Vec<CompileError>, BTreeSet<String>) {
        let mut skipped = BTreeSet::new();
        let mut dropped: Vec<CompileError> = vec![];
        for round in 0..max_rounds {
            let b = self.build_once();
            if b.errors.is_empty() && b.crashed.is_empty() {
                return (b.exes, dropped, skipped);
            }
            let mut any = false;
            if std::env::var_os("PDV_DEBUG").is_some() {
                eprintln!("round: {} errors, crashed {:?} {}", b.errors.len(), b.crashed, b.crash_text);
            }
            for e in &b.errors {
                let Some(k) = self.crates.iter_mut().find(|c| c.name == e.krate) else { continue };
                if k.fixed.contains(&e.file) {
                    infra(format!("harness file {} does not compile:\n{}", e.file, e.messages.join("\n")));
                }
                if k.files.remove(&e.file).is_some() {
                    any = true;
                    dropped.push(e.clone());
                }
            }
            if !any || dropped.is_empty() {
                for c in &b.crashed {
                    let k = self.crates.iter().find(|k| &k.name == c).unwrap().clone();
                    for (f, text) in self.crashers(&k) {
                        self.crates.iter_mut().find(|k| &k.name == c).unwrap().files.remove(&f);
                        any = true;
                        dropped.push(CompileError {
                            krate: c.clone(),
                            file: f,
                            messages: vec![format!("the compiler crashed while expanding this definition\n{text}")],
                        });
                    }
                }
            }
            if round >= give_up && !dropped.is_empty() {
                // enough is known; leave out what still fails
                let mut bad: BTreeSet<String> = b.crashed.iter().cloned().collect();
                bad.extend(b.errors.iter().map(|e| e.krate.clone()));
                for k in self.crates.iter_mut().filter(|k| bad.contains(&k.name)) {
                    let fixed = k.fixed.clone();
                    skipped.extend(k.files.keys().filter(|f| !fixed.contains(*f)).cloned());
                    k.files.retain(|f, _| fixed.contains(f));
                    any = true;
                }
            }
            if !any {
                infra(format!("compiler errors outside the generated definitions\n{}", b.errors.iter().flat_map(|e| e.messages.clone()).collect::<Vec<_>>().join("\n")));
            }
        }
        infra("too many rounds of compiler errors")
    }
}

/// the generated files a message points at
fn files_of(m: &Value, out: &mut BTreeSet<String>) {
    fn span(s: &Value, out: &mut BTreeSet<String>) -> bool {
        let mut cur = s;
        let mut hit = None;
        loop {
            if let Some(f) = cur["file_name"].as_str() {
                let p = Path::new(f);
                let n = p.file_name().and_then(|x| x.to_str()).unwrap_or("");
                let in_ws = f.contains("/src/") && !f.starts_with('/') || f.starts_with("src/");
                if in_ws && n != "main.rs" && n != "lib.rs" {
                    hit = Some(n.to_string());
                }
            }
            if cur["expansion"].is_object() {
                cur = &cur["expansion"]["span"];
            } else {
                break;
            }
        }
        if let Some(h) = hit {
            out.insert(h);
            return true;
        }
        false
    }
    let spans = m["spans"].as_array().cloned().unwrap_or_default();
    let mut any = false;
    for s in spans.iter().filter(|s| s["is_primary"].as_bool() == Some(true)) {
        any |= span(s, out);
    }
    if !any {
        for s in &spans {
            any |= span(s, out);
        }
    }
    if !any {
        for c in m["children"].as_array().into_iter().flatten() {
            files_of(c, out);
        }
    }
}

pub enum Ran {
    Done(i32, String),
    Timeout,
    Crashed(String),
}
pub fn run(exe: &Path, args: &[&str], limit: Duration, env: &[(&str, &str)]) -> Ran {
    let mut c = Command::new(exe);
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    for (k, v) in env {
        c.env(k, v);
    }
    let mut ch = c.spawn().unwrap_or_else(|e| infra(format!("{}: {e}", exe.display())));
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let start = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) => {
                if start.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(e) => infra(format!("wait: {e}")),
        }
    };
    let o = t1.join().unwrap_or_default();
    let e = t2.join().unwrap_or_default();
    match st {
        None => Ran::Timeout,
        Some(s) => match s.code() {
            Some(c) => Ran::Done(c, format!("{o}{e}")),
            None => Ran::Crashed(format!("{s}\n{o}{e}")),
        },
    }
}
