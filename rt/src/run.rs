//! The case runner: proptest generates choice vectors, cases are decoded from them, the real code is compared with
//! the reference model, failures are shrunk.
use crate::{Entry, Prim, Ty, V};
use pd_model::ast::{Body, Unit};
use pd_model::sem::*;
use pd_model::src::Src;
use pd_model::vgen::{self, Alpha};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RunCfg {
    /// which comparisons: D display, P parse, R round trip, X pattern, H histories, F writer faults, T totality
    pub flags: String,
    pub cases: u32,
    pub seed: u64,
    /// only these units
    pub only: Option<Vec<usize>>,
    /// run exactly these choices instead of generating
    pub choices: Option<Vec<u32>>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub unit: usize,
    pub kind: String,
    pub def: String,
    pub input: String,
    pub expected: String,
    pub actual: String,
    #[serde(default)]
    pub choices: Vec<u32>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub units: usize,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failures: Vec<Failure>,
    pub harness_errors: Vec<String>,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<serde_json::Value>,
}

struct Ctx {
    unit: Unit,
    entry: Entry,
    alpha: Alpha,
    oracle: Specs,
    stats: RefCell<Stats>,
    frozen: std::cell::Cell<bool>,
}
struct Specs(HashMap<(String, String), fn(&V) -> String>);
impl Oracle for Specs {
    fn spec(&self, ty: &Ty, spec: &str, v: &V) -> String {
        match self.0.get(&(ty.key(), spec.to_string())) {
            Some(f) => f(v),
            None => harness(format!("no rendering for {} {spec:?}", ty.key())),
        }
    }
    fn pat(&self, p: Prim) -> String {
        prim_pattern(p)
    }
}
#[cfg(feature = "std")]
fn prim_pattern(p: Prim) -> String {
    use parse_display::FromStrRegex as X;
    match p {
        Prim::U8 => u8::from_str_regex(),
        Prim::I8 => i8::from_str_regex(),
        Prim::U16 => u16::from_str_regex(),
        Prim::I16 => i16::from_str_regex(),
        Prim::U32 => u32::from_str_regex(),
        Prim::I32 => i32::from_str_regex(),
        Prim::U64 => u64::from_str_regex(),
        Prim::I64 => i64::from_str_regex(),
        Prim::U128 => u128::from_str_regex(),
        Prim::I128 => i128::from_str_regex(),
        Prim::Usize => usize::from_str_regex(),
        Prim::Isize => isize::from_str_regex(),
        Prim::F32 => f32::from_str_regex(),
        Prim::F64 => f64::from_str_regex(),
        Prim::Bool => bool::from_str_regex(),
        Prim::Char => <char as X>::from_str_regex(),
        Prim::Str => String::from_str_regex(),
    }
}
#[cfg(not(feature = "std"))]
fn prim_pattern(_: Prim) -> String {
    harness("patterns need std".into())
}

fn harness(s: String) -> ! {
    std::panic::panic_any(format!("harness: {s}"))
}
fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
/// runs the code under test; a panic of it is a result, a panic of the harness goes on
fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let s = payload(p);
            if s.starts_with("harness:") {
                std::panic::panic_any(s)
            }
            Err(s)
        }
    }
}
fn h64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

type Res = Result<(), Failure>;

impl Ctx {
    fn sem(&self) -> Sem<'_> {
        Sem { unit: &self.unit, o: &self.oracle }
    }
    fn count(&self, k: &str) {
        if !self.frozen.get() {
            *self.stats.borrow_mut().counters.entry(k.into()).or_default() += 1;
        }
    }
    fn case(&self, nontrivial: bool, kind: &str, inst: usize, text: &str, more: impl FnOnce() -> serde_json::Value) {
        if self.frozen.get() {
            return;
        }
        let mut s = self.stats.borrow_mut();
        s.evals += 1;
        if nontrivial {
            let h = h64((self.unit.id, kind, inst, text));
            if s.distinct.insert(h) && s.samples.len() < 40 && (h % 7 == 0 || s.samples.is_empty()) {
                s.samples.push(more());
            }
        }
    }
    fn name(&self, inst: usize) -> String {
        let (d, a) = &self.unit.insts[inst];
        let n = &self.unit.defs[*d].name;
        if a.is_empty() {
            n.clone()
        } else {
            format!("{n}<{}>", a.iter().map(|t| t.key()).collect::<Vec<_>>().join(","))
        }
    }
    fn fail(&self, inst: usize, kind: &str, input: String, expected: String, actual: String) -> Res {
        Err(Failure {
            unit: self.unit.id,
            kind: kind.into(),
            def: self.name(inst),
            input,
            expected,
            actual,
            choices: vec![],
        })
    }
    fn ty(&self, inst: usize) -> Ty {
        let (d, a) = &self.unit.insts[inst];
        Ty::Def(*d, a.clone())
    }

    fn display(&self, inst: usize, src: &mut Src, flagged: bool) -> Res {
        let Some(f) = self.entry.insts[inst].display else { return Ok(()) };
        let ty = self.ty(inst);
        let v = vgen::value(&ty, &self.unit, &self.alpha, src, 0);
        let want = self.sem().display(&ty, &v);
        let got = guard(|| f(&v));
        self.case(!want.is_empty(), "D", inst, &format!("{v:?}"), || {
            serde_json::json!({"unit": self.unit.id, "type": self.name(inst), "value": v, "printed": want})
        });
        self.count("display");
        match got {
            Ok(s) if s == want => {
                // the text does not depend on how the destination would like a value to be padded
                let Some(f) = self.entry.insts[inst].flagged.filter(|_| flagged) else { return Ok(()) };
                let i = src.below(8);
                match guard(|| f(&v, i)) {
                    Ok((_, s)) if s == want => Ok(()),
                    Ok((how, s)) => self.fail(inst, "display-flagged", format!("{v:?} by {how}"), format!("{want:?}"), format!("{s:?}")),
                    Err(p) => self.fail(inst, "display-panic", format!("{v:?}"), format!("{want:?}"), format!("panic: {p}")),
                }
            }
            Ok(s) => self.fail(inst, "display", format!("{v:?}"), format!("{want:?}"), format!("{s:?}")),
            Err(p) => self.fail(inst, "display-panic", format!("{v:?}"), format!("{want:?}"), format!("panic: {p}")),
        }
    }
    fn cmp_parse(&self, inst: usize, s: &str, how: &str, want: &Out, got: Result<Result<V, String>, String>) -> Res {
        match (want, got) {
            (_, Err(p)) => {
                self.fail(inst, &format!("{how}-panic"), s.into(), format!("{want:?}"), format!("panic: {p}"))
            }
            (Out::Skip, _) => Ok(()),
            (Out::Ok(v), Ok(Ok(w))) if *v == w => Ok(()),
            (Out::Err, Ok(Err(_))) => Ok(()),
            (_, Ok(g)) => self.fail(inst, how, s.into(), format!("{want:?}"), format!("{g:?}")),
        }
    }
    fn parse(&self, inst: usize, src: &mut Src) -> Res {
        let Some(f) = self.entry.insts[inst].parse else { return Ok(()) };
        let (d, a) = &self.unit.insts[inst];
        let (s, made) = vgen::input(&self.sem(), &self.alpha, *d, a, src);
        let want = self.sem().parse(&self.ty(inst), &s);
        let ok = matches!(want, Out::Ok(_));
        self.count(&format!(
            "parse/{made}/{}",
            match want {
                Out::Ok(_) => "accepted",
                Out::Err => "rejected",
                Out::Skip => "unspecified",
            }
        ));
        if want != Out::Skip {
            self.case(ok || made == "mutant", "P", inst, &s, || {
                serde_json::json!({"unit": self.unit.id, "type": self.name(inst), "input": s, "made": made, "expected": format!("{want:?}")})
            });
        }
        let got = guard(|| f(&s));
        self.cmp_parse(inst, &s, "parse", &want, got)
    }
    fn roundtrip(&self, inst: usize, src: &mut Src) -> Res {
        let (Some(show), Some(parse)) = (self.entry.insts[inst].display, self.entry.insts[inst].parse) else {
            return Ok(());
        };
        let ty = self.ty(inst);
        let v = vgen::value(&ty, &self.unit, &self.alpha, src, 0);
        let text = self.sem().display(&ty, &v);
        if self.sem().parse(&ty, &text) != Out::Ok(v.clone()) {
            self.count("roundtrip/ambiguous");
            return Ok(());
        }
        self.count("roundtrip/unambiguous");
        self.case(true, "R", inst, &format!("{v:?}"), || {
            serde_json::json!({"unit": self.unit.id, "type": self.name(inst), "value": v, "text": text})
        });
        let got = guard(|| {
            let s = show(&v);
            let r = parse(&s);
            (s, r)
        });
        match got {
            Ok((_, Ok(w))) if w == v => Ok(()),
            Ok((s, r)) => {
                self.fail(inst, "roundtrip", format!("{v:?}"), format!("{text:?} -> {v:?}"), format!("{s:?} -> {r:?}"))
            }
            Err(p) => self.fail(inst, "roundtrip-panic", format!("{v:?}"), format!("{text:?}"), format!("panic: {p}")),
        }
    }
    fn pattern(&self, inst: usize, src: &mut Src) -> Res {
        let (Some(re), Some(parse)) = (self.entry.insts[inst].re, self.entry.insts[inst].parse) else { return Ok(()) };
        let pat = match guard(re) {
            Ok(p) => p,
            Err(p) => return self.fail(inst, "pattern-panic", String::new(), "a pattern".into(), format!("panic: {p}")),
        };
        let rx = match regex::Regex::new(&format!("\\A(?:{pat})\\z")) {
            Ok(r) if regex::Regex::new(&pat).is_ok() => r,
            Ok(_) => return self.fail(inst, "pattern-invalid", pat.clone(), "a valid regex".into(), pat),
            Err(e) => return self.fail(inst, "pattern-invalid", pat, "a valid regex".into(), e.to_string()),
        };
        if rx.capture_names().flatten().next().is_some() {
            return self.fail(inst, "pattern-named-group", pat.clone(), "no named groups".into(), pat);
        }
        let (d, a) = &self.unit.insts[inst];
        let (s, made) = vgen::input(&self.sem(), &self.alpha, *d, a, src);
        let ok = matches!(guard(|| parse(&s)), Ok(Ok(_)));
        self.count(&format!("pattern/{made}/{}", if ok { "parsed" } else { "not parsed" }));
        self.case(ok, "X", inst, &s, || {
            serde_json::json!({"unit": self.unit.id, "type": self.name(inst), "parseable": s, "pattern": pat})
        });
        if ok && !rx.is_match(&s) {
            return self.fail(inst, "pattern-misses", s.clone(), format!("matched by {pat:?}"), "no match".into());
        }
        Ok(())
    }

    fn faults(&self, inst: usize, src: &mut Src) -> Res {
        let Some(f) = self.entry.insts[inst].write else { return Ok(()) };
        let ty = self.ty(inst);
        let v = vgen::value(&ty, &self.unit, &self.alpha, src, 0);
        let want = self.sem().display(&ty, &v);
        // the healthy destination
        let mut w = Faulty { log: String::new(), calls: 0, fail: Fault::Never, failed: false };
        match guard(|| f(&v, &mut w)) {
            Ok(Ok(())) if w.log == want => {}
            r => {
                return self.fail(inst, "write", format!("{v:?}"), format!("Ok {want:?}"), format!("{r:?} {:?}", w.log))
            }
        }
        let calls = w.calls;
        let mut plans: Vec<Fault> = vec![];
        for k in 0..calls.min(12) {
            plans.push(Fault::Call(k, false));
            plans.push(Fault::Call(k, true));
        }
        for b in want.char_indices().map(|x| x.0).take(16) {
            plans.push(Fault::Bytes(b));
        }
        if want.len() > 16 {
            plans.push(Fault::Bytes(want.len() - 1));
        }
        for p in plans {
            let mut w = Faulty { log: String::new(), calls: 0, fail: p, failed: false };
            let r = guard(|| f(&v, &mut w));
            let inside = match p {
                Fault::Call(k, _) => k > 0,
                Fault::Bytes(b) => b > 0,
                Fault::Never => false,
            };
            self.count(if inside { "fault/inside" } else { "fault/first" });
            self.case(true, "F", inst, &format!("{v:?}{p:?}"), || {
                serde_json::json!({"unit": self.unit.id, "type": self.name(inst), "value": v, "fault": format!("{p:?}"), "text": want})
            });
            if !w.failed {
                // the destination was never asked for more than it could take
                match r {
                    Ok(Ok(())) if w.log == want => continue,
                    r => {
                        return self.fail(
                            inst,
                            "write",
                            format!("{v:?} {p:?}"),
                            format!("Ok {want:?}"),
                            format!("{r:?} {:?}", w.log),
                        )
                    }
                }
            }
            match r {
                Ok(Err(_)) if want.starts_with(&w.log) => {}
                r => {
                    return self.fail(
                        inst,
                        "writer-fault",
                        format!("{v:?} {p:?}"),
                        format!("Err, after a prefix of {want:?}"),
                        format!("{r:?}, after {:?}", w.log),
                    )
                }
            }
        }
        Ok(())
    }

    fn history(&self, src: &mut Src) -> Res {
        let n = self.unit.insts.len();
        let k = 2 + src.below(7);
        let mut ops: Vec<(usize, String, Out)> = vec![];
        for _ in 0..k {
            let i = src.below(n);
            if self.entry.insts[i].parse.is_none() {
                continue;
            }
            let (d, a) = &self.unit.insts[i];
            let s = if !ops.is_empty() && src.pct(30) {
                ops[src.below(ops.len())].1.clone()
            } else {
                vgen::input(&self.sem(), &self.alpha, *d, a, src).0
            };
            let want = self.sem().parse(&self.ty(i), &s);
            if want != Out::Skip {
                ops.push((i, s, want));
            }
        }
        if ops.is_empty() {
            return Ok(());
        }
        let insts: HashSet<usize> = ops.iter().map(|o| o.0).collect();
        let text = format!("{:?}", ops.iter().map(|o| (o.0, &o.1)).collect::<Vec<_>>());
        self.count(if insts.len() > 1 { "history/several types" } else { "history/one type" });
        self.case(ops.len() > 1, "H", 0, &text, || {
            serde_json::json!({"unit": self.unit.id, "history": ops.iter().map(|o| (self.name(o.0), &o.1, format!("{:?}", o.2))).collect::<Vec<_>>()})
        });
        let threads = if src.below(2) == 0 { 1 } else { 2 + src.below(3) };
        let mut orders: Vec<Vec<usize>> = vec![];
        for t in 0..threads {
            let mut o: Vec<usize> = (0..ops.len()).collect();
            if t > 0 || src.pct(50) {
                src.shuffle(&mut o);
            }
            let again = o.clone();
            o.extend(again);
            orders.push(o);
        }
        let run = |o: &Vec<usize>| -> Vec<(usize, Result<Result<V, String>, String>)> {
            o.iter()
                .map(|k| {
                    let f = self.entry.insts[ops[*k].0].parse.unwrap();
                    let s = &ops[*k].1;
                    (*k, catch_unwind(AssertUnwindSafe(|| f(s))).map_err(payload))
                })
                .collect()
        };
        let results: Vec<Vec<_>> = if threads == 1 {
            vec![run(&orders[0])]
        } else {
            let bar = std::sync::Barrier::new(threads);
            let ctx = Shared(&ops, &self.entry.insts);
            std::thread::scope(|sc| {
                let hs: Vec<_> = orders
                    .iter()
                    .map(|o| {
                        let (bar, ctx) = (&bar, &ctx);
                        sc.spawn(move || {
                            let Shared(ops, insts) = ctx;
                            bar.wait();
                            o.iter()
                                .map(|k| {
                                    let f = insts[ops[*k].0].parse.unwrap();
                                    let s = &ops[*k].1;
                                    (*k, catch_unwind(AssertUnwindSafe(|| f(s))).map_err(payload))
                                })
                                .collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        };
        for (t, rs) in results.into_iter().enumerate() {
            for (k, r) in rs {
                let (i, s, want) = &ops[k];
                if let Err(mut f) = self.cmp_parse(*i, s, "history", want, r) {
                    f.input = format!("{:?} in history {text}, order {:?} of {} threads", s, orders[t], threads);
                    return Err(f);
                }
            }
        }
        Ok(())
    }

    fn totality(&self, inst: usize, src: &mut Src) -> Res {
        let (d, a) = &self.unit.insts[inst];
        if let Some(parse) = self.entry.insts[inst].parse {
            let (mut s, _) = vgen::input(&self.sem(), &self.alpha, *d, a, src);
            let how = src.below(8);
            match how {
                0 => {}
                1 => {
                    // cut next to a multi-byte character, or add one
                    let cs: Vec<char> = s.chars().collect();
                    let i = src.below(cs.len() + 1);
                    s = cs[..i].iter().collect::<String>() + src.pick(&["é", "日", "😀", "\u{301}", "\u{0}", "ﬀ"]);
                }
                2 => {
                    let cs: Vec<char> = s.chars().collect();
                    let i = src.below(cs.len() + 1);
                    s = src.pick(&["é", "日", "😀", "ẞ", "İ", "K"]).to_string() + &cs[i..].iter().collect::<String>();
                }
                3 => s = s.repeat(src.below(200)),
                4 => {
                    let c = self.alpha.ch(src);
                    s.extend(std::iter::repeat(c).take(src.below(5000)))
                }
                5 => s = s.to_uppercase(),
                6 => s = s.to_lowercase(),
                _ => s = format!("{}{s}", self.alpha.free(src)),
            }
            let r = guard(|| parse(&s));
            self.count(if s.len() > 400 { "totality/long" } else { "totality/short" });
            self.case(true, "T", inst, &s, || {
                let head: String = s.chars().take(60).collect();
                serde_json::json!({"unit": self.unit.id, "type": self.name(inst), "input": head, "bytes": s.len(), "result": format!("{r:?}").chars().take(80).collect::<String>()})
            });
            match &r {
                Err(p) => return self.fail(inst, "parse-panic", s, "a result".into(), format!("panic: {p}")),
                Ok(Err(e)) if e.is_empty() => {
                    return self.fail(inst, "empty-message", s, "a message".into(), "\"\"".into())
                }
                _ => {}
            }
            if s.len() < 400 {
                let want = self.sem().parse(&self.ty(inst), &s);
                self.cmp_parse(inst, &s, "parse", &want, r)?;
            }
        }
        if let Some(f) = self.entry.insts[inst].display {
            let v = vgen::value(&self.ty(inst), &self.unit, &self.alpha, src, 0);
            if let Err(p) = guard(|| f(&v)) {
                return self.fail(inst, "display-panic", format!("{v:?}"), "text".into(), format!("panic: {p}"));
            }
        }
        if let Some(re) = self.entry.insts[inst].re {
            match guard(re) {
                Err(p) => return self.fail(inst, "pattern-panic", "".into(), "a pattern".into(), format!("panic: {p}")),
                Ok(p) => {
                    if let Err(e) = regex::Regex::new(&p) {
                        return self.fail(inst, "pattern-invalid", p, "a valid regex".into(), e.to_string());
                    }
                }
            }
        }
        Ok(())
    }

    fn one(&self, flags: &str, choices: &[u32]) -> Res {
        let mut src = Src::new(choices);
        let n = self.unit.insts.len();
        let inst = if n == 0 { return Ok(()) } else { n - 1 - src.below(n) };
        for c in flags.chars() {
            match c {
                'D' => self.display(inst, &mut src, false)?,
                'O' => self.display(inst, &mut src, true)?,
                'P' => self.parse(inst, &mut src)?,
                'R' => self.roundtrip(inst, &mut src)?,
                'X' => self.pattern(inst, &mut src)?,
                'H' => self.history(&mut src)?,
                'F' => self.faults(inst, &mut src)?,
                'T' => self.totality(inst, &mut src)?,
                c => harness(format!("unknown flag {c}")),
            }
        }
        Ok(())
    }
}

struct Shared<'a>(&'a Vec<(usize, String, Out)>, &'a Vec<crate::Inst>);
// function pointers and plain data only
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}

#[derive(Clone, Copy, Debug)]
enum Fault {
    Never,
    /// the n-th call fails; later calls work again or keep failing
    Call(usize, bool),
    /// fails once more than this many bytes are offered
    Bytes(usize),
}
struct Faulty {
    log: String,
    calls: usize,
    fail: Fault,
    failed: bool,
}
impl std::fmt::Write for Faulty {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = self.calls;
        self.calls += 1;
        let bad = match self.fail {
            Fault::Never => false,
            Fault::Call(k, sticky) => n == k || (sticky && n > k),
            Fault::Bytes(b) => self.log.len() + s.len() > b,
        };
        if bad {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        if !self.failed {
            self.log.push_str(s);
        } else {
            // written after a failure: keep it visible
            let _ = write!(self.log, "<after failure>{s}");
        }
        Ok(())
    }
}

pub fn main(entries: &[fn() -> Entry]) {
    let args: Vec<String> = std::env::args().collect();
    let units: Vec<Unit> = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let cfg: RunCfg = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    if std::env::var_os("PD_TRACE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut rep = Report::default();
    let mut stats = Stats::default();
    let by_id: HashMap<usize, Unit> = units.into_iter().map(|u| (u.id, u)).collect();
    for e in entries {
        let entry = e();
        let id = entry.unit;
        if cfg.only.as_ref().is_some_and(|o| !o.contains(&id)) {
            continue;
        }
        let unit = by_id.get(&id).expect("unit").clone();
        let oracle = Specs(entry.specs.iter().map(|s| ((s.ty.to_string(), s.spec.to_string()), s.f)).collect());
        let ctx = Ctx {
            alpha: Alpha::new(&unit),
            unit,
            entry,
            oracle,
            stats: RefCell::new(std::mem::take(&mut stats)),
            frozen: std::cell::Cell::new(false),
        };
        rep.units += 1;
        let r = catch_unwind(AssertUnwindSafe(|| run_unit(&ctx, &cfg)));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => rep.failures.push(f),
            Err(p) => rep.harness_errors.push(format!("unit {id}: {}", payload(p))),
        }
        stats = ctx.stats.into_inner();
    }
    rep.evaluations = stats.evals;
    rep.distinct_nontrivial = stats.distinct.len() as u64;
    rep.counters = stats.counters;
    rep.samples = stats.samples;
    std::fs::write(&args[3], serde_json::to_string(&rep).unwrap()).unwrap();
}

fn run_unit(ctx: &Ctx, cfg: &RunCfg) -> Res {
    if let Some(c) = &cfg.choices {
        return ctx.one(&cfg.flags, c).map_err(|mut f| {
            f.choices = c.clone();
            f
        });
    }
    let mut runner = TestRunner::new(Config {
        cases: cfg.cases,
        failure_persistence: None,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(cfg.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(ctx.unit.id as u64)),
        max_shrink_iters: 3000,
        ..Config::default()
    });
    let strat = proptest::collection::vec(proptest::num::u32::ANY, 0..160);
    let last: RefCell<Option<Failure>> = RefCell::new(None);
    let r = runner.run(&strat, |choices| match ctx.one(&cfg.flags, &choices) {
        Ok(()) => Ok(()),
        Err(f) => {
            ctx.frozen.set(true);
            let m = f.kind.clone();
            *last.borrow_mut() = Some(Failure { choices, ..f });
            Err(TestCaseError::fail(m))
        }
    });
    ctx.frozen.set(false);
    match r {
        Ok(()) => Ok(()),
        Err(TestError::Fail(_, min)) => {
            ctx.frozen.set(true);
            let again = ctx.one(&cfg.flags, &min);
            ctx.frozen.set(false);
            match again {
                Err(f) => Err(Failure { choices: min, ..f }),
                // only reproducible from a fresh process (for example: first parse)
                Ok(()) => Err(last.into_inner().expect("failure")),
            }
        }
        Err(TestError::Abort(r)) => harness(format!("proptest gave up: {r}")),
    }
}
