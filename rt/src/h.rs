//! C17: histories over types that are easily confused (same name, same size, same characters).
use crate::b::Checks;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug)]
pub enum Conv {
    Str,
    U8,
    /// everything without this character
    Tag(char),
    /// the text between the affixes
    Strip(&'static str, &'static str),
    /// nothing, or a value of the same type
    Rec,
    /// panics on '!'
    Panic,
}
pub struct Var {
    pub literal: bool,
    pub oracle: &'static str,
    pub conv: &'static [Conv],
}
pub struct Ty {
    pub parse: fn(&str) -> Option<Vec<String>>,
    pub pattern: fn() -> String,
    pub vars: Vec<Var>,
}
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Value(Vec<String>),
    Rejected,
    Panic,
}
enum Stop {
    No,
    Panic,
}
impl Ty {
    fn want(&self, res: &[regex::Regex], s: &str) -> Result<Vec<String>, Stop> {
        for lit in [true, false] {
            'v: for (k, v) in self.vars.iter().enumerate() {
                if v.literal != lit {
                    continue;
                }
                let Some(c) = res[k].captures(s) else { continue };
                let mut out = vec![k.to_string()];
                for (j, conv) in v.conv.iter().enumerate() {
                    let t = c.name(&format!("g{j}")).expect("harness: group").as_str();
                    let x = match conv {
                        Conv::Str => t.to_string(),
                        Conv::U8 => match t.parse::<u8>() {
                            Ok(x) => x.to_string(),
                            Err(_) => continue 'v,
                        },
                        Conv::Tag(x) if t.contains(*x) => continue 'v,
                        Conv::Tag(x) => format!("{t}/{x}"),
                        Conv::Strip(l, r) => t[l.len()..t.len() - r.len()].to_string(),
                        Conv::Rec if t.is_empty() => "-".into(),
                        Conv::Rec => match self.want(res, t) {
                            Ok(x) => format!("{x:?}"),
                            Err(Stop::No) => continue 'v,
                            Err(Stop::Panic) => return Err(Stop::Panic),
                        },
                        Conv::Panic if t.contains('!') => return Err(Stop::Panic),
                        Conv::Panic => t.to_string(),
                    };
                    out.push(x);
                }
                return Ok(out);
            }
        }
        Err(Stop::No)
    }
}

struct Send2<'a>(&'a [Ty]);
unsafe impl Sync for Send2<'_> {}
unsafe impl Send for Send2<'_> {}

/// `ops`: (type, text); an order of them for every thread
pub fn run(unit: usize, types: Vec<Ty>, ops: &[(usize, &str)], orders: &[&[usize]]) -> Checks {
    std::panic::set_hook(Box::new(|_| {}));
    let res: Vec<Vec<regex::Regex>> = types
        .iter()
        .map(|t| t.vars.iter().map(|v| regex::Regex::new(&format!("\\A(?:{})\\z", v.oracle)).unwrap_or_else(|e| panic!("harness: {} {e}", v.oracle))).collect())
        .collect();
    let want: Vec<Got> = ops
        .iter()
        .map(|(t, s)| match types[*t].want(&res[*t], s) {
            Ok(v) => Got::Value(v),
            Err(Stop::No) => Got::Rejected,
            Err(Stop::Panic) => Got::Panic,
        })
        .collect();
    let bar = std::sync::Barrier::new(orders.len());
    let ctx = Send2(&types);
    let mut all: Vec<Vec<(usize, Got, Option<String>)>> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (bar, ctx) = (&bar, &ctx);
                sc.spawn(move || {
                    let Send2(types) = ctx;
                    // one buffer, so that different texts have the same address
                    let mut buf = String::with_capacity(400);
                    let mut out = vec![];
                    bar.wait();
                    for (n, k) in o.iter().enumerate() {
                        let (t, s) = ops[*k];
                        buf.clear();
                        buf.push_str(s);
                        let g = match catch_unwind(AssertUnwindSafe(|| (types[t].parse)(&buf))) {
                            Ok(Some(v)) => Got::Value(v),
                            Ok(None) => Got::Rejected,
                            Err(_) => Got::Panic,
                        };
                        let p = (n % 3 == 1).then(|| catch_unwind(types[t].pattern).unwrap_or("(panic)".into()));
                        out.push((*k, g, p));
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            all.push(h.join().expect("harness: thread"));
        }
    });
    let mut pats: Vec<Option<String>> = vec![None; types.len()];
    let mut texts = vec![];
    for (th, outs) in all.into_iter().enumerate() {
        for (n, (k, got, p)) in outs.into_iter().enumerate() {
            let (t, s) = ops[k];
            let show = |g: &Got| if *g == Got::Rejected { String::new() } else { format!("{g:?}") };
            texts.push((format!("type {t}, {s:?}, step {n} of thread {th} of {}", orders.len()), show(&want[k]), show(&got)));
            if let Some(p) = p {
                match &pats[t] {
                    None => pats[t] = Some(p),
                    Some(q) => texts.push((format!("pattern of type {t}, step {n} of thread {th} of {}", orders.len()), q.clone(), p)),
                }
            }
        }
    }
    Checks { unit, checks: vec![], texts }
}

/// one type, large texts; what is accepted must print as it was written (the definitions used allow for no other)
pub fn large(unit: usize, types: Vec<Ty>, print: fn(&str) -> Option<String>, inputs: &[String]) -> Checks {
    std::panic::set_hook(Box::new(|_| {}));
    let t = &types[0];
    let res: Vec<regex::Regex> = t.vars.iter().map(|v| regex::Regex::new(&format!("\\A(?:{})\\z", v.oracle)).unwrap_or_else(|e| panic!("harness: {} {e}", v.oracle))).collect();
    let cut = |s: &str| if s.len() > 60 { format!("{}... ({} bytes)", s.chars().take(30).collect::<String>(), s.len()) } else { s.to_string() };
    let mut texts = vec![];
    match catch_unwind(t.pattern).map(|p| regex::Regex::new(&p).map(drop).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        r => texts.push(("pattern".into(), "a valid regex".into(), format!("{r:?}"))),
    }
    for i in inputs {
        let want = t.want(&res, i).ok();
        let got = catch_unwind(AssertUnwindSafe(|| (t.parse)(i)));
        let what = cut(i);
        match got {
            Err(_) => texts.push((what, want.is_some().to_string(), "(panic)".into())),
            Ok(g) if g == want => {
                let s = if g.is_some() { "accepted" } else { "" };
                texts.push((what.clone(), s.into(), s.into()));
                if g.is_some() {
                    let p = catch_unwind(|| print(i)).unwrap_or(Some("(panic)".into()));
                    let same = p.as_deref() == Some(i);
                    texts.push((what, "printed as read".into(), if same { "printed as read".into() } else { cut(&format!("{p:?}")) }));
                }
            }
            Ok(g) => texts.push((what, cut(&format!("{want:?}")), cut(&format!("{g:?}")))),
        }
    }
    Checks { unit, checks: vec![], texts }
}
