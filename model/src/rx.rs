//! Regex syntax trees, their rendering, and a small reference matcher (leftmost-first, captures, whole input).
use crate::src::Src;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rx {
    Empty,
    Lit(String),
    /// `(?i:...)`, letters only where simple case folding is ASCII folding
    LitI(String),
    Class { neg: bool, ranges: Vec<(char, char)> },
    /// `.`: anything but a newline
    Dot,
    /// `(?s:.)`
    Any,
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep { min: u32, max: Option<u32>, greedy: bool, sub: Box<Rx> },
    /// unnamed capturing group
    Group(Box<Rx>),
    NonCap(Box<Rx>),
    /// a named group as written in an attribute
    Named { name: String, p: bool, sub: Box<Rx> },
    /// a resolved capture, model only
    Cap(usize, Box<Rx>),
    /// text that only looks like a named group: renders `\(?<name>`, i.e. an optional "(" followed by "<name>"
    FakeGroup(String),
}

pub fn any_lazy() -> Rx {
    Rx::Rep { min: 0, max: None, greedy: false, sub: Box::new(Rx::Any) }
}

fn esc_char(c: char, out: &mut String) {
    if "\\.+*?()|[]{}^$#&-~".contains(c) {
        out.push('\\');
        out.push(c);
    } else if c == '\n' {
        out.push_str("\\n");
    } else if c == '\t' {
        out.push_str("\\t");
    } else if (c as u32) < 0x20 || c == '\u{7f}' {
        out.push_str(&format!("\\x{:02x}", c as u32));
    } else {
        out.push(c);
    }
}

impl Rx {
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.render(&mut s);
        s
    }
    fn render(&self, o: &mut String) {
        match self {
            Rx::Empty => {}
            Rx::Lit(s) => s.chars().for_each(|c| esc_char(c, o)),
            Rx::LitI(s) => {
                o.push_str("(?i:");
                s.chars().for_each(|c| esc_char(c, o));
                o.push(')');
            }
            Rx::Class { neg, ranges } => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                for (a, b) in ranges {
                    esc_char(*a, o);
                    if a != b {
                        o.push('-');
                        esc_char(*b, o);
                    }
                }
                o.push(']');
            }
            Rx::Dot => o.push('.'),
            Rx::Any => o.push_str("(?s:.)"),
            Rx::Cat(v) => {
                for x in v {
                    if let Rx::Alt(_) = x {
                        o.push_str("(?:");
                        x.render(o);
                        o.push(')');
                    } else {
                        x.render(o);
                    }
                }
            }
            Rx::Alt(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.render(o);
                }
            }
            Rx::Rep { min, max, greedy, sub } => {
                let single = match &**sub {
                    Rx::Lit(s) => s.chars().count() == 1,
                    Rx::Class { .. } | Rx::Dot | Rx::Any | Rx::Group(_) | Rx::NonCap(_) | Rx::LitI(_) => true,
                    _ => false,
                };
                if single {
                    sub.render(o);
                } else {
                    o.push_str("(?:");
                    sub.render(o);
                    o.push(')');
                }
                match (min, max) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (a, None) => o.push_str(&format!("{{{a},}}")),
                    (a, Some(b)) if a == b => o.push_str(&format!("{{{a}}}")),
                    (a, Some(b)) => o.push_str(&format!("{{{a},{b}}}")),
                }
                if !*greedy {
                    o.push('?');
                }
            }
            Rx::Group(s) => {
                o.push('(');
                s.render(o);
                o.push(')');
            }
            Rx::NonCap(s) => {
                o.push_str("(?:");
                s.render(o);
                o.push(')');
            }
            Rx::Named { name, p, sub } => {
                o.push_str(if *p { "(?P<" } else { "(?<" });
                o.push_str(name);
                o.push('>');
                sub.render(o);
                o.push(')');
            }
            Rx::Cap(_, s) => {
                o.push('(');
                s.render(o);
                o.push(')');
            }
            Rx::FakeGroup(n) => {
                o.push_str("\\(?<");
                o.push_str(n);
                o.push('>');
            }
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Rx::Empty => true,
            Rx::Lit(s) | Rx::LitI(s) => s.is_empty(),
            Rx::Class { .. } | Rx::Dot | Rx::Any | Rx::FakeGroup(_) => false,
            Rx::Cat(v) => v.iter().all(|x| x.nullable()),
            Rx::Alt(v) => v.iter().any(|x| x.nullable()),
            Rx::Rep { min, sub, .. } => *min == 0 || sub.nullable(),
            Rx::Group(s) | Rx::NonCap(s) | Rx::Cap(_, s) => s.nullable(),
            Rx::Named { sub, .. } => sub.nullable(),
        }
    }
    fn captures(&self) -> bool {
        let mut r = false;
        self.visit(&mut |x| r |= matches!(x, Rx::Named { .. } | Rx::Group(_) | Rx::Cap(..)));
        r
    }
    pub fn has_named(&self) -> bool {
        let mut r = false;
        self.visit(&mut |x| r |= matches!(x, Rx::Named { .. }));
        r
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Rx)) {
        f(self);
        match self {
            Rx::Cat(v) | Rx::Alt(v) => v.iter().for_each(|x| x.visit(f)),
            Rx::Rep { sub, .. } | Rx::Named { sub, .. } => sub.visit(f),
            Rx::Group(s) | Rx::NonCap(s) | Rx::Cap(_, s) => s.visit(f),
            _ => {}
        }
    }
    pub fn map_named(&self, f: &mut dyn FnMut(&str, Rx) -> Rx) -> Rx {
        match self {
            Rx::Cat(v) => Rx::Cat(v.iter().map(|x| x.map_named(f)).collect()),
            Rx::Alt(v) => Rx::Alt(v.iter().map(|x| x.map_named(f)).collect()),
            Rx::Rep { min, max, greedy, sub } => {
                Rx::Rep { min: *min, max: *max, greedy: *greedy, sub: Box::new(sub.map_named(f)) }
            }
            Rx::Group(s) => Rx::Group(Box::new(s.map_named(f))),
            Rx::NonCap(s) => Rx::NonCap(Box::new(s.map_named(f))),
            Rx::Cap(i, s) => Rx::Cap(*i, Box::new(s.map_named(f))),
            Rx::Named { name, sub, .. } => {
                let sub = sub.map_named(f);
                f(name, sub)
            }
            x => x.clone(),
        }
    }
    /// drops captures, keeping what they match
    pub fn strip_caps(&self) -> Rx {
        match self {
            Rx::Cat(v) => Rx::Cat(v.iter().map(|x| x.strip_caps()).collect()),
            Rx::Alt(v) => Rx::Alt(v.iter().map(|x| x.strip_caps()).collect()),
            Rx::Rep { min, max, greedy, sub } => {
                Rx::Rep { min: *min, max: *max, greedy: *greedy, sub: Box::new(sub.strip_caps()) }
            }
            Rx::Group(s) | Rx::NonCap(s) | Rx::Cap(_, s) => Rx::NonCap(Box::new(s.strip_caps())),
            Rx::Named { sub, .. } => Rx::NonCap(Box::new(sub.strip_caps())),
            x => x.clone(),
        }
    }
    /// from a concrete regex (used for patterns reported by library types at run time)
    pub fn from_pattern(s: &str) -> Option<Rx> {
        let hir = regex_syntax::Parser::new().parse(s).ok()?;
        from_hir(&hir)
    }

    /// a string this pattern matches (approximately: negated classes and folding are sampled conservatively)
    pub fn sample(&self, src: &mut Src, cap: &mut dyn FnMut(usize, &Rx, &mut Src) -> Option<String>, o: &mut String) {
        match self {
            Rx::Empty => {}
            Rx::Lit(s) => o.push_str(s),
            Rx::LitI(s) => {
                for c in s.chars() {
                    o.push(match src.below(3) {
                        0 => c,
                        1 => c.to_ascii_uppercase(),
                        _ => c.to_ascii_lowercase(),
                    })
                }
            }
            Rx::Class { neg, ranges } => {
                if *neg {
                    for c in ['a', 'Z', '0', '-', 'é', ' ', '\n'] {
                        if !ranges.iter().any(|(a, b)| *a <= c && c <= *b) && !src.pct(40) {
                            o.push(c);
                            return;
                        }
                    }
                    o.push('~');
                } else {
                    let (a, b) = *src.pick(ranges);
                    let n = (b as u32 - a as u32) as usize + 1;
                    let c = char::from_u32(a as u32 + src.below(n) as u32).unwrap_or(a);
                    o.push(c);
                }
            }
            Rx::Dot => o.push(src.ch("a0. -é")),
            Rx::Any => o.push(src.ch("a0. -é\n")),
            Rx::Cat(v) => v.iter().for_each(|x| x.sample(src, cap, o)),
            Rx::Alt(v) => {
                if !v.is_empty() {
                    let i = src.below(v.len());
                    v[i].sample(src, cap, o)
                }
            }
            Rx::Rep { min, max, sub, .. } => {
                let hi = max.unwrap_or(min + 3).min(min + 3);
                let n = src.range(*min as usize, hi.max(*min) as usize);
                for _ in 0..n {
                    sub.sample(src, cap, o);
                }
            }
            Rx::Group(s) | Rx::NonCap(s) => s.sample(src, cap, o),
            Rx::Named { sub, .. } => sub.sample(src, cap, o),
            Rx::Cap(i, s) => match cap(*i, s, src) {
                Some(t) => o.push_str(&t),
                None => s.sample(src, cap, o),
            },
            Rx::FakeGroup(n) => {
                if src.pct(50) {
                    o.push('(');
                }
                o.push('<');
                o.push_str(n);
                o.push('>');
            }
        }
    }
}

fn from_hir(h: &regex_syntax::hir::Hir) -> Option<Rx> {
    use regex_syntax::hir::{Class, HirKind};
    Some(match h.kind() {
        HirKind::Empty => Rx::Empty,
        HirKind::Literal(l) => Rx::Lit(String::from_utf8(l.0.to_vec()).ok()?),
        HirKind::Class(Class::Unicode(c)) => {
            Rx::Class { neg: false, ranges: c.iter().map(|r| (r.start(), r.end())).collect() }
        }
        HirKind::Class(Class::Bytes(c)) => Rx::Class {
            neg: false,
            ranges: c.iter().map(|r| (r.start() as char, r.end() as char)).collect(),
        },
        HirKind::Look(_) => return None,
        HirKind::Repetition(r) => {
            Rx::Rep { min: r.min, max: r.max, greedy: r.greedy, sub: Box::new(from_hir(&r.sub)?) }
        }
        HirKind::Capture(c) => Rx::Group(Box::new(from_hir(&c.sub)?)),
        HirKind::Concat(v) => Rx::Cat(v.iter().map(from_hir).collect::<Option<_>>()?),
        HirKind::Alternation(v) => Rx::Alt(v.iter().map(from_hir).collect::<Option<_>>()?),
    })
}

// ---------------------------------------------------------------------------------------------------- matcher

enum Op {
    Set { neg: bool, ranges: Vec<(char, char)> },
    Ch(char),
    ChI(char),
    Split(usize, usize),
    Jmp(usize),
    Save(usize),
    Match,
}

pub struct Prog {
    ops: Vec<Op>,
    ncap: usize,
}

/// The `regex` crate factors a prefix common to all branches out of an alternation (`.*?a|.*?b` is `.*?(?:a|b)`),
/// which decides between several ways to match. The reference matcher takes patterns to mean what that crate says.
fn lift(rx: &Rx) -> Rx {
    fn cat(v: Vec<Rx>) -> Rx {
        let mut o: Vec<Rx> = vec![];
        for x in v {
            let xs = match x {
                Rx::Cat(y) => y,
                x => vec![x],
            };
            for x in xs {
                match (o.last_mut(), x) {
                    (_, Rx::Empty) => {}
                    (_, Rx::Lit(b)) if b.is_empty() => {}
                    (Some(Rx::Lit(a)), Rx::Lit(b)) => a.push_str(&b),
                    (_, x) => o.push(x),
                }
            }
        }
        match o.len() {
            0 => Rx::Empty,
            1 => o.pop().unwrap(),
            _ => Rx::Cat(o),
        }
    }
    match rx {
        Rx::Cat(v) => cat(v.iter().map(lift).collect()),
        Rx::NonCap(s) => lift(s),
        Rx::Named { sub, .. } => lift(sub),
        Rx::Group(s) => Rx::Group(Box::new(lift(s))),
        Rx::Cap(i, s) => Rx::Cap(*i, Box::new(lift(s))),
        Rx::Rep { min: 1, max: Some(1), sub, .. } => lift(sub),
        Rx::Rep { min, max, greedy, sub } => Rx::Rep { min: *min, max: *max, greedy: *greedy, sub: Box::new(lift(sub)) },
        Rx::Alt(v) => {
            let mut alts = vec![];
            for x in v.iter().map(lift) {
                match x {
                    Rx::Alt(y) => alts.extend(y),
                    x => alts.push(x),
                }
            }
            let mut common: Option<Vec<Rx>> = None;
            for a in &alts {
                let Rx::Cat(xs) = a else { return Rx::Alt(alts) };
                common = Some(match common {
                    None => xs.clone(),
                    Some(c) => c.into_iter().zip(xs).take_while(|(a, b)| a == *b && !a.captures()).map(|x| x.0).collect(),
                });
            }
            let c = common.unwrap_or_default();
            if alts.len() < 2 || c.is_empty() {
                return if alts.len() == 1 { alts.pop().unwrap() } else { Rx::Alt(alts) };
            }
            let rest = alts
                .into_iter()
                .map(|a| match a {
                    Rx::Cat(xs) => cat(xs[c.len()..].to_vec()),
                    _ => unreachable!(),
                })
                .collect();
            let mut out = c;
            out.push(Rx::NonCap(Box::new(Rx::Alt(rest))));
            cat(out)
        }
        x => x.clone(),
    }
}

impl Prog {
    pub fn new(rx: &Rx, ncap: usize) -> Prog {
        let mut p = Prog { ops: vec![], ncap };
        p.emit(&lift(rx));
        p.ops.push(Op::Match);
        p
    }
    fn emit(&mut self, rx: &Rx) {
        match rx {
            Rx::Empty => {}
            Rx::Lit(s) => s.chars().for_each(|c| self.ops.push(Op::Ch(c))),
            Rx::LitI(s) => s.chars().for_each(|c| self.ops.push(Op::ChI(c))),
            Rx::Class { neg, ranges } => self.ops.push(Op::Set { neg: *neg, ranges: ranges.clone() }),
            Rx::Dot => self.ops.push(Op::Set { neg: true, ranges: vec![('\n', '\n')] }),
            Rx::Any => self.ops.push(Op::Set { neg: true, ranges: vec![] }),
            Rx::Cat(v) => v.iter().for_each(|x| self.emit(x)),
            Rx::Alt(v) => {
                let mut ends = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i + 1 < v.len() {
                        let split = self.ops.len();
                        self.ops.push(Op::Match);
                        self.emit(x);
                        ends.push(self.ops.len());
                        self.ops.push(Op::Match);
                        let next = self.ops.len();
                        self.ops[split] = Op::Split(split + 1, next);
                    } else {
                        self.emit(x);
                    }
                }
                let end = self.ops.len();
                for e in ends {
                    self.ops[e] = Op::Jmp(end);
                }
                if v.is_empty() {
                    self.ops.push(Op::Set { neg: false, ranges: vec![] });
                }
            }
            Rx::Rep { min, max, greedy, sub } => {
                for _ in 0..*min {
                    self.emit(sub);
                }
                match max {
                    None => {
                        let l = self.ops.len();
                        self.ops.push(Op::Match);
                        self.emit(sub);
                        self.ops.push(Op::Jmp(l));
                        let end = self.ops.len();
                        self.ops[l] = if *greedy { Op::Split(l + 1, end) } else { Op::Split(end, l + 1) };
                    }
                    Some(m) => {
                        let mut splits = vec![];
                        for _ in *min..*m {
                            splits.push(self.ops.len());
                            self.ops.push(Op::Match);
                            self.emit(sub);
                        }
                        let end = self.ops.len();
                        for s in splits {
                            self.ops[s] = if *greedy { Op::Split(s + 1, end) } else { Op::Split(end, s + 1) };
                        }
                    }
                }
            }
            Rx::Group(s) | Rx::NonCap(s) => self.emit(s),
            Rx::Named { sub, .. } => self.emit(sub),
            Rx::Cap(i, s) => {
                assert!(*i < self.ncap);
                self.ops.push(Op::Save(2 * i));
                self.emit(s);
                self.ops.push(Op::Save(2 * i + 1));
            }
            Rx::FakeGroup(n) => {
                let opt = Rx::Rep { min: 0, max: Some(1), greedy: true, sub: Box::new(Rx::Lit("(".into())) };
                self.emit(&opt);
                self.emit(&Rx::Lit(format!("<{n}>")));
            }
        }
    }
    /// whole-input match; captured texts by capture number
    pub fn run(&self, s: &str) -> Option<Vec<Option<String>>> {
        let cs: Vec<char> = s.chars().collect();
        let n = cs.len();
        let w = n + 1;
        let mut seen = vec![false; self.ops.len() * w];
        let mut slots: Vec<Option<usize>> = vec![None; self.ncap * 2];
        enum Job {
            Try(usize, usize),
            Undo(usize, Option<usize>),
        }
        let mut stack = vec![Job::Try(0, 0)];
        while let Some(j) = stack.pop() {
            match j {
                Job::Undo(k, v) => slots[k] = v,
                Job::Try(mut pc, mut pos) => loop {
                    if seen[pc * w + pos] {
                        break;
                    }
                    seen[pc * w + pos] = true;
                    match &self.ops[pc] {
                        Op::Ch(c) => {
                            if pos < n && cs[pos] == *c {
                                pc += 1;
                                pos += 1;
                            } else {
                                break;
                            }
                        }
                        Op::ChI(c) => {
                            if pos < n && cs[pos].eq_ignore_ascii_case(c) {
                                pc += 1;
                                pos += 1;
                            } else {
                                break;
                            }
                        }
                        Op::Set { neg, ranges } => {
                            if pos < n && ranges.iter().any(|(a, b)| *a <= cs[pos] && cs[pos] <= *b) != *neg {
                                pc += 1;
                                pos += 1;
                            } else {
                                break;
                            }
                        }
                        Op::Split(a, b) => {
                            stack.push(Job::Try(*b, pos));
                            pc = *a;
                        }
                        Op::Jmp(a) => pc = *a,
                        Op::Save(k) => {
                            stack.push(Job::Undo(*k, slots[*k]));
                            slots[*k] = Some(pos);
                            pc += 1;
                        }
                        Op::Match => {
                            if pos == n {
                                return Some(
                                    (0..self.ncap)
                                        .map(|i| match (slots[2 * i], slots[2 * i + 1]) {
                                            (Some(a), Some(b)) => Some(cs[a..b].iter().collect()),
                                            _ => None,
                                        })
                                        .collect(),
                                );
                            }
                            break;
                        }
                    }
                },
            }
        }
        None
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn common_prefix() {
        let b = |t: &str| Rx::Cat(vec![any_lazy(), Rx::Lit(t.into())]);
        let rx = Rx::Cat(vec![Rx::Cap(0, Box::new(Rx::Alt(vec![b("c"), b("f")]))), any_lazy(), Rx::Lit("z".into()), any_lazy()]);
        assert_eq!(Prog::new(&rx, 1).run("fz_cz").unwrap()[0].as_deref(), Some("f"));
    }
    #[test]
    fn lazy_split() {
        let rx = Rx::Cat(vec![
            Rx::Cap(0, Box::new(any_lazy())),
            Rx::Lit("-".into()),
            Rx::Cap(1, Box::new(any_lazy())),
        ]);
        let p = Prog::new(&rx, 2);
        let m = p.run("a-b-c").unwrap();
        assert_eq!(m[0].as_deref(), Some("a"));
        assert_eq!(m[1].as_deref(), Some("b-c"));
        assert!(p.run("abc").is_none());
    }
}
