//! C07, C10: attributes with regexes in the whole syntax of the regex crate (flags, assertions, Unicode and Perl
//! classes, class operations, escapes, groups of every kind, repetition of everything). What must be parsed is
//! answered by the regex crate itself, applied to the same regex.
use crate::items::*;
use pd_model::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

enum N {
    /// text, texts it may match
    T(String, Vec<String>),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, String, usize, usize),
    Wrap(String, Box<N>, String),
    Named(usize, Box<N>),
    /// the variant's name
    Name,
}

struct G<'a> {
    s: Src<'a>,
    feats: BTreeSet<String>,
    /// groups that can still be placed
    groups: Vec<usize>,
    name: bool,
    /// 'x' mode: blanks do not count
    verbose: bool,
    unicode: bool,
}

impl G<'_> {
    fn f(&mut self, s: &str) {
        self.feats.insert(s.into());
    }
    fn chr(&mut self) -> N {
        let c = *self.s.pick(&['a', 'b', 'c', 'A', 'B', '0', '1', '-', '_', '.', '(', '{', '\\', '#', ' ', '\n', 'é', 'É', 'k', 's', '日', '<', '>', '?', '|', '/', '"', '&', '~', 'ß']);
        let t = match self.s.below(5) {
            0 if self.unicode || c.is_ascii() => format!("\\u{{{:x}}}", c as u32),
            1 if c.is_ascii() => format!("\\x{:02x}", c as u32),
            2 if self.unicode || c.is_ascii() => format!("\\U{:08X}", c as u32),
            _ if c.is_ascii_alphanumeric() || !c.is_ascii() || c == '_' || c == '"' || c == '/' || c == '<' || c == '>' => c.to_string(),
            _ if c == '\n' => "\\n".into(),
            _ if c == ' ' && !self.verbose => " ".into(),
            _ => format!("\\{c}"),
        };
        N::T(t, vec![c.to_string()])
    }
    fn atom(&mut self, depth: usize) -> N {
        let t = |a: &str, v: &[&str]| N::T(a.into(), v.iter().map(|x| x.to_string()).collect());
        match self.s.below(if depth == 0 { 12 } else { 19 }) {
            0..=4 => self.chr(),
            5 => {
                self.f("dot");
                t(".", &["a", "\n", "é", "\r", "0"])
            }
            6 => {
                self.f("perl class");
                self.s.pick(&[
                    ("\\d", "0 9"), ("\\D", "a é"), ("\\w", "a _ 1"), ("\\W", "- \u{1F600}"), ("\\S", "a é"), ("\\pL", "A é"), ("\\p{Lu}", "A É"), ("\\PL", "1 -"), ("\\p{Greek}", "α Σ"), ("\\P{Greek}", "a"),
                ])
                .clone()
                .pipe(|(a, b)| N::T(a.into(), b.split(' ').map(|x| x.to_string()).collect()))
            }
            7 => {
                self.f("class");
                let (a, b) = *self.s.pick(&[
                    ("[abc]", "a c"), ("[a-c]", "b"), ("[^a]", "b \n é"), ("[[:alpha:]]", "a Z"), ("[[:^digit:]]", "a"), ("[a-c&&[^b]]", "a b c"), ("[a-c--b]", "a b"), ("[a-c~~b-d]", "a b d"), ("[\\d_]", "1 _"), ("[-a]", "- a"),
                    ("[]a]", "] a"), ("[^]]", "a ]"), ("[\\]\\^\\-]", "] ^ -"), ("[\\n-\\r]", "\n \r"), ("[a&&b]", "a"), ("[\\w&&[^\\d]]", "a 1"), ("[\\s--\\n]", "\t \n"), ("[.(?<]", ". ( <"), ("[(?<a>]", "a ? >"), ("[(?P<zz.0>b]", "z . b"), ("[^(?<>]", "a b"), ("[^\\x00-\\x7F]", "é"), ("[{}]", "{ }"), ("[#x]", "# x"),
                ]);
                let a = if self.verbose { a.replace('#', "\\#") } else { a.to_string() };
                N::T(a, b.split(' ').map(|x| x.to_string()).collect())
            }
            8 | 9 => {
                self.f("assertion");
                let a = *self.s.pick(&["^", "$", "\\A", "\\z", "\\b", "\\B", "\\b{start}", "\\b{end}", "\\b{start-half}", "\\b{end-half}", "\\<", "\\>"]);
                t(a, &["", "", "\n", " "])
            }
            10 => {
                let c = self.chr();
                let d = self.chr();
                N::Cat(vec![c, d])
            }
            11 if self.name => {
                self.f("variant name in regex");
                self.name = false;
                N::Name
            }
            11 => t("", &[""]),
            12 | 13 => {
                let (a, b) = *self.s.pick(&[("(", ")"), ("(?:", ")")]);
                N::Wrap(a.into(), Box::new(self.node(depth - 1)), b.into())
            }
            14 | 15 => {
                // flags
                let fl = *self.s.pick(&["i", "s", "m", "U", "x", "im", "-i", "s-m", "i-s", "R", "Rm", "-x", "-u", "xi", "u", "-s"]);
                self.f(&format!("flag {fl}"));
                let (v, u) = (self.verbose, self.unicode);
                if fl == "-x" {
                    self.verbose = false;
                } else if fl.contains('x') {
                    self.verbose = true;
                }
                if fl == "-u" {
                    self.unicode = false;
                    let a = *self.s.pick(&["\\w", "\\d", "[a-c]", "\\b", "\\s", "[[:upper:]]", "k", "\\B"]);
                    self.unicode = u;
                    self.verbose = v;
                    return if self.s.pct(50) {
                        N::Wrap("(?-u:".into(), Box::new(t(a, &["a", "1", "é", " ", "K", ""])), ")".into())
                    } else {
                        N::Wrap("(?i-u:".into(), Box::new(t(a, &["a", "1", "\u{212a}", " ", "K", ""])), ")".into())
                    };
                }
                let n = self.node(depth - 1);
                let scoped = self.s.pct(60);
                let r = if scoped {
                    N::Wrap(format!("(?{fl}:"), Box::new(n), ")".into())
                } else {
                    self.f("flags for the rest of a group");
                    N::Wrap(format!("(?:(?{fl})"), Box::new(n), ")".into())
                };
                self.verbose = v;
                r
            }
            _ => {
                if self.groups.is_empty() {
                    return self.node(depth - 1);
                }
                let g = self.groups.pop().unwrap();
                N::Named(g, Box::new(self.node(depth - 1)))
            }
        }
    }
    fn node(&mut self, depth: usize) -> N {
        match self.s.below(10) {
            0..=3 => self.atom(depth),
            4..=6 => {
                let n = 1 + self.s.below(3);
                let mut v: Vec<N> = (0..n).map(|_| self.atom(depth)).collect();
                if self.verbose && self.s.pct(50) {
                    self.f("blanks and comments in verbose mode");
                    let b = *self.s.pick(&[" ", "  \n", " # a comment (?<zz> )\n", "\t"]);
                    v.insert(1, N::T(b.into(), vec!["".into()]));
                }
                N::Cat(v)
            }
            7 => {
                self.f("alternation");
                let n = 2 + self.s.below(2);
                N::Alt((0..n).map(|_| self.node(depth.saturating_sub(1))).collect())
            }
            _ => {
                let a = self.atom(depth);
                let (r, lo, hi) = *self.s.pick(&[
                    ("?", 0, 1), ("*", 0, 3), ("+", 1, 3), ("??", 0, 1), ("*?", 0, 3), ("+?", 1, 3), ("{2}", 2, 2), ("{1,2}", 1, 2), ("{0,2}?", 0, 2), ("{1,}", 1, 3), ("{0}", 0, 0), ("{2,}?", 2, 3), ("{0,1}", 0, 1),
                ]);
                if matches!(&a, N::T(t, _) if t.is_empty()) {
                    return a;
                }
                // a group that can take no part is no group
                let (r, lo, hi) = if r == "{0}" && has_group(&a) { ("?", 0, 1) } else { (r, lo, hi) };
                self.f("repetition");
                let a = match a {
                    N::T(t, v) => N::T(t, v),
                    N::Wrap(..) | N::Named(..) => a,
                    a => N::Wrap("(?:".into(), Box::new(a), ")".into()),
                };
                N::Rep(Box::new(a), r.into(), lo, hi)
            }
        }
    }
    fn sample(&mut self, n: &N, name: &str) -> String {
        match n {
            N::T(_, v) => {
                if v.is_empty() {
                    String::new()
                } else {
                    self.s.pick(v).clone()
                }
            }
            N::Cat(v) => v.iter().map(|x| self.sample(x, name)).collect(),
            N::Alt(v) => {
                let i = self.s.below(v.len());
                self.sample(&v[i], name)
            }
            N::Rep(a, _, lo, hi) => {
                let k = self.s.range(*lo, *hi);
                (0..k).map(|_| self.sample(a, name)).collect()
            }
            N::Wrap(a, x, _) => {
                let t = self.sample(x, name);
                if a.contains('i') && !a.contains("-i") && self.s.pct(50) {
                    if self.s.pct(50) { t.to_uppercase() } else { t.to_lowercase() }
                } else {
                    t
                }
            }
            N::Named(_, x) => self.sample(x, name),
            N::Name => name.into(),
        }
    }
}
fn has_group(n: &N) -> bool {
    match n {
        N::Named(..) => true,
        N::T(..) | N::Name => false,
        N::Cat(v) | N::Alt(v) => v.iter().any(has_group),
        N::Rep(x, ..) | N::Wrap(_, x, _) => has_group(x),
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl<T> Pipe for T {}

/// `group` gives what stands between `(?` and `>`
fn text(n: &N, group: &dyn Fn(usize) -> String, name: Option<&str>, o: &mut String) {
    match n {
        N::T(t, _) => o.push_str(t),
        N::Cat(v) => v.iter().for_each(|x| text(x, group, name, o)),
        N::Alt(v) => {
            o.push_str("(?:");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                text(x, group, name, o);
            }
            o.push(')');
        }
        N::Rep(x, r, ..) => {
            text(x, group, name, o);
            o.push_str(r);
        }
        N::Wrap(a, x, b) => {
            o.push_str(a);
            text(x, group, name, o);
            o.push_str(b);
        }
        N::Named(k, x) => {
            write!(o, "(?{}>", group(*k)).unwrap();
            text(x, group, name, o);
            o.push(')');
        }
        N::Name => match name {
            Some(t) => write!(o, "(?:{t})").unwrap(),
            None => o.push_str("(?<>)"),
        },
    }
}
fn top(n: &N, group: &dyn Fn(usize) -> String, name: Option<&str>) -> String {
    // the outermost alternation is written without a group
    let mut o = String::new();
    if let N::Alt(v) = n {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                o.push('|');
            }
            text(x, group, name, &mut o);
        }
    } else {
        text(n, group, name, &mut o);
    }
    o
}
/// flags for a regex as a whole and a comment behind it: what to put before and after it, and after it in the oracle
fn whole(g: &mut G) -> (&'static str, &'static str, String) {
    g.verbose = false;
    g.unicode = true;
    if !g.s.pct(25) {
        return ("", "", String::new());
    }
    let pre = *g.s.pick(&["(?x)", "(?i)", "(?s)", "(?xs)", "(?U)", "(?m)", "(?x)\n", "(?ix) # what\n"]);
    g.f("flags for the whole regex");
    if !pre.contains('x') {
        return (pre, "", String::new());
    }
    g.verbose = true;
    let post = *g.s.pick(&["", " ", " # c", " # )", "# (?<zz> (", " #", "\n"]);
    if post.contains('#') {
        g.f("ends with a comment");
    }
    (pre, post, format!("{post}\n"))
}
fn raw(s: &str) -> String {
    let mut h = String::new();
    while s.contains(&format!("\"{h}")) || s.contains('\r') && h.is_empty() {
        h.push('#');
    }
    if s.contains('\r') {
        return format!("{s:?}");
    }
    format!("r{h}\"{s}\"{h}")
}

const FIELDS: [&str; 6] = ["a", "b1", "type", "é", "fn", "value"];

fn group_names(g: &mut G, names: &[String]) -> Vec<String> {
    names
        .iter()
        .map(|n| {
            let p = if g.s.pct(40) { "P" } else { "" };
            let n = n.trim_start_matches("r#");
            format!("{p}<{n}")
        })
        .collect()
}

struct Part {
    /// definition of the struct body, or of one variant
    def: String,
    /// whole regex with groups g0, g1.., for the oracle
    oracle: String,
    inputs: Vec<String>,
    /// expression building a Vec<(&str name, Option<String>)>... of the parsed value: pattern and field bindings
    pat: String,
    n: usize,
}

fn part(g: &mut G, path: &str, vname: &str, is_variant: bool) -> Part {
    let n = 1 + g.s.below(3);
    let tuple = g.s.pct(40);
    let names: Vec<String> = if tuple {
        (0..n).map(|i| i.to_string()).collect()
    } else {
        let mut v: Vec<String> = FIELDS.iter().map(|x| if ["type", "fn"].contains(x) { format!("r#{x}") } else { x.to_string() }).collect();
        g.s.shuffle(&mut v);
        v.truncate(n);
        v
    };
    let (open, close) = if tuple { ("(", ")") } else { ("{", "}") };
    let pat = if tuple {
        format!("{path}({})", (0..n).map(|i| format!("p{i}, ")).collect::<String>())
    } else {
        format!("{path} {{ {} }}", names.iter().enumerate().map(|(i, x)| format!("{x}: p{i}, ")).collect::<String>())
    };
    let kind = g.s.below(10);
    let mut inputs = vec![];
    let (attr, field_attrs, oracle);
    if kind < 5 {
        // one regex for all
        g.name = is_variant && g.s.pct(30);
        let (pre, post, post_o) = whole(g);
        g.groups = (0..n).collect();
        g.s.shuffle(&mut g.groups);
        let mut node = g.node(3);
        g.name = false;
        while let Some(k) = g.groups.pop() {
            let inner = g.node(1);
            let named = N::Named(k, Box::new(inner));
            node = match node {
                N::Cat(mut v) => {
                    let at = g.s.below(v.len() + 1);
                    v.insert(at, named);
                    N::Cat(v)
                }
                x if g.s.pct(50) => N::Cat(vec![x, named]),
                x => N::Cat(vec![named, x]),
            };
        }
        let gn = group_names(g, &names);
        let r = top(&node, &|k| gn[k].clone(), None);
        let o = top(&node, &|k| format!("P<g{k}"), Some(&regex_escape(vname)));
        for _ in 0..12 {
            inputs.push(g.sample(&node, vname));
        }
        g.f(if is_variant { "variant regex" } else { "struct regex" });
        attr = format!("#[from_str(regex = {})]\n", raw(&format!("{pre}{r}{post}")));
        field_attrs = vec![String::new(); n];
        oracle = format!("{pre}{o}{post_o}");
    } else {
        // a format with regexes of fields
        let lits = ["", "<", ">", "-", "{{", " ", ".", "\n", "é", "(?<", "\\"];
        let mut fmt = String::new();
        let mut o = String::new();
        let mut fa = vec![];
        let mut nodes = vec![];
        let mut order: Vec<usize> = (0..n).collect();
        g.s.shuffle(&mut order);
        let mut attrs_of = vec![String::new(); n];
        let mut plan: Vec<(String, Option<usize>)> = vec![];
        for k in order {
            let l = *g.s.pick(&lits);
            fmt += l;
            let un = l.replace("{{", "{");
            o += &regex_escape(&un);
            plan.push((un, None));
            fmt += &format!("{{{}}}", names[k].trim_start_matches("r#"));
            let how = g.s.below(10);
            let (pre, post, post_o) = whole(g);
            g.groups = if how >= 8 { vec![k] } else { vec![] };
            let mut node = g.node(2);
            if how >= 8 && g.groups.pop().is_some() {
                let inner = g.node(1);
                let m = N::Named(k, Box::new(inner));
                node = if g.s.pct(50) { N::Cat(vec![node, m]) } else { N::Cat(vec![m, node]) };
            }
            match how {
                // the field as a whole
                0..=4 => {
                    g.f("field regex");
                    let r = top(&node, &|_| unreachable!(), None);
                    attrs_of[k] = format!("#[from_str(regex = {})] ", raw(&format!("{pre}{r}{post}")));
                    write!(o, "(?P<g{k}>{pre}{r}{post_o})").unwrap();
                }
                5 | 6 => {
                    g.f("regex of a custom format");
                    let r = top(&node, &|_| unreachable!(), None);
                    attrs_of[k] = format!("#[from_str(with = pd_rt::b::RxFmt({}))] ", raw(&format!("{pre}{r}{post}")));
                    write!(o, "(?P<g{k}>{pre}{r}{post_o})").unwrap();
                }
                7 => {
                    g.f("field format with field regex");
                    let r = top(&node, &|_| unreachable!(), None);
                    attrs_of[k] = format!("#[display(\"[{{}}]\")] #[from_str(regex = {})] ", raw(&format!("{pre}{r}{post}")));
                    write!(o, "\\[(?P<g{k}>{pre}{r}{post_o})\\]").unwrap();
                    plan.push(("[".into(), None));
                }
                _ => {
                    g.f("field regex with its own group");
                    let p = if g.s.pct(40) { "P<" } else { "<" };
                    let r = top(&node, &|_| p.to_string(), None);
                    let w = top(&node, &|k| format!("P<g{k}"), None);
                    attrs_of[k] = format!("#[from_str(regex = {})] ", raw(&format!("{pre}{r}{post}")));
                    write!(o, "(?:{pre}{w}{post_o})").unwrap();
                }
            }
            plan.push((String::new(), Some(nodes.len())));
            nodes.push(node);
            if how == 7 {
                plan.push(("]".into(), None));
            }
        }
        fa.extend(attrs_of);
        let l = *g.s.pick(&lits);
        fmt += l;
        let un = l.replace("{{", "{");
        o += &regex_escape(&un);
        plan.push((un, None));
        for _ in 0..12 {
            let mut t = String::new();
            for (l, k) in &plan {
                t += l;
                if let Some(k) = k {
                    t += &g.sample(&nodes[*k], "");
                }
            }
            inputs.push(t);
        }
        attr = format!("#[display({fmt:?})]\n");
        field_attrs = fa;
        oracle = o;
    }
    let mut def = attr;
    if is_variant {
        write!(def, "{vname}{open}").unwrap();
    } else {
        write!(def, "pub struct {vname}{open}").unwrap();
    }
    for (i, x) in names.iter().enumerate() {
        let name = if tuple { String::new() } else { format!("{x}: ") };
        let vis = if is_variant { "" } else { "pub " };
        write!(def, "{}{vis}{name}::std::string::String, ", field_attrs[i]).unwrap();
    }
    def += close;
    // near misses
    let base = inputs.clone();
    for t in base.iter().take(8) {
        let mut cs: Vec<char> = t.chars().collect();
        let at = g.s.below(cs.len() + 1);
        match g.s.below(4) {
            0 if at < cs.len() => {
                cs.remove(at);
            }
            1 => cs.insert(at, *g.s.pick(&['a', '\n', ' ', 'é', '0', '-', 'A'])),
            2 if at < cs.len() => cs[at] = *g.s.pick(&['b', '\n', 'K', 'É', '_', '\r']),
            _ => cs.reverse(),
        }
        inputs.push(cs.into_iter().collect());
    }
    inputs.push(String::new());
    inputs.push("\n".into());
    inputs.retain(|x| x.len() < 200);
    Part { def, oracle, inputs, pat, n }
}
fn regex_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

pub fn make_c10(i: usize, choices: &[u32]) -> Case {
    make_with(i, choices, true)
}
pub fn make(i: usize, choices: &[u32]) -> Case {
    make_with(i, choices, false)
}
fn make_with(_: usize, choices: &[u32], pattern: bool) -> Case {
    let mut g = G { s: Src::new(choices), feats: BTreeSet::new(), groups: vec![], name: false, verbose: false, unicode: true };
    let mut parts = vec![];
    let def;
    if g.s.pct(65) {
        let p = part(&mut g, "S", "S", false);
        let semi = if p.def.ends_with(')') { ";" } else { "" };
        def = format!("#[derive(::parse_display::FromStr)]\n{}{semi}\n", p.def);
        parts.push(p);
    } else {
        let n = 1 + g.s.below(3);
        let mut d = String::from("#[derive(::parse_display::FromStr)]\npub enum S {\n");
        for k in 0..n {
            let vname = ["Ab", "C", "Straße"][k];
            let p = part(&mut g, &format!("S::{vname}"), vname, true);
            write!(d, "{},\n", p.def).unwrap();
            parts.push(p);
        }
        def = d + "}\n";
    }
    let mut inputs: Vec<String> = vec![];
    for p in &parts {
        for i in &p.inputs {
            if !inputs.contains(i) {
                inputs.push(i.clone());
            }
        }
    }
    let oracles = parts.iter().map(|p| format!("({}, {}), ", raw(&p.oracle), p.n)).collect::<String>();
    let arms = parts.iter().enumerate().map(|(k, p)| format!("{} => ({k}usize, vec![{}]),\n", p.pat, (0..p.n).map(|i| format!("p{i}, ")).collect::<String>())).collect::<String>();
    let pattern = if pattern { "Some(<S as ::parse_display::FromStrRegex>::from_str_regex())" } else { "None" };
    let text = format!(
        "#![allow(unused, deprecated, non_camel_case_types, non_snake_case, uncommon_codepoints)]\npub mod d {{\n{def}}}\nuse d::*;\npub fn entry() -> pd_rt::b::Checks {{ pd_rt::b::rich(@ID@, &[{oracles}], &{inputs:?}, |s| s.parse::<S>().ok().map(|v| match v {{\n{arms} }}), || {pattern}) }}\n"
    );
    Case { modules: vec![Module { text, expect: Expect::Runs }], features: g.feats.into_iter().collect(), shown: def, class: "rich".into() }
}
