//! C17: modules with several types that are easily confused: twins of each other that have the same name and size and
//! differ in the order of a few characters, parsed in generated histories by one or several threads.
use crate::items::*;
use pd_model::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Plain,
    Attr,
    With,
    Manual,
    Derived,
    U8,
    Tag(char),
    Generic(char),
    Rec,
    Panic,
}
#[derive(Clone, Debug)]
struct Fld {
    how: How,
    rx: Vec<usize>,
    affix: (&'static str, &'static str),
}
#[derive(Clone, Debug)]
struct Var {
    lits: Vec<String>,
    flds: Vec<Fld>,
    /// format order of the fields
    order: Vec<usize>,
}
type Shape = Vec<Var>;

const ATOMS: [(&str, &[&str]); 14] = [
    ("a", &["a"]),
    ("b", &["b"]),
    ("a+", &["a", "aa"]),
    ("b+", &["b", "bbb"]),
    ("[ab]", &["a", "b"]),
    ("[0-9]", &["0", "7"]),
    ("[1-9]", &["1", "9"]),
    ("x*", &["", "x", "xx"]),
    ("(?:ab)?", &["", "ab"]),
    ("(?:a|ba)", &["a", "ba"]),
    ("é", &["é"]),
    ("[a-c]{2}", &["ab", "cc"]),
    ("[^a]", &["b", "!", "é"]),
    ("y", &["y"]),
];
const LITS: [&str; 12] = ["", "<", ">", "-", "ab", "ba", ".", "x:", ":x", "éa", "aé", "  "];

fn fld(s: &mut Src, generic: bool) -> Fld {
    let how = match s.below(14) {
        0 | 1 => How::Plain,
        2..=4 => How::Attr,
        5 | 6 => How::With,
        7 => How::Manual,
        8 | 9 => How::Derived,
        10 => How::U8,
        11 => How::Tag(s.ch("abx!é")),
        _ if generic => How::Generic(s.ch("abx!é")),
        12 => How::Tag(s.ch("abx!é")),
        _ => How::Attr,
    };
    let n = 1 + s.below(4);
    Fld { how, rx: (0..n).map(|_| s.below(ATOMS.len())).collect(), affix: *s.pick(&[("<", ">"), (">", "<"), ("a", "b"), ("b", "a"), ("", "."), (".", "")]) }
}
fn var(s: &mut Src, en: bool, generic: bool) -> Var {
    let n = if en { s.below(3) } else { 1 + s.below(3) };
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    let mut lits: Vec<String> = (0..=n).map(|_| s.pick(&LITS).to_string()).collect();
    if n == 0 && lits[0].is_empty() {
        lits[0] = "ab".into();
    }
    let mut flds: Vec<Fld> = (0..n).map(|_| fld(s, generic)).collect();
    if !generic && n > 0 && s.pct(14) {
        // all others are plain
        let rec = s.pct(50);
        flds.iter_mut().for_each(|f| f.how = How::Plain);
        let at = s.below(n);
        flds[at].how = if rec { How::Rec } else { How::Panic };
        if rec && !lits.iter().any(|l| !l.is_empty()) {
            lits[0] = "<".into();
        }
    }
    Var { lits, flds, order }
}
/// a small change that keeps as much as possible
fn twin(s: &mut Src, sh: &Shape) -> Shape {
    let mut t = sh.clone();
    let k = s.below(t.len());
    if t.len() > 1 && s.pct(25) {
        t.swap(0, k.max(1));
        return t;
    }
    let v = &mut t[k];
    let nf = v.flds.len();
    match s.below(8) {
        0..=2 if nf > 0 => {
            let f = s.below(nf);
            let f = &mut v.flds[f];
            if f.rx.len() > 1 {
                let i = s.below(f.rx.len() - 1);
                f.rx.swap(i, i + 1);
            } else {
                f.rx[0] = s.below(ATOMS.len());
            }
            match &mut f.how {
                How::Tag(c) | How::Generic(c) => *c = s.ch("abx!é"),
                _ => {}
            }
        }
        3 => {
            let i = s.below(v.lits.len());
            let j = s.below(v.lits.len());
            v.lits.swap(i, j);
        }
        4 => {
            let i = s.below(v.lits.len());
            v.lits[i] = v.lits[i].chars().rev().collect();
        }
        5 if nf > 1 => v.order.rotate_left(1),
        6 if nf > 0 => {
            let f = s.below(nf);
            let f = &mut v.flds[f];
            f.affix = (f.affix.1, f.affix.0);
            f.how = match f.how {
                How::Attr => How::With,
                How::With => How::Attr,
                How::Manual => How::Derived,
                How::Derived => How::Manual,
                h => h,
            }
        }
        7 if nf > 1 => {
            let (a, b) = (v.flds[0].rx.clone(), v.flds[1].rx.clone());
            v.flds[0].rx = b;
            v.flds[1].rx = a;
        }
        _ => {} // the very same
    }
    let v = &mut t[k];
    if nf == 0 && v.lits[0].is_empty() {
        v.lits[0] = "ba".into();
    }
    let rec = v.flds.iter().any(|f| f.how == How::Rec);
    if rec && v.lits.iter().all(|l| l.is_empty()) {
        v.lits[0] = "<".into();
    }
    t
}
fn rx(f: &Fld) -> String {
    f.rx.iter().map(|a| ATOMS[*a].0).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
fn sample(s: &mut Src, sh: &Shape, k: usize, depth: usize) -> String {
    let v = &sh[k];
    let mut o = v.lits[0].clone();
    for (i, f) in v.order.iter().enumerate() {
        let f = &v.flds[*f];
        let t: String = f.rx.iter().map(|a| s.pick(ATOMS[*a].1).to_string()).collect();
        match f.how {
            How::Attr | How::With | How::Manual => o += &t,
            How::Derived => {
                o += f.affix.0;
                o += &t;
                o += f.affix.1;
            }
            How::U8 => o += *s.pick(&["0", "7", "255", "256", "", "x", "+1"]),
            How::Plain | How::Tag(_) | How::Generic(_) | How::Panic => o += *s.pick(&["", "a", "b", "x", "ab", "é!", "!", "\n", "<>", "a.b"]),
            How::Rec if depth > 0 => {
                let k = s.below(sh.len());
                o += &sample(s, sh, k, depth - 1)
            }
            How::Rec => {}
        }
        o += &v.lits[i + 1];
    }
    o
}

pub fn make(_: usize, choices: &[u32]) -> Case {
    let mut s = Src::new(choices);
    let mut feats: BTreeSet<String> = BTreeSet::new();
    let en = s.pct(35);
    let generic = s.pct(25);
    let mut base: Shape = (0..if en { 1 + s.below(3) } else { 1 }).map(|_| var(&mut s, en, generic)).collect();
    if !generic && s.pct(30) {
        // several patterns come from elsewhere
        for f in base.iter_mut().flat_map(|v| &mut v.flds) {
            f.how = *s.pick(&[How::With, How::With, How::Manual, How::Derived]);
        }
    }
    let mut types = vec![base];
    for _ in 0..1 + s.below(4) {
        let from = s.below(types.len());
        let from = types[from].clone();
        let t = if generic {
            // the outer type is one and the same
            let mut t = from;
            for v in &mut t {
                for f in &mut v.flds {
                    if let How::Generic(c) = &mut f.how {
                        *c = s.ch("abx!é");
                    }
                }
            }
            t
        } else {
            twin(&mut s, &from)
        };
        types.push(t);
    }
    let has_generic = types[0].iter().any(|v| v.flds.iter().any(|f| matches!(f.how, How::Generic(_))));
    feats.insert(if en { "enums" } else { "structs" }.into());
    if has_generic {
        feats.insert("instances of one generic type".into());
    }
    for f in types.iter().flatten().flat_map(|v| &v.flds) {
        feats.insert(format!("{:?}", f.how).split('(').next().unwrap().to_string());
    }
    let mut body = String::new();
    let mut shown = String::new();
    let mut outer = String::new();
    for (n, sh) in types.iter().enumerate() {
        let mut aux = String::new();
        let mut def = String::new();
        let mut vars = String::new();
        let mut arms = String::new();
        let tp = if has_generic { "<T>" } else { "" };
        let rec = sh.iter().any(|v| v.flds.iter().any(|f| f.how == How::Rec));
        if rec {
            aux += "struct R(Option<Box<S>>);\nimpl ::std::str::FromStr for R { type Err = ::parse_display::ParseError; fn from_str(s: &str) -> Result<Self, Self::Err> { if s.is_empty() { return Ok(R(None)); } Ok(R(Some(Box::new(s.parse()?)))) } }\n";
            aux += "impl R { fn get(&self) -> String { match &self.0 { None => \"-\".into(), Some(x) => format!(\"{:?}\", show(&**x)) } } }\n";
        }
        for (k, v) in sh.iter().enumerate() {
            let mut fmt = v.lits[0].clone();
            let mut o = esc(&v.lits[0]);
            let mut conv = String::new();
            let mut fs = String::new();
            let mut get = String::new();
            for (j, f) in v.flds.iter().enumerate() {
                let name = ["a", "b", "c"][j];
                let r = rx(f);
                let x = format!("X{k}{name}");
                let (attr, ty, g, c) = match f.how {
                    How::Plain => (String::new(), "String".to_string(), format!("{name}.clone()"), "Conv::Str".to_string()),
                    How::Attr => (format!("#[from_str(regex = {r:?})] "), "String".into(), format!("{name}.clone()"), "Conv::Str".into()),
                    How::With => (format!("#[from_str(with = pd_rt::b::RxFmt({r:?}))] "), "String".into(), format!("{name}.clone()"), "Conv::Str".into()),
                    How::Manual => {
                        write!(aux, "struct {x}(String);\nimpl ::std::str::FromStr for {x} {{ type Err = ::std::fmt::Error; fn from_str(s: &str) -> Result<Self, Self::Err> {{ Ok({x}(s.into())) }} }}\nimpl ::parse_display::FromStrRegex for {x} {{ fn from_str_regex() -> String {{ {r:?}.into() }} }}\n").unwrap();
                        ("#[from_str(regex_infer)] ".into(), x, format!("{name}.0.clone()"), "Conv::Str".into())
                    }
                    How::Derived => {
                        write!(aux, "#[derive(::parse_display::FromStr)] #[display({:?})] struct {x}(#[from_str(regex = {r:?})] String);\n", format!("{}{{0}}{}", f.affix.0, f.affix.1)).unwrap();
                        ("#[from_str(regex_infer)] ".into(), x, format!("{name}.0.clone()"), format!("Conv::Strip({:?}, {:?})", f.affix.0, f.affix.1))
                    }
                    How::U8 => (String::new(), "u8".into(), format!("{name}.to_string()"), "Conv::U8".into()),
                    How::Tag(c) | How::Generic(c) => {
                        let x = if matches!(f.how, How::Tag(_)) { x } else { "X".into() };
                        if !aux.contains(&format!("struct {x}(")) {
                            write!(aux, "struct {x}(String);\nimpl ::std::str::FromStr for {x} {{ type Err = ::std::fmt::Error; fn from_str(s: &str) -> Result<Self, Self::Err> {{ if s.contains({c:?}) {{ return Err(::std::fmt::Error); }} Ok({x}(format!(\"{{s}}/{c}\"))) }} }}\n").unwrap();
                        }
                        let ty = if matches!(f.how, How::Generic(_)) { "T".into() } else { x };
                        // there is one `X` only
                        let c = if ty == "T" { first_generic(sh) } else { c };
                        (String::new(), ty, format!("{name}.0.clone()"), format!("Conv::Tag({c:?})"))
                    }
                    How::Rec => (String::new(), "R".into(), format!("{name}.get()"), "Conv::Rec".into()),
                    How::Panic => {
                        write!(aux, "struct {x}(String);\nimpl ::std::str::FromStr for {x} {{ type Err = ::std::fmt::Error; fn from_str(s: &str) -> Result<Self, Self::Err> {{ if s.contains('!') {{ panic!(\"!\") }} Ok({x}(s.into())) }} }}\n").unwrap();
                        (String::new(), x, format!("{name}.0.clone()"), "Conv::Panic".into())
                    }
                };
                write!(fs, "{attr}{}{name}: {ty}, ", "").unwrap();
                get += &format!("{g}, ");
                conv += &format!("{c}, ");
            }
            for (i, j) in v.order.iter().enumerate() {
                let f = &v.flds[*j];
                fmt += &format!("{{{}}}", ["a", "b", "c"][*j]);
                let r = match f.how {
                    How::Attr | How::With | How::Manual => rx(f),
                    How::Derived => format!("{}(?:{}){}", esc(f.affix.0), rx(f), esc(f.affix.1)),
                    _ => "(?s:.*?)".into(),
                };
                write!(o, "(?P<g{j}>{r})").unwrap();
                fmt += &v.lits[i + 1];
                o += &esc(&v.lits[i + 1]);
            }
            let names: String = (0..v.flds.len()).map(|j| format!("{}, ", ["a", "b", "c"][j])).collect();
            let (open, close) = if v.flds.is_empty() { ("", "") } else { ("{ ", "}") };
            if en {
                write!(def, "#[display({fmt:?})] V{k} {open}{fs}{close},\n").unwrap();
                write!(arms, "S::V{k} {{ {names} .. }} => vec![{k:?}.to_string(), {get}],\n", k = k).unwrap();
            } else {
                def = format!("#[derive(::parse_display::FromStr)]\n#[display({fmt:?})]\nstruct S{tp} {{ {fs}}}\n");
                write!(arms, "S {{ {names} .. }} => vec![\"0\".to_string(), {get}],\n").unwrap();
            }
            // a struct is no literal variant, but that makes no difference for one
            write!(vars, "Var {{ literal: {}, oracle: {o:?}, conv: &[{conv}] }}, ", v.flds.is_empty()).unwrap();
        }
        if en {
            def = format!("#[derive(::parse_display::FromStr)]\nenum S{tp} {{\n{def}}}\n");
        }
        let inst = if has_generic { "S<X>" } else { "S" };
        let fixed = if has_generic && n > 0 { String::new() } else { def };
        if has_generic {
            // other helpers of the outer type are shared, too
            if n == 0 {
                let (own, shared): (Vec<&str>, Vec<&str>) = split_items(&aux).into_iter().partition(|i| i.contains("struct X(") || i.contains(" for X "));
                outer = shared.concat() + &fixed;
                aux = own.concat();
            } else {
                aux = split_items(&aux).into_iter().filter(|i| i.contains("struct X(") || i.contains(" for X ")).collect();
            }
        }
        let def = if has_generic { String::new() } else { fixed };
        write!(shown, "{}{aux}{def}", if n == 0 { outer.as_str() } else { "" }).unwrap();
        write!(
            body,
            "{{\n{aux}{def}fn show(v: &{inst}) -> Vec<String> {{ match v {{\n{arms} }} }}\nv.push(Ty {{ parse: |s| s.parse::<{inst}>().ok().map(|v| show(&v)), pattern: || <{inst} as ::parse_display::FromStrRegex>::from_str_regex(), vars: vec![{vars}] }});\n}}\n"
        )
        .unwrap();
    }
    // texts, each for some types
    let mut ops: Vec<(usize, String)> = vec![];
    for _ in 0..4 + s.below(6) {
        let t = s.below(types.len());
        let k = s.below(types[t].len());
        let mut x = sample(&mut s, &types[t], k, 2);
        if s.pct(15) {
            let mut cs: Vec<char> = x.chars().collect();
            if cs.is_empty() || s.pct(50) {
                cs.push(s.ch("ab<é!"));
            } else {
                cs.pop();
            }
            x = cs.into_iter().collect();
        }
        for u in 0..types.len() {
            if u == t || s.pct(60) {
                ops.push((u, x.clone()));
            }
        }
    }
    let threads = *s.pick(&[1usize, 1, 2, 3, 4]);
    feats.insert(format!("{threads} threads"));
    let orders: Vec<String> = (0..threads)
        .map(|_| {
            let mut o: Vec<usize> = (0..ops.len()).collect();
            s.shuffle(&mut o);
            o.extend((0..ops.len()).rev());
            format!("&{o:?}")
        })
        .collect();
    let text = format!(
        "#![allow(unused, deprecated)]\nuse pd_rt::h::*;\npub fn entry() -> pd_rt::b::Checks {{\nlet mut v: Vec<Ty> = vec![];\n{outer}{body}run(@ID@, v, &{ops:?}, &[{}])\n}}\n",
        orders.join(", ")
    );
    Case { modules: vec![Module { text, expect: Expect::Runs }], features: feats.into_iter().collect(), shown, class: "twins".into() }
}
fn first_generic(sh: &Shape) -> char {
    sh.iter()
        .flat_map(|v| &v.flds)
        .find_map(|f| match f.how {
            How::Generic(c) => Some(c),
            _ => None,
        })
        .unwrap_or('a')
}
/// one item per line
fn split_items(s: &str) -> Vec<&str> {
    s.split_inclusive('\n').collect()
}
