//! C01, C02, C11: definitions around types the reference model does not know (pointers, slices, unsized tails, trait
//! objects, library types, lifetimes, const parameters, recursion). What they must print is computed by std's own
//! formatting of the same parts of the same value.
use crate::items::*;
use pd_model::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

/// (type, values, format traits; `D` is Display, `p` Pointer)
const TYPES: &[(&str, &[&str], &str)] = &[
    ("&'static u32", &["&7", "&4000000000", "&0"], "D?xXobeEp"),
    ("*const u8", &["0x10 as *const u8", "::core::ptr::null()", "&5"], "?p"),
    ("*mut [u8; 3]", &["::core::ptr::null_mut()", "0x7fff0000 as *mut [u8; 3]"], "?p"),
    ("fn(u8) -> u8", &["|x| x", "|x| x + 1"], "?p"),
    ("::std::boxed::Box<i16>", &["Box::new(-3)", "Box::new(300)"], "D?p"),
    ("::std::rc::Rc<str>", &["\"rc\".into()", "\"é\\n\".into()", "\"\".into()"], "D?p"),
    ("::std::sync::Arc<[u8]>", &["vec![1u8, 255].into()", "vec![].into()"], "?p"),
    ("::std::borrow::Cow<'static, str>", &["\"cow\".into()", "String::from(\"bull\").into()"], "D?"),
    ("&'static str", &["\"\"", "\"static {}\"", "\"日本\""], "D?p"),
    ("&'static [i8]", &["&[1, -2]", "&[]"], "?p"),
    ("[u8; 3]", &["[1, 20, 255]", "[0; 3]"], "?"),
    ("(i32, &'static str)", &["(-5, \"five\")", "(0, \"\")"], "?"),
    ("()", &["()"], "?"),
    ("::std::vec::Vec<::std::string::String>", &["vec![\"a\".to_string(), \"b\\\"\".to_string()]", "vec![]"], "?"),
    ("::std::collections::BTreeMap<u8, &'static str>", &["[(1, \"x\"), (255, \"y\")].into()", "Default::default()"], "?"),
    ("::core::option::Option<u8>", &["Some(200)", "None"], "?"),
    ("::core::result::Result<u8, ::std::string::String>", &["Ok(1)", "Err(\"e\".to_string())"], "?"),
    ("::core::num::Wrapping<i8>", &["::core::num::Wrapping(-128)", "::core::num::Wrapping(9)"], "D?xXob"),
    ("::core::num::NonZeroI16", &["::core::num::NonZeroI16::new(-300).unwrap()", "::core::num::NonZeroI16::new(8).unwrap()"], "D?xXob"),
    ("::core::num::Saturating<u64>", &["::core::num::Saturating(77)"], "D?xXob"),
    ("::std::net::Ipv4Addr", &["::std::net::Ipv4Addr::new(10, 0, 0, 255)"], "D?"),
    ("::std::net::IpAddr", &["\"::1\".parse().unwrap()", "\"1.2.3.4\".parse().unwrap()"], "D?"),
    ("::std::time::Duration", &["::std::time::Duration::from_micros(1234567)", "::std::time::Duration::ZERO"], "?"),
    ("::core::marker::PhantomData<u8>", &["::core::marker::PhantomData"], "?"),
    ("::core::cell::Cell<u16>", &["::core::cell::Cell::new(500)"], "?"),
    ("::core::cell::RefCell<f32>", &["::core::cell::RefCell::new(1.25)"], "?"),
    ("::core::cmp::Ordering", &["::core::cmp::Ordering::Less"], "?"),
    ("::core::ops::Range<u8>", &["3..40"], "?"),
    ("&'static dyn ::core::fmt::Display", &["&12u8", "&\"dyn\"", "&-1.5f32"], "Dp"),
    ("::std::boxed::Box<dyn ::core::fmt::Debug>", &["Box::new([1u8, 2])", "Box::new(\"b\")"], "?p"),
    ("&'static dyn ::core::fmt::LowerHex", &["&255u8", "&-1i8"], "xp"),
    ("::std::boxed::Box<dyn ::core::fmt::UpperExp>", &["Box::new(1234.5f64)"], "p"),
    ("u128", &["u128::MAX", "0", "99"], "D?xXobeE"),
    ("i64", &["i64::MIN", "-1", "255"], "D?xXobeE"),
    ("f64", &["-0.0", "1e300", "f64::NAN", "0.1", "-f64::INFINITY", "12345.678"], "D?eE"),
    ("f32", &["16777217.0", "1.5e-9", "f32::INFINITY"], "D?eE"),
    ("char", &["'x'", "'\\u{301}'", "'\\n'", "'日'"], "D?"),
    ("bool", &["true", "false"], "D?"),
    ("::core::char::ToUppercase", &["'ß'.to_uppercase()"], "D?"),
    ("::core::ascii::EscapeDefault", &["::core::ascii::escape_default(b'\\n')"], "D"),
    ("pd_rt::b::Picky", &["pd_rt::b::Picky(3)", "pd_rt::b::Picky(250)"], "D?xXobeEp"),
];
/// a value of a tuple or struct field, reached by a path of several names
const DEEP: &[(&str, &[&str], &[(&str, &str)])] = &[
    ("(u8, (i32, char))", &["(7, (-90, 'c'))", "(255, (0, 'é'))"], &[("0", "D?xXobeE"), ("1.0", "D?xXobeE"), ("1.1", "D?")]),
    ("((), &'static str)", &["((), \"deep\")"], &[("0", "?"), ("1", "D?p")]),
    ("pd_rt::b::Deep", &["pd_rt::b::Deep::new(4)", "pd_rt::b::Deep::new(-77)"], &[("n", "D?xXobeE"), ("r#type", "D?"), ("inner.0", "D?eE"), ("inner.1", "?"), ("at", "D?xXobeEp"), ("naïve", "D?")]),
    ("::core::ops::Range<i16>", &["-1..30"], &[("start", "D?xXobeE"), ("end", "D?xXobeE")]),
    ("&'static (u8, f32)", &["&(200, 0.5)"], &[("0", "D?xXob"), ("1", "D?eE")]),
    ("::std::boxed::Box<(u8, &'static u8)>", &["Box::new((1, &2))"], &[("0", "D?xXob"), ("1", "D?xp")]),
    ("::core::num::Wrapping<u8>", &["::core::num::Wrapping(201)"], &[("0", "D?xXob")]),
    ("[(u8, u8); 0]", &["[]"], &[]),
];

struct G<'a> {
    s: Src<'a>,
    feats: BTreeSet<String>,
    c11: bool,
}
/// `"{:spec}"` as a literal
fn fs_(sp: &str) -> String {
    format!("{:?}", format!("{{:{sp}}}"))
}
struct Field {
    attr: String,
    ty: String,
    value: String,
    /// (placeholder without braces, piece of the expected text); `@` is the place of the field
    holes: Vec<(String, String)>,
}

impl G<'_> {
    fn spec(&mut self, traits: &str) -> String {
        let ts: Vec<char> = traits.chars().collect();
        let t = *self.s.pick(&ts);
        let must = !traits.contains('D');
        if !must && self.s.pct(25) {
            return String::new();
        }
        let mut o = String::new();
        if self.s.pct(35) {
            if self.s.pct(60) {
                o.push(*self.s.pick(&['*', ' ', '0', '#', '+', '-', '<', '^', '日', '?', 'x', '$', '.', ':', '"', '\\', '1', '\u{1F600}', '\'']));
            }
            o.push(*self.s.pick(&['<', '^', '>']));
        }
        if self.s.pct(20) {
            o.push(*self.s.pick(&['+', '+', '-']));
        }
        if self.s.pct(30) {
            o.push('#');
        }
        if self.s.pct(20) {
            o.push('0');
        }
        if self.s.pct(45) {
            write!(o, "{}", self.s.pick(&["1", "2", "5", "7", "10", "17", "18", "20", "33", "007"])).unwrap();
        }
        if self.s.pct(25) {
            write!(o, ".{}", self.s.pick(&["0", "1", "2", "3", "8", "20", "03"])).unwrap();
        }
        if t != 'D' {
            if t == '?' && self.s.pct(25) {
                o.push(*self.s.pick(&['x', 'X']));
            }
            o.push(t);
        }
        self.feats.insert(format!("trait {t}"));
        o
    }
    fn lit(&mut self) -> String {
        self.s.pick(&["", " ", "a", "-", "/", "é", "\n", "{{", "}}", "{{}}", ": ", "\"", "\\", "0", "日", "}}{{"]).to_string()
    }
    fn field(&mut self) -> Field {
        let hole = |p: &str, s: &str| if s.is_empty() { p.to_string() } else { format!("{p}:{s}") };
        if self.s.pct(if self.c11 { 0 } else { 20 }) {
            let (ty, values, paths) = self.s.pick(&DEEP[..DEEP.len() - 1]);
            let value = self.s.pick(values).to_string();
            let mut holes = vec![];
            for _ in 0..1 + self.s.below(2) {
                let (p, traits) = *self.s.pick(paths);
                let sp = self.spec(traits);
                let fs = fs_(&sp);
                holes.push((hole(&format!("@.{p}"), &sp), format!("t += &format!({fs}, @.{p});")));
            }
            self.feats.insert("nested path".into());
            return Field { attr: String::new(), ty: ty.to_string(), value, holes };
        }
        let (ty, values, traits) = *self.s.pick(TYPES);
        let value = self.s.pick(values).to_string();
        self.feats.insert(ty.replace("::core::", "").replace("::std::", ""));
        let kind = if self.c11 { 60 + self.s.below(40) } else { self.s.below(90) };
        match kind {
            // as it is
            0..=44 => {
                let mut holes = vec![];
                for _ in 0..1 + self.s.below(2) {
                    let sp = self.spec(traits);
                    let fs = fs_(&sp);
                    holes.push((hole("@", &sp), format!("t += &format!({fs}, @);")));
                }
                Field { attr: String::new(), ty: ty.into(), value, holes }
            }
            // a format of its own
            45..=64 => {
                let (mut f, mut e) = (String::new(), String::new());
                for _ in 0..1 + self.s.below(2) {
                    let l = self.lit();
                    write!(e, "t += {:?}; ", l.replace("{{", "{").replace("}}", "}")).unwrap();
                    let sp = self.spec(traits);
                    let fs = fs_(&sp);
                    f += &l;
                    f += &format!("{{{}}}", hole("", &sp));
                    write!(e, "t += &format!({fs}, @); ").unwrap();
                }
                self.feats.insert("field format".into());
                Field { attr: format!("#[display({f:?})] "), ty: ty.into(), value, holes: vec![("@".into(), e)] }
            }
            // optional
            65..=74 => {
                let sp = self.spec(traits);
                let fs = fs_(&sp);
                let none = self.s.pct(30);
                self.feats.insert(if none { "opt, absent" } else { "opt, present" }.into());
                let o = *self.s.pick(&["::core::option::Option", "::std::option::Option"]);
                Field {
                    attr: "#[display(opt)] ".into(),
                    ty: format!("{o}<{ty}>"),
                    value: if none { "None".into() } else { format!("Some({value})") },
                    holes: vec![(hole("@", &sp), format!("if let Some(x) = &@ {{ t += &format!({fs}, *x); }}"))],
                }
            }
            // optional with a format of its own
            _ => {
                let (mut f, mut e) = (String::new(), String::new());
                for _ in 0..1 + self.s.below(2) {
                    let l = self.lit();
                    write!(e, "t += {:?}; ", l.replace("{{", "{").replace("}}", "}")).unwrap();
                    let sp = self.spec(traits);
                    let fs = fs_(&sp);
                    f += &l;
                    f += &format!("{{{}}}", hole("", &sp));
                    write!(e, "t += &format!({fs}, *x); ").unwrap();
                }
                let none = self.s.pct(30);
                self.feats.insert(if none { "opt format, absent" } else { "opt format, present" }.into());
                Field {
                    attr: format!("#[display({f:?}, opt)] "),
                    ty: format!("::core::option::Option<{ty}>"),
                    value: if none { "None".into() } else { format!("Some({value})") },
                    holes: vec![("@".into(), format!("if let Some(x) = &@ {{ {e} }}"))],
                }
            }
        }
    }
}

const NAMES: &[&str] = &["a", "b2", "r#type", "naïve", "f", "self_", "value", "_0", "r#fn", "Σ", "x1y", "core"];

fn shape(g: &mut G, k: usize, generic: bool) -> (String, String, String) {
    let n = 1 + g.s.below(3);
    let named = g.s.pct(50);
    let fields: Vec<Field> = (0..n).map(|_| g.field()).collect();
    let mut names: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
    g.s.shuffle(&mut names);
    if !named {
        names = (0..n).map(|i| i.to_string()).collect();
    }
    let mut holes = vec![];
    for (i, f) in fields.iter().enumerate() {
        for h in &f.holes {
            holes.push((i, h.clone()));
        }
        if f.holes.len() == 1 && g.s.pct(15) {
            holes.push((i, f.holes[0].clone()));
        }
    }
    g.s.shuffle(&mut holes);
    let (mut fmt, mut exp) = (String::new(), String::new());
    for (i, (h, e)) in &holes {
        let l = g.lit();
        fmt += &l;
        write!(exp, "t += {:?};\n", l.replace("{{", "{").replace("}}", "}")).unwrap();
        let place = if generic || true { names[*i].clone() } else { String::new() };
        let shown = if g.s.pct(50) && h.matches("r#").count() == 0 { place.trim_start_matches("r#").to_string() } else { place.clone() };
        fmt += &format!("{{{}}}", h.replacen('@', &shown, 1));
        exp += &e.replace('@', &format!("@{i}@"));
        exp.push('\n');
    }
    let l = g.lit();
    fmt += &l;
    write!(exp, "t += {:?};\n", l.replace("{{", "{").replace("}}", "}")).unwrap();
    let mut body = String::new();
    let mut value = String::new();
    for (i, f) in fields.iter().enumerate() {
        if named {
            write!(body, "    {}{}: {},\n", f.attr, names[i], f.ty).unwrap();
            write!(value, "{}: {}, ", names[i], f.value).unwrap();
        } else {
            write!(body, "    {}{},\n", f.attr, f.ty).unwrap();
            write!(value, "{}, ", f.value).unwrap();
        }
    }
    let _ = k;
    let (o, c) = if named { ("{", "}") } else { ("(", ")") };
    // expected text by the fields of `v`, or by bindings
    for i in 0..n {
        exp = exp.replace(&format!("@{i}@"), &format!("$PLACE{}$", names[i]));
    }
    let pat = if named {
        let mut p = String::new();
        for (i, x) in names[..n].iter().enumerate() {
            write!(p, "{x}: p{i}, ").unwrap();
        }
        format!("{{ {p} }}")
    } else {
        format!("({})", (0..n).map(|i| format!("p{i}, ")).collect::<String>())
    };
    let head = format!("#[display({fmt:?})]\n");
    let bound: Vec<(String, String)> = (0..n).map(|i| (format!("$PLACE{}$", names[i]), format!("(*p{i})"))).collect();
    let mut exp2 = exp;
    for (a, b) in bound {
        exp2 = exp2.replace(&a, &b);
    }
    (format!("{head}@NAME@ {o}\n{body}{c}"), format!("@PATH@ {o} {value} {c}"), format!("@PATH@ {pat} => {{\n{exp2}}}\n"))
}

pub fn make_c11(i: usize, choices: &[u32]) -> Case {
    make_with(i, choices, true)
}
pub fn make(i: usize, choices: &[u32]) -> Case {
    make_with(i, choices, false)
}
fn make_with(_: usize, choices: &[u32], c11: bool) -> Case {
    let mut g = G { s: Src::new(choices), feats: BTreeSet::new(), c11 };
    let special = if c11 { 99 } else { g.s.below(100) };
    let (def, cases): (String, Vec<(String, String)>) = match special {
        0..=5 => unsized_tail(&mut g),
        6..=9 => recursive(&mut g),
        10..=15 => parameters(&mut g),
        _ => {
            if g.s.pct(60) {
                let (d, v, arm) = shape(&mut g, 0, false);
                let semi = if d.ends_with(')') { ";" } else { "" };
                let def = format!("#[derive(::parse_display::Display)]\n{}{semi}\n", d.replace("@NAME@", "pub struct S"));
                (def, vec![(format!("S{}", v.replace("@PATH@", "")), arm.replace("@PATH@", "S"))])
            } else {
                let n = 1 + g.s.below(3);
                let mut def = String::from("#[derive(::parse_display::Display)]\npub enum S {\n");
                let mut cases = vec![];
                for k in 0..n {
                    let (d, v, arm) = shape(&mut g, k, false);
                    write!(def, "{},\n", d.replace("@NAME@ ", &format!("V{k}"))).unwrap();
                    cases.push((v.replace("@PATH@", &format!("S::V{k}")), arm.replace("@PATH@", &format!("S::V{k}")) + "_ => {}\n"));
                }
                def += "}\n";
                (def, cases)
            }
        }
    };
    let mut texts = String::new();
    for (v, arm) in cases {
        let shown = v.clone();
        write!(
            texts,
            "{{ let v = {v}; let want = pd_rt::b::caught(|| {{ let mut t = String::new(); match &v {{ {arm} }} t }}); let got = pd_rt::b::caught(|| format!(\"{{}}\", v)); texts.push(({shown:?}.to_string(), want, got)); }}\n"
        )
        .unwrap();
    }
    let text = format!(
        "#![allow(unused, deprecated, non_camel_case_types, non_snake_case, unreachable_patterns, uncommon_codepoints)]\nuse std::boxed::Box;\npub mod d {{\nuse std::{{boxed::Box, string::String, vec::Vec}};\n{}}}\nuse d::*;\npub fn entry() -> pd_rt::b::Checks {{ let mut texts = vec![];\n{texts} pd_rt::b::Checks {{ unit: @ID@, checks: vec![], texts }} }}\n",
        publish(&def)
    );
    Case { modules: vec![Module { text, expect: Expect::Runs }], features: g.feats.into_iter().collect(), shown: def, class: "exotic".into() }
}
/// the definition sits in a module of its own
fn publish(def: &str) -> String {
    let mut inside_struct = false;
    let mut o = String::new();
    for l in def.split_inclusive('\n') {
        if l.starts_with("pub struct") {
            inside_struct = true;
        }
        if l.starts_with("pub enum") {
            inside_struct = false;
        }
        if inside_struct && l.starts_with("    ") {
            // attributes come first
            let t = &l[4..];
            let (a, rest) = match t.strip_prefix("#[") {
                // the attribute ends at the first ")] " outside of strings; it is followed by exactly one space
                Some(_) => {
                    let at = t.rfind(")] ").unwrap() + 3;
                    t.split_at(at)
                }
                None => ("", t),
            };
            o += &format!("    {a}pub {rest}");
        } else {
            o += l;
        }
    }
    o
}

/// the last field is unsized
fn unsized_tail(g: &mut G) -> (String, Vec<(String, String)>) {
    g.feats.insert("unsized tail".into());
    let (ty, value, traits): (&str, &str, &str) = *g.s.pick(&[
        ("[u8]", "[1u8, 2, 200]", "?"),
        ("[&'static str]", "[\"a\", \"b\"]", "?"),
        ("dyn ::core::fmt::Display", "-42i64", "D"),
        ("dyn ::core::fmt::Debug", "(1, 'x')", "?"),
        ("dyn ::core::fmt::Octal", "64u8", "o"),
        ("dyn ::core::fmt::LowerHex", "255u8", "x"),
        ("dyn ::core::fmt::LowerExp", "1500.0f64", "e"),
    ]);
    let sp = g.spec(traits);
    let fs = fs_(&sp);
    let (l1, l2) = (g.lit(), g.lit());
    let un = |l: &str| l.replace("{{", "{").replace("}}", "}");
    let own = g.s.pct(30);
    let h = if sp.is_empty() { "tail".into() } else { format!("tail:{sp}") };
    let mut def = String::from("#[derive(::parse_display::Display)]\n");
    if own {
        let h = if sp.is_empty() { "{}".into() } else { format!("{{:{sp}}}") };
        write!(def, "#[display({:?})]\npub struct S<T: ?Sized> {{\n    head: u8,\n    #[display({:?})] tail: T,\n}}\n", "{head}{tail}", format!("{l1}{h}{l2}")).unwrap();
    } else {
        write!(def, "#[display({:?})]\npub struct S<T: ?Sized> {{\n    head: u8,\n    tail: T,\n}}\n", format!("{{head}}{l1}{{{h}}}{l2}")).unwrap();
    }
    // a trait object has no bound of its own to give: ask for it where the format wants one
    let v = format!("{{ let b: Box<S<{ty}>> = Box::new(S {{ head: 9, tail: {value} }}); b }}");
    let e = format!("_ => {{ t += \"9\"; t += {:?}; t += &format!({fs}, &v.tail); t += {:?}; }}", un(&l1), un(&l2));
    (def, vec![(v, e)])
}

fn recursive(g: &mut G) -> (String, Vec<(String, String)>) {
    g.feats.insert("recursive".into());
    let sp = g.spec("D");
    let fs = fs_(&sp);
    let h = if sp.is_empty() { String::new() } else { format!(":{sp}") };
    let (l1, l2, l3) = (g.lit(), g.lit(), g.lit());
    let un = |l: &str| l.replace("{{", "{").replace("}}", "}");
    let depth = 1 + g.s.below(6);
    if g.s.pct(50) {
        let mut def = String::from("#[derive(::parse_display::Display)]\npub enum S {\n");
        write!(def, "#[display({:?})] Leaf(i32),\n#[display({:?})] Not(Box<S>),\n#[display({:?})] Two {{ a: Box<S>, b: Box<S> }},\n}}\n", format!("{{0{h}}}"), format!("!{{0{h}}}"), format!("{l1}{{a}}{l2}{{b{h}}}{l3}")).unwrap();
        write!(def, "pub fn want(s: &S) -> String {{ match s {{ S::Leaf(i) => format!({fs}, i), S::Not(a) => \"!\".to_string() + &want(a), S::Two {{ a, b }} => [{:?}, &want(a), {:?}, &want(b), {:?}].concat() }} }}\n", un(&l1), un(&l2), un(&l3)).unwrap();
        fn tree(g: &mut G, d: usize) -> String {
            if d == 0 {
                return format!("S::Leaf({})", g.s.pick(&["0", "-7", "123456", "i32::MIN"]));
            }
            match g.s.below(3) {
                0 => format!("S::Not(Box::new({}))", tree(g, d - 1)),
                1 => format!("S::Two {{ a: Box::new({}), b: Box::new({}) }}", tree(g, d - 1), tree(g, d / 2)),
                _ => format!("S::Two {{ a: Box::new({}), b: Box::new({}) }}", tree(g, d / 2), tree(g, d - 1)),
            }
        }
        let v = tree(g, depth);
        (def, vec![(v, "x => t = want(x)".into())])
    } else {
        let mut def = String::from("#[derive(::parse_display::Display)]\n");
        write!(def, "#[display({:?})]\npub struct S {{\n    head: i32,\n    #[display({:?}, opt)] tail: ::core::option::Option<Box<S>>,\n}}\n", format!("{l1}{{head{h}}}{{tail}}"), format!("{l2}{{}}{l3}")).unwrap();
        write!(def, "pub fn want(s: &S) -> String {{ let rest = match &s.tail {{ None => String::new(), Some(x) => [{:?}, &want(x), {:?}].concat() }}; [{:?}, &format!({fs}, s.head), &rest].concat() }}\n", un(&l2), un(&l3), un(&l1)).unwrap();
        let mut v = "None".to_string();
        for k in 0..depth {
            v = format!("Some(Box::new(S {{ head: {}, tail: {v} }}))", k as i32 * 37 - 20);
        }
        (def, vec![(format!("S {{ head: 1, tail: {v} }}"), "x => t = want(x)".into())])
    }
}

/// lifetimes, const parameters, where clauses, defaults of parameters, associated types
fn parameters(g: &mut G) -> (String, Vec<(String, String)>) {
    g.feats.insert("parameters".into());
    let sp = g.spec("D?");
    let fs = fs_(&sp);
    let h = if sp.is_empty() { String::new() } else { format!(":{sp}") };
    let hd = if sp.ends_with('?') { h.clone() } else { format!("{}?", if h.is_empty() { ":".into() } else { h.clone() }) };
    let spd = hd.trim_start_matches(':').to_string();
    let fsd = fs_(&spd);
    let l = g.lit();
    let u = l.replace("{{", "{").replace("}}", "}");
    match g.s.below(6) {
        0 => (
            format!("#[derive(::parse_display::Display)]\n#[display({:?})]\npub struct S<'a, 'b: 'a, T: ?Sized> {{\n    a: &'a T,\n    b: &'b str,\n}}\n", format!("{l}{{a{h}}}{{b{h}}}")),
            vec![("S { a: \"abc\", b: \"d\" }".into(), format!("S {{ a, b }} => {{ t += {u:?}; t += &format!({fs}, a); t += &format!({fs}, b); }}"))],
        ),
        1 => (
            format!("#[derive(::parse_display::Display)]\n#[display({:?})]\npub struct S<const N: usize, const B: bool> {{\n    a: [u8; N],\n    b: bool,\n}}\n", format!("{{a{hd}}}{l}{{b}}")),
            vec![("S::<3, true> { a: [1, 2, 255], b: false }".into(), format!("S {{ a, b }} => {{ t += &format!({fsd}, a); t += {u:?}; t += &format!(\"{{}}\", b); }}"))],
        ),
        2 => (
            format!("#[derive(::parse_display::Display)]\npub enum S<T, U = u8> where T: Clone {{\n#[display({:?})] A(T),\n#[display({:?})] B {{ x: Vec<U>, y: T }},\n{{}}\n}}\n", format!("{{0{h}}}{l}"), format!("{l}{{x{hd}}}{{y}}")).replace("{}\n", "C,\n"),
            vec![
                ("S::<f32>::A(-1.5)".into(), format!("S::A(a) => {{ t += &format!({fs}, a); t += {u:?}; }} _ => {{}}")),
                ("S::<&str> ::B { x: vec![1, 2], y: \"w\" }".into(), format!("S::B {{ x, y }} => {{ t += {u:?}; t += &format!({fsd}, x); t += &format!(\"{{}}\", y); }} _ => {{}}")),
                ("S::<u8, u8>::C".into(), "_ => t += \"C\"".into()),
            ],
        ),
        3 => (
            format!("#[derive(::parse_display::Display)]\n#[display({:?})]\npub struct S<I: ::core::iter::Iterator> {{\n    a: I::Item,\n    b: <I as ::core::iter::Iterator>::Item,\n}}\n", format!("{{a{h}}}{l}{{b{h}}}")),
            vec![("S::<::std::vec::IntoIter<u16>> { a: 3, b: 65535 }".into(), format!("S {{ a, b }} => {{ t += &format!({fs}, a); t += {u:?}; t += &format!({fs}, b); }}"))],
        ),
        4 => (
            format!("#[derive(::parse_display::Display)]\npub struct S<T>(#[display({:?})] T);\n", format!("{l}{{{h}}}")).replace("pub struct S<T>(", "pub struct S<T>(\n    ").replace(" T);", " T,\n);"),
            vec![
                ("S('q')".into(), format!("S(a) => {{ t += {u:?}; t += &format!({fs}, a); }}")),
                ("S(S(-1i8))".into(), if sp.is_empty() || sp == "D" { format!("S(S(a)) => {{ t += {u:?}; t += {u:?}; t += &format!({fs}, a); }}") } else { String::new() }),
            ]
            .into_iter()
            .filter(|c: &(String, String)| !c.1.is_empty())
            .collect(),
        ),
        _ => (
            format!("#[derive(::parse_display::Display)]\npub enum Never {{}}\n#[derive(::parse_display::Display)]\n#[display({:?})]\npub struct S<'a, T> {{\n    r#fn: &'a &'a T,\n    never: ::core::option::Option<&'a Never>,\n    n: ::core::marker::PhantomData<T>,\n}}\n", format!("{{fn{h}}}{l}{{n:?}}")),
            vec![("S { r#fn: &&7.25f64, never: None, n: ::core::marker::PhantomData }".into(), format!("S {{ r#fn, n, .. }} => {{ t += &format!({fs}, r#fn); t += {u:?}; t += &format!(\"{{:?}}\", n); }}"))],
        ),
    }
}
