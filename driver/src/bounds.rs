//! C15: generic definitions and, for concrete type arguments, whether the derived traits must be implemented.
use crate::items::*;
use pd_model::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

const D: &str = "::core::fmt::Display";
const F: &str = "::core::str::FromStr";
const RX: &str = "::parse_display::FromStrRegex";
/// (format type, trait)
const TRAITS: [(&str, &str); 9] = [
    ("", D),
    ("?", "::core::fmt::Debug"),
    ("x", "::core::fmt::LowerHex"),
    ("X", "::core::fmt::UpperHex"),
    ("o", "::core::fmt::Octal"),
    ("b", "::core::fmt::Binary"),
    ("e", "::core::fmt::LowerExp"),
    ("E", "::core::fmt::UpperExp"),
    ("p", "::core::fmt::Pointer"),
];
type Pred = (String, String);

#[derive(Clone, Default)]
struct Preds {
    d: Vec<Pred>,
    f: Vec<Pred>,
}
impl Preds {
    fn add(&mut self, o: Preds) {
        self.d.extend(o.d);
        self.f.extend(o.f);
    }
}

struct G<'a> {
    s: Src<'a>,
    display: bool,
    from_str: bool,
    np: usize,
    konst: bool,
    life: bool,
    /// markers every argument for a parameter must have
    need: Vec<BTreeSet<&'static str>>,
    names: [&'static str; 3],
    feats: BTreeSet<String>,
    /// the struct has a default of its own
    sdef: bool,
}

fn mentions(t: &str) -> bool {
    t.contains('$') && (["$0", "$1", "$2", "$n"].iter().any(|p| t.contains(p)))
}

struct FieldOut {
    attrs: String,
    ty: String,
    /// placeholder text
    place: String,
    printed: bool,
    parsed: bool,
}

impl G<'_> {
    fn render(&self, t: &str) -> String {
        let mut t = t.to_string();
        for (i, n) in self.names.iter().enumerate() {
            t = t.replace(&format!("${i}"), n);
        }
        t.replace("$n", "N").replace("$a", "'a")
    }
    fn p(&mut self) -> String {
        format!("${}", self.s.below(self.np))
    }
    fn ty(&mut self, parsed: bool, from_default: bool) -> String {
        let p = self.p();
        if from_default {
            // a field that is filled by its default
            return match self.s.below(6) {
                0 => format!("::core::option::Option<{p}>"),
                1 => "i32".into(),
                2 => format!("::std::vec::Vec<{p}>"),
                3 => format!("PhantomData<{p}>"),
                4 => "::std::string::String".into(),
                _ => {
                    let i = p[1..].parse::<usize>().unwrap();
                    self.need[i].insert("Default");
                    p
                }
            };
        }
        let q = self.p();
        match self.s.below(if parsed { 15 } else { 22 }) {
            0..=4 => p,
            5 => format!("Wd<{p}>"),
            6 => format!("Wh<{p}>"),
            7 => format!("Wm<{p}, {q}>"),
            8 => format!("Wa<{p}>"),
            9 => format!("Wd<Wh<{p}>>"),
            10 => {
                self.need[p[1..].parse::<usize>().unwrap()].insert("Has");
                format!("<{p} as Has>::A")
            }
            11 => {
                self.need[p[1..].parse::<usize>().unwrap()].insert("Has");
                format!("{p}::A")
            }
            12 | 13 if self.konst => ["Gn<$n>", "Gn<{ $n }>", "Ga<[u8; $n]>", "Ga<[u8; { $n }]>", "Ga<(u8, [(); $n])>"][self.s.below(5)].into(),
            12..=13 => "i32".into(),
            14 => "::std::string::String".into(),
            15 => format!("::std::boxed::Box<{p}>"),
            16 if self.life => format!("&'a {p}"),
            16 => format!("&'static {p}"),
            17 if self.konst => format!("[{p}; $n]"),
            17 => format!("[{p}; 2]"),
            18 => format!("({p}, {q})"),
            19 => format!("::core::option::Option<{p}>"),
            20 => format!("::std::vec::Vec<Wh<{p}>>"),
            _ => format!("Wh<fn({p}) -> {q}>"),
        }
    }
    fn fmt_trait(&mut self, ty: &str) -> usize {
        if !mentions(ty) {
            return 0;
        }
        if self.s.pct(45) {
            self.s.below(TRAITS.len())
        } else {
            0
        }
    }
    /// bound attributes of one level: their text, and the constraints that result
    fn bound(&mut self, inner: Preds, rate: u32, replace: bool) -> (String, Preds) {
        if !self.s.pct(rate) {
            return (String::new(), inner);
        }
        // which attributes carry it
        let mode = if !self.from_str {
            0
        } else {
            self.s.below(3)
        };
        let mut text = String::new();
        let mut out = inner.clone();
        let shared = mode == 0;
        if mode == 0 || mode == 1 {
            let extend = !replace;
            let (t, items) = self.items(&inner, if shared { (true, true) } else { (true, false) }, extend);
            t.iter().for_each(|t| writeln!(text, "#[display({t})]").unwrap());
            if t.len() > 1 {
                self.feats.insert("bounds in two attributes".into());
            }
            let mk = |tr: &str| items.iter().map(|(l, t)| (l.clone(), if t.is_empty() { tr.to_string() } else { t.clone() })).collect::<Vec<_>>();
            if !extend {
                out.d.clear();
                if shared {
                    out.f.clear();
                }
            }
            out.d.extend(mk(D));
            if shared {
                out.f.extend(mk(F));
            }
            self.feats.insert(format!("{} bound on display", if extend { "extending" } else { "replacing" }));
        }
        if mode == 1 || mode == 2 {
            let extend = !replace;
            let (t, items) = self.items(&inner, (false, true), extend);
            t.iter().for_each(|t| writeln!(text, "#[from_str({t})]").unwrap());
            if t.len() > 1 {
                self.feats.insert("bounds in two attributes".into());
            }
            if !extend {
                out.f.clear();
            }
            out.f.extend(items.into_iter().map(|(l, t)| (l, if t.is_empty() { F.to_string() } else { t })));
            self.feats.insert(format!("{} bound on from_str", if extend { "extending" } else { "replacing" }));
        }
        (text, out)
    }
    /// items of one bound(...): (lhs, trait), an empty trait standing for a bare type
    fn items(&mut self, inner: &Preds, sides: (bool, bool), extend: bool) -> (Vec<String>, Vec<Pred>) {
        let mut items: Vec<Pred> = vec![];
        if !extend {
            let mut need: Vec<Pred> = vec![];
            if sides.0 && self.display {
                need.extend(inner.d.iter().cloned());
            }
            if sides.1 && self.from_str {
                need.extend(inner.f.iter().cloned());
            }
            // `&T: Trait` as a predicate would hide the implementations for other references
            need.retain(|(l, t)| !(l.starts_with('&') && t.ends_with("Pointer")));
            for n in &mut need {
                if n.0.starts_with('&') {
                    n.0 = n.0[n.0.find(' ').unwrap() + 1..].to_string();
                }
            }
            need.sort();
            need.dedup();
            for (l, t) in need {
                let bare = l.len() == 2;
                let own = (t == D && sides == (true, false)) || (t == F && sides == (false, true)) || (sides == (true, true) && (t == D || t == F));
                let k = self.s.below(3);
                if own && k == 0 && !(sides == (true, true) && self.display && self.from_str && inner.d.iter().chain(&inner.f).any(|x| x.0 == l && x.1 != D && x.1 != F)) {
                    items.push((l, String::new()));
                } else if bare && k == 1 && t.starts_with("::core") {
                    items.push((l, "Super".into()));
                } else {
                    items.push((l, t));
                }
            }
        }
        for _ in 0..self.s.below(3) {
            let p = self.p();
            let it = match self.s.below(4) {
                0 => (p, String::new()),
                1 => (p, "Mark".into()),
                2 => (format!("Wd<{p}>"), String::new()),
                _ => (p, "Mark2".into()),
            };
            items.push(it);
        }
        items.dedup();
        let mut parts: Vec<String> = items.iter().map(|(l, t)| if t.is_empty() { self.render(l) } else { format!("{} : {t}", self.render(l)) }).collect();
        if extend {
            let at = self.s.below(parts.len() + 1);
            parts.insert(at, "..".into());
        }
        let mut groups = vec![parts];
        if self.s.pct(25) {
            let k = self.s.below(groups[0].len() + 1);
            let rest = groups[0].split_off(k);
            groups.push(rest);
        }
        let texts = groups
            .into_iter()
            .map(|parts| match self.s.below(4) {
                1 if !parts.is_empty() => format!("bound(\"{}\")", parts.join(", ")),
                2 => format!("bound({})", parts.iter().map(|p| format!("\"{p}\"")).collect::<Vec<_>>().join(", ")),
                _ => format!("bound({})", parts.join(", ")),
            })
            .collect();
        (texts, items)
    }
    fn field(&mut self, inner_bounds: bool, parse: bool, regex: bool) -> (FieldOut, Preds) {
        let printed = self.s.pct(75);
        let parsed = parse && if regex { self.s.pct(60) } else { printed };
        let mut ty = self.ty(parsed, parse && !parsed);
        let mut preds = Preds::default();
        let mut attrs = String::new();
        let opt = (printed || parsed) && !(parse && !parsed) && self.s.pct(20);
        let base = ty.clone();
        if opt {
            ty = format!("{}Option<{ty}>", self.s.pick(&["::core::option::", "::std::option::"]));
            attrs.push_str("#[display(opt)]\n");
            self.feats.insert("opt".into());
        }
        let d_with = self.s.pct(15);
        // display(with) also parses
        let f_with = parsed && !d_with && self.s.pct(15);
        if d_with {
            attrs.push_str("#[display(with = AnyFmt)]\n");
            self.feats.insert("with".into());
        }
        if f_with {
            attrs.push_str("#[from_str(with = AnyFmt)]\n");
            self.feats.insert("from_str with".into());
        }
        let mut place = String::new();
        if printed {
            let k = if d_with { 0 } else { self.fmt_trait(&base) };
            if k != 0 {
                self.feats.insert("format trait".into());
            }
            if !d_with && self.s.pct(20) {
                attrs.push_str(&format!("#[display(\"<{{:{}}}>\")]\n", TRAITS[k].0));
                self.feats.insert("field format".into());
            } else {
                place = if k == 0 { String::new() } else { format!(":{}", TRAITS[k].0) };
            }
            if !d_with && mentions(&base) {
                preds.d.push((base.clone(), TRAITS[k].1.into()));
            }
        }
        if parse && !parsed && (!self.sdef || self.s.pct(30)) {
            attrs.push_str("#[from_str(default)]\n");
        }
        if parsed && !d_with && !f_with {
            if inner_bounds && base.len() == 2 && self.s.pct(12) {
                // inference needs the pattern, which only an explicit bound provides
                preds.f.clear();
                let r = self.render(&base);
                writeln!(attrs, "#[from_str(regex_infer, bound({r} : {RX}))]").unwrap();
                preds.f.push((base, RX.into()));
                self.feats.insert("regex_infer with bound".into());
                return (FieldOut { attrs, ty, place, printed, parsed }, preds);
            }
            if mentions(&base) {
                preds.f.push((base, F.into()));
            }
        }
        if inner_bounds && printed && (parsed || !parse) {
            let rate = if self.s.pct(50) { 25 } else { 0 };
            let replace = self.s.pct(50);
            let (t, p) = self.bound(preds, rate, replace);
            attrs.push_str(&t);
            preds = p;
        }
        (FieldOut { attrs, ty, place, printed, parsed }, preds)
    }
    /// fields and their container attributes
    fn fields(&mut self, is_struct: bool, inner_bounds: bool, ignored: bool) -> (String, String, Preds) {
        let named = self.s.pct(50);
        let n = if is_struct { 1 + self.s.below(3) } else { self.s.below(3) };
        let parse = self.from_str && !ignored;
        let regex = parse && self.s.pct(25);
        let mut preds = Preds::default();
        let mut fs = vec![];
        for _ in 0..n {
            let (f, p) = self.field(inner_bounds, parse, regex);
            fs.push(f);
            preds.add(p);
        }
        let mut attrs = String::new();
        let key = |i: usize| if named { ["a", "b", "c"][i].to_string() } else { i.to_string() };
        let mut order: Vec<usize> = (0..n).filter(|i| fs[*i].printed).collect();
        self.s.shuffle(&mut order);
        let mut fmt = String::new();
        for (k, i) in order.iter().enumerate() {
            if k > 0 {
                fmt.push('-');
            }
            write!(fmt, "{{{}{}}}", key(*i), fs[*i].place).unwrap();
        }
        if !is_struct {
            write!(fmt, "v").unwrap();
        }
        let newtype = is_struct && n == 1 && fs[0].printed && fs[0].place.is_empty() && self.s.pct(40);
        if !newtype {
            writeln!(attrs, "#[display(\"{fmt}\")]").unwrap();
        } else {
            self.feats.insert("newtype".into());
        }
        if regex {
            let g: Vec<String> = (0..n).filter(|i| fs[*i].parsed).map(|i| format!("(?<{}>[a-z]*)", key(i))).collect();
            writeln!(attrs, "#[from_str(regex = \"{}\")]", g.join("=")).unwrap();
            self.feats.insert("parsed by a regex".into());
        }
        if fs.iter().any(|f| parse && !f.parsed) {
            self.feats.insert("defaulted field".into());
        }
        if fs.iter().any(|f| !f.printed) {
            self.feats.insert("unprinted field".into());
        }
        let mut ph = self.names[..self.np].join(", ");
        if self.life {
            ph.push_str(", &'a ()");
        }
        let vis = if is_struct { "pub " } else { "" };
        let mut body = String::new();
        for (i, f) in fs.iter().enumerate() {
            let t = self.render(&f.ty);
            if named {
                write!(body, "{}{vis}{}: {t},\n", f.attrs, key(i)).unwrap();
            } else {
                write!(body, "{}{vis}{t},\n", f.attrs).unwrap();
            }
        }
        if is_struct && !newtype {
            let at = if parse && !self.sdef { "#[from_str(default)]\n" } else { "" };
            if named {
                write!(body, "{at}{vis}pf: PhantomData<({ph})>,\n").unwrap();
            } else {
                write!(body, "{at}{vis}PhantomData<({ph})>,\n").unwrap();
            }
        }
        let body = if named { format!(" {{\n{body}}}") } else if n == 0 { String::new() } else { format!("(\n{body})") };
        (attrs, body, preds)
    }
}

pub fn make(_: usize, choices: &[u32]) -> Case {
    let mut s = Src::new(choices);
    let (display, from_str) = [(true, true), (true, false), (false, true)][s.weighted(&[4, 3, 2])];
    let np = 1 + s.weighted(&[4, 4, 1]);
    let konst = s.pct(25);
    let life = !from_str && s.pct(20);
    let names = *s.pick(&[["T", "U", "W"], ["T", "U", "W"], ["F", "Err", "V"], ["r#type", "X", "Y"], ["A", "Formatter", "String"], ["Display", "FromStr", "I"], ["ALongTypeParameter", "Type_Parameter_2", "This_Is_A_Type_Parameter_With_Quite_A_Long_Name_Indeed"], ["Ñ", "日本", "Ωmega"]]);
    let mut g = G { s, display, from_str, np, konst, life, need: vec![BTreeSet::new(); 3], names, feats: BTreeSet::new(), sdef: false };
    for i in 0..np {
        if g.s.pct(12) {
            g.need[i].insert("Mark");
        }
    }
    let replace_top = g.s.pct(20);
    let is_struct = !g.s.pct(45);
    let top_bound = if replace_top { 100 } else { 25 };
    let (mut head, preds);
    let mut body = String::new();
    if is_struct {
        g.sdef = from_str && g.s.pct(25);
        let (a, b, p) = g.fields(true, !replace_top, false);
        let newtype = a.is_empty() || !a.contains("#[display(\"");
        let all_used = (0..np).all(|i| b.lines().any(|l| !l.starts_with('#') && l.contains(names[i])));
        if newtype && (!all_used || life || np > 1 || b.contains("::A") || b.contains("fn(")) {
            // parameters would be unused: give the type a second field
            let ph = g.names[..np].join(", ") + if life { ", &'a ()" } else { "" };
            let at = if from_str { "#[from_str(default)]\n" } else { "" };
            let b = b.trim_end();
            let b2 = if b.ends_with('}') {
                format!("{}{at}pub pf: PhantomData<({ph})>,\n}}", b.trim_end_matches('}').to_string())
            } else {
                format!("{}{at}pub PhantomData<({ph})>,\n)", &b[..b.len() - 1])
            };
            let key = if b.ends_with('}') { "a" } else { "0" };
            head = format!("#[display(\"{{{key}}}\")]\n{a}");
            body = b2;
        } else {
            head = a;
            body = b;
        }
        if g.sdef {
            head.push_str("#[from_str(default)]\n");
            g.feats.insert("struct default".into());
        }
        preds = p;
        if !body.trim_end().ends_with('}') {
            body.push(';');
        }
    } else {
        g.feats.insert("enum".into());
        let nv = 1 + g.s.below(3);
        let mut ps = Preds::default();
        body.push_str(" {\n");
        for k in 0..nv {
            let ignored = from_str && g.s.pct(12);
            // bounds on this variant that replace those of its fields
            let replace = !replace_top && g.s.pct(15);
            let rate = if replace { 100 } else { 15 };
            let (a, b, p) = g.fields(false, !replace_top && !replace, ignored);
            let (t, p) = if replace_top { (String::new(), p) } else { g.bound(p, rate, replace) };
            let mut p = p;
            if ignored {
                // never constructed, but `bound` attributes of an ignored variant are not asked for either
                p.f.clear();
                g.feats.insert("ignored variant".into());
            }
            if ignored {
                body.push_str("#[from_str(ignore)]\n");
            }
            write!(body, "{a}{t}V{k}{b},\n").unwrap();
            ps.add(p);
        }
        let ph = g.names[..np].join(", ") + if life { ", &'a ()" } else { "" };
        let at = if from_str { "#[from_str(default)] " } else { "" };
        write!(body, "#[display(\"zz\")]\nZz({at}PhantomData<({ph})>),\n}}").unwrap();
        head = String::new();
        preds = ps;
    }
    let (t, preds) = g.bound(preds, top_bound, replace_top);
    let mut derives = vec![];
    if display {
        derives.push("::parse_display::Display");
    }
    if from_str {
        derives.push("::parse_display::FromStr");
    }
    // generics
    let mut gp = vec![];
    let mut wh = vec![];
    if life {
        gp.push("'a".to_string());
    }
    for i in 0..np {
        let mut bs: Vec<&str> = g.need[i].iter().copied().collect();
        if life {
            bs.insert(0, "'a");
        } else {
            bs.insert(0, "'static");
        }
        let bs: Vec<String> = bs.iter().map(|b| if *b == "Default" { "::core::default::Default".to_string() } else { b.to_string() }).collect();
        if g.s.pct(50) {
            wh.push(format!("{}: {}", names[i], bs.join(" + ")));
            gp.push(names[i].to_string());
        } else {
            gp.push(format!("{}: {}", names[i], bs.join(" + ")));
        }
    }
    if konst {
        gp.push("const N: usize".into());
    }
    let whs = if wh.is_empty() { String::new() } else { format!("\nwhere {}", wh.join(", ")) };
    let kw = if is_struct { "struct" } else { "enum" };
    let mut def = format!("#[derive({})]\n{t}{head}pub {kw} M<{}>", derives.join(", "), gp.join(", "));
    if body.trim_end().ends_with(';') {
        let b = body.trim_end().trim_end_matches(';').to_string();
        write!(def, "{b}{whs};\n").unwrap();
    } else {
        write!(def, "{whs}{body}\n").unwrap();
    }
    if g.sdef {
        let mut args: Vec<String> = names[..np].iter().map(|n| n.to_string()).collect();
        if konst {
            args.push("N".into());
        }
        let wh = if wh.is_empty() { String::new() } else { format!("\nwhere {}", wh.join(", ")) };
        write!(
            def,
            "impl<{}> ::core::default::Default for M<{}>{wh} {{ fn default() -> Self {{ ::core::unimplemented!() }} }}\n",
            gp.join(", "),
            args.join(", ")
        )
        .unwrap();
    }
    // instances
    let all = ["MA", "MB", "MC", "MD", "ME", "MF", "MG", "MH", "MI"];
    let mut insts: BTreeSet<Vec<String>> = BTreeSet::new();
    for k in 0..26 {
        let mut inst = vec![];
        for i in 0..np {
            let ok: Vec<&str> = all
                .iter()
                .copied()
                .filter(|m| {
                    g.need[i].iter().all(|b| match *b {
                        "Mark" => ["MA", "ME", "MF"].contains(m),
                        "Default" => ["MA", "MC", "MI"].contains(m),
                        _ => true,
                    })
                })
                .collect();
            let j = if k < 9 && i == 0 { k % ok.len() } else { (k * 7 + i * 5 + g.s.below(ok.len())) % ok.len() };
            inst.push(ok[j].to_string());
        }
        if konst {
            inst.push((1 + (k / 2) % 3).to_string());
        }
        insts.insert(inst);
    }
    let mut checks = String::new();
    for inst in &insts {
        let sub = |t: &str| {
            let mut t = t.to_string();
            for i in 0..np {
                t = t.replace(&format!("${i}::A"), &format!("<{} as Has>::A", inst[i]));
                t = t.replace(&format!("${i}"), &inst[i]);
            }
            if konst {
                t = t.replace("$n", &inst[np]);
            }
            // lifetimes do not matter
            t.replace("'a", "'static")
        };
        let ty = format!("d::M<{}{}>", if life { "'static, " } else { "" }, inst.join(", "));
        let mut sides: Vec<(&str, &str, &Vec<Pred>)> = vec![];
        if display {
            sides.push(("Display", D, &preds.d));
        }
        if from_str {
            sides.push(("FromStr", F, &preds.f));
            sides.push(("FromStrRegex", RX, &preds.f));
        }
        for (n, tr, ps) in sides {
            let mut e: Vec<String> = ps.iter().map(|(l, t)| format!("pd_rt::impls!({}: {t})", sub(l))).collect();
            e.sort();
            e.dedup();
            let nt = !e.is_empty();
            let e = if e.is_empty() { "true".to_string() } else { e.join(" && ") };
            writeln!(
                checks,
                "pd_rt::b::Check {{ what: \"M<{}>: {n}\", expected: {e}, actual: pd_rt::impls!({ty}: {tr}), nontrivial: {nt} }},",
                inst.join(", ")
            )
            .unwrap();
        }
    }
    let text = format!(
        "#![allow(unused, deprecated, non_camel_case_types)]\npub mod d {{\nuse pd_rt::b::{{Wd, Wh, Wm, Wa, Gn, Ga, AnyFmt, Has, Mark, Mark2, Super}};\nuse ::core::marker::PhantomData;\n{def}}}\nuse pd_rt::b::*;\nuse ::core::marker::PhantomData;\npub fn entry() -> pd_rt::b::Checks {{ pd_rt::b::Checks {{ unit: @ID@, checks: vec![\n{checks}], texts: vec![] }} }}\n"
    );
    Case { modules: vec![Module { text, expect: Expect::Runs }], features: g.feats.into_iter().collect(), shown: def, class: "bounds".into() }
}
