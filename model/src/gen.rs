//! Generation of definitions from choices.
use crate::ast::*;
use crate::rx::*;
use crate::sem::{styled, variant_name};
use crate::src::Src;
use crate::vgen;
use serde::{Deserialize, Serialize};

/// Rates are percentages.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Profile {
    /// weights of deriving: both, only Display, only FromStr
    pub derive: [u32; 3],
    pub max_inner: usize,
    pub plain_inner: u32,
    pub generic: u32,
    pub enums: u32,
    pub max_fields: usize,
    pub big_tuple: u32,
    pub max_variants: usize,
    pub unit_variant: u32,
    pub spec: u32,
    pub self_spec: u32,
    pub style: u32,
    pub raw: u32,
    pub hostile: u32,
    pub odd_variants: u32,
    pub variant_fmt: u32,
    pub enum_fmt: u32,
    pub field_fmt: u32,
    pub with: u32,
    pub opt: u32,
    pub rx_container: u32,
    pub rx_field: u32,
    pub infer: u32,
    pub infer_container: u32,
    pub def_type: u32,
    pub absent: u32,
    pub default_struct: u32,
    pub new: u32,
    pub ignore: u32,
    pub nested: u32,
    pub refs: u32,
    pub conflict: u32,
    pub overlap: u32,
    pub unambiguous: bool,
    pub lit_meta: u32,
    pub adjacent: u32,
    pub simple_types: u32,
    pub newtype: u32,
    /// literal-only variants and structs only
    pub literal_only: bool,
    pub groups: u32,
    /// enums that are nothing but overlapping words
    pub words: u32,
    /// enums all of whose variants have one more field in common, filled by default
    pub shared_default: u32,
    /// more nested plain structs
    pub plain_deep: u32,
    pub infer_variant: u32,
    /// enums with many variants
    pub many_variants: u32,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            derive: [6, 1, 1],
            max_inner: 2,
            plain_inner: 30,
            generic: 10,
            enums: 40,
            max_fields: 4,
            big_tuple: 4,
            max_variants: 5,
            unit_variant: 40,
            spec: 10,
            self_spec: 2,
            style: 25,
            raw: 10,
            hostile: 15,
            odd_variants: 15,
            variant_fmt: 60,
            enum_fmt: 25,
            field_fmt: 15,
            with: 15,
            opt: 15,
            rx_container: 10,
            rx_field: 10,
            infer: 8,
            infer_container: 5,
            def_type: 20,
            absent: 12,
            default_struct: 8,
            new: 10,
            ignore: 8,
            nested: 10,
            refs: 5,
            conflict: 10,
            overlap: 15,
            unambiguous: false,
            lit_meta: 35,
            adjacent: 15,
            simple_types: 50,
            newtype: 12,
            literal_only: false,
            groups: 30,
            words: 5,
            shared_default: 3,
            plain_deep: 5,
            infer_variant: 3,
            many_variants: 2,
        }
    }
}

const NAMES: [&str; 10] = ["a", "b", "x", "y", "z", "n", "key", "val", "w1", "long_name"];
const HOSTILE_NAMES: [&str; 30] = [
    "c", "p", "s", "f", "e", "m", "re", "value", "value_1", "value_2", "field_value", "empty", "_value_a", "_formatter",
    "parse_variant", "fmt", "string", "Okay", "A", "self_", "_0", "_1", "__", "key_", "ss", "r", "PARSER", "with", "is", "args",
];
const RAW_NAMES: [&str; 10] = ["type", "fn", "match", "loop", "move", "impl", "r#gen", "dyn", "as", "yield"];
const UNI_NAMES: [&str; 3] = ["é", "naïve", "日"];
const VNAMES: [&str; 14] = [
    "A", "B", "C", "Red", "DarkBlue", "HttpServer", "AbC", "One2Three", "Zz", "Foo", "FooBar", "Bar", "X", "Yes",
];
const ODD_VNAMES: [&str; 32] = [
    "HTTPServer", "A_B", "aB", "abc", "x__y", "_Ab", "Z_", "A1B2", "ABC", "Ab_cD", "snake_case_name", "SHOUT_CASE", "Éa",
    "ÀÉb", "日本", "aÉB", "ßx", "AbÉ", "N0", "iOS", "T9_x", "__A__b", "None", "Some",
    // marks and dots are separators, non-ASCII letters and digits are not
    "a·b", "Ab·CD", "xz\u{303}Z", "ⅧAb", "Z\u{303}", "A٣b", "ǅxY", "q\u{302}\u{30a}_r",
];
const RAW_VNAMES: [&str; 6] = ["fn", "type", "match", "async", "dyn", "Abc"];
const META: &str = ".*+?()[]|^$\\/-#&~{}\"' \n\n\té日😀,:;=<>_%@!0a\u{0}\r\u{feff}\u{a0}\u{2028}\u{85}\u{200d}\u{301}\u{7f}\u{b}\u{c}İßſK";
const PLAIN: &str = "-:, =/abcxyz019_#<>";
const SEP0: &str = "|;§";
const SEP1: &str = "~¦&";

#[derive(Clone)]
enum Mode {
    /// mentioned by its own key (with this specification)
    Own(String),
    /// mentioned by these dotted paths
    Nested(Vec<Vec<String>>),
    Absent,
}

#[derive(Clone)]
struct Cx {
    from_str: bool,
    display: bool,
    infer: bool,
    rx: bool,
    new: bool,
    params: usize,
    struct_default: bool,
    depth: usize,
    variant: bool,
}

struct G<'a, 's> {
    p: &'a Profile,
    s: Src<'s>,
    u: Unit,
    /// parameters of the definition being made that must be integers / floats-or-integers
    int_params: [bool; 3],
    taken: Vec<String>,
}

/// reduces the special-purpose rates for definitions inside others
fn inner_profile(p: &Profile) -> Profile {
    Profile { max_inner: 0, generic: p.generic / 2, big_tuple: 0, many_variants: 0, max_fields: p.max_fields.min(2), max_variants: 3, refs: 0, ..p.clone() }
}

pub fn gen_unit(id: usize, p: &Profile, choices: &[u32]) -> Unit {
    let unit = Unit {
        id,
        defs: vec![],
        insts: vec![],
        reserved: if p.unambiguous { format!("{SEP0}{SEP1}") } else { String::new() },
    };
    let mut g = G { p, s: Src::new(choices), u: unit, int_params: [false; 3], taken: vec![] };
    let (display, from_str) = match g.s.weighted(&p.derive) {
        0 => (true, true),
        1 => (true, false),
        _ => (false, true),
    };
    let n_plain = if g.s.pct(p.plain_deep) {
        3 + g.s.below(2)
    } else if g.s.pct(p.plain_inner) {
        1 + g.s.below(2)
    } else {
        0
    };
    let chain = n_plain > 2 && g.s.pct(15);
    let n_plain = if chain { 8 + g.s.below(5) } else { n_plain };
    for k in 0..n_plain {
        g.plain(k, chain);
    }
    let ip = inner_profile(p);
    let n_inner = g.s.below(p.max_inner + 1);
    for k in 0..n_inner {
        let mut h = G { p: &ip, s: g.s, u: g.u, int_params: [false; 3], taken: vec![] };
        h.definition(format!("I{k}"), display, from_str, 1);
        g = G { p, s: h.s, u: h.u, int_params: [false; 3], taken: vec![] };
    }
    let name = if g.s.pct(p.hostile / 3) {
        g.s.pick(&["Parser", "ParseError", "OnceLock", "Regex", "FromStrRegex", "IntoResult", "Formatted", "RegexInfer", "Error", "Fmt"])
            .to_string()
    } else if g.s.pct(p.raw / 2) {
        g.s.pick(&["r#priv", "r#become", "Ñandú", "日本", "r#M", "mm", "MM_1"]).to_string()
    } else {
        "M".to_string()
    };
    g.definition(name, display, from_str, 0);
    g.u
}

impl<'a, 's> G<'a, 's> {
    // ------------------------------------------------------------------------------------------------ vocabulary
    fn lit(&mut self, depth: usize) -> String {
        if self.p.unambiguous && self.s.pct(70) {
            return self.sep(depth);
        }
        let n = 1 + self.s.below(3);
        let meta = self.s.pct(self.p.lit_meta);
        (0..n).map(|_| if meta && self.s.pct(70) { self.s.ch(META) } else { self.s.ch(PLAIN) }).collect()
    }
    fn sep(&mut self, depth: usize) -> String {
        let n = 1 + self.s.below(2);
        let set = if depth == 0 { SEP0 } else { SEP1 };
        (0..n).map(|_| self.s.ch(set)).collect()
    }
    fn field_name(&mut self, used: &[String], ascii: bool) -> (String, bool) {
        for _ in 0..20 {
            let (n, raw) = if self.s.pct(self.p.raw) {
                (self.s.pick(&RAW_NAMES).trim_start_matches("r#").to_string(), true)
            } else if self.s.pct(self.p.hostile) {
                (self.s.pick(&HOSTILE_NAMES).to_string(), false)
            } else if !ascii && self.s.pct(self.p.hostile / 4) {
                (self.s.pick(&UNI_NAMES).to_string(), false)
            } else {
                let n = self.s.pick(&NAMES).to_string();
                let raw = self.s.pct(self.p.raw / 3);
                (n, raw)
            };
            if !used.contains(&n) {
                return (n, raw);
            }
        }
        let mut i = 0;
        while used.contains(&format!("q{i}")) {
            i += 1;
        }
        (format!("q{i}"), false)
    }
    fn variant_ident(&mut self, used: &[String]) -> (String, bool) {
        for _ in 0..20 {
            let (n, raw) = if self.s.pct(self.p.raw) {
                (self.s.pick(&RAW_VNAMES).to_string(), true)
            } else if self.s.pct(self.p.odd_variants) {
                if self.s.pct(40) {
                    (self.random_ident(), false)
                } else {
                    (self.s.pick(&ODD_VNAMES).to_string(), false)
                }
            } else {
                (self.s.pick(&VNAMES).to_string(), false)
            };
            if n != "Err" && n != "Self" && n != "_" && !used.contains(&n) {
                return (n, raw);
            }
        }
        (format!("V{}", used.len()), false)
    }
    fn random_ident(&mut self) -> String {
        let n = if self.s.pct(4) { 20 + self.s.below(120) } else { 1 + self.s.below(8) };
        let mut o = String::new();
        for i in 0..n {
            let c = match self.s.weighted(&[4, 4, 2, 2, 1]) {
                0 => self.s.ch("abcxyz"),
                1 => self.s.ch("ABCXYZ"),
                2 => '_',
                3 if i > 0 => self.s.ch("0129"),
                4 if i > 0 && o.ends_with(['x', 'z', 'q', 'X', 'Z', '日', 'ß']) => self.s.ch("éÉßǅ日Ωω·\u{303}٣"),
                4 => self.s.ch("éÉßǅ日Ωω"),
                _ => 'q',
            };
            o.push(c);
        }
        if o.chars().all(|c| c == '_') || is_keyword(&o) {
            o.push('k');
        }
        o
    }
    fn prim(&mut self) -> Prim {
        if self.s.pct(self.p.simple_types) {
            return *self.s.pick(&[Prim::I32, Prim::Str, Prim::U8, Prim::Str]);
        }
        match self.s.weighted(&[6, 5, 2, 2, 3]) {
            0 => Prim::Str,
            1 => *self.s.pick(&INTS),
            2 => Prim::Bool,
            3 => Prim::Char,
            _ => *self.s.pick(&[Prim::F64, Prim::F32]),
        }
    }
    /// format parameters suitable for a type
    fn spec(&mut self, ty: &Ty, display_only_letters: bool) -> String {
        let mut o = String::new();
        let prim = match ty {
            Ty::P(p) => Some(*p),
            Ty::RefStr => Some(Prim::Str),
            _ => None,
        };
        let letter = if display_only_letters || !self.s.pct(35) {
            ""
        } else {
            match prim {
                Some(p) if p.is_int() => *self.s.pick(&["x", "?", "X", "o", "b", "e", "E", "x?", "X?"]),
                Some(p) if p.is_float() => *self.s.pick(&["e", "?", "E"]),
                Some(_) => *self.s.pick(&["?", "x?"]),
                None => match ty {
                    Ty::Param(_) => *self.s.pick(&["?", "x", "e"]),
                    _ => *self.s.pick(&["?", "x?"]),
                },
            }
        };
        if self.s.pct(50) {
            if self.s.pct(60) {
                o.push(self.s.ch("*_0é日-+# <^>.?x:a5$\n\"\\'%!/&|()[]\t\r\0\u{a0}\u{2028}😀ßeobX"));
            }
            o.push(self.s.ch("<^>"));
        }
        if self.s.pct(25) {
            o.push(self.s.ch("+-"));
        }
        if self.s.pct(25) {
            o.push('#');
        }
        if self.s.pct(25) {
            o.push('0');
        }
        if self.s.pct(60) {
            let w = match self.s.below(60) {
                0 => *self.s.pick(&[99usize, 100, 127, 128, 255, 256, 300, 1000, 4096]),
                1 | 2 => 13 + self.s.below(60),
                _ => 1 + self.s.below(12),
            };
            o.push_str(&w.to_string());
        }
        if self.s.pct(30) {
            o.push('.');
            let n = if self.s.below(30) == 0 { *self.s.pick(&[9usize, 12, 17, 40, 128, 300]) } else { self.s.below(7) };
            o.push_str(&n.to_string());
        }
        o.push_str(letter);
        // white space at the end of a specification means nothing to std::format!
        if o.ends_with(' ') || o.ends_with('\n') {
            o.push('<');
        }
        o
    }

    // ---------------------------------------------------------------------------------------------------- regexes
    /// a pattern without named groups
    fn rx_free(&mut self, depth: usize, dot: bool) -> Rx {
        match self.s.weighted(&[4, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, 1, if dot { 1 } else { 0 }, self.p.groups / 20]) {
            0 => self.rx_class_rep(),
            1 => Rx::Lit(self.rx_lit()),
            2 => {
                let n = 2 + self.s.below(2);
                Rx::NonCap(Box::new(Rx::Alt((0..n).map(|_| self.rx_free(depth - 1, dot)).collect())))
            }
            3 => {
                let n = 2 + self.s.below(2);
                Rx::Cat((0..n).map(|_| self.rx_free(depth - 1, dot)).collect())
            }
            4 => Rx::LitI(self.s.pick(&["ab", "Xyz", "no", "q"]).to_string()),
            5 => Rx::Rep { min: self.s.below(2) as u32, max: None, greedy: self.s.below(2) == 0, sub: Box::new(Rx::Dot) },
            _ => match self.s.below(3) {
                0 => Rx::FakeGroup(self.s.pick(&["a", "x", "0", "nosuch", ""]).to_string()),
                _ => Rx::Group(Box::new(if depth > 0 && self.s.pct(50) {
                    Rx::Alt(vec![self.rx_free(depth - 1, dot), self.rx_free(depth - 1, dot)])
                } else {
                    self.rx_class_rep()
                })),
            },
        }
    }
    fn rx_lit(&mut self) -> String {
        let n = 1 + self.s.below(2);
        (0..n).map(|_| if self.s.pct(30) { self.s.ch(".*+?()[]|^$\\-#&~{}<> é日\n") } else { self.s.ch("abx10-:,") }).collect()
    }
    fn rx_class_rep(&mut self) -> Rx {
        let ranges: Vec<(char, char)> = match self.s.below(6) {
            0 => vec![('0', '9')],
            1 => vec![('a', 'z')],
            2 => vec![('a', 'z'), ('A', 'Z'), ('0', '9')],
            3 => vec![('a', 'b'), ('x', 'x')],
            4 => vec![('-', '-'), (']', ']'), ('^', '^'), ('0', '9')],
            _ => vec![('é', 'é'), ('a', 'f')],
        };
        let neg = self.s.pct(15);
        let (min, max) = match self.s.below(6) {
            0 => (1, None),
            1 => (0, None),
            2 => (0, Some(1)),
            3 => (2, Some(2)),
            4 => (1, Some(3)),
            _ => (1, Some(1)),
        };
        if (min, max) == (1, Some(1)) {
            Rx::Class { neg, ranges }
        } else {
            Rx::Rep { min, max, greedy: !self.s.pct(40), sub: Box::new(Rx::Class { neg, ranges }) }
        }
    }
    /// a pattern for the text of a value of this type
    fn rx_for(&mut self, ty: &Ty, dot: bool) -> Rx {
        let any = if dot {
            Rx::Rep { min: 0, max: None, greedy: self.s.pct(30), sub: Box::new(Rx::Dot) }
        } else {
            any_lazy()
        };
        let digits = Rx::Rep { min: 1, max: None, greedy: true, sub: Box::new(Rx::Class { neg: false, ranges: vec![('0', '9')] }) };
        match ty {
            Ty::P(p) if p.is_int() => match self.s.below(4) {
                0 => digits,
                1 => Rx::Cat(vec![
                    Rx::Rep { min: 0, max: Some(1), greedy: true, sub: Box::new(Rx::Class { neg: false, ranges: vec![('-', '-'), ('+', '+')] }) },
                    digits,
                ]),
                2 => any,
                _ => {
                    let l = self.s.pct(50);
                    Rx::Rep {
                        min: 1,
                        max: Some(2),
                        greedy: l,
                        sub: Box::new(Rx::Class { neg: false, ranges: vec![('0', '9')] }),
                    }
                }
            },
            Ty::P(Prim::Bool) => match self.s.below(3) {
                0 => Rx::Alt(vec![Rx::Lit("true".into()), Rx::Lit("false".into())]),
                1 => any,
                _ => Rx::Group(Box::new(Rx::Alt(vec![Rx::Lit("true".into()), Rx::Lit("tr".into()), Rx::Lit("false".into())]))),
            },
            Ty::P(Prim::Str) => match self.s.below(3) {
                0 => self.rx_free(2, dot),
                1 => any,
                _ => self.rx_class_rep(),
            },
            _ => any,
        }
    }

    // ----------------------------------------------------------------------------------------------------- types
    fn plain(&mut self, k: usize, chain: bool) {
        let n = 1 + self.s.below(if chain { 2 } else { 3 });
        let tuple = self.s.pct(30);
        let mut fields: Vec<Field> = vec![];
        let mut used = vec![];
        for i in 0..n {
            let (name, raw) = if tuple { (i.to_string(), false) } else { self.field_name(&used, true) };
            used.push(name.clone());
            let ty = match k {
                // one in the other, many levels deep
                1.. if chain && i == 0 => Ty::Def(k - 1, vec![]),
                _ if chain => Ty::P(self.prim()),
                0 => Ty::P(self.prim()),
                1 if self.s.pct(35) => Ty::Def(0, vec![]),
                2.. if self.s.pct(65) => Ty::Def(self.s.below(k), vec![]),
                _ => Ty::P(self.prim()),
            };
            fields.push(Field { name, raw, ty, attrs: Attrs::default() });
        }
        let def = Def {
            name: format!("P{k}"),
            params: 0,
            body: Body::Struct(Fields { kind: if tuple { Kind::Tuple } else { Kind::Named }, fields }),
            attrs: Attrs::default(),
            display: false,
            from_str: false,
            default_val: None,
            union: false,
        };
        self.u.defs.push(def);
        let i = self.u.defs.len() - 1;
        self.give_default(i);
    }
    fn give_default(&mut self, i: usize) {
        let a = vgen::Alpha::new(&self.u);
        let v = vgen::value(&Ty::Def(i, vec![]), &self.u, &a, &mut self.s, 0);
        self.u.defs[i].default_val = Some(v);
    }
    fn usable_defs(&self, cx: &Cx) -> Vec<usize> {
        (0..self.u.defs.len())
            .filter(|i| {
                let d = &self.u.defs[*i];
                (d.display || !cx.display) && (d.from_str || !cx.from_str) && (d.display || d.from_str)
            })
            .collect()
    }
    fn plain_defs(&self) -> Vec<usize> {
        (0..self.u.defs.len())
            .filter(|i| {
                let d = &self.u.defs[*i];
                d.params == 0 && matches!(&d.body, Body::Struct(_)) && d.default_val.is_some()
            })
            .collect()
    }
    /// dotted paths from a definition to primitive leaves
    fn leaf_paths(&self, d: usize, cx: &Cx) -> Vec<Vec<String>> {
        let Body::Struct(fs) = &self.u.defs[d].body else { return vec![] };
        let mut out = vec![];
        for f in &fs.fields {
            match &f.ty {
                Ty::P(_) => out.push(vec![f.name.clone()]),
                Ty::Def(k, a) if a.is_empty() => {
                    for mut p in self.leaf_paths(*k, cx) {
                        p.insert(0, f.name.clone());
                        out.push(p);
                    }
                    // a nested field that has fields itself
                    if !self.p.unambiguous && self.usable_defs(cx).contains(k) {
                        out.push(vec![f.name.clone()]);
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn leaf_ty(&self, d: usize, path: &[String]) -> Ty {
        let Body::Struct(fs) = &self.u.defs[d].body else { unreachable!() };
        let t = &fs.fields[fs.index(&path[0]).unwrap()].ty;
        match t {
            Ty::Def(k, _) if path.len() > 1 => self.leaf_ty(*k, &path[1..]),
            t => t.clone(),
        }
    }

    // ---------------------------------------------------------------------------------------------------- fields
    fn with_pair(&mut self, cx: &Cx) -> (Ty, Option<With>, Option<With>) {
        let d = *self.s.pick(&["-", ",", ", ", "|", "--"]);
        let d = if self.p.unambiguous { "," } else { d };
        let choices: Vec<(Ty, Vec<With>)> = vec![
            (Ty::P(Prim::U32), vec![With::Hex, With::Pass, With::Fmt]),
            (Ty::P(Prim::I32), vec![With::Plus1, With::Pass]),
            (Ty::P(Prim::Str), vec![With::Angle, With::OldRegex, With::Look, With::Pass]),
            (Ty::P(Prim::Bool), vec![With::YesNo, With::Pass]),
            (Ty::P(Prim::U8), vec![With::Groups, With::Pass]),
            (Ty::Opaque, vec![With::Opaque]),
            (Ty::P(Prim::I64), vec![With::Flags, With::Pass]),
            (Ty::Vec(Box::new(Ty::P(Prim::I32))), vec![With::Delim(d.into())]),
            (Ty::Vec(Box::new(Ty::P(Prim::U32))), vec![With::JoinHex(d.into())]),
            (Ty::P(Prim::F64), vec![With::Pass, With::Fmt]),
        ];
        let mut choices = choices;
        if !self.p.unambiguous && !cx.rx && self.s.pct(60) {
            let rx = match self.s.below(9) {
                0 => Rx::Empty,
                8 => {
                    // nearly any text
                    let sub = match self.s.below(4) {
                        0 => Rx::Dot,
                        1 => Rx::Class { neg: true, ranges: vec![('-', '-')] },
                        _ => Rx::Any,
                    };
                    let max = if self.s.pct(20) { Some(2 + self.s.below(3) as u32) } else { None };
                    Rx::Rep { min: self.s.below(2) as u32, max, greedy: self.s.pct(60), sub: Box::new(sub) }
                }
                1 | 2 => Rx::Lit(self.rx_lit()),
                3 => Rx::Cat(vec![any_lazy(), Rx::Lit(self.rx_lit())]),
                4 => Rx::Cat(vec![Rx::Lit(self.rx_lit()), any_lazy()]),
                _ => self.rx_free(2, true),
            };
            choices[2].1.push(With::Rx(rx.clone()));
            choices[2].1.push(With::Rx(rx));
        }
        // with a container regex, or a single pattern for all type arguments, only formats without a pattern
        let no_pat = cx.rx;
        let ok = |w: &With| !no_pat || crate::sem::with_pat(w).is_none();
        let list: Vec<(Ty, Vec<With>)> = choices
            .into_iter()
            .map(|(t, ws)| (t, ws.into_iter().filter(|w| ok(w)).collect::<Vec<_>>()))
            .filter(|(_, ws)| !ws.is_empty())
            .collect();
        let (t, ws) = self.s.pick(&list).clone();
        let plain_ok = matches!(t, Ty::P(_));
        let w = self.s.pick(&ws).clone();
        if self.s.pct(self.p.conflict) {
            let w2 = self.s.pick(&ws).clone();
            if cx.from_str && cx.display {
                if plain_ok && self.s.pct(40) {
                    return (t, None, Some(w2)); // printed plainly, parsed by a format
                }
                return (t, Some(w), Some(w2));
            }
        }
        if cx.from_str && !cx.display && self.s.pct(50) {
            return (t, None, Some(w));
        }
        (t, Some(w), None)
    }

    fn field(&mut self, name: String, raw: bool, cx: &Cx) -> (Field, Mode) {
        let mut a = Attrs::default();
        let fs = cx.from_str;
        let plain = self.plain_defs();
        // not mentioned at all
        if self.s.pct(self.p.absent) {
            let ty = if !fs {
                match self.s.below(4) {
                    0 => Ty::Opaque,
                    1 => Ty::Vec(Box::new(Ty::P(Prim::I32))),
                    2 if !plain.is_empty() => Ty::Def(plain[0], vec![]),
                    _ => Ty::P(self.prim()),
                }
            } else {
                a.default = !cx.struct_default || self.s.pct(40);
                match self.s.below(6) {
                    0 => Ty::Opaque,
                    1 => Ty::Vec(Box::new(Ty::P(Prim::I32))),
                    2 => Ty::Opt(Box::new(Ty::P(Prim::Str))),
                    3 if !plain.is_empty() => Ty::Def(*self.s.pick(&plain), vec![]),
                    _ => Ty::P(self.prim()),
                }
            };
            a.layout = self.layout();
            return (Field { name, raw, ty, attrs: a }, Mode::Absent);
        }
        // mentioned by nested paths
        if !plain.is_empty() && self.s.pct(self.p.nested) {
            let d = *self.s.pick(&plain);
            let mut paths = self.leaf_paths(d, cx);
            if !paths.is_empty() {
                self.s.shuffle(&mut paths);
                let n = 1 + self.s.below(paths.len().min(3));
                paths.truncate(n);
                let by_field_fmt = !cx.rx && self.s.pct(50);
                let ty = if !fs && self.s.pct(self.p.refs) {
                    let t = Box::new(Ty::Def(d, vec![]));
                    if self.s.pct(50) { Ty::Bx(t) } else { Ty::Ref(t) }
                } else {
                    Ty::Def(d, vec![])
                };
                a.default = fs && (!cx.struct_default || self.s.pct(40));
                if by_field_fmt {
                    if fs && self.s.pct(self.p.rx_field) {
                        // a field regex with named groups for the nested fields
                        let mut v = vec![];
                        for p in &paths {
                            let t = self.leaf_ty(d, p);
                            let sub = self.rx_for(&t, true);
                            let pf = self.s.pct(30);
                            v.push(Rx::Named { name: p.join("."), p: pf, sub: Box::new(sub) });
                            v.push(Rx::Lit(self.rx_lit()));
                        }
                        if v.len() == 2 && self.s.pct(50) {
                            v.pop();
                        }
                        if paths.iter().flatten().all(|k| k.is_ascii()) {
                            a.regex = Some(Rx::Cat(v));
                        }
                    }
                    a.format = Some(self.nested_fmt(d, &paths, cx));
                    a.layout = self.layout();
                    return (Field { name, raw, ty, attrs: a }, Mode::Own(String::new()));
                }
                a.layout = self.layout();
                return (Field { name, raw, ty, attrs: a }, Mode::Nested(paths));
            }
        }
        let mut ty;
        let mut spec_ok = true;
        if self.s.pct(self.p.with) {
            let (t, d, f) = self.with_pair(cx);
            ty = t;
            a.d_with = d;
            a.f_with = f;
        } else {
            let defs = self.usable_defs(cx);
            if !defs.is_empty() && self.s.pct(self.p.def_type) {
                let d = *self.s.pick(&defs);
                let args = (0..self.u.defs[d].params)
                    .map(|i| {
                        if cx.params > 0 && !cx.infer && !self.u.insts.iter().any(|x| x.0 == d && matches!(x.1[i], Ty::P(p) if !p.is_int())) {
                            // the inner parameter needs an integer: so does ours
                            self.int_params[0] = true;
                        }
                        let inst = self.u.insts.iter().find(|x| x.0 == d).unwrap().1[i].clone();
                        if cx.params > 0 && !cx.infer && self.s.pct(50) { Ty::Param(0) } else { inst }
                    })
                    .collect();
                ty = Ty::Def(d, args);
            } else if cx.params > 0 && !cx.infer && self.s.pct(60) {
                ty = Ty::Param(self.s.below(cx.params));
            } else if !fs && self.s.pct(self.p.refs) {
                ty = match self.s.below(5) {
                    0 => Ty::RefStr,
                    1 => Ty::Ref(Box::new(Ty::P(self.prim()))),
                    2 => Ty::Bx(Box::new(Ty::P(self.prim()))),
                    3 => Ty::Ref(Box::new(Ty::Ref(Box::new(Ty::P(self.prim()))))),
                    _ => {
                        spec_ok = false;
                        let p = Ty::P(self.prim());
                        if self.s.pct(50) { Ty::Opt(Box::new(p)) } else { Ty::Vec(Box::new(p)) }
                    }
                };
            } else {
                ty = Ty::P(self.prim());
            }
        }
        if !spec_ok {
            // only Debug is available
            let spec = self.s.pick(&["?", "#?", "x?"]).to_string();
            a.layout = self.layout();
            return (Field { name, raw, ty, attrs: a }, Mode::Own(spec));
        }
        let val_ty = ty.clone();
        let has_with = a.d_with.is_some() || a.f_with.is_some();
        let mentions_param = val_ty.key().contains("Param");
        if self.s.pct(self.p.opt) {
            a.opt = true;
            ty = Ty::Opt(Box::new(ty));
        }
        if fs && !has_with && !mentions_param && self.s.pct(self.p.infer) {
            a.infer = true;
        }
        if fs && has_with && !mentions_param && !matches!(val_ty, Ty::Opaque | Ty::Vec(_)) && self.s.pct(self.p.infer / 2) {
            a.infer = true; // without effect: a custom format beats inference
        }
        if fs && !cx.rx && self.s.pct(self.p.rx_field) {
            let will_fmt = self.s.pct(50);
            let core = self.rx_for(&val_ty, true);
            if !will_fmt && self.s.pct(45) {
                let pf = self.s.pct(30);
                let mut v = vec![Rx::Named { name: String::new(), p: pf, sub: Box::new(core) }];
                if self.s.pct(60) {
                    v.insert(0, self.rx_free(1, true));
                }
                if self.s.pct(60) {
                    v.push(self.rx_free(1, true));
                }
                a.regex = Some(Rx::Cat(v));
                if self.s.pct(30) && cx.display {
                    a.format = Some(self.field_fmt(&val_ty, &a, cx));
                }
            } else {
                a.regex = Some(core);
                if will_fmt {
                    let mut f = self.field_fmt(&val_ty, &a, cx);
                    if !f.0.iter().any(|p| matches!(p, Part::Arg { .. })) {
                        f.0.push(Part::Arg { path: vec![], raw: false, spec: String::new() });
                    }
                    a.format = Some(f);
                }
            }
        } else if !(fs && cx.rx) && self.s.pct(self.p.field_fmt) {
            a.format = Some(self.field_fmt(&val_ty, &a, cx));
            // nothing but text: not parsed, therefore defaulted
            if fs && a.format.as_ref().unwrap().is_literal() && !a.format.as_ref().unwrap().0.iter().any(|p| matches!(p, Part::Arg { .. })) {
                if mentions_param && !a.opt {
                    a.format = Some(Fmt(vec![Part::Arg { path: vec![], raw: false, spec: String::new() }]));
                } else if matches!(val_ty, Ty::Def(d, _) if self.u.defs[d].default_val.is_none()) && !a.opt {
                    a.format = Some(Fmt(vec![Part::Arg { path: vec![], raw: false, spec: String::new() }]));
                } else {
                    a.default = true;
                    a.regex = None;
                }
            }
        }
        // a default that is never used, since the field is always parsed
        if fs && !a.default && !mentions_param && self.s.pct(self.p.absent / 4) && matches!(val_ty, Ty::P(_) | Ty::Opaque | Ty::Vec(_)) {
            a.default = true;
        }
        let spec = if a.format.is_none() && self.s.pct(self.p.spec) { self.field_spec(&val_ty, &a, cx) } else { String::new() };
        a.layout = self.layout();
        (Field { name, raw, ty, attrs: a }, Mode::Own(spec))
    }
    fn field_spec(&mut self, ty: &Ty, a: &Attrs, cx: &Cx) -> String {
        if !cx.display {
            return String::new();
        }
        match ty {
            Ty::Param(i) => {
                let s = self.spec(ty, a.d_with.is_some());
                if !matches!(spec_trait(&s), "Display" | "Debug") {
                    self.int_params[*i] = true;
                }
                s
            }
            _ => self.spec(ty, a.d_with.is_some()),
        }
    }
    /// the format of a field around its own value
    fn field_fmt(&mut self, ty: &Ty, a: &Attrs, cx: &Cx) -> Fmt {
        let mut v = vec![];
        if self.s.pct(60) {
            v.push(Part::Lit(self.lit(cx.depth)));
        }
        let n = if cx.from_str {
            if self.s.pct(4) { 0 } else { 1 }
        } else {
            1 + self.s.weighted(&[8, 1])
        };
        for _ in 0..n {
            let spec = if self.s.pct(self.p.spec) { self.field_spec(ty, a, cx) } else { String::new() };
            v.push(Part::Arg { path: vec![], raw: false, spec });
            if self.s.pct(60) {
                v.push(Part::Lit(self.lit(cx.depth)));
            }
        }
        Fmt(v)
    }
    fn nested_fmt(&mut self, d: usize, paths: &[Vec<String>], cx: &Cx) -> Fmt {
        let mut v = vec![];
        if self.s.pct(50) {
            v.push(Part::Lit(self.lit(cx.depth)));
        }
        for (i, p) in paths.iter().enumerate() {
            if i > 0 && !self.s.pct(self.p.adjacent) {
                v.push(Part::Lit(self.sepish(cx)));
            }
            let t = self.leaf_ty(d, p);
            let spec = if cx.display && !matches!(t, Ty::Def(..)) && self.s.pct(self.p.spec) { self.spec(&t, false) } else { String::new() };
            let raw = self.s.pct(self.p.raw);
            v.push(Part::Arg { path: p.clone(), raw, spec });
        }
        if self.s.pct(40) {
            v.push(Part::Lit(self.lit(cx.depth)));
        }
        Fmt(v)
    }
    fn sepish(&mut self, cx: &Cx) -> String {
        if self.p.unambiguous {
            self.sep(cx.depth)
        } else {
            self.lit(cx.depth)
        }
    }
    fn layout(&mut self) -> Vec<u32> {
        if self.s.pct(50) {
            vec![]
        } else {
            (0..8).map(|_| self.s.next()).collect()
        }
    }

    fn fields(&mut self, kind: Kind, n: usize, cx: &Cx, first: Option<&str>) -> (Fields, Vec<Mode>) {
        let mut fields: Vec<Field> = vec![];
        let mut modes = vec![];
        let mut used: Vec<String> = vec![];
        for i in 0..n {
            let (name, raw) = if kind == Kind::Tuple {
                (i.to_string(), false)
            } else if let (0, Some(f)) = (i, first) {
                (f.to_string(), is_keyword(f))
            } else {
                self.field_name(&used, cx.rx)
            };
            used.push(name.clone());
            let (mut f, mut m) = self.field(name.clone(), raw, cx);
            if i == 0 && first.is_some() && !matches!(m, Mode::Own(_)) {
                f = Field { name, raw, ty: Ty::P(Prim::I32), attrs: Attrs::default() };
                m = Mode::Own(String::new());
            }
            fields.push(f);
            modes.push(m);
        }
        // a field whose name is what the path of another could be flattened to
        if kind == Kind::Named && self.s.pct(30) {
            let path = fields.iter().zip(&modes).find_map(|(f, m)| match m {
                Mode::Nested(paths) if !paths.is_empty() => {
                    let p = &paths[self.s.below(paths.len())];
                    Some(format!("{}_{}", f.name, p.join("_")))
                }
                _ => None,
            });
            let i = self.s.below(n);
            if let Some(name) = path {
                let f = &mut fields[i];
                if name.is_ascii()
                    && !used.contains(&name)
                    && !matches!(modes[i], Mode::Nested(_))
                    && !(i == 0 && first.is_some())
                    && !["spare", "rest"].contains(&f.name.as_str())
                {
                    f.name = name;
                    f.raw = false;
                }
            }
        }
        (Fields { kind, fields }, modes)
    }

    /// fields of a field which are given beside the field itself
    fn beside(&mut self, f: &Field, cx: &Cx) -> Vec<Vec<String>> {
        let a = &f.attrs;
        let plain = a.format.is_none() && a.regex.is_none() && a.d_with.is_none() && a.f_with.is_none() && !a.opt;
        match &f.ty {
            Ty::Def(d, args) if args.is_empty() && plain && self.s.pct(self.p.nested) => {
                let mut paths: Vec<_> = self.leaf_paths(*d, cx).into_iter().filter(|p| p.iter().all(|k| k.is_ascii())).collect();
                self.s.shuffle(&mut paths);
                let n = 1 + self.s.below(2);
                paths.truncate(n);
                paths
            }
            _ => vec![],
        }
    }
    /// placeholders of a container format, in some order
    fn mentions(&mut self, fs: &Fields, modes: &[Mode], cx: &Cx, exact: bool) -> Vec<Part> {
        let mut v = vec![];
        for (f, m) in fs.fields.iter().zip(modes) {
            let raw = f.raw && self.s.pct(60) || !f.raw && self.s.pct(self.p.raw / 2);
            match m {
                Mode::Absent => {}
                Mode::Own(spec) => {
                    let times = if exact {
                        1
                    } else {
                        match self.s.weighted(&[7, 2, 1]) {
                            0 => 1,
                            1 => 2,
                            _ => 0,
                        }
                    };
                    for k in 0..times {
                        // a second mention has its own specification
                        let spec = if k == 1 && f.attrs.format.is_none() && !spec.ends_with('?') && matches!(f.ty, Ty::P(_)) && self.s.pct(self.p.spec)
                        {
                            self.field_spec(&f.ty.clone(), &f.attrs, cx)
                        } else {
                            spec.clone()
                        };
                        v.push(Part::Arg { path: vec![f.name.clone()], raw, spec });
                    }
                    for p in self.beside(f, cx) {
                        let mut path = vec![f.name.clone()];
                        path.extend(p);
                        v.push(Part::Arg { path, raw, spec: String::new() });
                    }
                }
                Mode::Nested(paths) => {
                    let mut t = &f.ty;
                    while let Ty::Ref(x) | Ty::Bx(x) = t {
                        t = x;
                    }
                    let Ty::Def(d, _) = t else { unreachable!() };
                    let d = *d;
                    for p in paths {
                        let lt = self.leaf_ty(d, p);
                        let spec = if cx.display && !matches!(lt, Ty::Def(..)) && self.s.pct(self.p.spec) { self.spec(&lt, false) } else { String::new() };
                        let mut path = vec![f.name.clone()];
                        path.extend(p.iter().cloned());
                        v.push(Part::Arg { path, raw, spec });
                    }
                }
            }
        }
        self.s.shuffle(&mut v);
        v
    }
    fn assemble(&mut self, args: Vec<Part>, cx: &Cx) -> Fmt {
        let mut v = vec![];
        if self.s.pct(45) || args.is_empty() && self.s.pct(80) {
            v.push(Part::Lit(self.lit(cx.depth)));
        }
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            v.push(a);
            if i + 1 < n {
                if !self.s.pct(self.p.adjacent) {
                    v.push(Part::Lit(self.sepish(cx)));
                }
            } else if self.s.pct(40) {
                v.push(Part::Lit(self.lit(cx.depth)));
            }
        }
        Fmt(v)
    }
    fn container_fmt(&mut self, fs: &Fields, modes: &[Mode], cx: &Cx, exact: bool) -> Fmt {
        let mut args = self.mentions(fs, modes, cx, exact);
        if cx.variant {
            for _ in 0..self.s.weighted(&[5, 4, 1]) {
                let spec = if cx.display && self.s.pct(self.p.spec) { self.spec(&Ty::RefStr, true) } else { String::new() };
                let i = self.s.below(args.len() + 1);
                args.insert(i, Part::Arg { path: vec![], raw: false, spec });
            }
        }
        if cx.display && !cx.from_str && cx.params == 0 && self.s.pct(self.p.self_spec) {
            let spec = self.s.pick(&["?", "#?", "x", "08.3X", "o", "*^9b", "e", "#?"]).to_string();
            args.push(Part::Arg { path: vec![], raw: false, spec });
        }
        self.assemble(args, cx)
    }
    /// the container's regex, with a named group for everything that is parsed
    fn container_rx(&mut self, fs: &Fields, modes: &[Mode], cx: &Cx) -> Rx {
        let mut items: Vec<(Rx, bool)> = vec![];
        for (f, m) in fs.fields.iter().zip(modes) {
            let pf = self.s.pct(30);
            match m {
                Mode::Absent => {}
                Mode::Own(_) => {
                    let (ty, opt) = match (&f.ty, f.attrs.opt) {
                        (Ty::Opt(t), true) => ((**t).clone(), true),
                        (t, _) => (t.clone(), false),
                    };
                    let sub = self.rx_for(&ty, true);
                    let name = if cx.variant && false { String::new() } else { f.name.clone() };
                    items.push((Rx::Named { name, p: pf, sub: Box::new(sub) }, opt));
                    if let Ty::Def(d, _) = &f.ty {
                        for p in self.beside(f, cx) {
                            let lt = self.leaf_ty(*d, &p);
                            let sub = self.rx_for(&lt, true);
                            items.push((Rx::Named { name: format!("{}.{}", f.name, p.join(".")), p: pf, sub: Box::new(sub) }, false));
                        }
                    }
                }
                Mode::Nested(paths) => {
                    let mut t = &f.ty;
                    while let Ty::Ref(x) | Ty::Bx(x) = t {
                        t = x;
                    }
                    let Ty::Def(d, _) = t else { unreachable!() };
                    for p in paths {
                        let lt = self.leaf_ty(*d, p);
                        let sub = self.rx_for(&lt, true);
                        items.push((
                            Rx::Named { name: format!("{}.{}", f.name, p.join(".")), p: pf, sub: Box::new(sub) },
                            false,
                        ));
                    }
                }
            }
        }
        self.s.shuffle(&mut items);
        // a group within the group of a text field
        for i in (1..items.len()).rev() {
            let outer = match &items[i - 1] {
                (Rx::Named { name, .. }, false) => {
                    fs.fields.iter().zip(modes).any(|(f, m)| f.name == *name && matches!((m, &f.ty), (Mode::Own(_), Ty::P(Prim::Str))))
                }
                _ => false,
            };
            if outer && !items[i].1 && self.s.pct(12) {
                let (x, _) = items.remove(i);
                let l = Rx::Lit(self.rx_lit());
                let before = self.s.pct(50);
                let (Rx::Named { sub, .. }, _) = &mut items[i - 1] else { unreachable!() };
                let old = std::mem::replace(&mut **sub, Rx::Empty);
                let old = if matches!(old, Rx::Alt(_)) { Rx::NonCap(Box::new(old)) } else { old };
                **sub = Rx::Cat(if before { vec![x, l, old] } else { vec![old, l, x] });
            }
        }
        if cx.variant && self.s.pct(60) {
            let i = self.s.below(items.len() + 1);
            let pf = self.s.pct(30);
            let sub = if self.s.pct(50) { Rx::Empty } else { self.rx_class_rep() };
            let mut x = Rx::Named { name: String::new(), p: pf, sub: Box::new(sub) };
            if self.s.pct(25) {
                // stands for text, so that it may be repeated like any text
                let l = Rx::Lit(self.rx_lit());
                x = Rx::Cat(if self.s.pct(50) { vec![l, x] } else { vec![x, l] });
                let (min, max) = *self.s.pick(&[(0, Some(1)), (1, None), (0, None), (1, Some(2)), (2, Some(2))]);
                let greedy = self.s.pct(50);
                let g: fn(Box<Rx>) -> Rx = if self.s.pct(50) { Rx::Group } else { Rx::NonCap };
                x = Rx::Rep { min, max, greedy, sub: Box::new(g(Box::new(x))) };
            }
            items.insert(i, (x, false));
        }
        let mut v = vec![];
        if self.s.pct(50) || items.is_empty() {
            v.push(self.rx_free(2, true));
        }
        for (x, opt) in items {
            if self.s.pct(8) {
                // escaped backslashes, with or without escaped text that looks like a group after them
                let n = 1 + self.s.below(3);
                v.push(Rx::Lit("\\".repeat(n)));
                if self.s.pct(40) {
                    v.push(Rx::FakeGroup(self.s.pick(&["a", "x", "0", "nosuch", ""]).to_string()));
                }
            }
            let x = match self.s.weighted(&[6, if opt { 4 } else { 0 }, 2, 1]) {
                1 => {
                    let l = Rx::Lit(self.rx_lit());
                    Rx::Rep { min: 0, max: Some(1), greedy: self.s.pct(50), sub: Box::new(Rx::NonCap(Box::new(Rx::Cat(vec![l, x])))) }
                }
                2 => Rx::Group(Box::new(x)),
                3 => Rx::NonCap(Box::new(Rx::Alt(vec![x, Rx::Lit(self.rx_lit())]))),
                _ => x,
            };
            v.push(x);
            if !self.s.pct(self.p.adjacent) {
                let r = self.s.pct(50);
                v.push(if r { self.rx_free(1, true) } else { Rx::Lit(self.rx_lit()) });
            }
        }
        if self.s.pct(10) {
            // top-level alternation
            let alt = self.rx_free(1, true);
            return Rx::Alt(vec![Rx::Cat(v), alt]);
        }
        Rx::Cat(v)
    }

    // ----------------------------------------------------------------------------------------------- definitions
    fn definition(&mut self, name: String, display: bool, from_str: bool, depth: usize) {
        let params = if self.s.pct(self.p.generic) { 1 + self.s.below(2) } else { 0 };
        self.int_params = [false; 3];
        self.taken.clear();
        let is_enum = self.s.pct(self.p.enums);
        let mut attrs = Attrs::default();
        let infer = from_str && self.s.pct(self.p.infer_container);
        attrs.infer = infer;
        let mut cx = Cx { from_str, display, infer, rx: false, new: false, params, struct_default: false, depth, variant: false };
        let mut def_val = false;
        let body = if is_enum {
            self.enum_body(&mut attrs, &mut cx)
        } else {
            cx.rx = from_str && self.s.pct(self.p.rx_container) && !self.p.literal_only;
            cx.new = from_str && params == 0 && self.s.pct(self.p.new);
            cx.struct_default = from_str && params == 0 && !cx.new && self.s.pct(self.p.default_struct);
            let kind = *self.s.pick(&[Kind::Named, Kind::Tuple, Kind::Named, Kind::Tuple, Kind::Named, Kind::Tuple, Kind::Unit]);
            let n = if kind == Kind::Unit || self.p.literal_only && self.s.pct(70) {
                0
            } else if self.s.pct(self.p.big_tuple) {
                self.many()
            } else if self.s.pct(self.p.newtype) {
                1
            } else {
                1 + self.s.below(self.p.max_fields)
            };
            let (fs, modes) = if self.p.literal_only { self.literal_fields(kind, n, &cx) } else { self.fields(kind, n, &cx, None) };
            if cx.rx {
                attrs.regex = Some(self.container_rx(&fs, &modes, &cx));
            }
            let newtype_ok = fs.fields.len() == 1 && matches!(&modes[0], Mode::Own(s) if s.is_empty());
            if newtype_ok && self.s.pct(60) && !self.p.literal_only {
                // newtype: no format
            } else if display || !cx.rx {
                attrs.format = Some(self.container_fmt(&fs, &modes, &cx, from_str && !cx.rx));
            }
            if cx.new {
                attrs.new = Some(*self.s.pick(&[NewKind::Plain, NewKind::Res, NewKind::Opt, NewKind::Bump]));
            }
            if cx.struct_default {
                attrs.default = true;
            }
            def_val = params == 0;
            Body::Struct(fs)
        };
        attrs.layout = self.layout();
        // a generic parameter must be used
        let mut body = body;
        let mut params = params;
        if params > 0 {
            let mut used = [false; 3];
            let mut look = |fs: &Fields| fs.fields.iter().for_each(|f| (0..3).for_each(|i| used[i] |= f.ty.key().contains(&format!("Param({i})"))));
            match &body {
                Body::Struct(fs) => look(fs),
                Body::Enum(vs) => vs.iter().for_each(|v| look(&v.fields)),
            }
            params = (0..3).take_while(|i| used[*i]).count();
            // parameters beyond the first unused one become concrete
            let conc = [Ty::Param(0), Ty::P(Prim::I32), Ty::P(Prim::I32)];
            let map: Vec<Ty> = (0..3).map(|i| if i < params { Ty::Param(i) } else if i == 0 { Ty::P(Prim::I32) } else { conc[i].clone() }).collect();
            let fix = |fs: &mut Fields| fs.fields.iter_mut().for_each(|f| f.ty = f.ty.subst(&map));
            match &mut body {
                Body::Struct(fs) => fix(fs),
                Body::Enum(vs) => vs.iter_mut().for_each(|v| fix(&mut v.fields)),
            }
        }
        let def = Def { name, params, body, attrs, display, from_str, default_val: None, union: false };
        self.u.defs.push(def);
        let i = self.u.defs.len() - 1;
        if def_val && params == 0 {
            self.give_default(i);
        } else if params == 0 && self.s.pct(50) {
            self.give_default(i);
        }
        let any = [Prim::I32, Prim::Str, Prim::U8, Prim::Bool, Prim::Char, Prim::U64];
        let ints = [Prim::I32, Prim::U8, Prim::U64, Prim::I8];
        let n = if params > 0 { 2 } else { 1 };
        for k in 0..n {
            let args: Vec<Ty> = (0..params)
                .map(|i| Ty::P(if self.int_params[i] { ints[(self.s.below(2) * 2 + k) % 4] } else { any[(self.s.below(3) * 2 + k) % 6] }))
                .collect();
            self.u.insts.push((i, args));
        }
    }
    fn literal_fields(&mut self, kind: Kind, n: usize, _cx: &Cx) -> (Fields, Vec<Mode>) {
        let mut fields = vec![];
        let mut used = vec![];
        for i in 0..n {
            let (name, raw) = if kind == Kind::Tuple { (i.to_string(), false) } else { self.field_name(&used, true) };
            used.push(name.clone());
            let ty = Ty::P(self.prim());
            fields.push(Field { name, raw, ty, attrs: Attrs { default: true, ..Default::default() } });
        }
        let modes = vec![Mode::Absent; n];
        (Fields { kind, fields }, modes)
    }

    fn many(&mut self) -> usize {
        if self.s.pct(15) { 15 + self.s.below(26) } else { 10 + self.s.below(5) }
    }

    fn enum_body(&mut self, attrs: &mut Attrs, cx: &mut Cx) -> Body {
        let n = if self.s.pct(self.p.many_variants) { self.many() } else { 1 + self.s.below(self.p.max_variants) };
        cx.variant = true;
        if !self.p.unambiguous && self.s.pct(self.p.words) {
            let mut words: Vec<String> =
                ["a", "ab", "abc", "b", "ba", "", "aa", "a.", "-a", "a-b", "B", "bab"].iter().map(|w| w.to_string()).collect();
            while words.len() < n + 1 {
                let k = 1 + self.s.below(4);
                let w: String = (0..k).map(|_| self.s.ch("ab.-B0")).collect();
                if !words.contains(&w) {
                    words.push(w);
                }
            }
            self.s.shuffle(&mut words);
            let mut vs: Vec<Variant> = vec![];
            let mut used: Vec<String> = vec![];
            // a variant that accepts what any other one does
            let any = if !self.p.literal_only && self.s.pct(35) { Some(self.s.below(n + 1)) } else { None };
            for (i, w) in words.iter().take(n + 1).enumerate() {
                if any == Some(i) {
                    let (name, raw) = self.variant_ident(&used);
                    used.push(name.clone());
                    let format = Some(Fmt(vec![Part::Arg { path: vec!["0".into()], raw: false, spec: String::new() }]));
                    let a = Attrs { format, layout: self.layout(), ..Default::default() };
                    let f = Field { name: "0".into(), raw: false, ty: Ty::P(Prim::Str), attrs: Attrs::default() };
                    vs.push(Variant { name, raw, fields: Fields { kind: Kind::Tuple, fields: vec![f] }, attrs: a });
                    continue;
                }
                let (name, raw) = self.variant_ident(&used);
                used.push(name.clone());
                let format = Some(Fmt(if w.is_empty() { vec![] } else { vec![Part::Lit(w.clone())] }));
                let a = Attrs { format, layout: self.layout(), ..Default::default() };
                vs.push(Variant { name, raw, fields: Fields { kind: Kind::Unit, fields: vec![] }, attrs: a });
            }
            return Body::Enum(vs);
        }
        if self.s.pct(self.p.style) {
            attrs.style = Some(*self.s.pick(&STYLES));
        }
        // what variants without own attributes inherit
        let inherits = self.s.pct(self.p.enum_fmt);
        let common: Option<String> = if inherits && self.s.pct(40) && !self.p.literal_only {
            Some(self.s.pick(&["0", "a", "x", "0"]).to_string())
        } else {
            None
        };
        let inherit_rx = inherits && cx.from_str && self.s.pct(self.p.rx_container) && !self.p.literal_only;
        if inherits {
            let ecx = Cx { rx: inherit_rx, ..cx.clone() };
            let fs = Fields {
                kind: Kind::Tuple,
                fields: common
                    .iter()
                    .map(|c| Field { name: c.clone(), raw: is_keyword(c), ty: Ty::P(Prim::Str), attrs: Attrs::default() })
                    .collect(),
            };
            let modes = vec![Mode::Own(String::new()); fs.fields.len()];
            if cx.display || !inherit_rx {
                attrs.format = Some(self.container_fmt(&fs, &modes, &ecx, true));
            }
            if inherit_rx {
                attrs.regex = Some(self.container_rx(&fs, &modes, &ecx));
            }
        }
        let mut vs: Vec<Variant> = vec![];
        let mut used: Vec<String> = vec![];
        for k in 0..n {
            let (name, raw) = self.variant_ident(&used);
            used.push(name.clone());
            if k > 0 && self.s.pct(self.p.overlap) {
                // like an earlier variant, with other types
                let o = vs[self.s.below(k)].clone();
                let mut v = Variant { name, raw, ..o };
                let has_spec = v.attrs.format.iter().chain(attrs.format.iter()).any(|f| {
                    f.0.iter().any(|p| matches!(p, Part::Arg { spec, .. } if !spec.is_empty()))
                });
                for f in &mut v.fields.fields {
                    if let Ty::P(_) = f.ty {
                        let at = &f.attrs;
                        let plain = at.d_with.is_none() && at.f_with.is_none() && at.regex.is_none() && at.format.is_none();
                        if plain && !has_spec && self.s.pct(70) {
                            f.ty = Ty::P(self.prim());
                        }
                    }
                }
                if cx.from_str && cx.params == 0 && self.s.pct(self.p.new) {
                    v.attrs.new = Some(*self.s.pick(&[NewKind::Res, NewKind::Opt]));
                }
                if v.attrs.format.is_none() && attrs.format.is_none() && v.fields.kind == Kind::Unit && self.s.pct(60) {
                    // same text as an earlier variant
                    let mut t = o_name(attrs, &vs[self.s.below(k)]);
                    if t.is_empty() {
                        t.push('x');
                    }
                    v.attrs.format = Some(Fmt(vec![Part::Lit(t)]));
                }
                vs.push(v);
                continue;
            }
            let mut a = Attrs::default();
            if self.s.pct(self.p.style / 2) {
                a.style = Some(*self.s.pick(&STYLES));
            }
            if cx.from_str && self.s.pct(self.p.ignore) && k > 0 {
                a.ignore = true;
                // further arguments, none of which brings the variant back
                if self.s.pct(50) {
                    let t = *self.s.pick(&["regex = \"[a-z]+\"", "regex = \"(?s).*\"", "regex_infer", "regex = \"x\""]);
                    a.extra.push((true, t.into()));
                }
            }
            let mut vcx = cx.clone();
            if a.ignore {
                vcx.from_str = false;
            }
            if vcx.from_str && !vcx.infer && self.s.pct(self.p.infer_variant.max(if self.p.infer_container > 40 { 60 } else { self.p.infer_container / 2 })) {
                a.infer = true;
                vcx.infer = true;
            }
            let unit = self.s.pct(self.p.unit_variant);
            let inherit = inherits && !self.s.pct(self.p.variant_fmt / 2);
            if unit && !(inherit && common.is_some()) {
                let kind = if self.s.pct(85) { Kind::Unit } else { *self.s.pick(&[Kind::Tuple, Kind::Named]) };
                let fs = Fields { kind, fields: vec![] };
                if !inherit && (self.s.pct(self.p.variant_fmt / 2) || kind != Kind::Unit && !inherits || inherits && common.is_some()) {
                    let rx = vcx.from_str && self.s.pct(self.p.rx_container) && !self.p.literal_only;
                    if rx {
                        a.regex = Some(self.container_rx(&fs, &[], &Cx { rx, ..vcx.clone() }));
                    }
                    if vcx.display || !rx {
                        a.format = Some(self.container_fmt(&fs, &[], &vcx, true));
                    }
                }
                if vcx.from_str && vcx.params == 0 && self.s.pct(self.p.new) {
                    a.new = Some(*self.s.pick(&[NewKind::Plain, NewKind::Res, NewKind::Opt]));
                }
                a.layout = self.layout();
                vs.push(Variant { name, raw, fields: fs, attrs: a });
                continue;
            }
            let first = if inherit { common.clone() } else { None };
            let kind = match first.as_deref() {
                Some("0") => Kind::Tuple,
                Some(_) => Kind::Named,
                None => *self.s.pick(&[Kind::Tuple, Kind::Named]),
            };
            let rx = vcx.from_str && !inherit && self.s.pct(self.p.rx_container) && !self.p.literal_only;
            vcx.rx = rx || inherit && inherit_rx;
            vcx.new = vcx.from_str && vcx.params == 0 && self.s.pct(self.p.new);
            let nf = if self.s.pct(self.p.big_tuple) { self.many() } else { 1 + self.s.below(self.p.max_fields.min(3)) };
            let (mut fs, mut modes) =
                if self.p.literal_only { self.literal_fields(kind, nf, &vcx) } else { self.fields(kind, nf, &vcx, first.as_deref()) };
            if inherit {
                // only what the enum's format mentions is parsed
                for (i, f) in fs.fields.iter_mut().enumerate() {
                    let mentioned = i == 0 && first.is_some();
                    if !mentioned {
                        if vcx.from_str && (f.ty.key().contains("Param") || !matches!(f.ty, Ty::P(_) | Ty::Opaque | Ty::Vec(_) | Ty::Opt(_))) {
                            f.ty = Ty::P(Prim::U8);
                        }
                        let d = vcx.from_str;
                        f.attrs = Attrs { default: d, ..Default::default() };
                        modes[i] = Mode::Absent;
                    }
                }
                if let (Some(f), true) = (fs.fields.first_mut(), first.is_some()) {
                    // the enum's placeholder has no specification; a Debug-only type does not fit
                    if matches!(&modes[0], Mode::Own(s) if s.ends_with('?')) {
                        f.ty = Ty::P(Prim::I32);
                        f.attrs = Attrs::default();
                    }
                }
            } else {
                if rx {
                    a.regex = Some(self.container_rx(&fs, &modes, &vcx));
                }
                if vcx.display || !rx || cx.display {
                    a.format = Some(self.container_fmt(&fs, &modes, &vcx, vcx.from_str && !rx));
                }
            }
            if vcx.new {
                a.new = Some(*self.s.pick(&[NewKind::Plain, NewKind::Res, NewKind::Opt, NewKind::Bump]));
            }
            a.layout = self.layout();
            vs.push(Variant { name, raw, fields: fs, attrs: a });
        }
        if cx.from_str && common.is_none() && self.s.pct(self.p.shared_default) {
            // one more field, of any type, in every variant with named fields
            for v in &mut vs {
                if v.fields.kind == Kind::Unit && (v.attrs.format.is_some() || attrs.format.is_some()) {
                    v.fields.kind = Kind::Named;
                }
                if v.fields.kind == Kind::Named {
                    let n = v.fields.fields.len();
                    for (name, always) in [("spare", true), ("rest", false)] {
                        if !always && self.s.pct(40) {
                            continue;
                        }
                        let ty = match self.s.below(4) {
                            0 => Ty::Opaque,
                            1 => Ty::Opt(Box::new(Ty::P(Prim::Str))),
                            _ => Ty::P(self.prim()),
                        };
                        let at = Attrs { default: true, layout: self.layout(), ..Default::default() };
                        let i = self.s.below(n + 1);
                        v.fields.fields.insert(i, Field { name: name.into(), raw: false, ty, attrs: at });
                    }
                }
            }
        }
        Body::Enum(vs)
    }
}

fn o_name(attrs: &Attrs, v: &Variant) -> String {
    styled(v.attrs.style.or(attrs.style).unwrap_or(Style::None), &v.name)
}

/// the features a unit exercises, for the evidence
pub fn features(u: &Unit) -> Vec<&'static str> {
    let mut out: Vec<&'static str> = vec![];
    let mut add = |c: bool, n: &'static str| {
        if c && !out.contains(&n) {
            out.push(n)
        }
    };
    for d in &u.defs {
        add(d.params > 0, "generic");
        add(d.attrs.infer, "infer/container");
        add(d.attrs.regex.is_some(), "regex/container");
        add(d.attrs.default, "default/struct");
        add(d.attrs.new.is_some(), "new");
        let mut fields = |fs: &Fields| {
            for f in &fs.fields {
                let a = &f.attrs;
                add(a.opt, "opt");
                add(a.d_with.is_some() || a.f_with.is_some(), "with");
                add(a.opt && (a.d_with.is_some() || a.f_with.is_some()), "opt+with");
                add(a.d_with.is_some() && a.f_with.is_some(), "with/both");
                add(a.regex.is_some(), "regex/field");
                add(a.regex.is_some() && a.format.is_some(), "regex+format/field");
                add(a.infer, "infer/field");
                add(a.format.is_some(), "format/field");
                add(a.default, "default/field");
                add(f.raw, "raw field");
                add(a.format.as_ref().is_some_and(|f| f.0.iter().any(|p| matches!(p, Part::Arg { path, .. } if !path.is_empty()))), "nested/field format");
                add(a.format.as_ref().is_some_and(has_spec), "spec");
            }
        };
        let mut fmts: Vec<&Fmt> = d.attrs.format.iter().collect();
        match &d.body {
            Body::Struct(fs) => fields(fs),
            Body::Enum(vs) => {
                for v in vs {
                    fields(&v.fields);
                    fmts.extend(v.attrs.format.iter());
                }
                add(true, "enum");
                for v in vs {
                    add(v.attrs.regex.is_some(), "regex/variant");
                    add(v.attrs.new.is_some(), "new");
                    add(v.attrs.ignore, "ignore");
                    add(v.raw, "raw variant");
                    add(v.attrs.style.is_some(), "style/variant");
                    add(variant_name(d, v) != v.name, "style changes name");
                }
                add(d.attrs.style.is_some(), "style/enum");
                add(d.attrs.format.is_some(), "format/enum");
            }
        }
        for f in fmts {
            add(has_spec(f), "spec");
            add(f.0.iter().any(|p| matches!(p, Part::Arg { path, .. } if path.len() > 1)), "nested/path");
            add(f.0.windows(2).any(|w| matches!(w, [Part::Arg { .. }, Part::Arg { .. }])), "adjacent");
        }
    }
    out
}
fn has_spec(f: &Fmt) -> bool {
    f.0.iter().any(|p| matches!(p, Part::Arg { spec, .. } if !spec.is_empty()))
}
