//! Rendering of definitions to Rust source.
use crate::ast::*;
use crate::src::Src;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Surround {
    /// ordinary module
    Plain,
    /// prelude names, std module names and macros shadowed
    Hostile,
    /// `#![no_implicit_prelude]`-like module
    NoPrelude,
    /// a module in which every warning is an error
    Strict,
    /// in a `#![no_std]` crate that knows std only as `hstd`
    NoStd,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub surround: Surround,
    /// library path used in derives and `crate = ...` (None: `parse_display` by its own name)
    pub krate: Option<String>,
    /// whether the std feature is on (patterns exist)
    pub std: bool,
    /// the definitions are written by macros that get parts of them as arguments
    pub macros: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { surround: Surround::Plain, krate: None, std: true, macros: false }
    }
}

pub fn str_lit(s: &str, choice: u32) -> String {
    let raw_ok = !s.contains('\r') && !s.contains('\0');
    match choice % 4 {
        1 if raw_ok && !s.contains('"') => format!("r\"{s}\""),
        2 if raw_ok && !s.contains("\"#") => format!("r#\"{s}\"#"),
        3 => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 0x20 || c as u32 >= 0x7f => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        _ => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\r' => o.push_str("\\r"),
                    '\t' => o.push_str("\\t"),
                    c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
    }
}

pub fn ident(name: &str, raw: bool) -> String {
    if raw || is_keyword(name) {
        format!("r#{name}")
    } else {
        name.to_string()
    }
}

pub fn with_expr(w: &With) -> String {
    match w {
        With::Plus1 => "::pd_rt::w::Plus1".into(),
        With::Hex => "::pd_rt::w::Hex".into(),
        With::Angle => "::pd_rt::w::Angle".into(),
        With::YesNo => "::pd_rt::w::YesNo".into(),
        With::Groups => "::pd_rt::w::Groups".into(),
        With::Look => "::pd_rt::w::Look".into(),
        With::Pass => "::pd_rt::w::Pass".into(),
        With::Flags => "::pd_rt::w::Flags".into(),
        With::Opaque => "::pd_rt::w::OpaqueFmt".into(),
        With::OldRegex => "::pd_rt::w::OldRegex".into(),
        With::Delim(d) => format!("::pd_rt::pdw::delimiter({})", str_lit(d, 0)),
        With::JoinHex(d) => format!("::pd_rt::pdw::join(::pd_rt::w::Hex, {})", str_lit(d, 0)),
        With::Fmt => "::pd_rt::pdw::fmt()".into(),
        With::Rx(rx) => format!("::pd_rt::w::Pat({})", str_lit(&any_as_crate(rx.text()), 0)),
    }
}

struct Gen<'a> {
    u: &'a Unit,
    o: &'a Opts,
    /// arguments of the macro that writes the current definition
    frags: RefCell<Vec<(&'static str, String)>>,
    rng: Cell<u64>,
    /// 1: a `new` expression is an argument, 2: the names of fields in it may be
    mode: Cell<u64>,
    names: RefCell<BTreeMap<String, String>>,
}

const PNAMES: [&str; 3] = ["T", "U", "V"];

impl<'a> Gen<'a> {
    fn new(u: &'a Unit, o: &'a Opts) -> Self {
        Gen { u, o, frags: RefCell::default(), rng: Cell::new(0), mode: Cell::new(0), names: RefCell::default() }
    }
    fn draw(&self, n: u64) -> u64 {
        let x = self.rng.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.rng.set(x);
        (x >> 33) % n
    }
    /// part of a definition, maybe as an argument of a macro
    fn frag(&self, kind: &'static str, text: String, pct: u64) -> String {
        if !self.o.macros || self.draw(100) >= pct {
            return text;
        }
        let mut f = self.frags.borrow_mut();
        f.push((kind, text));
        format!("$p{}", f.len() - 1)
    }
    fn field_ty(&self, t: &Ty) -> String {
        match t {
            Ty::Opt(e) if self.o.macros && self.draw(100) < 30 => {
                let e = self.frag("ty", self.ty(e, true), 70);
                match self.draw(3) {
                    0 => format!("::core::option::Option<({e})>"),
                    1 => format!("(::core::option::Option<{e}>)"),
                    _ => format!("::core::option::Option<{e}>"),
                }
            }
            Ty::Ref(e) if self.o.macros && self.draw(100) < 30 => format!("&'static {}", self.frag("ty", self.ty(e, true), 70)),
            _ => self.frag("ty", self.ty(t, true), 50),
        }
    }
    /// name of a field where it is declared or used as a variable
    fn field_ident(&self, f: &Field) -> String {
        let n = ident(&f.name, f.raw);
        self.names.borrow().get(&n).cloned().unwrap_or(n)
    }
    /// a type as written inside the definitions' module
    fn ty(&self, t: &Ty, inner: bool) -> String {
        let abs = self.o.surround != Surround::Plain;
        match t {
            Ty::P(Prim::Str) => if abs || !inner { "::std::string::String" } else { "String" }.into(),
            Ty::P(p) => if abs && inner { format!("::core::primitive::{}", p.rust()) } else { p.rust().to_string() },
            Ty::RefStr => if abs && inner { "&'static ::core::primitive::str" } else { "&'static str" }.into(),
            Ty::Ref(t) => format!("&'static {}", self.ty(t, inner)),
            Ty::Bx(t) => format!("{}<{}>", if abs || !inner { "::std::boxed::Box" } else { "Box" }, self.ty(t, inner)),
            Ty::Opt(t) => {
                let h = if self.o.surround == Surround::NoStd { 1 } else { t.key().len() % 3 };
                let p = if abs || !inner {
                    ["::std::option::Option", "::core::option::Option", "::std::option::Option"][h]
                } else {
                    ["Option", "std::option::Option", "core::option::Option"][h]
                };
                format!("{p}<{}>", self.ty(t, inner))
            }
            Ty::Vec(t) => format!("{}<{}>", if abs || !inner { "::std::vec::Vec" } else { "Vec" }, self.ty(t, inner)),
            Ty::Opaque => "::pd_rt::w::Opaque".into(),
            Ty::Param(i) => PNAMES[*i].into(),
            Ty::Def(d, a) => {
                let n = &self.u.defs[*d].name;
                let p = if inner { n.clone() } else { format!("d::{n}") };
                if a.is_empty() {
                    p
                } else {
                    format!("{p}<{}>", a.iter().map(|t| self.ty(t, inner)).collect::<Vec<_>>().join(", "))
                }
            }
        }
    }

    fn attrs(&self, a: &Attrs, d: &Def, new_expr: Option<String>) -> String {
        #[derive(Clone)]
        struct Item {
            from_str: bool,
            unnamed: bool,
            text: String,
        }
        let mut s = Src::new(&a.layout);
        let lc = s.next();
        // attributes passed as a whole have no arguments inside
        let whole = self.o.macros && (new_expr.is_none() || self.mode.get() < 2) && self.draw(100) < 20;
        let frag = |kind, text| if whole { text } else { self.frag(kind, text, 50) };
        let mut items: Vec<Item> = vec![];
        let bounds = |b: &[String]| {
            let b = b.iter().map(|t| if t.chars().all(|c| c.is_alphanumeric()) { frag("ty", t.clone()) } else { t.clone() });
            b.collect::<Vec<_>>().join(", ")
        };
        let with = |w: &With| {
            let t = with_expr(w);
            let kind = if t.contains('(') || self.draw(2) == 0 { "expr" } else { "path" };
            frag(kind, t)
        };
        let mut add = |from_str: bool, unnamed: bool, text: String| items.push(Item { from_str, unnamed, text });
        if let Some(f) = &a.format {
            add(false, true, frag("literal", str_lit(&f.text(), lc)));
        }
        if let Some(st) = a.style {
            add(false, false, format!("style = {}", frag("literal", str_lit(st.text(), 0))));
        }
        if let Some(w) = &a.d_with {
            add(false, false, format!("with = {}", with(w)));
        }
        if a.opt {
            add(false, false, "opt".into());
        }
        if let Some(b) = &a.d_bound {
            add(false, false, format!("bound({})", bounds(b)));
        }
        if let Some(k) = &a.krate {
            add(false, false, format!("crate = {}", frag("path", k.clone())));
        }
        for (from_str, t) in &a.extra {
            add(*from_str, false, t.clone());
        }
        if d.from_str {
            if let Some(r) = a.raw_regex.clone().or(a.regex.as_ref().map(|r| r.text())) {
                add(true, false, format!("regex = {}", frag("literal", str_lit(&r, lc / 4))));
            }
            if a.infer {
                add(true, false, "regex_infer".into());
            }
            if let Some(w) = &a.f_with {
                add(true, false, format!("with = {}", with(w)));
            }
            if let Some(n) = new_expr {
                let n = if self.mode.get() == 1 && !whole { self.frag("expr", n, 100) } else { n };
                add(true, false, format!("new = {n}"));
            }
            if a.ignore {
                add(true, false, "ignore".into());
            }
            if a.default {
                add(true, false, "default".into());
            }
            if let Some(b) = &a.f_bound {
                add(true, false, format!("bound({})", bounds(b)));
            }
        }
        s.shuffle(&mut items);
        // group into attributes
        let mut groups: Vec<Vec<Item>> = vec![];
        for it in items {
            let joinable: Vec<usize> = (0..groups.len()).filter(|g| groups[*g][0].from_str == it.from_str).collect();
            if !joinable.is_empty() && !s.pct(50) {
                let g = joinable[s.below(joinable.len())];
                groups[g].push(it);
            } else {
                groups.push(vec![it]);
            }
        }
        let mut out = String::new();
        let noise = s.next();
        for (i, mut g) in groups.into_iter().enumerate() {
            g.sort_by_key(|x| !x.unnamed);
            if noise % 5 == 4 && i == 1 {
                out.push_str("/// text {x} in between\n");
            }
            let trail = if noise % 3 == 2 { "," } else { "" };
            let body = g.iter().map(|x| x.text.clone()).collect::<Vec<_>>().join(", ");
            let name = if g[0].from_str { "from_str" } else { "display" };
            let text = format!("{name}({body}{trail})");
            let text = if whole { self.frag("meta", text, 80) } else { text };
            writeln!(out, "#[{text}]").unwrap();
        }
        out
    }

    fn fields(&self, fs: &Fields, d: &Def, is_struct: bool) -> String {
        let vis = if is_struct { "pub " } else { "" };
        let mut o = String::new();
        match fs.kind {
            Kind::Unit => {}
            Kind::Named => {
                o.push_str(" {\n");
                for f in &fs.fields {
                    o.push_str(&self.attrs(&f.attrs, d, None));
                    let name = self.field_ident(f);
                    writeln!(o, "{vis}{name}: {},", self.field_ty(&f.ty)).unwrap();
                }
                o.push('}');
            }
            Kind::Tuple => {
                o.push_str("(\n");
                for f in &fs.fields {
                    o.push_str(&self.attrs(&f.attrs, d, None));
                    writeln!(o, "{vis}{},", self.field_ty(&f.ty)).unwrap();
                }
                o.push(')');
            }
        }
        o
    }

    fn new_expr(&self, a: &Attrs, fs: &Fields, variant: Option<&Variant>, idx: usize) -> Option<String> {
        let k = a.new?;
        let field = |f: &Field| if self.mode.get() == 2 { self.field_ident(f) } else { ident(&f.name, f.raw) };
        let var = |f: &Field| {
            if fs.kind == Kind::Tuple {
                format!("_{}", f.name)
            } else {
                field(f)
            }
        };
        let abs = self.o.surround != Surround::Plain;
        Some(match k {
            NewKind::Plain => {
                let path = match variant {
                    Some(v) => format!("Self::{}", ident(&v.name, v.raw)),
                    None => "Self".into(),
                };
                match fs.kind {
                    Kind::Unit => path,
                    Kind::Named => format!(
                        "{path} {{ {} }}",
                        fs.fields
                            .iter()
                            .map(|f| format!("{}: {}", field(f), var(f)))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                    Kind::Tuple => {
                        format!("{path}({})", fs.fields.iter().map(var).collect::<Vec<_>>().join(", "))
                    }
                }
            }
            _ => {
                let _ = abs;
                format!("Self::pd_new_{idx}({})", fs.fields.iter().map(var).collect::<Vec<_>>().join(", "))
            }
        })
    }

    /// decides where the names of the fields are written
    fn name_fields(&self, fs: &Fields) {
        let mut m = BTreeMap::new();
        self.mode.set(0);
        if self.o.macros {
            self.mode.set(self.draw(3));
            if fs.kind == Kind::Named {
                for f in &fs.fields {
                    let n = ident(&f.name, f.raw);
                    m.insert(n.clone(), self.frag("ident", n, 40));
                }
            }
        }
        *self.names.borrow_mut() = m;
    }

    fn new_fn(&self, a: &Attrs, fs: &Fields, variant: Option<usize>, idx: usize) -> String {
        let Some(k) = a.new else { return String::new() };
        if k == NewKind::Plain {
            return String::new();
        }
        let args =
            fs.fields.iter().enumerate().map(|(i, f)| format!("a{i}: {}", self.ty(&f.ty, false))).collect::<Vec<_>>();
        let vals = (0..fs.fields.len()).map(|i| format!("Conv::to_v(&a{i})")).collect::<Vec<_>>().join(", ");
        let (ret, conv) = match k {
            NewKind::Opt => ("Option<Self>", "r"),
            NewKind::Res => ("Result<Self, String>", "r.ok_or_else(|| String::from(\"rejected\"))"),
            _ => ("Self", "r.unwrap()"),
        };
        let wrap = match variant {
            None => "V::Struct(x)".to_string(),
            Some(v) => format!("V::Enum({v}, x)"),
        };
        format!(
            "pub fn pd_new_{idx}({}) -> {ret} {{ let r = pd_rt::new_apply(NewKind::{k:?}, vec![{vals}]).map(|x| <Self as Conv>::from_v(&{wrap})); {conv} }}\n",
            args.join(", ")
        )
    }

    /// sometimes writes the defaults of fields where the type or the variant is declared
    fn move_defaults(&self, d: &Def) -> Def {
        let mut d = d.clone();
        if !d.from_str {
            return d;
        }
        let pick = |a: &Attrs, n: u32| a.layout.iter().fold(0u32, |x, y| x.wrapping_mul(31).wrapping_add(*y)) % n == n - 1;
        let list = |names: Vec<(String, bool, usize)>| {
            let one = |(n, raw, i): &(String, bool, usize)| {
                let t = if *raw && i % 2 == 0 { format!("r#{n}") } else { n.clone() };
                if i % 3 == 1 { format!("{t:?}") } else { t }
            };
            if names.len() > 1 && names.len() % 2 == 0 {
                // all in one string
                let t = names.iter().map(|(n, raw, _)| if *raw { format!("r#{n}") } else { n.clone() }).collect::<Vec<_>>().join(", ");
                return format!("default_fields({t:?})");
            }
            format!("default_fields({})", names.iter().map(one).collect::<Vec<_>>().join(", "))
        };
        let take = |fs: &mut Fields, keep: &dyn Fn(&Field) -> bool| -> Vec<(String, bool, usize)> {
            let mut v = vec![];
            for (i, f) in fs.fields.iter_mut().enumerate() {
                if f.attrs.default && !keep(f) {
                    f.attrs.default = false;
                    v.push((f.name.clone(), f.raw, i));
                }
            }
            v
        };
        match &mut d.body {
            Body::Struct(fs) => {
                if pick(&d.attrs, 4) {
                    let v = take(fs, &|f| f.name.len() % 3 == 2);
                    if !v.is_empty() {
                        d.attrs.extra.push((true, list(v)));
                    }
                }
            }
            Body::Enum(vs) => {
                let used: Vec<usize> = (0..vs.len()).filter(|i| !vs[*i].attrs.ignore).collect();
                let common: Vec<(String, bool)> = match used.first() {
                    Some(k) => vs[*k].fields.fields.iter().map(|f| (f.name.clone(), f.raw)).collect(),
                    None => vec![],
                };
                let common: Vec<(String, bool)> =
                    common.into_iter().filter(|(n, _)| used.iter().all(|k| vs[*k].fields.fields.iter().any(|f| f.name == *n && f.attrs.default))).collect();
                let shared = !common.is_empty() && pick(&d.attrs, 2);
                if shared {
                    for k in &used {
                        for f in &mut vs[*k].fields.fields {
                            if common.iter().any(|c| c.0 == f.name) {
                                f.attrs.default = false;
                            }
                        }
                    }
                    d.attrs.extra.push((true, list(common.into_iter().enumerate().map(|(i, (n, r))| (n, r, i)).collect())));
                }
                for v in vs {
                    if pick(&v.attrs, if shared { 2 } else { 4 }) && !v.attrs.ignore {
                        let l = take(&mut v.fields, &|f| f.name.len() % 3 == 2 && !shared);
                        if !l.is_empty() {
                            v.attrs.extra.push((true, list(l)));
                        }
                    }
                }
            }
        }
        d
    }

    fn def(&self, i: usize) -> (String, String) {
        let d = &self.move_defaults(&self.u.defs[i]);
        self.frags.borrow_mut().clear();
        self.rng.set((self.u.id as u64) << 20 | (i as u64) << 10 | 0x5a);
        self.draw(1);
        let mut o = String::new();
        let mut glue = String::new();
        let abs = self.o.surround != Surround::Plain;
        let core = if abs { "::core::" } else { "" };
        let k = self.o.krate.clone().unwrap_or_else(|| "::parse_display".into());
        let mut derives = vec![
            if abs { format!("{core}fmt::Debug") } else { "Debug".into() },
            if abs { format!("{core}clone::Clone") } else { "Clone".into() },
            if abs { format!("{core}cmp::PartialEq") } else { "PartialEq".into() },
        ];
        if d.union {
            derives.clear();
        }
        if d.display {
            derives.push(format!("{k}::Display"));
        }
        if d.from_str {
            derives.push(format!("{k}::FromStr"));
        }
        let dn = if self.o.surround == Surround::NoPrelude { "::core::prelude::v1::derive" } else { "derive" };
        writeln!(o, "#[{dn}({})]", derives.join(", ")).unwrap();
        let mut a = d.attrs.clone();
        if self.o.krate.is_some() && (d.display || d.from_str) {
            a.krate = Some(k.clone());
        }
        let params =
            if d.params == 0 { String::new() } else { format!("<{}>", PNAMES[..d.params].join(", ")) };
        let gparams = if d.params == 0 {
            String::new()
        } else {
            format!("<{}>", PNAMES[..d.params].iter().map(|p| format!("{p}: Conv")).collect::<Vec<_>>().join(", "))
        };
        let n = &d.name;
        let mut helpers = String::new();
        let (mut to, mut from) = (String::new(), String::new());
        match &d.body {
            Body::Struct(fs) => {
                self.name_fields(fs);
                o.push_str(&self.attrs(&a, d, self.new_expr(&a, fs, None, 0)));
                let n_ = self.frag("ident", n.clone(), 40);
                write!(o, "pub {} {n_}{params}{}", if d.union { "union" } else { "struct" }, self.fields(fs, d, true)).unwrap();
                o.push_str(if fs.kind == Kind::Named { "\n" } else { ";\n" });
                helpers.push_str(&self.new_fn(&a, fs, None, 0));
                let m = |i: usize, f: &Field| if fs.kind == Kind::Tuple { i.to_string() } else { ident(&f.name, f.raw) };
                let pat = fs.fields.iter().enumerate().map(|(i, f)| format!("{}: f{i}", m(i, f))).collect::<Vec<_>>();
                let get = (0..fs.fields.len()).map(|i| format!("Conv::to_v(f{i})")).collect::<Vec<_>>();
                write!(to, "d::{n} {{ {} }} => V::Struct(vec![{}]),", pat.join(", "), get.join(", ")).unwrap();
                let init = fs
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| format!("{}: Conv::from_v(&x[{i}])", m(i, f)))
                    .collect::<Vec<_>>();
                write!(from, "V::Struct(x) => {{ let _ = &x; d::{n} {{ {} }} }}", init.join(", ")).unwrap();
            }
            Body::Enum(vs) => {
                self.mode.set(0);
                o.push_str(&self.attrs(&a, d, None));
                let n_ = self.frag("ident", n.clone(), 40);
                writeln!(o, "pub enum {n_}{params} {{").unwrap();
                for (vi, v) in vs.iter().enumerate() {
                    self.name_fields(&v.fields);
                    o.push_str(&self.attrs(&v.attrs, d, self.new_expr(&v.attrs, &v.fields, Some(v), vi)));
                    let vn = ident(&v.name, v.raw);
                    let vn_ = self.frag("ident", vn.clone(), 40);
                    writeln!(o, "{vn_}{},", self.fields(&v.fields, d, false)).unwrap();
                    if !v.attrs.ignore {
                        helpers.push_str(&self.new_fn(&v.attrs, &v.fields, Some(vi), vi));
                    }
                    let fs = &v.fields;
                    let m =
                        |i: usize, f: &Field| if fs.kind == Kind::Tuple { i.to_string() } else { ident(&f.name, f.raw) };
                    let pat =
                        fs.fields.iter().enumerate().map(|(i, f)| format!("{}: f{i}", m(i, f))).collect::<Vec<_>>();
                    let get = (0..fs.fields.len()).map(|i| format!("Conv::to_v(f{i})")).collect::<Vec<_>>();
                    writeln!(to, "d::{n}::{vn} {{ {} }} => V::Enum({vi}, vec![{}]),", pat.join(", "), get.join(", "))
                        .unwrap();
                    let init = fs
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| format!("{}: Conv::from_v(&x[{i}])", m(i, f)))
                        .collect::<Vec<_>>();
                    writeln!(
                        from,
                        "V::Enum({vi}, x) => {{ let _ = &x; d::{n}::{vn} {{ {} }} }}",
                        init.join(", ")
                    )
                    .unwrap();
                }
                o.push_str("}\n");
            }
        }
        if self.o.macros {
            let f = self.frags.borrow();
            let params = f.iter().enumerate().map(|(k, (kind, _))| format!("$p{k}:{kind}; ")).collect::<String>();
            let args = f.iter().map(|(_, t)| format!("{t}; ")).collect::<String>();
            o = format!("macro_rules! mk{i} {{ ({params}) => {{\n{o}}} }}\nmk{i}! {{ {args} }}\n");
        }
        writeln!(
            glue,
            "impl{gparams} Conv for d::{n}{params} {{\nfn to_v(&self) -> V {{ match self {{ {to} }} }}\nfn from_v(v: &V) -> Self {{ match v {{ {from} _ => pd_rt::bad(v) }} }}\n}}"
        )
        .unwrap();
        if !helpers.is_empty() {
            writeln!(glue, "impl{gparams} d::{n}{params} {{\n{helpers}}}").unwrap();
        }
        if let Some(dv) = &d.default_val {
            let js = serde_json::to_string(dv).unwrap();
            writeln!(
                glue,
                "impl{gparams} Default for d::{n}{params} {{ fn default() -> Self {{ pd_rt::lit({}) }} }}",
                str_lit(&js, 0)
            )
            .unwrap();
        }
        // other format traits of the whole value, when a format uses them
        for t in self.self_traits(i) {
            writeln!(
                glue,
                "impl{gparams} std::fmt::{t} for d::{n}{params} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ pd_rt::self_fmt(\"{t}\", &Conv::to_v(self), f) }} }}"
            )
            .unwrap();
        }
        (o, glue)
    }

    fn self_traits(&self, i: usize) -> Vec<&'static str> {
        let d = &self.u.defs[i];
        let mut ts = vec![];
        let mut look = |f: &Option<Fmt>| {
            if let Some(f) = f {
                for p in &f.0 {
                    if let Part::Arg { path, spec, .. } = p {
                        if path.is_empty() {
                            let t = spec_trait(spec);
                            if t != "Display" && t != "Debug" && !ts.contains(&t) {
                                ts.push(t);
                            }
                        }
                    }
                }
            }
        };
        look(&d.attrs.format);
        if let Body::Enum(vs) = &d.body {
            vs.iter().for_each(|v| look(&v.attrs.format));
        }
        ts
    }

    /// every (type, specification) pair whose std rendering the model needs
    fn specs(&self) -> BTreeMap<(String, String), String> {
        let mut out = BTreeMap::new();
        let mut insts: Vec<(usize, Vec<Ty>)> = vec![];
        let mut todo = self.u.insts.clone();
        while let Some((d, a)) = todo.pop() {
            if insts.contains(&(d, a.clone())) {
                continue;
            }
            insts.push((d, a.clone()));
            let def = &self.u.defs[d];
            let all: Vec<(&Fields, Option<&Attrs>)> = match &def.body {
                Body::Struct(fs) => vec![(fs, None)],
                Body::Enum(vs) => vs.iter().map(|v| (&v.fields, Some(&v.attrs))).collect(),
            };
            for (fs, va) in all {
                for f in &fs.fields {
                    self.collect_defs(&f.ty.subst(&a), &mut todo);
                }
                let f = va.and_then(|v| v.format.as_ref()).or(def.attrs.format.as_ref());
                if let Some(f) = f {
                    self.specs_fmt(f, fs, d, &a, &mut out);
                }
                else if va.is_none() && fs.fields.len() == 1 {
                    // a newtype is formatted as its field
                    let f = Fmt(vec![Part::Arg { path: vec![fs.fields[0].name.clone()], raw: false, spec: String::new() }]);
                    self.specs_fmt(&f, fs, d, &a, &mut out);
                }
            }
        }
        out
    }
    fn collect_defs(&self, t: &Ty, todo: &mut Vec<(usize, Vec<Ty>)>) {
        match t {
            Ty::Def(d, a) => {
                todo.push((*d, a.clone()));
                a.iter().for_each(|t| self.collect_defs(t, todo));
            }
            Ty::Opt(t) | Ty::Vec(t) | Ty::Ref(t) | Ty::Bx(t) => self.collect_defs(t, todo),
            _ => {}
        }
    }
    fn add_spec(&self, t: &Ty, spec: &str, out: &mut BTreeMap<(String, String), String>) {
        if spec.is_empty() {
            return;
        }
        let ty = self.ty(t, false);
        out.insert(
            (t.key(), spec.to_string()),
            format!(
                "pd_rt::Spec {{ ty: {}, spec: {}, f: |v| format!({}, <{ty} as Conv>::from_v(v)) }},",
                str_lit(&t.key(), 0),
                str_lit(spec, 0),
                str_lit(&format!("{{:{spec}}}"), 0)
            ),
        );
    }
    fn nested_ty(&self, t: &Ty, path: &[String]) -> Option<Ty> {
        let mut t = t.clone();
        for k in path {
            while let Ty::Ref(x) | Ty::Bx(x) | Ty::Opt(x) = t {
                t = *x;
            }
            let Ty::Def(d, a) = &t else { return None };
            let Body::Struct(fs) = &self.u.defs[*d].body else { return None };
            t = fs.fields[fs.index(k)?].ty.subst(a);
        }
        Some(t)
    }
    fn specs_fmt(&self, f: &Fmt, fs: &Fields, d: usize, a: &[Ty], out: &mut BTreeMap<(String, String), String>) {
        for p in &f.0 {
            let Part::Arg { path, spec, .. } = p else { continue };
            if path.is_empty() {
                if spec_trait(spec) != "Display" {
                    self.add_spec(&Ty::Def(d, a.to_vec()), spec, out);
                } else {
                    self.add_spec(&Ty::RefStr, spec, out);
                }
                continue;
            }
            let Some(i) = fs.index(&path[0]) else { continue };
            let field = &fs.fields[i];
            let fty = field.ty.subst(a);
            if path.len() > 1 {
                if let Some(t) = self.nested_ty(&fty, &path[1..]) {
                    self.add_spec(&t, spec, out);
                }
                continue;
            }
            let vty = match (&fty, field.attrs.opt) {
                (Ty::Opt(t), true) => (**t).clone(),
                _ => fty.clone(),
            };
            let add_self = |spec: &str, out: &mut BTreeMap<(String, String), String>| match &field.attrs.d_with {
                Some(With::Pass) => {
                    let mut t = vty.clone();
                    while let Ty::Ref(x) = t {
                        t = *x;
                    }
                    self.add_spec(&t, spec, out)
                }
                Some(_) => {}
                None => self.add_spec(&vty, spec, out),
            };
            match &field.attrs.format {
                None => add_self(spec, out),
                Some(ff) => {
                    for p in &ff.0 {
                        let Part::Arg { path, spec, .. } = p else { continue };
                        if path.is_empty() {
                            add_self(spec, out);
                        } else if let Some(t) = self.nested_ty(&vty, path) {
                            self.add_spec(&t, spec, out);
                        }
                    }
                }
            }
        }
    }
}

pub const HOSTILE: &str = r#"
#![allow(unused, non_camel_case_types, non_snake_case)]
pub struct String; pub struct Vec; pub struct Box; pub struct Option; pub struct Result; pub struct ToString_;
pub enum Some_ {} pub struct Some; pub struct None; pub struct Ok; pub struct Err; pub struct Self_;
pub struct Formatter; pub struct Regex; pub struct OnceLock; pub struct Parser; pub struct ParseError; pub struct str; pub struct bool; pub struct usize; pub struct u8; pub struct i32;
pub trait Display {} pub trait FromStr {} pub trait Default {} pub trait Into {} pub trait From {} pub trait ToString {} pub trait Debug {} pub trait Clone {} pub trait Fn {} pub trait FnOnce {} pub trait Iterator {} pub trait AsRef {} pub trait Deref {} pub trait PartialEq {} pub trait Drop {} pub trait Copy {} pub trait Send {} pub trait Sync {} pub trait Sized_ {} pub trait FromStrRegex {} pub trait IntoResult {} pub trait DisplayFormat {} pub trait FromStrFormat {}
pub mod std {} pub mod core {} pub mod alloc {} pub mod fmt {} pub mod option {} pub mod result {} pub mod helpers {} pub mod parse_display {} pub mod regex {}
macro_rules! write { ($($t:tt)*) => { compile_error!("shadowed write") } }
macro_rules! format { ($($t:tt)*) => { compile_error!("shadowed format") } }
macro_rules! format_args { ($($t:tt)*) => { compile_error!("shadowed format_args") } }
macro_rules! panic { ($($t:tt)*) => { compile_error!("shadowed panic") } }
macro_rules! vec { ($($t:tt)*) => { compile_error!("shadowed vec") } }
macro_rules! matches { ($($t:tt)*) => { compile_error!("shadowed matches") } }
macro_rules! debug_assert_eq { ($($t:tt)*) => { compile_error!("shadowed debug_assert_eq") } }
macro_rules! assert { ($($t:tt)*) => { compile_error!("shadowed assert") } }
macro_rules! unreachable { ($($t:tt)*) => { compile_error!("shadowed unreachable") } }
pub fn drop() {} pub fn fmt_pointer() {} pub fn parse() {} pub fn from_str() {} pub fn parse_variant() {}
"#;

/// Values of the user's own whose names are those a writer of generated code picks for local variables. A name that is
/// also the name of a field is left out (`new = ...` makes variables of the fields).
fn own_values(u: &Unit) -> String {
    const NAMES: &str = "a b c d e f g h i j k l m n o p q r s t u v w x y z value text key captures cap caps formatter init parser this other state re index name args \
        field fields input output inner arm helper ty expr msg err error ok src parsed parsed_value matched groups group item it ctx cx tmp arg args0 fmt_ string value_0 value0 \
        x0 f0 f1 arg0 a0 _f _x _v _e_ _t _re parse_with to_regex to_ast RE PARSER REGEX CELL INIT S F field_value fmt0";
    let mut taken: Vec<&str> = vec![];
    for d in &u.defs {
        taken.push(&d.name);
        match &d.body {
            Body::Struct(fs) => taken.extend(fs.fields.iter().map(|f| f.name.as_str())),
            Body::Enum(vs) => taken.extend(vs.iter().flat_map(|v| v.fields.fields.iter().map(|f| f.name.as_str()))),
        }
    }
    let mut o = String::new();
    for (i, n) in NAMES.split_whitespace().enumerate() {
        if !taken.contains(&n) {
            match (i + u.id) % 4 {
                0 => writeln!(o, "pub struct {n}(pub ::core::primitive::u8);"),
                1 => writeln!(o, "pub static {n}: ::core::primitive::u8 = 0;"),
                2 => writeln!(o, "pub const {n}: ::core::primitive::u8 = 0;"),
                _ => writeln!(o, "pub struct {n};"),
            }
            .unwrap();
        }
    }
    o
}

/// The source file (one module) of a unit.
pub fn module(u: &Unit, o: &Opts) -> String {
    let g = Gen::new(u, o);
    let mut defs = String::new();
    let mut glue = String::new();
    for i in 0..u.defs.len() {
        let (d, gl) = g.def(i);
        defs.push_str(&d);
        glue.push_str(&gl);
    }
    let mut s = String::new();
    writeln!(s, "#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, deprecated, dead_code, uncommon_codepoints, mixed_script_confusables, confusable_idents)]").unwrap();
    match o.surround {
        Surround::Plain => {
            writeln!(s, "pub mod d {{\n{defs}}}").unwrap();
        }
        Surround::Hostile => {
            let mut h = HOSTILE.trim_start().split_once('\n').unwrap().1.to_string();
            for d in &u.defs {
                for (a, b) in [("struct", ";"), ("trait", " {}"), ("mod", " {}"), ("enum", " {}")] {
                    h = h.replace(&format!("pub {a} {}{b}", d.name), "");
                }
            }
            writeln!(s, "pub mod d {{\n{h}\n{}\n{defs}}}", own_values(u)).unwrap();
        }
        Surround::NoStd => {
            writeln!(s, "use hstd::prelude::v1::*;\nuse hstd::{{vec, format}};\npub mod d {{\n{defs}}}").unwrap();
        }
        Surround::Strict => {
            // `default_fields` is deprecated and says so
            let deprecated = if defs.contains("default_fields") { ", deprecated" } else { "" };
            writeln!(
                s,
                "#[deny(warnings, unused, deprecated)]\n\
                 #[allow(nonstandard_style, dead_code{deprecated})]\npub mod d {{\n{defs}}}"
            )
            .unwrap();
        }
        Surround::NoPrelude => {
            writeln!(s, "#[no_implicit_prelude]\npub mod d {{\n{defs}}}").unwrap();
        }
    }
    writeln!(s, "use pd_rt::{{Conv, V, NewKind}};").unwrap();
    s.push_str(&glue);
    let mut insts = String::new();
    for (d, a) in &u.insts {
        let def = &u.defs[*d];
        let ty = g.ty(&Ty::Def(*d, a.clone()), false);
        let disp = if def.display {
            format!("Some(|v| pd_rt::show::<{ty}>(v)), write: Some(|v, w| pd_rt::write_to::<{ty}>(v, w)), flagged: Some(|v, i| pd_rt::flagged::<{ty}>(v, i))")
        } else {
            "None, write: None, flagged: None".into()
        };
        let parse = if def.from_str { format!("Some(|s| pd_rt::parse::<{ty}>(s))") } else { "None".into() };
        let re = if def.from_str && o.std { format!("Some(|| pd_rt::pattern::<{ty}>())") } else { "None".into() };
        writeln!(insts, "pd_rt::Inst {{ display: {disp}, parse: {parse}, re: {re} }},").unwrap();
    }
    let specs: String = g.specs().values().map(|s| format!("{s}\n")).collect();
    writeln!(
        s,
        "pub fn entry() -> pd_rt::Entry {{ pd_rt::Entry {{ unit: {}, insts: vec![{insts}], specs: vec![{specs}] }} }}",
        u.id
    )
    .unwrap();
    if o.surround == Surround::NoStd {
        s = s.replace("::std::", "::hstd::").replace(" std::", " hstd::").replace("&std::", "&hstd::").replace("(std::", "(hstd::").replace("<std::", "<hstd::").replace("&mut std::", "&mut hstd::");
    }
    s
}

/// The definitions only, for reports.
pub fn source(u: &Unit, o: &Opts) -> String {
    let g = Gen::new(u, o);
    (0..u.defs.len()).map(|i| g.def(i).0).collect()
}

/// writes "any text" in the way the crate does
fn any_as_crate(mut s: String) -> String {
    for q in ["*?", "+?", "*", "+"] {
        s = s.replace(&format!("(?s:.){q}"), &format!("(?s:.{q})"));
    }
    s
}
