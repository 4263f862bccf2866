//! Reference semantics of Display and FromStr for a definition, following the documentation.
use crate::ast::*;
use crate::rx::*;
use crate::vals::*;

/// Facts that only the generated program can supply: what `std::format!` does with a specification, and which
/// pattern a library type offers.
pub trait Oracle {
    fn spec(&self, ty: &Ty, spec: &str, v: &V) -> String;
    fn pat(&self, p: Prim) -> String;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(V),
    Err,
    /// the statement says nothing about this input
    Skip,
}

pub struct Sem<'a> {
    pub unit: &'a Unit,
    pub o: &'a dyn Oracle,
}

pub fn words(ident: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut prev: Option<char> = None; // None: at a word boundary
    for c in ident.chars() {
        if !c.is_alphanumeric() {
            prev = None;
            continue;
        }
        let start = match prev {
            None => true,
            Some(p) => c.is_ascii_uppercase() && !p.is_ascii_uppercase(),
        };
        if start {
            out.push(String::new());
        }
        out.last_mut().unwrap().push(c);
        prev = Some(c);
    }
    out
}

pub fn styled(style: Style, ident: &str) -> String {
    let ws = words(ident);
    let lower = |w: &String| w.to_ascii_lowercase();
    let upper = |w: &String| w.to_ascii_uppercase();
    let cap = |w: &String| {
        let l = w.to_ascii_lowercase();
        let mut cs = l.chars();
        match cs.next() {
            Some(c) => format!("{}{}", c.to_ascii_uppercase(), cs.as_str()),
            None => String::new(),
        }
    };
    let each = |f: &dyn Fn(&String) -> String, sep: &str| ws.iter().map(f).collect::<Vec<_>>().join(sep);
    let head = |f0: &dyn Fn(&String) -> String, f: &dyn Fn(&String) -> String, sep: &str| {
        ws.iter().enumerate().map(|(i, w)| if i == 0 { f0(w) } else { f(w) }).collect::<Vec<_>>().join(sep)
    };
    match style {
        Style::None => ident.to_string(),
        Style::Lower => each(&lower, ""),
        Style::Upper => each(&upper, ""),
        Style::Snake => each(&lower, "_"),
        Style::UpperSnake => each(&upper, "_"),
        Style::LowerCamel => head(&lower, &cap, ""),
        Style::UpperCamel => each(&cap, ""),
        Style::Kebab => each(&lower, "-"),
        Style::UpperKebab => each(&upper, "-"),
        Style::Title => each(&cap, " "),
        Style::TitleHead => head(&cap, &lower, " "),
        Style::TitleLower => each(&lower, " "),
        Style::TitleUpper => each(&upper, " "),
    }
}

pub fn variant_name(d: &Def, v: &Variant) -> String {
    let style = v.attrs.style.or(d.attrs.style).unwrap_or(Style::None);
    styled(style, &v.name)
}

/// How one struct or variant is parsed.
pub struct Shape {
    /// the text, if it is nothing but text
    pub lit: Option<String>,
    pub rx: Rx,
    /// capture i fills field caps[i].0 (or what caps[i].1 leads to inside it)
    pub caps: Vec<(usize, Vec<String>)>,
}

pub fn with_pat(w: &With) -> Option<Rx> {
    let s = match w {
        With::Hex => HEX_PAT,
        With::Angle => ANGLE_PAT,
        With::YesNo => YESNO_PAT,
        With::Groups => GROUPS_PAT,
        With::Look => LOOK_PAT,
        With::Opaque => OPAQUE_PAT,
        With::OldRegex => OLD_PAT,
        With::Rx(rx) => return Some(rx.clone()),
        With::Plus1 | With::Pass | With::Flags | With::Delim(_) | With::JoinHex(_) | With::Fmt => return None,
    };
    Some(Rx::from_pattern(s).unwrap())
}

pub struct SpecParts {
    pub fill: char,
    pub align: Option<char>,
    pub plus: bool,
    pub minus: bool,
    pub alt: bool,
    pub zero: bool,
    pub width: Option<usize>,
    pub prec: Option<usize>,
}
pub fn spec_parts(spec: &str) -> SpecParts {
    let mut cs: Vec<char> = spec.chars().collect();
    let mut r = SpecParts {
        fill: ' ',
        align: None,
        plus: false,
        minus: false,
        alt: false,
        zero: false,
        width: None,
        prec: None,
    };
    if cs.len() >= 2 && "<^>".contains(cs[1]) {
        r.fill = cs[0];
        r.align = Some(cs[1]);
        cs.drain(..2);
    } else if !cs.is_empty() && "<^>".contains(cs[0]) {
        r.align = Some(cs[0]);
        cs.drain(..1);
    }
    let mut it = cs.into_iter().peekable();
    if it.peek() == Some(&'+') {
        r.plus = true;
        it.next();
    } else if it.peek() == Some(&'-') {
        r.minus = true;
        it.next();
    }
    if it.peek() == Some(&'#') {
        r.alt = true;
        it.next();
    }
    if it.peek() == Some(&'0') {
        r.zero = true;
        it.next();
    }
    let num = |it: &mut std::iter::Peekable<std::vec::IntoIter<char>>| {
        let mut n: Option<usize> = None;
        while let Some(c) = it.peek().and_then(|c| c.to_digit(10)) {
            n = Some(n.unwrap_or(0) * 10 + c as usize);
            it.next();
        }
        n
    };
    r.width = num(&mut it);
    if it.peek() == Some(&'.') {
        it.next();
        r.prec = num(&mut it);
    }
    r
}

pub fn flags_text(p: &SpecParts, v: &str) -> String {
    format!(
        "[{}{}{}{}{}{}|{:?}|{:?}]{v}",
        p.fill,
        p.align.unwrap_or('n'),
        if p.plus { "+" } else { "" },
        if p.minus { "-" } else { "" },
        if p.alt { "#" } else { "" },
        if p.zero { "0" } else { "" },
        p.width,
        p.prec
    )
}

enum Base<'b> {
    Struct { def: usize, args: &'b [Ty], me: &'b V, fields: &'b Fields, vals: &'b [V] },
    Variant { def: usize, args: &'b [Ty], me: &'b V, fields: &'b Fields, vals: &'b [V], name: &'b str },
    Field { ty: &'b Ty, val: &'b V, with: Option<&'b With> },
}

impl<'a> Sem<'a> {
    // ------------------------------------------------------------------------------------------------ printing
    pub fn display(&self, ty: &Ty, v: &V) -> String {
        match ty {
            Ty::P(_) | Ty::RefStr => show_prim(v),
            Ty::Ref(t) | Ty::Bx(t) => self.display(t, v),
            Ty::Def(i, a) => self.display_def(*i, a, v),
            t => panic!("no Display: {t:?}"),
        }
    }
    fn show(&self, ty: &Ty, spec: &str, v: &V) -> String {
        if spec.is_empty() {
            self.display(ty, v)
        } else {
            self.o.spec(ty, spec, v)
        }
    }
    pub fn display_def(&self, def: usize, args: &[Ty], v: &V) -> String {
        let d = &self.unit.defs[def];
        match (&d.body, v) {
            (Body::Struct(fs), V::Struct(vals)) => {
                let b = Base::Struct { def, args, me: v, fields: fs, vals };
                match &d.attrs.format {
                    Some(f) => self.render(f, &b, args),
                    None => self.render_field(&b, 0, "", args),
                }
            }
            (Body::Enum(vs), V::Enum(k, vals)) => {
                let var = &vs[*k];
                let name = variant_name(d, var);
                let b = Base::Variant { def, args, me: v, fields: &var.fields, vals, name: &name };
                match var.attrs.format.as_ref().or(d.attrs.format.as_ref()) {
                    Some(f) => self.render(f, &b, args),
                    None => name.clone(),
                }
            }
            _ => panic!("value does not fit its type"),
        }
    }
    fn render(&self, f: &Fmt, b: &Base, args: &[Ty]) -> String {
        let mut s = String::new();
        for p in &f.0 {
            match p {
                Part::Lit(l) | Part::Raw(l) => s.push_str(l),
                Part::Arg { path, spec, .. } => s.push_str(&self.render_arg(path, spec, b, args)),
            }
        }
        s
    }
    fn render_arg(&self, path: &[String], spec: &str, b: &Base, args: &[Ty]) -> String {
        match b {
            Base::Struct { def, args: a, me, fields, vals } | Base::Variant { def, args: a, me, fields, vals, .. } => {
                if path.is_empty() {
                    if spec_trait(spec) != "Display" {
                        return self.show(&Ty::Def(*def, a.to_vec()), spec, me);
                    }
                    if let Base::Variant { name, .. } = b {
                        return self.show(&Ty::RefStr, spec, &V::Str(name.to_string()));
                    }
                    panic!("{{}} in a struct");
                }
                let i = fields.index(&path[0]).expect("field");
                if path.len() == 1 {
                    self.render_field(b, i, spec, args)
                } else {
                    let ty = fields.fields[i].ty.subst(args);
                    let (t, v) = self.descend(&ty, &vals[i], &path[1..]);
                    self.show(&t, spec, &v)
                }
            }
            Base::Field { ty, val, with } => {
                if path.is_empty() {
                    match with {
                        Some(w) => self.with_write(w, ty, spec, val),
                        None => self.show(ty, spec, val),
                    }
                } else {
                    let (t, v) = self.descend(ty, val, path);
                    self.show(&t, spec, &v)
                }
            }
        }
    }
    fn render_field(&self, b: &Base, i: usize, spec: &str, args: &[Ty]) -> String {
        let (fields, vals) = match b {
            Base::Struct { fields, vals, .. } | Base::Variant { fields, vals, .. } => (fields, vals),
            _ => unreachable!(),
        };
        let f = &fields.fields[i];
        let mut ty = f.ty.subst(args);
        let mut val = &vals[i];
        if f.attrs.opt {
            ty = match ty {
                Ty::Opt(t) => *t,
                t => panic!("opt on {t:?}"),
            };
            val = match val {
                V::None => return String::new(),
                V::Some(v) => v,
                v => panic!("opt value {v:?}"),
            };
        }
        let fb = Base::Field { ty: &ty, val, with: f.attrs.d_with.as_ref() };
        match &f.attrs.format {
            Some(fm) => self.render(fm, &fb, args),
            None => self.render_arg(&[], spec, &fb, args),
        }
    }
    fn descend(&self, ty: &Ty, v: &V, path: &[String]) -> (Ty, V) {
        let mut t = ty.clone();
        let mut v = v.clone();
        for k in path {
            while let Ty::Ref(x) | Ty::Bx(x) = t {
                t = *x;
            }
            let (Ty::Def(d, a), V::Struct(vals)) = (&t, &v) else { panic!("no field {k} in {t:?}") };
            let Body::Struct(fs) = &self.unit.defs[*d].body else { panic!("not a struct") };
            let i = fs.index(k).expect("nested field");
            let nt = fs.fields[i].ty.subst(a);
            let nv = vals[i].clone();
            t = nt;
            v = nv;
        }
        (t, v)
    }
    fn with_write(&self, w: &With, ty: &Ty, spec: &str, v: &V) -> String {
        let mut ty = ty;
        while let Ty::Ref(t) = ty {
            ty = t;
        }
        match (w, v) {
            (With::Plus1, V::Int(s)) => s.parse::<i32>().unwrap().wrapping_add(1).to_string(),
            (With::Hex, V::Int(s)) => format!("{:x}", s.parse::<u32>().unwrap()),
            (With::Angle, V::Str(s)) => format!("<{s}>"),
            (With::YesNo, V::Bool(b)) => if *b { "yes" } else { "no" }.to_string(),
            (With::Groups, V::Int(s)) => GROUPS_TEXTS[s.parse::<usize>().unwrap() % 7].to_string(),
            (With::Look, V::Str(s)) => format!("^{s}$"),
            (With::Pass, _) => self.show(ty, spec, v),
            (With::Fmt, _) => self.display(ty, v),
            (With::Flags, V::Int(s)) => flags_text(&spec_parts(spec), s),
            (With::Opaque, V::Int(s)) => format!("#{s}"),
            (With::Rx(_), V::Str(s)) => s.clone(),
            (With::OldRegex, V::Str(s)) => s.chars().rev().collect(),
            (With::Delim(d), V::List(l)) => {
                let Ty::Vec(t) = ty else { panic!("delim on {ty:?}") };
                l.iter().map(|x| self.display(t, x)).collect::<Vec<_>>().join(d)
            }
            (With::JoinHex(d), V::List(l)) => {
                l.iter().map(|x| self.with_write(&With::Hex, &Ty::P(Prim::U32), "", x)).collect::<Vec<_>>().join(d)
            }
            _ => panic!("{w:?} on {v:?}"),
        }
    }

    // ------------------------------------------------------------------------------------------------- patterns
    fn alloc(caps: &mut Vec<(usize, Vec<String>)>, f: usize, path: &[String]) -> usize {
        caps.push((f, path.to_vec()));
        caps.len() - 1
    }
    pub fn shape_of(&self, def: usize, variant: Option<usize>, args: &[Ty]) -> Shape {
        let d = &self.unit.defs[def];
        match (&d.body, variant) {
            (Body::Struct(fs), _) => self.shape(fs, &d.attrs, None, None, args),
            (Body::Enum(vs), Some(k)) => {
                let v = &vs[k];
                self.shape(&v.fields, &v.attrs, Some(&d.attrs), Some(variant_name(d, v)), args)
            }
            _ => panic!("variant expected"),
        }
    }
    fn shape(&self, fs: &Fields, own: &Attrs, outer: Option<&Attrs>, name: Option<String>, args: &[Ty]) -> Shape {
        let infer = own.infer || outer.map_or(false, |o| o.infer);
        let mut caps = vec![];
        let (regex, format) = if own.regex.is_some() || own.format.is_some() {
            (own.regex.as_ref(), own.format.as_ref())
        } else if let Some(o) = outer {
            (o.regex.as_ref(), o.format.as_ref())
        } else {
            (None, None)
        };
        if let Some(rx) = regex {
            let rx = rx.map_named(&mut |n, sub| {
                if n.is_empty() {
                    return Rx::Lit(name.clone().expect("variant name"));
                }
                let path: Vec<String> = n.split('.').map(|s| s.to_string()).collect();
                let i = fs.index(&path[0]).expect("field of group");
                Rx::Cap(Self::alloc(&mut caps, i, &path[1..]), Box::new(sub))
            });
            return Shape { lit: None, rx, caps };
        }
        let newtype;
        let format = match format {
            Some(f) => f,
            None => {
                newtype = match &name {
                    None => Fmt(vec![Part::Arg { path: vec![fs.fields[0].name.clone()], raw: false, spec: "".into() }]),
                    Some(_) => Fmt(vec![Part::Arg { path: vec![], raw: false, spec: "".into() }]),
                };
                &newtype
            }
        };
        let mut out = vec![];
        let mut lit = Some(String::new());
        let add = |s: &str, out: &mut Vec<Rx>, lit: &mut Option<String>| {
            out.push(Rx::Lit(s.to_string()));
            if let Some(l) = lit {
                l.push_str(s);
            }
        };
        for p in &format.0 {
            match p {
                Part::Lit(s) | Part::Raw(s) => add(s, &mut out, &mut lit),
                Part::Arg { path, .. } if path.is_empty() => {
                    let n = name.clone().expect("{} in a struct");
                    add(&n, &mut out, &mut lit)
                }
                Part::Arg { path, .. } => {
                    let i = fs.index(&path[0]).expect("field");
                    let fa = &fs.fields[i].attrs;
                    match &fa.format {
                        // a field whose own format is only text is text
                        Some(ff) if path.len() == 1 && !fa.opt && fa.regex.is_none() && ff.is_literal() && !ff.0.iter().any(|p| matches!(p, Part::Arg { .. })) => {
                            ff.0.iter().for_each(|p| {
                                if let Part::Lit(t) = p {
                                    add(t, &mut out, &mut lit);
                                }
                            });
                            continue;
                        }
                        _ => {}
                    }
                    lit = None;
                    if path.len() == 1 {
                        out.push(self.field_rx(fs, i, infer, &mut caps, args));
                    } else {
                        out.push(Rx::Cap(Self::alloc(&mut caps, i, &path[1..]), Box::new(any_lazy())));
                    }
                }
            }
        }
        Shape { lit, rx: Rx::Cat(out), caps }
    }
    /// the parser of a field: custom format, if any
    fn parser_of<'f>(&self, f: &'f Field) -> Option<&'f With> {
        f.attrs.f_with.as_ref().or(f.attrs.d_with.as_ref())
    }
    fn field_rx(&self, fs: &Fields, i: usize, infer: bool, caps: &mut Vec<(usize, Vec<String>)>, args: &[Ty]) -> Rx {
        let f = &fs.fields[i];
        let mut ty = f.ty.subst(args);
        if f.attrs.opt {
            ty = match ty {
                Ty::Opt(t) => *t,
                t => panic!("opt on {t:?}"),
            };
        }
        let whole = match self.parser_of(f) {
            Some(w) => with_pat(w).unwrap_or_else(any_lazy),
            None if infer || f.attrs.infer => self.infer_rx(&ty),
            None => any_lazy(),
        };
        let rx = match &f.attrs.regex {
            Some(rx) if rx.has_named() => rx.map_named(&mut |n, sub| {
                let path: Vec<String> = if n.is_empty() { vec![] } else { n.split('.').map(|s| s.to_string()).collect() };
                Rx::Cap(Self::alloc(caps, i, &path), Box::new(sub))
            }),
            regex => {
                let whole = regex.clone().unwrap_or(whole);
                match &f.attrs.format {
                    None => Rx::Cap(Self::alloc(caps, i, &[]), Box::new(whole)),
                    Some(fm) => {
                        let mut out = vec![];
                        for p in &fm.0 {
                            match p {
                                Part::Lit(s) | Part::Raw(s) => out.push(Rx::Lit(s.clone())),
                                Part::Arg { path, .. } => {
                                    let inner = if path.is_empty() { whole.clone() } else { any_lazy() };
                                    out.push(Rx::Cap(Self::alloc(caps, i, path), Box::new(inner)));
                                }
                            }
                        }
                        Rx::Cat(out)
                    }
                }
            }
        };
        if f.attrs.opt {
            Rx::Rep { min: 0, max: Some(1), greedy: false, sub: Box::new(rx) }
        } else {
            rx
        }
    }
    pub fn infer_rx(&self, ty: &Ty) -> Rx {
        match ty {
            Ty::P(p) => Rx::from_pattern(&self.o.pat(*p)).unwrap_or_else(any_lazy).strip_caps(),
            Ty::Def(d, a) => self.def_rx(*d, a),
            t => panic!("no pattern for {t:?}"),
        }
    }
    /// the whole language of a definition
    pub fn def_rx(&self, def: usize, args: &[Ty]) -> Rx {
        match &self.unit.defs[def].body {
            Body::Struct(_) => self.shape_of(def, None, args).rx.strip_caps(),
            Body::Enum(vs) => Rx::Alt(
                (0..vs.len())
                    .filter(|k| !vs[*k].attrs.ignore)
                    .map(|k| self.shape_of(def, Some(k), args).rx.strip_caps())
                    .collect(),
            ),
        }
    }

    // -------------------------------------------------------------------------------------------------- parsing
    pub fn parse(&self, ty: &Ty, s: &str) -> Out {
        match ty {
            Ty::P(p) => parse_prim(*p, s).map_or(Out::Err, Out::Ok),
            Ty::Def(d, a) => self.parse_def(*d, a, s),
            t => panic!("no FromStr: {t:?}"),
        }
    }
    fn with_parse(&self, w: &With, ty: &Ty, s: &str) -> Out {
        let r = match w {
            With::Plus1 => s.parse::<i32>().ok().map(|x| V::Int(x.wrapping_sub(1).to_string())),
            With::Hex => u32::from_str_radix(s, 16).ok().map(|x| V::Int(x.to_string())),
            With::Angle => angle_parse(s).map(|s| V::Str(s.to_string())),
            With::YesNo => match s {
                "yes" => Some(V::Bool(true)),
                "no" => Some(V::Bool(false)),
                _ => None,
            },
            With::Groups => GROUPS_TEXTS.iter().position(|t| *t == s).map(|i| V::Int(i.to_string())),
            With::Look => look_parse(s).map(|s| V::Str(s.to_string())),
            With::Pass | With::Fmt => return self.parse(ty, s),
            With::Flags => s.parse::<i64>().ok().map(|x| V::Int(x.to_string())),
            With::Opaque => s.strip_prefix('#').and_then(|s| s.parse::<i32>().ok()).map(|x| V::Int(x.to_string())),
            With::Rx(_) => Some(V::Str(s.to_string())),
            With::OldRegex => Some(V::Str(s.chars().rev().collect())),
            With::Delim(d) => {
                let Ty::Vec(t) = ty else { panic!("delim on {ty:?}") };
                let mut l = vec![];
                for x in s.split(d.as_str()) {
                    match self.parse(t, x) {
                        Out::Ok(v) => l.push(v),
                        o => return o,
                    }
                }
                Some(V::List(l))
            }
            With::JoinHex(d) => {
                let mut l = vec![];
                for x in s.split(d.as_str()) {
                    match self.with_parse(&With::Hex, ty, x) {
                        Out::Ok(v) => l.push(v),
                        o => return o,
                    }
                }
                Some(V::List(l))
            }
        };
        r.map_or(Out::Err, Out::Ok)
    }
    pub fn default_of(&self, ty: &Ty) -> V {
        match ty {
            Ty::P(p) => default_prim(*p),
            Ty::Opt(_) => V::None,
            Ty::Vec(_) => V::List(vec![]),
            Ty::Opaque => V::Int("0".into()),
            Ty::Def(d, _) => self.unit.defs[*d].default_val.clone().expect("default"),
            t => panic!("no default for {t:?}"),
        }
    }
    fn set(&self, ty: &Ty, v: &mut V, path: &[String], new: V) {
        if path.is_empty() {
            *v = new;
            return;
        }
        let (Ty::Def(d, a), V::Struct(vals)) = (ty, v) else { panic!("no field {path:?}") };
        let Body::Struct(fs) = &self.unit.defs[*d].body else { panic!("not a struct") };
        let i = fs.index(&path[0]).expect("nested field");
        let t = fs.fields[i].ty.subst(a);
        self.set(&t, &mut vals[i], &path[1..], new)
    }
    fn leaf_ty(&self, ty: &Ty, path: &[String]) -> Ty {
        let mut t = ty.clone();
        for k in path {
            let Ty::Def(d, a) = &t else { panic!("no field {k}") };
            let Body::Struct(fs) = &self.unit.defs[*d].body else { panic!("not a struct") };
            t = fs.fields[fs.index(k).unwrap()].ty.subst(a);
        }
        t
    }
    /// Some(texts) when the pattern of this struct or variant matches the whole input
    pub fn matches(&self, sh: &Shape, s: &str) -> Option<Vec<Option<String>>> {
        Prog::new(&sh.rx, sh.caps.len()).run(s)
    }
    fn build(&self, fs: &Fields, own: &Attrs, def: usize, sh: &Shape, texts: &[Option<String>], args: &[Ty]) -> Result<Option<Vec<V>>, ()> {
        // Err(()) = skip, Ok(None) = rejected
        let mut parsed: Vec<(usize, &[String], V)> = vec![];
        let mut rejected = false;
        for (c, (fi, path)) in sh.caps.iter().enumerate() {
            let f = &fs.fields[*fi];
            let fty = f.ty.subst(args);
            let out = if path.is_empty() {
                let (ty, opt) = match (&fty, f.attrs.opt) {
                    (Ty::Opt(t), true) => ((**t).clone(), true),
                    _ => (fty.clone(), false),
                };
                match &texts[c] {
                    None if opt => Out::Ok(V::None),
                    None => return Err(()),
                    Some(t) => {
                        let r = match self.parser_of(f) {
                            Some(w) => self.with_parse(w, &ty, t),
                            None => self.parse(&ty, t),
                        };
                        match r {
                            Out::Ok(v) if opt => Out::Ok(V::Some(Box::new(v))),
                            r => r,
                        }
                    }
                }
            } else {
                match &texts[c] {
                    None => return Err(()),
                    Some(t) => self.parse(&self.leaf_ty(&fty, path), t),
                }
            };
            match out {
                Out::Ok(v) => parsed.push((*fi, path, v)),
                Out::Err => rejected = true,
                Out::Skip => return Err(()),
            }
        }
        if rejected {
            return Ok(None);
        }
        // a field is there before its own fields are set
        parsed.sort_by_key(|x| x.1.len());
        let is_struct = matches!(self.unit.defs[def].body, Body::Struct(_));
        let whole_default = is_struct && own.default && own.new.is_none();
        let mut vals: Vec<V> = vec![];
        for (i, f) in fs.fields.iter().enumerate() {
            let ty = f.ty.subst(args);
            let own_v = parsed.iter().find(|(k, p, _)| *k == i && p.is_empty()).map(|x| x.2.clone());
            let mut v = match own_v {
                Some(v) => v,
                None if f.attrs.default => self.default_of(&ty),
                None if whole_default => match self.unit.defs[def].default_val.as_ref().expect("default of struct") {
                    V::Struct(d) => d[i].clone(),
                    _ => unreachable!(),
                },
                None => panic!("field {} of {} neither parsed nor defaulted", f.name, self.unit.defs[def].name),
            };
            for (k, p, x) in &parsed {
                if *k == i && !p.is_empty() {
                    self.set(&ty, &mut v, p, x.clone());
                }
            }
            vals.push(v);
        }
        Ok(match own.new {
            Some(k) => new_apply(k, vals),
            None => Some(vals),
        })
    }
    pub fn parse_def(&self, def: usize, args: &[Ty], s: &str) -> Out {
        let d = &self.unit.defs[def];
        match &d.body {
            Body::Struct(fs) => {
                let sh = self.shape_of(def, None, args);
                match self.matches(&sh, s) {
                    None => Out::Err,
                    Some(t) => match self.build(fs, &d.attrs, def, &sh, &t, args) {
                        Err(()) => Out::Skip,
                        Ok(None) => Out::Err,
                        Ok(Some(v)) => Out::Ok(V::Struct(v)),
                    },
                }
            }
            Body::Enum(vs) => {
                let shapes: Vec<(usize, Shape)> = (0..vs.len())
                    .filter(|k| !vs[*k].attrs.ignore)
                    .map(|k| (k, self.shape_of(def, Some(k), args)))
                    .collect();
                let lits = shapes.iter().filter(|x| x.1.lit.is_some());
                let rest = shapes.iter().filter(|x| x.1.lit.is_none());
                for (k, sh) in lits.chain(rest) {
                    if let Some(t) = self.matches(sh, s) {
                        match self.build(&vs[*k].fields, &vs[*k].attrs, def, sh, &t, args) {
                            Err(()) => return Out::Skip,
                            Ok(None) => {}
                            Ok(Some(v)) => return Out::Ok(V::Enum(*k, v)),
                        }
                    }
                }
                Out::Err
            }
        }
    }
    /// every variant (or the struct) that accepts the input on its own
    pub fn acceptors(&self, def: usize, args: &[Ty], s: &str) -> Vec<usize> {
        match &self.unit.defs[def].body {
            Body::Struct(_) => vec![],
            Body::Enum(vs) => (0..vs.len())
                .filter(|k| !vs[*k].attrs.ignore)
                .filter(|k| {
                    let sh = self.shape_of(def, Some(*k), args);
                    self.matches(&sh, s).is_some_and(|t| {
                        matches!(self.build(&vs[*k].fields, &vs[*k].attrs, def, &sh, &t, args), Ok(Some(_)))
                    })
                })
                .collect(),
        }
    }
}
