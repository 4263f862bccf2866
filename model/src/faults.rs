//! Faults: edits of a valid definition after which it has no documented meaning.
use crate::ast::*;
use crate::gen::{gen_unit, Profile};
use crate::src::Src;

pub const CLASSES: [&str; 21] = [
    "unknown field in a format",
    "unknown nested field in a format",
    "unknown field in a field's format",
    "unknown group in a regex",
    "unknown group in a field's regex",
    "added field neither parsed nor defaulted",
    "default removed",
    "malformed format",
    "malformed field format",
    "unknown format trait",
    "malformed regex",
    "unknown style",
    "bare {} in a struct",
    "empty-named group in a struct",
    "opt on a field that is no Option",
    "custom format with another format trait",
    "format missing",
    "unknown attribute argument",
    "default of an unknown field",
    "default of an enum or a variant",
    "union",
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Owner {
    Struct,
    Variant(usize),
    Enum,
}
#[derive(Clone, Copy, Debug)]
struct Force {
    display: bool,
    from_str: bool,
}
impl Force {
    fn any(self) -> bool {
        self.display || self.from_str
    }
}

fn owners(d: &Def) -> Vec<Owner> {
    match &d.body {
        Body::Struct(_) => vec![Owner::Struct],
        Body::Enum(vs) => (0..vs.len()).map(Owner::Variant).chain([Owner::Enum]).collect(),
    }
}
fn attrs(d: &Def, o: Owner) -> &Attrs {
    match (o, &d.body) {
        (Owner::Variant(i), Body::Enum(vs)) => &vs[i].attrs,
        _ => &d.attrs,
    }
}
fn attrs_mut(d: &mut Def, o: Owner) -> &mut Attrs {
    match (o, &mut d.body) {
        (Owner::Variant(i), Body::Enum(vs)) => &mut vs[i].attrs,
        _ => &mut d.attrs,
    }
}
fn has_rx(a: &Attrs) -> bool {
    a.regex.is_some() || a.raw_regex.is_some()
}
/// whether the format written at this place is used for printing and for parsing
fn format_force(d: &Def, o: Owner) -> Force {
    let a = attrs(d, o);
    if a.format.is_none() {
        return Force { display: false, from_str: false };
    }
    match (o, &d.body) {
        (Owner::Struct, _) => Force { display: d.display, from_str: d.from_str && !has_rx(a) },
        (Owner::Variant(_), _) => Force { display: d.display, from_str: d.from_str && !a.ignore && !has_rx(a) },
        (Owner::Enum, Body::Enum(vs)) => Force {
            display: d.display && vs.iter().any(|v| v.attrs.format.is_none()),
            from_str: d.from_str
                && !has_rx(a)
                && vs.iter().any(|v| v.attrs.format.is_none() && !has_rx(&v.attrs) && !v.attrs.ignore),
        },
        _ => unreachable!(),
    }
}
fn regex_force(d: &Def, o: Owner) -> bool {
    let a = attrs(d, o);
    if !has_rx(a) || !d.from_str {
        return false;
    }
    match (o, &d.body) {
        (Owner::Enum, Body::Enum(vs)) => vs.iter().any(|v| v.attrs.format.is_none() && !has_rx(&v.attrs) && !v.attrs.ignore),
        _ => !a.ignore,
    }
}
/// a struct's or variant's fields
fn sites(d: &Def) -> Vec<Owner> {
    owners(d).into_iter().filter(|o| *o != Owner::Enum).collect()
}
fn fields(d: &Def, o: Owner) -> &Fields {
    match (o, &d.body) {
        (Owner::Variant(i), Body::Enum(vs)) => &vs[i].fields,
        (_, Body::Struct(f)) => f,
        _ => unreachable!(),
    }
}
fn fields_mut(d: &mut Def, o: Owner) -> &mut Fields {
    match (o, &mut d.body) {
        (Owner::Variant(i), Body::Enum(vs)) => &mut vs[i].fields,
        (_, Body::Struct(f)) => f,
        _ => unreachable!(),
    }
}
/// the format in effect for a site, printing and parsing
fn effective(d: &Def, o: Owner) -> (Option<Fmt>, Option<Fmt>) {
    let a = attrs(d, o);
    let newtype = || {
        let fs = fields(d, o);
        match o {
            Owner::Struct if fs.fields.len() == 1 => {
                Some(Fmt(vec![Part::Arg { path: vec![fs.fields[0].name.clone()], raw: false, spec: String::new() }]))
            }
            _ => None,
        }
    };
    let f = match o {
        Owner::Struct => a.format.clone().or_else(newtype),
        _ => a.format.clone().or(d.attrs.format.clone()),
    };
    let parse_rx = has_rx(a) || (matches!(o, Owner::Variant(_)) && a.format.is_none() && has_rx(&d.attrs));
    let p = if d.from_str && !a.ignore && !parse_rx { f.clone() } else { None };
    (if d.display { f } else { None }, p)
}
fn mentions(f: &Option<Fmt>, name: &str) -> bool {
    f.as_ref().is_some_and(|f| f.0.iter().any(|p| matches!(p, Part::Arg { path, .. } if path.len() == 1 && path[0] == name)))
}
/// fields used on their own: (site, field, printed, parsed by the format)
fn used(d: &Def) -> Vec<(Owner, usize, Force)> {
    let mut v = vec![];
    for o in sites(d) {
        let (pf, qf) = effective(d, o);
        for (i, f) in fields(d, o).fields.iter().enumerate() {
            let f = Force { display: mentions(&pf, &f.name), from_str: mentions(&qf, &f.name) };
            if f.any() {
                v.push((o, i, f));
            }
        }
    }
    v
}

/// `{{`, `}}` and `{...}` only
pub fn well_formed(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => i += 2,
            '{' => match c[i + 1..].iter().position(|x| *x == '{' || *x == '}') {
                Some(k) if c[i + 1 + k] == '}' => i += k + 2,
                _ => return false,
            },
            '}' if c.get(i + 1) == Some(&'}') => i += 2,
            '}' => return false,
            _ => i += 1,
        }
    }
    true
}

const BAD_FORMAT: [&str; 10] = ["{", "}", "{ab", "ab}", "{:", "{a:", "{{}", "{}}", "{{{", "{a{b}}"];
const BAD_SPEC: [&str; 14] = ["zz", "q", "d", "s", "5y", ">>>", "-+", ".", "x!", "?x", "#q", "xx", "P", "<5z?"];
const BAD_REGEX: [&str; 16] = [
    "(", ")", "[", "a{2,1}", "(?<", "\\p{Foo}", "\\", "(?<zz", "(?z:x)", "[z-a]", "\\y", "(?=x)", "\\1", "x{9999999999}", "(?<a b>x)", "(?",
];
/// names which are no styles, many of them known from other crates
pub const BAD_STYLE: [&str; 34] = [
    "zzz", "", "Snake_Case", "kebab", "PascalCase", "snake_case ", "TITLE-CASE", "camel_case", "Lowercase", "NONE",
    "SCREAMING_SNAKE_CASE", "SCREAMING-KEBAB-CASE", "shouty_snake_case", "SHOUTY-KEBAB-CASE", "Train-Case", "Cobol-Case",
    "title_case", "TitleCase", "titlecase", "mixed_case", "mixedCase", "UpperCamelCase", "lowerCamelCase", "upper_snake_case",
    "lower", "UPPER", "lower_case", "UPPER_CASE", "flatcase", "UPPERFLATCASE", "snake", "None", "Sentence case", "aLTERNATING cASE",
];
const STYLES: [&str; 13] = [
    "none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE", "Title Case", "Title case",
    "title case", "TITLE CASE",
];
/// a small change of a style's name
fn near_style(s: &mut Src) -> String {
    loop {
        let mut v: Vec<char> = s.pick(&STYLES).chars().collect();
        for _ in 0..1 + s.below(2) {
            let i = s.below(v.len());
            match s.below(5) {
                0 => v[i] = if v[i].is_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() },
                1 => drop(v.remove(i)),
                2 => v.insert(i, *s.pick(&['_', '-', ' ', 's', 'e'])),
                3 => {
                    let c = *s.pick(&['_', '-', ' ', '.', '\u{a0}']);
                    v.iter_mut().filter(|x| matches!(**x, '_' | '-' | ' ')).for_each(|x| *x = c);
                }
                _ => v = v.iter().filter(|x| !matches!(**x, '_' | '-' | ' ')).copied().collect(),
            }
            if v.is_empty() {
                break;
            }
        }
        let v: String = v.into_iter().collect();
        if !STYLES.contains(&v.as_str()) {
            return v;
        }
    }
}

fn unknown(s: &mut Src, d: &Def, o: Owner) -> String {
    if o != Owner::Enum && s.pct(50) {
        // near misses
        let own = &fields(d, o).fields;
        let mut v = vec![];
        if own.iter().all(|f| f.name.parse::<usize>().is_ok()) {
            v.push(own.len().to_string());
        }
        for f in own.iter().filter(|f| f.name.parse::<usize>().is_err()) {
            v.push(format!("{}_", f.name));
            v.push(format!("_{}", f.name));
            v.push(f.name.to_uppercase());
            v.push(f.name.to_lowercase());
            v.push(f.name.chars().skip(1).collect());
            v.push(f.name.chars().take(f.name.chars().count() - 1).collect());
            v.push("0".into());
        }
        if let (Owner::Variant(_), Body::Enum(vs)) = (o, &d.body) {
            // of other variants, and variants themselves
            v.extend(vs.iter().flat_map(|x| x.fields.fields.iter().map(|f| f.name.clone())));
            v.extend(vs.iter().map(|x| x.name.clone()));
        }
        v.retain(|x| !x.is_empty() && !own.iter().any(|f| f.name == *x) && !["_", "self", "Self", "super", "crate"].contains(&x.as_str()));
        if !v.is_empty() {
            return s.pick(&v).clone();
        }
    }
    s.pick(&["zz_none", "99", "zz_none", "r#zz_none", "Zz_none", "40", "+0", "-0", "+1", "0x0"]).to_string()
}
fn insert(s: &mut Src, f: &mut Fmt, p: Part) {
    let at = s.below(f.0.len() + 1);
    f.0.insert(at, p);
}

/// edits one definition of the unit; the class it belongs to
fn inject(u: &mut Unit, class: usize, s: &mut Src) -> bool {
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..u.defs.len()).rev().collect();
        if s.pct(40) {
            s.shuffle(&mut v);
        }
        v
    };
    for di in order {
        let d = &mut u.defs[di];
        if !d.display && !d.from_str {
            continue;
        }
        if inject_def(d, class, s) {
            return true;
        }
    }
    false
}

fn pick<T: Clone>(s: &mut Src, v: &[T]) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(s.pick(v).clone())
    }
}

fn inject_def(d: &mut Def, class: usize, s: &mut Src) -> bool {
    inject_opt(d, class, s).is_some()
}
fn inject_opt(d: &mut Def, class: usize, s: &mut Src) -> Option<()> {
    let fmt_owners: Vec<Owner> = owners(d).into_iter().filter(|o| format_force(d, *o).any()).collect();
    let rx_owners: Vec<Owner> = owners(d).into_iter().filter(|o| regex_force(d, *o)).collect();
    match CLASSES[class] {
        "unknown field in a format" => {
            let o = pick(s, &fmt_owners)?;
            let name = unknown(s, d, o);
            let spec = if s.pct(20) { ">5".to_string() } else { String::new() };
            let f = attrs_mut(d, o).format.as_mut()?;
            insert(s, f, Part::Arg { path: vec![name], raw: false, spec });
        }
        "unknown nested field in a format" => {
            let os: Vec<Owner> = fmt_owners.into_iter().filter(|o| *o != Owner::Enum).collect();
            let o = pick(s, &os)?;
            let f = attrs_mut(d, o).format.as_mut()?;
            let idx: Vec<usize> = (0..f.0.len()).filter(|i| matches!(&f.0[*i], Part::Arg { path, .. } if !path.is_empty())).collect();
            let i = pick(s, &idx)?;
            if let Part::Arg { path, .. } = &mut f.0[i] {
                path.push("zz_none".into());
            }
        }
        "unknown field in a field's format" | "malformed field format" => {
            let v: Vec<_> = used(d)
                .into_iter()
                .filter(|(o, i, f)| {
                    let a = &fields(d, *o).fields[*i].attrs;
                    a.format.is_some() && (f.display || a.regex.is_none())
                })
                .collect();
            let (o, i, _) = pick(s, &v)?;
            let f = fields_mut(d, o).fields[i].attrs.format.as_mut()?;
            if CLASSES[class].starts_with("unknown") {
                insert(s, f, Part::Arg { path: vec!["zz_none".into()], raw: false, spec: String::new() });
            } else {
                let t = s.pick(&BAD_FORMAT).to_string();
                insert(s, f, Part::Raw(t));
                if well_formed(&f.text()) {
                    return None;
                }
            }
        }
        "unknown group in a regex" => {
            let o = pick(s, &rx_owners)?;
            let a = attrs_mut(d, o);
            let n = s.pick(&["zz_none", "99", "zz_none.a", "r#zz"]).to_string().replace("r#", "");
            let g = [format!("(?<{n}>q)?"), format!("(?P<{n}>q)?"), format!("(?:(?<{n}>q)|)"), format!("(?<{n}>.*)")];
            let g = s.pick(&g).clone();
            let t = a.regex.as_ref()?.text();
            a.raw_regex = Some(if s.pct(50) { g + &t } else { t + &g });
        }
        "unknown group in a field's regex" | "malformed regex" => {
            let mut v: Vec<(Owner, Option<usize>)> =
                used(d).into_iter().filter(|(o, i, f)| f.from_str && fields(d, *o).fields[*i].attrs.regex.is_some()).map(|x| (x.0, Some(x.1))).collect();
            if CLASSES[class] == "malformed regex" {
                v.extend(rx_owners.iter().map(|o| (*o, None)));
            }
            let (o, i) = pick(s, &v)?;
            let a = match i {
                Some(i) => &mut fields_mut(d, o).fields[i].attrs,
                None => attrs_mut(d, o),
            };
            let t = a.regex.as_ref()?.text();
            if CLASSES[class] == "malformed regex" {
                let b = s.pick(&BAD_REGEX).to_string();
                a.raw_regex = Some(t + &b);
            } else {
                let g = s.pick(&["(?<zz_none>q)?", "(?P<zz_none>q)?", "(?<zz_none.a>q)?", "(?<zz_none>.*)"]).to_string();
                a.raw_regex = Some(t + &g);
            }
        }
        "added field neither parsed nor defaulted" => {
            if !d.from_str || d.attrs.default {
                return None;
            }
            let os: Vec<Owner> = sites(d).into_iter().filter(|o| fields(d, *o).kind != Kind::Unit && !attrs(d, *o).ignore && !attrs(d, *o).default).collect();
            let o = pick(s, &os)?;
            let fs = fields_mut(d, o);
            let name = if fs.kind == Kind::Tuple { fs.fields.len().to_string() } else { "zz_extra".into() };
            let at = if fs.kind == Kind::Tuple { fs.fields.len() } else { s.below(fs.fields.len() + 1) };
            let ty = s.pick(&[Ty::P(Prim::I32), Ty::P(Prim::Str), Ty::Opt(Box::new(Ty::P(Prim::U8))), Ty::P(Prim::Bool)]).clone();
            let mut a = Attrs::default();
            if matches!(ty, Ty::Opt(_)) && s.pct(50) {
                a.opt = true;
            }
            if s.pct(15) {
                a.infer = true;
            }
            if s.pct(15) {
                a.format = Some(Fmt(vec![Part::Lit("<".into()), Part::Arg { path: vec![], raw: false, spec: String::new() }]));
            }
            fs.fields.insert(at, Field { name, raw: false, ty, attrs: a });
        }
        "default removed" => {
            if !d.from_str {
                return None;
            }
            let mut v: Vec<(Owner, Option<usize>)> = vec![];
            for o in sites(d) {
                let a = attrs(d, o);
                if a.ignore {
                    continue;
                }
                let (_, pf) = effective(d, o);
                let mut rx: Vec<String> = vec![];
                for b in [&a.regex, &d.attrs.regex] {
                    if let Some(r) = b {
                        r.visit(&mut |x| {
                            if let crate::rx::Rx::Named { name, .. } = x {
                                rx.push(name.clone());
                            }
                        });
                    }
                }
                let given = |f: &Field| mentions(&pf, &f.name) || rx.contains(&f.name);
                let struct_default = o == Owner::Struct && a.default;
                for (i, f) in fields(d, o).fields.iter().enumerate() {
                    if f.attrs.default && !struct_default && !given(f) {
                        v.push((o, Some(i)));
                    }
                }
                if struct_default && fields(d, o).fields.iter().any(|f| !given(f) && !f.attrs.default) {
                    v.push((o, None));
                }
            }
            let (o, i) = pick(s, &v)?;
            match i {
                Some(i) => fields_mut(d, o).fields[i].attrs.default = false,
                None => attrs_mut(d, o).default = false,
            }
        }
        "malformed format" => {
            let o = pick(s, &fmt_owners)?;
            let f = attrs_mut(d, o).format.as_mut()?;
            let t = s.pick(&BAD_FORMAT).to_string();
            insert(s, f, Part::Raw(t));
            if well_formed(&f.text()) {
                return None;
            }
        }
        "unknown format trait" => {
            let mut v: Vec<(Owner, Option<usize>)> = fmt_owners.iter().map(|o| (*o, None)).collect();
            v.extend(
                used(d)
                    .into_iter()
                    .filter(|(o, i, f)| {
                        let a = &fields(d, *o).fields[*i].attrs;
                        a.format.is_some() && (f.display || a.regex.is_none())
                    })
                    .map(|x| (x.0, Some(x.1))),
            );
            let (o, i) = pick(s, &v)?;
            let f = match i {
                Some(i) => fields_mut(d, o).fields[i].attrs.format.as_mut()?,
                None => attrs_mut(d, o).format.as_mut()?,
            };
            let idx: Vec<usize> = (0..f.0.len()).filter(|i| matches!(&f.0[*i], Part::Arg { .. })).collect();
            let k = pick(s, &idx)?;
            let b = s.pick(&BAD_SPEC).to_string();
            if let Part::Arg { spec, .. } = &mut f.0[k] {
                *spec = b;
            }
        }
        "unknown style" => {
            let os: Vec<Owner> = owners(d).into_iter().filter(|o| *o != Owner::Struct && !attrs(d, *o).ignore).collect();
            let o = pick(s, &os)?;
            let b = if s.pct(50) { s.pick(&BAD_STYLE).to_string() } else { near_style(s) };
            let a = attrs_mut(d, o);
            a.style = None;
            a.extra.push((false, format!("style = \"{b}\"")));
        }
        "bare {} in a struct" => {
            let o = pick(s, &fmt_owners.into_iter().filter(|o| *o == Owner::Struct).collect::<Vec<_>>())?;
            let f = attrs_mut(d, o).format.as_mut()?;
            let spec = if s.pct(20) { ">3".into() } else { String::new() };
            insert(s, f, Part::Arg { path: vec![], raw: false, spec });
        }
        "empty-named group in a struct" => {
            let o = pick(s, &rx_owners.into_iter().filter(|o| *o == Owner::Struct).collect::<Vec<_>>())?;
            let a = attrs_mut(d, o);
            let g = s.pick(&["(?<>q)?", "(?P<>q)", "(?<>.*)", "(?:x|(?<>))"]).to_string();
            let t = a.regex.as_ref()?.text();
            // one more group, or one that had a name
            let mut names = vec![];
            if s.pct(50) {
                a.regex.as_ref()?.visit(&mut |x| {
                    if let crate::rx::Rx::Named { name, .. } = x {
                        names.push(name.clone());
                    }
                });
                names.retain(|n| t.contains(&format!("<{n}>")));
            }
            a.raw_regex = Some(if !names.is_empty() {
                let n = s.pick(&names).clone();
                t.replace(&format!("(?<{n}>"), "(?<>").replace(&format!("(?P<{n}>"), "(?P<>")
            } else if s.pct(50) {
                g + &t
            } else {
                t + &g
            });
        }
        "opt on a field that is no Option" => {
            let mut v = used(d);
            for o in sites(d) {
                // captured by a regex
                let own = if matches!(o, Owner::Variant(_)) && attrs(d, o).regex.is_none() { Owner::Enum } else { o };
                if !regex_force(d, own) || attrs(d, o).ignore || (own == Owner::Enum && attrs(d, o).format.is_some()) {
                    continue;
                }
                let r = attrs(d, own).regex.clone()?;
                for (i, f) in fields(d, o).fields.iter().enumerate() {
                    let mut hit = false;
                    r.visit(&mut |x| hit |= matches!(x, crate::rx::Rx::Named { name, .. } if *name == f.name));
                    if hit {
                        v.push((o, i, Force { display: false, from_str: true }));
                    }
                }
            }
            v.retain(|(o, i, _)| !matches!(fields(d, *o).fields[*i].ty, Ty::Opt(_)));
            let (o, i, _) = pick(s, &v)?;
            fields_mut(d, o).fields[i].attrs.opt = true;
        }
        "custom format with another format trait" => {
            let v: Vec<_> = used(d).into_iter().filter(|(o, i, f)| f.display && fields(d, *o).fields[*i].attrs.d_with.is_some()).collect();
            let (o, i, _) = pick(s, &v)?;
            let spec = s.pick(&["?", "x", "X", "o", "b", "e", "E", "p", "#?", "5?"]).to_string();
            let fld = &mut fields_mut(d, o).fields[i];
            let name = fld.name.clone();
            let set = |f: &mut Fmt, want: &[String]| {
                for p in &mut f.0 {
                    if let Part::Arg { path, spec: sp, .. } = p {
                        if path == want {
                            *sp = spec.clone();
                            return true;
                        }
                    }
                }
                false
            };
            if let Some(f) = &mut fld.attrs.format {
                if !set(f, &[]) {
                    return None;
                }
            } else {
                let own = if attrs(d, o).format.is_some() { o } else if o == Owner::Struct { return None } else { Owner::Enum };
                if !set(attrs_mut(d, own).format.as_mut()?, &[name]) {
                    return None;
                }
            }
        }
        "format missing" => {
            if let Body::Struct(fs) = &d.body {
                if fs.fields.len() == 1 || d.attrs.format.is_none() || !format_force(d, Owner::Struct).any() {
                    return None;
                }
                d.attrs.format = None;
            } else {
                if d.attrs.format.is_some() {
                    return None;
                }
                let os: Vec<Owner> = fmt_owners.into_iter().filter(|o| fields(d, *o).kind != Kind::Unit).collect();
                let os: Vec<Owner> = os.into_iter().filter(|o| d.display || !has_rx(&d.attrs) && !attrs(d, *o).ignore).collect();
                let o = pick(s, &os)?;
                attrs_mut(d, o).format = None;
            }
        }
        "unknown attribute argument" => {
            let mut v: Vec<(Owner, Option<usize>)> = owners(d).into_iter().filter(|o| !attrs(d, *o).ignore).map(|o| (o, None)).collect();
            v.extend(used(d).into_iter().map(|x| (x.0, Some(x.1))));
            let (o, i) = pick(s, &v)?;
            let from_str = d.from_str && !attrs(d, o).ignore && s.pct(50);
            let a = match i {
                Some(i) => &mut fields_mut(d, o).fields[i].attrs,
                None => attrs_mut(d, o),
            };
            let t = s.pick(&["zzz", "zzz = 1", "zzz = \"x\"", "zzz(a)", "formt = \"{}\"", "styl = \"none\"", "regx = \"a\"", "Opt"]).to_string();
            a.extra.push((from_str, t));
        }
        "default of an unknown field" => {
            if !d.from_str {
                return None;
            }
            let v: Vec<Owner> = owners(d).into_iter().filter(|o| !attrs(d, *o).ignore).collect();
            let o = pick(s, &v)?;
            if let (Owner::Enum, Body::Enum(vs)) = (o, &d.body) {
                if vs.iter().all(|v| v.attrs.ignore) {
                    return None;
                }
            }
            let known = match o {
                Owner::Enum => None,
                _ => fields(d, o).fields.first().map(|f| f.name.clone()).filter(|n| n.chars().all(|c| c.is_ascii_digit())),
            };
            let mut list = vec![s.pick(&["zz_none", "99", "\"zz_none\"", "\"99\"", "r#zz_none"]).to_string()];
            if let Some(k) = known {
                if s.pct(50) {
                    list.insert(s.below(2), k);
                }
            }
            let t = format!("default_fields({})", list.join(", "));
            attrs_mut(d, o).extra.push((true, t));
        }
        "default of an enum or a variant" => {
            let Body::Enum(vs) = &mut d.body else { return None };
            if !d.from_str {
                return None;
            }
            let whole = s.pct(30);
            let live: Vec<usize> = (0..vs.len()).filter(|i| !vs[*i].attrs.ignore).collect();
            let v = pick(s, &live);
            let a = if whole { &mut d.attrs } else { &mut vs[v?].attrs };
            a.extra.push((true, "default".into()));
        }
        "union" => {
            let Body::Struct(fs) = &mut d.body else { return None };
            if fs.kind != Kind::Named || d.params > 0 || fs.fields.iter().any(|f| !matches!(f.ty, Ty::P(p) if p != Prim::Str)) {
                return None;
            }
            for f in &mut fs.fields {
                f.attrs.layout.clear();
            }
            d.attrs.layout.clear();
            d.union = true;
        }
        _ => unreachable!(),
    }
    Some(())
}

/// a valid unit, the same with one fault, and the fault's class
pub fn faulty(choices: &[u32]) -> Option<(Unit, Unit, &'static str)> {
    let (head, tail) = choices.split_at(choices.len().min(24));
    let mut s = Src::new(head);
    let class = s.below(CLASSES.len());
    let mut p = Profile { max_inner: 1, generic: 8, ..Profile::default() };
    p.derive = *s.pick(&[[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0]]);
    match CLASSES[class] {
        "unknown group in a regex" => {
            p.rx_container = 90;
            p.derive[1] = 0;
            p.derive[2] += 1;
        }
        "unknown group in a field's regex" => {
            p.rx_field = 80;
            p.derive[1] = 0;
            p.derive[2] += 1;
        }
        "malformed regex" => {
            p.rx_container = 45;
            p.rx_field = 40;
            p.derive[1] = 0;
            p.derive[2] += 1;
        }
        "unknown field in a field's format" | "malformed field format" => p.field_fmt = 80,
        "unknown format trait" => p.field_fmt = 30,
        "added field neither parsed nor defaulted" | "default removed" => {
            p.derive[1] = 0;
            p.derive[2] += 1;
            p.absent = 50;
            p.nested = 30;
            p.default_struct = 15;
        }
        "opt on a field that is no Option" => {
            p.rx_container = 35;
            p.with = 30;
        }
        "union" => {
            p.enums = 0;
            p.generic = 0;
            p.def_type = 0;
            p.max_inner = 0;
            p.plain_inner = 0;
            p.simple_types = 100;
        }
        "unknown style" => {
            p.enums = 100;
            p.style = 50;
        }
        "bare {} in a struct" => p.enums = 0,
        "default of an enum or a variant" => p.enums = 100,
        "empty-named group in a struct" => {
            p.enums = 0;
            p.rx_container = 90;
            p.derive[1] = 0;
            p.derive[2] += 1;
        }
        "custom format with another format trait" => {
            p.with = 80;
            p.derive[2] = 0;
            p.derive[1] += 1;
        }
        _ => {}
    }
    let mut tail = tail.to_vec();
    for _ in 0..6 {
        let good = gen_unit(0, &p, &tail);
        let mut bad = good.clone();
        if inject(&mut bad, class, &mut s) {
            return Some((good, bad, CLASSES[class]));
        }
        let n = 37.min(tail.len());
        tail.rotate_left(n);
    }
    None
}
