//! Generators of values and input strings for a unit.
use crate::ast::*;
use crate::rx::*;
use crate::sem::*;
use crate::src::Src;
use crate::vals::*;

pub struct Alpha {
    pub chars: Vec<char>,
    pub words: Vec<String>,
    pub reserved: Vec<char>,
}

impl Alpha {
    pub fn new(u: &Unit) -> Alpha {
        let mut words: Vec<String> = vec![];
        let fmt = |f: &Option<Fmt>, words: &mut Vec<String>| {
            if let Some(f) = f {
                for p in &f.0 {
                    if let Part::Lit(l) = p {
                        words.push(l.clone());
                    }
                }
            }
        };
        let rx = |r: &Option<Rx>, words: &mut Vec<String>| {
            if let Some(r) = r {
                r.visit(&mut |x| {
                    if let Rx::Lit(l) = x {
                        words.push(l.clone())
                    }
                });
            }
        };
        for d in &u.defs {
            fmt(&d.attrs.format, &mut words);
            rx(&d.attrs.regex, &mut words);
            match &d.body {
                Body::Struct(fs) => {
                    for f in &fs.fields {
                        fmt(&f.attrs.format, &mut words);
                        rx(&f.attrs.regex, &mut words);
                    }
                }
                Body::Enum(vs) => {
                    for v in vs {
                        words.push(variant_name(d, v));
                        words.push(v.name.clone());
                        fmt(&v.attrs.format, &mut words);
                        rx(&v.attrs.regex, &mut words);
                        for f in &v.fields.fields {
                            fmt(&f.attrs.format, &mut words);
                            rx(&f.attrs.regex, &mut words);
                        }
                    }
                }
            }
        }
        words.retain(|w| !w.is_empty());
        words.sort();
        words.dedup();
        let mut chars: Vec<char> = vec!['\0', '\r', '\u{feff}', '\u{a0}', '\u{2028}', '\u{301}', 'a', 'b', '1', '0', '-', ' ', 'Z', '\n', 'é', '日', '.', '{', '<', '^'];
        for w in &words {
            for c in w.chars() {
                if chars.len() < 60 && !chars.contains(&c) {
                    chars.push(c);
                }
            }
        }
        let reserved: Vec<char> = u.reserved.chars().collect();
        Alpha { chars, words, reserved }
    }
    fn ok(&self, c: char) -> bool {
        !self.reserved.contains(&c)
    }
    pub fn ch(&self, s: &mut Src) -> char {
        let c = *s.pick(&self.chars);
        if self.ok(c) {
            c
        } else {
            'a'
        }
    }
    pub fn text(&self, s: &mut Src) -> String {
        let n = match s.weighted(&[6, 2, 1]) {
            0 => s.below(4),
            1 => s.below(9),
            _ => s.below(24),
        };
        let mut o = String::new();
        for _ in 0..n {
            if !self.words.is_empty() && s.pct(10) {
                let w = s.pick(&self.words).clone();
                o.extend(w.chars().filter(|c| self.ok(*c)));
            } else if s.pct(55) {
                o.push(self.ch(s));
            } else {
                o.push(if self.ok('a') { s.ch("abcxyz") } else { self.ch(s) });
            }
        }
        self.longer(o, s)
    }
    fn longer(&self, o: String, s: &mut Src) -> String {
        if s.below(250) == 249 {
            let n = 1 << s.below(11);
            return o.chars().cycle().take(if o.is_empty() { 0 } else { n }).collect();
        }
        o
    }
    /// any string at all
    pub fn free(&self, s: &mut Src) -> String {
        let n = s.below(8);
        let mut o = String::new();
        for _ in 0..n {
            match s.weighted(&[5, 3, 1]) {
                0 => o.push(*s.pick(&self.chars)),
                1 if !self.words.is_empty() => o.push_str(s.pick(&self.words)),
                _ => {
                    if let Some(c) = char::from_u32(s.next() % 0x11_0000) {
                        o.push(c)
                    }
                }
            }
        }
        self.longer(o, s)
    }
}

fn int(p: Prim, s: &mut Src) -> String {
    macro_rules! go {
        ($t:ty) => {{
            let r = (s.next() as u128) << 96 | (s.next() as u128) << 64 | (s.next() as u128) << 32 | s.next() as u128;
            let v: $t = match s.weighted(&[5, 4, 2, 2, 1, 1, 1, 1]) {
                0 => (r % 10) as $t,
                1 => (r % 120) as $t,
                2 => 0,
                3 => (0 as $t).wrapping_sub((r % 50) as $t),
                4 => <$t>::MAX,
                5 => <$t>::MIN,
                6 => r as $t,
                _ => (r as $t) >> (s.below(<$t>::BITS as usize) as u32),
            };
            v.to_string()
        }};
    }
    match p {
        Prim::U8 => go!(u8),
        Prim::I8 => go!(i8),
        Prim::U16 => go!(u16),
        Prim::I16 => go!(i16),
        Prim::U32 => go!(u32),
        Prim::I32 => go!(i32),
        Prim::U64 => go!(u64),
        Prim::I64 => go!(i64),
        Prim::U128 => go!(u128),
        Prim::I128 => go!(i128),
        Prim::Usize => go!(usize),
        _ => go!(isize),
    }
}

fn float(s: &mut Src) -> f64 {
    match s.weighted(&[4, 4, 2, 2, 2, 1, 1, 1, 1, 1]) {
        0 => (s.below(100) as f64) / 4.0,
        1 => -((s.below(1000) as f64) / 8.0),
        2 => 0.0,
        3 => 1e10 * s.below(1000) as f64,
        4 => 1e-7 * s.below(1000) as f64,
        5 => f64::INFINITY,
        6 => f64::NEG_INFINITY,
        7 => f64::NAN,
        8 => -0.0,
        _ => f64::from_bits((s.next() as u64) << 32 | s.next() as u64),
    }
}

pub fn prim(p: Prim, a: &Alpha, s: &mut Src) -> V {
    match p {
        Prim::Bool => V::Bool(s.below(2) == 1),
        Prim::Char => V::Char(a.ch(s)),
        Prim::Str => V::Str(a.text(s)),
        Prim::F32 => {
            let f = float(s) as f32;
            V::F32(if f.is_nan() { f32::NAN } else { f }.to_bits())
        }
        Prim::F64 => {
            let f = float(s);
            V::F64(if f.is_nan() { f64::NAN } else { f }.to_bits())
        }
        p => V::Int(int(p, s)),
    }
}

/// value of a field with a custom format
fn with_val(w: &With, ty: &Ty, u: &Unit, a: &Alpha, s: &mut Src, depth: usize) -> V {
    match w {
        With::Groups => V::Int(s.below(7).to_string()),
        With::Look | With::OldRegex if s.pct(85) => {
            let n = s.below(5);
            V::Str((0..n).map(|_| s.ch("abcxyz")).collect())
        }
        With::Rx(rx) if s.pct(75) => {
            let mut o = String::new();
            rx.sample(s, &mut |_, _, _| None, &mut o);
            V::Str(o)
        }
        With::Angle if s.pct(80) => V::Str(a.text(s).replace(['<', '>'], "")),
        _ => value(ty, u, a, s, depth),
    }
}

pub fn field(f: &Field, args: &[Ty], u: &Unit, a: &Alpha, s: &mut Src, depth: usize) -> V {
    let ty = f.ty.subst(args);
    match f.attrs.d_with.as_ref().or(f.attrs.f_with.as_ref()) {
        Some(w) => match (&ty, f.attrs.opt) {
            (Ty::Opt(t), true) => {
                if s.pct(35) {
                    V::None
                } else {
                    V::Some(Box::new(with_val(w, t, u, a, s, depth)))
                }
            }
            _ => with_val(w, &ty, u, a, s, depth),
        },
        None => match (&ty, &f.attrs.regex) {
            // text of the kind the field's regex describes
            (Ty::P(Prim::Str), Some(rx)) if s.pct(60) => {
                let mut o = String::new();
                regex_core(rx).sample(s, &mut |_, _, _| None, &mut o);
                V::Str(o)
            }
            _ => value(&ty, u, a, s, depth),
        },
    }
}
fn regex_core(rx: &Rx) -> Rx {
    let mut r = None;
    rx.visit(&mut |x| {
        if let Rx::Named { name, sub, .. } = x {
            if name.is_empty() {
                r = Some((**sub).clone());
            }
        }
    });
    r.unwrap_or_else(|| rx.clone())
}

pub fn value(ty: &Ty, u: &Unit, a: &Alpha, s: &mut Src, depth: usize) -> V {
    match ty {
        Ty::P(p) => prim(*p, a, s),
        Ty::RefStr => V::Str(a.text(s)),
        Ty::Ref(t) | Ty::Bx(t) => value(t, u, a, s, depth),
        Ty::Opt(t) => {
            if s.pct(35) {
                V::None
            } else {
                V::Some(Box::new(value(t, u, a, s, depth)))
            }
        }
        Ty::Vec(t) => {
            let n = s.below(4);
            V::List((0..n).map(|_| value(t, u, a, s, depth)).collect())
        }
        Ty::Opaque => V::Int(int(Prim::I32, s)),
        Ty::Param(_) => panic!("open type"),
        Ty::Def(d, args) => {
            let def = &u.defs[*d];
            match &def.body {
                Body::Struct(fs) => {
                    V::Struct(fs.fields.iter().map(|f| field(f, args, u, a, s, depth + 1)).collect())
                }
                Body::Enum(vs) => {
                    let k = s.below(vs.len());
                    V::Enum(k, vs[k].fields.fields.iter().map(|f| field(f, args, u, a, s, depth + 1)).collect())
                }
            }
        }
    }
}

const WEIRD: [&str; 24] = [
    "", "+5", "-0", "007", " 1", "1 ", "1e3", "nan", "TRUE", "0x10", "+", "-", "-1", "256", "inf", "+inf", "-nan",
    "1.", ".5", "é", "99999999999999999999999999999999999999999", "\n", "١", "infinity",
];

/// a text for one capture
fn cap_text(sem: &Sem, a: &Alpha, ty: &Ty, with: Option<&With>, s: &mut Src) -> String {
    match s.weighted(&[10, 2, 1]) {
        0 => {
            let mut ty = ty.clone();
            if let Some(w) = with {
                let v = with_val(w, &ty, sem.unit, a, s, 0);
                return match w {
                    With::Pass | With::Fmt => disp(sem, a, &ty, &v, s),
                    With::Flags => show_prim(&v),
                    With::Delim(d) => {
                        let Ty::Vec(t) = &ty else { return String::new() };
                        let V::List(l) = &v else { return String::new() };
                        l.iter().map(|x| sem.display(t, x)).collect::<Vec<_>>().join(d)
                    }
                    With::JoinHex(d) => {
                        let V::List(l) = &v else { return String::new() };
                        l.iter()
                            .map(|x| format!("{:x}", show_prim(x).parse::<u32>().unwrap()))
                            .collect::<Vec<_>>()
                            .join(d)
                    }
                    With::Plus1 => show_prim(&v),
                    With::Hex => format!("{:x}", show_prim(&v).parse::<u32>().unwrap()),
                    With::Angle => format!("<{}>", show_prim(&v)),
                    With::YesNo => if v == V::Bool(true) { "yes".into() } else { "no".into() },
                    With::Groups => GROUPS_TEXTS[s.below(7)].into(),
                    With::Look => {
                        if s.pct(50) {
                            format!("(?<a>{})", show_prim(&v))
                        } else {
                            format!("^{}$", show_prim(&v))
                        }
                    }
                    With::Opaque => format!("#{}", show_prim(&v)),
                    With::OldRegex | With::Rx(_) => show_prim(&v),
                };
            }
            while let Ty::Opt(t) = ty {
                ty = *t;
            }
            let v = value(&ty, sem.unit, a, s, 0);
            disp(sem, a, &ty, &v, s)
        }
        1 => s.pick(&WEIRD).to_string(),
        _ => a.free(s),
    }
}
fn disp(sem: &Sem, a: &Alpha, ty: &Ty, v: &V, s: &mut Src) -> String {
    match ty {
        Ty::P(_) => show_prim(v),
        Ty::Def(d, args) if sem.unit.defs[*d].display && !s.pct(25) => sem.display_def(*d, args, v),
        Ty::Def(d, args) if sem.unit.defs[*d].from_str => sample_def(sem, a, *d, args, s),
        _ => String::new(),
    }
}

/// a text built along the pattern of the definition
pub fn sample_def(sem: &Sem, a: &Alpha, def: usize, args: &[Ty], s: &mut Src) -> String {
    let d = &sem.unit.defs[def];
    let (sh, fs) = match &d.body {
        Body::Struct(fs) => (sem.shape_of(def, None, args), fs),
        Body::Enum(vs) => {
            let k = s.below(vs.len());
            if vs[k].attrs.ignore && vs[k].fields.fields.iter().any(|f| f.ty == Ty::Opaque) {
                return variant_name(d, &vs[k]);
            }
            if vs[k].attrs.ignore {
                return variant_name(d, &vs[k]);
            }
            (sem.shape_of(def, Some(k), args), &vs[k].fields)
        }
    };
    let mut o = String::new();
    sh.rx.sample(
        s,
        &mut |i, rx, s| {
            let (fi, path) = &sh.caps[i];
            let f = &fs.fields[*fi];
            let ty = f.ty.subst(args);
            if *rx != any_lazy() && s.pct(60) {
                return None;
            }
            if path.is_empty() {
                let w = f.attrs.f_with.as_ref().or(f.attrs.d_with.as_ref());
                let t = match (&ty, f.attrs.opt) {
                    (Ty::Opt(t), true) => (**t).clone(),
                    _ => ty.clone(),
                };
                Some(cap_text(sem, a, &t, w, s))
            } else {
                let mut t = ty;
                for k in path {
                    let Ty::Def(d, args) = &t else { break };
                    let Body::Struct(fs) = &sem.unit.defs[*d].body else { break };
                    let i = fs.index(k).unwrap();
                    t = fs.fields[i].ty.subst(args);
                }
                Some(cap_text(sem, a, &t, None, s))
            }
        },
        &mut o,
    );
    o
}

pub fn mutate(a: &Alpha, t: &str, s: &mut Src) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let n = 1 + s.below(2);
    for _ in 0..n {
        let i = s.below(cs.len() + 1);
        match s.below(12) {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => cs.insert(i, *s.pick(&a.chars)),
            2 => {
                if i < cs.len() {
                    cs[i] = *s.pick(&a.chars);
                }
            }
            3 => {
                if i < cs.len() {
                    cs[i] = if cs[i].is_ascii_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() };
                }
            }
            4 => cs.push(*s.pick(&['\n', ' ', 'x', '0', '\r', '\0'])),
            5 => cs.insert(0, *s.pick(&['\n', ' ', 'x', '0', '\u{feff}', '-'])),
            6 => {
                if i < cs.len() {
                    let c = cs[i];
                    cs.insert(i, c);
                }
            }
            7 => cs.truncate(i),
            8 => {
                if !a.words.is_empty() {
                    let w: Vec<char> = s.pick(&a.words).chars().collect();
                    for (k, c) in w.into_iter().enumerate() {
                        cs.insert((i + k).min(cs.len()), c);
                    }
                }
            }
            9 => {
                if i + 1 < cs.len() {
                    cs.swap(i, i + 1);
                }
            }
            _ => {
                // texts that a lenient reader takes for the same
                let all: String = cs.iter().collect();
                let v: Vec<&(&str, &str)> = ALIKE.iter().filter(|(a, _)| all.contains(a)).collect();
                if !v.is_empty() {
                    let (a, b) = *s.pick(&v);
                    let at: Vec<usize> = all.match_indices(a).map(|x| x.0).collect();
                    let t = if s.pct(50) {
                        all.replace(a, b)
                    } else {
                        let k = *s.pick(&at);
                        format!("{}{b}{}", &all[..k], &all[k + a.len()..])
                    };
                    cs = t.chars().collect();
                }
            }
        }
    }
    cs.into_iter().collect()
}

const ALIKE: [(&str, &str); 44] = [
    ("\n", "\r\n"), ("\r\n", "\n"), ("\n", "\r"), ("\r", "\n"), ("\n", " "), ("\n", ""), ("\t", " "), (" ", "\t"), (" ", "  "), (" ", "\u{a0}"), (" ", ""), (" ", "\n"),
    ("-", "_"), ("_", "-"), ("-", "\u{2010}"), (",", ", "), (":", ": "), ("é", "e\u{301}"), ("é", "É"), ("é", "e"), ("k", "\u{212a}"), ("s", "\u{17f}"), ("K", "\u{212a}"),
    ("S", "\u{17f}"), ("0", "\u{660}"), ("1", "\u{ff11}"), ("1", "01"), ("\"", "'"), ("'", "\""), ("{", "{{"), ("}", "}}"), ("{", ""), ("}", ""), ("\\", "\\\\"), ("\\", ""),
    ("\0", ""), ("/", "\\"), (".", "x"), ("*", ""), ("+", ""), ("?", ""), ("a", "A"), ("A", "a"), ("x", "X"),
];

/// an input string for parsing: (text, how it was made)
pub fn input(sem: &Sem, a: &Alpha, def: usize, args: &[Ty], s: &mut Src) -> (String, &'static str) {
    let d = &sem.unit.defs[def];
    let base = |s: &mut Src| {
        if d.display && s.pct(45) {
            let v = value(&Ty::Def(def, args.to_vec()), sem.unit, a, s, 0);
            sem.display_def(def, args, &v)
        } else {
            sample_def(sem, a, def, args, s)
        }
    };
    match s.weighted(&[50, 35, 10, 5]) {
        0 => (base(s), "shaped"),
        1 => {
            let t = base(s);
            (mutate(a, &t, s), "mutant")
        }
        2 => (a.free(s), "free"),
        _ => {
            let t = base(s) + &base(s);
            (t, "doubled")
        }
    }
}
