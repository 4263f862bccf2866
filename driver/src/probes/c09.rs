// one standard type; TYPE, KIND, NAME and TEXTLIKE are filled in
use parse_display::{FromStr, FromStrRegex};
use pd_rt::probe::*;
use std::str::FromStr as _;
type T = TYPE;
const KIND: &str = "KIND";
const TEXTLIKE: bool = FREE;

#[derive(FromStr)]
#[from_str(regex_infer)]
struct Container(T);
#[derive(FromStr)]
struct Field(#[from_str(regex_infer)] T);
#[derive(FromStr)]
#[display("{value}")]
#[from_str(regex_infer)]
struct Named {
    value: T,
}
#[derive(FromStr)]
#[display("<{0}>")]
#[from_str(regex_infer)]
struct Angled(T);
#[derive(FromStr)]
#[display("1{0}0")]
struct Digits(#[from_str(regex_infer)] T);
#[derive(FromStr)]
#[display("-{0}e1")]
#[from_str(regex_infer)]
struct Exp(T);
#[derive(FromStr)]
#[display("true{0}\n")]
#[from_str(regex_infer)]
struct Words(T);
#[derive(FromStr)]
#[display("{0}")]
#[from_str(regex_infer)]
enum Whole {
    V(T),
}
#[derive(FromStr)]
enum Variant {
    #[display("{x}")]
    #[from_str(regex_infer)]
    V { x: T },
}
#[derive(FromStr)]
enum InVariant {
    #[display("v={0}")]
    V(#[from_str(regex_infer)] T),
}
#[derive(FromStr)]
struct Opt(
    #[display(opt)]
    #[from_str(regex_infer)]
    Option<T>,
);
#[derive(FromStr)]
#[display("[{0}]")]
struct OptIn(
    #[display(opt)]
    #[from_str(regex_infer)]
    Option<T>,
);
#[derive(FromStr)]
#[from_str(regex_infer)]
struct Generic<X>(X)
where
    X: FromStrRegex;

trait Bits {
    fn bits(&self) -> String;
}
impl Bits for T {
    fn bits(&self) -> String {
        let x = self;
        BITS
    }
}
fn std_accepts(s: &str) -> Option<String> {
    T::from_str(s).ok().map(|v| v.bits())
}

/// asks the derived type what it does with `s`; the truth is `want`
macro_rules! ask {
    ($out:ident, $k:literal, $s:expr, $want:expr, $d:ty, |$v:ident| $get:expr) => {{
        let s: &str = $s;
        let want: Option<String> = $want;
        let nontrivial = want.is_some();
        let want = format!("{want:?}");
        let got = caught(|| s.parse::<$d>().ok().map(|$v| $get));
        $out.push(Case::new(concat!("parse/", $k), s, want, got, nontrivial));
    }};
}
fn pattern(src: &mut Src, out: &mut Vec<Case>) {
    let s = pd_rt::texts::of(KIND, src);
    let pat = <T as FromStrRegex>::from_str_regex();
    let alone = match regex::Regex::new(&pat) {
        Ok(r) => match r.capture_names().flatten().next() {
            None => "valid".to_string(),
            Some(n) => format!("names the group {n}"),
        },
        Err(e) => format!("{e}"),
    };
    out.push(Case::new("pattern/valid", &*pat, "valid".into(), alone, false));
    let whole = regex::Regex::new(&format!("\\A(?:{pat})\\z")).map(|r| r.is_match(&s)).unwrap_or(false);
    let accepted = std_accepts(&s).is_some();
    if accepted {
        out.push(Case::new("pattern/covers", &*s, "matched".into(), if whole { "matched".into() } else { format!("not matched by {pat}") }, true));
    } else {
        out.push(Case::new("pattern/not parsed", &*s, String::new(), String::new(), false));
    }
}
fn cut<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    s.strip_prefix(a)?.strip_suffix(b)
}
fn newtypes(src: &mut Src, out: &mut Vec<Case>) {
    let t = pd_rt::texts::of(KIND, src);
    let s = &*t;
    ask!(out, "container", s, std_accepts(s), Container, |v| v.0.bits());
    ask!(out, "field", s, std_accepts(s), Field, |v| v.0.bits());
    ask!(out, "named", s, std_accepts(s), Named, |v| v.value.bits());
    ask!(out, "enum", s, std_accepts(s), Whole, |v| match v {
        Whole::V(x) => x.bits(),
    });
    ask!(out, "variant", s, std_accepts(s), Variant, |v| match v {
        Variant::V { x } => x.bits(),
    });
    ask!(out, "generic", s, std_accepts(s), Generic<T>, |v| v.0.bits());
}
fn surrounded(src: &mut Src, out: &mut Vec<Case>) {
    let t = pd_rt::texts::of(KIND, src);
    // mostly the right surroundings
    let wrap = |src: &mut Src, a: &str, b: &str| match src.below(8) {
        0 => t.clone(),
        1 => format!("{a}{t}"),
        2 => format!("{t}{b}"),
        _ => format!("{a}{t}{b}"),
    };
    let s = wrap(src, "<", ">");
    ask!(out, "angled", &s, cut(&s, "<", ">").and_then(std_accepts), Angled, |v| v.0.bits());
    let s = wrap(src, "1", "0");
    ask!(out, "digits", &s, cut(&s, "1", "0").and_then(std_accepts), Digits, |v| v.0.bits());
    let s = wrap(src, "-", "e1");
    ask!(out, "exp", &s, cut(&s, "-", "e1").and_then(std_accepts), Exp, |v| v.0.bits());
    let s = wrap(src, "true", "\n");
    ask!(out, "words", &s, cut(&s, "true", "\n").and_then(std_accepts), Words, |v| v.0.bits());
    let s = wrap(src, "v=", "");
    ask!(out, "invariant", &s, cut(&s, "v=", "").and_then(std_accepts), InVariant, |v| match v {
        InVariant::V(x) => x.bits(),
    });
}
fn optional(src: &mut Src, out: &mut Vec<Case>) {
    if TEXTLIKE {
        return; // the empty text is both
    }
    let t = if src.pct(10) { String::new() } else { pd_rt::texts::of(KIND, src) };
    let want = |s: &str| if s.is_empty() { Some("absent".to_string()) } else { std_accepts(s) };
    let get = |v: Option<T>| v.map_or("absent".to_string(), |x| x.bits());
    ask!(out, "opt", &t, want(&t), Opt, |v| get(v.0));
    let s = if src.pct(10) { t.clone() } else { format!("[{t}]") };
    ask!(out, "opt-in", &s, cut(&s, "[", "]").and_then(want), OptIn, |v| get(v.0));
}
pub fn entry() -> Vec<Probe> {
    vec![
        probe("NAME/pattern", pattern),
        probe("NAME/newtypes", newtypes),
        probe("NAME/surrounded", surrounded),
        probe("NAME/optional", optional),
    ]
}
