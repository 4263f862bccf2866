//! Markers, wrappers and helpers for the trait-bound checks.
use std::fmt::*;
use std::marker::PhantomData;
use std::str::FromStr;

pub trait Mark {}
pub trait Mark2 {}
pub trait Has {
    type A;
}
/// implies every trait a format can need
pub trait Super: Display + Debug + LowerHex + UpperHex + Octal + Binary + LowerExp + UpperExp + Pointer + FromStr {}

#[derive(Debug)]
pub struct E;

macro_rules! fmts { ($t:ident: $($tr:ident)*) => { $(impl $tr for $t { fn fmt(&self, f: &mut Formatter) -> Result { f.write_str(stringify!($tr)) } })* } }
macro_rules! marker { ($t:ident, $a:ident, [$($tr:ident)*], [$($m:ident)*]) => {
    #[allow(dead_code)]
    pub struct $t;
    fmts!($t: $($tr)*);
    impl Has for $t { type A = $a; }
    $(marker!(@ $m $t);)*
};
    (@ FromStr $t:ident) => { impl FromStr for $t { type Err = E; fn from_str(_: &str) -> std::result::Result<Self, E> { Ok($t) } } };
    (@ FromStrRegex $t:ident) => {
        impl parse_display::FromStrRegex for $t { fn from_str_regex() -> String { "[a-z]".into() } } };
    (@ Default $t:ident) => { impl Default for $t { fn default() -> Self { $t } } };
    (@ $m:ident $t:ident) => { impl $m for $t {} };
}
marker!(MA, MD, [Display Debug LowerHex UpperHex Octal Binary LowerExp UpperExp Pointer], [FromStr FromStrRegex Default Mark Mark2 Super]);
marker!(MB, MC, [Display], [FromStr]);
marker!(MC, MB, [Debug], [Default]);
marker!(MD, MA, [], []);
marker!(ME, MF, [LowerHex UpperHex Octal], [FromStr Mark]);
marker!(MF, MG, [Display], [Mark Mark2]);
marker!(MG, ME, [], [FromStr Mark2]);
marker!(MH, MI, [Display Debug], [FromStr FromStrRegex]);
marker!(MI, MH, [Binary LowerExp UpperExp Pointer Display], [Default]);

/// Display if T: Debug, FromStr if T: Default
pub struct Wd<T>(pub PhantomData<T>);
impl<T: Debug> Display for Wd<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Wd")
    }
}
impl<T: Default> FromStr for Wd<T> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Wd(PhantomData))
    }
}
/// Display if T: LowerHex, LowerHex if T: Display, Debug if T: Binary, FromStr if T: FromStr
pub struct Wh<T>(pub PhantomData<T>);
impl<T: LowerHex> Display for Wh<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Wh")
    }
}
impl<T: Display> LowerHex for Wh<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("wh")
    }
}
impl<T: Binary> Debug for Wh<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("wh?")
    }
}
impl<T: FromStr> FromStr for Wh<T> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Wh(PhantomData))
    }
}
/// Display and FromStr if both are marked
pub struct Wm<T, U>(pub PhantomData<(T, U)>);
impl<T: Mark, U: Mark2> Display for Wm<T, U> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Wm")
    }
}
impl<T: Mark2, U: Mark> FromStr for Wm<T, U> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Wm(PhantomData))
    }
}
/// all traits, whatever T is
pub struct Wa<T>(pub PhantomData<T>);
impl<T> Display for Wa<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Wa")
    }
}
impl<T> Debug for Wa<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Wa?")
    }
}
impl<T> FromStr for Wa<T> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Wa(PhantomData))
    }
}
/// Display for 1, FromStr for 2
pub struct Gn<const N: usize>;
impl Display for Gn<1> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Gn")
    }
}
impl<const N: usize> Debug for Gn<N> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Gn?")
    }
}
impl FromStr for Gn<2> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Gn)
    }
}

/// Display for arrays of 1, FromStr for arrays of 2
pub struct Ga<T>(PhantomData<T>);
impl Display for Ga<[u8; 1]> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Ga")
    }
}
impl Display for Ga<(u8, [(); 1])> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Ga")
    }
}
impl<T> Debug for Ga<T> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("Ga?")
    }
}
impl FromStr for Ga<[u8; 2]> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Ga(PhantomData))
    }
}
impl FromStr for Ga<(u8, [(); 2])> {
    type Err = E;
    fn from_str(_: &str) -> std::result::Result<Self, E> {
        Ok(Ga(PhantomData))
    }
}

/// a custom format for every type
pub struct AnyFmt;
impl<T: ?Sized> parse_display::DisplayFormat<T> for AnyFmt {
    fn write(&self, f: &mut Formatter, _: &T) -> Result {
        f.write_str("any")
    }
}
impl<T> parse_display::FromStrFormat<T> for AnyFmt {
    type Err = E;
    fn parse(&self, _: &str) -> std::result::Result<T, E> {
        Err(E)
    }
}

/// whether a concrete type implements a trait
#[macro_export]
macro_rules! impls {
    ($t:ty : $($tr:tt)+) => {{
        struct W<T: ?Sized>(::std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for W<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)+> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}

pub struct Check {
    /// what is asked
    pub what: &'static str,
    pub expected: bool,
    pub actual: bool,
    /// whether the answer depends on type arguments
    pub nontrivial: bool,
}
pub struct Checks {
    pub unit: usize,
    pub checks: Vec<Check>,
    /// (what, expected, actual)
    pub texts: Vec<(String, String, String)>,
}
/// the text, or the panic
pub fn caught(f: impl FnOnce() -> String) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => "(panic)".into(),
    }
}
/// prints itself differently for everything a formatter can carry
pub struct Picky(pub u8);
macro_rules! picky { ($($tr:ident)*) => { $(impl $tr for Picky { fn fmt(&self, f: &mut Formatter) -> Result {
    write!(f, "<{} {} {:?} {:?} {} {} {} {} {}>", stringify!($tr), self.0, f.width(), f.precision(), f.fill(), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad())?;
    f.pad("|")
} })* } }
picky!(Display Debug LowerHex UpperHex Octal Binary LowerExp UpperExp Pointer);
/// something with fields of its own
pub struct Deep {
    pub n: i32,
    pub r#type: char,
    pub inner: (f64, Vec<u8>),
    pub at: &'static i32,
    pub naïve: String,
}
impl Deep {
    pub fn new(n: i32) -> Self {
        Deep { n, r#type: '型', inner: (n as f64 / 8.0, vec![n as u8]), at: &55, naïve: format!("n{n}") }
    }
}

/// runs the modules of a generated program
pub fn main(entries: &[fn() -> Checks]) {
    use crate::run::{Failure, Report};
    let args: Vec<String> = std::env::args().collect();
    let mut rep = Report::default();
    let only: Option<usize> = args.get(2).and_then(|a| a.parse().ok());
    for (at, e) in entries.iter().enumerate() {
        if only.is_some_and(|o| o != at) {
            continue;
        }
        let c = e();
        rep.units += 1;
        let mut bad = None;
        for k in c.checks {
            rep.evaluations += 1;
            *rep.counters.entry(format!("{}/{}", k.what.rsplit(": ").next().unwrap_or(""), if k.expected { "holds" } else { "does not hold" })).or_default() += 1;
            if k.nontrivial {
                rep.distinct_nontrivial += 1;
                if rep.samples.len() < 12 && c.unit % 5 == 0 {
                    rep.samples.push(serde_json::json!({"unit": c.unit, "question": k.what, "expected": k.expected}));
                }
            }
            if k.expected != k.actual && bad.is_none() {
                bad = Some(Failure {
                    unit: c.unit,
                    kind: if k.actual { "implemented-but-should-not" } else { "should-be-implemented" }.into(),
                    def: String::new(),
                    input: k.what.into(),
                    expected: k.expected.to_string(),
                    actual: k.actual.to_string(),
                    choices: vec![],
                });
            }
        }
        for (what, want, got) in c.texts {
            rep.evaluations += 1;
            *rep.counters.entry("text".into()).or_default() += 1;
            if !want.is_empty() {
                rep.distinct_nontrivial += 1;
                if rep.samples.len() < 12 && c.unit % 5 == 0 {
                    rep.samples.push(serde_json::json!({"unit": c.unit, "value": what, "text": want}));
                }
            }
            if want != got && bad.is_none() {
                bad = Some(Failure {
                    unit: c.unit,
                    kind: "text".into(),
                    def: String::new(),
                    input: what,
                    expected: format!("{want:?}"),
                    actual: format!("{got:?}"),
                    choices: vec![],
                });
            }
        }
        rep.failures.extend(bad);
    }
    std::fs::write(&args[1], serde_json::to_string(&rep).unwrap()).unwrap();
}

/// a custom format that has a pattern and keeps the text
pub struct RxFmt(pub &'static str);
impl parse_display::FromStrFormat<String> for RxFmt {
    type Err = E;
    fn parse(&self, s: &str) -> std::result::Result<String, E> {
        Ok(s.into())
    }
    fn regex_pattern(&self) -> String {
        self.0.into()
    }
}

type Parsed = Option<(usize, Vec<String>)>;
/// compares with the regex crate
pub fn rich(unit: usize, oracles: &[(&str, usize)], inputs: &[&str], parse: impl Fn(&str) -> Parsed, pattern: impl FnOnce() -> Option<String>) -> Checks {
    let res: Vec<_> = oracles
        .iter()
        .map(|(r, n)| match regex::Regex::new(&format!("\\A(?:{r}\n)\\z").replace("\n)\\z", ")\\z")) {
            Ok(x) => (x, *n),
            Err(e) => panic!("harness: {r}: {e}"),
        })
        .collect();
    let mut texts = vec![];
    let pattern = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(pattern)) {
        Ok(Some(p)) => match regex::Regex::new(&format!("\\A(?:{p})\\z")) {
            Ok(r) => Some(r),
            Err(e) => {
                texts.push(("pattern".to_string(), "a valid regex".into(), format!("{p}: {e}")));
                None
            }
        },
        Ok(None) => None,
        Err(_) => {
            texts.push(("pattern".to_string(), "a pattern".into(), "(panic)".into()));
            None
        }
    };
    for i in inputs {
        let mut want: Option<Parsed> = Some(None);
        for (k, (r, n)) in res.iter().enumerate() {
            if let Some(c) = r.captures(i) {
                let v: Option<Vec<String>> = (0..*n).map(|j| c.name(&format!("g{j}")).map(|m| m.as_str().to_string())).collect();
                // what a group that took no part gives is not said anywhere
                want = v.map(|v| Some((k, v)));
                break;
            }
        }
        let Some(want) = want else { continue };
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse(i))) {
            Ok(g) => g,
            Err(_) => {
                texts.push((i.to_string(), format!("{want:?}"), "(panic)".into()));
                continue;
            }
        };
        let empty = |p: &Parsed| if p.is_none() { String::new() } else { format!("{p:?}") };
        texts.push((i.to_string(), empty(&want), empty(&got)));
        if let (Some(r), Some(_)) = (&pattern, &got) {
            texts.push((format!("{i:?} by the pattern"), "matched".into(), if r.is_match(i) { "matched".into() } else { format!("not matched by {}", r.as_str()) }));
        }
    }
    Checks { unit, checks: vec![], texts }
}
