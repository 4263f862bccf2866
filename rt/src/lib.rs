//! Run-time side of the generated programs.
pub use parse_display;
pub use parse_display_with::formats as pdw;
pub use pd_model::ast::{NewKind, Prim, Ty, Unit, V};
pub use pd_model::vals::new_apply;

pub mod run;
#[cfg(feature = "std")]
pub mod b;
#[cfg(feature = "std")]
pub mod h;
#[cfg(feature = "std")]
pub mod probe;
#[cfg(feature = "std")]
pub mod texts;
pub mod w;
pub use run::main;

use std::fmt;
use std::str::FromStr;

/// the bridge between values of generated types and model values
pub trait Conv: Sized {
    fn to_v(&self) -> V;
    fn from_v(v: &V) -> Self;
}
pub fn bad<T>(v: &V) -> T {
    std::panic::panic_any(format!("harness: value {v:?} does not fit its type"))
}
macro_rules! ints { ($($t:ty)*) => { $(impl Conv for $t {
    fn to_v(&self) -> V { V::Int(self.to_string()) }
    fn from_v(v: &V) -> Self { match v { V::Int(s) => s.parse().unwrap(), _ => bad(v) } }
})* } }
ints!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
impl Conv for bool {
    fn to_v(&self) -> V {
        V::Bool(*self)
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Bool(b) => *b,
            _ => bad(v),
        }
    }
}
impl Conv for char {
    fn to_v(&self) -> V {
        V::Char(*self)
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Char(b) => *b,
            _ => bad(v),
        }
    }
}
impl Conv for f32 {
    fn to_v(&self) -> V {
        V::F32(self.to_bits())
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::F32(b) => f32::from_bits(*b),
            _ => bad(v),
        }
    }
}
impl Conv for f64 {
    fn to_v(&self) -> V {
        V::F64(self.to_bits())
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::F64(b) => f64::from_bits(*b),
            _ => bad(v),
        }
    }
}
impl Conv for String {
    fn to_v(&self) -> V {
        V::Str(self.clone())
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Str(s) => s.clone(),
            _ => bad(v),
        }
    }
}
impl Conv for &'static str {
    fn to_v(&self) -> V {
        V::Str(self.to_string())
    }
    fn from_v(v: &V) -> Self {
        Box::leak(String::from_v(v).into_boxed_str())
    }
}
impl<T: Conv> Conv for &'static T {
    fn to_v(&self) -> V {
        (**self).to_v()
    }
    fn from_v(v: &V) -> Self {
        Box::leak(Box::new(T::from_v(v)))
    }
}
impl<T: Conv> Conv for Box<T> {
    fn to_v(&self) -> V {
        (**self).to_v()
    }
    fn from_v(v: &V) -> Self {
        Box::new(T::from_v(v))
    }
}
impl<T: Conv> Conv for Option<T> {
    fn to_v(&self) -> V {
        match self {
            None => V::None,
            Some(x) => V::Some(Box::new(x.to_v())),
        }
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::None => None,
            V::Some(x) => Some(T::from_v(x)),
            _ => bad(v),
        }
    }
}
impl<T: Conv> Conv for Vec<T> {
    fn to_v(&self) -> V {
        V::List(self.iter().map(|x| x.to_v()).collect())
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::List(x) => x.iter().map(|x| T::from_v(x)).collect(),
            _ => bad(v),
        }
    }
}

pub fn lit<T: Conv>(js: &str) -> T {
    T::from_v(&serde_json::from_str(js).unwrap())
}

/// what the hand-written LowerHex, Octal ... of the generated types print
pub fn self_fmt(tr: &str, v: &V, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{tr}[{:?}|{:?}|{}|{}]{v:?}", f.width(), f.precision(), f.alternate(), f.fill())
}

// --------------------------------------------------------------------------------------- entry points of one type
pub struct Inst {
    pub display: Option<fn(&V) -> String>,
    pub write: Option<fn(&V, &mut dyn fmt::Write) -> fmt::Result>,
    /// printed by a placeholder with parameters of its own
    pub flagged: Option<fn(&V, usize) -> (&'static str, String)>,
    pub parse: Option<fn(&str) -> Result<V, String>>,
    pub re: Option<fn() -> String>,
}
pub struct Spec {
    pub ty: &'static str,
    pub spec: &'static str,
    pub f: fn(&V) -> String,
}
pub struct Entry {
    pub unit: usize,
    pub insts: Vec<Inst>,
    pub specs: Vec<Spec>,
}
pub fn show<T: Conv + fmt::Display>(v: &V) -> String {
    T::from_v(v).to_string()
}
pub fn write_to<T: Conv + fmt::Display>(v: &V, w: &mut dyn fmt::Write) -> fmt::Result {
    write!(w, "{}", T::from_v(v))
}
pub fn flagged<T: Conv + fmt::Display>(v: &V, i: usize) -> (&'static str, String) {
    macro_rules! one { ($($s:literal)*) => { [$((|t: &T| ($s, format!($s, t))) as fn(&T) -> (&'static str, String)),*] } }
    let all = one!("{:>60}" "{:.1}" "{:#}" "{:+}" "{:*^70.2}" "{:040}" "{:<3.0}" "{:#<99}");
    all[i % all.len()](&T::from_v(v))
}
pub fn parse<T: Conv + FromStr>(s: &str) -> Result<V, String>
where
    T::Err: fmt::Display,
{
    match s.parse::<T>() {
        Ok(v) => Ok(v.to_v()),
        Err(e) => Err(e.to_string()),
    }
}
#[cfg(feature = "std")]
pub fn pattern<T: parse_display::FromStrRegex>() -> String {
    T::from_str_regex()
}
