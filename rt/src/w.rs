//! Custom formats used by the generated definitions.
use crate::{Conv, V};
use parse_display::{DisplayFormat, FromStrFormat};
use pd_model::vals::*;
use std::fmt::{Display, Formatter, Result as R};
use std::str::FromStr;

pub struct Bad;

pub struct Plus1;
impl DisplayFormat<i32> for Plus1 {
    fn write(&self, f: &mut Formatter, v: &i32) -> R {
        write!(f, "{}", v.wrapping_add(1))
    }
}
impl FromStrFormat<i32> for Plus1 {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<i32, Bad> {
        s.parse::<i32>().map(|x| x.wrapping_sub(1)).map_err(|_| Bad)
    }
}

pub struct Hex;
impl DisplayFormat<u32> for Hex {
    fn write(&self, f: &mut Formatter, v: &u32) -> R {
        write!(f, "{v:x}")
    }
}
impl FromStrFormat<u32> for Hex {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<u32, Bad> {
        u32::from_str_radix(s, 16).map_err(|_| Bad)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        HEX_PAT.into()
    }
}

pub struct Angle;
impl DisplayFormat<String> for Angle {
    fn write(&self, f: &mut Formatter, v: &String) -> R {
        write!(f, "<{v}>")
    }
}
impl FromStrFormat<String> for Angle {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<String, Bad> {
        angle_parse(s).map(String::from).ok_or(Bad)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        ANGLE_PAT.into()
    }
}

pub struct YesNo;
impl DisplayFormat<bool> for YesNo {
    fn write(&self, f: &mut Formatter, v: &bool) -> R {
        f.write_str(if *v { "yes" } else { "no" })
    }
}
impl FromStrFormat<bool> for YesNo {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<bool, Bad> {
        match s {
            "yes" => Ok(true),
            "no" => Ok(false),
            _ => Err(Bad),
        }
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        YESNO_PAT.into()
    }
}

pub struct Groups;
impl DisplayFormat<u8> for Groups {
    fn write(&self, f: &mut Formatter, v: &u8) -> R {
        f.write_str(GROUPS_TEXTS[*v as usize % 7])
    }
}
impl FromStrFormat<u8> for Groups {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<u8, Bad> {
        GROUPS_TEXTS.iter().position(|t| *t == s).map(|x| x as u8).ok_or(Bad)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        GROUPS_PAT.into()
    }
}

pub struct Look;
impl DisplayFormat<String> for Look {
    fn write(&self, f: &mut Formatter, v: &String) -> R {
        write!(f, "^{v}$")
    }
}
impl FromStrFormat<String> for Look {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<String, Bad> {
        look_parse(s).map(String::from).ok_or(Bad)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        LOOK_PAT.into()
    }
}

/// the type's own Display and FromStr, formatter passed through
pub struct Pass;
impl<T: Display + ?Sized> DisplayFormat<T> for Pass {
    fn write(&self, f: &mut Formatter, v: &T) -> R {
        v.fmt(f)
    }
}
impl<T: FromStr> FromStrFormat<T> for Pass {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        s.parse()
    }
}

/// prints what it is told by the formatter
pub struct Flags;
impl DisplayFormat<i64> for Flags {
    fn write(&self, f: &mut Formatter, v: &i64) -> R {
        let p = pd_model::sem::SpecParts {
            fill: f.fill(),
            align: f.align().map(|a| match a {
                std::fmt::Alignment::Left => '<',
                std::fmt::Alignment::Right => '>',
                std::fmt::Alignment::Center => '^',
            }),
            plus: f.sign_plus(),
            minus: f.sign_minus(),
            alt: f.alternate(),
            zero: f.sign_aware_zero_pad(),
            width: f.width(),
            prec: f.precision(),
        };
        f.write_str(&pd_model::sem::flags_text(&p, &v.to_string()))
    }
}
impl FromStrFormat<i64> for Flags {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<i64, Bad> {
        s.parse().map_err(|_| Bad)
    }
}

/// neither Display nor FromStr
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Opaque(pub i32);
impl Conv for Opaque {
    fn to_v(&self) -> V {
        V::Int(self.0.to_string())
    }
    fn from_v(v: &V) -> Self {
        Opaque(i32::from_v(v))
    }
}
pub struct OpaqueFmt;
impl DisplayFormat<Opaque> for OpaqueFmt {
    fn write(&self, f: &mut Formatter, v: &Opaque) -> R {
        write!(f, "#{}", v.0)
    }
}
impl FromStrFormat<Opaque> for OpaqueFmt {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<Opaque, Bad> {
        s.strip_prefix('#').and_then(|s| s.parse().ok()).map(Opaque).ok_or(Bad)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        OPAQUE_PAT.into()
    }
}

/// declares its pattern by the deprecated method
pub struct OldRegex;
impl DisplayFormat<String> for OldRegex {
    fn write(&self, f: &mut Formatter, v: &String) -> R {
        let s: String = v.chars().rev().collect();
        f.write_str(&s)
    }
}
#[allow(deprecated)]
impl FromStrFormat<String> for OldRegex {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<String, Bad> {
        Ok(s.chars().rev().collect())
    }
    #[cfg(feature = "std")]
    fn regex(&self) -> Option<String> {
        Some(OLD_PAT.into())
    }
}

/// a string as it is, with a pattern given by the caller
pub struct Pat(pub &'static str);
impl DisplayFormat<String> for Pat {
    fn write(&self, f: &mut Formatter, v: &String) -> R {
        f.write_str(v)
    }
}
impl FromStrFormat<String> for Pat {
    type Err = Bad;
    fn parse(&self, s: &str) -> Result<String, Bad> {
        Ok(s.to_string())
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        self.0.into()
    }
}
