//! Primitive values: text <-> value by the standard library itself.
use crate::ast::*;

macro_rules! ints {
    ($p:expr, $s:expr, $($v:ident => $t:ty),*) => {
        match $p { $(Prim::$v => $s.parse::<$t>().ok().map(|x| V::Int(x.to_string())),)* _ => None }
    };
}

pub fn parse_prim(p: Prim, s: &str) -> Option<V> {
    match p {
        Prim::F32 => s.parse::<f32>().ok().map(|x| V::F32(x.to_bits())),
        Prim::F64 => s.parse::<f64>().ok().map(|x| V::F64(x.to_bits())),
        Prim::Bool => s.parse::<bool>().ok().map(V::Bool),
        Prim::Char => s.parse::<char>().ok().map(V::Char),
        Prim::Str => Some(V::Str(s.to_string())),
        _ => ints!(p, s, U8 => u8, I8 => i8, U16 => u16, I16 => i16, U32 => u32, I32 => i32, U64 => u64, I64 => i64,
                   U128 => u128, I128 => i128, Usize => usize, Isize => isize),
    }
}

pub fn show_prim(v: &V) -> String {
    match v {
        V::Bool(b) => b.to_string(),
        V::Char(c) => c.to_string(),
        V::Str(s) => s.clone(),
        V::Int(s) => s.clone(),
        V::F32(b) => f32::from_bits(*b).to_string(),
        V::F64(b) => f64::from_bits(*b).to_string(),
        _ => panic!("not a primitive: {v:?}"),
    }
}

pub fn default_prim(p: Prim) -> V {
    match p {
        Prim::F32 => V::F32(0f32.to_bits()),
        Prim::F64 => V::F64(0f64.to_bits()),
        Prim::Bool => V::Bool(false),
        Prim::Char => V::Char('\0'),
        Prim::Str => V::Str(String::new()),
        _ => V::Int("0".into()),
    }
}

// -------------------------------------------------------------------------------- custom formats (shared with pd-rt)
pub const HEX_PAT: &str = "[0-9a-f]+";
pub const ANGLE_PAT: &str = "<[^<>]*>";
pub const YESNO_PAT: &str = "yes|no";
pub const GROUPS_PAT: &str = r"((a)|b)?x|ab(x(-1))?|\(x\)|c\|d";
pub const GROUPS_TEXTS: [&str; 7] = ["ax", "bx", "x", "abx-1", "ab", "(x)", "c|d"];
pub const LOOK_PAT: &str = r"\^[a-z]*\$|\(\?<a>[a-z]*\)";
pub const OPAQUE_PAT: &str = "#-?[0-9]+";
pub const OLD_PAT: &str = "[a-z]*";

pub fn look_parse(s: &str) -> Option<&str> {
    s.strip_prefix('^')
        .and_then(|s| s.strip_suffix('$'))
        .or_else(|| s.strip_prefix("(?<a>").and_then(|s| s.strip_suffix(')')))
}
pub fn angle_parse(s: &str) -> Option<&str> {
    s.strip_prefix('<').and_then(|s| s.strip_suffix('>'))
}

/// what a `new` expression of the generated definitions does with its fields
pub fn new_apply(kind: NewKind, vals: Vec<V>) -> Option<Vec<V>> {
    match kind {
        NewKind::Plain => Some(vals),
        NewKind::Opt | NewKind::Res => {
            let h: u32 = format!("{vals:?}").bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
            if (h >> 4) % 3 == 0 {
                None
            } else {
                Some(vals)
            }
        }
        NewKind::Bump => Some(
            vals.into_iter()
                .map(|v| match v {
                    V::Str(s) => V::Str(format!("{s}!")),
                    V::Bool(b) => V::Bool(!b),
                    v => v,
                })
                .collect(),
        ),
    }
}
