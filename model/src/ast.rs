//! Definitions and values.
use crate::rx::Rx;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Prim {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    U128,
    I128,
    Usize,
    Isize,
    F32,
    F64,
    Bool,
    Char,
    Str,
}
pub const INTS: [Prim; 12] = [
    Prim::U8,
    Prim::I32,
    Prim::I8,
    Prim::U16,
    Prim::I16,
    Prim::U32,
    Prim::U64,
    Prim::I64,
    Prim::U128,
    Prim::I128,
    Prim::Usize,
    Prim::Isize,
];

impl Prim {
    pub fn rust(self) -> &'static str {
        match self {
            Prim::U8 => "u8",
            Prim::I8 => "i8",
            Prim::U16 => "u16",
            Prim::I16 => "i16",
            Prim::U32 => "u32",
            Prim::I32 => "i32",
            Prim::U64 => "u64",
            Prim::I64 => "i64",
            Prim::U128 => "u128",
            Prim::I128 => "i128",
            Prim::Usize => "usize",
            Prim::Isize => "isize",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
            Prim::Bool => "bool",
            Prim::Char => "char",
            Prim::Str => "String",
        }
    }
    pub fn is_int(self) -> bool {
        !matches!(self, Prim::F32 | Prim::F64 | Prim::Bool | Prim::Char | Prim::Str)
    }
    pub fn is_float(self) -> bool {
        matches!(self, Prim::F32 | Prim::F64)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Ty {
    P(Prim),
    /// `&'static str` (printing only)
    RefStr,
    /// `&'static T` (printing only)
    Ref(Box<Ty>),
    /// `Box<T>` (printing only)
    Bx(Box<Ty>),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    /// a library type without Display and FromStr (only usable with a custom format)
    Opaque,
    Def(usize, Vec<Ty>),
    Param(usize),
}

impl Ty {
    pub fn subst(&self, args: &[Ty]) -> Ty {
        match self {
            Ty::Param(i) => args[*i].clone(),
            Ty::Ref(t) => Ty::Ref(Box::new(t.subst(args))),
            Ty::Bx(t) => Ty::Bx(Box::new(t.subst(args))),
            Ty::Opt(t) => Ty::Opt(Box::new(t.subst(args))),
            Ty::Vec(t) => Ty::Vec(Box::new(t.subst(args))),
            Ty::Def(i, a) => Ty::Def(*i, a.iter().map(|t| t.subst(args)).collect()),
            t => t.clone(),
        }
    }
    pub fn key(&self) -> String {
        format!("{self:?}")
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum V {
    Bool(bool),
    Char(char),
    Str(String),
    Int(String),
    F32(u32),
    F64(u64),
    None,
    Some(Box<V>),
    List(Vec<V>),
    Struct(Vec<V>),
    Enum(usize, Vec<V>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Style {
    None,
    Lower,
    Upper,
    Snake,
    UpperSnake,
    LowerCamel,
    UpperCamel,
    Kebab,
    UpperKebab,
    Title,
    TitleHead,
    TitleLower,
    TitleUpper,
}
pub const STYLES: [Style; 13] = [
    Style::None,
    Style::Lower,
    Style::Upper,
    Style::Snake,
    Style::UpperSnake,
    Style::LowerCamel,
    Style::UpperCamel,
    Style::Kebab,
    Style::UpperKebab,
    Style::Title,
    Style::TitleHead,
    Style::TitleLower,
    Style::TitleUpper,
];
impl Style {
    pub fn text(self) -> &'static str {
        match self {
            Style::None => "none",
            Style::Lower => "lowercase",
            Style::Upper => "UPPERCASE",
            Style::Snake => "snake_case",
            Style::UpperSnake => "SNAKE_CASE",
            Style::LowerCamel => "camelCase",
            Style::UpperCamel => "CamelCase",
            Style::Kebab => "kebab-case",
            Style::UpperKebab => "KEBAB-CASE",
            Style::Title => "Title Case",
            Style::TitleHead => "Title case",
            Style::TitleLower => "title case",
            Style::TitleUpper => "TITLE CASE",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Lit(String),
    Arg { path: Vec<String>, raw: bool, spec: String },
    /// injected text (rejected definitions only)
    Raw(String),
}
#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Fmt(pub Vec<Part>);

/// Custom formats of the run-time library (`pd_rt::w`).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum With {
    /// i32, writes value+1, parses and subtracts; no pattern
    Plus1,
    /// u32 in lower-case hex; pattern `[0-9a-f]+`
    Hex,
    /// String in angle brackets; pattern `<[^<>]*>`
    Angle,
    /// bool as yes/no; pattern with a top-level alternation
    YesNo,
    /// u8 in 0..6 coded as text; pattern full of unnamed groups and nested alternations
    Groups,
    /// String; pattern that looks anchored / like named groups but only contains escapes
    Look,
    /// any T: Display + FromStr, passing the formatter through; no pattern
    Pass,
    /// i64, prints the formatter's parameters; no pattern
    Flags,
    /// library type without Display/FromStr; pattern `#-?[0-9]+`
    Opaque,
    /// String reversed, with the deprecated `regex()` method giving a pattern `[a-z]*`
    OldRegex,
    /// `parse_display_with::formats::delimiter(d)` on Vec<i32> or Vec<String>
    Delim(String),
    /// `join(Hex, d)` on Vec<u32>
    JoinHex(String),
    /// `fmt()` of parse_display_with
    Fmt,
    /// String as it is, with any pattern (the empty one too)
    Rx(crate::rx::Rx),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum NewKind {
    /// `Self { a, b }`
    Plain,
    /// `Some`/`None` depending on the fields
    Opt,
    /// `Ok`/`Err(String)` depending on the fields
    Res,
    /// swaps nothing, but bumps every i32/u8 field, returns Self
    Bump,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Attrs {
    pub format: Option<Fmt>,
    pub style: Option<Style>,
    pub d_with: Option<With>,
    pub f_with: Option<With>,
    pub opt: bool,
    pub regex: Option<Rx>,
    pub infer: bool,
    pub new: Option<NewKind>,
    pub ignore: bool,
    pub default: bool,
    pub d_bound: Option<Vec<String>>,
    pub f_bound: Option<Vec<String>>,
    pub krate: Option<String>,
    /// order and grouping of the attribute arguments
    pub layout: Vec<u32>,
    /// replaces the regex (rejected definitions only)
    #[serde(default)]
    pub raw_regex: Option<String>,
    /// further attribute arguments (rejected definitions only); whether they are `from_str` ones
    #[serde(default)]
    pub extra: Vec<(bool, String)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Field {
    /// plain name, or index for tuple fields
    pub name: String,
    pub raw: bool,
    pub ty: Ty,
    pub attrs: Attrs,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Named,
    Tuple,
    Unit,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fields {
    pub kind: Kind,
    pub fields: Vec<Field>,
}
impl Fields {
    pub fn unit() -> Fields {
        Fields { kind: Kind::Unit, fields: vec![] }
    }
    pub fn index(&self, name: &str) -> Option<usize> {
        self.fields.iter().position(|f| f.name == name)
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Variant {
    pub name: String,
    pub raw: bool,
    pub fields: Fields,
    pub attrs: Attrs,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
    Struct(Fields),
    Enum(Vec<Variant>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Def {
    pub name: String,
    pub params: usize,
    pub body: Body,
    pub attrs: Attrs,
    pub display: bool,
    pub from_str: bool,
    /// value returned by the hand-written `Default`
    pub default_val: Option<V>,
    /// `union` for `struct` (rejected definitions only)
    #[serde(default)]
    pub union: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Unit {
    pub id: usize,
    pub defs: Vec<Def>,
    /// definitions (with type arguments) whose behaviour is compared
    pub insts: Vec<(usize, Vec<Ty>)>,
    /// reserved characters that generated strings and chars must avoid (unambiguous formats)
    pub reserved: String,
}

pub fn is_keyword(s: &str) -> bool {
    const K: &[&str] = &[
        "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
        "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type",
        "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final",
        "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
    ];
    K.contains(&s)
}

impl Fmt {
    pub fn is_literal(&self) -> bool {
        self.0.iter().all(|p| match p {
            Part::Arg { path, .. } => path.is_empty(),
            _ => true,
        })
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for p in &self.0 {
            match p {
                Part::Lit(l) => {
                    for c in l.chars() {
                        match c {
                            '{' => s.push_str("{{"),
                            '}' => s.push_str("}}"),
                            c => s.push(c),
                        }
                    }
                }
                Part::Raw(t) => s.push_str(t),
                Part::Arg { path, raw, spec } => {
                    s.push('{');
                    for (i, k) in path.iter().enumerate() {
                        if i > 0 {
                            s.push('.');
                        }
                        if *raw && !k.starts_with(|c: char| c.is_ascii_digit()) {
                            s.push_str("r#");
                        }
                        s.push_str(k);
                    }
                    if !spec.is_empty() {
                        s.push(':');
                        s.push_str(spec);
                    }
                    s.push('}');
                }
            }
        }
        s
    }
}

pub fn spec_trait(spec: &str) -> &'static str {
    if spec.ends_with('?') {
        "Debug"
    } else {
        match spec.chars().last() {
            Some('x') => "LowerHex",
            Some('X') => "UpperHex",
            Some('o') => "Octal",
            Some('b') => "Binary",
            Some('e') => "LowerExp",
            Some('E') => "UpperExp",
            Some('p') => "Pointer",
            _ => "Display",
        }
    }
}
