//! C21: small definitions around one token (a style, format parameters, a format, a regex, an attribute argument) that
//! is random or one edit away from a valid one. Whether the token is valid is decided here, from the documentation
//! (and, for regexes, by the regex crate's own parser): an invalid one must be rejected and a valid one accepted.
use crate::items::*;
use pd_model::src::Src;

fn edit(s: &mut Src, t: &str, alpha: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.below(2) {
        let i = s.below(c.len() + 1);
        match s.below(7) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => c.insert(i, s.ch(alpha)),
            2 if i < c.len() => c[i] = s.ch(alpha),
            3 if i < c.len() => c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
            4 if i + 1 < c.len() => c.swap(i, i + 1),
            5 if i < c.len() => c.insert(i, c[i]),
            _ => c.push(s.ch(alpha)),
        }
    }
    c.into_iter().collect()
}
fn derives(s: &mut Src) -> (bool, bool) {
    *s.pick(&[(true, true), (true, false), (false, true)])
}
fn names(d: (bool, bool)) -> &'static str {
    match d {
        (true, true) => "Display, FromStr",
        (true, false) => "Display",
        _ => "FromStr",
    }
}

const STYLES: [&str; 13] = [
    "none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE", "Title Case", "Title case", "title case", "TITLE CASE",
];
const WORDS: [&str; 16] = ["snake", "kebab", "title", "camel", "pascal", "train", "screaming", "lower", "upper", "none", "flat", "cobol", "sentence", "dot", "case", "word"];
fn style(s: &mut Src) -> (String, bool) {
    let t = match s.below(4) {
        0 if s.pct(60) => s.pick(&STYLES).to_string(),
        0 => s.pick(&pd_model::faults::BAD_STYLE).to_string(),
        1 => {
            let k = *s.pick(&STYLES);
            edit(s, k, "_- aCs.")
        }
        2 => {
            // other separators and cases
            let k = s.pick(&STYLES).to_string();
            let sep = *s.pick(&["_", "-", " ", "", "."]);
            let k = k.replace(['_', '-', ' '], sep);
            match s.below(4) {
                0 => k.to_lowercase(),
                1 => k.to_uppercase(),
                2 => k[..1].to_uppercase() + &k[1..],
                _ => k,
            }
        }
        _ => {
            let sep = *s.pick(&["_", "-", " ", ""]);
            let case = |w: &str, k: usize| match k {
                0 => w.to_string(),
                1 => w.to_uppercase(),
                _ => w[..1].to_uppercase() + &w[1..],
            };
            let (k, l) = (s.below(3), s.below(3));
            let first = s.pick(&WORDS);
            let mut t = case(first, k);
            if s.pct(40) {
                t = t + sep + &case(s.pick(&WORDS), l);
            }
            if t.len() > first.len() && s.pct(30) { t } else { format!("{t}{sep}{}", case("case", l)) }
        }
    };
    let ok = STYLES.contains(&t.as_str());
    (t, ok)
}
fn style_item(s: &mut Src) -> Option<(String, bool)> {
    let (t, ok) = style(s);
    let d = derives(s);
    let a = format!("#[display(style = {t:?})]\n");
    let (e, v) = if s.pct(50) { (a, String::new()) } else { (String::new(), a) };
    Some((format!("#[derive({})]\n{e}pub enum E {{\n{v}FooBar,\nBaz,\n}}\n", names(d)), ok))
}

/// a character class parse of `[[fill]align][sign]['#']['0'][width]['.' precision][type]`
fn spec(t: &str) -> Option<&str> {
    let c: Vec<(usize, char)> = t.char_indices().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).map(|x| x.1);
    let align = |x: Option<char>| matches!(x, Some('<' | '>' | '^'));
    if align(at(1)) {
        i = 2;
    } else if align(at(0)) {
        i = 1;
    }
    if matches!(at(i), Some('+' | '-')) {
        i += 1;
    }
    if at(i) == Some('#') {
        i += 1;
    }
    while matches!(at(i), Some('0'..='9')) {
        i += 1;
    }
    if at(i) == Some('.') {
        i += 1;
        let k = i;
        while matches!(at(i), Some('0'..='9')) {
            i += 1;
        }
        if i == k {
            return None;
        }
    }
    let ty = &t[c.get(i).map_or(t.len(), |x| x.0)..];
    ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"].contains(&ty).then_some(ty)
}
fn spec_item(s: &mut Src) -> Option<(String, bool)> {
    let mut t = String::new();
    if s.pct(45) {
        if s.pct(60) {
            t.push(s.ch("*_-+#0x<é. "));
        }
        t.push(s.ch("<>^"));
    }
    for (p, a) in [(25, "+-"), (25, "#"), (30, "0"), (45, "123")] {
        if s.pct(p) {
            t.push(s.ch(a));
        }
    }
    if s.pct(35) {
        t += &format!(".{}", s.below(12));
    }
    t += s.pick(&["", "", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"]);
    if s.pct(70) {
        t = edit(s, &t, "<>^+-#0159.?xXobeEpsdfiug!é_%");
    }
    // undecided by the documentation: arguments, white space (unless it is the fill), very large numbers
    let blank = t.chars().enumerate().any(|(i, c)| c.is_whitespace() && !(i == 0 && matches!(t.chars().nth(1), Some('<' | '>' | '^'))));
    if blank || t.contains(['$', '*']) && !t.starts_with('*') || t.contains("9999") {
        return None;
    }
    let ok = spec(&t);
    let d = derives(s);
    let ty = if ok == Some("p") { "*const u8" } else { "i32" };
    // no type is parsed and printed with `p`
    if ty != "i32" && d.1 {
        return None;
    }
    // `?` of floats, `e` of integers and so on exist for i32
    let text = match s.below(3) {
        0 => format!("#[derive({})]\n#[display(\"{{a:{t}}}\")]\npub struct S {{ a: {ty} }}\n", names(d)),
        1 => format!("#[derive({})]\n#[display(\"[{{0}}]\")]\npub struct S(#[display(\"<{{:{t}}}>\")] {ty});\n", names(d)),
        _ => format!("#[derive({})]\npub enum E {{\n#[display(\"v{{0}}{{1:{t}}}\")]\nV(u8, {ty}),\nW,\n}}\n", names(d)),
    };
    Some((text, ok.is_some()))
}

fn format_item(s: &mut Src) -> Option<(String, bool)> {
    let valid = ["{a}", "{b}", "{{", "}}", "x", "-", "{r#a}", " ", "\u{e9}"];
    let mut t = String::new();
    for _ in 0..1 + s.below(4) {
        t += s.pick(&valid);
    }
    if !t.contains("{a}") {
        t += "{a}";
    }
    if !t.contains("{b}") {
        t = format!("{{b}}{t}");
    }
    if s.pct(75) {
        t = edit(s, &t, "{}ab_ :.0#r");
    }
    // parse
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut ok, mut got) = (0, true, vec![]);
    while i < c.len() && ok {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => i += 2,
            '}' if c.get(i + 1) == Some(&'}') => i += 2,
            '}' => ok = false,
            '{' => match c[i + 1..].iter().position(|x| *x == '}') {
                None => ok = false,
                Some(k) => {
                    let p: String = c[i + 1..i + 1 + k].iter().collect();
                    if p.contains('{') {
                        ok = false;
                    } else {
                        let (n, sp) = p.split_once(':').unwrap_or((&p, ""));
                        if sp.contains(char::is_whitespace) || sp == "." {
                            return None;
                        }
                        ok = spec(sp).is_some() && matches!(n, "" | "a" | "b" | "r#a" | "r#b");
                        if n.is_empty() && !sp.is_empty() {
                            return None;
                        }
                        if matches!(n, "a" | "r#a") && !sp.is_empty() && spec(sp) != Some("") && spec(sp) != Some("?") {
                            return None;
                        }
                        got.push(n.replace("r#", ""));
                    }
                    i += k + 2;
                }
            },
            _ => i += 1,
        }
    }
    let d = derives(s);
    let variant = s.pct(50);
    ok &= variant || got.iter().all(|n| !n.is_empty());
    if ok && d.1 {
        let count = |n: &str| got.iter().filter(|g| *g == n).count();
        if count("a") > 1 || count("b") > 1 {
            return None;
        }
        ok = count("a") == 1 && count("b") == 1;
    }
    let (sa, sb) = if !variant { ("struct S", "") } else { ("enum E { W, V", "}") };
    let f = format!("#[display({t:?})]\n");
    let (outer, inner) = if sb.is_empty() { (f, String::new()) } else { (String::new(), f) };
    let sa = sa.replace("V", &format!("{inner}V"));
    Some((format!("#[derive({})]\n{outer}pub {sa} {{ a: ::std::string::String, b: u8 }}{sb}\n", names(d)), ok))
}

fn regex_item(s: &mut Src) -> Option<(String, bool)> {
    let atoms = ["a", "[b-d]", "(?:e|f)", ".", "\\d", "x*", "y+?", "(z)", "[^,]", "q{2}", "w{1,3}", "\\.", "|", "$", "(?i)k", "(?i:k)", "\\p{L}", "[[:alpha:]]", "(?x) # c\n", "\\\\"];
    let mut t = String::new();
    for _ in 0..s.below(4) {
        t += s.pick(&atoms);
    }
    let group = *s.pick(&["(?<a>[0-9]+)", "(?P<a>.)", "(?<a>)"]);
    t = if s.pct(50) { format!("{t}{group}") } else { format!("{group}{t}") };
    if s.pct(75) {
        t = edit(s, &t, "()[]{}|*+?\\^$.-a19,<:>P#&~i!=");
    }
    let field = s.pct(40);
    if field {
        t = t.replace("<a>", "<>");
    }
    // what the groups denote is decided by other checks
    if t.matches("(?<").count() + t.matches("(?P<").count() != 1 || t.contains("<a>") == t.contains("<>") || t.contains("\\(?") || t.contains("{1") && t.contains("9") {
        return None;
    }
    let plain = t.replace("<>", "<zz>").replace("<a>", "<zz>");
    let ast = regex_syntax::ast::parse::Parser::new().parse(&plain);
    let ok = regex_syntax::Parser::new().parse(&plain);
    let named = match (&ast, &ok) {
        (Ok(_), Ok(h)) => {
            fn names(h: &regex_syntax::hir::Hir, out: &mut Vec<String>, repeated: &mut bool) {
                use regex_syntax::hir::HirKind::*;
                match h.kind() {
                    Capture(c) => {
                        out.extend(c.name.iter().map(|n| n.to_string()));
                        names(&c.sub, out, repeated);
                    }
                    Repetition(r) => {
                        let n = out.len();
                        names(&r.sub, out, repeated);
                        *repeated |= out.len() > n;
                    }
                    Concat(v) | Alternation(v) => v.iter().for_each(|h| names(h, out, repeated)),
                    _ => {}
                }
            }
            let (mut v, mut r) = (vec![], false);
            names(h, &mut v, &mut r);
            // a group under a repetition can vanish
            if r {
                return None;
            }
            // a group in a comment or a class is none
            if v.is_empty() {
                return None;
            }
            v == ["zz"]
        }
        _ => false,
    };
    let text = if field {
        if !t.contains("<>") {
            return None;
        }
        match s.below(2) {
            0 => format!("#[derive(FromStr)]\n#[display(\"{{0}}\")]\npub struct S(#[from_str(regex = {t:?})] ::std::string::String);\n"),
            _ => format!("#[derive(FromStr)]\npub enum E {{ #[display(\"{{a}};\")] V {{ #[from_str(regex = {t:?})] a: ::std::string::String }}, W }}\n"),
        }
    } else {
        if !t.contains("<a>") {
            return None;
        }
        match s.below(2) {
            0 => format!("#[derive(FromStr)]\n#[from_str(regex = {t:?})]\npub struct S {{ a: ::std::string::String }}\n"),
            _ => format!("#[derive(FromStr)]\npub enum E {{ W, #[from_str(regex = {t:?})] V {{ a: ::std::string::String }} }}\n"),
        }
    };
    Some((text, named))
}

const DISPLAY_ARGS: [&str; 6] = ["with", "opt", "style", "bound", "crate", "dump"];
const FROM_STR_ARGS: [&str; 9] = ["regex", "regex_infer", "with", "new", "bound", "default", "default_fields", "ignore", "dump"];
fn argument_item(s: &mut Src) -> Option<(String, bool)> {
    let from_str = s.pct(50);
    let own: &[&str] = if from_str { &FROM_STR_ARGS } else { &DISPLAY_ARGS };
    let n = match s.below(5) {
        0 => s.pick(&["skip", "rename", "format", "fmt", "infer", "none", "some", "sep", "delimiter", "flatten", "transparent", "rename_all", "case", "optional", "from", "try_from", "default_field", "crate_path", "re", "pattern", "separator", "parse"]).to_string(),
        1 => s.pick(if from_str { &["opt", "style"] } else { &["regex", "new", "default", "ignore", "regex_infer"] }).to_string(),
        _ => {
            let k = *s.pick(own);
            edit(s, k, "_aesx2").replace("2", if s.pct(50) { "s" } else { "2" })
        }
    };
    if own.contains(&n.as_str()) || n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let form = s.pick(&["", " = \"x\"", " = 1", "()", "(\"x\")", "(T)", " = none", "(..)", " = { }"]).to_string();
    let a = format!("#[{}({}{n}{form})]", if from_str { "from_str" } else { "display" }, if !from_str && s.pct(30) { "\"{}\", " } else { "" });
    let d = if from_str { (false, true) } else { derives(s) };
    let d = if from_str && s.pct(50) { (true, true) } else { d };
    let unnamed = a.contains("\"{}\"");
    let mut at = [String::new(), String::new(), String::new()];
    let k = s.below(3);
    if unnamed && k == 0 {
        return None;
    }
    at[k] = a;
    let [c, v, f] = at;
    let text = match s.below(2) {
        0 if k != 1 => format!("#[derive({})]\n{c}\n#[display(\"{{0}}\")]\npub struct S({f} u8);\n", names(d)),
        _ => format!("#[derive({})]\n{c}\npub enum E {{ {v} W, #[display(\"v{{0}}\")] V({f} u8) }}\n", names(d)),
    };
    Some((text, false))
}

pub fn make(i: usize, choices: &[u32]) -> Case {
    let mut s = Src::new(choices);
    // the index picks the kind, so that reductions (index 0) must find it in the choices
    let _ = i;
    let kind = s.below(5);
    let (class, r) = match kind {
        0 => ("a style", style_item(&mut s)),
        1 => ("format parameters", spec_item(&mut s)),
        2 => ("a format", format_item(&mut s)),
        3 => ("a regex", regex_item(&mut s)),
        _ => ("an attribute argument", argument_item(&mut s)),
    };
    match r {
        None => Case { modules: vec![], features: vec![], shown: String::new(), class: String::new() },
        Some((text, ok)) => {
            let class = format!("{class} ({})", if ok { "valid" } else { "invalid" });
            Case {
                features: vec![class.clone()],
                modules: vec![Module {
                    text: format!("#![allow(unused)]\nuse parse_display::{{Display, FromStr}};\n{text}"),
                    expect: if ok { Expect::Compiles } else { Expect::Rejected },
                }],
                shown: text,
                class,
            }
        }
    }
}
