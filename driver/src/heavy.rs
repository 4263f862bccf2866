//! C18: definitions and inputs that are large: many variants, many fields, long texts, regexes that compile to
//! something big, deep nesting.
use crate::items::*;
use pd_model::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
/// a regex and expressions of texts it matches or just does not match
fn big_regex(s: &mut Src, feats: &mut BTreeSet<String>) -> (String, Vec<String>) {
    let n = *s.pick(&[1usize, 7, 20, 33, 40, 55]);
    let rep = |t: &str, n: usize| format!("{t:?}.repeat({n})");
    let near = |t: &str, n: usize| vec![rep(t, n), rep(t, n + 1), rep(t, n.saturating_sub(1)), format!("{}+\" \"", rep(t, n))];
    match s.below(9) {
        0 => {
            feats.insert("counted Unicode class".into());
            (format!(r"\w{{{n}}}"), near("é", n))
        }
        1 => {
            feats.insert("counted Unicode class".into());
            (format!(r"\pL{{0,{n}}}"), near("日", n))
        }
        2 => {
            feats.insert("counted dot".into());
            (format!(r".{{{},{}}}", n, n * 5), [near("x", n), near("é", n * 5)].concat())
        }
        3 => {
            feats.insert("counted class".into());
            (format!("[a-z]{{{}}}", n * 9), near("q", n * 9))
        }
        4 => {
            feats.insert("counted group".into());
            (format!("(?:ab|c){{{}}}", n * 5), [near("ab", n * 5), near("c", n * 5)].concat())
        }
        5 => {
            feats.insert("many alternatives".into());
            let k = n * 6;
            let words: Vec<String> = (0..k).map(|i| format!("w{}", (i * 7919) % 9973)).collect();
            let t = vec![format!("{:?}.to_string()", words[0]), format!("{:?}.to_string()", words[k - 1]), format!("{:?}.to_string()", words[k / 2]), "\"w\".to_string()".into()];
            (words.join("|"), t)
        }
        6 => {
            feats.insert("deep groups".into());
            (format!("{}x{}", "(?:a|".repeat(n), ")".repeat(n)), vec!["\"x\".to_string()".into(), "\"a\".to_string()".into(), "\"ax\".to_string()".into()])
        }
        7 => {
            feats.insert("deep repetition".into());
            (format!("{}x{}", "(?:".repeat(n), "b?)".repeat(n)), [near("b", n).iter().map(|t| format!("\"x\".to_string()+&({t})")).collect(), vec!["\"x\".to_string()".into()]].concat())
        }
        _ => {
            feats.insert("long literal".into());
            let t = "a.é(".repeat(n * 10);
            (esc(&t), near("a.é(", n * 10))
        }
    }
}

pub fn make(_: usize, choices: &[u32]) -> Case {
    let mut s = Src::new(choices);
    let mut feats: BTreeSet<String> = BTreeSet::new();
    let mut inputs: Vec<String> = vec![];
    let def;
    let mut vars = String::new();
    let mut arms = String::new();
    let var = |lit: bool, o: &str, conv: &str| format!("Var {{ literal: {lit}, oracle: {o:?}, conv: &[{conv}] }}, ");
    match s.below(4) {
        0 => {
            let (r, t) = big_regex(&mut s, &mut feats);
            let (l, rr) = *s.pick(&[("", ""), ("<", ">"), ("é", "")]);
            let how = match s.below(3) {
                0 => format!("#[from_str(regex = {r:?})]"),
                1 => format!("#[from_str(with = pd_rt::b::RxFmt({r:?}))]"),
                _ => format!("#[from_str(regex = {:?})]", format!("(?<>{r})")),
            };
            def = format!("#[derive(::parse_display::FromStr, ::parse_display::Display)]\n#[display({:?})]\nstruct S {{ {how} a: String }}\n", format!("{l}{{a}}{rr}"));
            vars += &var(false, &format!("{}(?P<g0>{r}){}", esc(l), esc(rr)), "Conv::Str");
            arms += "S { a } => vec![\"0\".to_string(), a.clone()],\n";
            inputs.extend(t.iter().map(|t| format!("{l:?}.to_string()+&({t})+{rr:?}")));
            inputs.extend(t);
        }
        1 => {
            // many variants
            let n = *s.pick(&[3usize, 26, 64, 130, 257]);
            feats.insert("many variants".into());
            let style = *s.pick(&["none", "snake_case", "lowercase", "UPPERCASE"]);
            let fields = s.pct(40);
            let mut d = format!("#[derive(::parse_display::FromStr, ::parse_display::Display)]\n#[display(style = {style:?})]\nenum S {{\n");
            for k in 0..n {
                let name = format!("V{k}");
                let text = match style {
                    "none" | "UPPERCASE" => format!("V{k}"),
                    _ => format!("v{k}"),
                };
                if fields && k % 5 == 2 {
                    writeln!(d, "#[display(\"{{}}:{{0}}\")] {name}(u8),").unwrap();
                    vars += &var(false, &format!("{text}:(?P<g0>(?s:.*?))"), "Conv::U8");
                    writeln!(arms, "S::{name}(x) => vec![\"{k}\".to_string(), x.to_string()],").unwrap();
                    if s.pct(20) {
                        inputs.push(format!("\"{text}:{k}\".to_string()"));
                        inputs.push(format!("\"{text}\".to_string()"));
                    }
                } else {
                    writeln!(d, "{name},").unwrap();
                    vars += &var(true, &text, "");
                    writeln!(arms, "S::{name} => vec![\"{k}\".to_string()],").unwrap();
                    if n < 60 || s.pct(20) || k + 1 == n {
                        inputs.push(format!("\"{text}\".to_string()"));
                        inputs.push(format!("\"{text}0\".to_string()"));
                    }
                }
            }
            def = d + "}\n";
        }
        2 => {
            // many fields
            let n = *s.pick(&[2usize, 11, 13, 24, 41]);
            feats.insert("many fields".into());
            let tuple = s.pct(50);
            let seps: Vec<&str> = (0..n).map(|_| *s.pick(&[",", "-", " ", ":", "é"])).collect();
            let mut order: Vec<usize> = (0..n).collect();
            s.shuffle(&mut order);
            let name = |k: usize| if tuple { k.to_string() } else { format!("f{k}") };
            let mut fmt = String::new();
            let mut o = String::new();
            let mut good = String::new();
            for (i, k) in order.iter().enumerate() {
                write!(fmt, "{{{}}}{}", name(*k), seps[i]).unwrap();
                write!(o, "(?P<g{k}>(?s:.*?)){}", esc(seps[i])).unwrap();
                write!(good, "{}{}", (k * 37) % 256, seps[i]).unwrap();
            }
            let fs: String = (0..n).map(|k| if tuple { "u8, ".into() } else { format!("f{k}: u8, ") }).collect();
            let (a, b) = if tuple { ("(", ");") } else { (" { ", "}") };
            def = format!("#[derive(::parse_display::FromStr, ::parse_display::Display)]\n#[display({fmt:?})]\nstruct S{a}{fs}{b}\n");
            vars += &var(false, &o, &"Conv::U8, ".repeat(n));
            let acc: String = (0..n).map(|k| format!("v.{}.to_string(), ", name(k))).collect();
            write!(arms, "v => vec![\"0\".to_string(), {acc}],\n").unwrap();
            inputs.push(format!("{good:?}.to_string()"));
            inputs.push(format!("{:?}.to_string()", good.replacen("37", "377", 1)));
            inputs.push(format!("{:?}.to_string()", &good[..good.len() - good.chars().last().unwrap().len_utf8()]));
            inputs.push("String::new()".into());
        }
        _ => {
            // long texts
            let n = *s.pick(&[10usize, 100, 1000, 20_000]);
            feats.insert("long texts".into());
            let c = *s.pick(&["a", "é", "\n", "(", "日"]);
            let l = *s.pick(&["", "<", "a", "日"]);
            let m = *s.pick(&["|", ".", "a", "é"]);
            let long_lit = if s.pct(30) { c.repeat(n.min(3000)) } else { String::new() };
            let lit = format!("{l}{long_lit}");
            let f = format!("{lit}{{a}}{m}{{b}}");
            def = format!("#[derive(::parse_display::FromStr, ::parse_display::Display)]\n#[display({f:?})]\nstruct S {{ a: String, b: String }}\n");
            vars += &var(false, &format!("{}(?P<g0>(?s:.*?)){}(?P<g1>(?s:.*?))", esc(&lit), esc(m)), "Conv::Str, Conv::Str");
            arms += "S { a, b } => vec![\"0\".to_string(), a.clone(), b.clone()],\n";
            for (x, y) in [(n, 1), (1, n), (0, n), (n, n)] {
                inputs.push(format!("{lit:?}.to_string()+&{c:?}.repeat({x})+{m:?}+&{c:?}.repeat({y})"));
            }
            inputs.push(format!("{lit:?}.to_string()+&{c:?}.repeat({n})"));
            inputs.push(format!("{c:?}.repeat({n})"));
        }
    }
    let text = format!(
        "#![allow(unused, deprecated)]\nuse pd_rt::h::*;\n{def}fn show(v: &S) -> Vec<String> {{ match v {{\n{arms} }} }}\npub fn entry() -> pd_rt::b::Checks {{\nlet v = vec![Ty {{ parse: |s| s.parse::<S>().ok().map(|v| show(&v)), pattern: || <S as ::parse_display::FromStrRegex>::from_str_regex(), vars: vec![{vars}] }}];\nlarge(@ID@, v, |s| s.parse::<S>().ok().map(|v| v.to_string()), &[{}])\n}}\n",
        inputs.join(", ")
    );
    Case { modules: vec![Module { text, expect: Expect::Runs }], features: feats.into_iter().collect(), shown: def, class: "large".into() }
}
