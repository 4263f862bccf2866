//! C21: valid definitions and the same with one fault.
use crate::items::*;
use pd_model::codegen::{module, source, Opts};
use pd_model::faults::faulty;

pub fn make(_: usize, choices: &[u32]) -> Case {
    match faulty(choices) {
        Some((good, bad, class)) => {
            let o = Opts::default();
            let (good_text, bad_text) = if class == "union" {
                let wrap = |t: String| format!("#![allow(unused)]\n{t}");
                let t = source(&bad, &o);
                let plain: Vec<&str> = t.lines().filter(|l| !l.starts_with('#') && !l.starts_with("///")).collect();
                (wrap(plain.join("\n")), wrap(t))
            } else {
                (module(&good, &o), module(&bad, &o))
            };
            let derives = |u: &pd_model::ast::Unit| {
                let d = u.defs.last().unwrap();
                match (d.display, d.from_str) {
                    (true, true) => "both derives",
                    (true, false) => "only Display",
                    _ => "only FromStr",
                }
            };
            Case {
                features: vec![format!("{class}: {}", derives(&bad))],
                modules: vec![
                    Module { text: good_text, expect: Expect::Compiles },
                    Module { text: bad_text, expect: Expect::Rejected },
                ],
                shown: source(&bad, &o),
                class: class.into(),
            }
        }
        None => Case { modules: vec![], features: vec![], shown: String::new(), class: String::new() },
    }
}
