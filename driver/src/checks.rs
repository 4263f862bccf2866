//! Which definitions, values and inputs each property is decided on.
use crate::family::Family;
use pd_model::codegen::Surround;
use pd_model::gen::Profile;

pub const ASSUMPTIONS: &[&str] = &[
    "the reference model (/verif/model) states the documented meaning; it is independent of the code under test",
    "std::format!, the regex crate and FromStr of primitive types are taken from their libraries",
    "definitions are generated within the documented language; exclusions are listed in DESIGN.md",
    "held on everything generated; not a proof",
];

fn fam(name: &str, flags: &'static str, units: usize, cases: u32, profile: Profile) -> Family {
    Family {
        name: name.into(),
        profile,
        flags,
        units,
        cases,
        surround: Surround::Plain,
        krate: None,
        std: true,
        macros: false,
        want: &[],
    }
}

const D_RULE: &str = "a case is (definition, value), both decoded from proptest choice vectors; non-trivial: the model prints a non-empty text; distinct by (definition, value)";
const P_RULE: &str = "a case is (definition, input); inputs are printed values, texts built from the format with own and foreign field texts, mutants of those, and free texts; non-trivial: the model accepts the input, or the input is a mutant of an accepted one; distinct by (definition, input)";

pub fn rule(id: &str) -> String {
    match id {
        "C01" | "C02" | "C03" => D_RULE.into(),
        "C04" => "a case is (definition, value) whose text the model parses back to the same value (others are counted as ambiguous and not compared); distinct by (definition, value)".into(),
        "C10" => format!("{P_RULE}; for the pattern relation a case is an input the real FromStr accepts, which the reported pattern must match as a whole"),
        "C17" => "a case is a history of parses of several types (and instances of generic types) in a fresh order, on one or several threads behind a barrier; non-trivial: at least two parses; distinct by (definition, history); for c17-twins a case is a function with same-named types in different blocks, parsed in a fresh order, with failing, panicking and recursive fields in between".into(),
        "C18" => "a case is (definition, input) with inputs made long, cut beside or replaced by multi-byte characters, re-cased, repeated; every case counts; distinct by (definition, input); for c18-large a case is a very large format, enum or regex with its own inputs".into(),
        "C19" => "a case is (definition, value, fault schedule of the destination); non-trivial: the full text is not empty; distinct by (definition, value, schedule)".into(),
        "C08" | "C11" | "C13" | "C14" | "C16" | "C22" | "C23" => format!("printing: {D_RULE}; parsing: {P_RULE}"),
        "C09" => "a case is (standard type, definition around it, text); texts are decoded from proptest choice vectors by a grammar of the type's spellings (signs, zeros, bounds and neighbours, exponents, infinities, nan, any case, any char), mutated, or free; non-trivial: the type's own FromStr accepts (for surrounded types: accepts what is left of the text); distinct by (type, definition, text)".into(),
        "C15" => "a case is (generic definition, type arguments, question), the question being whether Display, FromStr or FromStrRegex is implemented for these arguments; non-trivial: the answer differs between the argument lists asked about; counted per question".into(),
        "C20" => "a case is (delimiter, item format, collection or text); non-trivial: more than one item or piece, or a failing item or destination, or a question that does not depend on the length; distinct by (probe, kind, delimiter and input)".into(),
        "C21" => "a case is a definition made from a generated valid one by planting one fault of a known class, or a small definition around one generated token (format, placeholder, parameters, style name, argument) that a rule from the documentation calls valid or not; every case counts; distinct by the text of the definition".into(),
        _ => P_RULE.into(),
    }
}

/// (quick units, thorough units) of one family
pub fn families(id: &str, tier: &str) -> Vec<Family> {
    let d = Profile::default();
    let thorough = tier == "thorough";
    let mut v = base(id, d);
    for f in &mut v {
        if id == "ALL" {
            continue;
        }
        f.units = f.units * 4;
        // compiling is what costs
        f.cases *= if f.flags.contains(['T', 'X', 'H', 'F']) { 1 } else if id == "C10" { 3 } else { 6 };
        if thorough {
            f.cases *= 4;
        }
    }
    v
}

/// generated modules that answer questions about themselves
pub fn items(id: &str, _tier: &str) -> Vec<(&'static str, crate::items::Maker, usize)> {
    match id {
        "C01" => vec![("exotic", crate::exotic::make as crate::items::Maker, 1000)],
        "C02" => vec![("exotic", crate::exotic::make as crate::items::Maker, 1600)],
        "C07" => vec![("rich", crate::richrx::make as crate::items::Maker, 1500)],
        "C10" => vec![("rich", crate::richrx::make_c10 as crate::items::Maker, 700)],
        "C11" => vec![("exotic", crate::exotic::make_c11 as crate::items::Maker, 800)],
        "C15" => vec![("bounds", crate::bounds::make as crate::items::Maker, 1600)],
        "C17" => vec![("twins", crate::history::make as crate::items::Maker, 800)],
        "C18" => vec![("large", crate::heavy::make as crate::items::Maker, 300)],
        "C21" => vec![("faults", crate::reject::make as crate::items::Maker, 1500), ("tokens", crate::tokens::make as crate::items::Maker, 14000)],
        _ => vec![],
    }
}

fn base(id: &str, d: Profile) -> Vec<Family> {
    let n = |name: &str, flags, units, cases, p: Profile| fam(name, flags, units, cases, p);
    match id {
        "C01" => vec![
            n("general", "O", 450, 100, Profile { derive: [3, 5, 0], spec: 5, field_fmt: 30, enums: 50, lit_meta: 60, ..d.clone() }),
            n("enums", "O", 250, 100, Profile { derive: [1, 4, 0], spec: 5, enums: 100, enum_fmt: 60, variant_fmt: 50, odd_variants: 40, raw: 30, max_variants: 7, ..d }),
        ],
        "C02" => vec![
            n("specs", "O", 450, 120, Profile { derive: [1, 3, 0], spec: 90, field_fmt: 30, opt: 25, with: 20, refs: 15, nested: 20, generic: 15, enums: 40, ..d.clone() }),
            n("whole", "O", 200, 80, Profile { derive: [0, 1, 0], spec: 60, self_spec: 60, enums: 60, ..d }),
        ],
        "C03" => vec![n(
            "styles",
            "DP",
            600,
            60,
            Profile { enums: 100, style: 90, odd_variants: 60, raw: 25, unit_variant: 60, max_variants: 8, max_inner: 1, ..d },
        )],
        "C04" => vec![n("roundtrip", "R", 600, 120, Profile { derive: [1, 0, 0], unambiguous: true, conflict: 0, absent: 0, spec: 0, ignore: 0, new: 5, ..d })],
        "C05" => vec![n(
            "formats",
            "P",
            600,
            150,
            Profile { derive: [1, 0, 2], rx_container: 0, rx_field: 0, infer: 0, infer_container: 0, overlap: 30, adjacent: 40, lit_meta: 50, ..d },
        )],
        "C06" => {
            let p = Profile { derive: [1, 0, 2], enums: 100, overlap: 60, new: 25, ignore: 20, enum_fmt: 40, max_variants: 7, ..d };
            vec![
                n("enums", "P", 600, 120, p.clone()),
                n("many", "P", 40, 120, Profile { many_variants: 100, unit_variant: 75, max_inner: 1, generic: 10, overlap: 80, words: 50, ..p }),
            ]
        }
        "C07" => vec![
            n("container", "P", 300, 120, Profile { derive: [1, 0, 2], rx_container: 70, groups: 60, enums: 50, ..d.clone() }),
            n("field", "P", 350, 120, Profile { derive: [1, 0, 2], rx_field: 60, field_fmt: 30, groups: 60, nested: 25, rx_container: 5, ..d }),
        ],
        "C08" => vec![
            n("with", "DP", 450, 100, Profile { derive: [3, 1, 1], with: 70, opt: 20, field_fmt: 40, rx_container: 20, simple_types: 70, conflict: 20, ..d.clone() }),
            n("patterns", "P", 300, 100, Profile { derive: [0, 0, 1], with: 85, opt: 15, field_fmt: 20, rx_container: 0, simple_types: 90, conflict: 0, adjacent: 60, big_tuple: 20, enums: 30, max_inner: 1, def_type: 5, ..d }),
        ],
        "C10" => vec![
            n("infer", "XP", 400, 120, Profile { derive: [1, 0, 3], infer: 60, infer_container: 30, def_type: 50, max_inner: 3, words: 40, adjacent: 35, conflict: 0, ..d.clone() }),
            n("words", "XP", 200, 80, Profile { derive: [1, 0, 3], words: 90, infer: 90, infer_container: 40, def_type: 75, max_inner: 2, adjacent: 90, conflict: 0, with: 0, rx_field: 0, rx_container: 0, lit_meta: 0, ..d.clone() }),
            n("patterns", "X", 250, 120, Profile { derive: [1, 0, 3], infer: 20, rx_field: 30, rx_container: 30, with: 30, groups: 60, ..d.clone() }),
            n("many", "XP", 30, 120, Profile { derive: [1, 0, 3], enums: 100, many_variants: 100, unit_variant: 60, max_inner: 1, rx_container: 5, ..d }),
        ],
        "C11" => {
            let p = Profile { derive: [4, 1, 1], opt: 80, field_fmt: 40, with: 25, infer: 15, rx_field: 25, spec: 15, ..d };
            vec![n("options", "DPR", 600, 100, p.clone()), Family { macros: true, ..n("macros", "DP", 100, 60, p) }]
        }
        "C12" => vec![n("defaults", "P", 600, 100, Profile { derive: [1, 0, 2], shared_default: 40, absent: 50, default_struct: 40, nested: 30, new: 0, ..d })],
        "C13" => {
            let p = Profile { derive: [1, 0, 2], new: 85, hostile: 40, raw: 25, default_struct: 0, generic: 0, ..d };
            vec![n("new", "P", 600, 100, p.clone()), Family { macros: true, ..n("macros", "P", 100, 60, p) }]
        }
        "C14" => vec![
            n("precedence", "DP", 600, 100, Profile { derive: [4, 1, 1], conflict: 80, with: 50, rx_field: 30, infer: 30, enum_fmt: 40, style: 50, ..d.clone() }),
            n("inference", "P", 300, 150, Profile { derive: [1, 0, 2], infer_container: 50, infer: 40, adjacent: 50, enums: 75, with: 25, rx_field: 25, conflict: 60, unit_variant: 10, rx_container: 0, def_type: 40, ..d.clone() }),
            n("variants", "P", 150, 100, Profile { derive: [0, 0, 1], enums: 100, infer_container: 8, infer_variant: 70, infer: 5, adjacent: 85, unit_variant: 5, with: 10, rx_field: 0, rx_container: 0, conflict: 10, max_inner: 1, simple_types: 80, ..d }),
        ],
        "C16" => {
            let p = Profile { derive: [3, 1, 1], hostile: 40, new: 20, with: 20, infer: 20, ..d };
            vec![
                Family { surround: Surround::Hostile, ..n("shadowed", "DP", 220, 60, p.clone()) },
                Family { surround: Surround::Strict, ..n("strict", "DP", 150, 60, p.clone()) },
                Family { surround: Surround::NoPrelude, ..n("noprelude", "DP", 220, 60, p.clone()) },
                Family { surround: Surround::Hostile, krate: Some("::pd_rt::parse_display"), ..n("reexport", "DP", 150, 60, p.clone()) },
                Family { krate: Some("::pdx"), ..n("renamed", "DP", 100, 60, p.clone()) },
                Family { krate: Some("pdx"), ..n("renamed2", "DP", 60, 60, p.clone()) },
                Family { surround: Surround::Hostile, krate: Some("crate::local::r#mod"), ..n("local", "DP", 100, 60, p.clone()) },
                Family { surround: Surround::NoStd, ..n("nostdcrate", "DP", 150, 60, p.clone()) },
                Family { macros: true, ..n("macros", "DP", 300, 60, p) },
            ]
        }
        "C17" => vec![n("histories", "H", 500, 60, Profile { derive: [2, 0, 1], generic: 60, infer: 20, with: 20, ..d })],
        "C18" => vec![
            n("totality", "T", 450, 120, Profile { derive: [4, 0, 1], ..d.clone() }),
            n("literals", "T", 200, 120, Profile { derive: [1, 0, 1], literal_only: true, lit_meta: 60, ..d }),
        ],
        "C19" => vec![n("writers", "F", 500, 80, Profile { derive: [1, 3, 0], spec: 25, field_fmt: 30, with: 25, opt: 20, ..d })],
        "C22" => {
            let no = |f: Family| Family { std: false, ..f };
            vec![
                no(n("display", "D", 350, 80, Profile { derive: [0, 1, 0], spec: 20, field_fmt: 25, ..d.clone() })),
                no(n("literals", "DP", 250, 80, Profile { derive: [2, 0, 1], literal_only: true, lit_meta: 60, ..d.clone() })),
                no(Family { surround: Surround::NoStd, ..n("nostdcrate", "D", 150, 60, Profile { derive: [0, 1, 0], ..d }) }),
            ]
        }
        "C23" => vec![
            n("nested", "DP", 450, 100, Profile { derive: [3, 1, 1], nested: 70, field_fmt: 50, plain_inner: 60, rx_container: 15, ..d.clone() }),
            n("deep", "DP", 200, 80, Profile { derive: [4, 1, 2], nested: 95, field_fmt: 30, plain_inner: 90, plain_deep: 80, rx_container: 20, max_inner: 1, with: 3, infer: 0, ..d }),
        ],
        "ALL" => {
            let f = std::env::var("PDV_FLAGS").unwrap_or("DP".into());
            let n = std::env::var("PDV_UNITS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
            let c = std::env::var("PDV_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
            let p = std::env::var("PDV_PROFILE").ok().map(|s| serde_json::from_str(&s).unwrap()).unwrap_or(d);
            vec![fam("general", Box::leak(f.into_boxed_str()), n, c, p)]
        }
        _ => vec![],
    }
}
