//! Generators of texts that look like what standard types parse.
use pd_model::src::Src;

/// adds one to a decimal numeral
fn incr(s: &str) -> String {
    let mut d: Vec<u8> = s.bytes().collect();
    let mut i = d.len();
    loop {
        if i == 0 {
            d.insert(0, b'1');
            break;
        }
        i -= 1;
        if d[i] == b'9' {
            d[i] = b'0';
        } else {
            d[i] += 1;
            break;
        }
    }
    String::from_utf8(d).unwrap()
}
fn digits(s: &mut Src, max: usize) -> String {
    let n = match s.weighted(&[5, 3, 1]) {
        0 => 1 + s.below(3),
        1 => 1 + s.below(12),
        _ => 1 + s.below(max),
    };
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}
/// junk that is nearly a digit, a sign or a letter of a number
const ODD: &[&str] = &[
    "_", " ", "\n", "\t", "٣", "１", "²", "Ⅷ", "−", "＋", "a", "f", "e", "E", ".", "x", "0x", "u8", "'", ",", "ſ", "K", "ı", "İ",
    "+", "-", "0", "\u{0}", "(", ")",
];
fn mutate(s: &mut Src, t: String) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.below(2) {
        let i = s.below(c.len() + 1);
        match s.below(5) {
            0 => {
                if i < c.len() {
                    c.remove(i);
                }
            }
            1 => {
                if i < c.len() {
                    let x = c[i];
                    c.insert(i, x)
                }
            }
            2 => {
                if i + 1 < c.len() {
                    c.swap(i, i + 1)
                }
            }
            3 => {
                if i < c.len() {
                    c[i] = s.pick(ODD).chars().next().unwrap()
                }
            }
            _ => {
                let x: Vec<char> = s.pick(ODD).chars().collect();
                for y in x.into_iter().rev() {
                    c.insert(i, y)
                }
            }
        }
    }
    c.into_iter().collect()
}
pub fn free(s: &mut Src) -> String {
    let n = match s.weighted(&[5, 3, 1]) {
        0 => s.below(4),
        1 => s.below(10),
        _ => s.below(60),
    };
    let pool = [
        'a', 'Z', '0', '9', '+', '-', '.', 'e', ' ', '\n', '\r', '\t', '\u{0}', '/', '\\', '"', '{', '}', '(', ')', '[', ']', '<', '>', '^', '$',
        '|', '*', '?', 'é', 'ß', '日', '本', '😀', '\u{301}', '\u{200d}', '\u{2028}', '\u{feff}', 'ſ', 'K', '\u{10ffff}', '\u{d7ff}', '\u{85}',
    ];
    let mut o = String::new();
    for _ in 0..n {
        if s.pct(15) {
            let x = s.next() % 0x11_0000;
            o.push(char::from_u32(x).unwrap_or('a'));
        } else {
            o.push(*s.pick(&pool));
        }
    }
    o
}

/// integers of any width: signs, leading zeros, bounds and their neighbours, junk
pub fn int(s: &mut Src) -> String {
    const BITS: [u32; 5] = [8, 16, 32, 64, 128];
    let body = match s.weighted(&[4, 4, 3, 1]) {
        0 => digits(s, 45),
        1 => {
            let b = *s.pick(&BITS);
            let (um, im) = if b == 128 { (u128::MAX, i128::MAX as u128) } else { ((1u128 << b) - 1, (1u128 << (b - 1)) - 1) };
            let m = if s.pct(50) { um } else { im };
            let t = m.to_string();
            match s.below(5) {
                0 => t,
                1 => incr(&t),
                2 => incr(&incr(&t)),
                3 => (m - 1).to_string(),
                _ => t + "0",
            }
        }
        2 => {
            let b = s.pick(&BITS) - s.below(8) as u32;
            let v = (s.next() as u128) << 96 | (s.next() as u128) << 64 | (s.next() as u128) << 32 | s.next() as u128;
            (v >> (128 - b)).to_string()
        }
        _ => "0".repeat(1 + s.below(4)),
    };
    let zeros = if s.pct(25) { "0".repeat(s.below(50)) } else { String::new() };
    let sign = *s.pick(&["", "", "+", "-", "", "-", "+", "+-", "--", "++", " "]);
    let t = format!("{sign}{zeros}{body}");
    if s.pct(20) {
        mutate(s, t)
    } else {
        t
    }
}
fn recase(s: &mut Src, t: &str) -> String {
    t.chars().map(|c| if s.below(2) == 1 { c.to_ascii_uppercase() } else { c }).collect()
}
pub fn float(s: &mut Src) -> String {
    let sign = *s.pick(&["", "", "+", "-", "-", "+", "+-", "--"]);
    let body = match s.weighted(&[8, 3, 2]) {
        0 => {
            let int = if s.pct(80) { digits(s, 330) } else { String::new() };
            let frac = match s.weighted(&[4, 4, 2]) {
                0 => String::new(),
                1 => format!(".{}", digits(s, 330)),
                _ => ".".into(),
            };
            let exp = if s.pct(45) {
                let e = *s.pick(&["e", "E"]);
                let sg = *s.pick(&["", "+", "-"]);
                let d = if s.pct(85) { digits(s, 8) } else { String::new() };
                format!("{e}{sg}{d}")
            } else {
                String::new()
            };
            format!("{int}{frac}{exp}")
        }
        1 => {
            let w = *s.pick(&["inf", "infinity", "nan"]);
            recase(s, w)
        }
        _ => {
            let v = f64::from_bits((s.next() as u64) << 32 | s.next() as u64);
            match s.below(4) {
                0 => format!("{v}"),
                1 => format!("{v:?}"),
                2 => format!("{v:e}"),
                _ => format!("{:E}", v as f32),
            }
        }
    };
    let t = format!("{sign}{body}");
    if s.pct(20) {
        mutate(s, t)
    } else {
        t
    }
}
pub fn ch(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 1]) {
        0 => loop {
            let c = match s.below(3) {
                0 => s.next() % 0x80,
                1 => s.next() % 0x3000,
                _ => s.next() % 0x11_0000,
            };
            if let Some(c) = char::from_u32(c) {
                return c.to_string();
            }
        },
        1 => s.pick(&["\n", "\r", "", "\u{2028}", "\r\n", "e\u{301}", "😀", "\u{0}", "ab", "🇯🇵", "."]).to_string(),
        _ => free(s),
    }
}
pub fn boolean(s: &mut Src) -> String {
    let t = s.pick(&["true", "false", "True", "FALSE", "t", "1", "0", "yes", "truefalse", "true\n", " true", "", "falsetrue"]).to_string();
    if s.pct(25) {
        mutate(s, t)
    } else {
        t
    }
}
/// texts for a standard type
pub fn of(kind: &str, s: &mut Src) -> String {
    match s.weighted(&[18, 1, 1]) {
        0 => match kind {
            "int" => int(s),
            "float" => float(s),
            "char" => ch(s),
            "bool" => boolean(s),
            _ => free(s),
        },
        1 => free(s),
        _ => match s.below(4) {
            0 => int(s),
            1 => float(s),
            2 => boolean(s),
            _ => ch(s),
        },
    }
}
