// list formats of parse-display-with
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use parse_display_with::formats::*;
use pd_rt::probe::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet, LinkedList, VecDeque};
use std::fmt::{self, Formatter, Write as _};

// ------------------------------------------------------------------------------------------------ the reference
fn find(h: &str, n: &str) -> Option<usize> {
    let (h, n) = (h.as_bytes(), n.as_bytes());
    (0..(h.len() + 1).saturating_sub(n.len())).find(|i| &h[*i..*i + n.len()] == n)
}
fn split_ref(mut s: &str, d: &str) -> Vec<String> {
    let mut v = vec![];
    if d.is_empty() {
        // it occurs at both ends and between any two characters
        v.push(String::new());
        v.extend(s.chars().map(String::from));
        v.push(String::new());
        return v;
    }
    while let Some(i) = find(s, d) {
        v.push(s[..i].to_string());
        s = &s[i + d.len()..];
    }
    v.push(s.to_string());
    v
}
fn join_ref(v: &[String], d: &str) -> String {
    let mut o = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push_str(d)
        }
        o.push_str(x)
    }
    o
}

// ------------------------------------------------------------------------------------------------ generators
const BITS: &[&str] = &[",", ";", "a", "b", " ", "|", ".", "é", "日", "\n", "{", "}", "-", "1", "0", "\\", "(", "+", "*", "^", "$", "😀", "e\u{301}", "{}", "\t", "\r\n", "\r", "\0", ":", "/", "=", "\u{2028}", "\u{a0}", "\u{feff}", "A", "_", "\"", "'"];
fn delim(s: &mut Src) -> String {
    match s.weighted(&[16, 12, 12, 1]) {
        0 => s.pick(BITS).to_string(),
        3 => String::new(),
        1 => {
            let n = 1 + s.below(4);
            (0..n).map(|_| *s.pick(BITS)).collect()
        }
        _ => {
            // self-overlapping
            let a = *s.pick(BITS);
            let b = *s.pick(BITS);
            match s.below(4) {
                0 => format!("{a}{a}"),
                1 => format!("{a}{b}{a}"),
                2 => format!("{a}{a}{b}"),
                _ => format!("{a}{b}{a}{b}"),
            }
        }
    }
}
fn word(s: &mut Src, d: &str) -> String {
    let n = s.weighted(&[3, 4, 3, 2, 1]);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(6) {
            0 => {
                // a piece of the delimiter
                let cs: Vec<char> = d.chars().collect();
                let k = if cs.is_empty() { 0 } else { s.below(cs.len()) + 1 };
                if s.pct(50) {
                    o.extend(&cs[..k])
                } else {
                    o.extend(&cs[cs.len() - k..])
                }
            }
            1 => o.push_str(s.pick(&["xy", "z", "Q", "ß"])),
            2 => o.push_str(&pd_rt::texts::free(s).chars().take(2).collect::<String>()),
            _ => o.push_str(s.pick(BITS)),
        }
    }
    o
}
fn len(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 1]) {
        0 => s.below(4),
        1 => s.below(8),
        _ => s.below(40),
    }
}
fn words(s: &mut Src, d: &str) -> Vec<String> {
    let n = len(s);
    (0..n).map(|_| word(s, d)).collect()
}
/// joined texts, or delimiters, their pieces and items in any order
fn text(s: &mut Src, d: &str, item: fn(&mut Src) -> String) -> String {
    if s.pct(65) {
        let n = len(s);
        let v: Vec<String> = (0..n).map(|_| item(s)).collect();
        let mut t = join_ref(&v, d);
        match s.below(8) {
            0 => t.push_str(d),
            1 => t.insert_str(0, d),
            2 => {
                let cs: Vec<char> = t.chars().collect();
                if !cs.is_empty() {
                    let i = s.below(cs.len());
                    t = cs[..i].iter().chain(&cs[i + 1..]).collect();
                }
            }
            _ => {}
        }
        return t;
    }
    let n = len(s);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(3) {
            0 => o.push_str(d),
            1 => o.push_str(&item(s)),
            _ => o.push_str(&word(s, d)),
        }
    }
    o
}

// ------------------------------------------------------------------------------------------------ plumbing
struct W<'a, F, T: ?Sized>(&'a F, &'a T);
impl<F: DisplayFormat<T>, T: ?Sized> fmt::Display for W<'_, F, T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.write(f, self.1)
    }
}
fn printed<F: DisplayFormat<T>, T: ?Sized>(fm: &F, v: &T) -> String {
    caught(|| {
        let mut s = String::new();
        write!(s, "{}", W(fm, v)).map(|_| s)
    })
}
fn want_text(v: &[String], d: &str) -> String {
    format!("{:?}", Ok::<_, fmt::Error>(join_ref(v, d)))
}
macro_rules! printing {
    ($out:ident, $what:literal, $d:expr, $v:expr, $items:expr, $nt:expr) => {{
        let v = $v;
        let d: &str = $d;
        let items: Vec<String> = $items;
        let want = want_text(&items, d);
        let shown = format!("{d:?} {items:?}");
        let f = delimiter(d);
        $out.push(Case::new(concat!("print/", $what, "/delimiter"), shown.clone(), want.clone(), printed(&f, v), $nt));
        let f = join(fmt(), d);
        $out.push(Case::new(concat!("print/", $what, "/join"), shown, want, printed(&f, v), $nt));
    }};
}

fn print_words(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let v = words(s, &d);
    let nt = v.len() > 1;
    printing!(out, "Vec", &d, &v, v.clone(), nt);
    printing!(out, "slice", &d, &v[..], v.clone(), nt);
    let q: VecDeque<String> = v.iter().cloned().collect();
    printing!(out, "VecDeque", &d, &q, v.clone(), nt);
    let q: LinkedList<String> = v.iter().cloned().collect();
    printing!(out, "LinkedList", &d, &q, v.clone(), nt);
    let q: BTreeSet<String> = v.iter().cloned().collect();
    printing!(out, "BTreeSet", &d, &q, q.iter().cloned().collect(), nt);
    let q: HashSet<String> = v.iter().cloned().collect();
    printing!(out, "HashSet", &d, &q, q.iter().cloned().collect(), nt);
    let q: Option<String> = v.first().cloned();
    printing!(out, "Option", &d, &q, q.iter().cloned().collect(), q.is_some());
    if v.len() >= 3 {
        let q: [String; 3] = [v[0].clone(), v[1].clone(), v[2].clone()];
        printing!(out, "array", &d, &q, q.to_vec(), true);
    }
    let q: [String; 0] = [];
    printing!(out, "empty array", &d, &q, vec![], false);
}
fn print_others(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let n = len(s);
    let v: Vec<i32> = (0..n).map(|_| s.next() as i32 >> s.below(32)).collect();
    printing!(out, "i32", &d, &v, v.iter().map(|x| x.to_string()).collect(), n > 1);
    let v: Vec<f64> = (0..n).map(|_| f64::from_bits((s.next() as u64) << 32)).collect();
    printing!(out, "f64", &d, &v, v.iter().map(|x| x.to_string()).collect(), n > 1);
    let v: Vec<char> = (0..n).map(|_| s.ch("a,b;é日 \n{}")).collect();
    printing!(out, "char", &d, &v, v.iter().map(|x| x.to_string()).collect(), n > 1);
    let v: Vec<&str> = (0..n).map(|_| *s.pick(BITS)).collect();
    printing!(out, "&str", &d, &v, v.iter().map(|x| x.to_string()).collect(), n > 1);
    let v: Vec<Box<str>> = v.iter().map(|x| (*x).into()).collect();
    printing!(out, "Box<str>", &d, &v, v.iter().map(|x| x.to_string()).collect(), n > 1);
}

// ------------------------------------------------------------------------------------------------ parsing
macro_rules! parsing {
    ($out:ident, $what:literal, $d:expr, $s:expr, $item:ty, $coll:ty) => {{
        let (d, s): (&str, &str) = ($d, $s);
        let pieces = split_ref(s, d);
        let want: Result<$coll, _> = pieces.iter().map(|p| p.parse::<$item>()).collect();
        let nt = pieces.len() > 1;
        let shown = format!("{d:?} {s:?}");
        let f = delimiter::<$item>(d);
        let got = caught(|| FromStrFormat::<$coll>::parse(&f, s));
        $out.push(Case::new(concat!("parse/", $what, "/delimiter"), shown.clone(), format!("{want:?}"), got, nt));
        let f = join::<$item, _>(fmt(), d);
        let got = caught(|| FromStrFormat::<$coll>::parse(&f, s));
        $out.push(Case::new(concat!("parse/", $what, "/join"), shown, format!("{want:?}"), got, nt));
    }};
}
fn parse_words(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let t = text(s, &d, |s| pd_rt::texts::free(s).chars().take(4).collect());
    parsing!(out, "String", &d, &t, String, Vec<String>);
    parsing!(out, "VecDeque", &d, &t, String, VecDeque<String>);
    parsing!(out, "LinkedList", &d, &t, String, LinkedList<String>);
    parsing!(out, "BTreeSet", &d, &t, String, BTreeSet<String>);
    parsing!(out, "Box", &d, &t, String, Box<[String]>);
    parsing!(out, "Rc", &d, &t, String, std::rc::Rc<[String]>);
    // a hash set shows its items in its own order
    let want: BTreeSet<String> = split_ref(&t, &d).into_iter().collect();
    let f = delimiter::<String>(&d);
    let got: Result<HashSet<String>, _> = f.parse(&t);
    let got: Result<BTreeSet<String>, std::convert::Infallible> = got.map(|s| s.into_iter().collect());
    out.push(Case::new("parse/HashSet", format!("{d:?} {t:?}"), format!("{:?}", Ok::<_, ()>(want)), format!("{got:?}"), true));
}
fn parse_others(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let t = text(s, &d, |s| (s.next() as i32 >> s.below(32)).to_string());
    parsing!(out, "i32", &d, &t, i32, Vec<i32>);
    parsing!(out, "i32 in BTreeSet", &d, &t, i32, BTreeSet<i32>);
    let t = text(s, &d, |s| (s.below(300)).to_string());
    parsing!(out, "u8", &d, &t, u8, VecDeque<u8>);
    let t = text(s, &d, |s| s.ch("ab,;é日 \n{}").to_string());
    parsing!(out, "char", &d, &t, char, Vec<char>);
    parsing!(out, "chars to String", &d, &t, char, String);
    let t = text(s, &d, |s| s.pick(&["true", "false", "True"]).to_string());
    parsing!(out, "bool", &d, &t, bool, LinkedList<bool>);
    let t = text(s, &d, |s| pd_rt::texts::float(s).chars().take(12).collect());
    parsing!(out, "f64", &d, &t, f64, Vec<f64>);
}
fn round_trip(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let v = words(s, &d);
    if v.is_empty() {
        return;
    }
    let own = split_ref(&join_ref(&v, &d), &d) == v;
    let f = delimiter::<String>(&d);
    let got = caught(|| {
        let t = format!("{}", W(&f, &v));
        FromStrFormat::<Vec<String>>::parse(&f, &t)
    });
    if own {
        out.push(Case::new("roundtrip/String", format!("{d:?} {v:?}"), format!("{:?}", Ok::<_, ()>(&v)), got, v.len() > 1));
    } else {
        out.push(Case::new("roundtrip/delimiter in an item", "", String::new(), String::new(), false));
    }
    let n: Vec<i64> = (0..v.len()).map(|_| s.next() as i64 - (1 << 31)).collect();
    let texts: Vec<String> = n.iter().map(|x| x.to_string()).collect();
    let own = split_ref(&join_ref(&texts, &d), &d) == texts;
    if own {
        let f = delimiter::<i64>(&d);
        let got = caught(|| {
            let t = format!("{}", W(&f, &n));
            FromStrFormat::<Vec<i64>>::parse(&f, &t)
        });
        out.push(Case::new("roundtrip/i64", format!("{d:?} {n:?}"), format!("{:?}", Ok::<_, ()>(&n)), got, n.len() > 1));
    }
}

// ------------------------------------------------------------------------------------------------ large ones
/// says where two lists differ
fn same<T: PartialEq + fmt::Debug>(want: &[T], got: &[T]) -> String {
    if want == got {
        return "same".into();
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let cut = |x: Option<&T>| format!("{x:?}").chars().take(60).collect::<String>();
    format!("{} instead of {} items, item {i}: {} instead of {}", got.len(), want.len(), cut(got.get(i)), cut(want.get(i)))
}
/// a few items over and over, long items, long delimiters
fn large(s: &mut Src, out: &mut Vec<Case>) {
    if !s.pct(8) {
        return;
    }
    let mut d = delim(s);
    if s.pct(25) {
        d = d.repeat(1 + s.below(200));
    }
    let mut base: Vec<String> = (0..1 + s.below(6)).map(|_| word(s, &d)).collect();
    if s.pct(25) {
        let i = s.below(base.len());
        base[i] = base[i].repeat(1 << s.below(11));
    }
    let most = (200_000 / (1 + d.len() + base.iter().map(|x| x.len()).max().unwrap_or(0))).clamp(2, 5000);
    let n = [s.below(12), 120 + s.below(20), 250 + s.below(20), 1020 + s.below(10), 4090 + s.below(12), s.below(5000)][s.below(6)].min(most);
    let mut v: Vec<String> = (0..n).map(|i| base[i % base.len()].clone()).collect();
    if n > 0 && s.pct(50) {
        v[n - 1] = word(s, &d);
    }
    let shown = format!("{d:?} {base:?} over and over, {n} items, the last one {:?}", v.last());
    let t = join_ref(&v, &d);
    let f = delimiter::<String>(&d);
    let got: String = W(&f, &v).to_string();
    out.push(Case::new("large/print", &*shown, "same".into(), same(t.as_bytes(), got.as_bytes()), true));
    let pieces = split_ref(&t, &d);
    let got: Vec<String> = f.parse(&t).unwrap();
    out.push(Case::new("large/parse", &*shown, "same".into(), same(&pieces, &got), true));
    // one bad item among good ones
    let bad = if s.pct(50) { Some(s.below(n + 1)) } else { None };
    let d = if d.is_empty() || d.contains(|c: char| c.is_ascii_digit() || c == '-' || c == '+') { ",".to_string() } else { d };
    let t = join_ref(&(0..n).map(|i| if Some(i) == bad { "300".into() } else { (i % 256).to_string() }).collect::<Vec<_>>(), &d);
    let got: Option<Vec<u8>> = delimiter::<u8>(&d).parse(&t).ok();
    let want = if n == 0 || bad.is_some_and(|b| b < n) { None } else { Some((0..n).map(|i| i as u8).collect::<Vec<_>>()) };
    let r = match (&want, &got) {
        (Some(w), Some(g)) => same(w, g),
        _ if want.is_some() == got.is_some() => "same".into(),
        _ => format!("accepted: {}", got.is_some()),
    };
    out.push(Case::new("large/numbers", format!("{d:?} 0 1 2 .. {n} items, bad item {bad:?}"), "same".into(), r, true));
}

// ------------------------------------------------------------------------------------------------ item formats
fn item_formats(s: &mut Src, out: &mut Vec<Case>) {
    let (d, e) = (delim(s), delim(s));
    // lists of lists
    let n = len(s).min(5);
    let v: Vec<Vec<String>> = (0..n).map(|_| words(s, &d)).collect();
    let inner: Vec<String> = v.iter().map(|x| join_ref(x, &e)).collect();
    let shown = format!("{d:?} {e:?} {v:?}");
    let f = join::<Vec<String>, _>(delimiter::<String>(&e), &d);
    out.push(Case::new("nested/print", shown, want_text(&inner, &d), printed(&f, &v), n > 1));
    let t = text(s, &d, |s| pd_rt::texts::free(s).chars().take(4).collect());
    let want: Vec<Vec<String>> = split_ref(&t, &d).iter().map(|x| split_ref(x, &e)).collect();
    let got = caught(|| FromStrFormat::<Vec<Vec<String>>>::parse(&f, &t));
    out.push(Case::new("nested/parse", format!("{d:?} {e:?} {t:?}"), format!("{:?}", Ok::<_, ()>(&want)), got, want.len() > 1));
    let t = text(s, &d, |s| (s.below(1000)).to_string());
    let want: Result<Vec<Vec<u16>>, _> = split_ref(&t, &d).iter().map(|x| split_ref(x, &e).iter().map(|y| y.parse::<u16>()).collect()).collect();
    let f = join::<Vec<u16>, _>(join::<u16, _>(fmt(), &e), &d);
    let got = caught(|| FromStrFormat::<Vec<Vec<u16>>>::parse(&f, &t));
    out.push(Case::new("nested/parse numbers", format!("{d:?} {e:?} {t:?}"), format!("{want:?}"), got, true));
    // a format of one's own
    let n = len(s);
    let v: Vec<u32> = (0..n).map(|_| s.next() >> s.below(32)).collect();
    let f = join::<u32, _>(pd_rt::w::Hex, &d);
    let want: Vec<String> = v.iter().map(|x| format!("{x:x}")).collect();
    out.push(Case::new("own format/print", format!("{d:?} {v:?}"), want_text(&want, &d), printed(&f, &v), n > 1));
    let t = text(s, &d, |s| format!("{:x}", s.next() >> s.below(32)));
    let want: Option<Vec<u32>> = split_ref(&t, &d).iter().map(|x| u32::from_str_radix(x, 16).ok()).collect();
    let got = caught(|| FromStrFormat::<Vec<u32>>::parse(&f, &t).ok());
    out.push(Case::new("own format/parse", format!("{d:?} {t:?}"), format!("{want:?}"), got, true));
}

/// under a formatter with options: the items as the item format prints them then, and the delimiters as they are
fn with_options(k: usize, x: &dyn fmt::Display) -> String {
    match k {
        0 => format!("{x:3}"),
        1 => format!("{x:<9}"),
        2 => format!("{x:*^12}"),
        3 => format!("{x:.0}"),
        4 => format!("{x:.1}"),
        5 => format!("{x:>4.2}"),
        6 => format!("{x:+}"),
        7 => format!("{x:#}"),
        8 => format!("{x:06}"),
        9 => format!("{x:é>7}"),
        10 => format!("{x:40}"),
        _ => format!("{x:+#020.3}"),
    }
}
fn spec_text(k: usize, x: &dyn fmt::Display) -> String {
    caught(|| with_options(k, x))
}
struct Flags;
impl DisplayFormat<i32> for Flags {
    fn write(&self, f: &mut Formatter, x: &i32) -> fmt::Result {
        fmt::Display::fmt(x, f)
    }
}
struct Padded;
impl DisplayFormat<String> for Padded {
    fn write(&self, f: &mut Formatter, x: &String) -> fmt::Result {
        f.pad(x)
    }
}
fn options(s: &mut Src, out: &mut Vec<Case>) {
    let (d, k) = (delim(s), s.below(12));
    let v = words(s, &d);
    let nt = v.len() > 1;
    let shown = format!("{k} {d:?} {v:?}");
    let want = |items: Vec<String>| format!("{:?}", join_ref(&items, &d));
    let one = |x: &dyn fmt::Display| with_options(k, x);
    let f = delimiter::<String>(&d);
    out.push(Case::new("options/delimiter", &*shown, want(v.iter().map(|x| one(&W(&fmt(), x))).collect()), spec_text(k, &W(&f, &v)), nt));
    let f = join::<String, _>(Padded, &d);
    out.push(Case::new("options/padded", &*shown, want(v.iter().map(|x| one(x)).collect()), spec_text(k, &W(&f, &v)), nt));
    let n: Vec<i32> = v.iter().map(|x| x.len() as i32 - 2).collect();
    let f = join::<i32, _>(Flags, &d);
    out.push(Case::new("options/numbers", format!("{k} {d:?} {n:?}"), want(n.iter().map(|x| one(x)).collect()), spec_text(k, &W(&f, &n)), nt));
    let e = delim(s);
    let vv: Vec<Vec<i32>> = n.iter().map(|x| vec![*x; (*x).unsigned_abs() as usize % 4]).collect();
    let f = join::<Vec<i32>, _>(join::<i32, _>(Flags, &e), &d);
    let items = vv.iter().map(|x| join_ref(&x.iter().map(|x| one(x)).collect::<Vec<_>>(), &e)).collect();
    out.push(Case::new("options/nested", format!("{k} {d:?} {e:?} {vv:?}"), want(items), spec_text(k, &W(&f, &vv)), nt));
}
fn print_function(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let v = words(s, &d);
    let bad = if s.pct(35) { Some(s.below(v.len() + 1)) } else { None };
    // the function sees every item once, in order, until it fails
    let seen: RefCell<Vec<*const String>> = RefCell::new(vec![]);
    let item = fmt_display(|f: &mut Formatter, x: &String| {
        seen.borrow_mut().push(x);
        if Some(seen.borrow().len() - 1) == bad {
            return Err(fmt::Error);
        }
        write!(f, "[{x}]")
    });
    let fm = join::<String, _>(item, &d);
    let mut dest = String::new();
    let r = caught(|| write!(dest, "{}", W(&fm, &v)));
    let upto = bad.map_or(v.len(), |b| b.min(v.len()));
    let items: Vec<String> = v.iter().map(|x| format!("[{x}]")).collect();
    let shown = format!("{d:?} {v:?} failing at {bad:?}");
    let fails = bad.is_some_and(|b| b < v.len());
    out.push(Case::new("fmt_display/result", &*shown, format!("{:?}", if fails { Err(fmt::Error) } else { Ok(()) }), r, v.len() > 1));
    let mut want = join_ref(&items[..upto], &d);
    if fails && upto > 0 {
        want.push_str(&d);
    }
    out.push(Case::new("fmt_display/text", &*shown, want, dest, v.len() > 1));
    let calls: Vec<*const String> = v.iter().take(if fails { upto + 1 } else { upto }).map(|x| x as *const String).collect();
    out.push(Case::new("fmt_display/calls", &*shown, format!("{calls:?}"), format!("{:?}", seen.take()), v.len() > 1));
    // on its own: one call, with the formatter it is given
    let n = s.next() as i32;
    let count = Cell::new(0);
    let alone = fmt_display(|f: &mut Formatter, x: &i32| {
        count.set(count.get() + 1);
        if s_odd(*x) {
            return Err(fmt::Error);
        }
        write!(f, "{:?}/{:?}/{}/{}/{}/{:?}/{x}", f.width(), f.precision(), f.alternate(), f.sign_plus(), f.sign_aware_zero_pad(), f.fill())
    });
    let w = s.below(30);
    let p = s.below(9);
    let mut a = String::new();
    let (r, want) = match s.below(4) {
        0 => (write!(a, "{}", W(&alone, &n)), format!("None/None/false/false/false/' '/{n}")),
        1 => (write!(a, "{:w$}", W(&alone, &n)), format!("Some({w})/None/false/false/false/' '/{n}")),
        2 => (write!(a, "{:+#0w$.p$}", W(&alone, &n)), format!("Some({w})/Some({p})/true/true/true/' '/{n}")),
        _ => (write!(a, "{:é>w$.p$}", W(&alone, &n)), format!("Some({w})/Some({p})/false/false/false/'é'/{n}")),
    };
    let (wr, want) = if s_odd(n) { (Err(fmt::Error), String::new()) } else { (Ok(()), want) };
    out.push(Case::new("fmt_display/alone", n.to_string(), format!("1 {wr:?} {want}"), format!("{} {r:?} {a}", count.get()), true));
    // unsized values
    let f = fmt_display(|f: &mut Formatter, x: &str| write!(f, "<{x}>"));
    let t = word(s, &d);
    out.push(Case::new("fmt_display/str", &*t, format!("{:?}", Ok::<_, fmt::Error>(format!("<{t}>"))), printed(&f, &*t), true));
}
fn s_odd(n: i32) -> bool {
    n % 3 == 1
}
fn parse_function(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let t = text(s, &d, |s| pd_rt::texts::free(s).chars().take(3).collect());
    let pieces = split_ref(&t, &d);
    let bad = if s.pct(40) { Some(s.below(pieces.len() + 2)) } else { None };
    let seen: RefCell<Vec<String>> = RefCell::new(vec![]);
    let item = fmt_from_str(|x: &str| {
        seen.borrow_mut().push(x.to_string());
        let i = seen.borrow().len() - 1;
        if Some(i) == bad {
            Err(format!("bad {x:?} at {i}"))
        } else {
            Ok(format!("{x}#{i}"))
        }
    });
    let fm = join::<String, _>(item, &d);
    let got = caught(|| FromStrFormat::<Vec<String>>::parse(&fm, &t));
    let want: Result<Vec<String>, String> = pieces
        .iter()
        .enumerate()
        .map(|(i, x)| if Some(i) == bad { Err(format!("bad {x:?} at {i}")) } else { Ok(format!("{x}#{i}")) })
        .collect();
    let shown = format!("{d:?} {t:?} failing at {bad:?}");
    out.push(Case::new("fmt_from_str/result", &*shown, format!("{want:?}"), got, pieces.len() > 1));
    let seen = seen.take();
    let stop = bad.map_or(pieces.len(), |b| (b + 1).min(pieces.len()));
    let ok = seen.len() >= stop && seen.len() <= pieces.len() && seen[..] == pieces[..seen.len()];
    out.push(Case::new("fmt_from_str/calls", &*shown, "every piece once, in order".into(), if ok { "every piece once, in order".into() } else { format!("{seen:?}") }, true));
    let count = Cell::new(0);
    let alone = fmt_from_str(|x: &str| {
        count.set(count.get() + 1);
        if x.len() % 3 == 1 {
            Err(x.to_string())
        } else {
            Ok(x.len())
        }
    });
    let got = caught(|| alone.parse(&t));
    let want: Result<usize, String> = if t.len() % 3 == 1 { Err(t.clone()) } else { Ok(t.len()) };
    out.push(Case::new("fmt_from_str/alone", &*t, format!("1 {want:?}"), format!("{} {got}", count.get()), true));
}

// ------------------------------------------------------------------------------------------------ bad destinations
struct Limited {
    log: String,
    left: usize,
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.log.push_str(s);
        Ok(())
    }
}
fn destinations(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    let v = words(s, &d);
    let full = join_ref(&v, &d);
    let limit = s.below(full.len() + 2);
    let mut w = Limited { log: String::new(), left: limit };
    let f = delimiter::<String>(&d);
    let r = caught(|| write!(w, "{}", W(&f, &v)));
    let shown = format!("{d:?} {v:?} after {limit} bytes");
    let want = if full.len() > limit { "Err(Error)" } else { "Ok(())" };
    out.push(Case::new("destination/result", &*shown, want.into(), r, full.len() > limit));
    let prefix = if full.len() > limit { full.starts_with(&w.log) } else { full == w.log };
    out.push(Case::new("destination/text", &*shown, "a prefix".into(), if prefix { "a prefix".into() } else { w.log }, full.len() > limit));
}

// ------------------------------------------------------------------------------------------------ derived types
thread_local!(static CUR: Cell<&'static str> = const { Cell::new(",") });
fn cur() -> &'static str {
    CUR.with(|c| c.get())
}
fn set(d: &str) {
    let d: &'static str = Box::leak(d.to_string().into_boxed_str());
    CUR.with(|c| c.set(d));
}
#[derive(Display, FromStr, Debug, PartialEq, Clone)]
struct L(#[display(with = delimiter(cur()))] Vec<String>);
#[derive(Display, FromStr, Debug, PartialEq, Clone)]
#[display("[{list}]")]
struct B {
    #[display(with = join(fmt(), cur()))]
    list: VecDeque<i32>,
}
#[derive(Display, FromStr, Debug, PartialEq, Clone)]
enum E {
    #[display("set {0}")]
    Set(#[display(with = delimiter::<u8>(cur()))] BTreeSet<u8>),
    #[display("{0} end")]
    Chars(#[display(with = delimiter::<char>(cur()))] Vec<char>),
}
#[derive(Display, FromStr, Debug, PartialEq, Clone)]
struct O {
    #[display(opt, with = delimiter(cur()))]
    a: Option<Vec<u32>>,
}
#[derive(Display, FromStr, Debug, PartialEq, Clone)]
#[display("{a}")]
struct Fn2 {
    #[display(with = join(fmt_display(angle), cur()))]
    #[from_str(with = join(fmt_from_str(unangle), cur()))]
    a: Vec<u32>,
}
#[derive(Display, FromStr, Debug, PartialEq, Clone)]
struct G<T>(#[display(with = delimiter(cur()))] Vec<T>)
where
    T: std::fmt::Display + std::str::FromStr;
#[derive(Display, Debug, PartialEq, Clone)]
struct Arr<const N: usize>(#[display(with = delimiter(cur()))] [i32; N]);

fn angle(f: &mut Formatter, x: &u32) -> fmt::Result {
    write!(f, "<{x}>")
}
fn unangle(s: &str) -> Result<u32, fmt::Error> {
    s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).and_then(|s| s.parse::<u32>().ok()).ok_or(fmt::Error)
}
fn back<T: std::str::FromStr + fmt::Debug>(s: &str) -> String {
    caught(|| s.parse::<T>().ok())
}
fn derived(s: &mut Src, out: &mut Vec<Case>) {
    let d = delim(s);
    set(&d);
    let v = words(s, &d);
    let nt = v.len() > 1;
    let shown = format!("{d:?} {v:?}");
    out.push(Case::new("derived/print", &*shown, format!("{:?}", join_ref(&v, &d)), caught(|| L(v.clone()).to_string()), nt));
    let t = text(s, &d, |s| pd_rt::texts::free(s).chars().take(3).collect());
    let shown = format!("{d:?} {t:?}");
    out.push(Case::new("derived/parse", &*shown, format!("{:?}", Some(L(split_ref(&t, &d)))), back::<L>(&t), true));
    out.push(Case::new("derived/generic", &*shown, format!("{:?}", Some(G(split_ref(&t, &d)))), back::<G<String>>(&t), true));
    let n = len(s);
    let v: VecDeque<i32> = (0..n).map(|_| s.next() as i32 >> s.below(32)).collect();
    let texts: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    let body = join_ref(&texts, &d);
    out.push(Case::new("derived/brackets", format!("{d:?} {v:?}"), format!("{:?}", format!("[{body}]")), caught(|| B { list: v.clone() }.to_string()), n > 1));
    let t = text(s, &d, |s| (s.next() as i32 >> s.below(32)).to_string());
    let list: Option<VecDeque<i32>> = split_ref(&t, &d).iter().map(|x| x.parse().ok()).collect();
    let t = if s.pct(90) { format!("[{t}]") } else { t };
    let want = if t.starts_with('[') && t.ends_with(']') && t.len() > 1 {
        let t = &t[1..t.len() - 1];
        split_ref(t, &d).iter().map(|x| x.parse().ok()).collect::<Option<VecDeque<i32>>>().map(|list| B { list })
    } else {
        None
    };
    let _ = list;
    out.push(Case::new("derived/brackets parse", format!("{d:?} {t:?}"), format!("{want:?}"), back::<B>(&t), true));
    // an enum with two lists
    let b: BTreeSet<u8> = v.iter().map(|x| *x as u8).collect();
    let texts: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    out.push(Case::new("derived/enum", format!("{d:?} {b:?}"), format!("{:?}", format!("set {}", join_ref(&texts, &d))), caught(|| E::Set(b.clone()).to_string()), n > 1));
    let t = match s.below(3) {
        0 => format!("set {}", text(s, &d, |s| s.below(300).to_string())),
        1 => format!("{} end", text(s, &d, |s| s.ch("abc,;é").to_string())),
        _ => format!("set {} end", text(s, &d, |s| s.ch("abc,;é").to_string())),
    };
    let want = t
        .strip_prefix("set ")
        .and_then(|x| split_ref(x, &d).iter().map(|y| y.parse().ok()).collect::<Option<BTreeSet<u8>>>())
        .map(E::Set)
        .or_else(|| t.strip_suffix(" end").and_then(|x| split_ref(x, &d).iter().map(|y| y.parse().ok()).collect::<Option<Vec<char>>>()).map(E::Chars));
    out.push(Case::new("derived/enum parse", format!("{d:?} {t:?}"), format!("{want:?}"), back::<E>(&t), want.is_some()));
    // optional lists
    let o = if s.pct(30) { None } else { Some(v.iter().map(|x| *x as u32).collect::<Vec<u32>>()) };
    let texts: Vec<String> = o.iter().flatten().map(|x| x.to_string()).collect();
    out.push(Case::new("derived/opt", format!("{d:?} {o:?}"), format!("{:?}", join_ref(&texts, &d)), caught(|| O { a: o.clone() }.to_string()), n > 1));
    let t = if s.pct(20) { String::new() } else { text(s, &d, |s| s.next().to_string()) };
    let want = if t.is_empty() { Some(O { a: None }) } else { split_ref(&t, &d).iter().map(|x| x.parse().ok()).collect::<Option<Vec<u32>>>().map(|a| O { a: Some(a) }) };
    out.push(Case::new("derived/opt parse", format!("{d:?} {t:?}"), format!("{want:?}"), back::<O>(&t), true));
    // functions
    let a: Vec<u32> = v.iter().map(|x| *x as u32).collect();
    let texts: Vec<String> = a.iter().map(|x| format!("<{x}>")).collect();
    out.push(Case::new("derived/function", format!("{d:?} {a:?}"), format!("{:?}", join_ref(&texts, &d)), caught(|| Fn2 { a: a.clone() }.to_string()), n > 1));
    let t = text(s, &d, |s| format!("<{}>", s.next() >> s.below(32)));
    let want = split_ref(&t, &d)
        .iter()
        .map(|x| x.strip_prefix('<').and_then(|x| x.strip_suffix('>')).and_then(|x| x.parse().ok()))
        .collect::<Option<Vec<u32>>>()
        .map(|a| Fn2 { a });
    out.push(Case::new("derived/function parse", format!("{d:?} {t:?}"), format!("{want:?}"), back::<Fn2>(&t), true));
    let arr = Arr([s.next() as i32, s.next() as i32 >> 20, -1]);
    let texts: Vec<String> = arr.0.iter().map(|x| x.to_string()).collect();
    out.push(Case::new("derived/array", format!("{d:?} {arr:?}"), format!("{:?}", join_ref(&texts, &d)), caught(|| arr.to_string()), true));
    out.push(Case::new("derived/empty array", format!("{d:?}"), "\"\"".into(), caught(|| Arr::<0>([]).to_string()), false));
}

pub fn entry() -> Vec<Probe> {
    vec![
        probe("print words", print_words),
        probe("print others", print_others),
        probe("parse words", parse_words),
        probe("parse others", parse_others),
        probe("round trip", round_trip),
        probe("large lists", large),
        probe("item formats", item_formats),
        probe("print options", options),
        probe("print function", print_function),
        probe("parse function", parse_function),
        probe("destinations", destinations),
        probe("derived", derived),
    ]
}
