//! C18: character names: text, length, order.
use replay::Run;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::{self, Write};
use std::process::Command;
use unic_ucd::{GeneralCategory, Name};

const L: [&str; 19] = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
const V: [&str; 21] = ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"];
const T: [&str; 28] = [
    "", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H",
];
const NR2: [(&str, &[(u32, u32)]); 4] = [
    ("CJK UNIFIED IDEOGRAPH-", &[(0x3400, 0x4DB5), (0x4E00, 0x9FEA), (0x20000, 0x2A6D6), (0x2A700, 0x2B734), (0x2B740, 0x2B81D), (0x2B820, 0x2CEA1), (0x2CEB0, 0x2EBE0)]),
    ("TANGUT IDEOGRAPH-", &[(0x17000, 0x187EC)]),
    ("NUSHU CHARACTER-", &[(0x1B170, 0x1B2FB)]),
    ("CJK COMPATIBILITY IDEOGRAPH-", &[(0xF900, 0xFA6D), (0xFA70, 0xFAD9), (0x2F800, 0x2FA1D)]),
];

/// The elements the order compares, and the text, of a character with a derived name.
fn derived(c: u32) -> Option<(Vec<String>, String)> {
    if (0xAC00..=0xD7A3).contains(&c) {
        let s = (c - 0xAC00) as usize;
        let mut k = vec!["HANGUL SYLLABLE ".to_string(), L[s / 588].to_string(), V[s % 588 / 28].to_string()];
        if s % 28 != 0 {
            k.push(T[s % 28].to_string());
        }
        let t = k.concat();
        return Some((k, t));
    }
    for (p, rs) in &NR2 {
        if rs.iter().any(|r| r.0 <= c && c <= r.1) {
            return Some((vec![p.to_string(), std::char::from_u32(c).unwrap().to_string()], format!("{}{:04X}", p, c)));
        }
    }
    None
}

fn key(c: char, n: &Name) -> Vec<String> {
    match (derived(c as u32), n) {
        (Some((k, _)), _) => k,
        (None, Name::NR3(p)) => p.iter().map(|x| x.to_string()).collect(),
        _ => vec![],
    }
}

/// A writer that fails at its `left`-th write, and takes the following ones if `once`.
struct Failing {
    out: String,
    left: usize,
    failed: bool,
    once: bool,
}
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 && !(self.once && self.failed) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left = self.left.saturating_sub(1);
        self.out.push_str(s);
        Ok(())
    }
}

/// The names the Python interpreter's own character database gives (names never change once assigned).
fn python() -> HashMap<u32, String> {
    let prog = "import unicodedata as u\nfor c in range(0x110000):\n n=u.name(chr(c),None)\n if n: print('%x;%s'%(c,n))";
    let mut m = HashMap::new();
    if let Ok(o) = Command::new("python3").arg("-c").arg(prog).output() {
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let mut x = l.splitn(2, ';');
            if let (Some(c), Some(n)) = (x.next(), x.next()) {
                if let Ok(c) = u32::from_str_radix(c, 16) {
                    m.insert(c, n.to_string());
                }
            }
        }
    }
    m
}

fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "name", |c, h| {
        if let Some(n) = unic_ucd::Name::of(c) {
            let _ = std::fmt::Write::write_fmt(h, format_args!("{}", n));
        }
    });
    let py = python();
    r.part("every character (exhaustive): which rule, the text, the length in bytes, no name twice; explicit names against the Python interpreter's character database where that has one");
    r.sample(("names in Python's database", py.len()));
    let mut all: Vec<(char, Name)> = vec![];
    let mut by_text: HashMap<String, char> = HashMap::new();
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let n = match r.real("panic", c, || Name::of(c)) {
            Some(n) => n,
            None => continue,
        };
        r.count(n.is_some());
        let want = derived(c as u32).map(|x| x.1).or_else(|| if GeneralCategory::of(c) == GeneralCategory::Unassigned { None } else { py.get(&(c as u32)).cloned() });
        let n = match n {
            Some(n) => n,
            None => {
                r.same("text", c, None, want);
                continue;
            }
        };
        let text = match r.real("panic", c, || (n.to_string(), n.len())) {
            Some((t, l)) => {
                r.same("len", (c, &t), l, t.len());
                t
            }
            None => continue,
        };
        match n {
            Name::NR1(d) => r.check("rule", c, (0xAC00..=0xD7A3).contains(&(c as u32)) && d == c, "not a Hangul syllable's name"),
            Name::NR2(p, d) => r.check("rule", c, derived(c as u32).map_or(false, |x| x.0[0] == p) && d == c, "not an ideograph's name"),
            Name::NR3(p) => r.check("rule", c, derived(c as u32).is_none() && !p.is_empty() && p.iter().all(|x| !x.is_empty() && x.is_ascii() && !x.contains(' ')) && p.join(" ") == text, "not words joined by spaces"),
        };
        match want {
            Some(w) => {
                r.same("text", c, &text, &w);
            }
            None => {
                r.check("text", (c, &text), py.is_empty(), "a name for a character that has none");
            }
        }
        if let Some(d) = by_text.insert(text.clone(), c) {
            r.fail("twice", format!("{:?}", (c, d)), format!("both are named {:?}", text));
        }
        all.push((c, n));
    }
    r.part("a writer that fails at the first, second, ... write, once or from then on: an error is reported and nothing wrong is written before it");
    let nr1: Vec<usize> = (0..all.len()).filter(|&i| matches!(all[i].1, Name::NR1(_))).collect();
    let nr2: Vec<usize> = (0..all.len()).filter(|&i| matches!(all[i].1, Name::NR2(..))).collect();
    let nr3: Vec<usize> = (0..all.len()).filter(|&i| matches!(all[i].1, Name::NR3(_))).collect();
    if all.is_empty() || nr1.is_empty() || nr2.is_empty() || nr3.is_empty() {
        r.fail("rule", "every character".into(), "a rule is never used".into());
        return r.finish();
    }
    let any = |r: &mut Run| {
        let v = match r.rng.below(3) {
            0 => &nr1,
            1 => &nr2,
            _ => &nr3,
        };
        all[v[r.rng.below(v.len())]]
    };
    for _ in 0..20_000 {
        let (c, n) = any(&mut r);
        let text = n.to_string();
        let left = r.rng.below(12);
        let once = r.rng.below(2) == 0;
        let mut f = Failing { out: String::new(), left, failed: false, once };
        let res = write!(f, "{}", n);
        r.count(f.failed);
        r.check("write", (c, left, once), res.is_err() == f.failed, "an error of the writer is lost or made up");
        r.check("write", (c, left, once), f.failed || f.out == text, "another text than to_string");
    }
    r.part("the order on random triples of names and on neighbours: total, transitive, Equal exactly for ==, element by element");
    let mut i = 0usize;
    while r.time(95) || i < 3000 {
        i += 1;
        let (a, b) = (any(&mut r), any(&mut r));
        // a third one close to the first: the same leading consonant, prefix or first word is likely
        let c = {
            let p = all.binary_search_by_key(&a.0, |x| x.0).unwrap_or(0);
            let d = *r.rng.pick(&[1usize, 28, 588]);
            all[(p + d) % all.len()]
        };
        for &(x, y) in &[(a, b), (b, c), (a, c), (a, a), (b, a)] {
            let want = key(x.0, &x.1).cmp(&key(y.0, &y.1));
            r.count(want != Ordering::Equal);
            if let Some(got) = r.real("panic", (x.0, y.0), || (x.1.cmp(&y.1), x.1.partial_cmp(&y.1), x.1 == y.1)) {
                r.same("order", (x.0, y.0), got, (want, Some(want), want == Ordering::Equal));
            }
        }
        if i > 3_000_000 || r.enough() {
            break;
        }
    }
    r.finish()
}
