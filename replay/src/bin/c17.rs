//! C17: UTS #46 processing, ToASCII and ToUnicode, and the Bidi Rule of RFC 5893, from their text.
use replay::{Rng, Run};
use unic_idna::{to_ascii, to_unicode, Flags};
use unic_idna_mapping::Mapping;
use unic_idna_punycode::{decode_to_string, encode_str};
use unic_normal::StrNormalForm;
use unic_ucd::normal::is_combining_mark;
use unic_ucd::BidiClass::{self, *};

fn is(c: char, set: &[BidiClass]) -> bool {
    set.contains(&BidiClass::of(c))
}
fn bidi_rule(l: &[char]) -> bool {
    let neutral = [EuropeanNumber, EuropeanSeparator, CommonSeparator, EuropeanTerminator, OtherNeutral, BoundaryNeutral, NonspacingMark];
    let last = l.iter().rev().find(|c| !is(**c, &[NonspacingMark]));
    let all = |more: &[BidiClass]| l.iter().all(|c| is(*c, &neutral) || is(*c, more));
    let ends = |set: &[BidiClass]| last.map_or(false, |c| is(*c, set));
    match BidiClass::of(l[0]) {
        LeftToRight => all(&[LeftToRight]) && ends(&[LeftToRight, EuropeanNumber]),
        RightToLeft | ArabicLetter => {
            all(&[RightToLeft, ArabicLetter, ArabicNumber])
                && ends(&[RightToLeft, ArabicLetter, EuropeanNumber, ArabicNumber])
                && !(l.iter().any(|c| is(*c, &[EuropeanNumber])) && l.iter().any(|c| is(*c, &[ArabicNumber])))
        }
        _ => false,
    }
}
fn rtl(s: &str) -> bool {
    s.chars().any(|c| is(c, &[RightToLeft, ArabicLetter, ArabicNumber]))
}
fn valid(l: &str, bidi: bool, std3: bool, transitional: bool) -> bool {
    let v: Vec<char> = l.chars().collect();
    v.is_empty()
        || l.nfc().collect::<String>() == l
            && v[0] != '-'
            && v[v.len() - 1] != '-'
            && !is_combining_mark(v[0])
            && v.iter().all(|c| match Mapping::of(*c) {
                Mapping::Valid => true,
                Mapping::Deviation(_) => !transitional,
                Mapping::DisallowedStd3Valid => !std3,
                _ => false,
            })
            && (!bidi || bidi_rule(&v))
}
/// The converted name, and whether there is an error.
fn process(s: &str, std3: bool, transitional: bool) -> (String, bool) {
    let (mut mapped, mut bad) = (String::new(), false);
    for c in s.chars() {
        match Mapping::of(c) {
            Mapping::Valid => mapped.push(c),
            Mapping::Ignored => {}
            Mapping::Mapped(t) => mapped += t,
            Mapping::Deviation(t) => {
                if transitional {
                    mapped += t
                } else {
                    mapped.push(c)
                }
            }
            Mapping::Disallowed => {
                bad = true;
                mapped.push(c)
            }
            Mapping::DisallowedStd3Valid => {
                bad |= std3;
                mapped.push(c)
            }
            Mapping::DisallowedStd3Mapped(t) => {
                bad |= std3;
                mapped += t
            }
        }
    }
    let name: String = mapped.nfc().collect();
    let labels: Vec<(bool, Option<String>)> = name
        .split('.')
        .map(|l| if l.starts_with("xn--") { (true, decode_to_string(&l[4..])) } else { (false, Some(l.to_string())) })
        .collect();
    let bidi = labels.iter().any(|(_, l)| l.as_ref().map_or(false, |l| rtl(l))) || rtl(&name);
    let mut out = vec![];
    for (ace, l) in labels {
        match l {
            None => {
                bad = true;
                out.push(String::new())
            }
            Some(l) => {
                bad |= !valid(&l, bidi, std3, transitional && !ace);
                out.push(l)
            }
        }
    }
    (out.join("."), bad)
}
fn ascii(s: &str, std3: bool, transitional: bool, dns: bool) -> Option<String> {
    let (name, mut bad) = process(s, std3, transitional);
    let labels: Vec<String> = name
        .split('.')
        .map(|l| {
            if l.is_ascii() {
                l.to_string()
            } else {
                match encode_str(l) {
                    Some(x) => format!("xn--{}", x),
                    None => {
                        bad = true;
                        String::new()
                    }
                }
            }
        })
        .collect();
    let name = labels.join(".");
    if dns {
        let labels = if labels.len() > 1 && labels[labels.len() - 1].is_empty() { &labels[..labels.len() - 1] } else { &labels[..] };
        let total: usize = labels.iter().map(|l| l.len()).sum::<usize>() + labels.len() - 1;
        bad |= total > 253 || labels.iter().any(|l| l.is_empty() || l.len() > 63);
    }
    if bad {
        None
    } else {
        Some(name)
    }
}
fn one(r: &mut Run, s: &str) {
    for m in 0..8 {
        let (a, t, d) = (m & 1 > 0, m & 2 > 0, m & 4 > 0);
        let f = Flags { use_std3_ascii_rules: a, transitional_processing: t, verify_dns_length: d };
        let w = ascii(s, a, t, d);
        r.count(w.is_some() && w.as_ref().map(|w| w != s).unwrap_or(false));
        if let Some(g) = r.real("to-ascii", (s, m), || to_ascii(s, f).ok()) {
            r.same("to-ascii", (s, "use_std3_ascii_rules", a, "transitional", t, "verify_dns_length", d), g, w);
        }
        if let Some(g) = r.real("to-unicode", (s, m), || to_unicode(s, f)) {
            let (name, bad) = process(s, a, false);
            r.same("to-unicode", (s, "use_std3_ascii_rules", a), (g.0, g.1.is_err()), (name, bad));
        }
    }
}
struct Kinds(Vec<Vec<char>>);
fn kinds() -> Kinds {
    let mut k: Vec<Vec<char>> = vec![vec![]; 32];
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let i = match Mapping::of(c) {
            Mapping::Valid => match BidiClass::of(c) {
                LeftToRight => 0,
                RightToLeft => 1,
                ArabicLetter => 2,
                ArabicNumber => 3,
                EuropeanNumber => 4,
                NonspacingMark => 5,
                EuropeanSeparator => 6,
                CommonSeparator => 7,
                EuropeanTerminator => 8,
                OtherNeutral => 9,
                BoundaryNeutral => 10,
                _ => 11,
            },
            Mapping::Ignored => 12,
            Mapping::Mapped(t) => {
                if rtl(t) {
                    13
                } else if t.chars().count() > 1 {
                    14
                } else {
                    15
                }
            }
            Mapping::Deviation(_) => 16,
            Mapping::Disallowed => 17,
            Mapping::DisallowedStd3Valid => 18,
            Mapping::DisallowedStd3Mapped(t) => {
                if t.contains('.') {
                    20
                } else {
                    19
                }
            }
        };
        k[i].push(c);
    }
    k.retain(|v| !v.is_empty());
    Kinds(k)
}
fn any(g: &mut Rng, k: &Kinds) -> char {
    let v = g.below(k.0.len());
    *g.pick(&k.0[v])
}
fn label(g: &mut Rng, k: &Kinds, kinds: usize) -> String {
    // a label of a few kinds of character, so that many are valid
    let mut set: Vec<usize> = (0..kinds).map(|_| g.below(k.0.len())).collect();
    if g.below(3) == 0 {
        set = [vec![0, 4], vec![1, 4], vec![2, 3], vec![1, 5, 4], vec![2, 4, 5], vec![0, 5, 4], vec![1, 3, 4], vec![0], vec![1], vec![15], vec![16, 0]][g.below(11)].clone();
    }
    let n = if g.below(40) == 0 { 58 + g.below(8) } else { g.below(6) };
    (0..n)
        .map(|_| {
            let i = *g.pick(&set);
            match g.below(8) {
                0 => '-',
                1 => (b'a' + g.below(26) as u8) as char,
                2 if i == 0 => *g.pick(&['a', 'b', '1', '\u{e9}']),
                _ => *g.pick(&k.0[i]),
            }
        })
        .collect()
}
fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "idna_mapping", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_idna_mapping::Mapping::of(c)));
    });
    replay::data(&mut r, "bidi_class", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_ucd::BidiClass::of(c)));
    });
    replay::data(&mut r, "general_category_mark", |c, h| h.num(unic_ucd::normal::is_combining_mark(c) as u64));
    let k = kinds();
    r.part("fixed names: roots, empty labels, lengths at the limits, prefixes, every flag");
    let long: Vec<String> = vec![
        "a".repeat(63), "a".repeat(64), vec!["a".repeat(63); 3].join(".") + "." + &"b".repeat(61), vec!["a".repeat(63); 3].join(".") + "." + &"b".repeat(62),
        vec!["a".repeat(63); 3].join(".") + "." + &"b".repeat(61) + ".", "\u{e9}".repeat(40), "\u{e9}".repeat(80), format!("{}\u{e9}", "a".repeat(55)), format!("{}\u{e9}", "a".repeat(56)), format!("{}\u{e9}", "a".repeat(57)),
    ];
    for s in long.iter().map(|s| &s[..]).chain(["", ".", "..", "a.", ".a", "a..b", "xn--", "xn--a", "xn--a-", "xn---", "XN--A-", "xn--xn---epa", "-a", "a-", "\u{2135}a", "\u{5D0}a", "a.\u{5D0}", "1.\u{5D0}", "a.xn--4db", "xn--4db.1", "xn--a.xn--4db", "fa\u{df}.de", "xn--fa-hia.de", "\u{3c2}", "\u{200d}", "a\u{ad}b", "\u{ff0e}", "\u{3002}", "a\u{300}", "\u{300}", "xn--0-sfa", "a_b", "\u{2488}"].iter().copied()) {
        one(&mut r, s);
    }
    r.part("names of up to 4 labels of up to 65 characters of every mapping status and Bidi class, encoded or not, with every flag");
    while !r.over() && !r.enough() {
        let n = if r.rng.below(3) == 0 { 1 } else { r.rng.below(4) };
        let mut s = String::new();
        for i in 0..=n {
            if i > 0 {
                s.push(*r.rng.pick(&['.', '.', '.', '\u{3002}', '\u{ff0e}', '\u{ff61}']));
            }
            let kinds = 1 + r.rng.below(3);
            let l = label(&mut r.rng, &k, kinds);
            match r.rng.below(6) {
                0 => {
                    s += ["xn--", "XN--", "xn-", "x\u{ad}n--"][r.rng.below(4).min(r.rng.below(4))];
                    s += &encode_str(&l).unwrap_or_default();
                }
                1 => {
                    s += "xn--";
                    s += &encode_str(&process(&l, false, false).0).unwrap_or_default();
                    if r.rng.below(4) == 0 {
                        s.pop();
                    }
                }
                2 => s += &process(&l, false, false).0,
                3 => {
                    let c = any(&mut r.rng, &k);
                    s += &l;
                    s.push(c)
                }
                _ => s += &l,
            }
        }
        r.sample(&s);
        one(&mut r, &s);
    }
    r.finish()
}
