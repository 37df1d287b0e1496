//! C07: the composed normal forms.
use replay::Run;
#[path = "../inc/norm_ref.rs"]
#[allow(dead_code)]
mod norm_ref;
use norm_ref::*;
use std::collections::HashMap;
use unic_normal::StrNormalForm;

/// an iterator that is not `Chars`, and does not tell its length
struct It<'a>(&'a [char]);
impl<'a> Iterator for It<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let (c, t) = self.0.split_first()?;
        self.0 = t;
        Some(*c)
    }
}
fn one(r: &mut Run, s: &[char], pairs: &HashMap<(char, char), char>) {
    let t: String = s.iter().collect();
    for &k in &[false, true] {
        let want = nfc(s, k, pairs);
        r.count(want != s);
        let got = r.real("normal-form", (s, k), || {
            let v: Vec<char> = if k { t.nfkc().collect() } else { t.nfc().collect() };
            let w: Vec<char> = if k { It(s).nfkc().collect() } else { It(s).nfc().collect() };
            let shown = if k { t.nfkc().to_string() } else { t.nfc().to_string() };
            // once ended, it stays ended
            let mut it = if k { t.nfkc() } else { t.nfc() };
            let mut hints = vec![it.size_hint()];
            while it.next().is_some() {
                hints.push(it.size_hint());
            }
            let total = hints.len() - 1;
            let hint = hints.iter().enumerate().all(|(i, h)| h.0 <= total - i && h.1.map_or(true, |u| total - i <= u));
            (v, w, shown, it.next().is_none(), hint)
        });
        if let Some((v, w, shown, end, hint)) = got {
            let x: String = v.iter().collect();
            r.same("normal-form", (s, k), &v, &want);
            r.same("normal-form-of-iterator", (s, k), &w, &want);
            r.same("display", (s, k), shown, want.iter().collect::<String>());
            r.check("ended", (s, k), end, "yields after the end");
            r.check("size-hint", (s, k), hint, "excludes what is left");
            let again: Vec<char> = if k { x.nfkc().collect() } else { x.nfc().collect() };
            r.same("idempotent", (s, k), &again, &want);
        }
    }
}
fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "canonical_decomposition", |c, h| h.chars(unic_ucd::normal::canonical_decomposition(c)));
    replay::data(&mut r, "compatibility_decomposition", |c, h| h.chars(unic_ucd::normal::compatibility_decomposition(c)));
    replay::data(&mut r, "canonical_composition", |c, h| match unic_ucd::normal::canonical_composition(c) {
        None => h.num(0),
        Some(t) => t.iter().for_each(|(k, v)| {
            h.num(k.low as u64);
            h.num(k.high as u64);
            h.num(v as u64)
        }),
    });
    replay::data(&mut r, "canonical_combining_class", |c, h| h.num(unic_ucd::CanonicalCombiningClass::of(c).number() as u64));
    let pairs = pairs();
    r.part("every character alone (exhaustive)");
    for c in scalars() {
        if c as u32 >= 0x30000 && c as u32 & 0xFF != 0 {
            continue;
        }
        if r.enough() {
            break;
        }
        one(&mut r, &[c], &pairs);
    }
    let xs = interesting(&pairs);
    let marks: Vec<char> = scalars().filter(|c| ccc(*c) != 0).collect();
    // one of each class, to enumerate orders
    let mut few: Vec<char> = vec!['a', '\u{1100}', '\u{1161}', '\u{11A8}', '\u{AC00}', '\u{0344}', '\u{1D15E}', '\u{00E9}', '\u{1EAD}', '\u{FB2C}', '\u{01D5}', '\u{0300}', '\u{0323}', '\u{031B}', '\u{0334}', '\u{0315}', '\u{3099}', '\u{094D}', '\u{0F71}', '\u{0F73}', '\u{0390}', '\u{FEFC}'];
    few.push('\u{0327}');
    r.part("sequences of up to three of 23 chosen characters (exhaustive), and random sequences of up to 12 characters that decompose, compose or reorder, with long runs of marks");
    for a in 0..few.len() {
        for b in 0..few.len() {
            one(&mut r, &[few[a], few[b]], &pairs);
            for c in 0..few.len() {
                if r.enough() || (!r.hunt && !r.time(60)) {
                    break;
                }
                one(&mut r, &[few[a], few[b], few[c]], &pairs);
            }
        }
    }
    // starters that compose, followed by what they compose with and by marks
    let mut ks: Vec<(char, char)> = pairs.keys().cloned().collect();
    ks.sort();
    while r.time(97) {
        if r.rng.below(30) == 0 {
            // one stretch of many marks of few kinds, between a starter and a mark it composes with
            let p = *r.rng.pick(&ks);
            let kinds: Vec<char> = (0..1 + r.rng.below(3)).map(|_| *r.rng.pick(&marks)).collect();
            let mut s = vec![p.0];
            for _ in 0..r.rng.below(80) {
                s.push(*r.rng.pick(&kinds));
            }
            match r.rng.below(4) {
                0 => s.sort_by_key(|c| std::cmp::Reverse(ccc(*c))),
                1 => s[1..].sort_by_key(|c| std::cmp::Reverse(ccc(*c))),
                2 => s[1..].sort_by_key(|c| ccc(*c)),
                _ => {}
            }
            s.push(p.1);
            if r.rng.below(2) == 0 {
                s.push('a');
            }
            one(&mut r, &s, &pairs);
            continue;
        }
        let most = if r.rng.below(10) == 0 { 40 } else { 12 };
        let n = 1 + r.rng.below(most);
        let mut s = vec![];
        while s.len() < n {
            match r.rng.below(9) {
                0 | 1 => {
                    let p = *r.rng.pick(&ks);
                    s.push(p.0);
                    for _ in 0..r.rng.below(3) {
                        s.push(*r.rng.pick(&marks));
                    }
                    s.push(p.1);
                }
                2 | 3 => s.push(*r.rng.pick(&marks)),
                4 => s.push(*r.rng.pick(&xs)),
                5 => s.push('a'),
                6 => s.push(*r.rng.pick(&few)),
                7 => s.push(std::char::from_u32(0x1100 + r.rng.below(0xC4) as u32).unwrap()),
                _ => s.push(r.rng.any_char()),
            }
        }
        one(&mut r, &s, &pairs);
    }
    r.finish()
}
