//! C05: decomposition and composition of characters.
use replay::Run;
#[path = "../inc/norm_ref.rs"]
#[allow(dead_code)]
mod norm_ref;
use norm_ref::*;
use unic_ucd::normal::{canonical_composition, canonical_decomposition, compatibility_decomposition, compose, decompose_canonical, decompose_compatible};

fn depth(c: char, n: u32) -> u32 {
    if n > 30 {
        return n;
    }
    let f = |m: Option<&'static [char]>| m.map_or(0, |m| m.iter().map(|x| depth(*x, n + 1)).max().unwrap_or(n));
    n.max(f(canonical_decomposition(c))).max(f(compatibility_decomposition(c)))
}
fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "canonical_decomposition", |c, h| h.chars(unic_ucd::normal::canonical_decomposition(c)));
    replay::data(&mut r, "compatibility_decomposition", |c, h| h.chars(unic_ucd::normal::compatibility_decomposition(c)));
    replay::data(&mut r, "canonical_composition", |c, h| match unic_ucd::normal::canonical_composition(c) {
        None => h.num(0),
        Some(t) => t.iter().for_each(|(k, v)| {
            h.num(k.low as u64);
            h.num(k.high as u64);
            h.num(v as u64)
        }),
    });
    r.part("every character (exhaustive): the mappings are acyclic; ASCII, jamo and Hangul syllables have none; decompose_canonical and decompose_compatible give the full decomposition");
    for c in scalars() {
        let (m, k) = (canonical_decomposition(c), compatibility_decomposition(c));
        r.count(m.is_some() || k.is_some());
        if !r.check("acyclic", c, depth(c, 0) <= 30, "the mappings of this character do not end") {
            continue;
        }
        let none = c as u32 <= 0x7f || (0x1100..0x11C3).contains(&(c as u32)) || syllable(c).is_some();
        r.check("unmapped", c, !none || (m.is_none() && k.is_none()), "has a mapping");
        r.check("unmapped", c, m.map_or(true, |m| !m.is_empty()) && k.map_or(true, |k| !k.is_empty()), "an empty mapping");
        for &compat in &[false, true] {
            let mut want = vec![];
            full(c, compat, &mut want);
            let got = r.real("decompose", c, || {
                let mut v = vec![];
                if compat { decompose_compatible(c, |x| v.push(x)) } else { decompose_canonical(c, |x| v.push(x)) }
                v
            });
            if let Some(got) = got {
                r.same("decompose", (c, compat), got, want);
            }
        }
    }
    r.part("the composition table (exhaustive): rows ascending, and its pairs are exactly the two-character canonical mappings of starters that are not excluded from composition");
    let pairs = pairs();
    for (&(a, b), &c) in &pairs {
        r.count(true);
        r.same("compose", (a, b), compose(a, b), Some(c));
    }
    for a in scalars() {
        if let Some(t) = canonical_composition(a) {
            let mut last = None;
            for (g, c) in t.iter() {
                r.check("inner-table", a, g.low <= g.high && last.map_or(true, |l| l < g.low), "rows out of order");
                last = Some(g.high);
                for b in g.iter() {
                    r.same("composition-table", (a, b), Some(&c), pairs.get(&(a, b)));
                }
            }
        }
    }
    r.part("pairs of characters, random and from the composing and Hangul ranges: compose agrees");
    let xs = interesting(&pairs);
    let n = if r.hunt { 40_000_000 } else { 3_000_000 };
    for i in 0..n {
        if i % 1024 == 0 && !r.time(95) {
            break;
        }
        let mut one = |r: &mut Run| match r.rng.below(4) {
            0 => *r.rng.pick(&xs),
            1 => std::char::from_u32(0x1100 + r.rng.below(0xC4) as u32).unwrap(),
            2 => std::char::from_u32(0xABF0 + r.rng.below(11200) as u32).unwrap(),
            _ => r.rng.any_char(),
        };
        let (a, b) = (one(&mut r), one(&mut r));
        let want = pairs.get(&(a, b)).cloned();
        r.count(want.is_some());
        if let Some(got) = r.real("compose", (a, b), || compose(a, b)) {
            r.same("compose", (a, b), got, want);
        }
    }
    r.finish()
}
