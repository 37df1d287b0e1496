//! C09: paragraphs, base levels, first-strong isolates against UAX #9 P1-P3, X5c.
use replay::Run;
use unic_bidi::{bidi_class, BidiInfo, Level};
#[path = "../inc/bidi_ref.rs"]
mod bidi_ref;
use bidi_ref::*;

fn one(r: &mut Run, t: &str, lv: Option<u8>) {
    let cs: Vec<char> = t.chars().collect();
    let cls: Vec<_> = cs.iter().map(|&c| unic_bidi::BidiClass::of(c)).collect();
    let fsi = resolve_fsi(&cls);
    let ps = paragraphs(&cls);
    r.count(ps.len() > 1 || fsi != cls || cls.iter().any(|&c| initiator(c)));
    let info = match r.real("panic", (t, lv), || BidiInfo::new(t, lv.map(|n| Level::new(n).unwrap()))) {
        Some(i) => i,
        None => return,
    };
    let mut want = vec![];
    for (i, c) in cs.iter().enumerate() {
        for _ in 0..c.len_utf8() {
            want.push(fsi[i]);
        }
    }
    r.same("classes", (t, lv), info.original_classes.clone(), want);
    r.check("levels-length", (t, lv), info.levels.len() == t.len(), "one level per byte");
    let off = |k: usize| cs[..k].iter().map(|c| c.len_utf8()).sum::<usize>();
    let wp: Vec<_> = ps
        .iter()
        .map(|&(a, b)| {
            let l = lv.unwrap_or(match first_strong(&cls, a, b) {
                Some(LeftToRight) | None => 0,
                _ => 1,
            });
            (off(a), off(b), l)
        })
        .collect();
    r.same("paragraphs", (t, lv), info.paragraphs.iter().map(|p| (p.range.start, p.range.end, p.level.number())).collect::<Vec<_>>(), wp);
}

fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "bidi_class", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_bidi::BidiClass::of(c)));
    });
    let _ = bidi_class::abbr_names::L;
    r.part("only U+2068 has class FSI (used as an axiom by the proof); exhaustive");
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        r.count(c == '\u{2068}');
        if unic_bidi::BidiClass::of(c) == FirstStrongIsolate && c.len_utf8() != 3 {
            r.fail("fsi-length", format!("{:?}", c), "an FSI that is not 3 bytes long".into());
        }
    }
    let al = ['a', '\u{5D0}', '\u{627}', ' ', '\u{2066}', '\u{2067}', '\u{2068}', '\u{2069}', '\n', '\u{202E}'];
    r.part("all texts of up to 4 characters over 10, levels auto/0/1 (exhaustive)");
    for len in 0..=4u32 {
        for k in 0..10usize.pow(len) {
            let mut k = k;
            let t: String = (0..len).map(|_| { let c = al[k % 10]; k /= 10; c }).collect();
            one(&mut r, &t, None);
            if len < 4 {
                one(&mut r, &t, Some(0));
                one(&mut r, &t, Some(1));
            }
        }
    }
    r.part("random longer texts, also deep isolates");
    while r.time(90) {
        if r.rng.below(20) == 0 {
            // isolates nested deeply, something inside, closed again or not
            let k: Vec<char> = (0..1 + r.rng.below(2)).map(|_| *r.rng.pick(&['\u{2068}', '\u{2068}', '\u{2066}', '\u{2067}', ' '])).collect();
            let n = r.rng.below(160);
            let mut t: String = (0..n).map(|_| *r.rng.pick(&k)).collect();
            t.push(*r.rng.pick(&['a', '\u{5D0}', '\u{627}', '1']));
            for _ in 0..r.rng.below(n + 3) {
                t.push('\u{2069}');
            }
            t.push(*r.rng.pick(&['a', '\u{5D0}', '\n']));
            t.push(*r.rng.pick(&['a', '\u{5D0}']));
            one(&mut r, &t, None);
            continue;
        }
        let n = r.rng.below(40);
        let deep = r.rng.below(8) == 0;
        let t: String = (0..n + if deep { 150 } else { 0 })
            .map(|_| match r.rng.below(10) {
                0..=5 => *r.rng.pick(&al),
                6 => *r.rng.pick(SEPS),
                7 if deep => '\u{2068}',
                8 => r.rng.any_char(),
                _ => *r.rng.pick(CHARS),
            })
            .collect();
        let lv = match r.rng.below(4) { 0 => Some(0), 1 => Some(1), _ => None };
        one(&mut r, &t, lv);
    }
    r.sample("\u{2068}\u{2067}a\u{2069}\u{5D0}\u{2069}");
    r.finish()
}
