//! C10: explicit levels and overrides (UAX #9 X1-X8), seen through the resolved levels of strong characters.
use replay::Run;
use unic_bidi::{BidiInfo, Level};
#[path = "../inc/bidi_ref.rs"]
mod bidi_ref;
use bidi_ref::*;

fn one(r: &mut Run, t: &str, lv: Option<u8>) {
    let cs: Vec<char> = t.chars().collect();
    let cls: Vec<_> = cs.iter().map(|&c| unic_bidi::BidiClass::of(c)).collect();
    let fsi = resolve_fsi(&cls);
    let info = match r.real("panic", (t, lv), || BidiInfo::new(t, lv.map(|n| Level::new(n).unwrap()))) {
        Some(i) => i,
        None => return,
    };
    if !r.check("length", (t, lv), info.levels.len() == t.len(), "one level per byte") {
        return;
    }
    let mut o = 0;
    let offs: Vec<usize> = cs.iter().map(|c| { let x = o; o += c.len_utf8(); x }).collect();
    let mut nt = false;
    for (a, b) in paragraphs(&cls) {
        let p = lv.map(|n| n as u32).unwrap_or(match first_strong(&cls, a, b) {
            Some(LeftToRight) | None => 0,
            _ => 1,
        });
        for (k, (l, c)) in explicit(&fsi[a..b], p).into_iter().enumerate() {
            let got = info.levels[offs[a + k]].number() as u32;
            for j in 1..cs[a + k].len_utf8() {
                r.same("bytes", (t, lv, a + k), info.levels[offs[a + k] + j].number() as u32, got);
            }
            let e = match l {
                Some(e) => e,
                None => continue,
            };
            nt |= e != p;
            match c {
                LeftToRight => { r.same("L", (t, lv, a + k), got, e + e % 2); }
                RightToLeft | ArabicLetter => { r.same("R", (t, lv, a + k), got, e + 1 - e % 2); }
                ParagraphSeparator => {}
                EuropeanNumber | ArabicNumber => { r.check("number", (t, lv, a + k, got, e), got >= e && got <= e + 2, "a number's level is 0 to 2 above its embedding"); }
                _ => { r.check("other", (t, lv, a + k, got, e), got >= e && got <= e + 2, "a level is 0 to 2 above its embedding"); }
            }
        }
    }
    r.count(nt);
}

fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "bidi_class", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_bidi::BidiClass::of(c)));
    });
    let al = ['a', '\u{5D0}', '\u{202A}', '\u{202B}', '\u{202D}', '\u{202E}', '\u{202C}', '\u{2066}', '\u{2067}', '\u{2069}'];
    r.part("all texts of up to 5 characters over 10 (exhaustive)");
    for len in 0..=5u32 {
        for k in 0..10usize.pow(len) {
            let mut k = k;
            let t: String = (0..len).map(|_| { let c = al[k % 10]; k /= 10; c }).collect();
            one(&mut r, &t, [None, Some(0), Some(1)][k % 3]);
            if len < 4 {
                one(&mut r, &t, Some(0));
                one(&mut r, &t, Some(1));
            }
        }
    }
    r.part("random nestings up to and beyond the depth limit");
    while r.time(95) {
        let mut t = String::new();
        let open = ['\u{202A}', '\u{202B}', '\u{202D}', '\u{202E}', '\u{2066}', '\u{2067}', '\u{2068}'];
        let deep = r.rng.below(3);
        if deep > 0 {
            let kinds: Vec<char> = (0..1 + r.rng.below(3)).map(|_| *r.rng.pick(&open)).collect();
            let d = if deep == 1 { 55 + r.rng.below(80) } else { r.rng.below(20) };
            for _ in 0..d {
                t.push(*r.rng.pick(&kinds));
            }
        }
        for _ in 0..r.rng.below(40) {
            t.push(match r.rng.below(8) {
                0..=4 => *r.rng.pick(&al),
                5 => *r.rng.pick(&open),
                6 => ['\u{2069}', '\u{202C}'][r.rng.below(2)],
                _ => *r.rng.pick(CHARS),
            });
        }
        let lv = match r.rng.below(6) { 0 => Some(0), 1 => Some(1), 2 => Some(r.rng.below(126) as u8), _ => None };
        one(&mut r, &t, lv);
    }
    r.sample("\u{202E}a\u{2067}b\u{2069}c");
    r.finish()
}
