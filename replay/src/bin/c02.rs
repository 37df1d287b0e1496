//! C02: a parallel iterator over a character range yields the range's characters, in order, each once.
use rayon::prelude::*;
use replay::Run;
use unic_char_range::CharRange;

fn ord(c: char) -> u32 {
    if (c as u32) < 0xD800 {
        c as u32
    } else {
        c as u32 - 0x800
    }
}
fn at(n: u32) -> char {
    std::char::from_u32(if n < 0xD800 { n } else { n + 0x800 }).unwrap()
}
fn want(a: char, b: char) -> Vec<char> {
    if a > b {
        vec![]
    } else {
        (ord(a)..=ord(b)).map(at).collect()
    }
}

fn one(r: &mut Run, a: char, b: char) {
    let w = want(a, b);
    let c = CharRange::closed(a, b);
    r.count(!w.is_empty());
    if let Some((v, l, f, k, ix)) = r.real("par-panic", (a, b), || {
        let v: Vec<char> = c.into_par_iter().collect();
        let l = c.into_par_iter().len();
        let f: Vec<char> = c.into_par_iter().filter(|x| *x as u32 % 3 == 0).collect();
        let k = (&c).into_par_iter().with_min_len(7).map(|x| x as u64).sum::<u64>();
        let ix: Vec<char> = c.into_par_iter().zip(c.into_par_iter()).with_max_len(5).map(|(x, y)| if x == y { x } else { '\0' }).collect();
        (v, l, f, k, ix)
    }) {
        r.check("par-collect", (a, b), v == w, "the collected sequence is not the range");
        r.same("par-len", (a, b), l, w.len());
        r.check("par-filter", (a, b), f == w.iter().cloned().filter(|x| *x as u32 % 3 == 0).collect::<Vec<_>>(), "filtered sequence differs");
        r.same("par-sum", (a, b), k, w.iter().map(|&x| x as u64).sum::<u64>());
        r.check("par-zip", (a, b), ix == w, "zipped sequence differs");
    }
}

fn main() {
    let mut r = Run::start();
    let mut pts: Vec<char> = vec![];
    for &x in &[0u32, 0x41, 0xD7FF, 0xE000, 0xFFFF, 0x10FFFF] {
        for d in -3i64..=3 {
            if let Some(c) = std::char::from_u32((x as i64 + d).max(0) as u32) {
                pts.push(c);
            }
        }
    }
    pts.sort();
    pts.dedup();
    r.part("pairs of boundary characters whose range has fewer than 20000 members");
    let ps = pts.clone();
    for &a in &ps {
        for &b in &ps {
            if a > b || ord(b) - ord(a) < 20000 {
                one(&mut r, a, b);
            }
        }
    }
    r.part("the whole code space");
    one(&mut r, '\0', '\u{10FFFF}');
    one(&mut r, '\u{D7FF}', '\u{10FFFF}');
    one(&mut r, '\u{E000}', '\u{10FFFF}');
    r.part("random ranges around the surrogates and anywhere");
    while r.time(70) {
        let a = at(0xD000 + r.rng.below(0x1000) as u32);
        let b = at((ord(a) + r.rng.below(3000) as u32).min(0x10F7FF));
        one(&mut r, a, b);
        let a = r.rng.any_char();
        let b = at((ord(a) + r.rng.below(2000) as u32).min(0x10F7FF));
        one(&mut r, a, b);
    }
    r.sample(want('\u{D7FE}', '\u{E001}'));
    r.finish()
}
