//! C20: the order of ages.
use replay::Run;
use std::cmp::Ordering;
use unic_ucd::age::{Age, CharAge};
use unic_ucd::UnicodeVersion;

fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "age", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_ucd::Age::of(c).map(|a| (a.actual().major, a.actual().minor, a.actual().micro))));
    });
    r.part("every pair of ages that characters have (exhaustive): cmp, partial_cmp, ==, <, >, actual");
    let mut seen: Vec<(char, Age)> = vec![];
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        if let Some(a) = Age::of(c) {
            r.count(false);
            if c.age() != Some(a) {
                r.fail("char-age", format!("{:?}", c), "CharAge::age is not Age::of".into());
            }
            if !seen.iter().any(|x| x.1.actual() == a.actual()) {
                seen.push((c, a));
            }
        }
    }
    let key = |v: UnicodeVersion| (v.major, v.minor, v.micro);
    for &(c, a) in &seen {
        for &(d, b) in &seen {
            r.count(a != b);
            let w = key(b.actual()).cmp(&key(a.actual()));
            r.same("order", (c, d), (a.cmp(&b), a.partial_cmp(&b), a == b, a < b, a > b), (w, Some(w), w == Ordering::Equal, w == Ordering::Less, w == Ordering::Greater));
        }
    }
    r.part("pairs of versions, all numbers from 0 to 3 and random: UnicodeVersion's order is that of major, minor, micro");
    let one = |r: &mut Run, a: (u8, u8, u8), b: (u8, u8, u8)| {
        r.count(a != b);
        let (x, y) = (UnicodeVersion::from(a), UnicodeVersion::from(b));
        r.same("version", (a, b), (key(x), x.cmp(&y), x.partial_cmp(&y), x == y), (a, a.cmp(&b), Some(a.cmp(&b)), a == b));
    };
    for i in 0..4096u32 {
        let f = |i: u32| ((i >> 4 & 3) as u8, (i >> 2 & 3) as u8, (i & 3) as u8);
        one(&mut r, f(i), f(i >> 6));
    }
    for _ in 0..100_000 {
        let v = r.rng.next();
        one(&mut r, (v as u8, (v >> 8) as u8, (v >> 16) as u8), ((v >> 24) as u8 & 1 | v as u8 & 254, (v >> 32) as u8, (v >> 40) as u8));
    }
    r.finish()
}
