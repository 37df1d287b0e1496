//! C01: a character range is the set of scalar values between its ends; its iterator is that set in order.
use replay::Run;
use std::cmp::Ordering;
use std::collections::Bound;
use unic_char_range::{chars, CharIter, CharRange};

fn ord(c: char) -> u32 {
    if (c as u32) < 0xD800 {
        c as u32
    } else {
        c as u32 - 0x800
    }
}
fn at(n: u32) -> char {
    std::char::from_u32(if n < 0xD800 { n } else { n + 0x800 }).unwrap()
}

/// A reference iterator over positions [a, b).
fn reference(low: char, high: char) -> (u32, u32) {
    if low > high {
        (0, 0)
    } else {
        (ord(low), ord(high) + 1)
    }
}

fn walk(r: &mut Run, what: &str, low: char, high: char, it: CharIter, ab: (u32, u32), ops: u64, steps: usize) {
    let (mut a, mut b) = ab;
    let mut it = it;
    let mut o = ops;
    for i in 0..steps {
        let input = (what, low, high, format!("ops {:#b}", ops), i);
        let n = (b - a) as usize;
        let c = it.clone();
        let c2 = it.clone();
        let c3 = it.clone();
        let c4 = it.clone();
        if let Some(v) = r.real("range-panic", &input, || (it.len(), it.size_hint(), c.last(), c2.max(), c3.min(), c4)) {
            r.same("len", &input, v.0, n);
            r.same("size_hint", &input, v.1, (n, Some(n)));
            let l = if n == 0 { None } else { Some(at(b - 1)) };
            let f = if n == 0 { None } else { Some(at(a)) };
            r.same("last", &input, v.2, l);
            r.same("max", &input, v.3, l);
            r.same("min", &input, v.4, f);
            let back: CharRange = v.5.into();
            r.same("into-range-len", &input, back.len(), n);
        }
        if o & 1 == 0 {
            let w = if a < b { a += 1; Some(at(a - 1)) } else { None };
            if let Some(g) = r.real("range-panic", &input, || it.next()) {
                r.same("next", &input, g, w);
            }
        } else {
            let w = if a < b { b -= 1; Some(at(b)) } else { None };
            if let Some(g) = r.real("range-panic", &input, || it.next_back()) {
                r.same("next_back", &input, g, w);
            }
        }
        o = o.rotate_right(1);
        r.count(n > 0);
    }
}

/// Adaptors the standard library derives from next/next_back unless the type overrides them.
fn derived(r: &mut Run, a: char, b: char, n: usize) {
    let w = reference(a, b);
    let len = (w.1 - w.0) as usize;
    let at_ = |k: usize| if k < len { Some(at(w.0 + k as u32)) } else { None };
    let input = (a, b, n);
    r.count(n < len);
    if let Some((x, y, y2, z, c, f)) = r.real("range-panic", &input, || {
        let mut i = CharRange::closed(a, b).iter();
        let x = i.nth(n);
        let mut j = CharRange::closed(a, b).iter();
        let y = j.nth_back(n);
        (x, y, (i.next(), i.len(), j.next_back(), j.len()), CharRange::closed(a, b).iter().step_by(n + 1).nth(1),
         CharRange::closed(a, b).iter().skip(n).count(), CharRange::closed(a, b).iter().take(n + 1).fold(0u64, |s, c| s * 31 % 1_000_007 + c as u64))
    }) {
        r.same("nth", &input, x, at_(n));
        r.same("nth_back", &input, y, if n < len { at_(len - 1 - n) } else { None });
        let left = len.saturating_sub(n + 1);
        r.same("after-nth", &input, y2, (at_(n + 1), left.saturating_sub(1), if left > 0 { at_(left - 1) } else { None }, left.saturating_sub(1)));
        r.same("step_by", &input, z, at_(n + 1));
        r.same("count", &input, c, len.saturating_sub(n));
        let m = (n + 1).min(len);
        r.same("fold", &input, f, (0..m).fold(0u64, |s, k| s * 31 % 1_000_007 + at(w.0 + k as u32) as u64));
    }
}

fn main() {
    let mut r = Run::start();
    let mut pts: Vec<char> = vec![];
    for &x in &[0u32, 0x41, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x2FFFF, 0x10FFFF] {
        for d in -3i64..=3 {
            if let Some(c) = std::char::from_u32((x as i64 + d).max(0) as u32) {
                pts.push(c);
            }
        }
    }
    pts.sort();
    pts.dedup();
    r.part("all pairs of 40 boundary characters: constructors, contains, cmp_char, equality, first and last steps in 3 orders");
    let mut ranges = vec![];
    for &a in &pts {
        for &b in &pts {
            let (x, y) = reference(a, b);
            let cs: Vec<(&str, CharRange, (u32, u32))> = match r.real("range-panic", (a, b), || {
                vec![
                    ("closed", CharRange::closed(a, b)),
                    ("open_right", CharRange::open_right(a, b)),
                    ("open_left", CharRange::open_left(a, b)),
                    ("open", CharRange::open(a, b)),
                    ("chars!(a..=b)", chars!(a..=b)),
                    ("chars!(a..b)", chars!(a..b)),
                    ("chars!(..)", chars!(..)),
                    ("bound ii", CharRange::bound(Bound::Included(a), Bound::Included(b))),
                    ("bound ie", CharRange::bound(Bound::Included(a), Bound::Excluded(b))),
                    ("bound ei", CharRange::bound(Bound::Excluded(a), Bound::Included(b))),
                    ("bound ee", CharRange::bound(Bound::Excluded(a), Bound::Excluded(b))),
                    ("bound iu", CharRange::bound(Bound::Included(a), Bound::Unbounded)),
                    ("bound eu", CharRange::bound(Bound::Excluded(a), Bound::Unbounded)),
                    ("bound ui", CharRange::bound(Bound::Unbounded, Bound::Included(b))),
                    ("bound ue", CharRange::bound(Bound::Unbounded, Bound::Excluded(b))),
                    ("bound uu", CharRange::bound(Bound::Unbounded, Bound::Unbounded)),
                ]
            }) {
                Some(v) => v,
                None => continue,
            }
            .into_iter()
            .map(|(n, c)| {
                let full = (0, 0x10F800u32);
                let w = match n {
                    "closed" | "chars!(a..=b)" | "bound ii" => (x, y),
                    "open_right" | "chars!(a..b)" | "bound ie" => (x, y.max(x + 1) - 1),
                    "open_left" | "bound ei" => (if x < y { x + 1 } else { x }, y),
                    "open" | "bound ee" => (x + 1, (x + 1).max(if y > 0 { y - 1 } else { 0 })),
                    "bound iu" => (ord(a), full.1),
                    "bound eu" => (ord(a) + 1, full.1),
                    "bound ui" => (0, ord(b) + 1),
                    "bound ue" => (0, ord(b)),
                    _ => full,
                };
                (n, c, if w.0 < w.1 { w } else { (0, 0) })
            })
            .collect();
            for (n, c, w) in cs {
                let input = (n, a, b);
                r.same("is_empty", &input, c.is_empty(), w.0 >= w.1);
                for &p in &pts {
                    let inside = w.0 <= ord(p) && ord(p) < w.1;
                    r.same("contains", (&input, p), c.contains(p), inside);
                    if w.0 < w.1 {
                        let o = if ord(p) >= w.1 { Ordering::Less } else if ord(p) < w.0 { Ordering::Greater } else { Ordering::Equal };
                        if let Some(g) = r.real("range-panic", (&input, p), || c.cmp_char(p)) {
                            r.same("cmp_char", (&input, p), g, o);
                        }
                    }
                    r.count(inside);
                }
                for &ops in &[0u64, !0, 0x5555_5555_5555_5555] {
                    walk(&mut r, n, a, b, c.iter(), w, ops, 6);
                }
                walk(&mut r, n, a, b, c.into_iter(), w, 0x3333_3333_3333_3333, 5);
                ranges.push((c, w));
            }
            if !r.time(60) {
                break;
            }
        }
    }
    for i in (0..ranges.len()).step_by(17) {
        for j in (0..ranges.len()).step_by(23) {
            let (a, b) = (&ranges[i], &ranges[j]);
            r.same("eq", (a.0, b.0), a.0 == b.0, a.1 == b.1);
            r.count(true);
        }
    }
    r.part("nth, nth_back, step_by, skip, fold against positions, around the surrogates and at both ends");
    for &a in &[0u32, 1, 0xD000, 0xD7F0, 0xD7FE, 0xD7FF, 0xD800, 0xD801, 0x10F700, 0x10F7FE, 0x10F7FF] {
        for &b in &[0u32, 1, 0x700, 0xD7FE, 0xD7FF, 0xD800, 0xD801, 0xE000, 0x10F7FE, 0x10F7FF] {
            for &n in &[0usize, 1, 2, 15, 16, 17, 0x7F0, 0x7FF, 0x800, 0x801, 0x80F, 0x810, 0x811, 0x1000, 0xD7FF, 0xD800, 0xD801] {
                derived(&mut r, at(a), at(b), n);
            }
        }
    }
    while r.time(70) {
        let a = at(0xC800 + r.rng.below(0x2000) as u32);
        let b = at(0xC800 + r.rng.below(0x2000) as u32);
        let n = r.rng.below(0x1800);
        derived(&mut r, a, b, n);
    }
    r.part("random pairs, random interleavings of next and next_back");
    while r.time(80) {
        let (a, b) = (r.rng.any_char(), r.rng.any_char());
        let ops = r.rng.next();
        let w = reference(a, b);
        walk(&mut r, "closed", a, b, CharRange::closed(a, b).iter(), w, ops, 24);
        let c = at((ord(a) + r.rng.below(20) as u32).min(0x10F7FF));
        let w = reference(a, c);
        walk(&mut r, "closed", a, c, CharRange::closed(a, c).iter(), w, ops, 24);
    }
    r.part("the whole code space forwards, backwards and to exhaustion");
    r.same("all", "all", CharRange::all().iter().eq((0..0x10F800).map(at)), true);
    r.same("all-rev", "all", CharRange::all().iter().rev().eq((0..0x10F800).rev().map(at)), true);
    r.same("anp", "assigned_normal_planes", CharRange::assigned_normal_planes().iter().eq((0..0x2F800).map(at)), true);
    r.sample(("closed", 'a', 'd', CharRange::closed('a', 'd').iter().collect::<String>()));
    r.finish()
}
