//! C04: Hangul syllables and their jamo (Unicode 3.12), over every code point and every relevant pair.
use replay::Run;
use unic_ucd_hangul::{compose_syllable, decompose_syllable, is_syllable};

fn syl(c: u32) -> bool {
    0xAC00 <= c && c < 0xAC00 + 11172
}
fn dec(c: u32) -> Vec<u32> {
    let s = c - 0xAC00;
    let mut v = vec![0x1100 + s / 588, 0x1161 + s % 588 / 28];
    if s % 28 != 0 {
        v.push(0x11A7 + s % 28);
    }
    v
}
fn comp(a: u32, b: u32) -> Option<u32> {
    if 0x1100 <= a && a < 0x1113 && 0x1161 <= b && b < 0x1176 {
        Some(0xAC00 + (a - 0x1100) * 588 + (b - 0x1161) * 28)
    } else if syl(a) && (a - 0xAC00) % 28 == 0 && 0x11A7 < b && b < 0x11C3 {
        Some(a + b - 0x11A7)
    } else {
        None
    }
}

fn main() {
    let mut r = Run::start();
    r.part("every scalar value: is_syllable, decompose_syllable");
    for u in 0..0x110000 {
        if let Some(c) = std::char::from_u32(u) {
            r.count(syl(u));
            if let Some(b) = r.real("panic", c, || is_syllable(c)) {
                r.same("is_syllable", c, b, syl(u));
            }
            if syl(u) {
                let mut v = vec![];
                r.real("panic", c, || decompose_syllable(c, &mut |x| v.push(x as u32)));
                r.same("decompose", c, &v, &dec(u));
            }
        }
    }
    r.part("every pair of a jamo block or syllable with a jamo block neighbour: compose_syllable");
    let firsts: Vec<u32> = (0x10F0..0x1210).chain(0xABF0..0xD7B0).chain(vec![0, 0x41, 0xFFFF, 0x10FFFF]).collect();
    let seconds: Vec<u32> = (0x1155..0x1180).chain(0x11A0..0x11CA).chain(vec![0, 0x1100, 0x1112, 0x1113, 0xAC00, 0xAC1C, 0xD7A3, 0x10FFFF]).collect();
    for &a in &firsts {
        for &b in &seconds {
            let (x, y) = (std::char::from_u32(a).unwrap(), std::char::from_u32(b).unwrap());
            let w = comp(a, b);
            r.count(w.is_some());
            if let Some(g) = r.real("panic", (x, y), || compose_syllable(x, y)) {
                r.same("compose", (x, y), g.map(|c| c as u32), w);
            }
        }
        if r.enough() {
            break;
        }
    }
    r.part("random pairs");
    while r.time(30) {
        let (x, y) = (r.rng.any_char(), r.rng.any_char());
        r.count(false);
        if let Some(g) = r.real("panic", (x, y), || compose_syllable(x, y)) {
            r.same("compose", (x, y), g.map(|c| c as u32), comp(x as u32, y as u32));
        }
    }
    r.sample(("U+AC01", dec(0xAC01)));
    r.finish()
}
