//! C12: weak and neutral types and implicit levels (UAX #9 W1-W7, N1-N2, I1-I2), and the levels of whole texts.
use replay::Run;
#[path = "../inc/bidi_ref.rs"]
mod bidi_ref;
#[path = "../inc/bidi_seq.rs"]
mod bidi_seq;
#[path = "../inc/bidi_pipe.rs"]
mod bidi_pipe;
use bidi_pipe::*;

fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "bidi_class", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_bidi::BidiClass::of(c)));
    });
    finding(&mut r, "\u{627}1%a", 0, &[1, 2, 0, 0]);
    finding(&mut r, "a\u{200B} b", 1, &[2, 2, 2, 2]);
    finding(&mut r, "1\u{A0}2", 1, &[2, 2, 2]);
    finding(&mut r, "\u{5D0}%\u{300}1", 0, &[1, 2, 2, 2]);
    finding(&mut r, "\u{5D0}%\u{202B}\u{5D0}\u{202C}", 0, &[1, 1, 1, 1, 1]);
    r.part("all texts of up to 5 characters over 9 (exhaustive)");
    all(&mut r, &['a', '\u{5D0}', '1', '\u{661}', '+', '%', ',', '\u{300}', ' '], 5);
    r.part("all texts of up to 4 characters over 14 (exhaustive)");
    all(&mut r, &['a', '\u{5D0}', '\u{627}', '1', '\u{661}', '+', '\u{20AC}', ',', '\u{300}', ' ', '\u{2066}', '\u{2069}', '\u{202E}', '\u{200B}'], 4);
    r.part("random texts");
    while r.time(95) {
        let mut k: Vec<char> = (0..2 + r.rng.below(6)).map(|_| *r.rng.pick(bidi_ref::CHARS)).collect();
        if r.rng.below(3) == 0 {
            k.push(*r.rng.pick(bidi_ref::SEPS));
        }
        let n = if r.rng.below(4) == 0 { 60 } else { 12 };
        let t: String = (0..r.rng.below(n)).map(|_| *r.rng.pick(&k)).collect();
        let lv = match r.rng.below(6) { 0 => Some(0), 1 => Some(1), 2 => Some(r.rng.below(126) as u8), _ => None };
        one(&mut r, &t, lv);
    }
    r.sample("a 1,2 \u{5D0}");
    r.finish()
}
