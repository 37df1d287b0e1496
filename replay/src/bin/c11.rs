//! C11: level runs and isolating run sequences (UAX #9 BD7, BD9, BD13, X10), seen through the levels they lead to.
use replay::Run;
#[path = "../inc/bidi_ref.rs"]
mod bidi_ref;
#[path = "../inc/bidi_seq.rs"]
mod bidi_seq;
#[path = "../inc/bidi_pipe.rs"]
mod bidi_pipe;
use bidi_pipe::*;

fn main() {
    let mut r = Run::start();
    finding(&mut r, "\u{5D0}\u{2066}\u{200B}b\u{2069}\u{5D1}", 0, &[1, 1, 1, 2, 1, 1]);
    r.part("all texts of up to 6 characters over 6 (exhaustive)");
    all(&mut r, &['a', '\u{5D0}', '!', '\u{2066}', '\u{2067}', '\u{2069}'], 6);
    r.part("all texts of up to 5 characters over 8 (exhaustive)");
    all(&mut r, &['a', '\u{5D0}', '!', '\u{2067}', '\u{2069}', '\u{202B}', '\u{202E}', '\u{202C}'], 5);
    r.part("random nestings");
    let al = ['a', '\u{5D0}', '!', '1', '\u{2066}', '\u{2067}', '\u{2068}', '\u{2069}', '\u{2069}', '\u{202A}', '\u{202B}', '\u{202E}', '\u{202D}', '\u{202C}', '\u{200B}', '\n'];
    while r.time(95) {
        let k: Vec<char> = (0..2 + r.rng.below(10)).map(|_| *r.rng.pick(&al)).collect();
        let n = if r.rng.below(4) == 0 { 150 } else { 25 };
        let t: String = (0..r.rng.below(n)).map(|_| *r.rng.pick(&k)).collect();
        let lv = match r.rng.below(6) { 0 => Some(0), 1 => Some(1), 2 => Some(r.rng.below(126) as u8), _ => None };
        one(&mut r, &t, lv);
    }
    r.sample("a\u{2067}b!\u{2066}c\u{2069}\u{2069}");
    r.finish()
}
