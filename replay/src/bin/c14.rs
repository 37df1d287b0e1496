//! C14: word boundaries by the rules of UAX #29, from the front, from the back and from both ends.
use replay::Run;
use unic_segment::{WordBoundIndices, WordBounds, Words};
use unic_ucd::segment::WordBreak::{self as W, *};

/// Boundaries, as byte offsets: the rules of UAX #29 (Unicode 10), one position at a time.
fn bounds(s: &str) -> Vec<usize> {
    let t: Vec<(usize, W)> = s.char_indices().map(|(i, c)| (i, W::of(c))).collect();
    let v = |i: usize| t[i].1;
    let skip = |c: W| c == Extend || c == Format || c == ZWJ;
    let nl = |c: W| c == CR || c == LF || c == Newline;
    let ah = |c: W| c == ALetter || c == HebrewLetter;
    let mnlq = |c: W| c == MidNumLet || c == SingleQuote;
    // WB4: the character that stands for the one at i
    let base = |mut i: usize| {
        while i > 0 && skip(v(i)) && !nl(v(i - 1)) {
            i -= 1;
        }
        i
    };
    let n = t.len();
    let mut out = vec![0];
    for i in 1..n {
        let (a, b) = (v(i - 1), v(i));
        let join = if a == CR && b == LF {
            true
        } else if nl(a) || nl(b) {
            false
        } else if a == ZWJ && (b == GlueAfterZwj || b == EBaseGAZ) || skip(b) {
            true
        } else {
            let p = base(i - 1);
            let a = v(p);
            let aa = if p > 0 { v(base(p - 1)) } else { Other };
            let bb = t[i + 1..].iter().map(|x| x.1).find(|c| !skip(*c)).unwrap_or(Other);
            let ris = {
                let (mut k, mut q) = (0, i);
                while q > 0 && v(base(q - 1)) == RegionalIndicator {
                    k += 1;
                    q = base(q - 1);
                }
                k
            };
            ah(a) && ah(b)
                || ah(a) && (b == MidLetter || mnlq(b)) && ah(bb)
                || ah(aa) && (a == MidLetter || mnlq(a)) && ah(b)
                || a == HebrewLetter && b == SingleQuote
                || a == HebrewLetter && b == DoubleQuote && bb == HebrewLetter
                || aa == HebrewLetter && a == DoubleQuote && b == HebrewLetter
                || a == Numeric && b == Numeric
                || ah(a) && b == Numeric
                || a == Numeric && ah(b)
                || aa == Numeric && (a == MidNum || mnlq(a)) && b == Numeric
                || a == Numeric && (b == MidNum || mnlq(b)) && bb == Numeric
                || a == Katakana && b == Katakana
                || (ah(a) || a == Numeric || a == Katakana || a == ExtendNumLet) && b == ExtendNumLet
                || a == ExtendNumLet && (ah(b) || b == Numeric || b == Katakana)
                || (a == EBase || a == EBaseGAZ) && b == EModifier
                || b == RegionalIndicator && ris % 2 == 1
        };
        if !join {
            out.push(t[i].0);
        }
    }
    if n > 0 {
        out.push(s.len());
    }
    out
}
fn letter(s: &&str) -> bool {
    s.chars().any(|c| W::of(c) == ALetter)
}
fn words(r: &mut Run, s: &str) {
    let w = bounds(s);
    r.count(w.len() > 2 && w.len() <= s.chars().count());
    let pieces: Vec<(usize, &str)> = w.windows(2).map(|p| (p[0], &s[p[0]..p[1]])).collect();
    let f = r.real("words", s, || WordBoundIndices::new(s).collect::<Vec<_>>());
    let b = r.real("words", s, || {
        let mut v: Vec<_> = WordBoundIndices::new(s).rev().collect();
        v.reverse();
        v
    });
    if let (Some(f), Some(b)) = (f, b) {
        r.same("words", s, f, pieces.clone());
        r.same("words-back", s, b, pieces.clone());
    }
    // from both ends
    let (bits, mut lo, mut hi) = (r.rng.next(), 0, pieces.len());
    let ok = r.real("words-mixed", s, || {
        let (mut g, mut x) = (WordBounds::new(s), WordBoundIndices::new(s));
        let mut f = Words::new(s, letter);
        for k in 0..pieces.len() + 2 {
            let rest: String = pieces[lo..hi].iter().map(|p| p.1).collect();
            let h = g.size_hint();
            if g.as_str() != rest || x.as_str() != rest || h.0 > hi - lo || h.1.map_or(true, |h| h < hi - lo) || x.size_hint() != h {
                return false;
            }
            let back = bits >> (k % 64) & 1 == 1;
            let (p, q) = if back { (g.next_back(), x.next_back()) } else { (g.next(), x.next()) };
            let want = if lo == hi {
                None
            } else if back {
                hi -= 1;
                Some(pieces[hi])
            } else {
                lo += 1;
                Some(pieces[lo - 1])
            };
            if p != want.map(|w| w.1) || q != want {
                return false;
            }
            if want.map_or(true, |w| letter(&w.1)) {
                let p = if back { f.next_back() } else { f.next() };
                if p != want.map(|w| w.1) {
                    return false;
                }
            }
        }
        true
    });
    if let Some(ok) = ok {
        r.check("words-mixed", (s, bits), ok, "iterating from both ends yields other words");
    }
}
fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "word_break", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_ucd::WordBreak::of(c)));
    });
    let mut of: Vec<Vec<char>> = vec![];
    let mut kinds: Vec<W> = vec![];
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let k = W::of(c);
        match kinds.iter().position(|x| *x == k) {
            Some(i) => of[i].push(c),
            None => {
                kinds.push(k);
                of.push(vec![c])
            }
        }
    }
    r.part("every character: the classes CR and LF have one character each (the proof uses it)");
    for (k, one) in [(W::CR, '\r'), (W::LF, '\n')] {
        let i = kinds.iter().position(|x| *x == k);
        r.check("crlf", format!("{:?}", k), i.map_or(true, |i| of[i] == [one]), "another character has this class");
    }
    let m = kinds.len();
    r.part("one character of each class, all texts of up to 4 characters (exhaustive), forwards, backwards and from both ends");
    for n in 0..5u32 {
        for x in 0..m.pow(n) {
            let mut y = x;
            let s: String = (0..n).map(|_| { let c = of[y % m][0]; y /= m; c }).collect();
            words(&mut r, &s);
        }
        if !r.time(50) {
            break;
        }
    }
    r.part("random texts of up to 16 characters of few classes");
    while !r.over() && !r.enough() {
        let set: Vec<usize> = (0..1 + r.rng.below(4)).map(|_| r.rng.below(m)).collect();
        let len = r.rng.below(17);
        let s: String = (0..len).map(|_| { let i = if r.rng.below(6) == 0 { r.rng.below(m) } else { *r.rng.pick(&set) }; *r.rng.pick(&of[i]) }).collect();
        r.sample(&s);
        words(&mut r, &s);
    }
    r.finish()
}
