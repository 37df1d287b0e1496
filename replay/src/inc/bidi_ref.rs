// Executable UAX #9 specifications, written from the standard, independent of the code under test.
// Classes as short names: the real class enum's Display/abbr is not relied on.
#![allow(dead_code)]
use unic_bidi::BidiClass;
pub use BidiClass::*;

pub fn removed(c: BidiClass) -> bool {
    c == RightToLeftEmbedding || c == LeftToRightEmbedding || c == RightToLeftOverride || c == LeftToRightOverride || c == PopDirectionalFormat || c == BoundaryNeutral
}
pub fn initiator(c: BidiClass) -> bool {
    c == LeftToRightIsolate || c == RightToLeftIsolate || c == FirstStrongIsolate
}
pub fn strong(c: BidiClass) -> bool {
    c == LeftToRight || c == RightToLeft || c == ArabicLetter
}
pub fn next_even(n: u32) -> u32 {
    if n % 2 == 0 { n + 2 } else { n + 1 }
}
pub fn next_odd(n: u32) -> u32 {
    if n % 2 == 0 { n + 1 } else { n + 2 }
}
/// BD9: matching PDI of the isolate initiator at `i` within its paragraph
pub fn matching_pdi(cls: &[BidiClass], i: usize) -> Option<usize> {
    let mut d = 1;
    for j in i + 1..cls.len() {
        if cls[j] == ParagraphSeparator {
            return None;
        }
        if initiator(cls[j]) {
            d += 1;
        } else if cls[j] == PopDirectionalIsolate {
            d -= 1;
            if d == 0 {
                return Some(j);
            }
        }
    }
    None
}
/// P2: first strong class in cls[a..b], skipping isolates
pub fn first_strong(cls: &[BidiClass], a: usize, b: usize) -> Option<BidiClass> {
    let mut i = a;
    while i < b {
        if cls[i] == ParagraphSeparator {
            return None;
        }
        if strong(cls[i]) {
            return Some(cls[i]);
        }
        if initiator(cls[i]) {
            match matching_pdi(cls, i) {
                Some(j) => i = j,
                None => return None,
            }
        }
        i += 1;
    }
    None
}
/// Paragraph ranges in characters
pub fn paragraphs(cls: &[BidiClass]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut a = 0;
    for i in 0..cls.len() {
        if cls[i] == ParagraphSeparator {
            v.push((a, i + 1));
            a = i + 1;
        }
    }
    if a < cls.len() {
        v.push((a, cls.len()));
    }
    v
}
/// X5c as this library reports it: an FSI becomes LRI/RLI when a strong character decides it, else stays FSI
pub fn resolve_fsi(cls: &[BidiClass]) -> Vec<BidiClass> {
    (0..cls.len())
        .map(|i| {
            if cls[i] != FirstStrongIsolate {
                return cls[i];
            }
            let end = matching_pdi(cls, i).unwrap_or(cls.len());
            match first_strong(cls, i + 1, end) {
                Some(LeftToRight) => LeftToRightIsolate,
                Some(_) => RightToLeftIsolate,
                None => FirstStrongIsolate,
            }
        })
        .collect()
}
/// X1-X8 over one paragraph: (explicit level, class after overrides) per character.
/// Removed characters get level None.
pub fn explicit(cls: &[BidiClass], p: u32) -> Vec<(Option<u32>, BidiClass)> {
    let mut st: Vec<(u32, Option<BidiClass>, bool)> = vec![(p, None, false)];
    let (mut oi, mut oe, mut vi) = (0, 0, 0);
    let mut out = vec![];
    for &c in cls {
        let top = *st.last().unwrap();
        let ov = |t: (u32, Option<BidiClass>, bool)| (Some(t.0), t.1.unwrap_or(c));
        match c {
            RightToLeftEmbedding | LeftToRightEmbedding | RightToLeftOverride | LeftToRightOverride => {
                let n = if c == RightToLeftEmbedding || c == RightToLeftOverride { next_odd(top.0) } else { next_even(top.0) };
                if n <= 125 && oi == 0 && oe == 0 {
                    st.push((n, match c { RightToLeftOverride => Some(RightToLeft), LeftToRightOverride => Some(LeftToRight), _ => None }, false));
                } else if oi == 0 {
                    oe += 1;
                }
                out.push((None, c));
            }
            RightToLeftIsolate | LeftToRightIsolate | FirstStrongIsolate => {
                out.push(ov(top));
                let n = if c == RightToLeftIsolate { next_odd(top.0) } else { next_even(top.0) };
                if n <= 125 && oi == 0 && oe == 0 {
                    vi += 1;
                    st.push((n, None, true));
                } else {
                    oi += 1;
                }
            }
            PopDirectionalIsolate => {
                if oi > 0 {
                    oi -= 1;
                } else if vi > 0 {
                    oe = 0;
                    while !st.last().unwrap().2 {
                        st.pop();
                    }
                    st.pop();
                    vi -= 1;
                }
                out.push(ov(*st.last().unwrap()));
            }
            PopDirectionalFormat => {
                if oi > 0 {
                } else if oe > 0 {
                    oe -= 1;
                } else if !top.2 && st.len() >= 2 {
                    st.pop();
                }
                out.push((None, c));
            }
            BoundaryNeutral => out.push((None, c)),
            ParagraphSeparator => out.push((Some(p), c)),
            _ => out.push(ov(top)),
        }
    }
    out
}
/// Representative characters, one or more per class
pub const CHARS: &[char] = &[
    'a', '\u{5D0}', '\u{627}', '1', '\u{661}', '+', '$', ',', '\u{300}', '\u{200B}', ' ', '\t', '(', ')', '!', '\u{202A}', '\u{202B}', '\u{202D}', '\u{202E}', '\u{202C}',
    '\u{2066}', '\u{2067}', '\u{2068}', '\u{2069}', '\u{10880}', '\u{1F600}', '\u{DF}', '\u{1E800}',
];
pub const SEPS: &[char] = &['\u{2029}', '\n', '\u{85}', '\u{1C}'];
