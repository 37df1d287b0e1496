// Executable UAX #9, BD13, X10, W1-W7, N1-N2 (no bracket pairs: the library has no N0), I1-I2.
// Written from the standard over characters. `Seq::loose` marks the sequences on which the library is known
// to differ (known_findings.json): they are not compared.
#![allow(dead_code)]
use super::bidi_ref::*;
use unic_bidi::BidiClass;

pub struct Seq {
    /// places (characters of the paragraph), X9's characters left out
    pub at: Vec<usize>,
    pub sos: BidiClass,
    pub eos: BidiClass,
    pub loose: bool,
}
fn dir(l: u32) -> BidiClass {
    if l % 2 == 0 { LeftToRight } else { RightToLeft }
}
/// The isolating run sequences of a paragraph. ex: what X1-X8 give (None: removed).
pub fn sequences(cls: &[BidiClass], ex: &[(Option<u32>, BidiClass)], p: u32) -> Vec<Seq> {
    let kept: Vec<usize> = (0..cls.len()).filter(|&i| ex[i].0.is_some()).collect();
    // BD7
    let mut runs: Vec<Vec<usize>> = vec![];
    for &i in &kept {
        match runs.last_mut() {
            Some(r) if ex[*r.last().unwrap()].0 == ex[i].0 => r.push(i),
            _ => runs.push(vec![i]),
        }
    }
    // BD13
    let mut used = vec![false; runs.len()];
    let mut out = vec![];
    let matched = |k: usize| kept.iter().any(|&i| initiator(cls[i]) && matching_pdi(cls, i) == Some(runs[k][0]));
    for k in 0..runs.len() {
        // a run that starts with a matched PDI goes on with the sequence of its initiator
        if used[k] || matched(k) {
            continue;
        }
        let mut at: Vec<usize> = vec![];
        let mut m = k;
        loop {
            used[m] = true;
            at.extend(&runs[m]);
            let l = *runs[m].last().unwrap();
            if !initiator(cls[l]) {
                break;
            }
            match matching_pdi(cls, l).and_then(|j| runs.iter().position(|r| r[0] == j)) {
                Some(x) if !used[x] => m = x,
                _ => break,
            }
        }
        let (a, z) = (at[0], at[at.len() - 1]);
        let lv = ex[a].0.unwrap();
        let before = kept.iter().rev().find(|&&i| i < a).map(|&i| ex[i].0.unwrap()).unwrap_or(p);
        let after = if initiator(cls[z]) { p } else { kept.iter().find(|&&i| i > z).map(|&i| ex[i].0.unwrap()).unwrap_or(p) };
        out.push(Seq { at, sos: dir(lv.max(before)), eos: dir(lv.max(after)), loose: false });
    }
    out
}
fn num(c: BidiClass) -> bool {
    c == EuropeanNumber || c == ArabicNumber
}
fn sep(c: BidiClass) -> bool {
    c == EuropeanSeparator || c == CommonSeparator
}
fn iso(c: BidiClass) -> bool {
    initiator(c) || c == PopDirectionalIsolate
}
pub fn ni(c: BidiClass) -> bool {
    iso(c) || c == ParagraphSeparator || c == SegmentSeparator || c == WhiteSpace || c == OtherNeutral
}
/// W1-W7, one after the other, on the classes c of a sequence's characters
pub fn weak(c: &[BidiClass], sos: BidiClass) -> Vec<BidiClass> {
    let mut d = c.to_vec();
    let n = d.len();
    for i in 0..n {
        if d[i] == NonspacingMark {
            let p = if i == 0 { sos } else { d[i - 1] };
            d[i] = if iso(p) { OtherNeutral } else { p };
        }
    }
    let last = |d: &[BidiClass], i: usize| d[..i].iter().rev().cloned().find(|&x| strong(x)).unwrap_or(sos);
    for i in 0..n {
        if d[i] == EuropeanNumber && last(&d, i) == ArabicLetter {
            d[i] = ArabicNumber;
        }
    }
    for x in d.iter_mut() {
        if *x == ArabicLetter {
            *x = RightToLeft;
        }
    }
    for i in 1..n.max(1) {
        if i + 1 < n && sep(d[i]) && num(d[i - 1]) && d[i - 1] == d[i + 1] && (d[i] == CommonSeparator || d[i - 1] == EuropeanNumber) {
            d[i] = d[i - 1];
        }
    }
    let mut i = 0;
    while i < n {
        if d[i] != EuropeanTerminator {
            i += 1;
            continue;
        }
        let s = i;
        while i < n && d[i] == EuropeanTerminator {
            i += 1;
        }
        if s > 0 && d[s - 1] == EuropeanNumber || i < n && d[i] == EuropeanNumber {
            for x in &mut d[s..i] {
                *x = EuropeanNumber;
            }
        }
    }
    for x in d.iter_mut() {
        if sep(*x) || *x == EuropeanTerminator {
            *x = OtherNeutral;
        }
    }
    for i in 0..n {
        if d[i] == EuropeanNumber && last(&d, i) == LeftToRight {
            d[i] = LeftToRight;
        }
    }
    d
}
pub fn neutral(c: &[BidiClass], sos: BidiClass, eos: BidiClass, e: BidiClass) -> Vec<BidiClass> {
    let mut d = c.to_vec();
    let side = |c: BidiClass| if num(c) { RightToLeft } else { c };
    let mut i = 0;
    while i < d.len() {
        if !ni(d[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < d.len() && ni(d[i]) {
            i += 1;
        }
        let a = side(if s == 0 { sos } else { c[s - 1] });
        let b = side(if i == d.len() { eos } else { c[i] });
        for x in &mut d[s..i] {
            *x = if a == b && (a == LeftToRight || a == RightToLeft) { a } else { e };
        }
    }
    d
}
pub fn implicit(l: u32, c: BidiClass) -> u32 {
    if l % 2 == 0 {
        if c == RightToLeft { l + 1 } else if num(c) { l + 2 } else { l }
    } else if c == LeftToRight || num(c) {
        l + 1
    } else {
        l
    }
}
/// The final level of every character of a paragraph; None where the library is known to differ.
/// wide: whether a character takes more than one byte
pub fn resolve(cls: &[BidiClass], p: u32, wide: &[bool]) -> Vec<Option<u32>> {
    let ex = explicit(cls, p);
    let mut out: Vec<Option<u32>> = vec![None; cls.len()];
    // an initiator that removed characters follow is not seen as the end of its run: known
    if (0..cls.len()).any(|i| initiator(cls[i]) && i + 1 < cls.len() && removed(cls[i + 1])) {
        return out;
    }
    for s in sequences(cls, &ex, p) {
        let c: Vec<BidiClass> = s.at.iter().map(|&i| ex[i].1).collect();
        let d = weak(&c, s.sos);
        let e = dir(ex[s.at[0]].0.unwrap());
        let f = neutral(&d, s.sos, s.eos, e);
        let n = c.len();
        let et = EuropeanTerminator;
        let mut loose = false;
        let mut al = s.sos == ArabicLetter;
        for k in 0..n {
            if strong(c[k]) {
                al = c[k] == ArabicLetter;
            }
            // W2
            loose |= al && c[k] == EuropeanNumber;
            // W4 sees the next byte of the separator itself
            loose |= sep(c[k]) && wide[s.at[k]];
            // one pass for W1, W4 to W6: a terminator next to a mark or a separator
            let odd = |x: BidiClass| x == NonspacingMark || sep(x);
            loose |= c[k] == et && (k > 0 && odd(c[k - 1]) || k + 1 < n && odd(c[k + 1]) || k + 1 == n);
            // marks carry on what precedes them, separators look at what precedes them: a mark next to one
            loose |= c[k] == NonspacingMark && (k > 0 && odd(c[k - 1]) || k + 1 < n && odd(c[k + 1]));
            // a stretch of neutrals that starts with a removed character
            let i = s.at[k];
            let stretch = ni(d[k]) && (k == 0 || !ni(d[k - 1]));
            loose |= stretch && i > 0 && removed(cls[i - 1]);
        }
        if loose {
            continue;
        }
        for k in 0..n {
            out[s.at[k]] = Some(implicit(ex[s.at[k]].0.unwrap(), f[k]));
        }
    }
    out
}
