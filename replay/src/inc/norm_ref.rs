// Reference for UAX #15, over the mappings of single characters.
use std::collections::HashMap;
use unic_ucd::normal::{canonical_decomposition, compatibility_decomposition, CanonicalCombiningClass};

pub fn scalars() -> impl Iterator<Item = char> {
    (0..=0x10_FFFFu32).filter_map(std::char::from_u32)
}
/// CompositionExclusions.txt, the script-specific and post-composition parts
pub const EXCLUDED: &[(u32, u32)] = &[
    (0x958, 0x95F), (0x9DC, 0x9DD), (0x9DF, 0x9DF), (0xA33, 0xA33), (0xA36, 0xA36), (0xA59, 0xA5B), (0xA5E, 0xA5E), (0xB5C, 0xB5D),
    (0xF43, 0xF43), (0xF4D, 0xF4D), (0xF52, 0xF52), (0xF57, 0xF57), (0xF5C, 0xF5C), (0xF69, 0xF69), (0xF76, 0xF76), (0xF78, 0xF78),
    (0xF93, 0xF93), (0xF9D, 0xF9D), (0xFA2, 0xFA2), (0xFA7, 0xFA7), (0xFAC, 0xFAC), (0xFB9, 0xFB9), (0xFB1D, 0xFB1D), (0xFB1F, 0xFB1F),
    (0xFB2A, 0xFB36), (0xFB38, 0xFB3C), (0xFB3E, 0xFB3E), (0xFB40, 0xFB41), (0xFB43, 0xFB44), (0xFB46, 0xFB4E), (0x2ADC, 0x2ADC),
    (0x1D15E, 0x1D164), (0x1D1BB, 0x1D1C0),
];
pub fn ccc(c: char) -> u8 {
    CanonicalCombiningClass::of(c).number()
}
pub fn syllable(c: char) -> Option<Vec<char>> {
    let s = (c as u32).wrapping_sub(0xAC00);
    if s >= 11172 {
        return None;
    }
    let mut v = vec![0x1100 + s / 588, 0x1161 + s % 588 / 28];
    if s % 28 != 0 {
        v.push(0x11A7 + s % 28);
    }
    Some(v.into_iter().map(|x| std::char::from_u32(x).unwrap()).collect())
}
pub fn full(c: char, k: bool, out: &mut Vec<char>) {
    let m = if k { canonical_decomposition(c).or_else(|| compatibility_decomposition(c)) } else { canonical_decomposition(c) };
    match (syllable(c), m) {
        (Some(v), _) => out.extend(v),
        (_, Some(m)) => m.iter().for_each(|x| full(*x, k, out)),
        _ => out.push(c),
    }
}
pub fn nfd(s: &[char], k: bool) -> Vec<char> {
    let mut v = vec![];
    s.iter().for_each(|c| full(*c, k, &mut v));
    loop {
        let mut again = false;
        for i in 1..v.len() {
            if ccc(v[i - 1]) > ccc(v[i]) && ccc(v[i]) > 0 {
                v.swap(i - 1, i);
                again = true;
            }
        }
        if !again {
            return v;
        }
    }
}
/// the primary composites: canonically decomposable into two starters-first characters, not excluded
pub fn pairs() -> HashMap<(char, char), char> {
    let mut h = HashMap::new();
    for c in scalars() {
        if let Some(m) = canonical_decomposition(c) {
            if m.len() == 2 && ccc(c) == 0 && ccc(m[0]) == 0 && !EXCLUDED.iter().any(|r| r.0 <= c as u32 && c as u32 <= r.1) {
                h.insert((m[0], m[1]), c);
            }
        }
        if let Some(v) = syllable(c) {
            if v.len() == 2 {
                h.insert((v[0], v[1]), c);
            } else {
                let lv = std::char::from_u32(c as u32 - (v[2] as u32 - 0x11A7)).unwrap();
                h.insert((lv, v[2]), c);
            }
        }
    }
    h
}
/// D117 on a decomposed text, seeking back for each character as the definition says
pub fn nfc(s: &[char], k: bool, pairs: &HashMap<(char, char), char>) -> Vec<char> {
    let mut v = nfd(s, k);
    let mut i = 1;
    while i < v.len() {
        let c = v[i];
        if let Some(l) = (0..i).rev().find(|&j| ccc(v[j]) == 0) {
            let blocked = v[l + 1..i].iter().any(|&b| ccc(b) == 0 || ccc(b) >= ccc(c));
            if let (false, Some(&p)) = (blocked, pairs.get(&(v[l], c))) {
                v[l] = p;
                v.remove(i);
                continue;
            }
        }
        i += 1;
    }
    v
}
/// characters that matter: those that decompose, compose or reorder
pub fn interesting(pairs: &HashMap<(char, char), char>) -> Vec<char> {
    let mut v: Vec<char> = scalars()
        .filter(|&c| (canonical_decomposition(c).is_some() || ccc(c) != 0) && !('\u{F900}'..='\u{FAFF}').contains(&c) && !('\u{2F800}'..='\u{2FA1F}').contains(&c))
        .collect();
    let mut p: Vec<char> = pairs.keys().flat_map(|k| vec![k.0, k.1]).filter(|c| syllable(*c).is_none()).collect();
    p.sort();
    p.dedup();
    v.extend(p);
    v
}
