// BidiInfo::new against the reference of bidi_seq.rs
use super::bidi_ref::*;
use super::bidi_seq::*;
use replay::Run;
use unic_bidi::{BidiInfo, Level};

pub fn one(r: &mut Run, t: &str, lv: Option<u8>) {
    let cs: Vec<char> = t.chars().collect();
    let cls: Vec<_> = cs.iter().map(|&c| unic_bidi::BidiClass::of(c)).collect();
    let fsi = resolve_fsi(&cls);
    let wide: Vec<bool> = cs.iter().map(|c| c.len_utf8() > 1).collect();
    let info = match r.real("panic", (t, lv), || BidiInfo::new(t, lv.map(|n| Level::new(n).unwrap()))) {
        Some(i) => i,
        None => return,
    };
    if !r.check("length", (t, lv), info.levels.len() == t.len(), "one level per byte") {
        return;
    }
    let mut o = 0;
    let offs: Vec<usize> = cs.iter().map(|c| { let x = o; o += c.len_utf8(); x }).collect();
    let mut nt = false;
    for (a, b) in paragraphs(&cls) {
        let p = lv.map(|n| n as u32).unwrap_or(match first_strong(&cls, a, b) {
            Some(LeftToRight) | None => 0,
            _ => 1,
        });
        let want = resolve(&fsi[a..b], p, &wide[a..b]);
        nt |= want.iter().any(|x| x.is_some() && *x != Some(p));
        for k in a..b {
            let got = info.levels[offs[k]].number() as u32;
            for j in 1..cs[k].len_utf8() {
                r.same("bytes", (t, lv, k), info.levels[offs[k] + j].number() as u32, got);
            }
            if let Some(w) = want[k - a] {
                r.same("level", (t, lv, k), got, w);
            }
            if removed(cls[k]) {
                r.same("removed", (t, lv, k), got, if k == a { p } else { info.levels[offs[k - 1]].number() as u32 });
            }
        }
    }
    r.count(nt);
}
/// The levels of one text that the library is known to get wrong
pub fn finding(r: &mut Run, t: &str, lv: u8, want: &[u8]) {
    if let Some(i) = r.real("finding", (t, lv), || BidiInfo::new(t, Some(Level::new(lv).unwrap()))) {
        let got: Vec<u8> = t.char_indices().map(|(o, _)| i.levels[o].number()).collect();
        r.same("finding", (t, lv), &got[..], want);
    }
}
/// all texts of up to `len` characters over `al`
pub fn all(r: &mut Run, al: &[char], len: u32) {
    let n = al.len();
    for len in 0..=len {
        for k in 0..n.pow(len) {
            let mut k = k;
            let t: String = (0..len).map(|_| { let c = al[k % n]; k /= n; c }).collect();
            one(r, &t, [None, Some(0), Some(1)][k % 3]);
            one(r, &t, Some(0));
            one(r, &t, Some(1));
        }
    }
}
