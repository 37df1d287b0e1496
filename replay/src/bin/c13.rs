//! C13: reordering for display (UAX #9 L1, L2), on computed levels and on any levels at all.
use replay::Run;
use unic_bidi::{BidiInfo, Level, ParagraphInfo};
#[path = "../inc/bidi_ref.rs"]
mod bidi_ref;
use bidi_ref::*;

fn one(r: &mut Run, info: &BidiInfo<'_>, para: &ParagraphInfo, a: usize, b: usize) {
    let t = info.text;
    let cs: Vec<(usize, char)> = t.char_indices().collect();
    let id = (t, info.levels.iter().map(|l| l.number()).collect::<Vec<_>>(), para.level.number(), a..b);
    // L1
    let mut want = info.levels.clone();
    let mut soft = vec![false; t.len()];
    let mut tail = true;
    for &(i, c) in cs.iter().rev() {
        if i < a || i >= b {
            continue;
        }
        let k = info.original_classes[i];
        let sep = k == ParagraphSeparator || k == SegmentSeparator;
        let ws = k == WhiteSpace || initiator(k) || k == PopDirectionalIsolate;
        if sep || ws && tail {
            for j in 0..c.len_utf8() { want[i + j] = para.level; }
        }
        for j in 0..c.len_utf8() { soft[i + j] = removed(k); }
        tail = sep || (ws || removed(k)) && tail;
    }
    let (levels, runs) = match r.real("panic", &id, || info.visual_runs(para, a..b)) {
        Some(x) => x,
        None => return,
    };
    if !r.check("length", &id, levels.len() == t.len(), "one level per byte") {
        return;
    }
    for i in 0..t.len() {
        let ok = levels[i] == want[i] || soft[i] && levels[i] == para.level;
        if !r.check("L1", (&id, i, levels[i].number()), ok, "the level after L1") {
            return;
        }
    }
    // runs, in logical order: a partition into maximal runs
    let mut log = runs.clone();
    log.sort_by_key(|x| x.start);
    let mut at = a;
    for x in &log {
        if !r.check("runs", (&id, &runs), x.start == at && x.end > x.start && t.is_char_boundary(x.start), "runs partition the line at character boundaries") {
            return;
        }
        if !r.check("runs", (&id, &runs), (x.start..x.end).all(|j| levels[j] == levels[x.start]), "a run has one level")
            || !r.check("runs", (&id, &runs), x.start == a || levels[x.start - 1] != levels[x.start], "runs are maximal") {
            return;
        }
        at = x.end;
    }
    if !r.check("runs", (&id, &runs), at == b, "runs partition the line") {
        return;
    }
    // L2 by characters
    let mut order: Vec<(usize, char)> = cs.iter().cloned().filter(|x| x.0 >= a && x.0 < b).collect();
    let lv = |x: &(usize, char)| levels[x.0].number();
    let hi = order.iter().map(lv).max().unwrap_or(0);
    let lo = order.iter().map(lv).filter(|l| l % 2 == 1).min().unwrap_or(200);
    let mut l = hi;
    while l >= lo {
        let mut i = 0;
        while i < order.len() {
            let mut j = i;
            while j < order.len() && lv(&order[j]) >= l { j += 1; }
            order[i..j].reverse();
            i = j.max(i + 1);
        }
        l -= 1;
    }
    let want: String = order.iter().map(|x| x.1).collect();
    let flat: String = runs.iter().map(|x| if levels[x.start].number() % 2 == 1 { t[x.clone()].chars().rev().collect::<String>() } else { t[x.clone()].to_string() }).collect();
    r.same("visual order", &id, flat, want.clone());
    if let Some(x) = r.real("panic", &id, || info.reorder_line(para, a..b).into_owned()) {
        r.same("reorder_line", &id, x, want);
    }
    r.same("reordered_levels", &id, info.reordered_levels(para, a..b), levels.clone());
    r.same("per char", &id, info.reordered_levels_per_char(para, a..b), cs.iter().map(|x| levels[x.0]).collect::<Vec<_>>());
    r.same("has_rtl", &id, info.has_rtl(), info.levels.iter().any(|l| l.number() % 2 == 1));
    r.count(lo < 200);
}

fn text(r: &mut Run, al: &[char], n: usize) -> String {
    (0..r.rng.below(n)).map(|_| if r.rng.below(8) == 0 { *r.rng.pick(CHARS) } else { *r.rng.pick(al) }).collect()
}

fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "bidi_class", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_bidi::BidiClass::of(c)));
    });
    let al = ['a', '\u{5D0}', '1', ' ', '\t', '\n', '\u{202B}', '\u{202C}', '\u{2067}', '\u{2069}', '\u{2028}', '\u{A0}', '\u{200B}', '\u{661}', '\u{10910}', '!'];
    r.part("every sequence of up to 6 levels out of 5, on characters of 1 to 4 bytes");
    for len in 0..=6u32 {
        for k in 0..5usize.pow(len) {
            let mut k = k;
            let t: String = (0..len as usize).map(|i| ['a', '\u{5D0}', '\u{20AC}', '\u{10910}'][(i * 7 + k) % 4]).collect();
            let mut levels = vec![];
            for c in t.chars() {
                for _ in 0..c.len_utf8() { levels.push(Level::new([0, 1, 2, 3, 126][k % 5]).unwrap()); }
                k /= 5;
            }
            let info = BidiInfo { text: &t, original_classes: t.chars().flat_map(|c| vec![unic_bidi::BidiClass::of(c); c.len_utf8()]).collect(), levels, paragraphs: vec![] };
            let p = ParagraphInfo { range: 0..t.len(), level: Level::new(0).unwrap() };
            one(&mut r, &info, &p, 0, t.len());
        }
        if !r.time(50) { break; }
    }
    r.part("random lines of random texts, with computed and with random levels");
    while r.time(95) {
        let t = text(&mut r, &al, 24);
        let lv = match r.rng.below(5) { 0 => Some(0), 1 => Some(1), 2 => Some(r.rng.below(126) as u8), _ => None };
        let mut info = match r.real("panic", (&t, lv), || BidiInfo::new(&t, lv.map(|n| Level::new(n).unwrap()))) {
            Some(i) => i,
            None => continue,
        };
        for (i, c) in t.char_indices() {
            for j in 1..c.len_utf8() {
                r.same("bytes", (&t, lv, i), info.levels[i + j], info.levels[i]);
            }
        }
        let base: Vec<u8> = (0..4).map(|_| r.rng.below(127) as u8).collect();
        if r.rng.below(2) == 0 {
            for (i, c) in t.char_indices() {
                let l = Level::new(*r.rng.pick(&base)).unwrap();
                for j in 0..c.len_utf8() { info.levels[i + j] = l; }
            }
        }
        let mut ps = info.paragraphs.clone();
        ps.push(ParagraphInfo { range: 0..t.len(), level: Level::new(r.rng.below(127) as u8).unwrap() });
        for p in &ps {
            let mut cut: Vec<usize> = t.char_indices().map(|x| x.0).filter(|&i| i >= p.range.start && i <= p.range.end).collect();
            cut.push(p.range.end);
            one(&mut r, &info, p, p.range.start, p.range.end);
            for _ in 0..3 {
                let (a, b) = (*r.rng.pick(&cut), *r.rng.pick(&cut));
                one(&mut r, &info, p, a.min(b), a.max(b));
            }
        }
    }
    r.sample("ab \u{5D0}\u{5D1} cd");
    r.finish()
}
