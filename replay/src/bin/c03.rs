//! C03: every shipped table is well formed, and every lookup reports what its table says, for every character.
use replay::Run;
use std::fs;
use unic_char_property::tables::CharDataTable;
use unic_char_property::{EnumeratedCharProperty, PartialCharProperty};
use unic_char_range::CharRange;
use unic_ucd::*;

struct Table {
    range: bool,
    rows: Vec<(u32, u32, String)>,
}

fn hex(s: &str) -> (u32, usize) {
    // '\u{XXXX}'
    let s = s.strip_prefix("'\\u{").expect("a character escape");
    let e = s.find('}').unwrap();
    (u32::from_str_radix(&s[..e], 16).unwrap(), e + 6)
}

/// The rows of a .rsv file, nested tables left as text.
fn parse(path: &str) -> Table {
    let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let body = &text[text.find("CharDataTable::").expect("a table")..];
    let range = body.starts_with("CharDataTable::Range(");
    let mut rows = vec![];
    for line in body.lines().skip(1) {
        let line = line.trim();
        if !line.starts_with('(') {
            continue;
        }
        let line = line.trim_end_matches(',');
        let inner = &line[1..line.len() - 1];
        if range {
            let s = inner.strip_prefix("chars!(").expect("chars!");
            let (a, n) = hex(s);
            let s = &s[n..];
            let (b, s) = if let Some(t) = s.strip_prefix("..=") { let (b, n) = hex(t); (b, &t[n..]) } else { panic!("row {}", line) };
            rows.push((a, b, s.strip_prefix("),").expect("a value").trim().to_string()));
        } else {
            let (a, n) = hex(inner);
            rows.push((a, a, inner[n..].strip_prefix(',').expect("a value").trim().to_string()));
        }
    }
    Table { range, rows }
}

fn formed(r: &mut Run, path: &str, t: &Table) {
    let scalar = |u: u32| std::char::from_u32(u).is_some();
    for (i, w) in t.rows.iter().enumerate() {
        r.count(true);
        if w.0 > w.1 || !scalar(w.0) || !scalar(w.1) {
            r.fail("table", format!("{} row {}", path, i), format!("{:x?} is not a range of characters", w));
        }
        if i > 0 && t.rows[i - 1].1 >= w.0 {
            r.fail("table", format!("{} row {}", path, i), format!("{:x?} does not lie after {:x?}", w, t.rows[i - 1]));
        }
    }
}

/// `of` against the rows, for every character; `of` says what it reports and whether that is what the text says.
fn lookup(r: &mut Run, path: &str, of: impl Fn(char, Option<&str>) -> Result<(), String>) {
    let t = parse(path);
    formed(r, path, &t);
    let mut i = 0;
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        while i < t.rows.len() && t.rows[i].1 < c as u32 {
            i += 1;
        }
        let row = t.rows.get(i).filter(|w| w.0 <= c as u32);
        r.count(row.is_some());
        match replay::quiet(|| of(c, row.map(|w| &w.2[..]))) {
            None => r.fail("panic", format!("{} {:?}", path, c), "panicked".into()),
            Some(Err(e)) => r.fail("lookup", format!("{} {:?}", path, c), e),
            _ => {}
        }
        if r.enough() {
            return;
        }
    }
}

fn ok<T: std::fmt::Debug>(good: bool, got: T, want: Option<&str>) -> Result<(), String> {
    if good { Ok(()) } else { Err(format!("got {:?}, the table says {}", got, want.unwrap_or("nothing"))) }
}

fn yes(got: bool, want: Option<&str>) -> Result<(), String> {
    ok(got == want.is_some(), got, want)
}

fn named<T: EnumeratedCharProperty + std::fmt::Debug + PartialEq + Copy>(got: T, want: Option<&str>, dflt: T) -> Result<(), String> {
    let good = match want {
        None => got == dflt,
        Some(w) => {
            let w = w.rsplit("::").next().unwrap();
            w == got.abbr_name() || w == got.long_name() || w == format!("{:?}", got)
        }
    };
    ok(good, got, want)
}

fn chars_in(s: &str) -> Vec<char> {
    s.split("'\\u{").skip(1).map(|p| std::char::from_u32(u32::from_str_radix(&p[..p.find('}').unwrap()], 16).unwrap()).unwrap()).collect()
}

fn quoted(s: &str) -> Vec<String> {
    s.split('"').skip(1).step_by(2).map(|x| x.to_string()).collect()
}

/// Small tables of every shape against their rows.
fn shapes(r: &mut Run) {
    let keys = ['\0', 'a', 'c', '\u{D7FF}', '\u{E000}', '\u{FFFF}', '\u{10FFFE}', '\u{10FFFF}'];
    let probes: Vec<char> = keys.iter().flat_map(|&k| {
        let u = k as u32;
        vec![Some(u), u.checked_sub(1), Some(u + 1)]
    }).flatten().filter_map(std::char::from_u32).collect();
    for mask in 0..256u32 {
        let ks: Vec<char> = (0..8).filter(|b| mask >> b & 1 == 1).map(|b| keys[b as usize]).collect();
        let d: &'static [(char, usize)] = Box::leak(ks.iter().cloned().enumerate().map(|(i, k)| (k, i + 1)).collect::<Vec<_>>().into_boxed_slice());
        let mut rows: Vec<(CharRange, usize)> = vec![];
        let mut i = 0;
        while i < ks.len() {
            // pair every other key with its successor
            let j = if (mask + i as u32) % 3 == 0 && i + 1 < ks.len() { i + 1 } else { i };
            rows.push((CharRange::closed(ks[i], ks[j]), rows.len() + 1));
            i = j + 1;
        }
        let g: &'static [(CharRange, usize)] = Box::leak(rows.into_boxed_slice());
        for (t, rows) in vec![
            (CharDataTable::Direct(d), d.iter().map(|&(k, v)| (CharRange::closed(k, k), v)).collect::<Vec<_>>()),
            (CharDataTable::Range(g), g.to_vec()),
        ] {
            r.count(!rows.is_empty());
            for &c in &probes {
                let w = rows.iter().find(|(k, _)| k.low <= c && c <= k.high).cloned();
                let inp = (&t, c);
                if let Some(v) = r.real("panic", &inp, || (t.contains(c), t.find(c), t.find_or_default(c), t.find_with_range(c))) {
                    let wr = if let CharDataTable::Range(_) = t { w } else { None };
                    r.same("find", inp, (v.0, v.1, v.2, v.3.map(|x| (x.0.low, x.0.high, x.1))), (w.is_some(), w.map(|x| x.1), w.map_or(0, |x| x.1), wr.map(|x| (x.0.low, x.0.high, x.1))));
                }
            }
            let mut it = t.iter();
            let mut got = vec![];
            while let Some((k, v)) = it.next() {
                got.push((k.low, k.high, v));
                if got.len() > 20 {
                    break;
                }
            }
            r.same("iter", &t, got, rows.iter().map(|(k, v)| (k.low, k.high, *v)).collect());
            r.check("iter-end", &t, it.next().is_none(), "something after the end");
        }
        if r.enough() {
            return;
        }
    }
}

fn main() {
    let mut r = Run::start();
    r.part("tables of up to 8 entries of both shapes, all probes next to a key: contains, find, find_or_default, find_with_range, iter");
    shapes(&mut r);
    let u = "/repo/unic/ucd/";
    let p = |s: &str| format!("{}{}", u, s);
    r.part("binary property tables: sorted and disjoint; every character against the table (exhaustive)");
    let bools: Vec<(String, fn(char) -> bool)> = vec![
        (p("bidi/tables/bidi_mirrored.rsv"), bidi::is_bidi_mirrored),
        (p("bidi/tables/bidi_control.rsv"), bidi::bidi_control::is_bidi_control),
        (p("case/tables/changes_when_casefolded.rsv"), changes_when_casefolded),
        (p("case/tables/changes_when_casemapped.rsv"), changes_when_casemapped),
        (p("case/tables/changes_when_lowercased.rsv"), changes_when_lowercased),
        (p("case/tables/changes_when_titlecased.rsv"), changes_when_titlecased),
        (p("case/tables/changes_when_uppercased.rsv"), changes_when_uppercased),
        (p("case/tables/case_ignorable.rsv"), is_case_ignorable),
        (p("case/tables/cased.rsv"), is_cased),
        (p("case/tables/lowercase.rsv"), is_lowercase),
        (p("case/tables/uppercase.rsv"), is_uppercase),
        (p("common/tables/alphabetic.rsv"), common::is_alphabetic),
        (p("common/tables/alphanumeric.rsv"), common::is_alphanumeric),
        (p("common/tables/control.rsv"), common::is_control),
        (p("common/tables/numeric.rsv"), common::is_numeric),
        (p("common/tables/white_space.rsv"), common::is_white_space),
        (p("ident/tables/id_start.rsv"), ident::is_id_start),
        (p("ident/tables/id_continue.rsv"), ident::is_id_continue),
        (p("ident/tables/xid_start.rsv"), ident::is_xid_start),
        (p("ident/tables/xid_continue.rsv"), ident::is_xid_continue),
        (p("ident/tables/pattern_syntax.rsv"), ident::is_pattern_syntax),
        (p("ident/tables/pattern_white_space.rsv"), ident::is_pattern_whitespace),
        (p("normal/tables/general_category_mark.rsv"), normal::is_combining_mark),
        ("/repo/unic/emoji/char/tables/emoji.rsv".into(), unic_emoji_char::is_emoji),
        ("/repo/unic/emoji/char/tables/emoji_component.rsv".into(), unic_emoji_char::is_emoji_component),
        ("/repo/unic/emoji/char/tables/emoji_modifier.rsv".into(), unic_emoji_char::is_emoji_modifier),
        ("/repo/unic/emoji/char/tables/emoji_modifier_base.rsv".into(), unic_emoji_char::is_emoji_modifier_base),
        ("/repo/unic/emoji/char/tables/emoji_presentation.rsv".into(), unic_emoji_char::is_emoji_presentation),
    ];
    for (path, f) in bools {
        lookup(&mut r, &path, |c, w| yes(f(c), w));
        let name = path.rsplit('/').next().unwrap().split('.').next().unwrap().to_string();
        replay::data(&mut r, &name, |c, h| h.num(f(c) as u64));
    }
    r.part("every property of every character against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    use std::fmt::Write;
    macro_rules! dbg { ($n:expr, $f:expr) => { replay::data(&mut r, $n, |c, h| { let _ = write!(h, "{:?}", $f(c)); }) } }
    dbg!("general_category", GeneralCategory::of);
    dbg!("bidi_class", BidiClass::of);
    dbg!("grapheme_cluster_break", GraphemeClusterBreak::of);
    dbg!("sentence_break", SentenceBreak::of);
    dbg!("word_break", WordBreak::of);
    dbg!("decomposition_type", unic_ucd::normal::DecompositionType::of);
    dbg!("idna_mapping", unic_idna_mapping::Mapping::of);
    dbg!("name_alias_types", NameAliasType::of);
    dbg!("name_aliases", |c| [NameAliasType::NameCorrections, NameAliasType::ControlCodeNames, NameAliasType::AlternateNames, NameAliasType::Figments, NameAliasType::NameAbbreviations].iter().map(|t| name_aliases_of(c, *t)).collect::<Vec<_>>());
    dbg!("block", |c| <Block as PartialCharProperty>::of(c).map(|b| (b.name, b.range.low, b.range.high)));
    dbg!("age", |c| Age::of(c).map(|a| (a.actual().major, a.actual().minor, a.actual().micro)));
    replay::data(&mut r, "canonical_combining_class", |c, h| h.num(CanonicalCombiningClass::of(c).number() as u64));
    replay::data(&mut r, "canonical_decomposition", |c, h| h.chars(normal::canonical_decomposition(c)));
    replay::data(&mut r, "compatibility_decomposition", |c, h| h.chars(normal::compatibility_decomposition(c)));
    replay::data(&mut r, "canonical_composition", |c, h| match normal::canonical_composition(c) {
        None => h.num(0),
        Some(t) => t.iter().for_each(|(k, v)| {
            h.num(k.low as u64);
            h.num(k.high as u64);
            h.num(v as u64)
        }),
    });
    r.part("enumerated, numeric, mapping and block tables likewise");
    lookup(&mut r, &p("category/tables/general_category.rsv"), |c, w| named(GeneralCategory::of(c), w, GeneralCategory::Unassigned));
    lookup(&mut r, &p("bidi/tables/bidi_class.rsv"), |c, w| named(BidiClass::of(c), w, BidiClass::LeftToRight));
    lookup(&mut r, &p("segment/tables/grapheme_cluster_break.rsv"), |c, w| named(GraphemeClusterBreak::of(c), w, GraphemeClusterBreak::Other));
    lookup(&mut r, &p("segment/tables/sentence_break.rsv"), |c, w| named(SentenceBreak::of(c), w, SentenceBreak::Other));
    lookup(&mut r, &p("segment/tables/word_break.rsv"), |c, w| named(WordBreak::of(c), w, WordBreak::Other));
    lookup(&mut r, &p("age/tables/age_values.rsv"), |c, w| {
        let g = Age::of(c).map(|a| a.actual());
        let t = g.map(|v| format!("UnicodeVersion {{ major: {}, minor: {}, micro: {} }}", v.major, v.minor, v.micro));
        ok(t.as_deref() == w, g, w)
    });
    lookup(&mut r, &p("normal/tables/canonical_combining_class_values.rsv"), |c, w| {
        let g = CanonicalCombiningClass::of(c).number();
        ok(format!("CanonicalCombiningClass({})", g) == w.unwrap_or("CanonicalCombiningClass(0)"), g, w)
    });
    lookup(&mut r, &p("normal/tables/canonical_decomposition_mapping.rsv"), |c, w| {
        let g = normal::canonical_decomposition(c).map(|s| s.to_vec());
        ok(g == w.map(chars_in), &g, w)
    });
    lookup(&mut r, &p("normal/tables/compatibility_decomposition_mapping.rsv"), |c, w| {
        let g = normal::compatibility_decomposition(c).map(|s| s.to_vec());
        ok(g == w.map(chars_in), &g, w)
    });
    lookup(&mut r, &p("normal/tables/compatibility_decomposition_mapping.rsv"), |c, w| {
        let g = unic_ucd::normal::DecompositionType::of(c);
        let canon = (c >= '\u{AC00}' && c <= '\u{D7A3}') || normal::canonical_decomposition(c).is_some();
        let t = if canon { Some("Canonical") } else { w.map(|w| w[1..].split(',').next().unwrap()) };
        let good = match (g, t) { (None, None) => true, (Some(g), Some(t)) => format!("{:?}", g).eq_ignore_ascii_case(t), _ => false };
        ok(good, &g, t)
    });
    lookup(&mut r, &p("normal/tables/canonical_composition_mapping.rsv"), |c, w| {
        let g = normal::canonical_composition(c);
        let good = match (&g, w) {
            (None, None) => true,
            (Some(t), Some(w)) => {
                let cs = chars_in(w);
                let keys: Vec<u32> = cs.iter().step_by(2).map(|&k| k as u32).collect();
                keys.windows(2).all(|k| k[0] < k[1]) && cs.chunks(2).all(|k| t.find(k[0]) == Some(k[1])) && t.iter().count() == keys.len()
            }
            _ => false,
        };
        ok(good, &g, w)
    });
    lookup(&mut r, &p("name_aliases/tables/name_alias_types.rsv"), |c, w| {
        let g = NameAliasType::of(c);
        let t = g.map(|v| format!("&{:?}", v));
        ok(t.as_deref() == w, &g, w)
    });
    for (path, ty) in vec![
        ("corrections", NameAliasType::NameCorrections),
        ("controls", NameAliasType::ControlCodeNames),
        ("alternates", NameAliasType::AlternateNames),
        ("figments", NameAliasType::Figments),
        ("abbreviations", NameAliasType::NameAbbreviations),
    ] {
        lookup(&mut r, &p(&format!("name_aliases/tables/{}.rsv", path)), |c, w| {
            let g = name_aliases_of(c, ty);
            ok(g.map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>()) == w.map(quoted), &g, w)
        });
    }
    let blocks = parse(&p("block/tables/blocks.rsv"));
    lookup(&mut r, &p("block/tables/blocks.rsv"), |c, w| {
        let g = <Block as PartialCharProperty>::of(c);
        let row = blocks.rows.iter().find(|b| b.0 <= c as u32 && c as u32 <= b.1).map(|b| (b.0, b.1));
        let good = g.as_ref().map(|b| format!("{:?}", b.name)).as_deref() == w && g.as_ref().map(|b| (b.range.low as u32, b.range.high as u32)) == row;
        ok(good, &g, w)
    });
    let got: Vec<_> = BlockIter::new().map(|b| (b.range.low as u32, b.range.high as u32, format!("{:?}", b.name))).collect();
    r.check("blocks", "BlockIter", got == blocks.rows, "BlockIter differs from the table");
    let got: Vec<_> = BlockIter::default().map(|b| (b.range.low as u32, b.range.high as u32, format!("{:?}", b.name))).collect();
    r.check("blocks", "BlockIter::default()", got == blocks.rows, "BlockIter::default() differs from the table");
    r.part("the property traits and Default: every character");
    macro_rules! total { ($t:ty) => { for c in (0..0x110000u32).filter_map(char::from_u32) {
        let (a, b, p) = (<$t>::of(c), <$t as unic_char_property::TotalCharProperty>::of(c), <$t as PartialCharProperty>::of(c));
        if a != b || Some(a) != p { r.check("trait", concat!(stringify!($t), "::of through a trait"), false, &format!("{:?}: {:?} {:?} {:?}", c, a, b, p)); break; }
    } r.check("trait", stringify!($t), true, ""); } }
    total!(GeneralCategory);
    total!(BidiClass);
    total!(GraphemeClusterBreak);
    total!(SentenceBreak);
    total!(WordBreak);
    total!(CanonicalCombiningClass);
    for c in (0..0x110000u32).filter_map(char::from_u32) {
        let (a, b) = (unic_ucd::normal::DecompositionType::of(c), <unic_ucd::normal::DecompositionType as PartialCharProperty>::of(c));
        r.check("trait", &format!("DecompositionType::of {:?}", c), a == b, "differs through the trait");
        let (a, b) = (Age::of(c), <Age as PartialCharProperty>::of(c));
        r.check("trait", &format!("Age::of {:?}", c), a == b, "differs through the trait");
    }
    let none: unic_char_property::tables::CharDataTable<u8> = Default::default();
    r.check("default", "CharDataTable::default()", none.iter().next().is_none() && (0..0x110000u32).filter_map(char::from_u32).all(|c| none.find(c).is_none() && !none.contains(c)), "not empty");
    for path in ["/repo/unic/idna/mapping/tables/idna_mapping.rsv", "/repo/unic/ucd/name/tables/name_map.rsv", "/repo/unic/ucd/name/tables/jamo.rsv"].iter() {
        let t = parse(path);
        formed(&mut r, path, &t);
        r.check("table", path, t.range == path.contains("idna"), "the other kind of table");
    }
    let map = "/repo/unic/idna/mapping/tables/idna_mapping.rsv";
    lookup(&mut r, map, |c, w| {
        use unic_idna_mapping::Mapping::*;
        let g = unic_idna_mapping::Mapping::of(c);
        let w = match w { Some(w) => w, None => return Err("the table does not cover it".into()) };
        let (k, s) = match g {
            Valid => ("Valid", None),
            Ignored => ("Ignored", None),
            Mapped(s) => ("Mapped", Some(s)),
            Deviation(s) => ("Deviation", Some(s)),
            Disallowed => ("Disallowed", None),
            DisallowedStd3Valid => ("DisallowedStd3Valid", None),
            DisallowedStd3Mapped(s) => ("DisallowedStd3Mapped", Some(s)),
        };
        let head = w.split('(').next().unwrap();
        let text: Option<String> = w.find('"').map(|i| unescape(&w[i + 1..w.rfind('"').unwrap()]));
        ok(head == k && text.as_deref() == s, g, Some(w))
    });
    r.finish()
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|&c| c != '}').collect();
                o.push(std::char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('0') => o.push('\0'),
            Some(x) => o.push(x),
            None => {}
        }
    }
    o
}
