//! C21: fixed classifications, exhaustively.
use replay::Run;
use unic_bidi::format_chars;
use unic_char_property::EnumeratedCharProperty;
use unic_char_basics::{is_noncharacter, is_private_use};
use unic_ucd::bidi::{BidiClassCategory, CharBidiClass, StrBidiClass};
use unic_ucd::normal::CanonicalCombiningClass as Ccc;
use unic_ucd::{BidiClass, GeneralCategory};

fn main() {
    let mut r = Run::start();
    r.part("every character: is_noncharacter, is_private_use (exhaustive)");
    for u in 0..=0x10_FFFFu32 {
        let c = match std::char::from_u32(u) { Some(c) => c, None => continue };
        let non = u & 0xFFFE == 0xFFFE || (u >= 0xFDD0 && u < 0xFDF0);
        let pua = (u >= 0xE000 && u <= 0xF8FF) || (u >= 0xF0000 && !non);
        r.count(non || pua);
        r.same("noncharacter", c, is_noncharacter(c), non);
        r.same("private-use", c, is_private_use(c), pua);
    }
    r.part("every general category: the group predicates against the first letter of the short name");
    for g in GeneralCategory::all_values() {
        r.count(true);
        let a = g.abbr_name();
        let m = &a[..1];
        let w = (["Lu", "Ll", "Lt"].contains(&a), m == "L", m == "M", m == "N", m == "P", m == "S", m == "Z", m == "C");
        r.same("category", g, (g.is_cased_letter(), g.is_letter(), g.is_mark(), g.is_number(), g.is_punctuation(), g.is_symbol(), g.is_separator(), g.is_other()), w);
    }
    r.part("every bidi class: group and direction against UAX #9 table 4");
    for b in BidiClass::all_values() {
        r.count(true);
        let a = b.abbr_name();
        let is = |l: &str| l.split(' ').any(|x| x == a);
        let w = if is("L R AL") { BidiClassCategory::Strong } else if is("EN ES ET AN CS NSM BN") { BidiClassCategory::Weak } else if is("B S WS ON") { BidiClassCategory::Neutral } else { BidiClassCategory::ExplicitFormatting };
        r.same("bidi", b, (b.category(), b.is_ltr(), b.is_rtl()), (w, is("L LRE LRO LRI"), is("R AL RLE RLO RLI")));
    }
    r.part("every character: class, left-to-right, right-to-left (exhaustive)");
    let of = |c: char| {
        let a = BidiClass::of(c).abbr_name();
        let is = |l: &str| l.split(' ').any(|x| x == a);
        (is("L LRE LRO LRI"), is("R AL RLE RLO RLI"), is("LRE LRO RLE RLO PDF LRI RLI FSI PDI"))
    };
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let w = of(c);
        r.count(w.0 || w.1);
        r.same("bidi-char", c, (c.bidi_class(), c.is_ltr(), c.is_rtl()), (BidiClass::of(c), w.0, w.1));
        if r.enough() {
            break;
        }
    }
    r.part("every text of up to 3 characters, one for each bidi class: has_ltr, has_rtl, has_bidi_explicit; longer texts with one character of a class at each place");
    let mut reps: Vec<char> = vec![];
    for b in BidiClass::all_values() {
        if let Some(c) = (0..=0x10_FFFFu32).filter_map(std::char::from_u32).find(|&c| BidiClass::of(c) == *b) {
            reps.push(c);
        }
    }
    let mut texts: Vec<String> = vec![String::new()];
    for &a in &reps {
        texts.push(a.to_string());
        for &b in &reps {
            texts.push([a, b].iter().collect());
            for &c in &reps {
                texts.push([a, b, c].iter().collect());
            }
        }
        for n in [4usize, 9, 40].iter() {
            for k in 0..*n {
                texts.push((0..*n).map(|i| if i == k { a } else { ' ' }).collect());
            }
        }
    }
    for t in &texts {
        let w = t.chars().map(of).fold((false, false, false), |x, y| (x.0 || y.0, x.1 || y.1, x.2 || y.2));
        r.count(w.0 || w.1 || w.2);
        r.same("bidi-str", t, (t.has_ltr(), t.has_rtl(), t.has_bidi_explicit()), w);
        if r.enough() {
            break;
        }
    }
    r.part("the named formatting characters: their numbers and their bidi classes");
    for (n, c, w, b) in [("ALM", format_chars::ALM, '\u{061C}', BidiClass::ArabicLetter), ("LRM", format_chars::LRM, '\u{200E}', BidiClass::LeftToRight), ("RLM", format_chars::RLM, '\u{200F}', BidiClass::RightToLeft), ("LRI", format_chars::LRI, '\u{2066}', BidiClass::LeftToRightIsolate), ("RLI", format_chars::RLI, '\u{2067}', BidiClass::RightToLeftIsolate), ("FSI", format_chars::FSI, '\u{2068}', BidiClass::FirstStrongIsolate), ("PDI", format_chars::PDI, '\u{2069}', BidiClass::PopDirectionalIsolate), ("LRE", format_chars::LRE, '\u{202A}', BidiClass::LeftToRightEmbedding), ("RLE", format_chars::RLE, '\u{202B}', BidiClass::RightToLeftEmbedding), ("PDF", format_chars::PDF, '\u{202C}', BidiClass::PopDirectionalFormat), ("LRO", format_chars::LRO, '\u{202D}', BidiClass::LeftToRightOverride), ("RLO", format_chars::RLO, '\u{202E}', BidiClass::RightToLeftOverride)].iter() {
        r.count(true);
        r.same("format-char", n, (*c, BidiClass::of(*c)), (*w, *b));
    }
    r.part("combining classes: the named ones against UAX #44 table 15; every character's: number, display, reordered or not");
    for (c, n) in [
        (Ccc::NotReordered, 0), (Ccc::Overlay, 1), (Ccc::Nukta, 7), (Ccc::KanaVoicing, 8), (Ccc::Virama, 9), (Ccc::AttatchedBelowLeft, 200),
        (Ccc::AttachedBelow, 202), (Ccc::AttachedBelowRight, 204), (Ccc::AttachedLeft, 208), (Ccc::AttachedRight, 210), (Ccc::AttachedAboveLeft, 212),
        (Ccc::AttatchedAbove, 214), (Ccc::AttatchedAboveRight, 216), (Ccc::BelowLeft, 218), (Ccc::Below, 220), (Ccc::BelowRight, 222), (Ccc::Left, 224),
        (Ccc::Right, 226), (Ccc::AboveLeft, 228), (Ccc::Above, 230), (Ccc::AboveRight, 232), (Ccc::DoubleBelow, 233), (Ccc::DoubleAbove, 234),
        (Ccc::IotaSubscript, 240u8),
    ].iter() {
        r.count(true);
        r.same("ccc-named", n, c.number(), *n);
    }
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let k = Ccc::of(c);
        let n = k.number();
        r.count(n != 0);
        r.same("ccc", c, (k.is_reordered(), k.is_not_reordered(), unic_char_property::NumericCharProperty::number(&k)), (n != 0, n == 0, n));
        if n != 0 {
            r.same("ccc-display", c, k.to_string(), n.to_string());
        }
        if r.enough() {
            break;
        }
    }
    r.finish()
}
