//! C19: what char_property! declares: the names of properties and of their values, parsing, display.
#![allow(non_upper_case_globals, unused_imports)]
use replay::{Rng, Run};
use std::any::Any;
use std::collections::HashSet;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use unic_char_property::{BinaryCharProperty, CharProperty, CustomCharProperty, EnumeratedCharProperty, NumericCharProperty, PartialCharProperty, TotalCharProperty};
use unic_emoji_char::*;
use unic_ucd::bidi::bidi_control::{is_bidi_control, BidiControl};
use unic_ucd::bidi::BidiMirrored;
use unic_ucd::case::*;
use unic_ucd::ident::*;
use unic_ucd::normal::DecompositionType;
use unic_ucd::{is_alphabetic, is_bidi_mirrored, is_white_space, Age, Alphabetic, WhiteSpace, BidiClass, Block, CanonicalCombiningClass, GeneralCategory, GraphemeClusterBreak, SentenceBreak, WordBreak};
use unic_ucd::common::alphanumeric::{is_alphanumeric, Alphanumeric};
use unic_ucd::common::control::{is_control, Control};
use unic_ucd::common::numeric::{is_numeric, Numeric};

struct Values<T: 'static> {
    ty: &'static str,
    names: [&'static str; 3],
    rows: Vec<(T, [&'static str; 3])>,
}

fn recase(g: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if g.below(2) == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// A text near `s`, or not.
fn near(g: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = recase(g, s).chars().collect();
    match g.below(12) {
        0 => { v.insert(0, ' '); }
        1 => { v.push(*g.pick(&[' ', '\n', '\0', '\u{301}'])); }
        2 => { v.pop(); }
        3 => { v.remove(0); }
        4 => { let n = v.len(); v.push(v[n - 1]); }
        5 => { let i = g.below(v.len()); v[i] = (v[i] as u8 ^ 1 << g.below(7)) as char; }
        6 => { let i = g.below(v.len()); v[i] = char::from(v[i] as u8 | 0x80); }
        7 => { let i = g.below(v.len()); v[i] = std::char::from_u32(v[i] as u32 | (1 + g.below(16) as u32) << 8).unwrap(); }
        8 => { for c in v.iter_mut() { *c = match *c { 's' | 'S' => 'ſ', 'k' | 'K' => '\u{212A}', 'i' | 'I' => 'ı', x => x }; } }
        9 => { for c in v.iter_mut() { *c = match *c { '_' => *g.pick(&[' ', '-', '\u{7f}', '@']), x => x }; } }
        10 => { v.retain(|c| *c != '_'); }
        _ => { let n = g.below(5); v = (0..n).map(|_| (32 + g.below(96)) as u8 as char).collect(); }
    }
    v.into_iter().collect()
}

fn parse<T>(r: &mut Run, w: &Values<T>, s: &str)
where
    T: FromStr + PartialEq + Copy + Debug,
{
    let want = w.rows.iter().find(|x| s.eq_ignore_ascii_case(x.1[0]) || s.eq_ignore_ascii_case(x.1[1])).map(|x| x.0);
    r.count(want.is_some());
    if let Some(got) = r.real("from-str", (w.ty, s), || T::from_str(s).ok()) {
        r.same("from-str", (w.ty, s), got, want);
    }
}

fn texts<T>(r: &mut Run, w: &Values<T>)
where
    T: FromStr + PartialEq + Copy + Debug + Display + CharProperty,
{
    r.count(true);
    r.same("property-names", w.ty, [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()], w.names);
    for (v, n) in &w.rows {
        r.count(true);
        r.same("display", (w.ty, *v), (v.to_string(), format!("{:>40}", v), format!("{:*<3}", v)), (n[2].to_string(), format!("{:>40}", n[2]), format!("{:*<3}", n[2])));
        for s in &n[..2] {
            parse(r, w, s);
            parse(r, w, &s.to_ascii_lowercase());
            parse(r, w, &s.to_ascii_uppercase());
        }
        parse(r, w, n[2]);
    }
    let ascii = |b: u32| std::char::from_u32(b).unwrap().to_string();
    parse(r, w, "");
    for a in 0..128 {
        parse(r, w, &ascii(a));
        for b in 0..128 {
            parse(r, w, &(ascii(a) + &ascii(b)));
        }
    }
}

fn more<T>(r: &mut Run, w: &Values<T>)
where
    T: FromStr + PartialEq + Copy + Debug,
{
    let s = { let k = r.rng.below(w.rows.len()); w.rows[k].1[r.rng.below(2)] };
    let t = recase(&mut r.rng, s);
    parse(r, w, &t);
    let t = near(&mut r.rng, s);
    parse(r, w, &t);
}

fn enumerated<T>(r: &mut Run, w: &Values<T>, default: Option<T>)
where
    T: FromStr + Eq + Copy + Debug + Display + EnumeratedCharProperty,
{
    texts(r, w);
    r.same("all-values", w.ty, T::all_values().to_vec(), w.rows.iter().map(|x| x.0).collect());
    for (v, n) in &w.rows {
        r.same("value-names", (w.ty, *v), [v.abbr_name(), v.long_name(), v.human_name()], *n);
    }
    let mut seen = HashSet::new();
    for (v, n) in &w.rows {
        let both: HashSet<String> = n[..2].iter().map(|x| x.to_ascii_lowercase()).collect();
        for x in both {
            let new = seen.insert(x.clone());
            r.check("distinct", (w.ty, *v), new, &format!("{:?} names another value too", x));
        }
    }
    let mut of_all = HashSet::new();
    for u in 0..=0x10_FFFFu32 {
        if let Some(c) = std::char::from_u32(u) {
            if let Some(v) = <T as PartialCharProperty>::of(c) {
                of_all.insert(format!("{:?}", v));
            } else {
                r.check("total", (w.ty, c), default.is_none(), "a property with a value for every character has none");
            }
        }
    }
    r.check("all-values", w.ty, of_all.iter().all(|x| w.rows.iter().any(|y| format!("{:?}", y.0) == *x)), "a character has a value that is not among all_values");
}

fn binary<T>(r: &mut Run, w: &Values<T>, is: fn(char) -> bool, of: fn(char) -> T, as_bool: fn(&T) -> bool)
where
    T: FromStr + PartialEq + Copy + Debug + Display + BinaryCharProperty + TotalCharProperty + Into<bool>,
{
    texts(r, w);
    for (v, n) in &w.rows {
        let b = n[2] == "Yes";
        let t = if b { ["Y", "Yes", "Yes"] } else { ["N", "No", "No"] };
        r.same("value-names", (w.ty, *v), [v.abbr_name(), v.long_name(), v.human_name()], t);
    }
    r.same("default", w.ty, as_bool(&T::default()), false);
    for u in 0..=0x10_FFFFu32 {
        let c = match std::char::from_u32(u) { Some(c) => c, None => continue };
        let v = of(c);
        let b = as_bool(&v);
        if b { r.count(true); }
        let got = (is(c), v.as_bool(), v.into(), <T as TotalCharProperty>::of(c) == v, <T as PartialCharProperty>::of(c) == Some(v), v == w.rows[if b { 0 } else { 2 }].0);
        if got != (b, b, b, true, true, true) {
            r.same("one-value", (w.ty, c), got, (b, b, b, true, true, true));
        }
    }
}

macro_rules! values {
    ($r:ident, $m:ident, $t:ident, $a:literal, $l:literal, $h:literal in $($p:ident)::+: $($v:ident $va:ident $vl:ident $vh:literal,)*) => {{
        values!($r, $m, $t, $a, $l, $h: $($v $va $vl $vh,)*);
        // an alias that is missing falls back to the constant of the outer block
        $(const $va: () = ();)*
        let abbr = { use $($p)::+::abbr_names::*; vec![$((stringify!($va), is(&$va, $t::$v))),*] };
        let long = { $(const $vl: () = ();)* { use $($p)::+::long_names::*; vec![$((stringify!($vl), is(&$vl, $t::$v))),*] } };
        for (n, ok) in abbr.into_iter().chain(long) {
            $r.count(true);
            $r.check("alias-modules", (stringify!($t), n), ok, "the alias is missing or another value");
        }
    }};
    ($r:ident, $m:ident, $t:ident, $a:literal, $l:literal, $h:literal: $($v:ident $va:ident $vl:ident $vh:literal,)*) => {{
        let w = Values { ty: stringify!($t), names: [$a, $l, $h], rows: vec![$(($t::$v, [stringify!($va), stringify!($vl), $vh])),*] };
        enumerated(&mut $r, &w, None);
        $m.push(Box::new(move |r: &mut Run| more(r, &w)));
    }};
}
// rows: yes, yes, no, no, with the four names of each
macro_rules! yes_no {
    ($r:ident, $m:ident, $t:ident, $f:ident, $a:literal, $l:literal, $h:literal) => {{
        let yes = "Y".parse::<$t>();
        let no = "N".parse::<$t>();
        r_check(&mut $r, stringify!($t), yes.is_ok() && no.is_ok());
        if let (Ok(yes), Ok(no)) = (yes, no) {
            let w = Values { ty: stringify!($t), names: [$a, $l, $h], rows: vec![(yes, ["y", "yes", "Yes"]), (yes, ["t", "true", "Yes"]), (no, ["n", "no", "No"]), (no, ["f", "false", "No"])] };
            binary(&mut $r, &w, $f, $t::of, |x| x.as_bool());
            $r.same("yes-no", stringify!($t), (yes.as_bool(), no.as_bool()), (true, false));
            $m.push(Box::new(move |r: &mut Run| more(r, &w)));
        }
    }};
}
fn is<A: Any, T: Any + PartialEq>(a: &A, v: T) -> bool {
    (a as &dyn Any).downcast_ref::<T>() == Some(&v)
}
fn r_check(r: &mut Run, ty: &str, ok: bool) {
    r.check("from-str", (ty, "Y, N"), ok, "does not parse");
}

fn main() {
    let mut r = Run::start();
    let mut m: Vec<Box<dyn Fn(&mut Run)>> = vec![];
    r.part("every enumerated property: names of the property and of every value, all_values, the modules of aliases, no text naming two values, parsing of both names, of all texts up to two ASCII characters, display with width and precision");
    r.part("every binary property: the same, and for every character the one value of is_*, of, as_bool, bool::from and both trait methods");
    values!(r, m, GeneralCategory, "gc", "General_Category", "General Category":
        UppercaseLetter Lu Uppercase_Letter "Uppercase Letter",
        LowercaseLetter Ll Lowercase_Letter "Lowercase Letter",
        TitlecaseLetter Lt Titlecase_Letter "Titlecase Letter",
        ModifierLetter Lm Modifier_Letter "Modifier Letter",
        OtherLetter Lo Other_Letter "Other Letter",
        NonspacingMark Mn Nonspacing_Mark "Nonspacing Mark",
        SpacingMark Mc Spacing_Mark "Spacing Mark",
        EnclosingMark Me Enclosing_Mark "Enclosing Mark",
        DecimalNumber Nd Decimal_Number "Decimal Digit",
        LetterNumber Nl Letter_Number "Letterlike Number",
        OtherNumber No Other_Number "Other Numeric",
        ConnectorPunctuation Pc Connector_Punctuation "Connecting Punctuation",
        DashPunctuation Pd Dash_Punctuation "Dash Punctuation",
        OpenPunctuation Ps Open_Punctuation "Opening Punctuation",
        ClosePunctuation Pe Close_Punctuation "Closing Punctuation",
        InitialPunctuation Pi Initial_Punctuation "Initial Quotation",
        FinalPunctuation Pf Final_Punctuation "Final Quotation",
        OtherPunctuation Po Other_Punctuation "Other Punctuation",
        MathSymbol Sm Math_Symbol "Math Symbol",
        CurrencySymbol Sc Currency_Symbol "Currency Symbol",
        ModifierSymbol Sk Modifier_Symbol "Modifier Symbol",
        OtherSymbol So Other_Symbol "Other Symbol",
        SpaceSeparator Zs Space_Separator "Space",
        LineSeparator Zl Line_Separator "Line Separator",
        ParagraphSeparator Zp Paragraph_Separator "Paragraph Separator",
        Control Cc Control "Control",
        Format Cf Format "Formatting",
        Surrogate Cs Surrogate "Surrogate",
        PrivateUse Co Private_Use "Private-Use",
        Unassigned Cn Unassigned "Unassigned",
    );
    values!(r, m, BidiClass, "bc", "Bidi_Class", "Bidirectional Class" in unic_ucd::bidi::bidi_class:
        ArabicLetter AL Arabic_Letter "Right-to-Left Arabic",
        ArabicNumber AN Arabic_Number "Arabic Number",
        ParagraphSeparator B Paragraph_Separator "Paragraph Separator",
        BoundaryNeutral BN Boundary_Neutral "Neutral Boundary",
        CommonSeparator CS Common_Separator "Common Number Separator",
        EuropeanNumber EN European_Number "European Number",
        EuropeanSeparator ES European_Separator "European Number Separator",
        EuropeanTerminator ET European_Terminator "European Number Terminator",
        FirstStrongIsolate FSI First_Strong_Isolate "First Strong Isolate",
        LeftToRight L Left_To_Right "Left-to-Right",
        LeftToRightEmbedding LRE Left_To_Right_Embedding "Left-to-Right Embedding",
        LeftToRightIsolate LRI Left_To_Right_Isolate "Left-to-Right Isolate",
        LeftToRightOverride LRO Left_To_Right_Override "LeftToRightOverride",
        NonspacingMark NSM Nonspacing_Mark "Nonspacing Mark",
        OtherNeutral ON Other_Neutral "OtherNeutral",
        PopDirectionalFormat PDF Pop_Directional_Format "Pop Directional Format",
        PopDirectionalIsolate PDI Pop_Directional_Isolate "PopDirectionalIsolate",
        RightToLeft R Right_To_Left "Right-to-Left",
        RightToLeftEmbedding RLE Right_To_Left_Embedding "Right-to-Left Embedding",
        RightToLeftIsolate RLI Right_To_Left_Isolate "Right-to-Left Isolate",
        RightToLeftOverride RLO Right_To_Left_Override "Right-to-Left Override",
        SegmentSeparator S Segment_Separator "Segment Separator",
        WhiteSpace WS White_Space "Whitespace",
    );
    values!(r, m, GraphemeClusterBreak, "GCB", "Grapheme_Cluster_Break", "Grapheme Cluster Break" in unic_ucd::segment::grapheme_cluster_break:
        CR CR CR "Carriage Return",
        LF LF LF "Line Feed",
        Control CN Control "Control",
        Extend EX Extend "Extend",
        ZWJ ZWJ ZWJ "Zero Width Joiner (ZWJ)",
        RegionalIndicator RI Regional_Indicator "Regional Indicator",
        Prepend PP Prepend "Prepend",
        SpacingMark SM SpacingMark "Spacing Mark",
        L L L "Hangul Syllable Type L",
        V V V "Hangul Syllable Type V",
        T T T "Hangul Syllable Type T",
        LV LV LV "Hangul Syllable Type LV",
        LVT LVT LVT "Hangul Syllable Type LVT",
        EBase EB E_Base "Emoji Base",
        EModifier EM E_Modifier "Emoji Modifier",
        GlueAfterZwj GAZ Glue_After_Zwj "Glue After ZWJ",
        EBaseGAZ EBG E_Base_GAZ "Emoji Base and Glue After ZWJ",
        Other XX Other "Other",
    );
    values!(r, m, SentenceBreak, "SB", "Sentence_Break", "Sentence Break" in unic_ucd::segment::sentence_break:
        CR CR CR "Carriage Return",
        LF LF LF "Line Feed",
        Extend EX Extend "Extend",
        Sep SE Sep "Separator",
        Format FO Format "Format",
        Sp SP Sp "Space",
        Lower LO Lower "Lowercase",
        Upper UP Upper "Uppercase",
        OLetter LE OLetter "Other Letter",
        Numeric NU Numeric "Numeric",
        ATerm AT ATerm "ATerm",
        SContinue SC SContinue "Sentence Continue",
        STerm ST STerm "Sentence Terminal",
        Close CL Close "Close",
        Other XX Other "Other",
    );
    values!(r, m, WordBreak, "WB", "Word_Break", "Word Break" in unic_ucd::segment::word_break:
        CR CR CR "Carriage Return",
        LF LF LF "Line Feed",
        Newline NL Newline "Newline",
        Extend Extend Extend "Extend",
        ZWJ ZWJ ZWJ "Zero Width Joiner (ZWJ)",
        RegionalIndicator RI Regional_Indicator "Regional Indicator",
        Format FO Format "Format",
        Katakana KA Katakana "Katakana",
        HebrewLetter HL Hebrew_Letter "Hebrew Letter",
        ALetter LE ALetter "Alphabetic Letter",
        SingleQuote SQ Single_Quote "Single Quote",
        DoubleQuote DQ Double_Quote "Double Quote",
        MidNumLet MB MidNumLet "Middle of Numeric/Letter",
        MidLetter ML MidLetter "Middle of Letter",
        MidNum MN MidNum "Middle of Numeric",
        Numeric NU Numeric "Numeric",
        ExtendNumLet EX ExtendNumLet "Extend Numeric/Letter",
        EBase EB E_Base "Emoji Base",
        EModifier EM E_Modifier "Emoji Modifier",
        GlueAfterZwj GAZ Glue_After_Zwj "Glue After ZWJ",
        EBaseGAZ EBG E_Base_GAZ "Emoji Base and Glue After ZWJ",
        Other XX Other "Other",
    );
    values!(r, m, DecompositionType, "dt", "Decomposition_Type", "Decomposition Type":
        Canonical Can Canonical "Canonical",
        Compat Com Compat "Unspecified",
        Circle Enc Circle "Encircled",
        Final Fin Final "Arabic Final",
        Font Font Font "Font Variant",
        Fraction Fra Fraction "Vulgar Fraction",
        Initial Init Initial "Arabic Initial",
        Isolated Iso Isolated "Arabic Isolated",
        Medial Med Medial "Arabic Medial",
        Narrow Nar Narrow "Narrow",
        NoBreak Nb Nobreak "No-Break",
        Small Sml Small "Small",
        Square Sqr Square "CJK Squared",
        Sub Sub Sub "Subscript",
        Super Sup Super "Superscript",
        Vertical Vert Vertical "Vertical Layout",
        Wide Wide Wide "Wide",
    );
    yes_no!(r, m, EmojiPresentation, is_emoji_presentation, "Emoji_Presentation", "Emoji_Presentation", "Emoji Presentation");
    yes_no!(r, m, EmojiModifierBase, is_emoji_modifier_base, "Emoji_Modifier_Base", "Emoji_Modifier_Base", "Emoji Modifier Base");
    yes_no!(r, m, EmojiModifier, is_emoji_modifier, "Emoji_Modifier", "Emoji_Modifier", "Emoji Modifier");
    yes_no!(r, m, Emoji, is_emoji, "Emoji", "Emoji", "Emoji");
    yes_no!(r, m, EmojiComponent, is_emoji_component, "Emoji_Component", "Emoji_Component", "Emoji Component");
    yes_no!(r, m, XidStart, is_xid_start, "XIDS", "XID_Start", "XID Start");
    yes_no!(r, m, XidContinue, is_xid_continue, "XIDC", "XID_Continue", "XID Continue");
    yes_no!(r, m, PatternSyntax, is_pattern_syntax, "Pat_Syn", "Pattern_Syntax", "Pattern Syntax");
    yes_no!(r, m, PatternWhitespace, is_pattern_whitespace, "Pat_WS", "Pattern_White_Space", "Pattern Whitespace");
    yes_no!(r, m, IdStart, is_id_start, "IDS", "ID_Start", "ID Start");
    yes_no!(r, m, IdContinue, is_id_continue, "IDC", "ID_Continue", "ID Continue");
    yes_no!(r, m, Alphabetic, is_alphabetic, "Alpha", "Alphabetic", "Alphabetic");
    yes_no!(r, m, Numeric, is_numeric, "Numeric", "Numeric", "Numeric");
    yes_no!(r, m, Control, is_control, "Control", "Control", "Control");
    yes_no!(r, m, WhiteSpace, is_white_space, "WSpace", "White_Space", "White Space");
    yes_no!(r, m, Alphanumeric, is_alphanumeric, "Alphanumeric", "Alphanumeric", "Alphanumeric");
    yes_no!(r, m, ChangesWhenCasefolded, changes_when_casefolded, "CWCF", "Changes_When_Casefolded", "Changes When Casefolded");
    yes_no!(r, m, Cased, is_cased, "Cased", "Cased", "Cased");
    yes_no!(r, m, ChangesWhenLowercased, changes_when_lowercased, "CWL", "Changes_When_Lowercased", "Changes When Lowercased");
    yes_no!(r, m, ChangesWhenCasemapped, changes_when_casemapped, "CWCM", "Changes_When_Casemapped", "Changes When Casemapped");
    yes_no!(r, m, Uppercase, is_uppercase, "Upper", "Uppercase", "Uppercase");
    yes_no!(r, m, CaseIgnorable, is_case_ignorable, "CI", "Case_Ignorable", "Case-Ignorable");
    yes_no!(r, m, Lowercase, is_lowercase, "Lower", "Lowercase", "Lowercase");
    yes_no!(r, m, ChangesWhenUppercased, changes_when_uppercased, "CWU", "Changes_When_Uppercased", "Changes When Uppercased");
    yes_no!(r, m, ChangesWhenTitlecased, changes_when_titlecased, "CWT", "Changes_When_Titlecased", "Changes When Titlecased");
    yes_no!(r, m, BidiMirrored, is_bidi_mirrored, "Bidi_M", "Bidi_Mirrored", "Bidi Mirrored");
    yes_no!(r, m, BidiControl, is_bidi_control, "Bidi_C", "Bidi_Control", "Bidi Control");
    r.part("properties declared by hand: Age, Canonical_Combining_Class, Block; defaults of the others");
    r.same("property-names", "Age", [Age::prop_abbr_name(), Age::prop_long_name(), Age::prop_human_name()], ["age", "Age", "Age"]);
    type Ccc = CanonicalCombiningClass;
    r.same("property-names", "Canonical_Combining_Class", [Ccc::prop_abbr_name(), Ccc::prop_long_name(), Ccc::prop_human_name()], ["ccc", "Canonical_Combining_Class", "Canonical Combining Class"]);
    r.same("default", "GeneralCategory", GeneralCategory::default(), GeneralCategory::Unassigned);
    r.same("default", "BidiClass", BidiClass::default(), BidiClass::LeftToRight);
    r.same("default", "GraphemeClusterBreak", GraphemeClusterBreak::default(), GraphemeClusterBreak::Other);
    r.same("default", "SentenceBreak", SentenceBreak::default(), SentenceBreak::Other);
    r.same("default", "WordBreak", WordBreak::default(), WordBreak::Other);
    r.same("default", "Canonical_Combining_Class", Ccc::default().number(), 0);
    for u in 0..=0x10_FFFFu32 {
        let c = match std::char::from_u32(u) { Some(c) => c, None => continue };
        let k = Ccc::of(c);
        let a = Age::of(c);
        let got = (
            <Age as PartialCharProperty>::of(c) == a,
            a.map(|x| CustomCharProperty::actual(&x)) == a.map(|x| x.actual()),
            <Ccc as TotalCharProperty>::of(c) == k && <Ccc as PartialCharProperty>::of(c) == Some(k) && NumericCharProperty::number(&k) == k.number(),
            <Block as PartialCharProperty>::of(c).map(|x| x.name) == Block::of(c).map(|x| x.name),
            <DecompositionType as PartialCharProperty>::of(c) == DecompositionType::of(c),
            <GeneralCategory as TotalCharProperty>::of(c) == GeneralCategory::of(c) && <BidiClass as TotalCharProperty>::of(c) == BidiClass::of(c)
                && <WordBreak as TotalCharProperty>::of(c) == WordBreak::of(c) && <SentenceBreak as TotalCharProperty>::of(c) == SentenceBreak::of(c)
                && <GraphemeClusterBreak as TotalCharProperty>::of(c) == GraphemeClusterBreak::of(c),
        );
        if got != (true, true, true, true, true, true) {
            r.same("one-value", ("by hand", c), got, (true, true, true, true, true, true));
        }
        if k.number() != 0 {
            r.count(true);
            r.same("display", ("ccc", c), k.to_string(), k.number().to_string());
        }
    }
    r.part("random parsing: both names in any case, texts near them");
    while r.time(100) {
        for f in &m {
            for _ in 0..50 {
                f(&mut r);
            }
        }
    }
    r.finish()
}
