"""The properties: source of properties.jsonl and MANIFEST.json (run vx/mkdocs.py)."""
P = {}


def prop(pid, title, statement, over, text, why, files, mech, state=(), note=""):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                           "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": [], "hook_needed": None}, note=note)


prop("C01", "Character ranges denote the scalar values between their ends",
     "A range of characters made from any two characters, by any constructor or by the chars! macro, contains exactly the Unicode scalar values the constructor's documentation says, never a surrogate; its length, emptiness test, containment, three-way position test and equality with other ranges agree with that set. Iterating it yields exactly that set in ascending order, each character once, from either end and in any interleaving of front and back steps, with exact lengths throughout and nothing after the end.",
     ["inputs", "histories"], "All pairs of characters (2^40), all constructors, all interleavings of next, next_back, len, nth, size_hint.",
     "Tests sample a handful of ranges; the code space has 10^12 pairs, and the surrogate gap and both ends of the code space are where stepping goes wrong.",
     ["unic/char/range/src/range.rs", "unic/char/range/src/iter.rs", "unic/char/range/src/step.rs", "unic/char/range/src/macros.rs"],
     [("CharRange constructors, contains, cmp_char, len, is_empty", "unic/char/range/src/range.rs"), ("CharIter::next, next_back, len, size_hint, last, max, min, count", "unic/char/range/src/iter.rs"), ("forward, backward, AFTER_SURROGATE, BEFORE_SURROGATE", "unic/char/range/src/step.rs")],
     [("CharRange", "low..=high, or empty when low > high", "range.rs"), ("CharIter", "what is still to be yielded, as a range", "iter.rs")])
prop("C02", "Parallel iteration over a character range equals sequential iteration",
     "Iterating a character range in parallel yields the characters of the range, each exactly once and, where order is observed, in ascending order; its length is the length of the range. This holds for every range, also one that touches or lies beyond the surrogates, however the work is split.",
     ["inputs", "schedules"], "All ranges, all splits of the index space.",
     "The one test uses a range or two; the conversion to the compacted index space depends on which side of the surrogate gap each end is.",
     ["unic/char/range/src/par_iter.rs"],
     [("compact_range and its inverse", "unic/char/range/src/par_iter.rs")])
prop("C04", "Hangul syllables decompose and compose by the standard's arithmetic",
     "A precomposed Hangul syllable decomposes to its two or three conjoining jamo as Unicode's arithmetic says, and exactly the characters U+AC00 to U+D7A3 are such syllables; composing a leading consonant with a vowel, or an LV syllable with a trailing consonant, gives the syllable whose decomposition ends that way, and every other pair is refused. Composition and decomposition are inverse, and neither panics on such arguments.",
     ["inputs"], "All characters, all pairs of characters.",
     "A pair space of 10^12 with off-by-one traps at U+11A7, at the block ends and between LV and LVT syllables; tests try a few syllables.",
     ["unic/ucd/hangul/src/hangul.rs"],
     [("is_syllable, decompose_syllable, compose_syllable", "unic/ucd/hangul/src/hangul.rs")])
prop("C08", "An embedding level is a number from 0 to 126, and operations keep it there",
     "Whatever constructor is given whatever number, the result is that number within the documented limit (126, or 125 for explicit levels) or an error; raising and lowering either give the exact sum or difference within the limit or fail and change nothing. The next even and next odd level, direction queries, and conversions follow from the number alone, and no operation overflows.",
     ["inputs", "histories"], "All numbers, all amounts, all sequences of operations on one level.",
     "Tests try a few numbers; arithmetic at 125, 126, 127 and 255, and the state after a failure, are where it breaks.",
     ["unic/bidi/src/level.rs"],
     [("Level::new, new_explicit, raise, raise_explicit, lower, new_explicit_next_ltr, new_explicit_next_rtl, new_lowest_ge_rtl", "unic/bidi/src/level.rs"), ("From<u8>, Into<u8>, vec, has_rtl", "unic/bidi/src/level.rs")],
     [("Level.0", "at most 126", "level.rs")])
prop("C10", "Explicit levels and overrides follow UAX #9 rules X1 to X8",
     "For every text and paragraph level, each character not removed by X9 gets the embedding level and the override class that rules X1 to X8 give it, with the depth limit of 125 and the overflow counters counting as specified, however embeddings, overrides, isolates and their terminators nest or fail to match. All bytes of a character carry the same level and class, and nothing panics.",
     ["inputs"], "All texts (all class sequences of any length), all paragraph levels up to 125.",
     "The state is a stack with three counters; behaviour beyond depth 125 and after unmatched terminators needs long specific texts which unit tests lack.",
     ["unic/bidi/src/explicit.rs"],
     [("compute", "unic/bidi/src/explicit.rs"), ("DirectionalStatusStack", "unic/bidi/src/explicit.rs")],
     [("stack, overflow_isolate_count, overflow_embedding_count, valid_isolate_count", "the directional status of X1", "explicit.rs")])
prop("C16", "Punycode encoding and decoding follow RFC 3492, without panics",
     "Encoding any text gives the extended string RFC 3492 defines or reports failure where the RFC demands it; decoding any string gives the text that RFC 3492 decodes it to, or reports failure if it is malformed, overflows, or would yield something that is not a Unicode scalar value or has a non-ASCII literal portion. Decoding what encoding gave returns the original text (for a text of more than 3854 characters it may report overflow instead), and no input panics.",
     ["inputs"], "All strings and all character sequences of any length.",
     "Tests are the RFC's samples; overflow, digit, delimiter and insertion-order errors need particular strings.",
     ["unic/idna/punycode/src/lib.rs"],
     [("encode, decode, adapt, value_to_digit", "unic/idna/punycode/src/lib.rs")],
     note="The round trip is a lemma over the specification both directions are proved against (lemma_round_trip).")
prop("C09", "Paragraphs, base levels and first-strong isolates follow UAX #9 P1 to P3, X5c",
     "For every text, the paragraphs reported partition it, each ending right after a paragraph separator or at the end of the text, and each has the caller's base level or the one the first strong character outside isolates decides (zero if none does). Each byte carries the class of its character, a first-strong isolate initiator being reported as left-to-right or right-to-left isolate when a strong character before its matching terminator decides it, and nothing panics.",
     ["inputs"], "All texts, all base levels or none.",
     "Nested, unmatched and unterminated isolates across paragraph boundaries have unboundedly many shapes; tests use a few short texts.",
     ["unic/bidi/src/bidi_info.rs"],
     [("InitialInfo::new, through BidiInfo::new", "unic/bidi/src/bidi_info.rs")],
     [("isolate_stack, para_start, para_level", "open isolates, paragraph start and level found so far", "bidi_info.rs")])
prop("C03", "A character property is what its data table says",
     "Every shipped table is well formed: entries non-empty, ascending and disjoint. Looking a character up, by containment, value, value with range, or value with default, gives the value of the one entry that covers it and nothing (or the default) when none does, for either table shape, also at the first and last character of an entry and at the ends of the table. The property types report exactly that for every character, and walking a table gives its entries in order, each once. For the Unicode version the tables declare (10.0.0), every value is the one recorded for that version.",
     ["inputs"], "All characters; all well-formed tables of either shape.",
     "Each table has up to thousands of entries and each property 1.1 million arguments; tests probe a few characters far from the boundaries.",
     ["unic/char/property/src/tables.rs", "unic/char/range/src/range.rs", "unic/ucd/category/src/category.rs", "unic/ucd/bidi/src/bidi_class.rs", "unic/ucd/block/src/block.rs", "unic/ucd/age/src/age.rs", "unic/ucd/segment/src/", "unic/ucd/normal/src/composition.rs", "unic/ucd/normal/src/canonical_combining_class.rs", "unic/ucd/normal/src/decomposition_type.rs", "unic/ucd/name_aliases/src/name_aliases.rs"],
     [("CharDataTable::contains, find, find_with_range, find_or_default, iter; CharDataTableIter::next", "unic/char/property/src/tables.rs"), ("CharRange::cmp_char", "unic/char/range/src/range.rs"), ("the `of` functions", "unic/ucd/*/src")],
     note="Binary properties (a macro generates them), the IDNA mapping and the well-formedness of the shipped tables are decided by exhaustive execution over every character and row.")
prop("C20", "Ages are ordered by age",
     "Of two ages the greater is the one from the earlier Unicode version, in every comparison the type offers: the comparisons agree with one another and with equality. A version is compared by major, then minor, then micro number, and is made from and reported as those numbers. The age of a character is the version recorded for it.",
     ["inputs"], "All pairs of ages and versions.",
     "Order axioms quantify over pairs and over several trait methods that have to agree; tests only look at single values.",
     ["unic/ucd/age/src/age.rs", "unic/common/src/version.rs"],
     [("PartialOrd, Ord and Eq of Age", "unic/ucd/age/src/age.rs"), ("UnicodeVersion", "unic/common/src/version.rs")])
prop("C21", "Fixed classifications of characters and property values follow the standard",
     "Exactly the 66 noncharacters are noncharacters and exactly the private use areas without noncharacters are private use. The group predicates of the general category (cased letter, letter, mark, number, punctuation, symbol, separator, other) are those of UAX #44: every category belongs to exactly one major group. The category and the left-to-right and right-to-left predicates of a bidi class, of a character by its class, and of a text by whether it has such a character (or an explicit formatting one), are those of UAX #9, and so are the formatting characters it names. The named combining classes are the numbers of UAX #44, and a class is reordered exactly when its number is not zero.",
     ["inputs"], "All characters; all general categories; all bidi classes; all texts.",
     "Tests sample code points of a few planes and no group predicate exhaustively.",
     ["unic/char/basics/src/noncharacter.rs", "unic/char/basics/src/private_use.rs", "unic/ucd/category/src/category.rs", "unic/ucd/bidi/src/bidi_class.rs", "unic/bidi/src/format_chars.rs", "unic/ucd/normal/src/canonical_combining_class.rs"],
     [("is_noncharacter, is_private_use", "unic/char/basics/src"), ("GeneralCategory::is_letter and its siblings", "unic/ucd/category/src/category.rs"), ("BidiClass::category, is_ltr, is_rtl; CharBidiClass for char; StrBidiClass for str", "unic/ucd/bidi/src/bidi_class.rs"), ("named combining classes", "unic/ucd/normal/src/canonical_combining_class.rs")])
prop("C22", "Code points, versions, classes and levels are written in their documented forms",
     "The Unicode notation of a character is U+ and its number in upper-case hexadecimal, four digits for the basic plane and five or six where they are needed, so that the number can be read back. A Unicode version is written major.minor.micro and a canonical combining class as its number. An embedding level is written as its number, and equals a text (string slice or String) exactly when the text is that number or x. The bidi information of a text is written as the count of its paragraphs and the greatest of its levels. A write that fails is reported, and nothing is written after it.",
     ["inputs"], "All characters, versions, combining classes, levels, texts, and outcomes of a write.",
     "Tests compare a handful of formatted values; that the forms can be read back and never coincide quantifies over all values.",
     ["unic/char/basics/src/notation.rs", "unic/common/src/version.rs", "unic/ucd/normal/src/canonical_combining_class.rs", "unic/bidi/src/level.rs", "unic/bidi/src/bidi_info.rs"],
     [("UnicodeNotation", "unic/char/basics/src/notation.rs"), ("Display for UnicodeVersion", "unic/common/src/version.rs"), ("Display for CanonicalCombiningClass", "unic/ucd/normal/src/canonical_combining_class.rs"), ("Display and PartialEq<&str>, PartialEq<String> for Level", "unic/bidi/src/level.rs"), ("Display for BidiInfo", "unic/bidi/src/bidi_info.rs")])
prop("C05", "Full decomposition and pairwise composition of characters",
     "The canonical and the compatibility decomposition of a character are what applying the character's decomposition mappings (of Unicode 10) recursively, and the arithmetic rule for Hangul syllables, ends in: every character of the result is itself undecomposable, and the callback sees those characters in order, each once. Composing two characters gives the Hangul syllable they make, or otherwise the primary composite whose canonical mapping they are, and nothing when there is none.",
     ["inputs"], "All characters (1,112,064), both kinds of decomposition; all pairs of characters (10^12).",
     "Tests sample a few characters and pairs; the pairs cannot be enumerated, and a recursion that stops early or loses a character shows only on doubly mapped characters.",
     ["unic/ucd/normal/src/decomposition.rs", "unic/ucd/normal/src/composition.rs", "unic/ucd/normal/src/lib.rs", "unic/char/property/src/tables.rs", "unic/ucd/hangul/src/hangul.rs"],
     [("d, decompose_canonical, decompose_compatible", "unic/ucd/normal/src/decomposition.rs"), ("compose", "unic/ucd/normal/src/lib.rs"), ("canonical_composition, canonical_decomposition, compatibility_decomposition", "unic/ucd/normal/src/composition.rs")])
prop("C06", "NFD and NFKD: full decomposition in canonical order",
     "For every text, given as a string or as any iterator of characters, the iterators for NFD and NFKD yield exactly the canonical or compatibility decomposition (of Unicode 10) of its characters put in canonical order: no reorderable pair is left, characters of one combining class keep their order, nothing crosses a starter, and nothing is lost, added or repeated; then they end and stay ended. Decomposing a decomposed text changes nothing. Displaying the iterator writes the same characters.",
     ["inputs", "histories"], "All texts, of any length and with runs of marks of any length; every step of the iterator.",
     "The conformance file has 18,000 short rows; the buffering over a stretch of unknown length and the early exit of the sort have to be right for every run of marks.",
     ["unic/normal/src/decompose.rs", "unic/normal/src/lib.rs"],
     [("canonical_sort", "unic/normal/src/decompose.rs"), ("Decompositions::next, new_canonical, new_compatible", "unic/normal/src/decompose.rs")],
     [("Decompositions", "the canonical order of the buffer and the decomposition of what is unread is what is still to be yielded; sorted: the start of the buffer is final", "decompose.rs")])
prop("C07", "NFC and NFKC: the Canonical Composition Algorithm",
     "For every text, given as a string or as any iterator of characters, the iterators for NFC and NFKC yield exactly what the Canonical Composition Algorithm (D117) makes of its canonical or compatibility decomposition (of Unicode 10): each character not blocked from the last starter and forming a primary composite with it is replaced, with that starter, by the composite; all others stay, in order, each once. Then they end and stay ended. Composing a composed text changes nothing. Displaying the iterator writes the same characters.",
     ["inputs", "histories"], "All texts, of any length; every step of the iterator.",
     "The composing state machine depends on the whole stretch since the last starter; conformance rows sample short stretches only.",
     ["unic/normal/src/recompose.rs", "unic/normal/src/lib.rs"],
     [("Recompositions::next, new_canonical, new_compatible", "unic/normal/src/recompose.rs")],
     [("Recompositions", "composee: the last starter; buffer: what has followed it and not composed; last_ccc: the class of the last of those", "recompose.rs")])

prop("C13", "Display order of a line follows UAX #9 L1 and L2",
     "For every text with levels from 0 to 126, every paragraph level and every line of it cut at character boundaries: the line's levels are the text's with separators, and whitespace and isolate controls before a separator or at the end of the line, reset to the paragraph level (L1), and no level outside the line changes; the runs reported are the maximal runs of equal level, which partition the line, in the order L2 puts them; and the reordered line is the characters of the line in the order L2 gives them, each once. Levels per byte and per character agree, and has_rtl tells whether any level is odd.",
     ["inputs"], "All texts, all level assignments up to 126, all lines.",
     "L2 reverses nested sequences at every level down to the lowest odd one; tests reorder a few short lines of two levels.",
     ["unic/bidi/src/bidi_info.rs", "unic/bidi/src/level.rs"],
     [("BidiInfo::visual_runs, reorder_line, reordered_levels, reordered_levels_per_char, has_rtl", "unic/bidi/src/bidi_info.rs"), ("has_rtl, new_lowest_ge_rtl, lower", "unic/bidi/src/level.rs")],
     [("reset_from, reset_to, runs, min_level, max_level", "pending L1 stretch, level runs, bounds of the levels", "bidi_info.rs")])

prop("C15", "Grapheme cluster boundaries follow UAX #29",
     "For every text, the extended and the legacy grapheme clusters are those of the rules GB1-GB999 of UAX #29 (Unicode 10): Graphemes and GraphemeIndices yield exactly the pieces between consecutive boundaries, non-empty, in order and covering the text, from the front, from the back and from both ends in any mixture, with the right offsets, as_str and a size_hint that holds. GraphemeCursor gives the same answers from any position: is_boundary says whether its position is a boundary, next_boundary and prev_boundary move to the nearest one after or before, whether it is given the whole text or the text in chunks cut anywhere, and when a chunk does not suffice it asks for the context or chunk that is missing, and with it comes to the same answer; is_boundary given a chunk that does not contain its position reports that.",
     ["inputs", "histories"], "All texts, all chunkings, all histories of calls that follow the documentation of GraphemeCursor.",
     "The conformance file has 822 short texts; runs of regional indicators and emoji sequences of any length, cut anywhere, with a query resumed or dropped, are histories no sample covers.",
     ["unic/segment/src/grapheme.rs"],
     [("GraphemeCursor, check_pair, Graphemes, GraphemeIndices", "unic/segment/src/grapheme.rs")])

prop("C14", "Word boundaries follow UAX #29",
     "For every text, the pieces that WordBounds and WordBoundIndices yield are exactly the stretches between consecutive word boundaries of the rules WB1-WB999 of UAX #29 (Unicode 10): every position of the text judged by the whole text around it, with the characters that WB4 ignores skipped wherever they stand, and regional indicators paired from the start of their run. The pieces are non-empty, in order, cover the text, and are the same from the front, from the back and from both ends in any mixture, with the right offsets, as_str and a size_hint that holds. Words yields those of them that its filter accepts.",
     ["inputs", "histories"], "All texts of any length, all mixtures of next and next_back.",
     "The conformance file has some 1800 short texts; the two scans (one forwards, one backwards, each with a saved place to go back to) agree with the rules only if they do so after every sequence of classes, however long.",
     ["unic/segment/src/word.rs"],
     [("WordBounds, WordBoundIndices, Words", "unic/segment/src/word.rs")])

prop("C17", "IDNA processing follows UTS #46 and the Bidi Rule",
     "For every domain name and every setting of the flags, ToASCII and ToUnicode give what UTS #46 says: every character mapped by its status, the whole normalized to NFC, split at full stops, labels with the ACE prefix decoded, every label judged by the validity criteria (with nontransitional processing for decoded ones) and, when the mapped name is a Bidi domain name, by the Bidi Rule of RFC 5893; ToASCII then encodes the labels that are not ASCII and, if asked, enforces the DNS lengths. An error is reported exactly when one of these steps finds one; ToUnicode returns the converted name even then.",
     ["inputs"], "All names, of any length and any number of labels; all eight settings of the flags. CheckHyphens in positions 3 and 4 and CheckJoiners are not offered by the crate and not part of the property.",
     "The conformance file's rows are a few thousand names; errors depend on all labels together (a Bidi label anywhere makes the rule apply everywhere).",
     ["unic/idna/src/process.rs"],
     [("to_ascii, to_unicode, processing, validate, passes_bidi, map_char", "unic/idna/src/process.rs")])

prop("C11", "Level runs and isolating run sequences follow UAX #9 BD7, BD13 and X10",
     "For every paragraph with its explicit levels, the level runs are the maximal stretches of equal level (characters that X9 removes going with what precedes them), and the isolating run sequences group them: every run belongs to exactly one sequence, a run is followed in its sequence by the run that starts with the PDI matching the isolate initiator it ends with, and a run is last when it ends with no initiator or one that has no match. The start and end directions (sos, eos) of each sequence are those of X10: from the higher of its level and the level of the last character not removed before it, or the first after it, or the paragraph level at the edges or after an unmatched initiator. Nothing panics.",
     ["inputs"], "All sequences of levels and classes of any length, all paragraph levels.",
     "Sequences are strung over runs of any number, nested isolates of any depth, adjacent and unmatched PDIs; the tests' rows are short.",
     ["unic/bidi/src/prepare.rs"],
     [("isolating_run_sequences, level_runs, removed_by_x9", "unic/bidi/src/prepare.rs")],
     [("stack", "runs that wait for the PDI of the isolate they opened", "prepare.rs")],
     note="What a run ends with is judged by its last character, removed ones included; where trailing removed characters hide an isolate initiator the library differs from BD13, which is a known finding. The rest is proved for exactly that reading.")
prop("C12", "Weak, neutral and implicit resolution follow UAX #9 W1 to W7, N1, N2, I1 and I2, and the stages make up BidiInfo",
     "For every isolating run sequence, of any length and over any number of runs, marks, numbers, separators and terminators get the classes of W1 and W3 to W7, runs of neutrals and isolate controls the direction of equal strong neighbours (numbers counting as right-to-left, sos and eos at the edges) or of the embedding (N1, N2), and every character the level of I1 or I2; a character removed by X9 ends with the level of the one before it. Nothing outside the sequence changes. The levels BidiInfo reports are what these stages make of each paragraph, with its own base level, from the explicit levels on: every byte of a character has its level, no level exceeds 126, and nothing panics.",
     ["inputs"], "All texts, all base levels up to 125; all sequences and class assignments. Rule N0 (bracket pairs) is not offered by the library and not part of the property; the deviations listed as known findings are left out.",
     "The rules look arbitrarily far back and ahead across run borders; rows of the conformance tests are short, and their data is absent here.",
     ["unic/bidi/src/implicit.rs", "unic/bidi/src/bidi_info.rs"],
     [("resolve_weak, resolve_neutral, resolve_levels", "unic/bidi/src/implicit.rs"), ("BidiInfo::new, assign_levels_to_removed_chars", "unic/bidi/src/bidi_info.rs")],
     [("prev_class, last_strong_is_al, et_run_indices", "the state of W1-W7 at a place of a sequence", "implicit.rs")],
     note="Known findings: W2 (never applied), W4 at separators of more than one byte, W5 for a mark after a terminator and for a terminator that stays one, N1 for a stretch that starts with a character X9 removes.")

prop("C18", "Character names follow Unicode section 4.8",
     "Every character has the name Unicode 10 gives it, and no name when Unicode gives none: Hangul syllables the prefix followed by the short names of their jamo (rule NR1), ideographs the prefix of their block followed by the code point in hexadecimal (NR2), all others the listed words joined by single spaces (NR3). Formatting writes exactly that text, or reports the writer's error; the length reported is the number of bytes formatting writes. Comparing two names goes element by element (prefix or words, then jamo names or character), is a total order, and says equal exactly for equal names; partial comparison agrees. Nothing panics on the names that characters have.",
     ["inputs"], "All characters, all pairs and triples of names, all writers.",
     "Tests name a dozen characters and compare a few; range ends, syllables without a trailing consonant or with the empty leading one, writers that fail part-way, and order between the three rules are not sampled.",
     ["unic/ucd/name/src/name.rs"],
     [("Name::of, len, fmt, cmp, partial_cmp, number_of_hex_digits, collect_jamo_short_names", "unic/ucd/name/src/name.rs"), ("decompose_syllable", "unic/ucd/hangul/src/hangul.rs")],
     note="The order is not that of the formatted texts (the prefix of a derived name is one element); the property claims the order the type documents by its rules, not text order. What the two data tables say is checked character by character by execution against the Python interpreter's character database (none there for Tangut, whose names are by rule).")

prop("C19", "Character properties and their values have the names declared for them, and parse from them",
     "For every property the library offers: the property gives its abbreviated, long and human-readable name, and each value its own; all_values lists every value once, in the order of declaration, and no character has a value that is not listed. A text parses to a value exactly when it is, ignoring ASCII case, the abbreviated or long name of that value (for a yes/no property y, yes, t, true, n, no, f or false), and to an error otherwise; so the two names of a value parse back to it and no text names two. Display shows the human-readable name, padded as the format asks. For a yes/no property is_*(c), of(c), as_bool, bool::from and the property traits agree for every character. The abbreviated and long names are those of PropertyValueAliases.txt where Unicode has the property, and the modules of aliases bind them to the same values.",
     ["inputs"], "All values of all properties, all texts, all characters; for any list of values and any table the declaring macro is given.",
     "Tests parse and print one or two values of each property; wrong case, near misses, non-ASCII look-alikes, and two names that clash are not sampled, and the macro's arms are each expanded for only a few types.",
     ["unic/char/property/src/macros.rs", "unic/char/property/src/range_types.rs"],
     [("char_property!", "unic/char/property/src/macros.rs"), ("BinaryCharProperty", "unic/char/property/src/range_types.rs"), ("CharProperty, PartialCharProperty, TotalCharProperty", "unic/char/property/src/property.rs")],
     note="Names of properties and values that Unicode does not list (Emoji_* in version 10, Alphanumeric, Numeric, Control, human-readable names) are those the library declares.")
