CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, **kw):
    kw.setdefault("level", "proof")
    CHECKS[pid] = kw


check("C01", units=["range"], replay="c01", secs=8)
check("C02", units=["par"], replay="c02", secs=8,
      trusted=["rayon: a Range<u32> as a parallel iterator is the sequence of its numbers, map applies its function to each, and len, drive, drive_unindexed and with_producer hand that sequence on, as documented"])
check("C04", units=["hangul"], replay="c04", secs=6)
check("C16", units=["puny"], replay="c16", secs=10)
check("C08", units=["level"], replay="c08", secs=6)
check("C10", units=["explicit"], replay="c10", secs=12, rlimit=60)
check("C09", units=["initial"], replay="c09", secs=10, rlimit=60,
      trusted=["BidiClass::of is an uninterpreted function of the character; the one fact used about it (class FSI implies a three-byte character) is checked for every code point by the replay program"])
check("C03", units=["tables"], replay="c03", secs=8,
      trusted=["<[T]>::binary_search_by and binary_search_by_key as documented by core", "the constant tables are well formed: checked row by row by the replay program on every run"])
check("C20", units=["age"], replay="c20", secs=5, trusted=["#[derive(Ord, PartialOrd)] on UnicodeVersion is lexicographic in declaration order: executed by the replay program"])
check("C21", units=["preds", "bidipreds"], replay="c21", secs=5,
      trusted=["BidiClass::of is an uninterpreted function of the character here; its lookup is proved in C03", "str::chars and Iterator::any as documented"])
check("C22", units=["forms"], replay="c22", secs=5,
      trusted=["write! as core documents it: its pieces in order up to the first error; {} of an integer is its decimal digits and {:04X} its upper-case hexadecimal digits with zeros in front to four", "str equality, Iterator::max of levels by their number, and Formatter::write_str either appends the text or fails, as documented"])
check("C05", units=["dec"], replay="c05", secs=8,
      trusted=["the constant tables are well formed, the mappings acyclic, and ASCII, conjoining jamo and Hangul syllables unmapped: checked for every character by the replay program"])
check("C06", units=["nfd"], replay="c06", secs=10, rlimit=60,
      trusted=["VecDeque::swap as documented", "a source iterator yields finitely many characters and stays at its end"])
check("C07", units=["nfc"], replay="c07", secs=10, rlimit=60,
      trusted=["VecDeque::swap as documented", "a source iterator yields finitely many characters and stays at its end", "that the composition table is the inverse of the decomposition table (less the exclusions): checked for every pair in it by the replay program"])
check("C13", units=["visual"], replay="c13", secs=10, rlimit=60,
      trusted=["the derived ordering of Level is that of its number", "slicing, str slicing, [T]::reverse, String::extend, push_str as documented"])
check("C15", units=["grapheme"], replay="c15", secs=10, rlimit=60,
      trusted=["GraphemeClusterBreak::of is an uninterpreted function of the character here; its lookup is proved in C03",
               "str slicing, chars().rev(), len() and the address of a slice of a str as documented",
               "next_boundary and prev_boundary are asked with a chunk that contains the cursor (their documentation asks for it)"])
check("C14", units=["words"], replay="c14", secs=10, rlimit=60,
      trusted=["WordBreak::of is an uninterpreted function of the character here; its lookup is proved in C03; that the classes CR and LF have one character each is checked for every character by the replay program",
               "core::iter::Filter gives the items its predicate accepts, from either end, as documented; the predicate is a function of the text",
               "str slicing, char_indices() and its reverse, and the address of a slice of a str as documented"])
check("C18", units=["name"], replay="c18", secs=8,
      trusted=["the table of explicit names and the jamo short names are uninterpreted functions of the character here (their lookup is proved in C03); that names are non-empty lists of words without spaces and jamo short names are distinct within leading consonants, vowels and trailing consonants, and what they say, is checked for every character by the replay program",
               "the order of str, of slices and of arrays of options is lexicographic, {:X} writes upper-case hexadecimal digits without leading zeros, and Formatter::write_str either appends the text or fails, as documented"])
check("C19", units=["prop"], replay="c19", secs=5,
      trusted=["that no text names two values of a property, and what the names are: checked for every value of every property by the replay program",
               "str equality, eq_ignore_ascii_case, stringify! of an identifier, match arms tried in order, and the expansion of macro_rules repetitions, as documented",
               "the derived traits of the declared types, the enum item and the modules of aliases the macro declares: executed by the replay program, not proved"])
check("C17", units=["idna"], replay="c17", secs=10, rlimit=60,
      trusted=["NFC, Punycode and the mapping, Bidi class and combining mark lookups are uninterpreted functions here; their contracts are proved in C07, C16 and C03",
               "names are shorter than 2^32 bytes (Punycode's contract)",
               "str::split, starts_with, ends_with, is_ascii, chars().rev() and slicing as documented"])
check("C11", units=["runs"], replay="c11", secs=10, rlimit=60,
      trusted=["the derived ordering of Level is that of its number", "[T]::iter().position and rposition, Vec's iterators and Range::len as documented"],
      assumptions=["a run that ends in an isolate initiator followed by characters X9 removes counts as not ending in the initiator (known finding c11-1)"])
check("C12", units=["implicit", "pipe"], replay="c12", secs=12, rlimit=60,
      trusted=["the derived ordering of Level is that of its number", "flat_map over the runs of a sequence visits their places in order"],
      assumptions=["the deviations listed in known_findings.json are left out of the contracts of resolve_weak and resolve_neutral"])
