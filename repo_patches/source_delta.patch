From f267475049b450902b2cdbe6266fca13ef49f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 01/18] fix: do not compose an LV syllable with U+11A7, which
 is not a T jamo

T_BASE is one less than the first trailing consonant (Unicode 3.12): composing with it
returned the LV syllable itself, so NFC and NFKC dropped the character.
---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From 7b7390a3fab66179cbafbf8ffe65f1c97659b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 02/18] fix: parallel iteration of ranges that start after the
 surrogates

Only the upper end of the range was moved down over the surrogate gap, so a range with
low >= U+E000 lost its first 2048 characters in par_iter.
---
 unic/char/range/src/par_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..94e8da1 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,7 +50,11 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
+        let low = if self.low >= AFTER_SURROGATE {
+            self.low as u32 - SKIP_LENGTH
+        } else {
+            self.low as u32
+        };
         let high = self.high as u32 + 1;
         low..(if self.high >= AFTER_SURROGATE {
             high - SKIP_LENGTH
-- 
2.43.0


From 2d4a091d0e129e4979c71b628c184b8ee8e613c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 03/18] fix: punycode::encode panicked in debug builds where
 the delta overflows

The increment came before the check; the documented result on overflow is None.
---
 unic/idna/punycode/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..f50d087 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -195,10 +195,10 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = match delta.checked_add(1) {
+                    Some(delta) => delta,
+                    None => return None, // Overflow
+                };
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
-- 
2.43.0


From 4012c8fa715aa83b93389d25765ce57325ed983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 04/18] fix: punycode::decode accepted non-basic code points
 before the delimiter

RFC 3492, 6.2: fail on any non-basic code point; the function documents None on malformed input.
---
 unic/idna/punycode/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index f50d087..b3acd14 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -75,6 +75,7 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
     // They are encoded as-is before the last delimiter, if any.
     let (mut output, input) = match input.rfind(DELIMITER) {
         None => (Vec::new(), input),
+        Some(position) if !input[..position].is_ascii() => return None,
         Some(position) => (
             input[..position].chars().collect(),
             if position > 0 {
-- 
2.43.0


From 3623ed0574d9f17aece446bb71600efcb8beec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 05/18] fix: visual_runs used line-relative indices and unreset
 levels

L1 looked up classes and wrote levels at offsets relative to the line, L2
reversed by the levels before the L1 reset, and an empty line at the end
of the text panicked.
---
 unic/bidi/src/bidi_info.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..dc8ca78 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -288,6 +288,11 @@ impl<'text> BidiInfo<'text> {
         assert!(line.end <= self.levels.len());
 
         let mut levels = self.levels.clone();
+        if line.start >= line.end {
+            return (levels, Vec::new());
+        }
+        let line_classes = &self.original_classes[line.clone()];
+        let line_levels = &mut levels[line.clone()];
 
         // Reset some whitespace chars to paragraph level.
         // <https://www.unicode.org/reports/tr9/#L1>
@@ -295,7 +300,7 @@ impl<'text> BidiInfo<'text> {
         let mut reset_from: Option<usize> = Some(0);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
-            match self.original_classes[i] {
+            match line_classes[i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
                 // Segment separator, Paragraph separator
@@ -318,7 +323,7 @@ impl<'text> BidiInfo<'text> {
             }
             if let (Some(from), Some(to)) = (reset_from, reset_to) {
                 for j in from..to {
-                    levels[j] = para.level;
+                    line_levels[j] = para.level;
                 }
                 reset_from = None;
                 reset_to = None;
@@ -326,7 +331,7 @@ impl<'text> BidiInfo<'text> {
         }
         if let Some(from) = reset_from {
             for j in from..line_str.len() {
-                levels[j] = para.level;
+                line_levels[j] = para.level;
             }
         }
 
@@ -363,7 +368,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -371,7 +376,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From 7a0240e2aa323b2f1e6c9199c03c2aba26c4e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 06/18] fix: visual_runs panicked on a line whose runs are all
 at level 126

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index dc8ca78..9d6d53c 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -362,7 +362,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // All runs are at the highest (even) level, so there is no odd level to reverse.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From 9fd271ff5e28fa88f072284ceb10ada634f67d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 07/18] fix: Ord for Age contradicted its PartialOrd and the
 documented order

---
 unic/ucd/age/src/age.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..4868dce 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -93,6 +93,12 @@ impl cmp::PartialOrd for Age {
     }
 }
 
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        other.0.cmp(&self.0)
+    }
+}
+
 /// Methods for character age property.
 pub trait CharAge {
     /// Get `Age` of the character.
-- 
2.43.0


From 73e13b3e0e9cecda7395c4a518b4c056a2a5ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 08/18] fix: Bidi domain names were recognized by the unmapped
 characters

A name such as "\u{2135}a" maps to "\u{5D0}a": the Bidi Rule applies to it,
but it was only looked for in the domain as given, so the label was accepted
although the name it maps to is rejected.
---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..709638d 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From b018e624a6cfa1a858aaa822be57a2d1786f0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 09/18] fix: GraphemeCursor::provide_context panicked when
 asked for the category before the cursor

is_boundary() asks for pre-context at the start of a chunk in any case, not
only for regional indicators and emoji modifiers, and the category before the
cursor decides then. A Prepend character before a control is a boundary, too.
---
 unic/segment/src/grapheme.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..8fd7f08 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -452,9 +452,11 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
+        if chunk_start + chunk.len() == self.offset {
             let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
+            let cat = GCB::of(ch);
+            self.cat_before = Some(cat);
+            if self.is_extended && cat == GCB::Prepend && self.state != GraphemeState::Unknown {
                 self.decide(false); // GB9b
                 return;
             }
@@ -462,7 +464,8 @@ impl GraphemeCursor {
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            // The category before the cursor was all that `is_boundary()` asked for.
+            _ => {}
         }
     }
 
-- 
2.43.0


From e93e1b4057370dc2187c981f84f4f4e1eb6f06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 10/18] fix: GraphemeCursor::provide_context panicked after
 running out of a chunk

of regional indicators (or emoji and extenders) that starts before the cursor.
---
 unic/segment/src/grapheme.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 8fd7f08..885a85a 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -509,6 +509,7 @@ impl GraphemeCursor {
             self.decide((ris_count % 2) == 0);
             return;
         }
+        self.state = GraphemeState::Regional;
         self.pre_context_offset = Some(chunk_start);
     }
 
@@ -530,6 +531,7 @@ impl GraphemeCursor {
             self.decide(true);
             return;
         }
+        self.state = GraphemeState::Emoji;
         self.pre_context_offset = Some(chunk_start);
     }
 
-- 
2.43.0


From 20428205e3431c50a87129621d240574fc6475e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 11/18] fix: GraphemeCursor counted regional indicators twice

when it asked for pre-context although it had counted them going forward.
---
 unic/segment/src/grapheme.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 885a85a..67d3443 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -589,7 +589,10 @@ impl GraphemeCursor {
         if self.offset == chunk_start {
             let mut need_pre_context = true;
             match self.cat_after.unwrap() {
-                GCB::RegionalIndicator => self.state = GraphemeState::Regional,
+                GCB::RegionalIndicator => {
+                    self.state = GraphemeState::Regional;
+                    self.ris_count = None; // counted from the pre-context
+                }
                 GCB::EModifier => self.state = GraphemeState::Emoji,
                 _ => need_pre_context = self.cat_before.is_none(),
             }
-- 
2.43.0


From 6064f461e8bda18798c06ccf0000162e6a2ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 12/18] fix: GraphemeCursor::prev_boundary at the start of a
 chunk

It panicked instead of asking for the previous chunk, and when it had moved
there it did not know the category after the cursor (InvalidOffset).
---
 unic/segment/src/grapheme.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 67d3443..34c3ddf 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -745,18 +745,20 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if self.offset == chunk_start {
+            return Err(GraphemeIncomplete::PrevChunk);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
         let mut ch = iter.next().unwrap();
         loop {
-            if self.offset == chunk_start {
-                self.resuming = true;
-                return Err(GraphemeIncomplete::PrevChunk);
-            }
             if self.resuming {
                 self.cat_before = Some(GCB::of(ch));
             } else {
                 self.offset -= ch.len_utf8();
                 self.cat_after = self.cat_before.take();
+                if self.cat_after.is_none() {
+                    self.cat_after = Some(GCB::of(ch));
+                }
                 self.state = GraphemeState::Unknown;
                 if let Some(ris_count) = self.ris_count {
                     self.ris_count = if ris_count > 0 {
-- 
2.43.0


From d22e50cde4ae0ffdf31aaf683212f05761a84b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 13/18] fix: GraphemeCursor::set_cursor kept a suspended query

---
 unic/segment/src/grapheme.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 34c3ddf..4301859 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -405,6 +405,9 @@ impl GraphemeCursor {
             self.cat_before = None;
             self.cat_after = None;
             self.ris_count = None;
+            // and the query suspended there, if any
+            self.pre_context_offset = None;
+            self.resuming = false;
         }
     }
 
-- 
2.43.0


From 0e4344438c31a52c1237f41f041493f6904cdab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 14/18] fix: WordBounds joined what follows an emoji sequence

WB14 joins one modifier to an emoji base, and WB3c joins nothing to an emoji
base that is not Glue_After_Zwj (such as <ZWJ, E_Base, E_Modifier>).
---
 unic/segment/src/word.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..f29083a 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -353,7 +353,7 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => Zwj,
                     _ => {
                         take_curr = false;
                         break;
@@ -580,7 +580,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBaseGAZ => Zwj,
+                    WB::EBase => Regional(RegionalState::Full),
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 4fb7990abeda2ebbfa88169c7530b35dd6218abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 15/18] fix: WordBounds went on from before a ZWJ sequence

<ALetter, ZWJ, Glue_After_Zwj, Numeric> has a boundary before the last, and
what MidLetter and the like look for is not found after a ZWJ sequence.
---
 unic/segment/src/word.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index f29083a..d8d1228 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -231,11 +231,16 @@ impl<'a> Iterator for WordBounds<'a> {
             // however we are in the previous state for the purposes of all other rules.
             if prev_zwj {
                 match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
-                        state = Emoji;
-                        continue;
-                    }
+                    WB::GlueAfterZwj | WB::EBaseGAZ => match state {
+                        // neither is what was looked for: rewind (in if statement below)
+                        FormatExtend(RequireLetter)
+                        | FormatExtend(RequireHLetter)
+                        | FormatExtend(RequireNumeric) => break,
+                        _ => {
+                            state = if cat == WB::EBaseGAZ { Emoji } else { Zwj };
+                            continue;
+                        }
+                    },
                     _ => (),
                 }
             }
-- 
2.43.0


From 8e075af884237fa97d45317ad3e16fb832491720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:42 +0000
Subject: [PATCH 16/18] fix: the short name of Sentence_Break=Extend is EX

PropertyValueAliases.txt lists 'SB ; EX ; Extend'; the macro was given the
long name twice, so "EX" did not parse and abbr_name() gave "Extend".
---
 unic/ucd/segment/src/sentence_break.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/segment/src/sentence_break.rs b/unic/ucd/segment/src/sentence_break.rs
index 8f1ffc2..5b622c8 100644
--- a/unic/ucd/segment/src/sentence_break.rs
+++ b/unic/ucd/segment/src/sentence_break.rs
@@ -57,7 +57,7 @@ char_property! {
         /// General_Category = Spacing_Mark
         /// ```
         Extend {
-            abbr => Extend,
+            abbr => EX,
             long => Extend,
             human => "Extend",
         }
-- 
2.43.0


From 22a86ab87b7d867db4bbb3780dfe4c2a9f453196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 17/18] fix: report InvalidOffset when a chunk starts after the
 cursor

GraphemeIncomplete::InvalidOffset is documented as the error for a chunk that
does not contain the cursor position; with the character after the cursor
already known, such a chunk made the offset subtraction overflow instead.
---
 unic/segment/src/grapheme.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 4301859..fe1faa1 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -576,8 +576,10 @@ impl GraphemeCursor {
         if self.state == GraphemeState::NotBreak {
             return Ok(false);
         }
-        if (self.offset < chunk_start || self.offset >= chunk_start + chunk.len())
-            && (self.offset > chunk_start + chunk.len() || self.cat_after.is_none())
+        let chunk_end = chunk_start + chunk.len();
+        if self.offset < chunk_start
+            || self.offset > chunk_end
+            || (self.offset == chunk_end && self.cat_after.is_none())
         {
             return Err(GraphemeIncomplete::InvalidOffset);
         }
-- 
2.43.0


From eb0ba0b038847ed85c6cfe566ddd041e4009c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:55 +0000
Subject: [PATCH 18/18] fix: has_ltr looks for left-to-right characters, not
 right-to-left ones

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0

