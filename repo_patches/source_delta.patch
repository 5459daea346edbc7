From e423d8efc0c31fcc80e5de70cb43567bae96f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 01/13] fix: grow the parser's char buffer in
 parse_not_extended

Queries of more than 64 characters indexed past the end of the buffer and
panicked.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From c118d6c82496381a3ef1644fda3752e551b9179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 02/13] fix: leave the ranges buffer untouched when a later
 condition fails

The ranges of the conditions that had already matched were left behind in the
caller's buffer.
---
 src/matched_ranges.rs  |  6 ++++++
 src/metrics/fzf/fzf.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..074c3e7 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -210,6 +210,12 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.remove(self.initial_len + idx)
     }
 
+    /// Removes all the ranges that have been inserted.
+    #[inline(always)]
+    pub(crate) fn reset(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn split_at_mut(
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..79d14d7 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,15 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let Some(score) = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    }) else {
+                        // The previous conditions might've already inserted
+                        // their ranges.
+                        ranges.reset();
+                        return None;
+                    };
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From 60ea17be1627fb71ecb9d5b04ddda3ab94c104f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 03/13] fix: don't lose coverage when a matched range spans
 existing ones

Inserting a range that starts at or before existing ranges and ends past them
only extended the first of them, dropping the rest of the new range.
---
 src/matched_ranges.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 074c3e7..05e97ac 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -68,6 +68,10 @@ impl<'a> MatchedRanges<'a> {
     /// TODO: docs
     #[inline(always)]
     pub(crate) fn insert(&mut self, new_range: Range<usize>) {
+        // Any existing ranges that are completely contained within the new
+        // range are superseded by it.
+        self.remove_contained_in(&new_range);
+
         let insert_idx = match self
             .binary_search_by(|range| range.start.cmp(&new_range.start))
         {
@@ -210,6 +214,22 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.remove(self.initial_len + idx)
     }
 
+    /// Removes all the ranges that are completely contained within the given
+    /// range.
+    #[inline(always)]
+    fn remove_contained_in(&mut self, outer: &Range<usize>) {
+        let ranges = &self.ranges[self.initial_len..];
+
+        let start = ranges.partition_point(|range| range.start < outer.start);
+
+        let end = ranges.partition_point(|range| range.end <= outer.end);
+
+        if start < end {
+            let len = self.initial_len;
+            self.ranges.drain(len + start..len + end);
+        }
+    }
+
     /// Removes all the ranges that have been inserted.
     #[inline(always)]
     pub(crate) fn reset(&mut self) {
-- 
2.43.0


From 83a78a7b782fcc93ebe11af903db0b987c1f9afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 04/13] fix: don't drop the negation of a lone inverse fuzzy
 pattern

A query like `!'foo` was searched as `foo`.
---
 src/metrics/fzf/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..853e126 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -49,7 +49,8 @@ impl<'a> FzfQuery<'a> {
     #[inline]
     pub(super) fn new_extended(conditions: &'a [Condition<'a>]) -> Self {
         // If there's only one condition with a single pattern, and that
-        // pattern is fuzzy, then we can use the non-extended search mode.
+        // pattern is fuzzy and not inverse, then we can use the non-extended
+        // search mode.
         if conditions.len() == 1 {
             let mut patterns = conditions[0].iter();
 
@@ -59,6 +60,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From 9996c6ed29383f88a42636b740bc78f672078d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 05/13] fix: use the class of the preceding char when an exact
 match restarts

When the search for an exact pattern restarts after a (partial) occurrence, the
bonus of the next occurrence was computed from the last char the previous
attempt looked at instead of from the char before it.
---
 src/metrics/fzf/fzf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 79d14d7..03f1c2d 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -204,12 +204,15 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
         let current_start_offset = start_offset;
+        let mut prev_class = if current_start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(current_start_offset - 1), scheme)
+        };
         let mut bonus_start = 0;
         let mut current_bonus: Score = 0;
         let mut pattern_char_idx = 0;
-- 
2.43.0


From a61a2481780f36dde5d0dbbf45482f2adfeeb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 06/13] fix: give a number after a boundary the bonus of the
 boundary

Like in fzf, the check for a word boundary comes before the one for the start of
a number.
---
 src/metrics/fzf/scoring.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index cdbee33..3e4e449 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -87,20 +87,20 @@ pub(super) fn compute_bonus(
 
         WhiteSpace => scheme.bonus_boundary_white,
 
-        Upper if prev_class == Lower => bonus::CAMEL_123,
-
-        Number if prev_class != Number => bonus::CAMEL_123,
-
-        _ => {
-            if prev_class == WhiteSpace {
-                scheme.bonus_boundary_white
-            } else if prev_class == Delimiter {
-                scheme.bonus_boundary_delimiter
-            } else if prev_class == NonWord {
-                bonus::BOUNDARY
-            } else {
-                0
-            }
+        // A word boundary takes precedence over a change of case or the start
+        // of a number.
+        _ => match prev_class {
+            WhiteSpace => scheme.bonus_boundary_white,
+
+            Delimiter => scheme.bonus_boundary_delimiter,
+
+            NonWord => bonus::BOUNDARY,
+
+            Lower if next_class == Upper => bonus::CAMEL_123,
+
+            prev if next_class == Number && prev != Number => bonus::CAMEL_123,
+
+            _ => 0,
         },
     }
 }
-- 
2.43.0


From 0c4875cc2f80f84b304a615ac6ee77aced9f44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 07/13] fix: treat the vertical tab as whitespace

`char::is_ascii_whitespace` leaves out U+000B, which fzf (and
`char::is_whitespace`) consider whitespace.
---
 src/metrics/fzf/scoring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index 3e4e449..3267bd8 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -44,7 +44,7 @@ fn ascii_char_class(ch: char, scheme: &Scheme) -> CharClass {
         CharClass::Upper
     } else if ch.is_ascii_digit() {
         CharClass::Number
-    } else if ch.is_ascii_whitespace() {
+    } else if ch.is_whitespace() {
         CharClass::WhiteSpace
     } else if (scheme.is_delimiter)(ch) {
         CharClass::Delimiter
-- 
2.43.0


From a3142a863b9ea1f0640cc5827fc22b37c754ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 08/13] fix: ignore the case of non-ASCII letters in
 case-insensitive searches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only ASCII letters were compared ignoring their case, so e.g. `ж` didn't match
`Ж` even with `CaseSensitivity::Insensitive`.
---
 src/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 61f16b6..7b3fd59 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,12 +15,16 @@ pub fn ascii_letter_flip_case(ascii_letter: u8) -> u8 {
 
 #[inline(always)]
 pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&rhs)
+    if lhs.is_ascii() || rhs.is_ascii() {
+        lhs.eq_ignore_ascii_case(&rhs)
+    } else {
+        lhs == rhs || lhs.to_lowercase().eq(rhs.to_lowercase())
+    }
 }
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
 }
 
 #[inline(always)]
-- 
2.43.0


From 7d4e0dbe4c229d1c9001f77d5cee6631d43688fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 09/13] fix: normalize uppercase letters whose lowercase can be
 normalized
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

fzf lowercases the candidate before normalizing it in case-insensitive searches,
and for some letters only the lowercase is in the normalization table. With
normalization `a` matched `ā` but not `Ā`.
---
 src/utils.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 7b3fd59..9f82fc6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -25,6 +25,10 @@ pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
     case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
+        || case_insensitive_eq(
+            lhs,
+            normalize_candidate_char(lhs, simple_lowercase(rhs)),
+        )
 }
 
 #[inline(always)]
@@ -68,3 +72,15 @@ fn normalize_candidate_char(query_char: char, candidate_char: char) -> char {
 pub fn strip_leading_spaces(s: &str) -> &str {
     &s[leading_spaces(s)..]
 }
+
+/// Returns the lowercase of the given character, or the character itself if
+/// its lowercase is made up of more than one character.
+#[inline(always)]
+fn simple_lowercase(ch: char) -> char {
+    let mut lowercase = ch.to_lowercase();
+
+    match (lowercase.next(), lowercase.next()) {
+        (Some(lowercase), None) => lowercase,
+        _ => ch,
+    }
+}
-- 
2.43.0


From 649af76c10d89fc3f6ed8a848aa562e8d86d6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 10/13] fix: only consider complete matches in FzfV2

The best score was searched for in all the rows of the scoring matrix, so with a
long enough gap a prefix of the query could win over the whole query, and both
the distance and the ranges were those of the partial match.
---
 src/metrics/fzf/fzf_v2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..246fe1c 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -493,6 +493,9 @@ fn score_remaining_rows(
     let matrix_width = scores.width();
 
     for row_idx in 1..scores.height() {
+        // Only the cells in the last row hold the score of a complete match.
+        max_score = 0;
+
         let pattern_char = pattern.char(row_idx);
 
         let (prev_scores_row, scores_row) =
-- 
2.43.0


From 4660e557e262fccaa3e1413c4573dd5b0f4aed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 11/13] fix: don't let the scores of FzfV2 go below zero

`saturating_sub` doesn't clamp the (signed) scores at zero.
---
 src/metrics/fzf/fzf_v2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 246fe1c..29359bb 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -444,7 +444,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -469,7 +469,7 @@ fn score_first_row(
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
@@ -517,14 +517,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = (scores_row[column - 1] - penalty).max(0);
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -563,7 +563,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From e2af634e955c260813d1e368df60d93913a86763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 12/13] fix: start a new gap after every match in FzfV2

The penalty was reset before walking the gap that leads to a match instead of
after the match, so that the gap after the last match in a row could be charged
as an extension of the one before it. Also, like in fzf, a gap is extended when
skipping a matching char is better than using it.
---
 src/metrics/fzf/fzf_v2.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 29359bb..1b1be52 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -441,8 +441,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -466,6 +464,8 @@ fn score_first_row(
         }
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -513,8 +513,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -551,6 +549,14 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
+            // If coming from the left is better than matching this char the
+            // gap goes on.
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
+
             if score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
-- 
2.43.0


From d2006ac5fe721855b9c04c9e3eb4088b68debeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 13/13] fix: let letters match themselves in case-insensitive
 normalized searches

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9f82fc6..7c0dd6a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -24,7 +24,8 @@ pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, rhs)
+        || case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
         || case_insensitive_eq(
             lhs,
             normalize_candidate_char(lhs, simple_lowercase(rhs)),
-- 
2.43.0

