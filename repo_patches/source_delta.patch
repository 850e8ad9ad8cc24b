From 06b44f5dad4c03fd529f75b545a36c84ff37d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 01/31] fix: Soundex no longer panics on letters outside A-Z

The mapping has one code per letter of the latin alphabet, any other letter
made encode index out of it. Such letters have no code: ignore them as it is
done for other characters.
---
 src/soundex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..5f2fed0 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -222,13 +222,14 @@ impl TryFrom<String> for Soundex {
 impl Encoder for Soundex {
     fn encode(&self, value: &str) -> String {
         let value = Self::soundex_clean(value);
-        let mut iterator = value.chars();
+        // The mapping only covers `A` to `Z` : other letters have no code, they are ignored.
+        let mut iterator = value.chars().filter(char::is_ascii_uppercase);
 
         let mut code: [char; 4] = ['0', '0', '0', '0'];
 
         match iterator.next() {
             Some(ch) => code[0] = ch,
-            None => return value,
+            None => return String::new(),
         }
 
         let mut count = 1;
-- 
2.43.0


From b757cec07b2f3f42076e311bc68e11450fc09e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 02/31] fix: RefinedSoundex no longer panics on letters outside
 A-Z

Same as Soundex: letters without code are ignored.
---
 src/refined_soundex.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..5dcfb3b 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -161,7 +161,9 @@ impl Default for RefinedSoundex {
 
 impl Encoder for RefinedSoundex {
     fn encode(&self, value: &str) -> String {
-        let value = Self::soundex_clean(value);
+        // The mapping only covers `A` to `Z` : other letters have no code, they are ignored.
+        let mut value = Self::soundex_clean(value);
+        value.retain(|ch| ch.is_ascii_uppercase());
 
         let mut code = match value.chars().next() {
             Some(ch) => {
-- 
2.43.0


From 95ee6f8bdf8c2eb22ee71ff54328edc03f740c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 03/31] fix: Caverphone removes every character outside a-z
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

remove_all_non_letter kept any lowercase letter (é, ß, ...), which ended up in
the code, or made encode panic when the final cut fell inside such a character.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..f61ee08 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From 3edc6649af2e4732051adaabe22961aebf89dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 04/31] fix: Metaphone indexes text by chars

Positions in the text are char indexes, but region_match and the last char
detection used them as byte indexes: encode panicked, or missed the end of the
word, as soon as the text contained a non ASCII character.
---
 src/metaphone.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..a0d3f5a 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,11 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        // `index` is an index in chars
+        match text.char_indices().nth(index) {
+            Some((start, _)) => text[start..].starts_with(test),
+            None => false,
+        }
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -124,7 +128,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From 81808c8decc6fc8f95b7762c9fba92475cdd07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 05/31] fix: DoubleMetaphone indexes text by chars
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Rules look at letters around the current one using byte offsets, so encode
panicked or missed letters when the text contained non ASCII characters, even
though Ç and Ñ are part of the algorithm. Work on a slice of chars.
---
 src/double_metaphone.rs | 95 ++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 53 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..0758322 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -15,8 +15,6 @@
  * limitations under the License.
  */
 use std::fmt::{Display, Formatter};
-use std::iter::Peekable;
-use std::str::CharIndices;
 
 use serde::{Deserialize, Serialize};
 
@@ -221,45 +219,31 @@ impl DoubleMetaphone {
             || value.contains("WITZ")
     }
 
-    fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {
-        let result = false;
-
-        if start < 0 {
-            return false;
-        }
-
-        let start = start as usize;
-
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
-        }
-
-        result
+    /// Test if the `length` chars starting at index `start` (in chars) are one of the `criteria`.
+    fn contains(value: &[char], start: isize, length: usize, criteria: Vec<&str>) -> bool {
+        Self::contains_array(value, start, length, &criteria)
     }
 
-    fn contains_array(value: &str, start: isize, length: usize, criteria: &[&str]) -> bool {
-        let result = false;
-
+    fn contains_array(value: &[char], start: isize, length: usize, criteria: &[&str]) -> bool {
         if start < 0 {
             return false;
         }
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+        match value.get(start..start + length) {
+            Some(target) => criteria
+                .iter()
+                .any(|c| c.chars().eq(target.iter().copied())),
+            None => false,
         }
-
-        result
     }
 
-    fn char_at(value: &str, index: isize) -> Option<char> {
-        if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
+    fn char_at(value: &[char], index: isize) -> Option<char> {
+        if index < 0 {
+            return None;
         }
 
-        None
+        value.get(index as usize).copied()
     }
 
     /// Encode `value` and return the code.
@@ -284,9 +268,14 @@ impl DoubleMetaphone {
 
         let slavo_germanic = Self::is_slavo_germanic(value);
 
-        let mut iterator: Peekable<CharIndices<'_>> = value.char_indices().peekable();
+        let silent_start = SILENT_START.iter().any(|sl| value.starts_with(sl));
+
+        // Rules look around the current letter by position, and positions are in chars.
+        let value: &[char] = &value.chars().collect::<Vec<char>>();
+
+        let mut iterator = value.iter().copied().enumerate();
         let mut char_index: Option<(usize, char)> = iterator.next();
-        if SILENT_START.iter().any(|sl| value.starts_with(sl)) {
+        if silent_start {
             char_index = iterator.next();
         }
 
@@ -390,7 +379,7 @@ impl DoubleMetaphone {
         result
     }
 
-    fn handle_c(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_c(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::condition_c0(value, index) {
             result.append_char('K', None);
             1
@@ -440,7 +429,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_c0(value: &str, index: isize) -> bool {
+    fn condition_c0(value: &[char], index: isize) -> bool {
         if Self::contains(value, index, 4, vec!["CHIA"]) {
             return true;
         }
@@ -468,7 +457,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_ch(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_ch(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index > 0 && Self::contains(value, index, 4, vec!["CHAE"]) {
             // Michael
             result.append_char('K', Some('X'));
@@ -489,7 +478,7 @@ impl DoubleMetaphone {
         1
     }
 
-    fn condition_ch0(value: &str, index: isize) -> bool {
+    fn condition_ch0(value: &[char], index: isize) -> bool {
         if index != 0 {
             return false;
         }
@@ -503,7 +492,7 @@ impl DoubleMetaphone {
         !Self::contains(value, 0, 5, vec!["CHORE"])
     }
 
-    fn condition_ch1(value: &str, index: isize) -> bool {
+    fn condition_ch1(value: &[char], index: isize) -> bool {
         (Self::contains(value, 0, 4, vec!["VAN", "VON"])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
@@ -514,7 +503,7 @@ impl DoubleMetaphone {
                     || (index as usize) + 1 == value.len() - 1))
     }
 
-    fn handle_cc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_cc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index + 2, 1, vec!["I", "E", "H"])
             && !Self::contains(value, index + 2, 2, vec!["HU"])
         {
@@ -536,7 +525,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_d(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_d(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["DG"]) {
             if Self::contains(value, index + 2, 1, vec!["I", "E", "Y"]) {
                 result.append_char('J', None);
@@ -555,7 +544,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_g(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -621,7 +610,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_gh(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_gh(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         // Unwrap is safe in the first if because index > 0
         if index > 0
             && !(is_vowel(
@@ -658,7 +647,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_h(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_h(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         //-- only keep if first & before vowel or between 2 vowels --//
         if (index == 0
             || is_vowel(
@@ -679,7 +668,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_j(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -725,7 +714,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_l(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_l(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('L') {
             if Self::condition_l0(value, index) {
                 result.append_char_primary('L');
@@ -739,7 +728,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_l0(value: &str, index: isize) -> bool {
+    fn condition_l0(value: &[char], index: isize) -> bool {
         if value.len() >= 3
             && (index as usize) == value.len() - 3
             && index > 0
@@ -755,7 +744,7 @@ impl DoubleMetaphone {
             && Self::contains(value, index - 1, 4, vec!["ALLE"])
     }
 
-    fn condition_m0(value: &str, index: isize) -> bool {
+    fn condition_m0(value: &[char], index: isize) -> bool {
         if Self::char_at(value, index + 1) == Some('M') {
             return true;
         }
@@ -766,7 +755,7 @@ impl DoubleMetaphone {
                 || Self::contains(value, index + 2, 2, vec!["ER"]))
     }
 
-    fn handle_p(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_p(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('H') {
             result.append_char('F', None);
             1
@@ -781,7 +770,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_r(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -804,7 +793,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_s(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -867,7 +856,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_sc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_sc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 2) == Some('H') {
             //-- Schlesinger's rule --//
             if Self::contains(
@@ -902,7 +891,7 @@ impl DoubleMetaphone {
         2
     }
 
-    fn handle_t(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_t(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 4, vec!["TION"])
             || Self::contains(value, index, 3, vec!["TIA", "TCH"])
         {
@@ -931,7 +920,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_w(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_w(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["WR"]) {
             //-- can also be in middle of word --//
             result.append_char('R', None);
@@ -980,7 +969,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_x(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_x(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index == 0 {
             result.append_char('S', None);
             0
@@ -1001,7 +990,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_z(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
-- 
2.43.0


From 826b25438b1f42c92ffa6714ed447c819cb24218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 06/31] fix: DoubleMetaphone ch and final r rules follow the
 algorithm

* "VAN"/"VON" were compared with 4 characters, so they never matched: the
  criteria are "VAN " and "VON " as everywhere else.
* 'ch' before T or S, and the silent r of a final -ier, were bound to a minimal
  position that the algorithm (and commons-codec) doesn't have: a guard on the
  position is only required where the preceding letters are looked at, and
  contains already returns false for a negative start.
---
 src/double_metaphone.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 0758322..1f791fa 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -493,11 +493,11 @@ impl DoubleMetaphone {
     }
 
     fn condition_ch1(value: &[char], index: isize) -> bool {
-        (Self::contains(value, 0, 4, vec!["VAN", "VON"])
+        (Self::contains(value, 0, 4, vec!["VAN ", "VON "])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
                 && Self::contains(value, index - 2, 6, vec!["ORCHES", "ARCHIT", "ORCHID"]))
-            || (index > 1 && Self::contains(value, index + 2, 1, vec!["T", "S"]))
+            || Self::contains(value, index + 2, 1, vec!["T", "S"])
             || ((index == 0 || Self::contains(value, index - 1, 1, vec!["A", "O", "U", "E"]))
                 && (Self::contains_array(value, index + 2, 1, L_R_N_M_B_H_F_V_W_SPACE)
                     || (index as usize) + 1 == value.len() - 1))
@@ -775,8 +775,7 @@ impl DoubleMetaphone {
         index: isize,
         slavo_germanic: bool,
     ) -> usize {
-        if index > 3
-            && index == value.len() as isize - 1
+        if index == value.len() as isize - 1
             && !slavo_germanic
             && Self::contains(value, index - 2, 2, vec!["IE"])
             && !Self::contains(value, index - 4, 2, vec!["ME", "MA"])
-- 
2.43.0


From 530ac40cdd8451305e6211a31baf1a3d5a08598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/31] fix: DoubleMetaphone doesn't allocate max_code_length
 bytes

A big maximum code length aborted with a capacity overflow or an allocation
failure.
---
 src/double_metaphone.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 1f791fa..4490fc6 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -52,11 +52,12 @@ impl Display for DoubleMetaphoneResult {
 /// It contains both `primary` and `alternate` codes.
 impl DoubleMetaphoneResult {
     fn new(max_length: Option<usize>) -> Self {
-        // If no `max_length` is given, allocate resulting string with
-        // a capacity of 10. It should be sufficient without realloc.
+        // Allocate resulting string with a capacity of at most 10. It should be
+        // sufficient without realloc.
+        let capacity = max_length.unwrap_or(10).min(10);
         Self {
-            primary: String::with_capacity(max_length.unwrap_or(10)),
-            alternate: String::with_capacity(max_length.unwrap_or(10)),
+            primary: String::with_capacity(capacity),
+            alternate: String::with_capacity(capacity),
             max_length,
         }
     }
-- 
2.43.0


From 5c9e1b9f7924cc11b57965c2c0008d99039e6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 08/31] fix: Phonex code has exactly max_code_length characters

* the length was counted in bytes, so codes starting with a non ASCII letter
  were too short,
* a first letter M or N followed by D or G adds two characters at once: with a
  maximum length of 1 it was exceeded, and as the test was an equality, never
  enforced afterward.
---
 src/phonex.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..7d56e34 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -158,6 +158,8 @@ impl Encoder for Phonex {
         // Use directly the return type, with the right allocated capacity (if we're
         // only using ASCII).
         let mut result = String::with_capacity(self.max_code_length);
+        // Number of chars in `result`
+        let mut length = 0;
 
         let mut code = '0';
         let mut last = '0';
@@ -165,13 +167,14 @@ impl Encoder for Phonex {
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if length == self.max_code_length {
                 break 'char_iter;
             }
 
             // We always add the first (sanitized, preprocessed) character.
             if i == 0 {
                 result.push(curr);
+                length += 1;
                 last_push = curr;
             }
 
@@ -196,8 +199,11 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            // The first character might have been added just above, so
+            // `max_code_length` could have been reached.
+            if last != code && code != '0' && i != 0 && length < self.max_code_length {
                 result.push(code);
+                length += 1;
                 last_push = code;
             }
 
@@ -209,8 +215,9 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while length < self.max_code_length {
             result.push('0');
+            length += 1;
         }
 
         result
-- 
2.43.0


From d5bbf1172d634d310399f063f51d0831d2e5f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 09/31] fix: Nysiis strict code is cut by chars

It was cut by bytes: encode panicked when the cut fell inside a non ASCII
letter, or returned less than 6 letters.
---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From 762d6ddffa4319ecab11af1f40fee71669516552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 10/31] fix: MatchRatingApproach handles empty codes and non
 ASCII names

* comparing a name which has an empty code (eg. "--") panicked,
* lengths were counted in bytes: encode panicked when keeping the first and the
  last 3 letters of a name with non ASCII characters, and the comparison used
  wrong ratings.
---
 src/match_rating_approach.rs | 45 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..4e33e95 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,13 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let length = value.chars().count();
+        if length > 6 {
+            value
+                .chars()
+                .take(3)
+                .chain(value.chars().skip(length - 3))
+                .collect()
         } else {
             value
         }
@@ -151,14 +156,7 @@ impl MatchRatingApproach {
         let mut n1: Vec<char> = name1.chars().collect();
         let mut n2: Vec<char> = name2.chars().collect();
 
-        let n1len = n1.len() - 1;
-        let n2len = n2.len() - 1;
-
-        for i in 0..n1.len() {
-            if i > n2len {
-                break;
-            }
-
+        for i in 0..n1.len().min(n2.len()) {
             let c1: &char = n1.get(i).unwrap();
             let c2: &char = n2.get(i).unwrap();
             if c1 == c2 {
@@ -169,25 +167,23 @@ impl MatchRatingApproach {
             let c1: &char = n1.get(n1.len() - (i + 1)).unwrap();
             let c2: &char = n2.get(n2.len() - (i + 1)).unwrap();
             if c1 == c2 {
-                n1[n1len - i] = ' ';
-                n2[n2len - i] = ' ';
+                let last1 = n1.len() - (i + 1);
+                let last2 = n2.len() - (i + 1);
+                n1[last1] = ' ';
+                n2[last2] = ' ';
             }
         }
 
-        let r1: String = n1.iter().filter(|c| c != &&' ').collect();
-        let r2: String = n2.iter().filter(|c| c != &&' ').collect();
+        let r1 = n1.iter().filter(|c| c != &&' ').count();
+        let r2 = n2.iter().filter(|c| c != &&' ').count();
 
-        if r1.len() > r2.len() {
-            6usize.abs_diff(r1.len())
-        } else {
-            6usize.abs_diff(r2.len())
-        }
+        6usize.abs_diff(r1.max(r2))
     }
 }
 
 impl Encoder for MatchRatingApproach {
     fn encode(&self, value: &str) -> String {
-        if value.trim().is_empty() || value.trim().len() == 1 {
+        if value.trim().chars().count() <= 1 {
             return String::new();
         }
 
@@ -204,7 +200,7 @@ impl Encoder for MatchRatingApproach {
             return false;
         }
 
-        if first.trim().len() == 1 || second.trim().len() == 1 {
+        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {
             return false;
         }
 
@@ -215,11 +211,14 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
-        if name1.len().abs_diff(name2.len()) >= 3 {
+        let length1 = name1.chars().count();
+        let length2 = name2.chars().count();
+
+        if length1.abs_diff(length2) >= 3 {
             return false;
         }
 
-        let sum_length = name1.len() + name2.len();
+        let sum_length = length1 + length2;
 
         let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);
         let count = MatchRatingApproach::left_to_right_then_right_to_left_processing(name1, name2);
-- 
2.43.0


From 6b271a9d6a0ef040d11b9d02475ff9e191b4599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 11/31] fix: Daitch-Mokotoff pattern length is in chars
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Patterns are matched on a text iterated by chars, but their length was in bytes:
after a rule like "ţ" or "ę" an extra character was skipped, the vowel test
looked at the wrong one, and the longest pattern was not always tried first.
---
 src/daitch_mokotoff.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..2aa0120 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -83,7 +83,7 @@ impl Rule {
     }
 
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
@@ -96,9 +96,7 @@ impl Rule {
         }
 
         let next_index = self.get_pattern_length();
-        let next_char_is_vowel =
-            next_index < context.len() && is_vowel(context.chars().nth(next_index), false);
-        if next_char_is_vowel {
+        if is_vowel(context.chars().nth(next_index), false) {
             return &self.replacement_before_vowel;
         }
 
@@ -518,7 +516,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
         // Ordering by pattern length decreasing.
         rules
             .values_mut()
-            .for_each(|v| v.sort_by(|a, b| a.pattern.len().cmp(&b.pattern.len()).reverse()));
+            .for_each(|v| v.sort_by_key(|rule| std::cmp::Reverse(rule.get_pattern_length())));
 
         Ok(DaitchMokotoffSoundex {
             ascii_folding: self.ascii_folding,
-- 
2.43.0


From 7e7e4ccf4580db85f9dae282b8c6a50a259c6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 12/31] fix: Daitch-Mokotoff code length is in chars

Replacements come from the rule file and can contain any character: cutting the
code by bytes panicked inside a non ASCII one.
---
 src/daitch_mokotoff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 2aa0120..6e5ea7f 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -47,7 +47,7 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
+        for _ in self.builder.chars().count()..MAX_LENGTH {
             self.builder.push('0');
         }
     }
@@ -58,10 +58,10 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
+        if append {
             self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
+            if let Some((end, _)) = self.builder.char_indices().nth(MAX_LENGTH) {
+                self.builder.truncate(end);
             }
         }
 
-- 
2.43.0


From 41cff75c8b4d0ed49c4dda0a00ce37fc0721ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 13/31] fix: Daitch-Mokotoff doesn't return the same code
 several times

Two branches can end with the same code and a different last replacement, for
instance soundex("cj") was "400000|400000|500000|540000".
---
 src/daitch_mokotoff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 6e5ea7f..f05dfd4 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -389,7 +389,10 @@ impl DaitchMokotoffSoundex {
         let mut result: Vec<String> = Vec::with_capacity(current_branches.len());
         for branch in current_branches.iter_mut() {
             branch.finish();
-            result.push(branch.builder.clone());
+            // Branches that only differ by their last replacement give the same code.
+            if !result.contains(&branch.builder) {
+                result.push(branch.builder.clone());
+            }
         }
 
         result
-- 
2.43.0


From a58281733f6aca32f5c20cf9db77e99945178ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 14/31] fix: Daitch-Mokotoff rule with an empty pattern is an
 error

build panicked.
---
 src/daitch_mokotoff.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index f05dfd4..14e014e 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -480,8 +480,14 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                let ch = rule.pattern.chars().next().ok_or_else(|| {
+                    build_error(
+                        line_number,
+                        None,
+                        remains,
+                        "Pattern can't be empty".to_string(),
+                    )
+                })?;
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From 962f3839a78d15217b1bcd02fbcea5d7e2c144da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 15/31] fix: Daitch-Mokotoff error line number after a
 multiline comment

Each multiline comment shifted the line number of the error by one.
---
 src/daitch_mokotoff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 14e014e..ad707aa 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -508,7 +508,8 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                // The line where the comment starts is already counted.
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 96281fb782d3906f840470c3ce4d4464ff29437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 16/31] fix: Daitch-Mokotoff folding rule doesn't span lines

anychar also accepts end of lines: "a=" followed by an end of line was read as
the folding of a into an end of line (and "=a" after an empty line as the
opposite) instead of being an error.
---
 src/rules_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..fdc66cf 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
-use nom::character::complete::{alpha1, anychar, char, crlf, space1};
+use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
 
@@ -91,7 +91,10 @@ pub fn quadruplet<'a>() -> impl nom::Parser<
 /// Recognize a Daitch-Mokotoff folding rule (`a=b`). It could be followed by a single line comment.
 pub fn folding<'a>(
 ) -> impl nom::Parser<&'a str, Output = (char, char), Error = nom::error::Error<&'a str>> {
-    terminated(separated_pair(anychar, char('='), anychar), end_of_line())
+    terminated(
+        separated_pair(none_of("\r\n"), char('='), none_of("\r\n")),
+        end_of_line(),
+    )
 }
 
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
-- 
2.43.0


From c810986b27b5d17e54770ed7ed08f0bee8fa55e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 17/31] fix: Beider-Morse language detection errors report the
 right file and line

---
 src/beider_morse/lang.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..f55054d 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,11 +119,11 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
+            remains = rm;
+
             let langs: BTreeSet<String> =
                 BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
             rules.push(LangRule {
@@ -138,7 +138,7 @@ fn parse_lang(
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
-- 
2.43.0


From a424bae1a68443c3408839a7caa8ba4d2e7c1a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 18/31] fix: Beider-Morse include error reports the include
 line

---
 src/beider_morse/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..5e1b6eb 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -265,7 +265,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -279,6 +278,7 @@ fn parse_rule(
                 }
             })?;
             result.extend(rules);
+            remains = rm;
             continue;
         }
 
-- 
2.43.0


From 312191b29fa3a68831d3f214f1750fb1dacbbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 19/31] fix: Beider-Morse missing languages file is an error

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index f55054d..3795305 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -154,7 +154,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From c8decec88baf2ecc92b3afb1ed7b9c926c0db7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 20/31] fix: Beider-Morse rule with an empty pattern is an
 error

---
 src/beider_morse/rule.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 5e1b6eb..31ebe20 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -228,6 +228,14 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
+            let Some(ch) = pattern.chars().next() else {
+                return Err(build_error(
+                    line_number,
+                    Some(filename.to_string()),
+                    remains,
+                    "Pattern can't be empty".to_string(),
+                ));
+            };
             remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
@@ -252,7 +260,6 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
             result.entry(ch).or_default().push(rule);
             continue;
         }
-- 
2.43.0


From 07c052b3cfb0f572642d3893de0f3ffe4617ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 21/31] fix: Beider-Morse rules including themselves is an
 error

---
 src/beider_morse/rule.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 31ebe20..9db47db 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -215,6 +215,20 @@ fn parse_rule(
     resolver: &Resolver,
     filename: &str,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    parse_rule_included(resolver, filename, &mut Vec::new())
+}
+
+/// Same as [parse_rule], `parents` are the files that lead to this one through includes.
+fn parse_rule_included(
+    resolver: &Resolver,
+    filename: &str,
+    parents: &mut Vec<String>,
+) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    if parents.iter().any(|parent| parent == filename) {
+        return Err(BMError::WrongFilename(format!("{filename} rules include themselves")).into());
+    }
+    parents.push(filename.to_string());
+
     let content = resolver.resolve(filename)?;
     let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
     let mut remains = content.as_str();
@@ -272,18 +286,19 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            let rules = parse_rule(resolver, include_filename).map_err(|error| {
-                if let PhoneticError::BMError(error) = error.clone() {
-                    build_error(
-                        line_number,
-                        Some(filename.to_string()),
-                        remains,
-                        error.to_string(),
-                    )
-                } else {
-                    error
-                }
-            })?;
+            let rules =
+                parse_rule_included(resolver, include_filename, parents).map_err(|error| {
+                    if let PhoneticError::BMError(error) = error.clone() {
+                        build_error(
+                            line_number,
+                            Some(filename.to_string()),
+                            remains,
+                            error.to_string(),
+                        )
+                    } else {
+                        error
+                    }
+                })?;
             result.extend(rules);
             remains = rm;
             continue;
@@ -305,6 +320,7 @@ fn parse_rule(
         ));
     }
 
+    parents.pop();
     Ok(result)
 }
 
-- 
2.43.0


From 86a515b553ff47b976104822e7caca4b825fe3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 22/31] fix: Beider-Morse language detection rule doesn't span
 lines

---
 src/rules_parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index fdc66cf..d5ce221 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -97,13 +97,18 @@ pub fn folding<'a>(
     )
 }
 
+/// A part of a language detection rule stops at the first space and doesn't span lines.
+fn is_lang_separator(ch: char) -> bool {
+    matches!(ch, ' ' | '\n' | '\r')
+}
+
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
 pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(is_lang_separator), char(' ')),
+        terminated(take_till1(is_lang_separator), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0


From dc7129856ad3f89e274863607ecb3b388c09d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 23/31] fix: Beider-Morse languages error reports the filename

---
 src/beider_morse/languages.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/languages.rs b/src/beider_morse/languages.rs
index 76aaf9d..d926805 100644
--- a/src/beider_morse/languages.rs
+++ b/src/beider_morse/languages.rs
@@ -152,7 +152,8 @@ impl TryFrom<&PathBuf> for Languages {
             let path = path?;
             if let Ok(name_type) = NameType::try_from(path.file_name()) {
                 let content = std::fs::read_to_string(path.path())?;
-                let languages = parse_liste(content)?;
+                let filename = path.path().to_str().map(|v| v.to_string());
+                let languages = parse_liste(filename, content)?;
                 map.insert(name_type, languages);
             }
         }
@@ -161,7 +162,7 @@ impl TryFrom<&PathBuf> for Languages {
     }
 }
 
-fn parse_liste(list: String) -> Result<BTreeSet<String>, PhoneticError> {
+fn parse_liste(filename: Option<String>, list: String) -> Result<BTreeSet<String>, PhoneticError> {
     let mut result = BTreeSet::new();
     let mut remains = list.as_str();
     let mut line_number: usize = 0;
@@ -195,7 +196,7 @@ fn parse_liste(list: String) -> Result<BTreeSet<String>, PhoneticError> {
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for languages".to_string(),
         ));
-- 
2.43.0


From 3d4da22891ab4993ed07e6c19fe50de162b14102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 24/31] fix: Beider-Morse keeps the languages of alternatives
 which join to the same phonemes

---
 src/beider_morse/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index ecadcde..d975fbc 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -67,7 +67,11 @@ impl PhonemeBuilder {
                 let languages = left.languages().restrict_to(right.languages());
                 if !languages.is_empty() {
                     let phoneme = Phoneme::join(left, right, languages);
-                    if phonemes.len() < max_phonemes {
+                    if let Some(old_phoneme) = phonemes.get(&phoneme) {
+                        // Since equality is on text, replace should work fine
+                        let merge_phoneme = old_phoneme.merge_with_language(phoneme.languages());
+                        phonemes.replace(merge_phoneme);
+                    } else if phonemes.len() < max_phonemes {
                         phonemes.insert(phoneme);
                     }
                     if phonemes.len() >= max_phonemes {
-- 
2.43.0


From 5a4530cd3991644c334afd2c4d6dff8a5f9ba92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 25/31] fix: Beider-Morse final rules merge the languages of
 the phonemes they make

---
 src/beider_morse/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index d975fbc..3d1facc 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -174,7 +174,7 @@ impl PhoneticEngine<'_> {
 
             for new_phoneme in sub_builder.phonemes {
                 if let Some(old_phoneme) = phonemes.get(&new_phoneme) {
-                    let merge_phoneme = old_phoneme.merge_with_language(phoneme.languages());
+                    let merge_phoneme = old_phoneme.merge_with_language(new_phoneme.languages());
                     // Since equality is on text, replace should work fine
                     phonemes.replace(merge_phoneme);
                 } else {
-- 
2.43.0


From 0850d3c51f232c0738c7f1cc176c614cb1d6e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 26/31] fix: Beider-Morse looks for a particle after leading
 blanks

---
 src/beider_morse/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 3d1facc..3b15c18 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -213,6 +213,7 @@ impl PhoneticEngine<'_> {
         let final_rules2 = self.rules.rules(self.name_type, self.rule_type, l).unwrap();
 
         let input = input.to_lowercase().replace('-', " ");
+        let input = input.trim();
 
         if self.name_type == NameType::Generic {
             if let Some(remainder) = input.strip_prefix("d'") {
-- 
2.43.0


From 524f22dde869ec8419d2787f716c8a5d1e40e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 27/31] fix: CharSequence inclusive range up to the maximum
 doesn't overflow

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index f61ee08..acc1e3a 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -176,7 +176,7 @@ impl Index<RangeInclusive<usize>> for CharSequence<'_> {
     type Output = str;
 
     fn index(&self, index: RangeInclusive<usize>) -> &Self::Output {
-        &self[*index.start()..*index.end() + 1]
+        &self[*index.start()..index.end().saturating_add(1)]
     }
 }
 
-- 
2.43.0


From 0f913066164f6ddc0134e2d52316d924f19e1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:16 +0000
Subject: [PATCH 28/31] fix: Beider-Morse encodes any number of particles
 without recursion

---
 src/beider_morse/engine.rs | 99 +++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 39 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 3b15c18..9b2b0de 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -124,6 +124,14 @@ impl RulesApplication<'_> {
     }
 }
 
+/// A part of the encoding of a name with particles.
+#[derive(Debug)]
+enum Task {
+    /// A name to encode, and its languages if they are known.
+    Encode(String, Option<LanguageSet>),
+    Text(&'static str),
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct PhoneticEngine<'a> {
     pub(crate) rules: &'a Rules,
@@ -192,6 +200,58 @@ impl PhoneticEngine<'_> {
     }
 
     pub fn encode_with_language_set(&self, input: &str, languages: &LanguageSet) -> String {
+        let mut result = String::new();
+
+        // What remains to be done, last one first. A name can have any number of particles, so
+        // this is not done by recursion.
+        let mut tasks = vec![Task::Encode(input.to_string(), Some(languages.clone()))];
+        while let Some(task) = tasks.pop() {
+            match task {
+                Task::Text(text) => result.push_str(text),
+                Task::Encode(input, languages) => {
+                    let languages = languages.unwrap_or_else(|| self.lang.guess_languages(&input));
+                    let input = input.to_lowercase().replace('-', " ");
+                    let input = input.trim();
+
+                    match self.split_particle(input) {
+                        Some((remainder, combined)) => tasks.extend([
+                            Task::Text(")"),
+                            Task::Encode(combined, None),
+                            Task::Text(")-("),
+                            Task::Encode(remainder, None),
+                            Task::Text("("),
+                        ]),
+                        None => result.push_str(&self.encode_words(input, &languages)),
+                    }
+                }
+            }
+        }
+
+        result
+    }
+
+    /// If a generic name starts with a particle, get what follows it, and the name with the
+    /// particle glued.
+    fn split_particle(&self, input: &str) -> Option<(String, String)> {
+        if self.name_type != NameType::Generic {
+            return None;
+        }
+
+        if let Some(remainder) = input.strip_prefix("d'") {
+            return Some((remainder.to_string(), format!("d{remainder}")));
+        }
+
+        NAME_PREFIXES
+            .get(&self.name_type)
+            .unwrap()
+            .iter()
+            .find_map(|prefix| {
+                let remainder = input.strip_prefix(prefix)?.strip_prefix(' ')?;
+                Some((remainder.to_string(), format!("{prefix}{remainder}")))
+            })
+    }
+
+    fn encode_words(&self, input: &str, languages: &LanguageSet) -> String {
         let l = if languages.is_singleton() {
             match languages.any() {
                 Some(l) => l,
@@ -212,45 +272,6 @@ impl PhoneticEngine<'_> {
             .unwrap();
         let final_rules2 = self.rules.rules(self.name_type, self.rule_type, l).unwrap();
 
-        let input = input.to_lowercase().replace('-', " ");
-        let input = input.trim();
-
-        if self.name_type == NameType::Generic {
-            if let Some(remainder) = input.strip_prefix("d'") {
-                let mut combined = String::with_capacity(remainder.len() + 1);
-                combined.push('d');
-                combined.push_str(remainder);
-                let combined = self.encode(&combined);
-                let remainder = self.encode(remainder);
-                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);
-                result.push('(');
-                result.push_str(&remainder);
-                result.push_str(")-(");
-                result.push_str(&combined);
-                result.push(')');
-                return result;
-            }
-            for prefix in NAME_PREFIXES.get(&self.name_type).unwrap() {
-                let mut p = String::with_capacity(prefix.len() + 1);
-                p.push_str(prefix);
-                p.push(' ');
-                if let Some(remainder) = input.strip_prefix(p.as_str()) {
-                    let mut combined = String::with_capacity(prefix.len() + remainder.len());
-                    combined.push_str(prefix);
-                    combined.push_str(remainder);
-                    let combined = self.encode(&combined);
-                    let remainder = self.encode(remainder);
-                    let mut result = String::with_capacity(remainder.len() + combined.len() + 5);
-                    result.push('(');
-                    result.push_str(&remainder);
-                    result.push_str(")-(");
-                    result.push_str(&combined);
-                    result.push(')');
-                    return result;
-                }
-            }
-        }
-
         let words: Vec<&str> = input.split_whitespace().collect();
 
         // Early return, avoid clone and allocations
-- 
2.43.0


From 278369d65515fe3754d1a9c6ffc16da801ac4b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 29/31] fix: Beider-Morse no longer panics on a language
 without rules

---
 src/beider_morse/engine.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 9b2b0de..ad05e43 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -262,15 +262,25 @@ impl PhoneticEngine<'_> {
         } else {
             "any"
         };
+        // A given language can be unknown, and a configuration without the language "any" has no
+        // rules for it.
+        let no_rules = BTreeMap::new();
+        let l = match self.rules.rules(self.name_type, PrivateRuleType::Rules, l) {
+            Some(_) => l,
+            None => "any",
+        };
         let rules = self
             .rules
             .rules(self.name_type, PrivateRuleType::Rules, l)
-            .unwrap();
+            .unwrap_or(&no_rules);
         let final_rules1 = self
             .rules
             .rules(self.name_type, self.rule_type, "common")
             .unwrap();
-        let final_rules2 = self.rules.rules(self.name_type, self.rule_type, l).unwrap();
+        let final_rules2 = self
+            .rules
+            .rules(self.name_type, self.rule_type, l)
+            .unwrap_or(&no_rules);
 
         let words: Vec<&str> = input.split_whitespace().collect();
 
-- 
2.43.0


From 3e330f267ae2bacf6be4de0a5b834382f316eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 30/31] fix: Beider-Morse rules include any number of nested
 files without recursion

---
 src/beider_morse/rule.rs | 108 +++++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 33 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 9db47db..ca63cf6 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -211,28 +211,82 @@ fn parse_phoneme_expr(phoneme_rule: &str) -> Result<PhonemeList, BMError> {
     }
 }
 
-fn parse_rule(
-    resolver: &Resolver,
-    filename: &str,
-) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
-    parse_rule_included(resolver, filename, &mut Vec::new())
+/// A rules file being read.
+struct RuleFile {
+    filename: String,
+    content: String,
+    /// Start of what remains to be read, in bytes.
+    position: usize,
+    line_number: usize,
+    /// The last include line.
+    include_line: String,
+    rules: BTreeMap<char, Vec<Rule>>,
+}
+
+impl RuleFile {
+    fn open(resolver: &Resolver, filename: &str) -> Result<Self, PhoneticError> {
+        Ok(Self {
+            filename: filename.to_string(),
+            content: resolver.resolve(filename)?,
+            position: 0,
+            line_number: 0,
+            include_line: String::new(),
+            rules: BTreeMap::new(),
+        })
+    }
+
+    /// Locate an error of the file included by this one.
+    fn include_error(&self, error: PhoneticError) -> PhoneticError {
+        match error {
+            PhoneticError::BMError(error) => build_error(
+                self.line_number,
+                Some(self.filename.clone()),
+                &self.include_line,
+                error.to_string(),
+            ),
+            error => error,
+        }
+    }
 }
 
-/// Same as [parse_rule], `parents` are the files that lead to this one through includes.
-fn parse_rule_included(
+fn parse_rule(
     resolver: &Resolver,
     filename: &str,
-    parents: &mut Vec<String>,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
-    if parents.iter().any(|parent| parent == filename) {
-        return Err(BMError::WrongFilename(format!("{filename} rules include themselves")).into());
+    // Each file is included by the one before. There can be any number of them, so this is not
+    // done by recursion.
+    let mut parents: Vec<RuleFile> = Vec::new();
+    let mut file = RuleFile::open(resolver, filename)?;
+
+    loop {
+        let included = parse_to_include(&mut file).map_err(|error| match parents.last() {
+            Some(parent) => parent.include_error(error),
+            None => error,
+        })?;
+
+        if let Some(included) = included {
+            parents.push(file);
+            file = if parents.iter().any(|parent| parent.filename == included) {
+                Err(BMError::WrongFilename(format!("{included} rules include themselves")).into())
+            } else {
+                RuleFile::open(resolver, &included)
+            }
+            .map_err(|error| parents[parents.len() - 1].include_error(error))?;
+        } else if let Some(mut parent) = parents.pop() {
+            parent.rules.extend(file.rules);
+            file = parent;
+        } else {
+            return Ok(file.rules);
+        }
     }
-    parents.push(filename.to_string());
+}
 
-    let content = resolver.resolve(filename)?;
-    let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
-    let mut remains = content.as_str();
-    let mut line_number: usize = 0;
+/// Read rules up to the next include, and return its filename, or up to the end of the file.
+fn parse_to_include(file: &mut RuleFile) -> Result<Option<String>, PhoneticError> {
+    let filename = file.filename.as_str();
+    let result = &mut file.rules;
+    let mut remains = &file.content[file.position..];
+    let mut line_number = file.line_number;
 
     while !remains.is_empty() {
         line_number += 1;
@@ -286,22 +340,10 @@ fn parse_rule_included(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            let rules =
-                parse_rule_included(resolver, include_filename, parents).map_err(|error| {
-                    if let PhoneticError::BMError(error) = error.clone() {
-                        build_error(
-                            line_number,
-                            Some(filename.to_string()),
-                            remains,
-                            error.to_string(),
-                        )
-                    } else {
-                        error
-                    }
-                })?;
-            result.extend(rules);
-            remains = rm;
-            continue;
+            file.include_line = remains.split('\n').next().unwrap_or_default().to_string();
+            file.position = file.content.len() - rm.len();
+            file.line_number = line_number;
+            return Ok(Some(include_filename.to_string()));
         }
 
         // Try multiline comment
@@ -320,8 +362,8 @@ fn parse_rule_included(
         ));
     }
 
-    parents.pop();
-    Ok(result)
+    file.position = file.content.len();
+    Ok(None)
 }
 
 fn build_rules(resolver: Resolver, languages: &Languages) -> Result<Rules, PhoneticError> {
-- 
2.43.0


From 813651398d0facc2698f00941b0265f00675ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:15 +0000
Subject: [PATCH 31/31] fix: a quoted part of a rule doesn't span lines

---
 src/rules_parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index d5ce221..ac555ac 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
+use nom::bytes::complete::{is_not, tag, take_till, take_till1, take_until, take_while1};
 use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -65,11 +65,15 @@ pub fn end_of_line<'a>(
     )
 }
 
-/// Recognize something between two double quote (`"..."`).
+/// Recognize something between two double quote (`"..."`) on a single line.
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
-    // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // tag("\\\"") and everything up to the next "\"".
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_till(|ch: char| matches!(ch, '"' | '\n')))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
-- 
2.43.0

