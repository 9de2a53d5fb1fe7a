From e02595ae95416fb54a28164c6fdc17c1e35ea478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 01/10] fix: loops of the empty language contain the empty
 string when their lower bound is 0

---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..4092a31 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [0, j] --> epsilon
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty if i > 0
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From 765ec0acd845e14f8b242cee06d968959abb68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 02/10] fix: interval_cover compares a set with the start of
 the next interval, not its end

---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From b5dfecd6a7ab1e6829443f1b82efa003f2386a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 03/10] fix: right_mul_is_exact no longer panics when c * (b -
 a) overflows 32 bits

---
 src/loop_ranges.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 697ab1e..f056c11 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -354,7 +354,9 @@ impl LoopRange {
                 // c = other.start()
                 // b = self.end()
                 // a = self.start()
-                mul32(other.start(), self.end() - self.start()) >= self.start().saturating_sub(1)
+                // (64bit product: it cannot overflow)
+                u64::from(other.start()) * u64::from(self.end() - self.start())
+                    >= u64::from(self.start().saturating_sub(1))
             }
     }
 
-- 
2.43.0


From 406b9d126457491aa6ada1c80f0d2658418d60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 04/10] fix: str_indexof finds the empty string at the end of a
 string

SMT-LIB defines (str.indexof s "" |s|) as |s|, the guard rejected it.
---
 src/smt_strings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..0afa77d 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -760,9 +760,9 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 ///
 /// Index of the first occurrence of s2 in s1, starting from index i
 ///
-/// - If 0 <= i < s1.len and s2 occurs in s1[i ..] then return the index j >= i
+/// - If 0 <= i <= s1.len and s2 occurs in s1[i ..] then return the index j >= i
 ///   of the first occurrence of s2 in s1[i ..].
-/// - Return -1 if i < 0 or i >= s1.len or s2 does not occur in s1[i ..]
+/// - Return -1 if i < 0 or i > s1.len or s2 does not occur in s1[i ..]
 ///
 /// # Examples
 /// ```
@@ -779,7 +779,7 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 /// ```
 ///
 pub fn str_indexof(s1: &SmtString, s2: &SmtString, i: i32) -> i32 {
-    if i < 0 || i >= s1.len() as i32 {
+    if i < 0 || i > s1.len() as i32 {
         -1
     } else {
         match find_sub_vector(&s2.s, &s1.s, i as usize) {
-- 
2.43.0


From 52829bed913c53f31cf826cafd06b2984160a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 05/10] fix: escape backslashes when an SmtString is printed

The six characters \\u{41} were printed as the literal of the string A.
---
 src/smt_strings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 0afa77d..4bc0dbd 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -387,12 +387,15 @@ pub fn smt_char_as_string(x: u32) -> String {
 // Convert to an ASCII string in the SMT syntax
 // - use escape sequences for non-printable ASCII characters and non-ASCII characters
 // - convert "  to ""
+// - escape \ so that the characters that follow it can't be read as an escape sequence
 impl fmt::Display for SmtString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "\"")?;
         for &x in self.s.iter() {
             if x == '"' as u32 {
                 write!(f, "\"\"")?;
+            } else if x == '\\' as u32 {
+                write!(f, "\\u{{5c}}")?;
             } else if x >= 32 && x < 127 {
                 write!(f, "{}", char::from_u32(x).unwrap())?;
             } else if x < 32 || x == 127 {
-- 
2.43.0


From 696a37ff7e8760af022edb321c16a6f3e3d1d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 06/10] fix: str_to_int detects every overflow and non-digits
 after a long prefix

Without overflow checks, a wrapped value could be returned; and a string that
is not all digits caused a panic when its digit prefix was too large.
---
 src/smt_strings.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 4bc0dbd..de830d9 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -943,21 +943,17 @@ pub fn str_from_code(x: i32) -> SmtString {
 /// assert_eq!(str_to_int(&SmtString::from("101aaabb")), -1);
 /// ```
 pub fn str_to_int(s: &SmtString) -> i32 {
-    if s.is_empty() {
+    if s.is_empty() || !s.s.iter().all(|&d| char_is_digit(d)) {
         return -1;
     }
 
     let mut x: i32 = 0;
     for &d in &s.s {
-        if char_is_digit(d) {
-            let y = 10 * x + (d as i32 - '0' as i32);
-            if y < x {
-                panic!("Arithmetic overflow in str_to_int");
-            }
-            x = y;
-        } else {
-            return -1;
-        }
+        let digit = d as i32 - '0' as i32;
+        x = match x.checked_mul(10).and_then(|y| y.checked_add(digit)) {
+            Some(y) => y,
+            None => panic!("Arithmetic overflow in str_to_int"),
+        };
     }
     x
 }
-- 
2.43.0


From 85b20ac7bfcfb4b26987b26d47c572193fe151ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 07/10] fix: text constructors and parse_smt_literal replace
 non-SMT characters

Unicode characters above 0x2FFFF ended up in SmtStrings.
---
 src/smt_strings.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index de830d9..e47c936 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -40,6 +40,15 @@ pub struct SmtString {
     s: Vec<u32>,
 }
 
+// Convert x to a valid SMT character
+fn smt_char(x: u32) -> u32 {
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
+    }
+}
+
 /// The empty string
 pub const EMPTY: SmtString = SmtString { s: vec![] };
 
@@ -109,6 +118,8 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x that's not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +129,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(|c| smt_char(c as u32)).collect())
     }
 }
 
@@ -180,9 +191,11 @@ impl From<u32> for SmtString {
 ///
 /// Construct a single-character string from character x.
 ///
+/// Convert x to 0xfffd if it's not in the range [0, 0x2ffff]
+///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::make(vec![smt_char(x as u32)])
     }
 }
 
@@ -222,7 +235,7 @@ fn new_automaton() -> ParsingAutomaton {
 impl ParsingAutomaton {
     // add char x to the string so far
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(smt_char(x as u32));
     }
 
     // add char x to the pending array
@@ -329,6 +342,8 @@ impl ParsingAutomaton {
 /// Parse a string literal in the SMT-LIB syntax and
 /// convert it to an SmtString.
 ///
+/// Any character of a that's not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
-- 
2.43.0


From c38a2e5ecf4eb370ebdfea2451370c0df8162768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 08/10] fix: start_char is exact for intersections and
 concatenations

The strings of an intersection that start with c must be the same in all
operands, and a concatenation with an empty language has no strings.
---
 src/regular_expressions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 4092a31..6b5f38a 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1870,12 +1870,13 @@ impl ReManager {
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
             BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
+                // a string that starts in e1 must be completed by a string of e2
+                self.start_char(e1, c) && !self.is_empty_re(e2)
+                    || e1.nullable && self.start_char(e2, c)
             }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
+            BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
                 // expensive case
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
-- 
2.43.0


From d3d22dd7d5759cb31fea4eaaec440f0df6726bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 09/10] fix: minimize no longer panics when a block without
 predecessors is split

Such a block (of unreachable states) has no list of splitters.
---
 src/minimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/minimizer.rs b/src/minimizer.rs
index 8c287cb..c090c21 100644
--- a/src/minimizer.rs
+++ b/src/minimizer.rs
@@ -219,7 +219,11 @@ impl SplitterSet {
     }
 
     fn take_list(&mut self, b: u32) -> SplitterList {
-        std::mem::take(&mut self.list[b as usize])
+        // no splitter was ever added for a block without predecessors
+        match self.list.get_mut(b as usize) {
+            Some(list) => std::mem::take(list),
+            None => SplitterList::default(),
+        }
     }
 
     fn add_splitter(&mut self, s: &Splitter) {
-- 
2.43.0


From 193f9c33b85a77daf20bc925b3fef478e975eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 10/10] fix: AutomatonBuilder::build checks the specification
 before simplifying it

A default successor chosen by the builder hid missing transitions, and
transitions to the default successor were removed before overlaps were
detected. Overlapping labels with the same successor are not a conflict.
---
 src/automata.rs | 52 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..0ce11e4 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -615,6 +615,48 @@ impl StateInConstruction {
         self.remove_transitions_to_default();
     }
 
+    // merge the transitions with overlapping labels that have the same successor
+    // - fails if two overlapping labels have different successors
+    fn merge_transitions(&self) -> Result<Vec<(CharSet, usize)>, Error> {
+        if self.make_partition().is_ok() {
+            // all labels are disjoint
+            return Ok(self.transitions.clone());
+        }
+        let mut result: Vec<(CharSet, usize)> = Vec::new();
+        for &(set, next_id) in &self.transitions {
+            let mut set = set;
+            let mut disjoint = Vec::with_capacity(result.len() + 1);
+            for t in result {
+                if t.0.inter(&set).is_none() {
+                    disjoint.push(t);
+                } else if t.1 == next_id {
+                    // the two labels overlap so their union is an interval
+                    set = set.union(&t.0).unwrap();
+                } else {
+                    return Err(Error::NonDisjointCharSets);
+                }
+            }
+            disjoint.push((set, next_id));
+            result = disjoint;
+        }
+        Ok(result)
+    }
+
+    // check that the transitions and default successor given by the caller are
+    // deterministic and complete, then return an equivalent state after cleanup
+    fn checked_cleanup(&self) -> Result<StateInConstruction, Error> {
+        let mut s = StateInConstruction {
+            is_final: self.is_final,
+            default_successor: self.default_successor,
+            transitions: self.merge_transitions()?,
+        };
+        if s.default_successor.is_none() && !s.make_partition()?.empty_complement() {
+            return Err(Error::MissingDefaultSuccessor);
+        }
+        s.cleanup();
+        Ok(s)
+    }
+
     fn make_partition(&self) -> Result<CharPartition, Error> {
         CharPartition::try_from_iter(self.transitions.iter().map(|x| x.0))
     }
@@ -706,7 +748,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct successors have non-disjoint labels
+    ///   (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
     ///   already cover the full alphabet.
     /// - fails if a state `s` doesn't have a default successor but its
@@ -716,15 +759,12 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
-            s.cleanup();
+        for (i, s) in self.states.iter().enumerate() {
+            let s = s.checked_cleanup()?;
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
                 return Err(Error::EmptyComplementaryClass);
             }
-            if s.default_successor.is_none() && !p.empty_complement() {
-                return Err(Error::MissingDefaultSuccessor);
-            }
             let successor = s.make_successor(&p);
             if s.is_final {
                 num_final_states += 1;
-- 
2.43.0

