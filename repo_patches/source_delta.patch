From 46ad544a96ff70f8081ab91e0ad2957852ca68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:13 +0000
Subject: [PATCH 01/10] fix: adding a pattern below an existing entry no longer
 discards the patterns already there

---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 src/matcher/trie/node/interface.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From 9705717299a1c19559eec75e8469186b6c27dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:13 +0000
Subject: [PATCH 02/10] fix: comparing trie literals no longer slices
 multi-byte characters

---
 src/matcher/trie/node/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..f41ab01 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -56,7 +56,7 @@ impl LiteralNode {
         } else if other.is_empty() {
             Ordering::Greater
         } else {
-            self.literal[0..1].cmp(&other[0..1])
+            self.literal.chars().next().cmp(&other.chars().next())
         }
     }
 
-- 
2.43.0


From 1070cc27af2e8234f5e8d456d84b8f098f39ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 03/10] fix: SET parsers work on characters instead of bytes

---
 src/parsers/set.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..893d0d7 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,26 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        let vset: Vec<char> = set.chars().collect();
         BTreeSet::from_iter(vset)
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
+    // Returns the length of the match both in bytes and in characters
+    fn calculate_match_length(&self, value: &str) -> (usize, usize) {
         let mut match_len = 0;
+        let mut char_count = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
-                match_len += 1;
+                match_len += c.len_utf8();
+                char_count += 1;
             } else {
                 break;
             }
         }
 
-        match_len
+        (match_len, char_count)
     }
 }
 
@@ -76,9 +79,9 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let (match_len, char_count) = self.calculate_match_length(value);
 
-        if self.is_match_length_ok(match_len) {
+        if self.is_match_length_ok(char_count) {
             Some(ParseResult::new(self, &value[..match_len]))
         } else {
             None
-- 
2.43.0


From d98cedc1a898381ee4f9dc12b404f7076b662b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 04/10] fix: a pattern ending in a parser still matches when a
 longer pattern shares the parser

---
 src/matcher/suffix_array/impls.rs | 12 ++++--------
 src/matcher/trie/node/parser.rs   | 21 +++++++++++----------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..7d268b6 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -187,17 +187,13 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
-                child.parse(value).and_then(|mut result| {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else {
+                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
                 })
-            } else {
-                if value.is_empty() {
-                    self.create_match_result(kvpair)
-                } else {
-                    None
-                }
             }
         })
     }
diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..468eaf2 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -39,10 +39,10 @@ impl ParserNode {
             let text = text.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
@@ -54,12 +54,13 @@ impl ParserNode {
                                 text: &'b str,
                                 kvpair: ParseResult<'a, 'b>)
                                 -> Option<MatchResult<'a, 'b>> {
-        if text.is_empty() {
-            let mut result = MatchResult::new(self.pattern().unwrap());
-            result.insert(kvpair);
-            Some(result)
-        } else {
-            None
+        match self.pattern() {
+            Some(pattern) if text.is_empty() => {
+                let mut result = MatchResult::new(pattern);
+                result.insert(kvpair);
+                Some(result)
+            }
+            _ => None,
         }
     }
 }
@@ -90,10 +91,10 @@ impl ParserEntry for ParserNode {
             let text = value.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
-- 
2.43.0


From 4d530019c3573e14e8fc4b869a51c3f687bdc206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:12 +0000
Subject: [PATCH 05/10] fix: the trie backtracks from literals to parsers, so
 no inserted pattern is hidden by another one

---
 src/matcher/trie/node/literal.rs | 13 +++++++++++
 src/matcher/trie/node/mod.rs     | 38 ++++++++++++++------------------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index f41ab01..05c3403 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -3,6 +3,7 @@ use utils::common_prefix::CommonPrefix;
 
 use matcher::trie::node::SuffixTree;
 use matcher::Pattern;
+use matcher::result::MatchResult;
 
 use matcher::trie::node::interface::{Entry, LiteralEntry};
 
@@ -95,6 +96,18 @@ impl LiteralNode {
         self.node.is_none()
     }
 
+    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !text.starts_with(self.literal()) {
+            return None;
+        }
+        let text = text.ltrunc(self.literal().len());
+
+        match self.pattern() {
+            Some(pattern) if text.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.node().and_then(|node| node.parse(text)),
+        }
+    }
+
     fn compare_first_chars(&self, other: &LiteralNode) -> Ordering {
         self.cmp_str(other.literal())
     }
diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..56203e1 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,31 +160,27 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
-            }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
+        match self.parse_with_literals(text) {
+            Some(result) => Some(result),
+            None => {
+                trace!("parse(): #parser_children = {}", self.parser_children.len());
+                self.parse_with_parsers(text)
             }
         }
     }
 
-    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
-                                                    -> Option<MatchResult<'a, 'b>> {
-        if let Some(pattern) = child.pattern() {
-            let result = MatchResult::new(pattern);
-            Some(result)
-        } else {
-            info!("Early matching message: the message was too short to reach a leaf");
-            None
+    fn parse_with_literals<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let cmp_str = |probe: &LiteralNode| probe.cmp_str(text);
+        if let Ok(pos) = self.literal_children.binary_search_by(&cmp_str) {
+            let child = self.literal_children.get(pos).expect("Failed to get a looked up child");
+            if let Some(result) = child.parse(text) {
+                return Some(result);
+            }
+        }
+        // splitting a literal may leave an empty child behind, which matches any text
+        match self.literal_children.get(0) {
+            Some(child) if child.literal().is_empty() && !text.is_empty() => child.parse(text),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 1ec6ed95234dbe026f6c47747a8d8c68dafbc4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 06/10] fix: the suffix array only matches whole literals and
 falls back to parsers

---
 src/matcher/suffix_array/impls.rs | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 7d268b6..4bbec8d 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,22 @@ impl SuffixTable {
         }
     }
 
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        // the literals which are prefixes of the value are not greater than it, the longest of them
+        // is the last one
+        let mut pos = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
+            Ok(pos) => pos + 1,
+            Err(pos) => pos,
+        };
+        while pos > 0 {
+            pos -= 1;
+            if let Some(result) = self.literal_entries[pos].parse(value) {
+                return Some(result);
+            }
+        }
+        None
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -214,6 +230,18 @@ impl LiteralE {
             child: None
         }
     }
+
+    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !value.starts_with(&self.literal[..]) {
+            return None;
+        }
+        let value = value.ltrunc(self.literal.len());
+
+        match self.pattern() {
+            Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.child().and_then(|child| child.parse(value)),
+        }
+    }
 }
 
 impl Entry for LiteralE {
@@ -243,18 +271,9 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
+        match self.parse_with_literals(value) {
+            Some(result) => Some(result),
+            None => self.parse_with_parsers(value),
         }
     }
     fn add_pattern(&mut self, pattern: Pattern) {
-- 
2.43.0


From 4e897b1e9667dbb7614232bd0b0ec7f07d21ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:34 +0000
Subject: [PATCH 07/10] fix: a length limit which does not fit into usize no
 longer panics the pattern parser

---
 src/grammar/parser/pattern.rustpeg   | 2 +-
 src/grammar/parser/pattern_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..53db0fb 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ { usize::from_str(match_str).unwrap_or(usize::max_value()) }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..b093683 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1188,7 +1188,7 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                     {
                         let match_str = &input[start_pos..pos];
                         Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
+                            usize::from_str(match_str).unwrap_or(usize::max_value())
                         })
                     }
                 }
-- 
2.43.0


From a3cabfa991ef2de468b6af2b8ddd6a371b305d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:34 +0000
Subject: [PATCH 08/10] fix: the literal after a GREEDY parser is unescaped
 like any other literal

---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 53db0fb..14fef8c 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(grammar::unescape_literal);
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b093683..74ce4ad 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,13 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(grammar::unescape_literal);
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref().map(|string|
+                                                                                                                                  &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From 26994db75473ae8eba65e2b3b903cdfb1f8777df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:35 +0000
Subject: [PATCH 09/10] fix: report the errors of reading a pattern file

---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From c23a946700a772fda3f96a26ccda9a377ca2a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:36 +0000
Subject: [PATCH 10/10] fix: name the uuid field when it is the missing one

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0

