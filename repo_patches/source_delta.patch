From 306b4a41cdeabc740705ecf1f7bcf858a36c5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:04 +0000
Subject: [PATCH 01/11] fix: report read errors of pattern files

PatternLoader dropped the result of read_to_string(), so a file that could
not be read to its end was parsed as if it were empty.
---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From 6432b414d97a1833242aad86cc2780fddb994bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:05 +0000
Subject: [PATCH 02/11] fix: keep the existing subtree when a pattern is
 inserted below an entry

Entry::insert() replaced the child of the entry on every insertion, so
patterns sharing their first token overwrote each other.
---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 src/matcher/trie/node/interface.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From 39e5ffe95a088f9cf5c3664386948670f09cd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:06 +0000
Subject: [PATCH 03/11] fix: match a pattern which ends in a parser continued
 by another pattern

A parser entry with both a pattern and a child consulted the child only.
---
 src/matcher/suffix_array/impls.rs | 4 +++-
 src/matcher/trie/node/parser.rs   | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..a7654b0 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -187,7 +187,9 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else if let Some(child) = self.child() {
                 child.parse(value).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..9954639 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -39,10 +39,10 @@ impl ParserNode {
             let text = text.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !text.is_empty() || self.pattern.is_none() => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
@@ -90,10 +90,10 @@ impl ParserEntry for ParserNode {
             let text = value.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !text.is_empty() || self.pattern.is_none() => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
-- 
2.43.0


From 759b9c7d713d6fc558245136fa392a4fedac1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:07 +0000
Subject: [PATCH 04/11] fix: compare the first characters of literals instead
 of their first bytes

Slicing off the first byte panics when it is a part of a multibyte character.
---
 src/matcher/trie/node/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..f41ab01 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -56,7 +56,7 @@ impl LiteralNode {
         } else if other.is_empty() {
             Ordering::Greater
         } else {
-            self.literal[0..1].cmp(&other[0..1])
+            self.literal.chars().next().cmp(&other.chars().next())
         }
     }
 
-- 
2.43.0


From cdb26f7e5bfe20d730e0ca2a1c84fec906f2f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 05/11] fix: try every matching branch of the trie

The lookup committed itself to the deepest literal: parsers were tried only
there, and the subtree below the empty literal left behind by a split was
never visited when the message went on. Fall back to the empty literal and to
the parsers of each node on the way back.
---
 src/matcher/trie/node/mod.rs | 53 ++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..a48a85d 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,20 +160,49 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
+        self.parse_with_literals(text).or_else(|| {
+            trace!("parse(): #parser_children = {}", self.parser_children.len());
+            self.parse_with_parsers(text)
+        })
+    }
+
+    // The child starting with the first character of the text is tried before the
+    // empty literal, which is left behind when a literal is split at its end.
+    fn parse_with_literals<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        self.parse_with_literal_like(text, text).or_else(|| {
+            if text.is_empty() {
+                None
+            } else {
+                self.parse_with_literal_like("", text)
             }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
+        })
+    }
+
+    fn parse_with_literal_like<'a, 'b>(&'a self,
+                                       literal: &str,
+                                       text: &'b str)
+                                       -> Option<MatchResult<'a, 'b>> {
+        let cmp_str = |probe: &LiteralNode| probe.cmp_str(literal);
+
+        self.literal_children.binary_search_by(&cmp_str).ok().and_then(|pos| {
+            let child = self.literal_children
+                            .get(pos)
+                            .expect("Failed to get a looked up child");
+            if text.starts_with(child.literal()) {
+                SuffixTree::parse_after_literal(child, text.ltrunc(child.literal().len()))
+            } else {
+                None
             }
+        })
+    }
+
+    fn parse_after_literal<'a, 'b>(child: &'a LiteralNode,
+                                   text: &'b str)
+                                   -> Option<MatchResult<'a, 'b>> {
+        if text.is_empty() && (child.pattern().is_some() || child.is_leaf()) {
+            SuffixTree::create_match_result_if_child_is_leaf(child)
+        } else {
+            child.node().and_then(|node| node.parse(text))
         }
     }
 
-- 
2.43.0


From 08d8d3019451ce041a6c4ae7f9352bc500108439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:09 +0000
Subject: [PATCH 06/11] fix: make the suffix array try every entry which is a
 prefix of the message

The entry with the longest common prefix was used as if its whole literal
matched, entries that are shorter prefixes were skipped and the parsers were
tried only when there were no literals at all.
---
 src/matcher/suffix_array/impls.rs | 51 +++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index a7654b0..7dafabf 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,43 @@ impl SuffixTable {
         }
     }
 
+    // Entries which are prefixes of the value, the longest one first: among the
+    // sorted entries a longer prefix comes after a shorter one.
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let mut end = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
+            Ok(pos) => pos + 1,
+            Err(pos) => pos
+        };
+        while end > 0 {
+            let entry = &self.literal_entries[end - 1];
+            let common_prefix_len = entry.literal().common_prefix_len(value);
+            if common_prefix_len == entry.literal().len() {
+                let result = SuffixTable::parse_after_literal(entry, value.ltrunc(common_prefix_len));
+                if result.is_some() {
+                    return result;
+                }
+                end -= 1;
+            } else {
+                // every other prefix of the value is a prefix of the common part as well
+                let common_prefix = value.rtrunc(value.len() - common_prefix_len);
+                let entries = &self.literal_entries[..end - 1];
+                end = match entries.binary_search_by(|probe| probe.literal()[..].cmp(common_prefix)) {
+                    Ok(pos) => pos + 1,
+                    Err(pos) => pos
+                };
+            }
+        }
+        None
+    }
+
+    fn parse_after_literal<'a, 'b>(entry: &'a LiteralE, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if value.is_empty() && entry.pattern().is_some() {
+            entry.pattern().map(MatchResult::new)
+        } else {
+            entry.child().and_then(|child| child.parse(value))
+        }
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -249,19 +286,7 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
-        }
+        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))
     }
     fn add_pattern(&mut self, pattern: Pattern) {
         self.insert(pattern);
-- 
2.43.0


From e57a8636e0bea75264651d6c86f14125b8f1a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:33 +0000
Subject: [PATCH 07/11] fix: make the SET parser work with characters instead
 of bytes

A set with a multibyte character matched any character sharing a byte with
it, and could cut a character of the message into two, which panics.
---
 src/parsers/set.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..b756b63 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,25 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
-        BTreeSet::from_iter(vset)
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        BTreeSet::from_iter(set.chars())
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
-        let mut match_len = 0;
+    // the length of the match in characters and in bytes
+    fn calculate_match_length(&self, value: &str) -> (usize, usize) {
+        let mut char_len = 0;
+        let mut byte_len = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
-                match_len += 1;
+                char_len += 1;
+                byte_len += c.len_utf8();
             } else {
                 break;
             }
         }
 
-        match_len
+        (char_len, byte_len)
     }
 }
 
@@ -76,10 +78,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let (char_len, byte_len) = self.calculate_match_length(value);
 
-        if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+        if self.is_match_length_ok(char_len) {
+            Some(ParseResult::new(self, &value[..byte_len]))
         } else {
             None
         }
-- 
2.43.0


From 1a9e96f8eddc277d8b2d8bd3630a1ab9ebacb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:13 +0000
Subject: [PATCH 08/11] fix: unescape the literal after a GREEDY parser

Every other literal of a pattern is unescaped; the one which ends a GREEDY
parser was searched for and matched in its escaped form.
---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..77f386e 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(|string| grammar::unescape_literal(string));
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..a9da940 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,14 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(|string|
+                                                                                                           grammar::unescape_literal(string));
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref().map(|string|
+                                                                                                                                  &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From fe80258dafbe86db35daf7749503132b79a5c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:14 +0000
Subject: [PATCH 09/11] fix: reject length parameters which do not fit instead
 of panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 77f386e..ba44431 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).map_err(|_| "integer") }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index a9da940..9c3dc8e 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1188,9 +1188,15 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match {
+                            usize::from_str(match_str).map_err(|_| "integer")
+                        } {
+                            Ok(res) => Matched(pos, res),
+                            Err(expected) => {
+                                state.mark_failure(pos, expected);
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From fc2e0d412fd5971c2116aceb6c8319ec15706653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:51 +0000
Subject: [PATCH 10/11] fix: do not panic on a carriage return in a YAML
 pattern file

---
 src/matcher/pattern_loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d57c2fb..d236f69 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -48,6 +48,8 @@ impl PatternLoader {
                     },
                     "yaml" | "yml" | "YAML" | "YML" => {
                         let content = try!(PatternLoader::read(pattern_file_path));
+                        // yaml-rust may panic on a carriage return, YAML treats every line break as '\n'
+                        let content = content.replace("\r\n", "\n").replace("\r", "\n");
                         let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                         Ok(file)
                     },
-- 
2.43.0


From 24de816f3d2e777633bd4645aef08b82e872f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:41 +0000
Subject: [PATCH 11/11] fix: reject a uuid with too few hyphens instead of
 panicking

---
 src/matcher/pattern/deser.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..2c68845 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -51,6 +51,35 @@ impl serde::Deserialize for Field {
     }
 }
 
+struct PatternId(Uuid);
+
+impl serde::Deserialize for PatternId {
+    fn deserialize<D>(deserializer: &mut D) -> Result<PatternId, D::Error>
+        where D: serde::de::Deserializer
+    {
+        struct PatternIdVisitor;
+
+        impl serde::de::Visitor for PatternIdVisitor {
+            type Value = PatternId;
+
+            fn visit_str<E>(&mut self, value: &str) -> Result<PatternId, E>
+                where E: serde::de::Error
+            {
+                // Uuid::parse_str() panics if there are not enough hyphens in the
+                // hyphenated form.
+                if value.contains('-') && value.matches('-').count() != 4 {
+                    return Err(serde::de::Error::custom("Invalid field 'uuid'"));
+                }
+                Uuid::parse_str(value)
+                    .map(PatternId)
+                    .map_err(|err| serde::de::Error::custom(err.to_string()))
+            }
+        }
+
+        deserializer.deserialize(PatternIdVisitor)
+    }
+}
+
 
 struct PatternVisitor;
 
@@ -70,7 +99,10 @@ impl serde::de::Visitor for PatternVisitor {
         while let Some(field) = try!(visitor.visit_key()) {
             match field {
                 Field::NAME => name = Some(try!(visitor.visit_value())),
-                Field::UUID => uuid = Some(try!(visitor.visit_value())),
+                Field::UUID => {
+                    let PatternId(id) = try!(visitor.visit_value());
+                    uuid = Some(id);
+                }
                 Field::PATTERN => pattern = Some(try!(visitor.visit_value())),
                 Field::VALUES => values = Some(try!(visitor.visit_value())),
                 Field::TAGS => tags = Some(try!(visitor.visit_value())),
-- 
2.43.0

