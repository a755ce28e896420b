From b0b29807dfe63b3e85265fd22dc8178dac02a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:40 +0000
Subject: [PATCH 001/103] fix: treat unterminated macros, inline styles, and
 final attribute lines as text instead of scanning forever

---
 src/scanner/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c756673..e0623c6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -264,7 +264,7 @@ impl<'a> Scanner<'a> {
             }
             ':' => {
                 if self.starts_new_line() && self.starts_attr() {
-                    while self.peek() != '\n' {
+                    while self.peek() != '\n' && !self.is_at_end() {
                         // TK line continuation
                         self.current += 1
                     }
@@ -507,6 +507,9 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_block_image(&mut self) -> Result<Token, ScannerError> {
+        if !self.closes_before("\n") {
+            return self.add_text_until_next_markup();
+        }
         while self.peek() != ']' {
             self.current += 1
         }
@@ -516,6 +519,9 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
+        if !self.closes_before("\n\n") {
+            return self.add_text_until_next_markup();
+        }
         while self.peek() != ']' {
             self.current += 1
         }
@@ -525,6 +531,9 @@ impl<'a> Scanner<'a> {
 
     /// Adds the include image, consuming the target as well as any attributes
     fn add_include(&mut self) -> Result<Token, ScannerError> {
+        if !self.closes_before("\n") {
+            return self.add_text_until_next_markup();
+        }
         while self.peek() != ']' {
             self.current += 1
         }
@@ -578,6 +587,9 @@ impl<'a> Scanner<'a> {
     }
 
     fn add_inline_style(&mut self) -> Result<Token, ScannerError> {
+        if !self.closes_before("\n") {
+            return self.add_text_until_next_markup();
+        }
         while self.peek() != ']' {
             self.current += 1
         }
@@ -667,6 +679,15 @@ impl<'a> Scanner<'a> {
             && self.peeks_ahead(delimiter_len) == expected_block
     }
 
+    /// Checks that a macro or style is closed (i.e., there is a ']') before a given boundary, e.g.,
+    /// the end of the line, or the end of the paragraph
+    fn closes_before(&self, boundary: &str) -> bool {
+        match self.source[self.current..].split(boundary).next() {
+            Some(rest) => rest.contains(']'),
+            None => false,
+        }
+    }
+
     /// Checks for document attribute lines, e.g., ":foo: bar" or ":foo:"
     fn starts_attr(&mut self) -> bool {
         let current_placeholder = self.current;
-- 
2.43.0


From 231d3d0e0aba5b974c0cccceb6025a67974cd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:43 +0000
Subject: [PATCH 002/103] fix: do not index past the end of the source when a
 document ends in an unfinished attribute or character reference

---
 src/scanner/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index e0623c6..b189c17 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -694,7 +694,7 @@ impl<'a> Scanner<'a> {
         while ![' ', '\n', ':'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ':';
+        let check = self.peek() == ':';
         self.current = current_placeholder;
         check
     }
@@ -713,7 +713,7 @@ impl<'a> Scanner<'a> {
         while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == '}';
+        let check = self.peek() == '}';
         self.current = current_placeholder;
         check
     }
@@ -724,7 +724,7 @@ impl<'a> Scanner<'a> {
         while self.peek().is_alphanumeric() && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ';';
+        let check = self.peek() == ';';
         self.current = current_placeholder;
         check
     }
-- 
2.43.0


From 5a93754d74354bfd6d46a843ba4222cb2af11849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 003/103] fix: only treat equals signs followed by a space as a
 heading

The scanner consumed whatever followed the markers as if it were the space,
dropping the first character of lines such as `==foo` and panicking at the
end of the document.
---
 src/scanner/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index b189c17..4d173fe 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -487,6 +487,10 @@ impl<'a> Scanner<'a> {
         while self.peek() == '=' {
             self.current += 1
         }
+        if self.peek() != ' ' {
+            // without a space it isn't a heading
+            return self.add_text_until_next_markup();
+        }
         self.current += 1; // add the space to the lexeme, but remove from count
         match self.source.as_bytes()[self.start..self.current - 1].len() {
             1 => self.add_token(TokenType::Heading1, false, 0),
-- 
2.43.0


From c7bf53887bd6cdf381d3c786d008e10017324feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:48 +0000
Subject: [PATCH 004/103] fix: treat cross references and block anchors that
 never close on their line as text

---
 src/scanner/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 4d173fe..36c7410 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -601,21 +601,27 @@ impl<'a> Scanner<'a> {
         self.add_token(TokenType::InlineStyle, true, 0)
     }
 
-    // adds block anchors, e.g., "\n[[some_block_id]]\n"
+    // adds cross references, e.g., "<<some_block_id>>"
     fn add_cross_reference(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(2) != ">>" && !self.is_at_end() {
-            self.current += 1
-        }
-        self.current += 2; // consume the '>>' chars
+        let Some(len) = self.length_on_line(">>") else {
+            // never closed, so it's not a reference
+            return self.add_text_until_next_markup();
+        };
+        self.current += len + 2; // consume the '>>' chars
         self.add_token(TokenType::CrossReference, true, 0)
     }
 
     // adds block anchors, e.g., "\n[[some_block_id]]\n"
     fn add_block_anchor(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(3) != "]]\n" && !self.is_at_end() {
-            self.current += 1
+        let Some(len) = self.length_on_line("]]") else {
+            // never closed, so it's not an anchor
+            return self.add_text_until_next_markup();
+        };
+        self.current += len + 2; // consume the ']]' chars, NOT newline
+        if !['\n', '\0'].contains(&self.peek()) {
+            // something follows on the line, so it's not an anchor
+            return self.add_text_until_next_markup();
         }
-        self.current += 2; // consume the ']]' chars, NOT newline
         self.add_token(TokenType::BlockAnchor, true, 0)
     }
 
@@ -692,6 +698,11 @@ impl<'a> Scanner<'a> {
         }
     }
 
+    /// Returns how far the given text is from the current position, if it is on the current line
+    fn length_on_line(&self, text: &str) -> Option<usize> {
+        self.source[self.current..].lines().next()?.find(text)
+    }
+
     /// Checks for document attribute lines, e.g., ":foo: bar" or ":foo:"
     fn starts_attr(&mut self) -> bool {
         let current_placeholder = self.current;
-- 
2.43.0


From 71ca451b13dd425d850a95413d89d02593b6f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:29 +0000
Subject: [PATCH 005/103] fix: end links at the end of the line, and accept
 non-ASCII text in links and table cells

---
 src/scanner/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 36c7410..f69823d 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -547,7 +547,7 @@ impl<'a> Scanner<'a> {
 
     /// Adds contents into a TableCell token, regardless of other formatting (simpler to re-scan later)
     fn add_table_cell(&mut self) -> Result<Token, ScannerError> {
-        while !['\n', '\0', '|'].contains(&self.peek()) {
+        while !['\n', '|'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
         // if the delimiter is |
@@ -561,29 +561,29 @@ impl<'a> Scanner<'a> {
     /// Adds the link, consuming the target but not any attributes
     fn add_link(&mut self) -> Result<Token, ScannerError> {
         let hyperlink_allowed_punctuation = ['.', '#', ':', '/', '?', '=', '&'];
-        while !['\0', ' '].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
+        while !self.is_at_end()
+            && ![' ', '\n'].contains(&self.peek())
+            && !self.peek().is_ascii_punctuation()
+        {
             self.current += 1
         }
         // it's an attribute-styled link
         if self.peek() == '[' {
             self.current += 1; // consume the '[' char
             self.add_token(TokenType::LinkMacro, true, 0)
-        } else if ['\0', ' '].contains(&self.peek()) {
+        } else if self.is_at_end() || [' ', '\n'].contains(&self.peek()) {
             self.add_token(TokenType::Hyperlink, true, 0)
         } else if hyperlink_allowed_punctuation.contains(&self.peek()) {
             // if it's at the end of a sentence
-            if let Some(second_char) = self.peeks_ahead(2).chars().last() {
-                if ['\0', ' '].contains(&second_char) {
+            match self.source[self.current..].chars().nth(1) {
+                None | Some(' ') | Some('\n') => {
                     self.add_token(TokenType::Hyperlink, true, 0)
-                } else {
+                }
+                Some(_) => {
                     // otherwise it contains an allowed url punctuation character
                     self.current += 1; // consume the allowed character
                     self.add_link()
                 }
-            } else {
-                // otherwise it contains an allowed url punctuation character
-                self.current += 1; // consume the allowed character
-                self.add_link()
             }
         } else {
             self.add_token(TokenType::Hyperlink, true, 0)
-- 
2.43.0


From b259f7691b0db25bfd4bfc14a895922ccb977893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:45 +0000
Subject: [PATCH 006/103] fix: close links, references and footnotes at their
 own end instead of swallowing later text or ending the section

---
 src/graph/inlines.rs | 20 +++++++++++++++++++-
 src/parser.rs        | 14 ++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ce7e3d7..c96bfcf 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -97,6 +97,15 @@ impl Inline {
         }
     }
 
+    /// Used to find the macro that an "]" would close
+    pub fn is_open_macro(&self) -> bool {
+        match self {
+            Inline::InlineRef(iref) => iref.open,
+            Inline::InlineSpan(span) => span.open && self.is_macro(),
+            _ => false,
+        }
+    }
+
     pub fn is_passthrough(&self) -> bool {
         match self {
             Inline::InlineRef(iref) => iref.variant == InlineRefVariant::Link,
@@ -240,6 +249,7 @@ impl Inline {
     pub fn close(&mut self) {
         match self {
             Inline::InlineSpan(span) => span.open = false,
+            Inline::InlineRef(iref) => iref.open = false,
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
     }
@@ -520,6 +530,9 @@ pub struct InlineRef {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
     location: Vec<Location>,
+    /// Whether subsequent text belongs to the reference, i.e., a link macro before its "]"
+    #[serde(skip)]
+    pub open: bool,
 }
 
 impl InlineRef {
@@ -532,6 +545,7 @@ impl InlineRef {
             inlines: vec![],
             metadata: None,
             location,
+            open: false,
         }
     }
 
@@ -555,6 +569,7 @@ impl InlineRef {
             inlines: vec![numbering],
             metadata,
             location,
+            open: false,
         }
     }
 
@@ -566,7 +581,9 @@ impl InlineRef {
     pub fn new_link_from_macro_token(token: Token) -> Self {
         let mut target = token.text();
         target.pop(); // remove trailing '['
-        InlineRef::new(InlineRefVariant::Link, target, token.locations())
+        let mut link = InlineRef::new(InlineRefVariant::Link, target, token.locations());
+        link.open = true;
+        link
     }
 
     pub fn new_link_from_token(token: Token) -> Self {
@@ -588,6 +605,7 @@ impl InlineRef {
                 inlines: vec![],
                 metadata,
                 location,
+                open: false,
             }
         } else {
             InlineRef::new(InlineRefVariant::Image, target, location)
diff --git a/src/parser.rs b/src/parser.rs
index b4b4a51..e78a872 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -903,7 +903,6 @@ impl Parser {
                 metadata,
                 token.locations(),
             )));
-        self.close_parent_after_push = true;
         Ok(())
     }
 
@@ -927,7 +926,7 @@ impl Parser {
         } else if let Some(inline_macro_idx) = self
             .inline_stack
             .iter()
-            .rposition(|inline| inline.is_macro())
+            .rposition(|inline| inline.is_open_macro())
         {
             // consolidate into the inline macro
             let mut inline_macro = self.inline_stack.remove(inline_macro_idx).unwrap();
@@ -937,10 +936,10 @@ impl Parser {
             }
             // update the locations
             inline_macro.consolidate_locations_from_token(token);
+            // note that we're now closed
+            inline_macro.close();
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
-            // note that we're now closed
-            self.close_parent_after_push = true;
             // and that the inline span is ended
             self.in_inline_span = false;
         } else {
@@ -973,7 +972,6 @@ impl Parser {
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
-        self.close_parent_after_push = true;
         Ok(())
     }
 
@@ -1067,7 +1065,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.inlines.push(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1232,7 +1230,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.add_text_from_token(token)
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1267,7 +1265,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.pass_text_from_token(token)
                     } else {
                         self.inline_stack.push_back(inline_literal)
-- 
2.43.0


From 7e6111f62b3720af14a7555fb008763066671294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:36 +0000
Subject: [PATCH 007/103] fix: keep unclosed inline markup as written, and
 close spans that contain references or further nested spans

---
 src/graph/inlines.rs | 153 ++++++++++++++++++++++++-------------------
 src/parser.rs        | 127 ++++++++++++-----------------------
 2 files changed, 129 insertions(+), 151 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index c96bfcf..74447a6 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -1,8 +1,5 @@
 use core::panic;
-use std::{
-    collections::{HashMap, VecDeque},
-    fmt::Display,
-};
+use std::{collections::HashMap, fmt::Display};
 
 use log::warn;
 use serde::Serialize;
@@ -163,35 +160,75 @@ impl Inline {
         }
     }
 
-    pub fn extract_child_inlines(&mut self) -> VecDeque<Inline> {
-        match &self {
-            Inline::InlineSpan(span) => span.extract_span_inlines(),
-            _ => todo!(),
+    /// Checks for an open span, here or nested at the end of this one, that the given span would
+    /// close
+    pub fn has_open_span(&self, other: &Inline) -> bool {
+        match (self, other) {
+            (Inline::InlineSpan(span), Inline::InlineSpan(other_span)) if span.open => {
+                span.delimiter == other_span.delimiter
+                    || span
+                        .inlines
+                        .last()
+                        .is_some_and(|inline| inline.has_open_span(other))
+            }
+            _ => false,
         }
     }
 
-    pub fn produce_literal_from_self(&mut self) -> String {
-        match &self {
-            Inline::InlineSpan(span) => {
-                let mut literal = match span.variant {
-                    InlineSpanVariant::Strong => "*".to_string(),
-                    InlineSpanVariant::Emphasis => "_".to_string(),
-                    InlineSpanVariant::Mark => "#".to_string(),
-                    InlineSpanVariant::Code => "`".to_string(),
-                    InlineSpanVariant::Superscript => "^".to_string(),
-                    InlineSpanVariant::Subscript => "~".to_string(),
-                    InlineSpanVariant::Footnote => todo!(), // not applicable
-                };
-                if span.node_form == InlineSpanForm::Unconstrained {
-                    literal = literal
-                        .chars()
-                        .flat_map(|c| std::iter::repeat_n(c, 2))
-                        .collect::<String>();
+    /// Closes the innermost open span that matches the given one
+    pub fn close_open_span(&mut self, other: &Inline) {
+        self.reconcile_locations(other.locations());
+        if let Inline::InlineSpan(span) = self {
+            if let Some(last_inline) = span.inlines.last_mut() {
+                if last_inline.has_open_span(other) {
+                    last_inline.close_open_span(other);
+                    return;
+                }
+            }
+            self.close();
+        }
+    }
+
+    /// Takes apart any spans that were never closed, returning the opening characters to the text
+    pub fn resolve_dangling_spans(inlines: Vec<Inline>) -> Vec<Inline> {
+        let mut resolved: Vec<Inline> = vec![];
+        let mut after_dangling = false;
+        for inline in inlines {
+            match inline {
+                Inline::InlineSpan(span) if span.open => {
+                    let mut end = span.location[0].clone();
+                    end.col += span.delimiter.len() - 1;
+                    let delimiter = Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        span.delimiter,
+                        vec![span.location[0].clone(), end],
+                    ));
+                    Inline::push_combining_text(&mut resolved, delimiter);
+                    for child in Inline::resolve_dangling_spans(span.inlines) {
+                        Inline::push_combining_text(&mut resolved, child);
+                    }
+                    after_dangling = true;
                 }
-                literal
+                _ if after_dangling => {
+                    Inline::push_combining_text(&mut resolved, inline);
+                    after_dangling = false;
+                }
+                _ => resolved.push(inline),
             }
-            _ => todo!(),
         }
+        resolved
+    }
+
+    fn push_combining_text(inlines: &mut Vec<Inline>, inline: Inline) {
+        if let (Some(Inline::InlineLiteral(last_literal)), Inline::InlineLiteral(literal)) =
+            (inlines.last_mut(), &inline)
+        {
+            if last_literal.is_text() && literal.is_text() {
+                last_literal.combine_literals(literal.clone());
+                return;
+            }
+        }
+        inlines.push(inline);
     }
 
     pub fn prepend_literal(&mut self, preceding_literal: InlineLiteral) {
@@ -248,8 +285,14 @@ impl Inline {
 
     pub fn close(&mut self) {
         match self {
-            Inline::InlineSpan(span) => span.open = false,
-            Inline::InlineRef(iref) => iref.open = false,
+            Inline::InlineSpan(span) => {
+                span.open = false;
+                span.inlines = Inline::resolve_dangling_spans(std::mem::take(&mut span.inlines));
+            }
+            Inline::InlineRef(iref) => {
+                iref.open = false;
+                iref.inlines = Inline::resolve_dangling_spans(std::mem::take(&mut iref.inlines));
+            }
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
     }
@@ -281,6 +324,9 @@ pub struct InlineSpan {
     location: Vec<Location>,
     #[serde(skip)]
     pub open: bool,
+    /// The characters that opened the span
+    #[serde(skip)]
+    delimiter: String,
 }
 
 impl InlineSpan {
@@ -298,11 +344,13 @@ impl InlineSpan {
             metadata: None,
             location,
             open: true,
+            delimiter: String::new(),
         }
     }
 
     pub fn inline_span_from_token(token: Token) -> Self {
-        match token.token_type() {
+        let delimiter = token.lexeme.clone();
+        let mut span = match token.token_type() {
             TokenType::Strong => Self::new(
                 InlineSpanVariant::Strong,
                 InlineSpanForm::Constrained,
@@ -377,6 +425,7 @@ impl InlineSpan {
                     token.locations(),
                 );
                 code_span.metadata = Some(metadata);
+                code_span.open = false;
                 code_span
                     .inlines
                     .push(Inline::InlineLiteral(InlineLiteral::new(
@@ -389,7 +438,9 @@ impl InlineSpan {
             _ => {
                 panic!("Invalid action: tried to create an inline span from an invalid token type")
             }
-        }
+        };
+        span.delimiter = delimiter;
+        span
     }
 
     pub fn add_inline(&mut self, inline: Inline) {
@@ -424,34 +475,6 @@ impl InlineSpan {
         footnote
     }
 
-    // extracts the inlines inside the span, closing any open (dangling) spans that may be
-    // inside of it
-    fn extract_span_inlines(&self) -> VecDeque<Inline> {
-        let mut children = VecDeque::new();
-        for inline in self.inlines.iter() {
-            // handle any open spans
-            if inline.is_open() {
-                let mut working_inline = inline.clone();
-                let open_span_literal = working_inline.produce_literal_from_self();
-                let mut inline_children = working_inline.extract_child_inlines();
-                if let Some(inline) = inline_children.front_mut() {
-                    match inline {
-                        Inline::InlineLiteral(literal) => {
-                            literal.prepend_to_value(open_span_literal, literal.location.clone());
-                        }
-                        _ => todo!(),
-                    }
-                } else {
-                    todo!()
-                }
-                children.extend(inline_children);
-            } else {
-                children.push_back(inline.clone());
-            }
-        }
-        children
-    }
-
     /// Deconstructs a footnote span into the relevant footnote definition ID (to be applied to
     /// the leafblock that contains the footnote text), an InlineSpan `Sup<InlineRef>` that replaces the footnote
     /// with a link to said leafblock, and the vector of inlines that will be inserted into
@@ -629,11 +652,11 @@ impl InlineRef {
         if let Some(last_inline) = self.inlines.last_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => span.add_inline(inline_literal),
-                Inline::InlineLiteral(prior_literal) => match pass {
+                Inline::InlineLiteral(prior_literal) if prior_literal.is_text() => match pass {
                     true => prior_literal.pass_text_from_token(&token),
                     false => prior_literal.add_text_from_token(&token),
                 },
-                _ => panic!("Can't add text to last token in this context"),
+                _ => self.inlines.push(inline_literal),
             }
         } else {
             self.inlines.push(inline_literal)
@@ -718,11 +741,9 @@ impl InlineLiteral {
         self.location = Location::reconcile(self.location.clone(), inline.location.clone());
     }
 
-    pub fn prepend_to_value(&mut self, value: String, value_locations: Vec<Location>) {
-        // add the value
-        self.value.insert_str(0, &value);
-        // update the locations
-        self.location = Location::reconcile(self.location.clone(), value_locations);
+    /// Character references stand alone; other literals are text that can be combined
+    fn is_text(&self) -> bool {
+        !matches!(self.name, InlineLiteralName::Charref)
     }
 
     pub fn value(&self) -> String {
diff --git a/src/parser.rs b/src/parser.rs
index e78a872..0dff3ff 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -447,6 +447,9 @@ impl Parser {
         self.in_block_line = false;
 
         // if there is a block title, add the inline stack to the title
+        if self.block_title.is_some() {
+            self.handle_dangling_spans();
+        }
         if let Some(ref mut title_stack) = self.block_title {
             while !self.inline_stack.is_empty() {
                 let inline = self.inline_stack.pop_front().unwrap();
@@ -658,6 +661,7 @@ impl Parser {
             // then add the next terms back
             self.inline_stack.append(&mut next_terms);
         }
+        self.handle_dangling_spans();
         // collect the inlines
         while !self.inline_stack.is_empty() {
             let inline = self.inline_stack.pop_front().unwrap();
@@ -826,41 +830,50 @@ impl Parser {
 
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
-        if let Some(last_inline) = self.inline_stack.back_mut() {
-            if inline == *last_inline {
-                last_inline.reconcile_locations(inline.locations());
-                last_inline.close();
-                self.in_inline_span = false;
-                return Ok(());
-            } else if let Inline::InlineSpan(last_span) = last_inline {
-                if let Some(last_internal_inline) = last_span.inlines.last_mut() {
-                    if inline == *last_internal_inline {
-                        last_internal_inline.reconcile_locations(inline.locations());
-                        last_internal_inline.close();
-                    } else {
-                        last_span.add_inline(inline);
-                    }
-                } else {
-                    last_span.add_inline(inline);
-                }
-                return Ok(());
-            }
-        }
         // handle newline tokens prior to constrained spans
         if let Some(newline_token) = self.dangling_newline.clone() {
             self.add_text_to_last_inline(newline_token);
             self.dangling_newline = None;
         }
-        // check for any other dangling spans (otherwise they disappear!)
-        self.handle_dangling_spans();
+        // if there is a span to close, gather anything that came after it (e.g., references); note
+        // that spans can't reach outside of an open macro
+        let open_macro_idx = self
+            .inline_stack
+            .iter()
+            .rposition(|inline| inline.is_open_macro())
+            .unwrap_or(0);
+        if let Some(open_span_idx) = self
+            .inline_stack
+            .iter()
+            .rposition(|open_span| open_span.has_open_span(&inline))
+            .filter(|idx| *idx >= open_macro_idx)
+        {
+            let contents: Vec<Inline> = self.inline_stack.drain(open_span_idx + 1..).collect();
+            if let Some(Inline::InlineSpan(open_span)) = self.inline_stack.back_mut() {
+                for content in contents {
+                    open_span.add_inline(content);
+                }
+            }
+            if let Some(open_span) = self.inline_stack.back_mut() {
+                open_span.close_open_span(&inline);
+                self.in_inline_span = open_span.is_open();
+            }
+            return Ok(());
+        }
         // add any metadata to new inline
         if self.metadata.is_some() {
             inline.add_metadata(self.metadata.as_ref().unwrap().clone());
             self.metadata = None;
         }
-        self.inline_stack.push_back(inline);
-
         self.in_inline_span = true;
+        // nest it inside of the last span, if there's one open
+        if let Some(Inline::InlineSpan(last_span)) = self.inline_stack.back_mut() {
+            if last_span.open {
+                last_span.add_inline(inline);
+                return Ok(());
+            }
+        }
+        self.inline_stack.push_back(inline);
         Ok(())
     }
 
@@ -1282,65 +1295,11 @@ impl Parser {
     }
 
     fn handle_dangling_spans(&mut self) {
-        // look for the last span in the stack
-        if let Some(open_span_idx) = self
-            .inline_stack
-            .iter()
-            .rposition(|inline| inline.is_open())
-        {
-            let mut open_span = self.inline_stack.remove(open_span_idx).unwrap();
-            let open_span_literal = open_span.produce_literal_from_self();
-            // put the literal char into the stack as a literal...
-            let mut children = open_span.extract_child_inlines();
-            // ... by adding it to the next inline
-            if let Some(inline) = children.front_mut() {
-                match inline {
-                    Inline::InlineLiteral(literal) => {
-                        literal.prepend_to_value(open_span_literal, open_span.locations());
-                    }
-                    _ => todo!(),
-                }
-                // put any appended inlines into the stack at the relevant position
-                while children.len() > 0 {
-                    if let Some(child) = children.pop_back() {
-                        self.inline_stack.insert(open_span_idx, child);
-                    }
-                }
-
-                // consolidate any resultant or remaining adjacent literals (this should be extracted to a function)
-                let mut temp_stack: Vec<Inline> = vec![];
-                while let Some(mut inline) = self.inline_stack.pop_front() {
-                    if temp_stack.len() == 0 {
-                        temp_stack.push(inline);
-                    } else if inline.is_literal() {
-                        if let Some(Inline::InlineLiteral(last_in_stack)) = temp_stack.last_mut() {
-                            last_in_stack.combine_literals(inline.extract_literal());
-                        } else {
-                            temp_stack.push(inline);
-                        }
-                    } else {
-                        temp_stack.push(inline);
-                    }
-                }
-                self.inline_stack = temp_stack.into();
-            } else {
-                // ... or if there are no children, add the token to the back of the last one; this
-                // is a little hacky, but it is cleaner compared to the rest of the code just to
-                // create a token and reuse the existing function
-                let (line, startcol, endcol) =
-                    Location::destructure_inline_locations(open_span.locations());
-                let reconstituted_token = Token {
-                    token_type: TokenType::Text,
-                    lexeme: open_span_literal.clone(),
-                    literal: Some(open_span_literal),
-                    line,
-                    startcol,
-                    endcol,
-                    file_stack: self.file_stack.clone(),
-                };
-                self.add_text_to_last_inline(reconstituted_token)
-            }
+        if self.inline_stack.iter().any(|inline| inline.is_open()) {
+            let inlines: Vec<Inline> = self.inline_stack.drain(..).collect();
+            self.inline_stack = Inline::resolve_dangling_spans(inlines).into();
         }
+        self.in_inline_span = false;
     }
 
     fn add_inlines_to_block_stack(&mut self) -> Result<(), ParserError> {
@@ -1350,9 +1309,7 @@ impl Parser {
         }
 
         // dangling inlines
-        if self.in_inline_span {
-            self.handle_dangling_spans();
-        }
+        self.handle_dangling_spans();
 
         if let Some(header) = &mut self.document_header {
             while !self.inline_stack.is_empty() {
-- 
2.43.0


From 3fcdebcbbdef34a3c60667bec43c90906562daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:17 +0000
Subject: [PATCH 008/103] fix: only treat complete tag directives as tags, and
 tell end tags from start tags by their directive

---
 src/scanner/mod.rs | 50 ++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f69823d..e85c150 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -643,29 +643,23 @@ impl<'a> Scanner<'a> {
 
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
-        if self.expecting_tag_end {
-            while self.peek() != 'e' {
-                self.current += 1;
-            }
-            self.start = self.current;
-            self.startcol = self.start;
-        }
-        while ![']'].contains(&self.peek()) && !self.is_at_end() {
-            self.current += 1;
-        }
-        self.current += 1; // consume the ']' char
-
-        if (self.source[self.start..self.current]).contains("tag") {
+        if self.directive_on_line("tag::") == Some(0) {
             tag_type = TokenType::StartTag;
             self.expecting_tag_end = true;
-        } else if (self.source[self.start..self.current]).contains("end") {
+        } else if let Some(offset) = self.directive_on_line("end::") {
+            // skip the comment characters ahead of the end tag
+            self.start += offset;
+            self.startcol += offset;
             tag_type = TokenType::EndTag;
             self.expecting_tag_end = false;
         } else {
-            return Err(ScannerError::TagError(
-                self.source[self.start..self.current].to_string(),
-            ));
+            return self.add_text_until_next_markup();
         }
+        self.current = self.start;
+        while self.peek() != ']' {
+            self.current += 1;
+        }
+        self.current += 1; // consume the ']' char
         let result = self.add_token(tag_type, true, 1);
         // move to the end of the line
         while self.peek() != '\n' && !self.is_at_end() {
@@ -698,6 +692,18 @@ impl<'a> Scanner<'a> {
         }
     }
 
+    /// Returns how far along the rest of the line (beginning with the current lexeme) there is a tag
+    /// directive, e.g., "tag::foo[]", if any
+    fn directive_on_line(&self, directive: &str) -> Option<usize> {
+        let line = self.source[self.start..].lines().next()?;
+        let offset = line.find(directive)?;
+        let (name, _) = line[offset + directive.len()..].split_once("[]")?;
+        if name.is_empty() || name.contains(['[', ']', ' ']) {
+            return None;
+        }
+        Some(offset)
+    }
+
     /// Returns how far the given text is from the current position, if it is on the current line
     fn length_on_line(&self, text: &str) -> Option<usize> {
         self.source[self.current..].lines().next()?.find(text)
@@ -715,7 +721,7 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_end_tag_line(&mut self) -> bool {
-        self.expecting_tag_end && self.peek_line().contains("end::")
+        self.expecting_tag_end && self.directive_on_line("end::").is_some()
     }
 
     /// Checks for document attribute references, e.g., {my-thing}
@@ -863,14 +869,6 @@ impl<'a> Scanner<'a> {
         }
         &self.source[self.current..self.current + count]
     }
-
-    fn peek_line(&self) -> &str {
-        let mut count = 1;
-        while !['\n', '\0'].contains(&self.peeks_ahead(count).chars().last().unwrap()) {
-            count += 1
-        }
-        self.peeks_ahead(count - 1)
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6690313ba0e09ca7720f30298ced00936c889547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:55 +0000
Subject: [PATCH 009/103] fix: accept malformed attribute lists and macros
 without an attribute list instead of panicking

---
 src/graph/metadata.rs | 21 ++++++++-------------
 src/scanner/mod.rs    | 14 +++++++++++---
 src/utils.rs          |  9 +++++++--
 3 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 7838a82..0a8fcc6 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -6,7 +6,7 @@ use serde::Serialize;
 
 use crate::graph::nodes::Location;
 use crate::scanner::tokens::{Token, TokenType};
-use crate::utils::{extract_attributes, key_values_from_named_attribute};
+use crate::utils::{extract_attributes, key_values_from_named_attribute, unquoted};
 
 // just make this quoted, and then pull everything else out
 pub static RE_NAMED_QUOTED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(\w*=".*?")"#).unwrap());
@@ -184,8 +184,8 @@ impl ElementMetadata {
                 }
                 Err(_) => {
                     if idx == 0 && attribute.len() >= 2 {
-                        match &attribute[..2] {
-                            "so" | "qu" | "ve" => {
+                        match attribute.get(..2) {
+                            Some("so" | "qu" | "ve") => {
                                 self.declared_type = AttributeType::from_str(attribute);
                                 continue;
                             }
@@ -214,17 +214,11 @@ impl ElementMetadata {
                 } else if idx == 2 {
                     self.attributes
                         .insert(String::from("citation"), String::from(attribute.trim()));
-                } else {
-                    todo!(); // or panic?
                 }
             }
-            Some(AttributeType::Lines) => {
-                // need to figure out how to
-                todo!()
-            }
             _ => {
-                if attribute.starts_with('"') {
-                    *attribute = attribute[1..attribute.len() - 1].to_string()
+                if let Some(value) = unquoted(attribute) {
+                    *attribute = value.to_string()
                 }
                 self.attributes
                     .insert(format!("positional_{}", idx + 1), attribute.to_string());
@@ -240,9 +234,10 @@ impl ElementMetadata {
                     "cols".to_string(),
                     format!("{}", cols_value.split(',').collect::<Vec<&str>>().len()),
                 );
-            } else if cols_value.len() == 2 && cols_value[1..] == *"*" {
+            } else if let Some(count) = cols_value.strip_suffix('*') {
+                // cols="3*"
                 self.attributes
-                    .insert("cols".to_string(), cols_value[..1].to_string());
+                    .insert("cols".to_string(), count.to_string());
             }
         }
     }
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index e85c150..85ea694 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -511,7 +511,7 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_block_image(&mut self) -> Result<Token, ScannerError> {
-        if !self.closes_before("\n") {
+        if !self.macro_closes_before("\n") {
             return self.add_text_until_next_markup();
         }
         while self.peek() != ']' {
@@ -523,7 +523,7 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
-        if !self.closes_before("\n\n") {
+        if !self.macro_closes_before("\n\n") {
             return self.add_text_until_next_markup();
         }
         while self.peek() != ']' {
@@ -535,7 +535,7 @@ impl<'a> Scanner<'a> {
 
     /// Adds the include image, consuming the target as well as any attributes
     fn add_include(&mut self) -> Result<Token, ScannerError> {
-        if !self.closes_before("\n") {
+        if !self.macro_closes_before("\n") {
             return self.add_text_until_next_markup();
         }
         while self.peek() != ']' {
@@ -692,6 +692,14 @@ impl<'a> Scanner<'a> {
         }
     }
 
+    /// Checks that a macro has its attribute list (i.e., "[...]") before a given boundary
+    fn macro_closes_before(&self, boundary: &str) -> bool {
+        match self.source[self.current..].split(boundary).next() {
+            Some(rest) => rest.split_once(']').is_some_and(|(macro_str, _)| macro_str.contains('[')),
+            None => false,
+        }
+    }
+
     /// Returns how far along the rest of the line (beginning with the current lexeme) there is a tag
     /// directive, e.g., "tag::foo[]", if any
     fn directive_on_line(&self, directive: &str) -> Option<usize> {
diff --git a/src/utils.rs b/src/utils.rs
index 58b08f0..3208bec 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -16,8 +16,8 @@ pub fn key_values_from_named_attribute(
         Some(captures) => {
             let (_, [named, mut values_str]) = captures.extract();
             // remove quotes values
-            if values_str.starts_with('"') {
-                values_str = &values_str[1..values_str.len() - 1]
+            if let Some(value) = unquoted(values_str) {
+                values_str = value
             }
             Ok((
                 named.to_string(),
@@ -31,6 +31,11 @@ pub fn key_values_from_named_attribute(
     }
 }
 
+/// Returns the inside of a quoted value, or None if it isn't surrounded by quotes
+pub fn unquoted(value: &str) -> Option<&str> {
+    value.strip_prefix('"')?.strip_suffix('"')
+}
+
 /// Given a foo:target.foo[attributes] token, return the target and metadata
 pub fn target_and_attrs_from_token(token: &Token) -> (String, Option<ElementMetadata>) {
     let target_and_attrs = match token.token_type() {
-- 
2.43.0


From 808273a394a047413a299ca41e98c25940afee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:11 +0000
Subject: [PATCH 010/103] fix: keep the roles of combined element metadata

---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 0a8fcc6..e85fe40 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -167,7 +167,7 @@ impl ElementMetadata {
         }
         // combine options and roles
         self.options.extend(incoming.options.clone());
-        self.roles.extend(incoming.options.clone());
+        self.roles.extend(incoming.roles.clone());
     }
 
     pub fn process_attributes(&mut self, mut attributes: Vec<String>) {
-- 
2.43.0


From e025a01ff796e8809aa5145b2cd323bccc217016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:38 +0000
Subject: [PATCH 011/103] fix: keep the position of attributes that come before
 or after a quoted one

---
 src/utils.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3208bec..adac8b7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -12,7 +12,7 @@ pub static RE_LINE_RANGES: Lazy<Regex> = Lazy::new(|| Regex::new(r#"([^,;]*)"#).
 pub fn key_values_from_named_attribute(
     attribute: &str,
 ) -> Result<(String, Vec<&str>), ParserError> {
-    match RE_NAMED.captures(attribute) {
+    match RE_NAMED.captures(attribute.trim()) {
         Some(captures) => {
             let (_, [named, mut values_str]) = captures.extract();
             // remove quotes values
@@ -105,13 +105,18 @@ pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
 
 pub fn extract_attributes(attribute_list: &str) -> Vec<String> {
     let mut attributes: Vec<String> = vec![];
-    let mut non_quoted_key_values = attribute_list.to_owned();
+    let mut start = 0;
     // TK "1,2,4" should be a single attribute, not "1,", 2, 4"
-    for quoted_attr in RE_NAMED_QUOTED.captures_iter(attribute_list) {
-        let (total, [_]) = quoted_attr.extract();
-        attributes.push(total.to_owned());
-        non_quoted_key_values = non_quoted_key_values.replace(total, "");
+    for (comma, _) in attribute_list.match_indices(',') {
+        if RE_NAMED_QUOTED
+            .find_iter(attribute_list)
+            .any(|quoted_attr| quoted_attr.range().contains(&comma))
+        {
+            continue;
+        }
+        attributes.push(attribute_list[start..comma].to_string());
+        start = comma + 1;
     }
-    attributes.extend(non_quoted_key_values.split(',').map(|s| s.to_string()));
+    attributes.push(attribute_list[start..].to_string());
     attributes
 }
-- 
2.43.0


From f1d52b679451256b44dc190f526119c108fe60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:57 +0000
Subject: [PATCH 012/103] fix: lay out tables without a usable cols attribute
 by their first row instead of exiting, and break rows of one-column tables

---
 src/backends/htmls.rs               |  4 +-
 src/graph/blocks.rs                 | 74 ++++++++++++-----------------
 templates/htmlbook/tables.html.tera | 13 +++--
 3 files changed, 39 insertions(+), 52 deletions(-)

diff --git a/src/backends/htmls.rs b/src/backends/htmls.rs
index 81ec4e8..1007207 100644
--- a/src/backends/htmls.rs
+++ b/src/backends/htmls.rs
@@ -22,9 +22,7 @@ fn render_from_templates(
     // from their docs
     let mut tera = Tera::default();
     tera.add_raw_templates(templates).expect("failure");
-    Ok(tera
-        .render("htmlbook.html.tera", &Context::from_serialize(graph)?)
-        .expect("failure"))
+    Ok(tera.render("htmlbook.html.tera", &Context::from_serialize(graph)?)?)
 }
 
 fn gather_htmlbook_templates() -> Vec<(&'static str, &'static str)> {
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a433ad8..9da2c04 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1,4 +1,4 @@
-use log::{error, warn};
+use log::warn;
 use std::{collections::HashMap, fmt::Display};
 
 use serde::Serialize;
@@ -213,51 +213,37 @@ impl Block {
         let Block::ParentBlock(table) = self else {
             return Err(BlockError::IncorrectCall);
         };
-        // check if there is an implicit header
-        if table.blocks.len() >= 2 {
-            // if the cells in the first row are on the same line, either serves as cols
-            // designation
-            let first_cell_line = table.blocks[0].line()?;
-            if first_cell_line == table.blocks[1].line()? {
-                // check for an implicit header
-                if first_cell_line == table.location[0].line + 1 {
-                    if let Some(ref mut metadata) = table.metadata {
-                        metadata.options.push("header".to_string());
-                    } else {
-                        let mut metadata = ElementMetadata::default();
-                        metadata.options.push("header".to_string());
-                        table.metadata = Some(metadata)
-                    }
-                }
-                // count for implicit column designation
-                let cols = table
-                    .blocks
-                    .iter()
-                    .fold(0usize, |acc, block| match block.line() {
-                        Ok(line) => acc + (line == first_cell_line) as usize,
-                        Err(_) => acc, // shouldn't ever happen
-                    });
-                if let Some(ref mut metadata) = table.metadata {
-                    if !metadata.attributes.contains_key("cols") {
-                        metadata
-                            .attributes
-                            .insert("cols".to_string(), format!("{cols}"));
-                    }
-                } else {
-                    let mut metadata = ElementMetadata::default();
-                    metadata
-                        .attributes
-                        .insert("cols".to_string(), format!("{cols}"));
-                    table.metadata = Some(metadata)
-                }
+        let mut metadata = table.metadata.take().unwrap_or_default();
+        // the cells in the first row, i.e., on the same line, serve as cols designation if there
+        // isn't a valid one
+        let mut cols = 1;
+        if let Some(first_cell) = table.blocks.first() {
+            let first_cell_line = first_cell.line()?;
+            // count for implicit column designation
+            cols = table
+                .blocks
+                .iter()
+                .fold(0usize, |acc, block| match block.line() {
+                    Ok(line) => acc + (line == first_cell_line) as usize,
+                    Err(_) => acc, // shouldn't ever happen
+                });
+            // check for an implicit header
+            if cols > 1 && first_cell_line == table.location[0].line + 1 {
+                metadata.options.push("header".to_string());
             }
-            // FOR NOW, make the cols an integer for easier templating.
-            let Some(ref mut metadata) = table.metadata else {
-                error!("Error creating table at Line: {}", first_cell_line);
-                std::process::exit(1)
-            };
-            metadata.simplify_cols();
         }
+        // FOR NOW, make the cols an integer for easier templating.
+        metadata.simplify_cols();
+        let declared_cols = metadata
+            .attributes
+            .get("cols")
+            .and_then(|cols| cols.parse::<usize>().ok());
+        if !matches!(declared_cols, Some(1..)) {
+            metadata
+                .attributes
+                .insert("cols".to_string(), format!("{cols}"));
+        }
+        table.metadata = Some(metadata);
         Ok(())
     }
 
diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 9d3c056..3f2b3cf 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -1,11 +1,15 @@
 {%- import "inline.html.tera" as inline_macros -%}
 {%- macro process_table(block) -%}
-{#- Collect Cells into rows; should be save to assume that all tables have a cols attr -#}
-{% set cols = block.metadata.attributes.cols | int %}
+{#- Collect Cells into rows; only a table that is never closed won't have a cols attr -#}
+{% set cols = block.metadata.attributes.cols | default(value=1) | int %}
+{%- set num_cells = block.blocks | length -%}
 {%- set body_start = 0 -%}
-{%- if "header" in block.metadata.options -%}
+{%- if block.metadata and "header" in block.metadata.options -%}
 {%- set header = true -%}
 {%- set body_start = cols -%}
+{%- if body_start > num_cells -%}
+{%- set body_start = num_cells -%}
+{%- endif -%}
 {%- endif -%}
     <table>{% if header %}
     <thead>
@@ -18,11 +22,10 @@
         {%- else -%}
         <tr>
         {%- endif %}
-        {% set num_cells = block.blocks | length -%}
         {% for idx in range(start=body_start, end=num_cells) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
                 {{ self::process_table_cell(cell=cell, tag="td") -}}
-        {% if idx > 0 and (idx + 1) % cols == 0 and idx+1 != num_cells %}
+        {% if (idx + 1) % cols == 0 and idx+1 != num_cells %}
         </tr>
         <tr>{%- endif %}
         {% endfor %}</tr>
-- 
2.43.0


From 10d17307a40d4f845d57c729353d06ebc29a271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:36 +0000
Subject: [PATCH 013/103] fix: keep the words of adjacent blocks apart, and
 count description list terms and block titles

---
 src/graph/blocks.rs | 80 +++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 9da2c04..d258e69 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -717,75 +717,55 @@ impl Block {
         Ok(())
     }
 
-    /// Returns all literal text in a block
+    /// Returns all literal text in a block, with a newline after any title, text, or child block
     pub fn block_text(&self) -> String {
         let mut block_text = String::new();
         match self {
             Block::Section(block) => {
-                for inline in block.title() {
-                    block_text.push_str(&inline.extract_values_to_string())
-                }
-
-                for block in block.blocks.iter() {
-                    block_text.push_str(&block.block_text())
-                }
-            }
-            Block::List(list) => {
-                for item in list.items.iter() {
-                    block_text.push_str(&item.block_text())
-                }
+                push_inlines_text(&mut block_text, &block.inlines);
+                push_blocks_text(&mut block_text, &block.blocks);
             }
+            Block::List(list) => push_blocks_text(&mut block_text, &list.items),
             Block::ListItem(block) => {
-                for inline in block.principal.iter() {
-                    block_text.push_str(&inline.extract_values_to_string())
-                }
-
-                for block in block.blocks.iter() {
-                    block_text.push_str(&block.block_text())
-                }
-            }
-            Block::DList(list) => {
-                for item in list.items.iter() {
-                    block_text.push_str(&item.block_text())
-                }
+                push_inlines_text(&mut block_text, &block.principal);
+                push_blocks_text(&mut block_text, &block.blocks);
             }
+            Block::DList(list) => push_blocks_text(&mut block_text, &list.items),
             Block::DListItem(block) => {
-                for inline in block.principal.iter() {
-                    block_text.push_str(&inline.extract_values_to_string())
-                }
-
-                for block in block.blocks.iter() {
-                    block_text.push_str(&block.block_text())
-                }
+                push_inlines_text(&mut block_text, &block.terms);
+                push_inlines_text(&mut block_text, &block.principal);
+                push_blocks_text(&mut block_text, &block.blocks);
             }
             Block::Break(_) => {} // break doesn't have literals
-            Block::BlockMacro(block) => {
-                for inline in block.caption.iter() {
-                    block_text.push_str(&inline.extract_values_to_string())
-                }
-            }
-            Block::LeafBlock(block) => {
-                for inline in block.inlines.iter() {
-                    block_text.push_str(&inline.extract_values_to_string())
-                }
-            }
+            Block::BlockMacro(block) => push_inlines_text(&mut block_text, &block.caption),
+            Block::LeafBlock(block) => push_inlines_text(&mut block_text, &block.inlines),
             Block::ParentBlock(block) => {
-                for block in block.blocks.iter() {
-                    block_text.push_str(&block.block_text())
-                }
+                push_inlines_text(&mut block_text, &block.title);
+                push_blocks_text(&mut block_text, &block.blocks);
             }
             Block::BlockMetadata(_) => {}
-            Block::TableCell(block) => {
-                for inline in block.inlines.iter() {
-                    block_text.push_str(&inline.extract_values_to_string())
-                }
-            }
+            Block::TableCell(block) => push_inlines_text(&mut block_text, &block.inlines),
             _ => todo!(),
         }
         block_text
     }
 }
 
+fn push_inlines_text(text: &mut String, inlines: &[Inline]) {
+    for inline in inlines {
+        text.push_str(&inline.extract_values_to_string())
+    }
+    if !inlines.is_empty() {
+        text.push('\n')
+    }
+}
+
+fn push_blocks_text(text: &mut String, blocks: &[Block]) {
+    for block in blocks {
+        text.push_str(&block.block_text())
+    }
+}
+
 #[derive(Serialize, Clone, Debug)]
 pub struct Section {
     name: String,
-- 
2.43.0


From 48a851ea2dac6ec7f105bbf65683602cc377d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:16 +0000
Subject: [PATCH 014/103] fix: number footnotes consecutively across the whole
 document, wherever they are nested

---
 src/graph/blocks.rs | 106 ++++++++++++++++++++++++++------------------
 src/graph/lists.rs  |  64 ++++++--------------------
 2 files changed, 76 insertions(+), 94 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index d258e69..2d0e9e9 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -373,8 +373,6 @@ impl Block {
         footnote_count: usize,
         document_id: &str,
     ) -> Result<Vec<Block>, BlockError> {
-        // setup references
-        let mut local_count = footnote_count;
         // setup list to return
         let mut extracted: Vec<Block> = Vec::new();
 
@@ -382,69 +380,50 @@ impl Block {
             // parents
             Block::Section(block) => {
                 for child in block.blocks.iter_mut() {
-                    let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
-                    local_count += child_footnoes.len();
-                    extracted.extend(child_footnoes);
+                    let count = footnote_count + extracted.len();
+                    extracted.extend(child.extract_footnote_definitions(count, document_id)?);
                 }
             }
             Block::ParentBlock(block) => {
                 for child in block.blocks.iter_mut() {
-                    let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
-                    local_count += child_footnoes.len();
-                    extracted.extend(child_footnoes);
+                    let count = footnote_count + extracted.len();
+                    extracted.extend(child.extract_footnote_definitions(count, document_id)?);
                 }
             }
             Block::List(block) => {
                 for child in block.items.iter_mut() {
-                    let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
-                    local_count += child_footnoes.len();
-                    extracted.extend(child_footnoes);
+                    let count = footnote_count + extracted.len();
+                    extracted.extend(child.extract_footnote_definitions(count, document_id)?);
                 }
             }
             Block::DList(block) => {
                 for child in block.items.iter_mut() {
-                    let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
-                    extracted.extend(child_footnoes);
+                    let count = footnote_count + extracted.len();
+                    extracted.extend(child.extract_footnote_definitions(count, document_id)?);
                 }
             }
             Block::ListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
-                extracted.extend(child_footnotes);
+                extracted.extend(block.extract_footnotes(footnote_count, document_id)?);
             }
             Block::DListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
-                extracted.extend(child_footnotes);
+                extracted.extend(block.extract_footnotes(footnote_count, document_id)?);
             }
             // nonparents
             Block::LeafBlock(block) => {
-                for idx in 0..block.inlines.len() {
-                    if block.inlines[idx].is_footnote() {
-                        local_count += 1;
-                        let inline_span = block.inlines.remove(idx);
-                        let Inline::InlineSpan(mut footnote) = inline_span else {
-                            return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                        };
-                        // deconstruct it
-                        let (definition_id, replacement_span, footnote_contents) =
-                            footnote.deconstruct_footnote(local_count, document_id);
-                        // add the relevant stuff to the return
-                        extracted.push(Block::LeafBlock(
-                            LeafBlock::new_footnote_def_from_id_and_inlines(
-                                definition_id,
-                                footnote_contents,
-                            ),
-                        ));
-                        // put the reference back where the span was
-                        block.inlines.insert(idx, replacement_span);
-                    }
-                }
+                extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+                    &mut block.inlines,
+                    footnote_count,
+                    document_id,
+                ));
+            }
+            Block::TableCell(block) => {
+                extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+                    &mut block.inlines,
+                    footnote_count,
+                    document_id,
+                ));
             }
-            _ => todo!(), // placeholder; probably this is a list of panics that should never be
-                          // reached
+            _ => {} // remaining blocks don't have footnotes
         }
 
         Ok(extracted)
@@ -1030,6 +1009,45 @@ impl LeafBlock {
     pub fn inlines(&self) -> Vec<Inline> {
         self.inlines.clone()
     }
+
+    /// Replaces any footnote spans, including those nested inside of other spans, with references
+    /// that count up from what's passed to the function, returning the footnote definitions
+    pub fn extract_footnote_defs_from_inlines(
+        inlines: &mut [Inline],
+        footnote_count: usize,
+        document_id: &str,
+    ) -> Vec<Block> {
+        let mut extracted: Vec<Block> = Vec::new();
+        for inline in inlines.iter_mut() {
+            let count = footnote_count + extracted.len();
+            let is_footnote = inline.is_footnote();
+            let Inline::InlineSpan(span) = inline else {
+                continue;
+            };
+            if is_footnote {
+                // deconstruct it
+                let (definition_id, replacement_span, footnote_contents) =
+                    span.deconstruct_footnote(count + 1, document_id);
+                // add the relevant stuff to the return
+                extracted.push(Block::LeafBlock(
+                    LeafBlock::new_footnote_def_from_id_and_inlines(
+                        definition_id,
+                        footnote_contents,
+                    ),
+                ));
+                // put the reference where the span was
+                *inline = replacement_span;
+            } else {
+                extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+                    &mut span.inlines,
+                    count,
+                    document_id,
+                ));
+            }
+        }
+        extracted
+    }
+
     pub fn new_footnote_def_from_id_and_inlines(
         definition_id: String,
         inlines: Vec<Inline>,
diff --git a/src/graph/lists.rs b/src/graph/lists.rs
index af53948..0b23998 100644
--- a/src/graph/lists.rs
+++ b/src/graph/lists.rs
@@ -112,33 +112,15 @@ impl ListItem {
         count: usize,
         document_id: &str,
     ) -> Result<Vec<Block>, BlockError> {
-        let mut local_count = count;
         let mut extracted: Vec<Block> = Vec::new();
-        for idx in 0..self.principal.len() {
-            if self.principal[idx].is_footnote() {
-                local_count += 1;
-                let inline_span = self.principal.remove(idx);
-                let Inline::InlineSpan(mut footnote) = inline_span else {
-                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                };
-                // deconstruct it
-                let (definition_id, replacement_span, footnote_contents) =
-                    footnote.deconstruct_footnote(local_count, document_id);
-                // add the relevant stuff to the return
-                extracted.push(Block::LeafBlock(
-                    LeafBlock::new_footnote_def_from_id_and_inlines(
-                        definition_id,
-                        footnote_contents,
-                    ),
-                ));
-                // put the reference back where the span was
-                self.principal.insert(idx, replacement_span);
-            }
-        }
+        extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+            &mut self.principal,
+            count,
+            document_id,
+        ));
         for child in self.blocks.iter_mut() {
-            let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
-            local_count += child_footnoes.len();
-            extracted.extend(child_footnoes);
+            let count = count + extracted.len();
+            extracted.extend(child.extract_footnote_definitions(count, document_id)?);
         }
         Ok(extracted)
     }
@@ -244,33 +226,15 @@ impl DListItem {
         count: usize,
         document_id: &str,
     ) -> Result<Vec<Block>, BlockError> {
-        let mut local_count = count;
         let mut extracted: Vec<Block> = Vec::new();
-        for idx in 0..self.principal.len() {
-            if self.principal[idx].is_footnote() {
-                local_count += 1;
-                let inline_span = self.principal.remove(idx);
-                let Inline::InlineSpan(mut footnote) = inline_span else {
-                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                };
-                // deconstruct it
-                let (definition_id, replacement_span, footnote_contents) =
-                    footnote.deconstruct_footnote(local_count, document_id);
-                // add the relevant stuff to the return
-                extracted.push(Block::LeafBlock(
-                    LeafBlock::new_footnote_def_from_id_and_inlines(
-                        definition_id,
-                        footnote_contents,
-                    ),
-                ));
-                // put the reference back where the span was
-                self.principal.insert(idx, replacement_span);
-            }
-        }
+        extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+            &mut self.principal,
+            count,
+            document_id,
+        ));
         for child in self.blocks.iter_mut() {
-            let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
-            local_count += child_footnoes.len();
-            extracted.extend(child_footnoes);
+            let count = count + extracted.len();
+            extracted.extend(child.extract_footnote_definitions(count, document_id)?);
         }
         Ok(extracted)
     }
-- 
2.43.0


From 150df6de331745d30ea63041baa4010fb60f2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 015/103] fix: resolve cross references inside of spans, links,
 and description list terms

---
 src/graph/blocks.rs  |  2 ++
 src/graph/inlines.rs | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 2d0e9e9..c64a974 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -308,6 +308,7 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                inlines.extend(block.terms.clone());
                 inlines.extend(block.principal.clone());
                 for child in block.blocks.iter() {
                     inlines.extend(child.inlines())
@@ -353,6 +354,7 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                inlines.extend(block.terms.iter_mut());
                 inlines.extend(block.principal.iter_mut());
                 for child in block.blocks.iter_mut() {
                     inlines.extend(child.inlines_mut())
diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 74447a6..889ef64 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -298,14 +298,26 @@ impl Inline {
     }
 
     pub fn attempt_xref_standardization(&mut self, id_hash: &HashMap<String, Vec<Inline>>) {
-        if let Inline::InlineRef(iref) = self {
-            if matches!(iref.variant, InlineRefVariant::Xref) {
+        match self {
+            Inline::InlineRef(iref) if matches!(iref.variant, InlineRefVariant::Xref) => {
                 if let Some(ref_text) = id_hash.get(&iref.target) {
                     iref.inlines = ref_text.clone()
                 } else {
                     warn!("Unable to find xref: {}", iref.target)
                 }
             }
+            // references can be nested inside of spans or links
+            Inline::InlineRef(iref) => {
+                for inline in iref.inlines.iter_mut() {
+                    inline.attempt_xref_standardization(id_hash)
+                }
+            }
+            Inline::InlineSpan(span) => {
+                for inline in span.inlines.iter_mut() {
+                    inline.attempt_xref_standardization(id_hash)
+                }
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From 9364444211d7ee55f0b8ad4488bc6f8360753c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 016/103] fix: recognize delimiters at the end of the source,
 and breaks only at the start of a line

---
 src/scanner/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 85ea694..5f76071 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -72,7 +72,7 @@ impl<'a> Scanner<'a> {
             '\'' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::ThematicBreak, false, 0)
                 } else if ['\0', ' ', '\n'].contains(&self.peek_back()) && self.peek() == '`' {
@@ -90,7 +90,7 @@ impl<'a> Scanner<'a> {
             '<' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::PageBreak, false, 0)
                 } else if ['-', '='].contains(&self.peek()) {
@@ -676,11 +676,12 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_repeated_char_line(&self, c: char, delimiter_len: usize) -> bool {
-        let mut expected_block = String::from(c).repeat(delimiter_len - 1);
-        expected_block.push('\n');
+        let expected_block = String::from(c).repeat(delimiter_len - 1);
 
-        self.current + delimiter_len <= self.source.len()
-            && self.peeks_ahead(delimiter_len) == expected_block
+        match self.source[self.current..].strip_prefix(&expected_block) {
+            Some(rest) => rest.is_empty() || rest.starts_with('\n'),
+            None => false,
+        }
     }
 
     /// Checks that a macro or style is closed (i.e., there is a ']') before a given boundary, e.g.,
@@ -838,7 +839,7 @@ impl<'a> Scanner<'a> {
             }
         }
         self.current += 1;
-        self.peek() == '\n' // callouts MUST be last chars in line
+        ['\n', '\0'].contains(&self.peek()) // callouts MUST be last chars in line
     }
 
     fn starts_text_symbol_replace_parens(&mut self) -> bool {
-- 
2.43.0


From e59f56dcaa3928aab37d7bec9c8913a0f7dc6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:03 +0000
Subject: [PATCH 017/103] fix: end paragraphs, lists, titles and delimited
 blocks where they end, so that adjacent and nested blocks keep their own text
 and order

---
 src/graph/blocks.rs   |   8 +
 src/parser.rs         | 550 ++++++++++++++++++++++++++----------------
 src/scanner/tokens.rs |  17 ++
 3 files changed, 364 insertions(+), 211 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index c64a974..a970215 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -209,6 +209,14 @@ impl Block {
         }
     }
 
+    pub fn is_admonition(&self) -> bool {
+        if let Block::ParentBlock(parent_block) = self {
+            parent_block.name == ParentBlockName::Admonition
+        } else {
+            false
+        }
+    }
+
     pub fn consolidate_table_info(&mut self) -> Result<(), BlockError> {
         let Block::ParentBlock(table) = self else {
             return Err(BlockError::IncorrectCall);
diff --git a/src/parser.rs b/src/parser.rs
index 0dff3ff..255567d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,6 +53,8 @@ pub struct Parser {
     /// counts in/out delimited blocks by line reference; allows us to warn/error if they are
     /// unclosed at the end of the document
     open_delimited_block_lines: Vec<usize>,
+    /// where the open delimited blocks are in the block_stack
+    open_delimited_block_idxs: Vec<usize>,
     /// appends text to block or inline regardless of markup, token, etc. (will need to change
     /// if/when we handle code callouts)
     open_parse_after_as_text_type: Option<TokenType>,
@@ -62,9 +64,10 @@ pub struct Parser {
     in_block_line: bool,
     /// designates whether new literal text should be added to the last span
     in_inline_span: bool,
-    /// designates whether, despite newline last_tokens_types, we should append the current block
-    /// to the next
-    in_block_continuation: bool,
+    /// designates whether, despite newline last_tokens_types, we should append the next block to
+    /// the current list item; holds how many delimited blocks were open at each block
+    /// continuation, since lists inside of delimited blocks can be continued, too
+    block_continuations: Vec<usize>,
     /// forces a new block when we add inlines; helps distinguish between adding to section.title
     /// and section.blocks
     force_new_block: bool,
@@ -113,10 +116,11 @@ impl Parser {
             block_title: None,
             metadata: None,
             open_delimited_block_lines: vec![],
+            open_delimited_block_idxs: vec![],
             level_offset: 0,
             in_block_line: false,
             in_inline_span: false,
-            in_block_continuation: false,
+            block_continuations: vec![],
             preserve_newline_text: false,
             open_parse_after_as_text_type: None,
             force_new_block: false,
@@ -154,7 +158,13 @@ impl Parser {
         }
 
         // add any dangling inlines
-        self.add_inlines_to_block_stack()?;
+        self.close_list_items()?;
+        self.close_paragraph(&mut asg)?;
+        // close any dangling delimited blocks
+        while let Some(line) = self.open_delimited_block_lines.last() {
+            warn!("Unclosed delimited block, see line {}", line);
+            self.close_delimited_block(vec![], &mut asg)?;
+        }
         // add any dangling blocks (most often sections)
         while !self.block_stack.is_empty() {
             self.add_last_block_to_graph(&mut asg)?;
@@ -193,7 +203,12 @@ impl Parser {
                         return Ok(());
                     }
                 }
-                TokenType::PassthroughBlock | TokenType::LiteralBlock | TokenType::CommentBlock => {
+                TokenType::CommentBlock => {
+                    if token.token_type() != token_type {
+                        return Ok(());
+                    }
+                }
+                TokenType::PassthroughBlock | TokenType::LiteralBlock => {
                     if token.token_type() != token_type {
                         self.pass_text_through(token)?;
                         return Ok(());
@@ -225,6 +240,10 @@ impl Parser {
 
             // block titles, metadata, etc.
             TokenType::BlockLabel => {
+                // block titles can't interrupt a paragraph
+                if !self.inline_stack.is_empty() {
+                    return self.parse_text(token);
+                }
                 // open the block title
                 self.block_title = Some(Vec::new());
                 self.in_block_line = true;
@@ -232,8 +251,9 @@ impl Parser {
                 self.dangling_newline = None;
                 Ok(())
             }
-            TokenType::BlockAnchor => self.parse_block_anchor_attributes(token),
-            TokenType::ElementAttributes => self.parse_block_element_attributes(token),
+            TokenType::BlockAnchor | TokenType::ElementAttributes => {
+                self.parse_block_element_attributes(token, asg)
+            }
 
             // inline metadata
             TokenType::InlineStyle => self.parse_inline_element_attributes(token),
@@ -281,14 +301,17 @@ impl Parser {
             // breaks
             TokenType::PageBreak => self.parse_page_break(token, asg),
             TokenType::ThematicBreak => self.parse_thematic_break(token, asg),
-            TokenType::LineContinuation => {self
-                .inline_stack
-                .push_back(Inline::InlineBreak(LineBreak::new_from_token(token)));Ok(())},
+            TokenType::LineContinuation => {
+                self.add_dangling_newline();
+                self.inline_stack
+                    .push_back(Inline::InlineBreak(LineBreak::new_from_token(token)));
+                Ok(())
+            }
             // delimited blocks
             TokenType::SidebarBlock
             | TokenType::OpenBlock
             | TokenType::ExampleBlock
-            | TokenType::Table => self.parse_delimited_parent_block(token),
+            | TokenType::Table => self.parse_delimited_parent_block(token, asg),
 
             // table cells -- note that we just create the cells; up to the backend/template to handle the
             // column-making (for now, so we can just reuse ParentBlock)
@@ -298,23 +321,23 @@ impl Parser {
                 // check if it's verse
                 if let Some(metadata) = &self.metadata {
                     if metadata.declared_type == Some(AttributeType::Verse) {
-                        self.parse_delimited_leaf_block(token)?;
+                        self.parse_delimited_leaf_block(token, asg)?;
                         return Ok(());
                     }
                 } else if self.open_parse_after_as_text_type.is_some() {
-                    self.parse_delimited_leaf_block(token)?;
+                    self.parse_delimited_leaf_block(token, asg)?;
                     return Ok(());
                 }
 
-                self.parse_delimited_parent_block(token)?;
+                self.parse_delimited_parent_block(token, asg)?;
                 Ok(())
             }
 
             // the following should probably be consumed into the above
             TokenType::PassthroughBlock | TokenType::LiteralBlock => {
-                self.parse_delimited_leaf_block(token)
+                self.parse_delimited_leaf_block(token, asg)
             }
-            TokenType::SourceBlock => self.parse_delimited_leaf_block(token),
+            TokenType::SourceBlock => self.parse_delimited_leaf_block(token, asg),
             TokenType::CodeCallout => self.parse_code_callout(token),
 
             // block macros
@@ -340,19 +363,17 @@ impl Parser {
             // comments
             TokenType::Comment => self.parse_comment(),
             TokenType::CommentBlock => {
-                // We treat a CommentBlock like a delimited LeafBlock, but throw away the result if
-                // we've got a match
+                // We treat a CommentBlock like a delimited LeafBlock, but throw away its contents
                 if let Some(open_type) = self.open_parse_after_as_text_type {
                     if open_type == TokenType::CommentBlock {
-                        self.inline_stack.clear();
-                        self.block_stack.pop();
-                        self.force_new_block = true;
                         self.open_parse_after_as_text_type = None;
                     }
-                    Ok(())
                 } else {
-                    self.parse_delimited_leaf_block(token)
+                    self.close_paragraph(asg)?;
+                    self.force_new_block = true;
+                    self.open_parse_after_as_text_type = Some(token.token_type());
                 }
+                Ok(())
             }
 
             TokenType::Eof => {
@@ -408,14 +429,14 @@ impl Parser {
         }
     }
 
-    fn parse_block_anchor_attributes(&mut self, token: Token) -> Result<(), ParserError> {
-        self.add_metadata_from_token(token);
-        self.force_new_block = true;
-        Ok(())
-    }
-
-    /// parses element attribute lists into self.block_metadata, which then is applied later
-    fn parse_block_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
+    /// parses block anchors and element attribute lists into self.block_metadata, which then is
+    /// applied later
+    fn parse_block_element_attributes(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        self.close_paragraph(asg)?;
         self.add_metadata_from_token(token);
         self.force_new_block = true;
         Ok(())
@@ -444,59 +465,58 @@ impl Parser {
     /// such the parse function is a little complicated.
     fn parse_new_line_char(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // newline exits a title, TK line continuation
+        if self.in_block_line && matches!(self.block_stack.last(), Some(Block::Section(_))) {
+            self.in_block_line = false;
+            self.add_inlines_to_block_stack()?;
+            self.force_new_block = true;
+            return Ok(());
+        }
         self.in_block_line = false;
 
-        // if there is a block title, add the inline stack to the title
-        if self.block_title.is_some() {
+        // if there is an open block title, add the inline stack to the title
+        if self.block_title.as_ref().is_some_and(|title| title.is_empty()) {
             self.handle_dangling_spans();
-        }
-        if let Some(ref mut title_stack) = self.block_title {
-            while !self.inline_stack.is_empty() {
-                let inline = self.inline_stack.pop_front().unwrap();
-                title_stack.push(inline);
-            }
+            self.block_title = Some(self.inline_stack.drain(..).collect());
+            return Ok(());
         }
 
-        if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
+        if self.open_parse_after_as_text_type == Some(TokenType::QuoteVerseBlock) {
+            // blank lines are a part of the verse, just not ahead of any text
+            if !self.inline_stack.is_empty() {
+                self.add_dangling_newline();
+                self.dangling_newline = Some(token);
+            }
+        } else if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
             // clear any dangling newline
             self.dangling_newline = None;
             if self.document_header.is_some() {
                 self.check_and_move_header(asg)?;
             } else {
                 // consolidate any dangling list items
-                if let Some(Block::ListItem(_)) = self.block_stack.last() {
-                    self.add_last_list_item_to_list()?;
-                } else if let Some(Block::DListItem(_)) = self.block_stack.last() {
-                    self.add_last_list_item_to_list()?;
-                }
+                self.close_list_items()?;
+                self.preserve_newline_text = false;
                 // clear out any inlines
                 self.in_inline_span = false;
-                self.add_inlines_to_block_stack()?;
+                self.close_paragraph(asg)?;
                 // and then force a new block hereafter
                 self.force_new_block = true;
-                if let Some(last_block) = self.block_stack.pop() {
-                    // check for dangling list items
-                    if !last_block.is_section() && self.open_delimited_block_lines.is_empty() {
-                        self.add_to_block_stack_or_graph(asg, last_block)?;
-                        if self.close_parent_after_push && !self.block_stack.is_empty() {
-                            self.add_last_to_block_stack_or_graph(asg)?;
-                            self.close_parent_after_push = false;
-                        }
-                    } else {
-                        self.push_block_to_stack(last_block)?
-                    }
-                } // if Some(last_block)
+                // close any list, unless there is a block (e.g., a section) that's still open
+                if let Some(Block::List(_) | Block::DList(_)) = self.block_stack.last() {
+                    self.close_last_block(asg)?;
+                }
             }
-        } else if self.in_block_continuation || self.last_token_type.clears_newline_after() {
+        } else if self.last_token_type.clears_newline_after() {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
-        } else {
+        } else if self.last_token_type != TokenType::Comment {
+            // comments don't add anything to the text, including their newline
             self.dangling_newline = Some(token);
         }
         Ok(())
     }
 
     fn parse_thematic_break(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        self.close_paragraph(asg)?;
         self.add_to_block_stack_or_graph(
             asg,
             Block::Break(Break::new(
@@ -507,6 +527,7 @@ impl Parser {
     }
 
     fn parse_page_break(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        self.close_paragraph(asg)?;
         self.add_to_block_stack_or_graph(
             asg,
             Block::Break(Break::new(
@@ -627,10 +648,17 @@ impl Parser {
         }
 
         // clean up inlines
-        self.add_inlines_to_block_stack()?;
+        if self.open_parse_after_as_text_type.is_some() {
+            self.add_inlines_to_block_stack()?;
+        } else {
+            self.close_list_items()?;
+            self.close_paragraph(asg)?;
+        }
 
-        // get the blocks stack back to where it was
-        while self.block_stack.len() > current_block_stack_len {
+        // get the blocks stack back to where it was, save that delimited blocks gather their own
+        while self.block_stack.len() > current_block_stack_len
+            && self.open_delimited_block_lines.is_empty()
+        {
             self.add_last_block_to_graph(asg)?
         }
         // ...then pop the file off the stack
@@ -650,13 +678,14 @@ impl Parser {
         if let Some(newline_idx) = self
             .inline_stack
             .iter()
-            .position(|inline| inline.is_newline())
+            .rposition(|inline| inline.is_newline())
         {
             // remove the inlines that ought to constitute the next term
             let mut next_terms: VecDeque<Inline> = self.inline_stack.drain(newline_idx..).collect();
             // remove the newline, since we don't care about that anymore
             next_terms.pop_front();
             // add the other inlines
+            self.force_new_block = self.in_block_continuation();
             self.add_inlines_to_block_stack()?;
             // then add the next terms back
             self.inline_stack.append(&mut next_terms);
@@ -667,13 +696,9 @@ impl Parser {
             let inline = self.inline_stack.pop_front().unwrap();
             dlist_item.push_term(inline);
         }
-        if self.block_stack.last().is_some()
-            && self.block_stack.last().unwrap().is_definition_list_item()
-        {
-            self.add_last_list_item_to_list()?
-        } else {
+        if !self.close_list_items_until(Block::is_definition_list_item)? {
             // we need to create the list first
-            self.push_block_to_stack(Block::DList(DList::new(dlist_item.locations().clone())))?;
+            self.push_list_to_stack(Block::DList(DList::new(dlist_item.locations().clone())))?;
         }
         // either way, add the new list item
         self.push_block_to_stack(Block::DListItem(dlist_item))?;
@@ -688,11 +713,7 @@ impl Parser {
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
         // if there is an appropriate list, we push this onto the open_blocks so inlines can be
         // added
-        if self.block_stack.last().is_some()
-            && self.block_stack.last().unwrap().is_ordered_list_item()
-        {
-            self.add_last_list_item_to_list()?
-        } else {
+        if !self.close_list_items_until(Block::is_ordered_list_item)? {
             // we need to create the list first
             let mut list = List::new(ListVariant::Ordered, token.locations().clone());
             if token.token_type() == TokenType::CodeCalloutListItem {
@@ -706,7 +727,7 @@ impl Parser {
                 }
                 list.metadata = Some(ElementMetadata::new_with_role("colist".to_string()));
             }
-            self.push_block_to_stack(Block::List(list))?;
+            self.push_list_to_stack(Block::List(list))?;
         }
         // either way, add the new list item
         self.push_block_to_stack(Block::ListItem(list_item))
@@ -718,13 +739,9 @@ impl Parser {
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
         // if there is an appropriate list, we push this onto the open_blocks so inlines can be
         // added
-        if self.block_stack.last().is_some()
-            && self.block_stack.last().unwrap().is_unordered_list_item()
-        {
-            self.add_last_list_item_to_list()?
-        } else {
+        if !self.close_list_items_until(Block::is_unordered_list_item)? {
             // we need to create the list first
-            self.push_block_to_stack(Block::List(List::new(
+            self.push_list_to_stack(Block::List(List::new(
                 ListVariant::Unordered,
                 token.locations().clone(),
             )))?;
@@ -821,20 +838,35 @@ impl Parser {
         Ok(())
     }
 
-    fn parse_block_continuation(&mut self, _token: Token) -> Result<(), ParserError> {
+    fn parse_block_continuation(&mut self, token: Token) -> Result<(), ParserError> {
+        if !matches!(
+            self.block_stack.last(),
+            Some(Block::ListItem(_) | Block::DListItem(_))
+        ) {
+            // there isn't anything to continue
+            return self.parse_text(token);
+        }
+        self.force_new_block = self.in_block_continuation();
         self.add_inlines_to_block_stack()?;
-        self.in_block_continuation = true;
+        self.dangling_newline = None;
+        if !self.in_block_continuation() {
+            self.block_continuations
+                .push(self.open_delimited_block_lines.len());
+        }
         self.force_new_block = true;
         Ok(())
     }
 
+    /// Whether the next block belongs to the current list item; n.b. blocks inside of a delimited
+    /// block don't, only the delimited block itself
+    fn in_block_continuation(&self) -> bool {
+        self.block_continuations.last() == Some(&self.open_delimited_block_lines.len())
+    }
+
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
         // handle newline tokens prior to constrained spans
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            self.add_text_to_last_inline(newline_token);
-            self.dangling_newline = None;
-        }
+        self.add_dangling_newline();
         // if there is a span to close, gather anything that came after it (e.g., references); note
         // that spans can't reach outside of an open macro
         let open_macro_idx = self
@@ -878,6 +910,7 @@ impl Parser {
     }
 
     fn parse_link_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_macro_token(
                 token,
@@ -886,6 +919,7 @@ impl Parser {
     }
 
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
         Ok(())
@@ -894,6 +928,7 @@ impl Parser {
     fn parse_block_image(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
         self.check_target(token.line, &target)?;
+        self.close_paragraph(asg)?;
         let mut image_block = BlockMacro::new_image_block(target, metadata, token.locations());
         if let Some(metadata) = &self.metadata {
             // TODO see if there is a cleaner way to manage the borrowing here.
@@ -909,7 +944,8 @@ impl Parser {
 
     fn parse_inline_image_macro(&mut self, token: Token) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
-        let _ = self.check_target(token.line, &target);
+        self.check_target(token.line, &target)?;
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
                 target,
@@ -920,6 +956,7 @@ impl Parser {
     }
 
     fn parse_footnote_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
@@ -983,6 +1020,7 @@ impl Parser {
     }
 
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
         Ok(())
@@ -1005,22 +1043,14 @@ impl Parser {
     }
 
     fn parse_text(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(newline_token) = self.dangling_newline.clone() {
+        if self.dangling_newline.is_some() {
+            self.add_dangling_newline();
             if self.preserve_newline_text {
-                // add the newline as such
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&newline_token),
-                ));
-                // clear the newline
-                self.dangling_newline = None;
                 // add the new text separately
                 self.inline_stack.push_back(Inline::InlineLiteral(
                     InlineLiteral::new_text_from_token(&token),
                 ));
                 return Ok(());
-            } else {
-                self.add_text_to_last_inline(newline_token);
-                self.dangling_newline = None;
             }
         }
         self.add_text_to_last_inline(token);
@@ -1028,22 +1058,14 @@ impl Parser {
     }
 
     fn pass_text_through(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(newline_token) = self.dangling_newline.clone() {
+        if self.dangling_newline.is_some() {
+            self.add_dangling_newline();
             if self.preserve_newline_text {
-                // add the newline as such
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&newline_token),
-                ));
-                // clear the newline
-                self.dangling_newline = None;
                 // add the new text separately
                 self.inline_stack.push_back(Inline::InlineLiteral(
                     InlineLiteral::new_text_from_token_pass(&token),
                 ));
                 return Ok(());
-            } else {
-                self.add_text_to_last_inline(newline_token);
-                self.dangling_newline = None;
             }
         }
         self.pass_text_to_last_inline(token);
@@ -1052,22 +1074,7 @@ impl Parser {
 
     fn parse_charref(&mut self, token: Token) -> Result<(), ParserError> {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_charref_from_token(&token));
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
-                // add the newline as such
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&newline_token),
-                ));
-                // clear the newline
-                self.dangling_newline = None;
-                // add the new text separately
-                self.inline_stack.push_back(inline_literal);
-                return Ok(());
-            } else {
-                self.add_text_to_last_inline(newline_token);
-                self.dangling_newline = None;
-            }
-        }
+        self.add_dangling_newline();
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
@@ -1095,30 +1102,40 @@ impl Parser {
         Ok(())
     }
 
-    fn parse_delimited_leaf_block(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_delimited_leaf_block(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
         if self.open_parse_after_as_text_type.is_some() {
             // ensure inlines are added appropriately
             self.add_inlines_to_block_stack()?;
-            match self.block_stack.pop() {
-                Some(mut open_leaf) => {
+            self.dangling_newline = None;
+            match self.block_stack.last_mut() {
+                Some(open_leaf) => {
                     open_leaf.add_locations(token.locations().clone());
-                    self.push_block_to_stack(open_leaf)?;
                     self.open_parse_after_as_text_type = None;
-                    Ok(())
+                    self.close_last_block(asg)
                 }
                 None => Err(ParserError::OpenParse(token.line)),
             }
         } else {
+            self.close_paragraph(asg)?;
             self.open_parse_after_as_text_type = Some(token.token_type());
-            let block = LeafBlock::new_from_token(token)?;
-            self.push_block_to_stack(Block::LeafBlock(block))?;
+            let mut block = Block::LeafBlock(LeafBlock::new_from_token(token)?);
+            self.add_metadata_to_block(&mut block)?;
+            self.block_stack.push(block);
             // note that we're to just add
             self.force_new_block = false;
             Ok(())
         }
     }
 
-    fn parse_delimited_parent_block(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_delimited_parent_block(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
         let delimiter_line = token.first_location().line;
         let mut block = ParentBlock::new_from_token(token)?;
         // clear the dangling newline
@@ -1129,53 +1146,57 @@ impl Parser {
             self.block_title = None;
         }
 
-        // check for any prior parents in reverse
-        if let Some(parent_block_idx) = self
-            .block_stack
-            .iter()
-            .rposition(|parent_block| matches!(parent_block, Block::ParentBlock(_)))
-        {
-            let matched_block = self.block_stack.remove(parent_block_idx);
-            let Block::ParentBlock(mut matched) = matched_block else {
-                return Err(ParserError::ParentBlock(delimiter_line));
-            };
-            if matched == block {
-                // close any dangling inlines BEFORE opening the delimited block lines
-                self.add_inlines_to_block_stack()?;
-                // remove the open delimiter line from the count and confirm we're nested properly
-                let Some(line) = self.open_delimited_block_lines.pop() else {
-                    return Err(ParserError::DelimitedBlock);
-                };
-                if line != matched.opening_line()? {
-                    warn!("Error nesting delimited blocks, see line {}", line)
-                }
-                // update the final location
-                matched.location = Location::reconcile(matched.location.clone(), block.location);
-                // collect subsequent blocks to be added to the parent block
-                let mut blocks_to_add =
-                    VecDeque::from_iter(self.block_stack.drain(parent_block_idx..));
-                //
-                let mut delimited_block = Block::ParentBlock(matched);
-                while !blocks_to_add.is_empty() {
-                    delimited_block.push_block(blocks_to_add.pop_front().unwrap())?
-                }
-                if delimited_block.is_table() {
-                    delimited_block.consolidate_table_info()?;
-                }
-                self.push_block_to_stack(delimited_block)?;
-                // close any continuations
-                self.in_block_continuation = false;
-                return Ok(());
-            } else {
-                self.block_stack
-                    .insert(parent_block_idx, Block::ParentBlock(matched));
+        // check whether it closes the last open delimited block
+        if let Some(&parent_block_idx) = self.open_delimited_block_idxs.last() {
+            if self.block_stack.get(parent_block_idx) == Some(&Block::ParentBlock(block.clone())) {
+                return self.close_delimited_block(block.location, asg);
             }
         }
+        self.close_paragraph(asg)?;
         // note the open block line
         self.open_delimited_block_lines.push(delimiter_line);
+        self.open_delimited_block_idxs.push(self.block_stack.len());
         self.push_block_to_stack(Block::ParentBlock(block))
     }
 
+    /// Closes the last open delimited block, gathering the blocks inside of it
+    fn close_delimited_block(
+        &mut self,
+        closing_location: Vec<Location>,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        // close any dangling inlines BEFORE opening the delimited block lines
+        self.close_list_items()?;
+        self.close_paragraph(asg)?;
+        self.preserve_newline_text = false;
+        // remove the open delimiter line from the count and confirm we're nested properly
+        let (Some(line), Some(parent_block_idx)) = (
+            self.open_delimited_block_lines.pop(),
+            self.open_delimited_block_idxs.pop(),
+        ) else {
+            return Err(ParserError::DelimitedBlock);
+        };
+        // collect subsequent blocks to be added to the parent block
+        let mut blocks_to_add = self.block_stack.drain(parent_block_idx..);
+        let Some(Block::ParentBlock(mut matched)) = blocks_to_add.next() else {
+            return Err(ParserError::ParentBlock(line));
+        };
+        if line != matched.opening_line()? {
+            warn!("Error nesting delimited blocks, see line {}", line)
+        }
+        // update the final location
+        matched.location = Location::reconcile(matched.location.clone(), closing_location);
+        let mut delimited_block = Block::ParentBlock(matched);
+        for block in blocks_to_add {
+            delimited_block.push_block(block)?
+        }
+        if delimited_block.is_table() {
+            delimited_block.consolidate_table_info()?;
+        }
+        self.block_stack.push(delimited_block);
+        self.close_last_block(asg)
+    }
+
     fn parse_table_cell(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // take the token text, which begins with a `|`, and then use everything after
         let cell_contents = token.text()[1..].to_string();
@@ -1206,24 +1227,88 @@ impl Parser {
     }
 
     fn push_block_to_stack(&mut self, mut block: Block) -> Result<(), ParserError> {
-        // we only want to push on continue if we're not in an open delimited block (which will
-        // close itself, emptying the open_delimited_block_lines)
-        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
+        self.add_metadata_to_block(&mut block)?;
+        if self.in_block_continuation() {
             let Some(last_block) = self.block_stack.last_mut() else {
                 return Err(ParserError::BlockContinuation);
             };
             last_block.push_block(block)?;
-            self.in_block_continuation = false;
+            self.block_continuations.pop();
         } else {
-            if self.metadata.is_some() {
-                block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-                self.metadata = None;
-            }
             self.block_stack.push(block)
         }
         Ok(())
     }
 
+    /// Lists inside of a list item stay on the stack until they're closed
+    fn push_list_to_stack(&mut self, mut list: Block) -> Result<(), ParserError> {
+        self.add_metadata_to_block(&mut list)?;
+        self.block_stack.push(list);
+        Ok(())
+    }
+
+    fn add_metadata_to_block(&mut self, block: &mut Block) -> Result<(), ParserError> {
+        // n.b. blocks that support titles have already taken theirs, so this isn't for a later block
+        self.block_title = None;
+        if let Some(metadata) = self.metadata.take() {
+            block.add_metadata(metadata)?;
+        }
+        Ok(())
+    }
+
+    /// Closes any open paragraph, e.g., when a different kind of block follows
+    fn close_paragraph(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        let current_block_stack_len = self.block_stack.len();
+        self.dangling_newline = None;
+        self.add_inlines_to_block_stack()?;
+        if self.block_stack.len() > current_block_stack_len {
+            self.close_last_block(asg)?;
+        }
+        Ok(())
+    }
+
+    /// Moves a completed block to where it belongs, unless it's in an open delimited block (which
+    /// gathers its blocks once it closes)
+    fn close_last_block(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        // and then make sure that what follows isn't added to it
+        self.force_new_block = true;
+        let Some(mut block) = self.block_stack.pop() else {
+            return Err(ParserError::BlockStack);
+        };
+        block.consolidate_locations();
+        let in_admonition = self.close_parent_after_push
+            && self.block_stack.last().is_some_and(Block::is_admonition);
+        let in_block_continuation = self.in_block_continuation();
+        match self.block_stack.last_mut() {
+            Some(admonition) if in_admonition => {
+                admonition.push_block(block)?;
+                self.close_parent_after_push = false;
+                self.close_last_block(asg)?;
+            }
+            Some(list_item) if in_block_continuation => {
+                list_item.push_block(block)?;
+                self.block_continuations.pop();
+            }
+            _ if !self.open_delimited_block_lines.is_empty() => self.block_stack.push(block),
+            Some(parent) if parent.takes_block_of_type(&block) => parent.push_block(block)?,
+            _ => asg.push_block(block)?,
+        }
+        Ok(())
+    }
+
+    fn add_dangling_newline(&mut self) {
+        if let Some(newline_token) = self.dangling_newline.take() {
+            if self.preserve_newline_text {
+                // add the newline as such
+                self.inline_stack.push_back(Inline::InlineLiteral(
+                    InlineLiteral::new_text_from_token(&newline_token),
+                ));
+            } else {
+                self.add_text_to_last_inline(newline_token);
+            }
+        }
+    }
+
     fn add_text_to_last_inline(&mut self, token: Token) {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token(&token));
         if let Some(last_inline) = self.inline_stack.back_mut() {
@@ -1345,17 +1430,14 @@ impl Parser {
                 para_block.push_inline(inline)?
             }
         }
-        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
-            let Some(last_block) = self.block_stack.last_mut() else {
-                return Err(ParserError::BlockContinuation);
-            };
-            last_block.push_block(para_block)?;
-            return Ok(());
+        para_block.consolidate_locations();
+        if self.in_block_continuation() {
+            return self.push_block_to_stack(para_block);
         }
 
         if let Some(ref block_metadata) = self.metadata {
             // check to see if we need to apply metadata to the para block
-            let line_above = para_block.locations().first().unwrap().line + 1;
+            let line_above = para_block.line()? + 1;
             if self.open_delimited_block_lines.last() == Some(&line_above)
                 || self.open_delimited_block_lines.is_empty()
                     && block_metadata.declared_type == Some(AttributeType::Quote)
@@ -1387,20 +1469,75 @@ impl Parser {
 
     fn add_last_list_item_to_list(&mut self) -> Result<(), ParserError> {
         // clear out any forced new blocks
-        self.force_new_block = false;
+        self.force_new_block = self.in_block_continuation();
         // add the inlines to the list item
         self.add_inlines_to_block_stack()?;
+        self.force_new_block = false;
+        if self.in_block_continuation() {
+            // nothing left to continue
+            self.block_continuations.pop();
+        }
         // then add it to the list
-        let last_item = self.block_stack.pop().unwrap();
-        // if the last thing is a list item, add it to the list
-        if matches!(last_item, Block::ListItem(_) | Block::DListItem(_)) {
-            if let Some(list) = self.block_stack.last_mut() {
-                list.push_block(last_item)?
+        let Some(last_item) = self.block_stack.pop() else {
+            return Err(ParserError::BlockStack);
+        };
+        if let Some(list) = self.block_stack.last_mut() {
+            list.push_block(last_item)?
+        }
+        Ok(())
+    }
+
+    /// Adds the last list item to its list and, if that list is itself inside of a list item, does
+    /// the same for the lists around it
+    fn close_list_items(&mut self) -> Result<(), ParserError> {
+        while let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
+            self.add_last_list_item_to_list()?;
+            self.add_list_to_list_item()?;
+        }
+        Ok(())
+    }
+
+    /// Looks for an open list that a new item belongs to, closing the last item of that list as well
+    /// as any lists inside of it; otherwise the new item begins a new list inside of the last item
+    fn close_list_items_until(
+        &mut self,
+        is_same_list: fn(&Block) -> bool,
+    ) -> Result<bool, ParserError> {
+        let belongs_to_list = self
+            .block_stack
+            .iter()
+            .rev()
+            .take_while(|block| {
+                matches!(
+                    block,
+                    Block::List(_) | Block::ListItem(_) | Block::DList(_) | Block::DListItem(_)
+                )
+            })
+            .any(is_same_list);
+        if belongs_to_list {
+            while !self.block_stack.last().is_some_and(is_same_list) {
+                self.add_last_list_item_to_list()?;
+                self.add_list_to_list_item()?;
+            }
+            self.add_last_list_item_to_list()?;
+        } else if let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
+            self.force_new_block = self.in_block_continuation();
+            self.add_inlines_to_block_stack()?;
+            self.force_new_block = false;
+            if self.in_block_continuation() {
+                self.block_continuations.pop();
+            }
+        }
+        Ok(belongs_to_list)
+    }
+
+    fn add_list_to_list_item(&mut self) -> Result<(), ParserError> {
+        if let [.., Block::ListItem(_) | Block::DListItem(_), _] = self.block_stack.as_slice() {
+            if let Some(list) = self.block_stack.pop() {
+                if let Some(list_item) = self.block_stack.last_mut() {
+                    list_item.push_block(list)?
+                }
             }
-        } else {
-            // otherwise return the list to the open block stack, and create a new unordered
-            // list item
-            self.push_block_to_stack(last_item)?;
         }
         Ok(())
     }
@@ -1410,18 +1547,9 @@ impl Parser {
         asg: &mut Asg,
         mut block: Block,
     ) -> Result<(), ParserError> {
-        if let Some(last_block) = self.block_stack.last_mut() {
-            if last_block.takes_block_of_type(&block) {
-                last_block.push_block(block)?;
-                return Ok(());
-            }
-        }
-        if self.metadata.is_some() {
-            block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-            self.metadata = None;
-        }
-        asg.push_block(block)?;
-        Ok(())
+        self.add_metadata_to_block(&mut block)?;
+        self.block_stack.push(block);
+        self.close_last_block(asg)
     }
 
     fn add_last_to_block_stack_or_graph(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 1057bc2..4ba066c 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -329,10 +329,27 @@ impl TokenType {
         matches!(
             self,
             TokenType::ElementAttributes
+                | TokenType::BlockAnchor
+                | TokenType::Attribute
+                | TokenType::NotePara
+                | TokenType::TipPara
+                | TokenType::ImportantPara
+                | TokenType::CautionPara
+                | TokenType::WarningPara
                 | TokenType::SidebarBlock
                 | TokenType::OpenBlock
                 | TokenType::QuoteVerseBlock
                 | TokenType::ExampleBlock
+                | TokenType::PassthroughBlock
+                | TokenType::LiteralBlock
+                | TokenType::SourceBlock
+                | TokenType::CommentBlock
+                | TokenType::Table
+                | TokenType::ThematicBreak
+                | TokenType::PageBreak
+                | TokenType::BlockImageMacro
+                | TokenType::BlockContinuation
+                | TokenType::DescriptionListMarker
         )
     }
 }
-- 
2.43.0


From cada7b9c8f22fe9ccb98ce68754875854176b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:53 +0000
Subject: [PATCH 018/103] fix: track lines across multi-line image macros, and
 accept empty attributes, callouts with icons, and replaced text in links

---
 src/graph/inlines.rs |  5 ++++-
 src/parser.rs        | 12 +++---------
 src/scanner/mod.rs   |  9 ++++++++-
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 889ef64..ff77d4a 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -660,7 +660,10 @@ impl InlineRef {
     }
 
     fn text_from_token(&mut self, token: Token, pass: bool) {
-        let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token_pass(&token));
+        let inline_literal = Inline::InlineLiteral(match pass {
+            true => InlineLiteral::new_text_from_token_pass(&token),
+            false => InlineLiteral::new_text_from_token(&token),
+        });
         if let Some(last_inline) = self.inlines.last_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => span.add_inline(inline_literal),
diff --git a/src/parser.rs b/src/parser.rs
index 255567d..e76b54d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1010,7 +1010,7 @@ impl Parser {
             token.literal = Some(value.clone());
             // update the ending col, adding the new value and then subtracting one because of
             // indexing
-            token.endcol = token.startcol + value.len() - 1;
+            token.endcol = (token.startcol + value.len()).saturating_sub(1);
         } else {
             warn!("Missing document attribute: {}", attribute_target);
         }
@@ -1027,14 +1027,8 @@ impl Parser {
     }
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(value) = self.document_attributes.get("icons") {
-            if value == "true" {
-                if let Some(_last_inline) = self.inline_stack.back_mut() {
-                    // handle deleting comment markup, IF we're handling icons
-                    todo!();
-                }
-            }
-        }
+        // TODO handle deleting comment markup, IF we're handling icons
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 5f76071..11c5dd6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -530,7 +530,14 @@ impl<'a> Scanner<'a> {
             self.current += 1
         }
         self.current += 1; // consume the ']' char
-        self.add_token(TokenType::InlineImageMacro, true, 0)
+        let result = self.add_token(TokenType::InlineImageMacro, true, 0);
+        // the macro can include newlines
+        let text = &self.source[self.start..self.current];
+        if let Some(newline_idx) = text.rfind('\n') {
+            self.line += text.matches('\n').count();
+            self.startcol = text.len() - newline_idx;
+        }
+        result
     }
 
     /// Adds the include image, consuming the target as well as any attributes
-- 
2.43.0


From 80b8df9502103d1294c66aeeee77817cdf3719c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:25 +0000
Subject: [PATCH 019/103] fix: apply relative level offsets as such, and end
 the offset of an include along with it

---
 src/parser.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76b54d..abd8c0f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -411,21 +411,20 @@ impl Parser {
     }
 
     fn parse_level_offset(&mut self, value: &str) -> Result<(), ParserError> {
-        if let Ok(value) = value.parse::<usize>() {
-            self.level_offset = value as i8;
-            Ok(())
-        } else {
-            match value.parse::<i8>() {
-                // absolute value
-                Ok(value) => {
-                    self.level_offset += value;
-                    Ok(())
-                }
-                // relative value, or error
-                Err(_) => Err(ParserError::InternalError(
-                    "Error parsing level offset".to_string(),
-                )),
+        let offset = match value.parse::<i8>() {
+            // relative value
+            Ok(offset) if value.starts_with(['+', '-']) => self.level_offset.checked_add(offset),
+            // absolute value, or error
+            result => result.ok(),
+        };
+        match offset {
+            Some(offset) => {
+                self.level_offset = offset;
+                Ok(())
             }
+            None => Err(ParserError::InternalError(
+                "Error parsing level offset".to_string(),
+            )),
         }
     }
 
@@ -550,11 +549,14 @@ impl Parser {
         let mut included_tags: Vec<String> = vec![];
         let mut asciidoc_include: bool = false;
         let mut current_tag: Option<String> = None;
+        let level_offset = self.level_offset;
+        let mut has_level_offset: bool = false;
 
         let (target, meta) = target_and_attrs_from_token(&token);
         // check for level offsets in the include
         if let Some(metadata) = meta {
             if let Some(value) = metadata.attributes.get("leveloffset") {
+                has_level_offset = true;
                 match self.parse_level_offset(value) {
                     Ok(_) => {}
                     Err(e) => return Err(e),
@@ -663,6 +665,10 @@ impl Parser {
         }
         // ...then pop the file off the stack
         self.file_stack.pop();
+        // any offset declared by the include only applies to the included file
+        if has_level_offset {
+            self.level_offset = level_offset;
+        }
         Ok(())
     }
 
@@ -802,10 +808,10 @@ impl Parser {
     fn get_heading_level(&self, token: &Token) -> Result<usize, ParserError> {
         let level: i8 = match token.token_type() {
             TokenType::Heading1 => self.level_offset,
-            TokenType::Heading2 => 1 + self.level_offset,
-            TokenType::Heading3 => 2 + self.level_offset,
-            TokenType::Heading4 => 3 + self.level_offset,
-            TokenType::Heading5 => 4 + self.level_offset,
+            TokenType::Heading2 => self.level_offset.saturating_add(1),
+            TokenType::Heading3 => self.level_offset.saturating_add(2),
+            TokenType::Heading4 => self.level_offset.saturating_add(3),
+            TokenType::Heading5 => self.level_offset.saturating_add(4),
             _ => {
                 return Err(ParserError::InternalError(
                     "Inavlid token given to parse_section_headings".to_string(),
-- 
2.43.0


From 8eb733bff6447c2c6f179053dc7c9872b80f9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:28 +0000
Subject: [PATCH 020/103] fix: report unreadable and endlessly recursive
 includes as errors instead of exiting or overflowing the stack

---
 src/parser.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index abd8c0f..a083f5c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use std::{
     collections::{HashMap, VecDeque},
     env,
     fmt::Debug,
-    fs,
+    fs, io,
     path::{Path, PathBuf},
     str::FromStr,
 };
@@ -27,6 +27,10 @@ use crate::{
     utils::{extract_page_ranges, target_and_attrs_from_token},
 };
 
+/// How deeply files can include other files, following asciidoctor; guards against files that
+/// include themselves
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 /// Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph), returning the graph once all
 /// tokens have been parsed.
 #[derive(Debug)]
@@ -582,6 +586,13 @@ impl Parser {
         // calculate target, given that it's relative; if there is something on the stack, use
         // that, else use self.origin
         let resolved_target = self.resolve_target(token.line, &target)?;
+        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
+            return Err(ParserError::InternalError(format!(
+                "maximum include depth exceeded by {target:?}"
+            )));
+        }
+        let included = open_file(resolved_target)
+            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;
         self.file_stack.push(target.clone());
 
         let current_block_stack_len = self.block_stack.len();
@@ -595,8 +606,7 @@ impl Parser {
         }
 
         // now parse the file
-        for result in Scanner::new_with_stack(&open_file(resolved_target), self.file_stack.clone())
-        {
+        for result in Scanner::new_with_stack(&included, self.file_stack.clone()) {
             match result {
                 Ok(token) => {
                     // lines
@@ -1619,15 +1629,10 @@ impl Parser {
     }
 }
 
-fn open_file<P>(filename: P) -> String
+fn open_file<P>(filename: P) -> io::Result<String>
 where
     P: AsRef<Path> + Into<PathBuf> + Debug,
 {
-    match fs::read_to_string(&filename) {
-        Ok(file_string) => file_string,
-        Err(e) => {
-            warn!("Unable to read file {:?}: {e}", filename);
-            std::process::exit(1)
-        }
-    }
+    fs::read_to_string(&filename)
+        .inspect_err(|e| warn!("Unable to read file {:?}: {e}", filename))
 }
-- 
2.43.0


From d7f313304b620b427b43f8c8d190f6f77382ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:11 +0000
Subject: [PATCH 021/103] fix: keep included source code as it is inside
 verbatim blocks

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a083f5c..9956127 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -652,7 +652,12 @@ impl Parser {
                         } else {
                             self.last_token_type = TokenType::Text;
                         }
-                        self.parse_text(token)?;
+                        // verbatim blocks take the text as it is
+                        if self.open_parse_after_as_text_type.is_some() {
+                            self.pass_text_through(token)?;
+                        } else {
+                            self.parse_text(token)?;
+                        }
                     }
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
-- 
2.43.0


From 077236b8bb9833013f6166de39f075e7ac67c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:25 +0000
Subject: [PATCH 022/103] fix: keep the last row of docx tables, and don't
 divide by zero columns

---
 src/backends/docx/document.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 52b7353..f44de3e 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -330,8 +330,9 @@ impl DocxWriter {
             para = self.add_inlines_to_para(para, block.inlines());
             let cell = TableCell::new().add_paragraph(para);
             current_row.push(cell);
-            // see if we need a new row
-            if idx > 0 && (idx + 1) % cols == 0 && idx + 1 != num_cells {
+            // see if the row is complete; if we don't know how many columns there are, take it all
+            // as a single row
+            if idx + 1 == num_cells || (cols > 0 && (idx + 1) % cols == 0) {
                 rows.push(TableRow::new(current_row.clone()));
                 current_row.clear()
             }
-- 
2.43.0


From 8869d270185282f86f2fa8e45654b0f5641415db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:29 +0000
Subject: [PATCH 023/103] fix: apply docx formatting of nested spans to their
 own text only, and keep it for sub- and superscript

---
 src/backends/docx/document.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index f44de3e..f8e2e48 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -2,7 +2,7 @@ use std::{fs::File, io::Read};
 
 use docx_rs::{
     BreakType, Docx, Header, IndentLevel, LineSpacing, Numbering, NumberingId, PageMargin, PageNum,
-    Paragraph, Pic, Run, RunFonts, RunProperty, Style, Table, TableCell, TableRow, VertAlignType,
+    Paragraph, Pic, Run, RunFonts, Style, Table, TableCell, TableRow, VertAlignType,
 };
 use once_cell::sync::Lazy;
 use regex::Regex;
@@ -445,11 +445,11 @@ impl DocxWriter {
                             InlineSpanVariant::Mark => run = run.highlight("yellow"),
                             InlineSpanVariant::Subscript => {
                                 run.run_property =
-                                    RunProperty::new().vert_align(VertAlignType::SubScript)
+                                    run.run_property.vert_align(VertAlignType::SubScript)
                             }
                             InlineSpanVariant::Superscript => {
                                 run.run_property =
-                                    RunProperty::new().vert_align(VertAlignType::SuperScript)
+                                    run.run_property.vert_align(VertAlignType::SuperScript)
                             }
                             InlineSpanVariant::Footnote => {
                                 eprintln!(
@@ -467,6 +467,7 @@ impl DocxWriter {
                 for inline in span.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
+                variants.pop(); // so as not to style what follows the span
             }
             Inline::InlineBreak(_) => {
                 runs.push(Run::new().add_break(BreakType::TextWrapping));
-- 
2.43.0


From b9beaba92db7bddc7b4d5e5559572bd235dc7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:32 +0000
Subject: [PATCH 024/103] fix: report errors reading input and writing output
 instead of panicking, and write docx files only once rendered

---
 src/backends/docx/mod.rs  |  2 +-
 src/bin/asciidocr/cli.rs  |  8 +++++++-
 src/bin/asciidocr/main.rs | 14 ++++++--------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 1ae0ac2..f2bf475 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -15,7 +15,6 @@ use self::document::DocxRenderError;
 
 /// !Experimental! Renders a Docx file. Some [`Asg`] blocks are still unsupported.
 pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
-    let file = File::create(output_path).unwrap();
     let mut writer = document::DocxWriter::new();
     let mut docx = document::asciidocr_default_docx();
 
@@ -32,6 +31,7 @@ pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionErro
     for block in graph.blocks.iter() {
         docx = writer.add_block_to_doc(docx, block)?
     }
+    let file = File::create(output_path).map_err(DocxRenderError::from)?;
     match docx.build().pack(file) {
         Ok(_) => Ok(()),
         Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),
diff --git a/src/bin/asciidocr/cli.rs b/src/bin/asciidocr/cli.rs
index a4f759e..c6cfaff 100644
--- a/src/bin/asciidocr/cli.rs
+++ b/src/bin/asciidocr/cli.rs
@@ -32,7 +32,13 @@ pub struct Cli {
 
 pub fn read_input(args: &Cli) -> String {
     match args.file.as_str() {
-        "-" => io::read_to_string(io::stdin()).expect("Error reading from stdin"),
+        "-" => match io::read_to_string(io::stdin()) {
+            Ok(stdin_string) => stdin_string,
+            Err(e) => {
+                warn!("Unable to read from stdin: {e}");
+                std::process::exit(1)
+            }
+        },
         _ => match fs::read_to_string(args.file.as_str()) {
             Ok(file_string) => file_string,
             Err(e) => {
diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 87af86f..29ada13 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -45,12 +45,10 @@ fn run(args: Cli) -> Result<()> {
 
     match args.backend {
         Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args));
-            Ok(())
+            render_string(render_htmlbook(&graph)?, read_output(args))
         }
         Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args));
-            Ok(())
+            render_string(serde_json::to_string_pretty(&graph)?, read_output(args))
         }
 
         #[cfg(feature = "docx")]
@@ -63,8 +61,7 @@ fn run(args: Cli) -> Result<()> {
             }
 
             if let Some(output_path) = read_output(args) {
-                render_docx(&graph, &output_path).expect("Error rendering docx");
-                Ok(())
+                Ok(render_docx(&graph, &output_path)?)
             } else {
                 eprintln!("Error: can't send docx backend to stdout");
                 std::process::exit(1)
@@ -73,9 +70,10 @@ fn run(args: Cli) -> Result<()> {
     }
 }
 
-fn render_string(result: String, output_destination: Option<PathBuf>) {
+fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
-        Some(out_file) => fs::write(out_file, result).expect("Error writng file"),
+        Some(out_file) => fs::write(out_file, result)?,
         None => println!("{}", result),
     }
+    Ok(())
 }
-- 
2.43.0


From 26e96aa58d0aaa7d7b209b34c6140107a3dd34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:57 +0000
Subject: [PATCH 025/103] fix: log to stderr, so that warnings don't end up in
 documents sent to stdout

---
 src/bin/asciidocr/main.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 29ada13..d9e8c02 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -2,7 +2,6 @@ mod cli;
 
 use anyhow::Result;
 use clap::Parser;
-use simple_logger::SimpleLogger;
 use std::{fs, path::PathBuf};
 
 use asciidocr::{
@@ -16,13 +15,26 @@ use asciidocr::backends::docx::render_docx;
 
 use cli::{Cli, read_input, read_output};
 
+/// Logs to stderr, since stdout may be where the converted document goes
+struct StderrLogger;
+
+impl log::Log for StderrLogger {
+    fn enabled(&self, metadata: &log::Metadata) -> bool {
+        metadata.level() <= log::max_level()
+    }
+
+    fn log(&self, record: &log::Record) {
+        if self.enabled(record.metadata()) {
+            eprintln!("{:<5} [{}] {}", record.level(), record.target(), record.args());
+        }
+    }
+
+    fn flush(&self) {}
+}
+
 fn main() {
-    SimpleLogger::new()
-        .with_level(log::LevelFilter::Warn)
-        .with_colors(true)
-        .without_timestamps()
-        .init()
-        .unwrap();
+    log::set_logger(&StderrLogger).unwrap();
+    log::set_max_level(log::LevelFilter::Warn);
     let args = Cli::parse();
 
     if let Err(e) = run(args) {
-- 
2.43.0


From 39db1a1eb0bbceffae92128eb7ee491918742f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:26 +0000
Subject: [PATCH 026/103] fix: end the styles of docx blocks with the blocks,
 and name the thematic break style consistently

---
 src/backends/docx/document.rs |  3 +++
 src/backends/docx/styles.rs   |  4 ++--
 src/bin/asciidocr/main.rs     | 15 ++++++++-------
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index f8e2e48..5e03bbb 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -101,6 +101,8 @@ impl DocxWriter {
         mut docx: Docx,
         block: &Block,
     ) -> Result<Docx, DocxRenderError> {
+        // what follows the block shouldn't take on its style
+        let surrounding_style = self.current_style.clone();
         match block {
             Block::Section(section) => docx = self.add_section(docx, section)?,
             Block::List(list) => docx = self.add_list(docx, list)?,
@@ -161,6 +163,7 @@ impl DocxWriter {
             Block::NonSectionBlockBody(_) => {} // not implemented by parser
             Block::DiscreteHeading => {} // not implemented by parser
         }
+        self.current_style = surrounding_style;
         Ok(docx)
     }
 
diff --git a/src/backends/docx/styles.rs b/src/backends/docx/styles.rs
index 2fdc4ef..d0c6e72 100644
--- a/src/backends/docx/styles.rs
+++ b/src/backends/docx/styles.rs
@@ -3,7 +3,7 @@ use docx_rs::{
     Style, StyleType, TableCellProperty, TableProperty,
 };
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub enum DocumentStyles {
     Normal,
     NoSpacing,
@@ -40,7 +40,7 @@ impl DocumentStyles {
             DocumentStyles::OrderedListParagraph(id) => format!("NumberedListParagraph_{}", id),
             DocumentStyles::DefinitionTerm => "Definition Term".into(),
             DocumentStyles::Definition => "Definition".into(),
-            DocumentStyles::ThematicBreak => "ThematicBreak".into(),
+            DocumentStyles::ThematicBreak => "Thematic Break".into(),
             DocumentStyles::Table => "Table".into(),
         }
     }
diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index d9e8c02..a8894ad 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -25,7 +25,12 @@ impl log::Log for StderrLogger {
 
     fn log(&self, record: &log::Record) {
         if self.enabled(record.metadata()) {
-            eprintln!("{:<5} [{}] {}", record.level(), record.target(), record.args());
+            eprintln!(
+                "{:<5} [{}] {}",
+                record.level(),
+                record.target(),
+                record.args()
+            );
         }
     }
 
@@ -56,12 +61,8 @@ fn run(args: Cli) -> Result<()> {
     }
 
     match args.backend {
-        Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args))
-        }
-        Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args))
-        }
+        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, read_output(args)),
+        Backends::Json => render_string(serde_json::to_string_pretty(&graph)?, read_output(args)),
 
         #[cfg(feature = "docx")]
         Backends::Docx => {
-- 
2.43.0


From fae07c18b86d94c8bbdf3c913a7faaae1a7a55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:29 +0000
Subject: [PATCH 027/103] fix: define the numberings that docx lists refer to

---
 src/backends/docx/document.rs  | 29 ++++++++++++++---------------
 src/backends/docx/numbering.rs | 10 ++++++++++
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 5e03bbb..3e6928a 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -16,7 +16,7 @@ use crate::graph::{
     lists::{DListItem, List, ListItem, ListVariant},
 };
 
-use super::numbering::add_bullet_abstract_numbering;
+use super::numbering::{add_bullet_abstract_numbering, add_decimal_abstract_numbering};
 use super::styles::DocumentStyles;
 use super::units::{DXA_INCH, inches};
 
@@ -78,8 +78,9 @@ impl DocxWriter {
         DocxWriter {
             page_break_before: false,
             line_break_before: false,
-            abstract_numbering: 0,
-            numbering: 0,
+            // docx_rs always defines the first of each
+            abstract_numbering: 1,
+            numbering: 1,
             current_style: DocumentStyles::Normal,
         }
     }
@@ -168,24 +169,22 @@ impl DocxWriter {
     }
 
     fn add_list(&mut self, mut docx: Docx, list: &List) -> Result<Docx, DocxRenderError> {
+        // every list gets its own numbering, such that ordered lists all start at one
         self.numbering += 1;
-        match list.variant {
+        self.abstract_numbering += 1;
+        let abstract_numbering = match list.variant {
             ListVariant::Ordered | ListVariant::Callout => {
-                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?
+                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?;
+                add_decimal_abstract_numbering(self.abstract_numbering)
             }
             ListVariant::Unordered => {
                 docx = self.set_style(docx, DocumentStyles::ListParagraph)?;
-                if self.abstract_numbering == 0 {
-                    // really only do this once
-                    self.abstract_numbering += 1;
-                    docx = docx
-                        .add_abstract_numbering(add_bullet_abstract_numbering(
-                            self.abstract_numbering,
-                        ))
-                        .add_numbering(Numbering::new(self.numbering, self.abstract_numbering))
-                }
+                add_bullet_abstract_numbering(self.abstract_numbering)
             }
-        }
+        };
+        docx = docx
+            .add_abstract_numbering(abstract_numbering)
+            .add_numbering(Numbering::new(self.numbering, self.abstract_numbering));
         for item in list.items.iter() {
             docx = self.add_block_to_doc(docx, item)?
         }
diff --git a/src/backends/docx/numbering.rs b/src/backends/docx/numbering.rs
index 9759e54..e5903d5 100644
--- a/src/backends/docx/numbering.rs
+++ b/src/backends/docx/numbering.rs
@@ -12,6 +12,16 @@ pub fn add_bullet_abstract_numbering(id: usize) -> AbstractNumbering {
     ))
 }
 
+pub fn add_decimal_abstract_numbering(id: usize) -> AbstractNumbering {
+    AbstractNumbering::new(id).add_level(Level::new(
+        0,
+        Start::new(1),
+        NumberFormat::new("decimal"),
+        LevelText::new("%1."),
+        LevelJc::new("start"),
+    ))
+}
+
 // // Add the concrete numbering instance that references the abstract numbering.
 // // The id (1 in this case) links this specific numbering to the abstract definition.
 // docx = docx.add_numbering(docx_rs::Numbering::new(1, 1));
-- 
2.43.0


From a764fe1c3935d9d7421dfe79fb89e29ff7546991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:32 +0000
Subject: [PATCH 028/103] fix: show the target of docx links and cross
 references without text

---
 src/backends/docx/document.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 3e6928a..326e087 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -12,7 +12,7 @@ use crate::graph::{
         Block, BlockMacro, BlockMacroName, BreakVariant, LeafBlockName, ParentBlock,
         ParentBlockName, Section,
     },
-    inlines::{Inline, InlineSpanVariant},
+    inlines::{Inline, InlineRefVariant, InlineSpanVariant},
     lists::{DListItem, List, ListItem, ListVariant},
 };
 
@@ -416,6 +416,9 @@ impl DocxWriter {
                 for inline in iref.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, &mut variants))
                 }
+                if iref.inlines.is_empty() && !matches!(iref.variant, InlineRefVariant::Image) {
+                    runs.push(Run::new().add_text(&iref.target))
+                }
             }
         }
         runs
@@ -481,6 +484,9 @@ impl DocxWriter {
                 for inline in iref.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
+                if iref.inlines.is_empty() && !matches!(iref.variant, InlineRefVariant::Image) {
+                    runs.push(Run::new().add_text(&iref.target))
+                }
             }
         }
         runs
-- 
2.43.0


From 94ae054183a89e108da3ebc0e9601ce3c5c13f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:05 +0000
Subject: [PATCH 029/103] fix: keep the lines of docx listings, literals, and
 verses

---
 src/backends/docx/document.rs | 36 ++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 326e087..5a76926 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -135,7 +135,12 @@ impl DocxWriter {
                     _ => {}
                 }
                 let mut para = Paragraph::new();
-                para = self.add_inlines_to_para(para, block.inlines());
+                para = match block.name {
+                    LeafBlockName::Verse | LeafBlockName::Listing | LeafBlockName::Literal => {
+                        self.add_lines_to_para(para, block.inlines())
+                    }
+                    _ => self.add_inlines_to_para(para, block.inlines()),
+                };
                 docx = self.add_paragraph(docx, para)?
             }
             Block::ParentBlock(parent) => match parent.name {
@@ -385,6 +390,35 @@ impl DocxWriter {
         para
     }
 
+    /// Adds inlines to a given paragraph, keeping the lines of the text as they are
+    fn add_lines_to_para(&mut self, mut para: Paragraph, inlines: Vec<Inline>) -> Paragraph {
+        for (idx, inline) in inlines.iter().enumerate() {
+            let Inline::InlineLiteral(lit) = inline else {
+                for run in self.runs_from_inline(inline) {
+                    para = para.add_run(run)
+                }
+                continue;
+            };
+            let text = lit.value_or_refd_char();
+            let mut text = text.as_str();
+            // the newlines next to the delimiters
+            if idx == 0 {
+                text = text.strip_prefix('\n').unwrap_or(text);
+            }
+            if idx == inlines.len() - 1 {
+                text = text.strip_suffix('\n').unwrap_or(text);
+            }
+            for (line_num, line) in text.split('\n').enumerate() {
+                let mut run = Run::new();
+                if line_num > 0 {
+                    run = run.add_break(BreakType::TextWrapping);
+                }
+                para = para.add_run(run.add_text(line));
+            }
+        }
+        para
+    }
+
     /// Creates runs from inlines, called from a block
     fn runs_from_inline(&mut self, inline: &Inline) -> Vec<Run> {
         let mut variants: Vec<&InlineSpanVariant> = vec![];
-- 
2.43.0


From 0db7fc8ac1447d18195012d188d2643c289819e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:27 +0000
Subject: [PATCH 030/103] fix: take titles of blocks in sections as the blocks'
 titles, not as text of the section

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9956127..d2cf97b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -468,7 +468,11 @@ impl Parser {
     /// such the parse function is a little complicated.
     fn parse_new_line_char(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // newline exits a title, TK line continuation
-        if self.in_block_line && matches!(self.block_stack.last(), Some(Block::Section(_))) {
+        let in_block_title = self.block_title.as_ref().is_some_and(|title| title.is_empty());
+        if self.in_block_line
+            && !in_block_title
+            && matches!(self.block_stack.last(), Some(Block::Section(_)))
+        {
             self.in_block_line = false;
             self.add_inlines_to_block_stack()?;
             self.force_new_block = true;
@@ -477,7 +481,7 @@ impl Parser {
         self.in_block_line = false;
 
         // if there is an open block title, add the inline stack to the title
-        if self.block_title.as_ref().is_some_and(|title| title.is_empty()) {
+        if in_block_title {
             self.handle_dangling_spans();
             self.block_title = Some(self.inline_stack.drain(..).collect());
             return Ok(());
-- 
2.43.0


From ce2f85b3c9186ac2401b04aab22b93e43657297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:27 +0000
Subject: [PATCH 031/103] fix: take only admonition labels at the start of a
 line, and spelled out, for admonitions

---
 src/scanner/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 11c5dd6..9919d4d 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -219,12 +219,12 @@ impl<'a> Scanner<'a> {
                 if self.starts_new_line() && self.peek() == '[' {
                     self.add_block_anchor()
                 } else if self.starts_attribution_line() {
-                    match self.source.as_bytes()[self.start + 1] as char {
-                        'N' => self.add_token(TokenType::NotePara, true, 0),
-                        'T' => self.add_token(TokenType::TipPara, true, 0),
-                        'I' => self.add_token(TokenType::ImportantPara, true, 0),
-                        'C' => self.add_token(TokenType::CautionPara, true, 0),
-                        'W' => self.add_token(TokenType::WarningPara, true, 0),
+                    match &self.source[self.start..self.current] {
+                        "[NOTE]" => self.add_token(TokenType::NotePara, true, 0),
+                        "[TIP]" => self.add_token(TokenType::TipPara, true, 0),
+                        "[IMPORTANT]" => self.add_token(TokenType::ImportantPara, true, 0),
+                        "[CAUTION]" => self.add_token(TokenType::CautionPara, true, 0),
+                        "[WARNING]" => self.add_token(TokenType::WarningPara, true, 0),
                         _ => self.add_token(TokenType::ElementAttributes, true, 0),
                     }
                 } else if self.peek() == '.' {
@@ -337,7 +337,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'N' => {
-                if self.peeks_ahead(5) == "OTE: " {
+                if self.starts_new_line() && self.peeks_ahead(5) == "OTE: " {
                     self.current += 5;
                     self.add_token(TokenType::NotePara, true, 0)
                 } else {
@@ -345,7 +345,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'T' => {
-                if self.peeks_ahead(4) == "IP: " {
+                if self.starts_new_line() && self.peeks_ahead(4) == "IP: " {
                     self.current += 4;
                     self.add_token(TokenType::TipPara, true, 0)
                 } else {
@@ -353,7 +353,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'I' => {
-                if self.peeks_ahead(10) == "MPORTANT: " {
+                if self.starts_new_line() && self.peeks_ahead(10) == "MPORTANT: " {
                     self.current += 10;
                     self.add_token(TokenType::ImportantPara, true, 0)
                 } else {
@@ -361,7 +361,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'C' => {
-                if self.peeks_ahead(8) == "AUTION: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "AUTION: " {
                     self.current += 8;
                     self.add_token(TokenType::CautionPara, true, 0)
                 } else {
@@ -369,7 +369,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'W' => {
-                if self.peeks_ahead(8) == "ARNING: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "ARNING: " {
                     self.current += 8;
                     self.add_token(TokenType::WarningPara, true, 0)
                 } else {
-- 
2.43.0


From 96f9f51bb8d8df51d77a5abac9f1bd2e2e307dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:49 +0000
Subject: [PATCH 032/103] fix: apply inline styles to their spans only, without
 affecting the surrounding block, and keep brackets that don't style anything

---
 src/parser.rs      | 12 +++++++-----
 src/scanner/mod.rs |  4 ++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d2cf97b..c494e4e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -54,6 +54,8 @@ pub struct Parser {
     block_title: Option<Vec<Inline>>,
     /// holding ground for block metadata, to be applied to the subsequent block
     metadata: Option<ElementMetadata>,
+    /// holding ground for inline metadata, to be applied to the subsequent span
+    inline_metadata: Option<ElementMetadata>,
     /// counts in/out delimited blocks by line reference; allows us to warn/error if they are
     /// unclosed at the end of the document
     open_delimited_block_lines: Vec<usize>,
@@ -119,6 +121,7 @@ impl Parser {
             file_stack: vec![],
             block_title: None,
             metadata: None,
+            inline_metadata: None,
             open_delimited_block_lines: vec![],
             open_delimited_block_idxs: vec![],
             level_offset: 0,
@@ -445,8 +448,7 @@ impl Parser {
         Ok(())
     }
     fn parse_inline_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
-        self.metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
-        self.force_new_block = true;
+        self.inline_metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
         Ok(())
     }
 
@@ -892,6 +894,7 @@ impl Parser {
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
         // handle newline tokens prior to constrained spans
         self.add_dangling_newline();
+        let inline_metadata = self.inline_metadata.take();
         // if there is a span to close, gather anything that came after it (e.g., references); note
         // that spans can't reach outside of an open macro
         let open_macro_idx = self
@@ -918,9 +921,8 @@ impl Parser {
             return Ok(());
         }
         // add any metadata to new inline
-        if self.metadata.is_some() {
-            inline.add_metadata(self.metadata.as_ref().unwrap().clone());
-            self.metadata = None;
+        if let Some(metadata) = inline_metadata {
+            inline.add_metadata(metadata);
         }
         self.in_inline_span = true;
         // nest it inside of the last span, if there's one open
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 9919d4d..a8202ba 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -605,6 +605,10 @@ impl<'a> Scanner<'a> {
             self.current += 1
         }
         self.current += 1; // consume the ']' char
+        if !['*', '_', '`', '+', '^', '~', '#'].contains(&self.peek()) {
+            // there's nothing to style
+            return self.add_text_until_next_markup();
+        }
         self.add_token(TokenType::InlineStyle, true, 0)
     }
 
-- 
2.43.0


From 340616bec7e4d46976652153e8cdddf943db14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:36 +0000
Subject: [PATCH 033/103] fix: keep colons in attribute values, values equal to
 the attribute's name, and underscores in references

---
 src/parser.rs      | 16 ++++++----------
 src/scanner/mod.rs |  4 ++--
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c494e4e..cd15d81 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -395,19 +395,15 @@ impl Parser {
 
     fn parse_attribute(&mut self, token: Token) -> Result<(), ParserError> {
         let binding = token.text();
-        let mut attr_components: Vec<&str> = binding.split_terminator(':').collect();
-        attr_components.remove(0); // throw away initial "" in the list
-        if attr_components.is_empty() {
+        // n.b. the value itself can contain colons
+        let attr_components = binding.strip_prefix(':').and_then(|attr| attr.split_once(':'));
+        let Some((key, value)) = attr_components.filter(|(key, _)| !key.is_empty()) else {
             warn!("Empty attributes list at line: {}", token.line);
             return Ok(());
-        }
-        let key = attr_components.first().unwrap();
+        };
         // values should be trimmed
-        let mut value = attr_components.last().unwrap().trim();
-        if key == &value {
-            value = ""
-        }
-        match *key {
+        let value = value.trim();
+        match key {
             "leveloffset" => self.parse_level_offset(value),
             _ => {
                 self.document_attributes
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index a8202ba..6259c7b 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -394,7 +394,7 @@ impl<'a> Scanner<'a> {
             }
             '{' => {
                 if self.starts_attribute_reference() {
-                    while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end()
+                    while (self.peek().is_alphanumeric() || ['-', '_'].contains(&self.peek())) && !self.is_at_end()
                     {
                         self.current += 1
                     }
@@ -751,7 +751,7 @@ impl<'a> Scanner<'a> {
     /// * only contain word characters and hyphens.
     fn starts_attribute_reference(&mut self) -> bool {
         let current_placeholder = self.current;
-        while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
+        while (self.peek().is_alphanumeric() || ['-', '_'].contains(&self.peek())) && !self.is_at_end() {
             self.current += 1
         }
         let check = self.peek() == '}';
-- 
2.43.0


From cc7c557e76cb23f96e691356b2a8338acbac22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:23 +0000
Subject: [PATCH 034/103] fix: replace symbols and close typographic quotes
 wherever they are in a line

---
 src/scanner/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 6259c7b..5b6c2ff 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -235,14 +235,10 @@ impl<'a> Scanner<'a> {
             }
 
             '`' => {
-                if ["' ", "'\n"].contains(&self.peeks_ahead(2))
-                    || (self.peeks_ahead(2) == "\0" && self.peek() == '\'')
-                {
+                if self.closes_quote('\'') {
                     self.current += 1;
                     self.add_token(TokenType::CloseSingleQuote, true, 0)
-                } else if ["\" ", "\"\n"].contains(&self.peeks_ahead(2))
-                    || (self.peeks_ahead(2) == "\0" && self.peek() == '\"')
-                {
+                } else if self.closes_quote('\"') {
                     self.current += 1;
                     self.add_token(TokenType::CloseDoubleQuote, true, 0)
                 } else {
@@ -642,7 +638,7 @@ impl<'a> Scanner<'a> {
         // Chars: newline, bold, italic, code, super, subscript, footnote, pass, link, end inline macro, definition list marker, highlighted, inline admonition initial chars, inline images
         while ![
             '\n', '*', '_', '`', '^', '~', 'f', 'p', 'h', ']', '[', ':', '#', 'N', 'T', 'I', 'C',
-            'W', '&', '{', '+', 'i', '<', '\'', '\"', '-', 't', 'e',
+            'W', '&', '{', '+', 'i', '<', '\'', '\"', '-', 't', 'e', '(', '=',
         ]
         .contains(&self.peek())
             && !self.is_at_end()
@@ -862,6 +858,12 @@ impl<'a> Scanner<'a> {
         self.peek() == '-' && (after_char.is_alphanumeric() || [' ', '\0'].contains(&after_char))
     }
 
+    /// Checks for the closing of a typographic quote, which is not followed by a word character
+    fn closes_quote(&self, quote: char) -> bool {
+        let mut rest = self.source[self.current..].chars();
+        rest.next() == Some(quote) && !rest.next().is_some_and(|c| c.is_alphanumeric())
+    }
+
     fn is_at_end(&self) -> bool {
         self.current >= self.source.len()
     }
-- 
2.43.0


From 0415308498133aa79eccc95a2cb92bbce92178da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:24 +0000
Subject: [PATCH 035/103] fix: keep hyphens, underscores and percent signs as a
 part of urls

---
 src/scanner/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 5b6c2ff..408c168 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -588,6 +588,15 @@ impl<'a> Scanner<'a> {
                     self.add_link()
                 }
             }
+        } else if ['-', '_', '%', '~', '@', '+'].contains(&self.peek())
+            && self.source[self.current..]
+                .chars()
+                .nth(1)
+                .is_some_and(|c| c.is_alphanumeric())
+        {
+            // allowed, but only within the url
+            self.current += 1;
+            self.add_link()
         } else {
             self.add_token(TokenType::Hyperlink, true, 0)
         }
-- 
2.43.0


From 04f8d871e784817ed31be7fb95a9154b1e2e62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:33 +0000
Subject: [PATCH 036/103] fix: keep all inline markup in document titles, and
 titles of sections that end the document

---
 src/parser.rs         | 34 ++++++++++++++++++++++++----------
 src/scanner/tokens.rs | 18 +++++++++++++++++-
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cd15d81..7e0b041 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,6 +164,10 @@ impl Parser {
             }
         }
 
+        // a title without a newline after it is still a title
+        if self.in_section_title() {
+            self.close_section_title()?;
+        }
         // add any dangling inlines
         self.close_list_items()?;
         self.close_paragraph(&mut asg)?;
@@ -462,24 +466,34 @@ impl Parser {
         Ok(())
     }
 
+    fn in_block_title(&self) -> bool {
+        self.block_title.as_ref().is_some_and(|title| title.is_empty())
+    }
+
+    fn in_section_title(&self) -> bool {
+        self.in_block_line
+            && !self.in_block_title()
+            && matches!(self.block_stack.last(), Some(Block::Section(_)))
+    }
+
+    fn close_section_title(&mut self) -> Result<(), ParserError> {
+        self.in_block_line = false;
+        self.add_inlines_to_block_stack()?;
+        self.force_new_block = true;
+        Ok(())
+    }
+
     /// New line characters are arguably the most significant token "signal" we can get, and as
     /// such the parse function is a little complicated.
     fn parse_new_line_char(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // newline exits a title, TK line continuation
-        let in_block_title = self.block_title.as_ref().is_some_and(|title| title.is_empty());
-        if self.in_block_line
-            && !in_block_title
-            && matches!(self.block_stack.last(), Some(Block::Section(_)))
-        {
-            self.in_block_line = false;
-            self.add_inlines_to_block_stack()?;
-            self.force_new_block = true;
-            return Ok(());
+        if self.in_section_title() {
+            return self.close_section_title();
         }
         self.in_block_line = false;
 
         // if there is an open block title, add the inline stack to the title
-        if in_block_title {
+        if self.in_block_title() {
             self.handle_dangling_spans();
             self.block_title = Some(self.inline_stack.drain(..).collect());
             return Ok(());
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 4ba066c..662e0c1 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -146,7 +146,23 @@ impl Token {
     pub fn can_be_in_document_header(&self) -> bool {
         matches!(
             self.token_type(),
-            TokenType::Heading1 | TokenType::Attribute
+            TokenType::Heading1
+                | TokenType::Attribute
+                | TokenType::Literal
+                | TokenType::UnconstrainedLiteral
+                | TokenType::Superscript
+                | TokenType::Subscript
+                | TokenType::OpenDoubleQuote
+                | TokenType::CloseDoubleQuote
+                | TokenType::OpenSingleQuote
+                | TokenType::CloseSingleQuote
+                | TokenType::AttributeReference
+                | TokenType::CrossReference
+                | TokenType::FootnoteMacro
+                | TokenType::LinkMacro
+                | TokenType::Hyperlink
+                | TokenType::InlineImageMacro
+                | TokenType::PassthroughInlineMacro
         ) || self.is_inline()
     }
 
-- 
2.43.0


From f9f47b0ce30a6192dc2132df53703d81cbdd5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:11 +0000
Subject: [PATCH 037/103] fix: keep first attributes (e.g., alternative texts)
 that merely begin like the name of a block

---
 src/graph/metadata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index e85fe40..35431a5 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -184,8 +184,8 @@ impl ElementMetadata {
                 }
                 Err(_) => {
                     if idx == 0 && attribute.len() >= 2 {
-                        match attribute.get(..2) {
-                            Some("so" | "qu" | "ve") => {
+                        match attribute.as_str() {
+                            "source" | "quote" | "verse" => {
                                 self.declared_type = AttributeType::from_str(attribute);
                                 continue;
                             }
-- 
2.43.0


From b48c35234de63112b9b9b45088876c29792f7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:04 +0000
Subject: [PATCH 038/103] fix: recognize an open block delimiter that ends the
 source

---
 src/scanner/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 408c168..7260a97 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -134,7 +134,9 @@ impl<'a> Scanner<'a> {
                                 // is it a '->'?
                                 self.current += 1;
                                 self.add_token(TokenType::CharRef, false, 0)
-                            } else if self.starts_text_symbol_replace_emdash() {
+                            } else if self.starts_text_symbol_replace_emdash()
+                                && !self.ends_with_open_block_delimiter()
+                            {
                                 self.current += 1;
                                 self.add_token(TokenType::CharRef, false, 0)
                             } else if self.starts_new_line() && self.starts_repeated_char_line(c, 2)
@@ -867,6 +869,11 @@ impl<'a> Scanner<'a> {
         self.peek() == '-' && (after_char.is_alphanumeric() || [' ', '\0'].contains(&after_char))
     }
 
+    /// Checks for a "--" on the very last line of the source, which isn't terminated by a newline
+    fn ends_with_open_block_delimiter(&self) -> bool {
+        self.source[..self.start].ends_with('\n') && &self.source[self.start..] == "--"
+    }
+
     /// Checks for the closing of a typographic quote, which is not followed by a word character
     fn closes_quote(&self, quote: char) -> bool {
         let mut rest = self.source[self.current..].chars();
-- 
2.43.0


From e826f7580e2b4de2f478f6d3267adfb982920e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:04 +0000
Subject: [PATCH 039/103] fix: keep sections out of the blocks that precede
 them

---
 src/graph/asg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index 35e5f7d..e8009aa 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -87,7 +87,7 @@ impl Asg {
         self.document_id_hash.extend(block.id_hashes());
         if block.is_section() {
             if let Some(possible_section) = self.blocks.last_mut() {
-                if possible_section.takes_block_of_type(&block) {
+                if possible_section.is_section() && possible_section.takes_block_of_type(&block) {
                     possible_section.push_block(block)?;
                 } else {
                     self.blocks.push(block);
-- 
2.43.0


From 58f5aec67fb97bdf2cced9c7620fbfef78df031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:31 +0000
Subject: [PATCH 040/103] fix: keep admonition paragraphs together with their
 metadata, nested or attached to list items

---
 src/parser.rs | 61 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7e0b041..d68cbd9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -80,8 +80,6 @@ pub struct Parser {
     /// Temporarily preserves newline characters as separate inline literal tokens (where ambiguous
     /// blocks, i.e., DListItems, may require splitting the inline_stack on the newline)
     preserve_newline_text: bool,
-    /// Some parent elements have non-obvious closing conditions, so we want an easy way to close these
-    close_parent_after_push: bool,
     /// Used to see if we need to add a newline before new text; we don't add newlines to the text
     /// literals unless they're continuous (i.e., we never count newline paras as paras)
     dangling_newline: Option<Token>,
@@ -131,7 +129,6 @@ impl Parser {
             preserve_newline_text: false,
             open_parse_after_as_text_type: None,
             force_new_block: false,
-            close_parent_after_push: false,
             dangling_newline: None,
             resolve_targets: true,
         }
@@ -365,7 +362,7 @@ impl Parser {
             | TokenType::TipPara
             | TokenType::ImportantPara
             | TokenType::CautionPara
-            | TokenType::WarningPara => self.parse_admonition_para_syntax(token),
+            | TokenType::WarningPara => self.parse_admonition_para_syntax(token, asg),
 
             // block continuation... I think does nothing, parser-wise, since it simply prevents
             // the double newline
@@ -868,14 +865,48 @@ impl Parser {
         }
     }
 
-    fn parse_admonition_para_syntax(&mut self, token: Token) -> Result<(), ParserError> {
-        self.block_stack
-            .push(Block::ParentBlock(ParentBlock::new_from_token(token)?));
-        self.close_parent_after_push = true;
+    fn parse_admonition_para_syntax(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        if !self.inline_stack.is_empty() {
+            // labels only start paragraphs, while block attributes end them
+            if !token.lexeme.starts_with('[') {
+                return self.parse_text(token);
+            }
+            self.close_paragraph(asg)?;
+        }
+        let mut admonition = ParentBlock::new_from_token(token)?;
+        admonition.title = self.block_title.take().unwrap_or_default();
+        let mut admonition = Block::ParentBlock(admonition);
+        self.add_metadata_to_block(&mut admonition)?;
+        self.block_stack.push(admonition);
+        Ok(())
+    }
+
+    /// Whether the next block belongs to an admonition, which takes exactly one
+    fn in_open_admonition(&self) -> bool {
+        match self.block_stack.last() {
+            Some(Block::ParentBlock(parent)) => {
+                parent.name == crate::graph::blocks::ParentBlockName::Admonition
+                    && parent.blocks.is_empty()
+            }
+            _ => false,
+        }
+    }
+
+    /// Adds the text of an admonition paragraph that's attached to a list item, if there is one
+    fn close_attached_admonition_para(&mut self) -> Result<(), ParserError> {
+        if self.in_block_continuation() && self.in_open_admonition() {
+            self.dangling_newline = None;
+            self.add_inlines_to_block_stack()?;
+        }
         Ok(())
     }
 
     fn parse_block_continuation(&mut self, token: Token) -> Result<(), ParserError> {
+        self.close_attached_admonition_para()?;
         if !matches!(
             self.block_stack.last(),
             Some(Block::ListItem(_) | Block::DListItem(_))
@@ -1307,13 +1338,11 @@ impl Parser {
             return Err(ParserError::BlockStack);
         };
         block.consolidate_locations();
-        let in_admonition = self.close_parent_after_push
-            && self.block_stack.last().is_some_and(Block::is_admonition);
+        let in_admonition = self.in_open_admonition();
         let in_block_continuation = self.in_block_continuation();
         match self.block_stack.last_mut() {
             Some(admonition) if in_admonition => {
                 admonition.push_block(block)?;
-                self.close_parent_after_push = false;
                 self.close_last_block(asg)?;
             }
             Some(list_item) if in_block_continuation => {
@@ -1463,6 +1492,14 @@ impl Parser {
         }
         para_block.consolidate_locations();
         if self.in_block_continuation() {
+            if self.in_open_admonition() {
+                // the list item takes the admonition, rather than its paragraph
+                if let Some(mut admonition) = self.block_stack.pop() {
+                    admonition.push_block(para_block)?;
+                    admonition.consolidate_locations();
+                    para_block = admonition;
+                }
+            }
             return self.push_block_to_stack(para_block);
         }
 
@@ -1521,6 +1558,7 @@ impl Parser {
     /// Adds the last list item to its list and, if that list is itself inside of a list item, does
     /// the same for the lists around it
     fn close_list_items(&mut self) -> Result<(), ParserError> {
+        self.close_attached_admonition_para()?;
         while let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
             self.add_last_list_item_to_list()?;
             self.add_list_to_list_item()?;
@@ -1534,6 +1572,7 @@ impl Parser {
         &mut self,
         is_same_list: fn(&Block) -> bool,
     ) -> Result<bool, ParserError> {
+        self.close_attached_admonition_para()?;
         let belongs_to_list = self
             .block_stack
             .iter()
-- 
2.43.0


From 82aa14e059d5f92b4de692ae0d6de0bc4f7ce001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:40 +0000
Subject: [PATCH 041/103] fix: make quotes out of [quote] paragraphs inside of
 delimited blocks

---
 src/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d68cbd9..377bbc3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1505,11 +1505,7 @@ impl Parser {
 
         if let Some(ref block_metadata) = self.metadata {
             // check to see if we need to apply metadata to the para block
-            let line_above = para_block.line()? + 1;
-            if self.open_delimited_block_lines.last() == Some(&line_above)
-                || self.open_delimited_block_lines.is_empty()
-                    && block_metadata.declared_type == Some(AttributeType::Quote)
-            {
+            if block_metadata.declared_type == Some(AttributeType::Quote) {
                 let mut quote_block = Block::ParentBlock(ParentBlock::new(
                     crate::graph::blocks::ParentBlockName::Quote,
                     None,
-- 
2.43.0


From 4bec2d5099021ee17ab4d93fa74d96aab242229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:07 +0000
Subject: [PATCH 042/103] fix: keep subsections out of the blocks that precede
 them

---
 src/graph/blocks.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a970215..bca3c39 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -72,7 +72,9 @@ impl Block {
             Block::Section(section) => {
                 if block.is_section() {
                     if let Some(possible_section) = section.blocks.last_mut() {
-                        if possible_section.takes_block_of_type(&block) {
+                        if possible_section.is_section()
+                            && possible_section.takes_block_of_type(&block)
+                        {
                             possible_section.push_block(block)?;
                         } else {
                             section.blocks.push(block);
-- 
2.43.0


From d281ae5e1c898facec834ae15417160591b3addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:28 +0000
Subject: [PATCH 043/103] fix: leave annotated source blocks inside of the
 delimited blocks they are in

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 377bbc3..072af6a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -754,7 +754,7 @@ impl Parser {
                 // check to see if we ought to "close" the source block (almost always)
                 // TODO source blocks should close themselves, I think.
                 if let Some(block) = self.block_stack.last() {
-                    if block.is_source_block() {
+                    if block.is_source_block() && self.open_delimited_block_lines.is_empty() {
                         // we need to add this before we create the new list
                         self.add_last_to_block_stack_or_graph(asg)?;
                     }
-- 
2.43.0


From 05aecabced81bc224fbab58c5740ced8ba076d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:35 +0000
Subject: [PATCH 044/103] fix: recognize description list terms that directly
 follow an attached paragraph

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 072af6a..ca8cccb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -921,6 +921,8 @@ impl Parser {
             self.block_continuations
                 .push(self.open_delimited_block_lines.len());
         }
+        // n.b. the term of another item may follow
+        self.preserve_newline_text = matches!(self.block_stack.last(), Some(Block::DListItem(_)));
         self.force_new_block = true;
         Ok(())
     }
-- 
2.43.0


From 169d30f9ac8ca29a5ec5931def07fd6343e0fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:00 +0000
Subject: [PATCH 045/103] fix: format literals, superscripts and subscripts in
 verses

---
 src/scanner/tokens.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 662e0c1..3323dab 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -138,6 +138,10 @@ impl Token {
             | TokenType::UnconstrainedStrong
             | TokenType::UnconstrainedMonospace
             | TokenType::UnconstrainedMark
+            | TokenType::Literal
+            | TokenType::UnconstrainedLiteral
+            | TokenType::Superscript
+            | TokenType::Subscript
             | TokenType::CharRef
             | TokenType::InlineStyle
             | TokenType::InlineMacroClose)
-- 
2.43.0


From d22d752ee537049f7a337ca84a276fd4eee47c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:15 +0000
Subject: [PATCH 046/103] fix: make quotes out of [quote] paragraphs attached
 to list items

---
 src/parser.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ca8cccb..33cf2ea 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1493,18 +1493,6 @@ impl Parser {
             }
         }
         para_block.consolidate_locations();
-        if self.in_block_continuation() {
-            if self.in_open_admonition() {
-                // the list item takes the admonition, rather than its paragraph
-                if let Some(mut admonition) = self.block_stack.pop() {
-                    admonition.push_block(para_block)?;
-                    admonition.consolidate_locations();
-                    para_block = admonition;
-                }
-            }
-            return self.push_block_to_stack(para_block);
-        }
-
         if let Some(ref block_metadata) = self.metadata {
             // check to see if we need to apply metadata to the para block
             if block_metadata.declared_type == Some(AttributeType::Quote) {
@@ -1516,10 +1504,21 @@ impl Parser {
                     vec![],
                 ));
                 quote_block.push_block(para_block)?;
-                self.push_block_to_stack(quote_block)?;
-                return Ok(());
+                para_block = quote_block;
             }
         }
+        if self.in_block_continuation() {
+            if self.in_open_admonition() {
+                // the list item takes the admonition, rather than its paragraph
+                if let Some(mut admonition) = self.block_stack.pop() {
+                    admonition.push_block(para_block)?;
+                    admonition.consolidate_locations();
+                    para_block = admonition;
+                }
+            }
+            return self.push_block_to_stack(para_block);
+        }
+
         self.push_block_to_stack(para_block)
     }
 
-- 
2.43.0


From 055e54f937a82cff3cabd92009abcc35c85a41a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:45 +0000
Subject: [PATCH 047/103] fix: treat cell markers outside of tables as text

---
 src/parser.rs      | 31 +++++++++++++++++++++++++++++++
 src/scanner/mod.rs |  9 +++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 33cf2ea..b68146c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1261,7 +1261,38 @@ impl Parser {
         self.close_last_block(asg)
     }
 
+    fn in_open_table(&self) -> bool {
+        self.open_delimited_block_idxs
+            .last()
+            .and_then(|idx| self.block_stack.get(*idx))
+            .is_some_and(|block| block.is_table())
+    }
+
+    /// Outside of a table, the "|" isn't markup, but what follows may contain some
+    fn parse_table_cell_as_text(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        let contents = token.text();
+        let location = token.first_location();
+        let mut marker = token;
+        marker.token_type = TokenType::Text;
+        marker.lexeme = "|".to_string();
+        marker.literal = Some("|".to_string());
+        marker.endcol = marker.startcol;
+        self.token_into(marker, asg)?;
+        for result in Scanner::new_mid_line(&contents) {
+            let mut inline_token = result?;
+            if inline_token.token_type() == TokenType::Eof {
+                break;
+            }
+            inline_token.update_token_loc_offsets_by(location.line, location.col - 1);
+            self.token_into(inline_token, asg)?;
+        }
+        Ok(())
+    }
+
     fn parse_table_cell(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        if !self.in_open_table() {
+            return self.parse_table_cell_as_text(token, asg);
+        }
         // take the token text, which begins with a `|`, and then use everything after
         let cell_contents = token.text()[1..].to_string();
         let cell_line = token.first_location().line;
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 7260a97..27b6705 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -50,6 +50,15 @@ impl<'a> Scanner<'a> {
         }
     }
 
+    /// Scans a part of a line, i.e., one whose first character isn't at the start of a line
+    pub(crate) fn new_mid_line(source: &'a str) -> Self {
+        let mut scanner = Scanner::new(source);
+        // the first character is plain text
+        scanner.current = 1;
+        scanner.startcol = 2;
+        scanner
+    }
+
     pub fn new_with_stack(source: &'a str, file_stack: Vec<String>) -> Self {
         Scanner {
             source,
-- 
2.43.0


From 5cba3987447429b02d4dc888c5c04fcb678a20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:16 +0000
Subject: [PATCH 048/103] fix: keep text after a block in a list item apart
 from the text of the item

---
 src/parser.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b68146c..0256cef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1496,8 +1496,13 @@ impl Parser {
             return Ok(());
         }
 
+        let interrupts_list_item = self.interrupts_list_item();
         if let Some(last_block) = self.block_stack.last_mut() {
-            if last_block.takes_inlines() && !self.in_block_line && !self.force_new_block {
+            if last_block.takes_inlines()
+                && !self.in_block_line
+                && !self.force_new_block
+                && !interrupts_list_item
+            {
                 while !self.inline_stack.is_empty() {
                     let inline = self.inline_stack.pop_front().unwrap();
                     last_block.push_inline(inline)?;
@@ -1549,10 +1554,31 @@ impl Parser {
             }
             return self.push_block_to_stack(para_block);
         }
+        if interrupts_list_item {
+            self.add_metadata_to_block(&mut para_block)?;
+            if let Some(list_item) = self.block_stack.last_mut() {
+                list_item.push_block(para_block)?;
+            }
+            return Ok(());
+        }
 
         self.push_block_to_stack(para_block)
     }
 
+    /// Text that follows a block in a list item, or has its own metadata, isn't a part of the text
+    /// the list item begins with
+    fn interrupts_list_item(&self) -> bool {
+        if self.in_block_continuation() {
+            return false;
+        }
+        let (principal, blocks) = match self.block_stack.last() {
+            Some(Block::ListItem(item)) => (&item.principal, &item.blocks),
+            Some(Block::DListItem(item)) => (&item.principal, &item.blocks),
+            _ => return false,
+        };
+        !blocks.is_empty() || (self.metadata.is_some() && !principal.is_empty())
+    }
+
     /// Adds data to an existing ElementMetadata object, or creates one
     fn add_metadata_from_token(&mut self, token: Token) {
         match self.metadata {
-- 
2.43.0


From a1eb97007915281e71d674ec61d0918cba74f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:39 +0000
Subject: [PATCH 049/103] fix: keep headings inside of delimited blocks as text

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0256cef..64423c6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -805,6 +805,10 @@ impl Parser {
     }
 
     fn parse_section_headings(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        // there are no sections inside of delimited blocks
+        if !self.open_delimited_block_lines.is_empty() {
+            return self.parse_text(token);
+        }
         let level = self.get_heading_level(&token)?;
 
         // if the last section is at the same level, we need to push that up, otherwise the
-- 
2.43.0


From 91ace9b16807f154d32b9f85053fb5f68877ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:40 +0000
Subject: [PATCH 050/103] fix: only look for inline markup in table cells

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 64423c6..aa51ecd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1297,8 +1297,9 @@ impl Parser {
         if !self.in_open_table() {
             return self.parse_table_cell_as_text(token, asg);
         }
-        // take the token text, which begins with a `|`, and then use everything after
-        let cell_contents = token.text()[1..].to_string();
+        // take the token text, which begins with a `|`, and then use everything after; cells only
+        // have inlines, so there is nothing special about the start of one
+        let cell_contents = token.text().replacen('|', " ", 1);
         let cell_line = token.first_location().line;
         let cell_col = token.first_location().col;
 
@@ -1306,12 +1307,12 @@ impl Parser {
 
         // create new inlines from the stack, clearing any dangling newlines
         self.dangling_newline = None;
-        for result in Scanner::new(&cell_contents) {
+        for result in Scanner::new_mid_line(&cell_contents) {
             match result {
                 Ok(mut inline_token) => {
                     // update the line numbering for the token to match the table cell mathematically, in
                     // case my vague memory of multi-line cells is correct
-                    inline_token.update_token_loc_offsets_by(cell_line, cell_col);
+                    inline_token.update_token_loc_offsets_by(cell_line, cell_col - 1);
                     self.token_into(inline_token, asg)?;
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
-- 
2.43.0


From 3266c81aee46ff3cb0797e9d43ca394f7fb62212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:29 +0000
Subject: [PATCH 051/103] fix: only treat http and https urls as links

---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 27b6705..e474815 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -308,7 +308,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'h' => {
-                if self.peeks_ahead(3) == "ttp" {
+                if self.peeks_ahead(6) == "ttp://" || self.peeks_ahead(7) == "ttps://" {
                     self.add_link()
                 } else {
                     self.add_text_until_next_markup()
-- 
2.43.0


From ab1f299218cdce34e1963a2fd84369246d760b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:36 +0000
Subject: [PATCH 052/103] fix: keep marks that can't begin or end a span as
 text

---
 src/graph/inlines.rs | 16 +++++++++++
 src/parser.rs        | 65 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ff77d4a..77c3efc 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -189,6 +189,22 @@ impl Inline {
         }
     }
 
+    /// Checks the last character of the text here, or at the end of what's still open here
+    pub fn ends_with_char(&self, check: fn(char) -> bool) -> bool {
+        match self {
+            Inline::InlineLiteral(literal) => literal.is_text() && literal.value.ends_with(check),
+            Inline::InlineSpan(span) if span.open => span
+                .inlines
+                .last()
+                .is_some_and(|inline| inline.ends_with_char(check)),
+            Inline::InlineRef(iref) if iref.open => iref
+                .inlines
+                .last()
+                .is_some_and(|inline| inline.ends_with_char(check)),
+            _ => false,
+        }
+    }
+
     /// Takes apart any spans that were never closed, returning the opening characters to the text
     pub fn resolve_dangling_spans(inlines: Vec<Inline>) -> Vec<Inline> {
         let mut resolved: Vec<Inline> = vec![];
diff --git a/src/parser.rs b/src/parser.rs
index aa51ecd..a68c20b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -281,9 +281,17 @@ impl Parser {
             | TokenType::UnconstrainedMark
             | TokenType::UnconstrainedMonospace
             | TokenType::UnconstrainedLiteral
-            | TokenType::UnconstrainedEmphasis => self.parse_inline_span(Inline::InlineSpan(
-                InlineSpan::inline_span_from_token(token),
-            )),
+            | TokenType::UnconstrainedEmphasis => {
+                let inline = Inline::InlineSpan(InlineSpan::inline_span_from_token(token.clone()));
+                let open_span = self.open_span_idx(&inline).is_some();
+                if (self.can_only_close(&token) && !open_span)
+                    || (self.can_only_open(&token) && open_span)
+                {
+                    // there's nothing to close, or the span is open already, so it's just text
+                    return self.parse_text(token);
+                }
+                self.parse_inline_span(inline)
+            }
 
             // replacements -- done on token.text()
             TokenType::OpenDoubleQuote
@@ -937,24 +945,53 @@ impl Parser {
         self.block_continuations.last() == Some(&self.open_delimited_block_lines.len())
     }
 
-    /// Generic parser for inline spans that close themselves
-    fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
-        // handle newline tokens prior to constrained spans
-        self.add_dangling_newline();
-        let inline_metadata = self.inline_metadata.take();
-        // if there is a span to close, gather anything that came after it (e.g., references); note
-        // that spans can't reach outside of an open macro
+    /// Finds the span that the given one would close; note that spans can't reach outside of an
+    /// open macro
+    fn open_span_idx(&self, inline: &Inline) -> Option<usize> {
         let open_macro_idx = self
             .inline_stack
             .iter()
             .rposition(|inline| inline.is_open_macro())
             .unwrap_or(0);
-        if let Some(open_span_idx) = self
-            .inline_stack
+        self.inline_stack
             .iter()
-            .rposition(|open_span| open_span.has_open_span(&inline))
+            .rposition(|open_span| open_span.has_open_span(inline))
             .filter(|idx| *idx >= open_macro_idx)
-        {
+    }
+
+    /// Constrained marks directly after a word can't begin a span
+    fn can_only_close(&self, token: &Token) -> bool {
+        self.follows_char(token, char::is_alphanumeric) && self.dangling_newline.is_none()
+    }
+
+    /// Constrained marks directly after a space can't end a span
+    fn can_only_open(&self, token: &Token) -> bool {
+        self.follows_char(token, char::is_whitespace)
+    }
+
+    /// Checks the character prior to a constrained mark (super- and subscripts are less strict)
+    fn follows_char(&self, token: &Token, check: fn(char) -> bool) -> bool {
+        matches!(
+            token.token_type(),
+            TokenType::Strong
+                | TokenType::Mark
+                | TokenType::Monospace
+                | TokenType::Literal
+                | TokenType::Emphasis
+        ) && self.inline_metadata.is_none()
+            && self
+                .inline_stack
+                .back()
+                .is_some_and(|inline| inline.ends_with_char(check))
+    }
+
+    /// Generic parser for inline spans that close themselves
+    fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
+        // handle newline tokens prior to constrained spans
+        self.add_dangling_newline();
+        let inline_metadata = self.inline_metadata.take();
+        // if there is a span to close, gather anything that came after it (e.g., references)
+        if let Some(open_span_idx) = self.open_span_idx(&inline) {
             let contents: Vec<Inline> = self.inline_stack.drain(open_span_idx + 1..).collect();
             if let Some(Inline::InlineSpan(open_span)) = self.inline_stack.back_mut() {
                 for content in contents {
-- 
2.43.0


From fe80a910c6186554ee9ce16f8233a7049bffafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:47 +0000
Subject: [PATCH 053/103] fix: end targets of inline images at the end of their
 line

---
 src/scanner/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index e474815..7d36618 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -530,7 +530,8 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
-        if !self.macro_closes_before("\n\n") {
+        // the attributes can continue on the next line, but the target can't
+        if !self.macro_closes_before("\n\n") || self.length_on_line("[").is_none() {
             return self.add_text_until_next_markup();
         }
         while self.peek() != ']' {
-- 
2.43.0


From 9d6fe5d6d5c498f0aebef52f46125439747f36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:47 +0000
Subject: [PATCH 054/103] fix: allow for lines that look like too deep headings
 in verbatim blocks

---
 src/parser.rs         | 3 +++
 src/scanner/mod.rs    | 3 ++-
 src/scanner/tokens.rs | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a68c20b..cfd7eff 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -242,6 +242,9 @@ impl Parser {
             TokenType::Heading3 => self.parse_section_headings(token, asg),
             TokenType::Heading4 => self.parse_section_headings(token, asg),
             TokenType::Heading5 => self.parse_section_headings(token, asg),
+            TokenType::InvalidHeading => {
+                Err(ScannerError::HeadingLevelError(token.line).into())
+            }
 
             // document attributes
             TokenType::Attribute => self.parse_attribute(token),
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 7d36618..880ecc2 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -505,7 +505,8 @@ impl<'a> Scanner<'a> {
             3 => self.add_token(TokenType::Heading3, false, 0),
             4 => self.add_token(TokenType::Heading4, false, 0),
             5 => self.add_token(TokenType::Heading5, false, 0),
-            _ => Err(ScannerError::HeadingLevelError(self.line)),
+            // up to the parser, since it can be text (e.g., in source blocks)
+            _ => self.add_token(TokenType::InvalidHeading, false, 0),
         }
     }
 
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 3323dab..339e4b4 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -258,6 +258,7 @@ pub enum TokenType {
     Heading3,
     Heading4,
     Heading5,
+    InvalidHeading,
 
     NotePara,      // NOTE:
     TipPara,       // TIP:
-- 
2.43.0


From daa366c9c33ccf3621cc4ae20d403c07b17cadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:27 +0000
Subject: [PATCH 055/103] fix: keep the ids of all blocks in html

---
 templates/htmlbook/block.html.tera      | 5 +----
 templates/htmlbook/leafblocks.html.tera | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index d70f7f7..ed8645b 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -63,9 +63,6 @@ this should work.
         {%- if block.metadata.attributes.positional_1 -%}
         {%- set alt_text = block.metadata.attributes.positional_1 -%}
         {%- endif -%}
-        {%- if block.metadata.attributes.id -%}
-        {%- set id = block.metadata.attributes.id -%}
-        {%- endif -%}
     {% elif block.name == "sidebar" -%}
         {%- set tag = "aside" -%}
         {%- set data_type = "sidebar" -%}
@@ -75,7 +72,7 @@ this should work.
         {%- if tag and not skip_tag -%}<{{tag}}
     {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
-    {%- if id %} id="{{ id }}" {%- endif -%}
+    {%- if block.metadata.attributes.id and not block.name=="section" %} id="{{ block.metadata.attributes.id }}" {%- endif -%}
     {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
         {%- if block.title -%}
             {%- if block.name in ["example", "sidebar"]-%}
diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 484293f..fa15aae 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -26,7 +26,7 @@
 {%- if tag -%}<{{tag}}
 {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
 {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
-{%- if id %} id="{{ id }}" {%- endif -%}
+{%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id }}" {%- endif -%}
 {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
     {% if block.inlines %}
     {%- for inline in block.inlines -%}
-- 
2.43.0


From b70381e34c746aea47e05d6db59f30fb59e5b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:39 +0000
Subject: [PATCH 056/103] fix: keep the titles, roles and ids of tables in html

---
 templates/htmlbook/tables.html.tera | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 3f2b3cf..9864e84 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -11,7 +11,14 @@
 {%- set body_start = num_cells -%}
 {%- endif -%}
 {%- endif -%}
-    <table>{% if header %}
+    <table
+    {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
+    {%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id }}" {%- endif -%}>
+    {%- if block.title %}
+    <caption>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}
+    {%- endfor -%}</caption>
+    {% endif -%}
+    {% if header %}
     <thead>
         {% for idx in range(start=0, end=body_start) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
-- 
2.43.0


From 093f34c02d3a12261dba4ce9fe8c3d4a1e7b4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:50 +0000
Subject: [PATCH 057/103] fix: escape the text of listings and literal blocks
 in html

---
 templates/htmlbook/leafblocks.html.tera | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index fa15aae..6c555cc 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -30,7 +30,11 @@
 {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
     {% if block.inlines %}
     {%- for inline in block.inlines -%}
+    {%- if block.name in ["listing", "literal"] and inline.name == "text" -%}
+    {{- inline.value | replace(from="&", to="&amp;") | replace(from="<", to="&lt;") | replace(from=">", to="&gt;") -}}
+    {%- else -%}
     {{- inline_macros::process_inline(inline=inline) -}}
+    {%- endif -%}
     {%- endfor -%}
     {%- endif -%}
 {%- if tag -%}</{{tag}}>{%- endif -%}
-- 
2.43.0


From 92fbb18aa6ca7cfff38940d25df9e9c035a069d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:53 +0000
Subject: [PATCH 058/103] fix: keep the attribution of verses in html

---
 templates/htmlbook/leafblocks.html.tera | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 6c555cc..a501d0a 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -38,4 +38,10 @@
     {%- endfor -%}
     {%- endif -%}
 {%- if tag -%}</{{tag}}>{%- endif -%}
+{%- if block.name == "verse" and block.metadata.attributes.attribution -%}
+    <p data-type="attribution">{{block.metadata.attributes.attribution}}
+        {%- if block.metadata.attributes.citation -%}, {{block.metadata.attributes.citation}}
+        {%- endif -%}
+    </p>
+{%- endif -%}
 {%- endmacro process_leaf_block -%}
-- 
2.43.0


From 0ec4dcdb4d0141867073a722c531df5be2598d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:00 +0000
Subject: [PATCH 059/103] fix: only add table headers to tables that have one
 in html

---
 templates/htmlbook/tables.html.tera | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 9864e84..7b292f8 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -5,7 +5,7 @@
 {%- set num_cells = block.blocks | length -%}
 {%- set body_start = 0 -%}
 {%- if block.metadata and "header" in block.metadata.options -%}
-{%- set header = true -%}
+{%- set has_header = true -%}
 {%- set body_start = cols -%}
 {%- if body_start > num_cells -%}
 {%- set body_start = num_cells -%}
@@ -18,7 +18,7 @@
     <caption>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}
     {%- endfor -%}</caption>
     {% endif -%}
-    {% if header %}
+    {% if has_header %}
     <thead>
         {% for idx in range(start=0, end=body_start) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
@@ -36,7 +36,7 @@
         </tr>
         <tr>{%- endif %}
         {% endfor %}</tr>
-    {%- if header %}
+    {%- if has_header %}
     </tbody>{%- endif %}
     </table>
 {%- endmacro process_table -%}
-- 
2.43.0


From 8cf5ee6394b54d3a49bd97489f0383fa526e7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:04 +0000
Subject: [PATCH 060/103] fix: keep lists and other blocks in admonitions
 intact in html

---
 templates/htmlbook/block.html.tera | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index ed8645b..5a7a530 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -13,6 +13,8 @@ this should work.
 {%- import "tables.html.tera" as table_macros -%}
 {%- macro process_block(block, skip_tag) -%}
 {%- set local_skip_tag = false -%}
+{#- Only the delimited block that makes an admonition goes without its own tag -#}
+{%- set has_tag = not skip_tag or not block.name in ["example", "open", "quote", "sidebar"] -%}
 {#- Handle breaks separately; makes the logic easier -#}
 {%- if block.name in ["paragraph", "listing", "verse", "pass", "literal"] %}
     {{ leaf_block_macros::process_leaf_block(block=block) }}
@@ -69,7 +71,7 @@ this should work.
     {% else %}
     {%- set tag = "UNHANDLED" -%}
     {%- endif %}
-        {%- if tag and not skip_tag -%}<{{tag}}
+        {%- if tag and has_tag -%}<{{tag}}
     {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
     {%- if block.metadata.attributes.id and not block.name=="section" %} id="{{ block.metadata.attributes.id }}" {%- endif -%}
@@ -117,7 +119,7 @@ this should work.
         {%- endif -%}
     </p>
     {%- endif -%}
-    {%- if tag and not skip_tag -%}</{{tag}}>{%- endif -%}
+    {%- if tag and has_tag -%}</{{tag}}>{%- endif -%}
     {% if block.name == "section" %}
     {% if block.blocks -%}
     {% for child_block in block.blocks %}
-- 
2.43.0


From 94ae77f5e9b23073e02fdb5aea2b40a08b12d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:54 +0000
Subject: [PATCH 061/103] fix: number footnotes in titles, captions and
 description list terms

---
 src/graph/blocks.rs | 17 +++++++++++++++++
 src/graph/lists.rs  |  7 ++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index bca3c39..2f86b15 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -391,12 +391,22 @@ impl Block {
         match self {
             // parents
             Block::Section(block) => {
+                extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+                    &mut block.inlines,
+                    footnote_count,
+                    document_id,
+                ));
                 for child in block.blocks.iter_mut() {
                     let count = footnote_count + extracted.len();
                     extracted.extend(child.extract_footnote_definitions(count, document_id)?);
                 }
             }
             Block::ParentBlock(block) => {
+                extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+                    &mut block.title,
+                    footnote_count,
+                    document_id,
+                ));
                 for child in block.blocks.iter_mut() {
                     let count = footnote_count + extracted.len();
                     extracted.extend(child.extract_footnote_definitions(count, document_id)?);
@@ -428,6 +438,13 @@ impl Block {
                     document_id,
                 ));
             }
+            Block::BlockMacro(block) => {
+                extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+                    &mut block.caption,
+                    footnote_count,
+                    document_id,
+                ));
+            }
             Block::TableCell(block) => {
                 extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
                     &mut block.inlines,
diff --git a/src/graph/lists.rs b/src/graph/lists.rs
index 0b23998..2dd0d5b 100644
--- a/src/graph/lists.rs
+++ b/src/graph/lists.rs
@@ -228,10 +228,15 @@ impl DListItem {
     ) -> Result<Vec<Block>, BlockError> {
         let mut extracted: Vec<Block> = Vec::new();
         extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
-            &mut self.principal,
+            &mut self.terms,
             count,
             document_id,
         ));
+        extracted.extend(LeafBlock::extract_footnote_defs_from_inlines(
+            &mut self.principal,
+            count + extracted.len(),
+            document_id,
+        ));
         for child in self.blocks.iter_mut() {
             let count = count + extracted.len();
             extracted.extend(child.extract_footnote_definitions(count, document_id)?);
-- 
2.43.0


From 94dc9fc139c87828986b0631b88075fbb6c32735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:57 +0000
Subject: [PATCH 062/103] fix: don't add an empty footnote container

---
 src/graph/asg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index e8009aa..d120eef 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -135,6 +135,9 @@ impl Asg {
                 block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)?,
             );
         }
+        if footnote_defs.is_empty() {
+            return Ok(());
+        }
         // create a parent block to hold the footnote definitions
         self.push_block(Block::ParentBlock(ParentBlock::new_footnotes_container(
             footnote_defs,
-- 
2.43.0


From 453b63acebbaa118caeb66dbe159ef3156500cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:07 +0000
Subject: [PATCH 063/103] fix: add page breaks before images and tables in docx

---
 src/backends/docx/document.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 5a76926..8965db5 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -86,10 +86,7 @@ impl DocxWriter {
     }
 
     fn add_paragraph(&mut self, docx: Docx, mut para: Paragraph) -> Result<Docx, DocxRenderError> {
-        if self.page_break_before {
-            para = para.page_break_before(true);
-            self.page_break_before = false;
-        }
+        para = self.add_page_break(para);
 
         // set current style
         para = para.style(&self.current_style.style_id());
@@ -97,6 +94,15 @@ impl DocxWriter {
         Ok(docx.add_paragraph(para))
     }
 
+    /// Adds a page break before the paragraph if there's one to add
+    fn add_page_break(&mut self, mut para: Paragraph) -> Paragraph {
+        if self.page_break_before {
+            para = para.page_break_before(true);
+            self.page_break_before = false;
+        }
+        para
+    }
+
     pub fn add_block_to_doc(
         &mut self,
         mut docx: Docx,
@@ -335,6 +341,7 @@ impl DocxWriter {
         for (idx, block) in table.blocks.iter().enumerate() {
             let mut para = Paragraph::new().style(&DocumentStyles::Table.style_id());
             para = self.add_inlines_to_para(para, block.inlines());
+            para = self.add_page_break(para);
             let cell = TableCell::new().add_paragraph(para);
             current_row.push(cell);
             // see if the row is complete; if we don't know how many columns there are, take it all
@@ -357,7 +364,8 @@ impl DocxWriter {
             let mut buf = vec![];
             let _ = img.read_to_end(&mut buf)?;
             let pic = Pic::new(&buf);
-            docx = docx.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic)));
+            let para = self.add_page_break(Paragraph::new().add_run(Run::new().add_image(pic)));
+            docx = docx.add_paragraph(para);
         } else {
             todo!()
         }
-- 
2.43.0


From ec27054aa2de1f5895b05a5d4045493a053b8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:28 +0000
Subject: [PATCH 064/103] fix: keep the formatting of links without text in
 docx

---
 src/backends/docx/document.rs | 57 +++++++++++++++++------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 8965db5..2e3719e 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -480,34 +480,7 @@ impl DocxWriter {
                     literal_text = literal_text.trim_start().into();
                     self.line_break_before = false;
                 }
-                let mut run = Run::new().add_text(literal_text);
-                if !variants.is_empty() {
-                    for variant in variants {
-                        match variant {
-                            InlineSpanVariant::Strong => run = run.bold(),
-                            InlineSpanVariant::Emphasis => run = run.italic(),
-                            InlineSpanVariant::Code => {
-                                run = run.fonts(RunFonts::new().ascii("Courier New"))
-                            }
-                            InlineSpanVariant::Mark => run = run.highlight("yellow"),
-                            InlineSpanVariant::Subscript => {
-                                run.run_property =
-                                    run.run_property.vert_align(VertAlignType::SubScript)
-                            }
-                            InlineSpanVariant::Superscript => {
-                                run.run_property =
-                                    run.run_property.vert_align(VertAlignType::SuperScript)
-                            }
-                            InlineSpanVariant::Footnote => {
-                                eprintln!(
-                                    "Footnotes are not well supported; footnote text will be included in-line and higlighted for the time being."
-                                );
-                                run = run.highlight("blue")
-                            }
-                        }
-                    }
-                }
-                runs.push(run)
+                runs.push(self.styled_run(literal_text, variants))
             }
             Inline::InlineSpan(span) => {
                 variants.push(&span.variant);
@@ -527,10 +500,36 @@ impl DocxWriter {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
                 if iref.inlines.is_empty() && !matches!(iref.variant, InlineRefVariant::Image) {
-                    runs.push(Run::new().add_text(&iref.target))
+                    runs.push(self.styled_run(iref.target.clone(), variants))
                 }
             }
         }
         runs
     }
+
+    /// Creates a run of text that's formatted according to the spans it's in
+    fn styled_run(&self, text: String, variants: &[&InlineSpanVariant]) -> Run {
+        let mut run = Run::new().add_text(text);
+        for variant in variants {
+            match variant {
+                InlineSpanVariant::Strong => run = run.bold(),
+                InlineSpanVariant::Emphasis => run = run.italic(),
+                InlineSpanVariant::Code => run = run.fonts(RunFonts::new().ascii("Courier New")),
+                InlineSpanVariant::Mark => run = run.highlight("yellow"),
+                InlineSpanVariant::Subscript => {
+                    run.run_property = run.run_property.vert_align(VertAlignType::SubScript)
+                }
+                InlineSpanVariant::Superscript => {
+                    run.run_property = run.run_property.vert_align(VertAlignType::SuperScript)
+                }
+                InlineSpanVariant::Footnote => {
+                    eprintln!(
+                        "Footnotes are not well supported; footnote text will be included in-line and higlighted for the time being."
+                    );
+                    run = run.highlight("blue")
+                }
+            }
+        }
+        run
+    }
 }
-- 
2.43.0


From 85b7f4039adcef8ea449d80dd613dfd0b2532b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:51 +0000
Subject: [PATCH 065/103] fix: resolve character references inside of spans in
 docx

---
 src/backends/docx/document.rs |  4 ++--
 src/graph/inlines.rs          | 15 +++++++++++++++
 src/graph/substitutions.rs    |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 2e3719e..777e7ec 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -433,7 +433,7 @@ impl DocxWriter {
         let mut runs: Vec<Run> = vec![];
         match inline {
             Inline::InlineLiteral(lit) => {
-                let mut literal_text = lit.value_or_refd_char();
+                let mut literal_text = lit.value_with_refd_chars();
                 if self.line_break_before {
                     literal_text = literal_text.trim_start().into();
                     self.line_break_before = false;
@@ -475,7 +475,7 @@ impl DocxWriter {
         let mut runs: Vec<Run> = Vec::new();
         match inline {
             Inline::InlineLiteral(lit) => {
-                let mut literal_text = lit.value_or_refd_char().replace("\n", " ");
+                let mut literal_text = lit.value_with_refd_chars().replace("\n", " ");
                 if self.line_break_before {
                     literal_text = literal_text.trim_start().into();
                     self.line_break_before = false;
diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 77c3efc..ab6ee74 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -2,6 +2,8 @@ use core::panic;
 use std::{collections::HashMap, fmt::Display};
 
 use log::warn;
+use once_cell::sync::Lazy;
+use regex::{Captures, Regex};
 use serde::Serialize;
 
 use super::{
@@ -11,6 +13,8 @@ use super::{
 };
 use crate::scanner::tokens::{Token, TokenType};
 
+static RE_CHARREF: Lazy<Regex> = Lazy::new(|| Regex::new(r"&#?\w+;").unwrap());
+
 /// Inlines enum containing literals, spans, and references (the latter not implemented)
 #[derive(Serialize, Clone, Debug)]
 #[serde(untagged)]
@@ -794,6 +798,17 @@ impl InlineLiteral {
             self.value.clone()
         }
     }
+
+    /// Like [`InlineLiteral::value_or_refd_char`], but includes any character references that have
+    /// become a part of the surrounding text, e.g., inside of spans
+    pub fn value_with_refd_chars(&self) -> String {
+        let charrefs = CHARREF_MAP.lock().unwrap();
+        RE_CHARREF
+            .replace_all(&self.value, |found: &Captures| {
+                charrefs.get(&found[0]).copied().unwrap_or(&found[0]).to_string()
+            })
+            .into_owned()
+    }
 }
 
 #[derive(Serialize, Clone, Debug)]
diff --git a/src/graph/substitutions.rs b/src/graph/substitutions.rs
index dfc1fba..276dc00 100644
--- a/src/graph/substitutions.rs
+++ b/src/graph/substitutions.rs
@@ -29,7 +29,7 @@ pub static CHARREF_MAP: Lazy<Mutex<HashMap<String, &'static str>>> = Lazy::new(|
     m.insert(String::from("&#8658;"), "⇒");
     m.insert(String::from("&#8592;"), "←");
     m.insert(String::from("&#8656;"), "⇐");
-    m.insert(String::from("&#sect;"), "§");
+    m.insert(String::from("&sect;"), "§");
     m.insert(String::from("&#167;"), "§");
     m.insert(String::from("&euro;"), "€");
     m.insert(String::from("&#8364;"), "€");
-- 
2.43.0


From dfaa9eac5d3671ad6bb765c30158faa4f457f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:38 +0000
Subject: [PATCH 066/103] fix: allow for windows line endings

---
 src/scanner/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 880ecc2..7dadc6e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -2,6 +2,7 @@
 
 pub mod tokens;
 use core::str;
+use std::borrow::Cow;
 use tokens::{Token, TokenType};
 
 use crate::errors::ScannerError;
@@ -9,7 +10,7 @@ use crate::errors::ScannerError;
 #[derive(Debug)]
 /// Scans an asciidoc `&str` into [`Token`]s to be consumed by the Parser.
 pub struct Scanner<'a> {
-    pub source: &'a str,
+    pub source: Cow<'a, str>,
     start: usize,
     startcol: usize,
     current: usize,
@@ -36,10 +37,18 @@ impl Iterator for Scanner<'_> {
     }
 }
 
+/// Makes sure that all lines end in a "\n" only
+fn normalize_newlines(source: &str) -> Cow<'_, str> {
+    match source.contains("\r\n") {
+        true => Cow::Owned(source.replace("\r\n", "\n")),
+        false => Cow::Borrowed(source),
+    }
+}
+
 impl<'a> Scanner<'a> {
     pub fn new(source: &'a str) -> Self {
         Scanner {
-            source,
+            source: normalize_newlines(source),
             start: 0,    // beginning of the current lexeme being scanned
             startcol: 1, // because asciidoc spec wants start/end locations
             current: 0,  // the character we're looking at *now*
@@ -61,7 +70,7 @@ impl<'a> Scanner<'a> {
 
     pub fn new_with_stack(source: &'a str, file_stack: Vec<String>) -> Self {
         Scanner {
-            source,
+            source: normalize_newlines(source),
             start: 0,    // beginning of the current lexeme being scanned
             startcol: 1, // because asciidoc spec wants start/end locations
             current: 0,  // the character we're looking at *now*
-- 
2.43.0


From ac33eb6d2cfd5342a75997c82e02787498fb09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:00 +0000
Subject: [PATCH 067/103] fix: drop control characters that make docx files
 unreadable

---
 src/backends/docx/document.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 777e7ec..39615eb 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -22,6 +22,14 @@ use super::units::{DXA_INCH, inches};
 
 static RE_WHITESPACE_NEWLINE: Lazy<Regex> = Lazy::new(|| Regex::new(r#"\s*\n"#).unwrap());
 
+/// Drops the control characters that aren't allowed in a docx file
+fn printable(text: &str) -> String {
+    text.chars()
+        .filter(|c| !c.is_control() || matches!(c, '\n' | '\r' | '\t'))
+        .filter(|c| !matches!(c, '\u{fffe}' | '\u{ffff}'))
+        .collect()
+}
+
 pub fn asciidocr_default_docx() -> Docx {
     Docx::new()
         .add_style(DocumentStyles::normal())
@@ -314,7 +322,7 @@ impl DocxWriter {
             if let Some(attribution) = metadata.attributes.get("attribution") {
                 let para = Paragraph::new()
                     .line_spacing(LineSpacing::new().after(480))
-                    .add_run(Run::new().add_text(format!("— {}\n", attribution)));
+                    .add_run(Run::new().add_text(format!("— {}\n", printable(attribution))));
 
                 docx = self.add_paragraph(docx, para)?
             }
@@ -407,7 +415,7 @@ impl DocxWriter {
                 }
                 continue;
             };
-            let text = lit.value_or_refd_char();
+            let text = printable(&lit.value_or_refd_char());
             let mut text = text.as_str();
             // the newlines next to the delimiters
             if idx == 0 {
@@ -433,7 +441,7 @@ impl DocxWriter {
         let mut runs: Vec<Run> = vec![];
         match inline {
             Inline::InlineLiteral(lit) => {
-                let mut literal_text = lit.value_with_refd_chars();
+                let mut literal_text = printable(&lit.value_with_refd_chars());
                 if self.line_break_before {
                     literal_text = literal_text.trim_start().into();
                     self.line_break_before = false;
@@ -459,7 +467,7 @@ impl DocxWriter {
                     runs.extend(self.runs_from_inline_with_variant(inline, &mut variants))
                 }
                 if iref.inlines.is_empty() && !matches!(iref.variant, InlineRefVariant::Image) {
-                    runs.push(Run::new().add_text(&iref.target))
+                    runs.push(Run::new().add_text(printable(&iref.target)))
                 }
             }
         }
@@ -475,7 +483,7 @@ impl DocxWriter {
         let mut runs: Vec<Run> = Vec::new();
         match inline {
             Inline::InlineLiteral(lit) => {
-                let mut literal_text = lit.value_with_refd_chars().replace("\n", " ");
+                let mut literal_text = printable(&lit.value_with_refd_chars()).replace("\n", " ");
                 if self.line_break_before {
                     literal_text = literal_text.trim_start().into();
                     self.line_break_before = false;
@@ -500,7 +508,7 @@ impl DocxWriter {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
                 if iref.inlines.is_empty() && !matches!(iref.variant, InlineRefVariant::Image) {
-                    runs.push(self.styled_run(iref.target.clone(), variants))
+                    runs.push(self.styled_run(printable(&iref.target), variants))
                 }
             }
         }
-- 
2.43.0


From 4e65b22756abc96469dddee647a85d35a8b7212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:26 +0000
Subject: [PATCH 068/103] fix: keep unclosed and adjoining delimited blocks
 inside of their list items

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cfd7eff..d8f0bdc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -169,6 +169,11 @@ impl Parser {
         self.close_list_items()?;
         self.close_paragraph(&mut asg)?;
         // close any dangling delimited blocks
+        if self.open_parse_after_as_text_type.take().is_some() {
+            if let Some(Block::LeafBlock(_)) = self.block_stack.last() {
+                self.close_last_block(&mut asg)?;
+            }
+        }
         while let Some(line) = self.open_delimited_block_lines.last() {
             warn!("Unclosed delimited block, see line {}", line);
             self.close_delimited_block(vec![], &mut asg)?;
@@ -1427,6 +1432,9 @@ impl Parser {
                 list_item.push_block(block)?;
                 self.block_continuations.pop();
             }
+            Some(list_item @ (Block::ListItem(_) | Block::DListItem(_))) => {
+                list_item.push_block(block)?
+            }
             _ if !self.open_delimited_block_lines.is_empty() => self.block_stack.push(block),
             Some(parent) if parent.takes_block_of_type(&block) => parent.push_block(block)?,
             _ => asg.push_block(block)?,
-- 
2.43.0


From a9031d2d0e7691c6e74489da81ac6238294ec583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:37 +0000
Subject: [PATCH 069/103] fix: keep list item text ahead of a delimited block
 as the item's own

---
 src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d8f0bdc..78c7e03 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -780,7 +780,10 @@ impl Parser {
             self.push_list_to_stack(Block::List(list))?;
         }
         // either way, add the new list item
-        self.push_block_to_stack(Block::ListItem(list_item))
+        self.push_block_to_stack(Block::ListItem(list_item))?;
+        // what follows is its text
+        self.force_new_block = false;
+        Ok(())
     }
     //
     fn parse_unordered_list_item(&mut self, token: Token) -> Result<(), ParserError> {
@@ -797,7 +800,10 @@ impl Parser {
             )))?;
         }
         // either way, add the new list item
-        self.push_block_to_stack(Block::ListItem(list_item))
+        self.push_block_to_stack(Block::ListItem(list_item))?;
+        // what follows is its text
+        self.force_new_block = false;
+        Ok(())
     }
 
     //fn parse_block_label(&mut self, token: Token, asg: &mut Asg) {}
-- 
2.43.0


From 0af0d5c92b59a9f8cccbbc824a9dc72ba3507fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:11 +0000
Subject: [PATCH 070/103] fix: find the header row of a table that starts with
 a comment

---
 src/graph/blocks.rs |  4 ++--
 src/parser.rs       | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 2f86b15..f1909fa 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -219,7 +219,7 @@ impl Block {
         }
     }
 
-    pub fn consolidate_table_info(&mut self) -> Result<(), BlockError> {
+    pub fn consolidate_table_info(&mut self, comment_lines: usize) -> Result<(), BlockError> {
         let Block::ParentBlock(table) = self else {
             return Err(BlockError::IncorrectCall);
         };
@@ -238,7 +238,7 @@ impl Block {
                     Err(_) => acc, // shouldn't ever happen
                 });
             // check for an implicit header
-            if cols > 1 && first_cell_line == table.location[0].line + 1 {
+            if cols > 1 && first_cell_line == table.location[0].line + 1 + comment_lines {
                 metadata.options.push("header".to_string());
             }
         }
diff --git a/src/parser.rs b/src/parser.rs
index 78c7e03..d927348 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -83,6 +83,8 @@ pub struct Parser {
     /// Used to see if we need to add a newline before new text; we don't add newlines to the text
     /// literals unless they're continuous (i.e., we never count newline paras as paras)
     dangling_newline: Option<Token>,
+    /// comment lines ahead of the first row of a table
+    table_comment_lines: usize,
     /// Testing helper
     pub resolve_targets: bool,
 }
@@ -130,6 +132,7 @@ impl Parser {
             open_parse_after_as_text_type: None,
             force_new_block: false,
             dangling_newline: None,
+            table_comment_lines: 0,
             resolve_targets: true,
         }
     }
@@ -570,8 +573,11 @@ impl Parser {
     }
 
     // Comments
-    fn parse_comment(&self) -> Result<(), ParserError> {
-        // for now, do nothing
+    fn parse_comment(&mut self) -> Result<(), ParserError> {
+        // for now, do nothing, other than noting that the first row of a table starts further down
+        if self.in_open_table() && self.block_stack.last().is_some_and(Block::is_table) {
+            self.table_comment_lines += 1;
+        }
         Ok(())
     }
 
@@ -1310,7 +1316,8 @@ impl Parser {
             delimited_block.push_block(block)?
         }
         if delimited_block.is_table() {
-            delimited_block.consolidate_table_info()?;
+            delimited_block.consolidate_table_info(self.table_comment_lines)?;
+            self.table_comment_lines = 0;
         }
         self.block_stack.push(delimited_block);
         self.close_last_block(asg)
-- 
2.43.0


From be95a4ed83bb13be60849a738f9444d82c9e1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:11 +0000
Subject: [PATCH 071/103] fix: keep lists in order around includes, without
 adding newlines after them

---
 src/parser.rs         | 22 ++++++++++++++++++----
 src/scanner/tokens.rs |  1 +
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d927348..1660a06 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -703,7 +703,10 @@ impl Parser {
         if self.open_parse_after_as_text_type.is_some() {
             self.add_inlines_to_block_stack()?;
         } else {
-            self.close_list_items()?;
+            // n.b. the include itself may be inside of a list item, which stays open
+            while self.block_stack.len() > current_block_stack_len && self.in_list_item() {
+                self.close_last_list_item()?;
+            }
             self.close_paragraph(asg)?;
         }
 
@@ -1679,13 +1682,24 @@ impl Parser {
     /// the same for the lists around it
     fn close_list_items(&mut self) -> Result<(), ParserError> {
         self.close_attached_admonition_para()?;
-        while let Some(Block::ListItem(_) | Block::DListItem(_)) = self.block_stack.last() {
-            self.add_last_list_item_to_list()?;
-            self.add_list_to_list_item()?;
+        while self.in_list_item() {
+            self.close_last_list_item()?;
         }
         Ok(())
     }
 
+    fn in_list_item(&self) -> bool {
+        matches!(
+            self.block_stack.last(),
+            Some(Block::ListItem(_) | Block::DListItem(_))
+        )
+    }
+
+    fn close_last_list_item(&mut self) -> Result<(), ParserError> {
+        self.add_last_list_item_to_list()?;
+        self.add_list_to_list_item()
+    }
+
     /// Looks for an open list that a new item belongs to, closing the last item of that list as well
     /// as any lists inside of it; otherwise the new item begins a new list inside of the last item
     fn close_list_items_until(
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 339e4b4..73d6edd 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -371,6 +371,7 @@ impl TokenType {
                 | TokenType::BlockImageMacro
                 | TokenType::BlockContinuation
                 | TokenType::DescriptionListMarker
+                | TokenType::Include
         )
     }
 }
-- 
2.43.0


From af912ceb114f07c3e294a3499f8dd82827530a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:48 +0000
Subject: [PATCH 072/103] fix: go on with the outer region after a nested
 tagged region

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1660a06..6327b49 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -587,7 +587,7 @@ impl Parser {
         let mut include_to_end: bool = false;
         let mut included_tags: Vec<String> = vec![];
         let mut asciidoc_include: bool = false;
-        let mut current_tag: Option<String> = None;
+        let mut open_tags: Vec<String> = vec![]; // n.b. tagged regions can be nested
         let level_offset = self.level_offset;
         let mut has_level_offset: bool = false;
 
@@ -659,20 +659,20 @@ impl Parser {
                         if token.token_type() == TokenType::StartTag {
                             if let Some(tag) = token.tag() {
                                 if included_tags.contains(&tag) {
-                                    current_tag = Some(tag);
+                                    open_tags.push(tag);
                                     continue;
                                 }
                             }
                         }
                         if token.token_type() == TokenType::EndTag {
                             if let Some(tag) = token.tag() {
-                                if current_tag == Some(tag) {
-                                    current_tag = None;
+                                if let Some(idx) = open_tags.iter().rposition(|t| *t == tag) {
+                                    open_tags.remove(idx);
                                     continue;
                                 }
                             }
                         }
-                        if current_tag.is_none() {
+                        if open_tags.is_empty() {
                             continue;
                         }
                     }
-- 
2.43.0


From a3c5903295b1c62b2d00a96f711b31f525d2125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:14 +0000
Subject: [PATCH 073/103] fix: leave tag directives out of included text

---
 src/parser.rs | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6327b49..8478c5b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,6 +1,6 @@
 //! Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph)
 use std::{
-    collections::{HashMap, VecDeque},
+    collections::{HashMap, HashSet, VecDeque},
     env,
     fmt::Debug,
     fs, io,
@@ -155,7 +155,11 @@ impl Parser {
         for result in tokens {
             match result {
                 Ok(token) => {
-                    let token_type = token.token_type();
+                    let mut token_type = token.token_type();
+                    if token.tag().is_some() {
+                        // tag directives take up the whole line
+                        token_type = TokenType::NewLineChar;
+                    }
                     self.token_into(token, &mut asg)?;
 
                     self.last_token_type = token_type;
@@ -641,7 +645,16 @@ impl Parser {
         }
 
         // now parse the file
-        for result in Scanner::new_with_stack(&included, self.file_stack.clone()) {
+        let tokens: Vec<Result<Token, ScannerError>> =
+            Scanner::new_with_stack(&included, self.file_stack.clone()).collect();
+        // lines with a tag directive, i.e., including the comment characters around it
+        let directive_lines: HashSet<usize> = tokens
+            .iter()
+            .flatten()
+            .filter(|token| token.tag().is_some())
+            .map(|token| token.line)
+            .collect();
+        for result in tokens {
             match result {
                 Ok(token) => {
                     // lines
@@ -654,27 +667,21 @@ impl Parser {
                             included_lines.clear()
                         }
                     }
-                    // tags
-                    if !included_tags.is_empty() {
-                        if token.token_type() == TokenType::StartTag {
-                            if let Some(tag) = token.tag() {
-                                if included_tags.contains(&tag) {
-                                    open_tags.push(tag);
-                                    continue;
-                                }
-                            }
-                        }
+                    // tags; the directives aren't a part of what's included
+                    if let Some(tag) = token.tag() {
                         if token.token_type() == TokenType::EndTag {
-                            if let Some(tag) = token.tag() {
-                                if let Some(idx) = open_tags.iter().rposition(|t| *t == tag) {
-                                    open_tags.remove(idx);
-                                    continue;
-                                }
+                            if let Some(idx) = open_tags.iter().rposition(|t| *t == tag) {
+                                open_tags.remove(idx);
                             }
+                        } else if included_tags.contains(&tag) {
+                            open_tags.push(tag);
                         }
-                        if open_tags.is_empty() {
-                            continue;
-                        }
+                        continue;
+                    }
+                    if directive_lines.contains(&token.line)
+                        || !included_tags.is_empty() && open_tags.is_empty()
+                    {
+                        continue;
                     }
                     if asciidoc_include {
                         let token_type = token.token_type();
-- 
2.43.0


From 83ae6cc0370a447d5f0eff24bf51f8797cf5c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:30 +0000
Subject: [PATCH 074/103] fix: don't mix the text of a paragraph into a list
 right after it

---
 src/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8478c5b..2c17e5e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -375,6 +375,13 @@ impl Parser {
             TokenType::BlockImageMacro => self.parse_block_image(token, asg),
 
             // lists
+            TokenType::UnorderedListItem
+            | TokenType::OrderedListItem
+            | TokenType::CodeCalloutListItem
+                if self.continues_paragraph() =>
+            {
+                self.parse_text(token)
+            }
             TokenType::UnorderedListItem => self.parse_unordered_list_item(token),
             TokenType::CodeCalloutListItem | // for now, match here (until we need to do more)
             TokenType::OrderedListItem => self.parse_ordered_list_item(token, asg),
@@ -1695,6 +1702,13 @@ impl Parser {
         Ok(())
     }
 
+    /// Lists can't interrupt a paragraph, unless it's a part of another list's item
+    fn continues_paragraph(&self) -> bool {
+        !self.inline_stack.is_empty()
+            && !self.in_list_item()
+            && !(self.in_block_continuation() && self.in_open_admonition())
+    }
+
     fn in_list_item(&self) -> bool {
         matches!(
             self.block_stack.last(),
-- 
2.43.0


From de2ae4c26edb40b68f600d1d97d3bd9d23a51ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:24 +0000
Subject: [PATCH 075/103] fix: don't mix paragraphs with headings and
 attributes right after them

---
 src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2c17e5e..d001df1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -425,6 +425,10 @@ impl Parser {
     }
 
     fn parse_attribute(&mut self, token: Token) -> Result<(), ParserError> {
+        // attributes can't interrupt a paragraph
+        if self.document_header.is_none() && !self.inline_stack.is_empty() {
+            return self.parse_text(token);
+        }
         let binding = token.text();
         // n.b. the value itself can contain colons
         let attr_components = binding.strip_prefix(':').and_then(|attr| attr.split_once(':'));
@@ -551,7 +555,7 @@ impl Parser {
                     self.close_last_block(asg)?;
                 }
             }
-        } else if self.last_token_type.clears_newline_after() {
+        } else if self.last_token_type.clears_newline_after() && self.inline_stack.is_empty() {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
         } else if self.last_token_type != TokenType::Comment {
@@ -850,11 +854,16 @@ impl Parser {
     }
 
     fn parse_section_headings(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
-        // there are no sections inside of delimited blocks
-        if !self.open_delimited_block_lines.is_empty() {
+        // there are no sections inside of delimited blocks, or of paragraphs
+        if !self.open_delimited_block_lines.is_empty() || !self.inline_stack.is_empty() {
             return self.parse_text(token);
         }
         let level = self.get_heading_level(&token)?;
+        // nor inside of lists
+        self.close_list_items()?;
+        if let Some(Block::List(_) | Block::DList(_)) = self.block_stack.last() {
+            self.close_last_block(asg)?;
+        }
 
         // if the last section is at the same level, we need to push that up, otherwise the
         // accordion effect gets screwy with section levels
-- 
2.43.0


From 23af3d836fe9099b8808d9f015069b47fd2057bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:17 +0000
Subject: [PATCH 076/103] fix: keep text on the lines after a table cell in
 that cell

---
 src/graph/blocks.rs |  8 ++++++--
 src/parser.rs       | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index f1909fa..832e110 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1296,15 +1296,19 @@ impl PartialEq for TableCell {
 }
 
 impl TableCell {
-    pub fn new_from_token(token: Token) -> Self {
+    pub fn new(location: Vec<Location>) -> Self {
         TableCell {
             name: "tableCell".to_string(),
             node_type: NodeTypes::Block,
             inlines: vec![],
             metadata: None,
-            location: token.locations(),
+            location,
         }
     }
+
+    pub fn new_from_token(token: Token) -> Self {
+        TableCell::new(token.locations())
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser.rs b/src/parser.rs
index d001df1..2fd199d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -274,6 +274,9 @@ impl Parser {
                 self.dangling_newline = None;
                 Ok(())
             }
+            TokenType::BlockAnchor | TokenType::ElementAttributes if self.in_table_cell() => {
+                self.parse_text(token)
+            }
             TokenType::BlockAnchor | TokenType::ElementAttributes => {
                 self.parse_block_element_attributes(token, asg)
             }
@@ -548,6 +551,10 @@ impl Parser {
                 // clear out any inlines
                 self.in_inline_span = false;
                 self.close_paragraph(asg)?;
+                // only another cell ends a table cell
+                if self.in_table_cell() {
+                    self.dangling_newline = Some(token);
+                }
                 // and then force a new block hereafter
                 self.force_new_block = true;
                 // close any list, unless there is a block (e.g., a section) that's still open
@@ -555,7 +562,10 @@ impl Parser {
                     self.close_last_block(asg)?;
                 }
             }
-        } else if self.last_token_type.clears_newline_after() && self.inline_stack.is_empty() {
+        } else if self.last_token_type.clears_newline_after()
+            && self.inline_stack.is_empty()
+            && !self.in_table_cell()
+        {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
         } else if self.last_token_type != TokenType::Comment {
@@ -1356,6 +1366,10 @@ impl Parser {
             .is_some_and(|block| block.is_table())
     }
 
+    fn in_table_cell(&self) -> bool {
+        matches!(self.block_stack.last(), Some(Block::TableCell(_)))
+    }
+
     /// Outside of a table, the "|" isn't markup, but what follows may contain some
     fn parse_table_cell_as_text(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let contents = token.text();
@@ -1387,6 +1401,9 @@ impl Parser {
         let cell_line = token.first_location().line;
         let cell_col = token.first_location().col;
 
+        // whatever came before belongs to the cell before
+        self.force_new_block = false;
+        self.add_inlines_to_block_stack()?;
         self.push_block_to_stack(Block::TableCell(TableCell::new_from_token(token)))?;
 
         // create new inlines from the stack, clearing any dangling newlines
@@ -1588,17 +1605,27 @@ impl Parser {
             return Ok(());
         }
 
+        // tables only contain cells
+        if self.in_open_table() && self.block_stack.last().is_some_and(Block::is_table) {
+            let cell_locations = self.inline_stack[0].locations();
+            self.push_block_to_stack(Block::TableCell(TableCell::new(cell_locations)))?;
+        }
+
         let interrupts_list_item = self.interrupts_list_item();
+        let in_table_cell = self.in_table_cell();
         if let Some(last_block) = self.block_stack.last_mut() {
             if last_block.takes_inlines()
                 && !self.in_block_line
-                && !self.force_new_block
+                && (!self.force_new_block || in_table_cell)
                 && !interrupts_list_item
             {
                 while !self.inline_stack.is_empty() {
                     let inline = self.inline_stack.pop_front().unwrap();
                     last_block.push_inline(inline)?;
                 }
+                if in_table_cell {
+                    last_block.consolidate_locations();
+                }
                 return Ok(());
             }
         }
@@ -1711,11 +1738,12 @@ impl Parser {
         Ok(())
     }
 
-    /// Lists can't interrupt a paragraph, unless it's a part of another list's item
+    /// Lists can't interrupt a paragraph, unless it's a part of another list's item, or a table cell
     fn continues_paragraph(&self) -> bool {
-        !self.inline_stack.is_empty()
-            && !self.in_list_item()
-            && !(self.in_block_continuation() && self.in_open_admonition())
+        if self.inline_stack.is_empty() {
+            return self.in_table_cell();
+        }
+        !self.in_list_item() && !(self.in_block_continuation() && self.in_open_admonition())
     }
 
     fn in_list_item(&self) -> bool {
-- 
2.43.0


From 75bbae0a2426836098eac74afae1a7df86830e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:56 +0000
Subject: [PATCH 077/103] fix: include to the end of the file wherever an open
 line range is listed

---
 src/parser.rs | 28 +++++++++++++---------------
 src/utils.rs  |  5 ++---
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2fd199d..53776fc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -609,7 +609,7 @@ impl Parser {
     fn parse_include(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // placeholders
         let mut included_lines: Vec<i32> = vec![];
-        let mut include_to_end: bool = false;
+        let mut include_to_end_from: Option<i32> = None;
         let mut included_tags: Vec<String> = vec![];
         let mut asciidoc_include: bool = false;
         let mut open_tags: Vec<String> = vec![]; // n.b. tagged regions can be nested
@@ -628,12 +628,12 @@ impl Parser {
             }
             if let Some(value) = metadata.attributes.get("lines") {
                 included_lines = extract_page_ranges(value);
-                if let Some(line) = included_lines.last() {
-                    if *line == -1 {
-                        include_to_end = true;
-                        included_lines.pop();
-                    }
-                }
+                // a line followed by -1 begins a range without an end
+                include_to_end_from = included_lines
+                    .windows(2)
+                    .filter(|lines| lines[1] == -1)
+                    .map(|lines| lines[0])
+                    .min();
             }
             if let Some(value) = metadata.attributes.get("tag") {
                 included_tags.push(value.clone());
@@ -679,14 +679,12 @@ impl Parser {
             match result {
                 Ok(token) => {
                     // lines
-                    if !included_lines.is_empty() {
-                        if !included_lines.contains(&(token.line as i32)) {
-                            continue;
-                        } else if include_to_end
-                            && &(token.line as i32) >= included_lines.last().unwrap()
-                        {
-                            included_lines.clear()
-                        }
+                    let line = token.line as i32;
+                    if !included_lines.is_empty()
+                        && !included_lines.contains(&line)
+                        && include_to_end_from.is_none_or(|start| line < start)
+                    {
+                        continue;
                     }
                     // tags; the directives aren't a part of what's included
                     if let Some(tag) = token.tag() {
diff --git a/src/utils.rs b/src/utils.rs
index adac8b7..e5cd062 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -74,8 +74,7 @@ pub fn target_and_attrs_from_token(token: &Token) -> (String, Option<ElementMeta
 pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
     let mut ranges: Vec<i32> = vec![];
 
-    let mut captured_ranges = RE_LINE_RANGES.captures_iter(ranges_str).peekable();
-    while let Some(range) = captured_ranges.next() {
+    for range in RE_LINE_RANGES.captures_iter(ranges_str) {
         let (range_str, [_]) = range.extract();
         let parts: Vec<&str> = range_str.split("..").collect();
         if !parts.is_empty() {
@@ -91,7 +90,7 @@ pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
                         end += 1; // because we want an inclusive range 
                         ranges.extend(start..end)
                     }
-                } else if captured_ranges.peek().is_none() {
+                } else if parts[1].is_empty() {
                     ranges.push(start);
                     ranges.push(-1); // signals that we read to the end
                 }
-- 
2.43.0


From 810a4da7ee6b3e2cf6ec453f9860ad32fc51ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:53 +0000
Subject: [PATCH 078/103] fix: keep titles at the end of included files, and
 the file of what's in table cells

---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 53776fc..cc17f71 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -725,6 +725,10 @@ impl Parser {
             }
         }
 
+        // a title without a newline after it is still a title
+        if self.in_section_title() {
+            self.close_section_title()?;
+        }
         // clean up inlines
         if self.open_parse_after_as_text_type.is_some() {
             self.add_inlines_to_block_stack()?;
@@ -1384,6 +1388,7 @@ impl Parser {
                 break;
             }
             inline_token.update_token_loc_offsets_by(location.line, location.col - 1);
+            inline_token.file_stack = location.file.clone();
             self.token_into(inline_token, asg)?;
         }
         Ok(())
@@ -1398,6 +1403,7 @@ impl Parser {
         let cell_contents = token.text().replacen('|', " ", 1);
         let cell_line = token.first_location().line;
         let cell_col = token.first_location().col;
+        let cell_file_stack = token.first_location().file;
 
         // whatever came before belongs to the cell before
         self.force_new_block = false;
@@ -1412,6 +1418,7 @@ impl Parser {
                     // update the line numbering for the token to match the table cell mathematically, in
                     // case my vague memory of multi-line cells is correct
                     inline_token.update_token_loc_offsets_by(cell_line, cell_col - 1);
+                    inline_token.file_stack = cell_file_stack.clone();
                     self.token_into(inline_token, asg)?;
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
-- 
2.43.0


From 14e1dfb6b4108c2742826dfd8b4d1d3d31708e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:59 +0000
Subject: [PATCH 079/103] fix: give cross references in document titles and
 image captions their text

---
 src/graph/asg.rs    | 5 +++++
 src/graph/blocks.rs | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index d120eef..b6fcac4 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -117,6 +117,11 @@ impl Asg {
     /// the relevant text is displayed as a part of the link; if the xref is missing or not a
     /// title, notify the user
     fn consolidate_xrefs(&mut self) {
+        if let Some(header) = &mut self.header {
+            for inline in header.title.iter_mut() {
+                inline.attempt_xref_standardization(&self.document_id_hash);
+            }
+        }
         for block in self.blocks.iter_mut() {
             for inline in block.inlines_mut() {
                 // easier to push the matching down to the Inline enum
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 832e110..e1bfaf9 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -372,6 +372,7 @@ impl Block {
             }
             Block::LeafBlock(block) => inlines.extend(block.inlines.iter_mut()),
             Block::TableCell(block) => inlines.extend(block.inlines.iter_mut()),
+            Block::BlockMacro(block) => inlines.extend(block.caption.iter_mut()),
             _ => {} // remaining blocks don't have inlines
         }
 
-- 
2.43.0


From 9b54e7e8666209c702db516ff87c3390a691e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:59 +0000
Subject: [PATCH 080/103] fix: let spans end with a reference to an empty
 attribute

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cc17f71..88ac244 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1024,7 +1024,9 @@ impl Parser {
 
     /// Constrained marks directly after a space can't end a span
     fn can_only_open(&self, token: &Token) -> bool {
-        self.follows_char(token, char::is_whitespace)
+        // n.b. what the source has there is a reference, even if its value is empty
+        self.last_token_type != TokenType::AttributeReference
+            && self.follows_char(token, char::is_whitespace)
     }
 
     /// Checks the character prior to a constrained mark (super- and subscripts are less strict)
@@ -1389,7 +1391,9 @@ impl Parser {
             }
             inline_token.update_token_loc_offsets_by(location.line, location.col - 1);
             inline_token.file_stack = location.file.clone();
+            let token_type = inline_token.token_type();
             self.token_into(inline_token, asg)?;
+            self.last_token_type = token_type;
         }
         Ok(())
     }
@@ -1419,7 +1423,9 @@ impl Parser {
                     // case my vague memory of multi-line cells is correct
                     inline_token.update_token_loc_offsets_by(cell_line, cell_col - 1);
                     inline_token.file_stack = cell_file_stack.clone();
+                    let token_type = inline_token.token_type();
                     self.token_into(inline_token, asg)?;
+                    self.last_token_type = token_type;
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
             }
-- 
2.43.0


From b4711f81efc852e930dc4d5e571194ac5829c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:22 +0000
Subject: [PATCH 081/103] fix: refuse to overwrite the input with the output

---
 src/bin/asciidocr/cli.rs  |  6 +++---
 src/bin/asciidocr/main.rs | 26 +++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/bin/asciidocr/cli.rs b/src/bin/asciidocr/cli.rs
index c6cfaff..f159857 100644
--- a/src/bin/asciidocr/cli.rs
+++ b/src/bin/asciidocr/cli.rs
@@ -49,9 +49,9 @@ pub fn read_input(args: &Cli) -> String {
     }
 }
 
-pub fn read_output(args: Cli) -> Option<PathBuf> {
-    match args.output {
-        Some(ref output) => {
+pub fn read_output(args: &Cli) -> Option<PathBuf> {
+    match &args.output {
+        Some(output) => {
             if output == "-" {
                 None
             } else {
diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index a8894ad..33ae692 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -1,8 +1,11 @@
 mod cli;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 use clap::Parser;
-use std::{fs, path::PathBuf};
+use std::{
+    fs,
+    path::{Path, PathBuf},
+};
 
 use asciidocr::{
     backends::{Backends, htmls::render_htmlbook},
@@ -56,13 +59,19 @@ fn run(args: Cli) -> Result<()> {
             AdocParser::new(PathBuf::from(&args.file)).parse(Scanner::new(&read_input(&args)))?
         }
     };
+    let output = read_output(&args);
+    if let Some(output_path) = &output {
+        if args.file != "-" && is_same_file(output_path, Path::new(&args.file)) {
+            return Err(anyhow!("the output would overwrite {}", args.file));
+        }
+    }
     if args.count {
         println!("{} words in {}", graph.word_count(), args.file)
     }
 
     match args.backend {
-        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, read_output(args)),
-        Backends::Json => render_string(serde_json::to_string_pretty(&graph)?, read_output(args)),
+        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, output),
+        Backends::Json => render_string(serde_json::to_string_pretty(&graph)?, output),
 
         #[cfg(feature = "docx")]
         Backends::Docx => {
@@ -73,7 +82,7 @@ fn run(args: Cli) -> Result<()> {
                 std::process::exit(1)
             }
 
-            if let Some(output_path) = read_output(args) {
+            if let Some(output_path) = output {
                 Ok(render_docx(&graph, &output_path)?)
             } else {
                 eprintln!("Error: can't send docx backend to stdout");
@@ -83,6 +92,13 @@ fn run(args: Cli) -> Result<()> {
     }
 }
 
+fn is_same_file(a: &Path, b: &Path) -> bool {
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false,
+    }
+}
+
 fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
         Some(out_file) => fs::write(out_file, result)?,
-- 
2.43.0


From 6815bfade5ca561ba7311f7b3b3df6f462800cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:51 +0000
Subject: [PATCH 082/103] fix: don't take the end of the source as verbatim
 text

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 88ac244..8a8c448 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -200,7 +200,12 @@ impl Parser {
             self.check_and_move_header(asg)?;
         }
 
-        if let Some(token_type) = self.open_parse_after_as_text_type {
+        // n.b. the end of the source isn't text
+        let open_as_text_type = match token.token_type() {
+            TokenType::Eof => None,
+            _ => self.open_parse_after_as_text_type,
+        };
+        if let Some(token_type) = open_as_text_type {
             match token_type {
                 TokenType::QuoteVerseBlock => {
                     if token.token_type() == TokenType::QuoteVerseBlock || token.is_inline() {
-- 
2.43.0


From c481550035774b01de1641ae5dbb3cbde283555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:15 +0000
Subject: [PATCH 083/103] fix: close admonitions without content ahead of
 sections and the ends of blocks

---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8a8c448..a4cf343 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -876,7 +876,8 @@ impl Parser {
             return self.parse_text(token);
         }
         let level = self.get_heading_level(&token)?;
-        // nor inside of lists
+        // nor inside of admonitions, or lists
+        self.close_empty_admonition(asg)?;
         self.close_list_items()?;
         if let Some(Block::List(_) | Block::DList(_)) = self.block_stack.last() {
             self.close_last_block(asg)?;
@@ -971,6 +972,14 @@ impl Parser {
         }
     }
 
+    /// Closes an admonition that nothing else can belong to
+    fn close_empty_admonition(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        if self.inline_stack.is_empty() && self.in_open_admonition() {
+            self.close_last_block(asg)?;
+        }
+        Ok(())
+    }
+
     /// Adds the text of an admonition paragraph that's attached to a list item, if there is one
     fn close_attached_admonition_para(&mut self) -> Result<(), ParserError> {
         if self.in_block_continuation() && self.in_open_admonition() {
@@ -1336,6 +1345,7 @@ impl Parser {
         asg: &mut Asg,
     ) -> Result<(), ParserError> {
         // close any dangling inlines BEFORE opening the delimited block lines
+        self.close_empty_admonition(asg)?;
         self.close_list_items()?;
         self.close_paragraph(asg)?;
         self.preserve_newline_text = false;
-- 
2.43.0


From 174ce635cac402c85b7ae267f5bfd7c2808fb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:55 +0000
Subject: [PATCH 084/103] fix: keep a paragraph ahead of the description list
 that follows it

---
 src/parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a4cf343..6acbc9e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -393,7 +393,7 @@ impl Parser {
             TokenType::UnorderedListItem => self.parse_unordered_list_item(token),
             TokenType::CodeCalloutListItem | // for now, match here (until we need to do more)
             TokenType::OrderedListItem => self.parse_ordered_list_item(token, asg),
-            TokenType::DescriptionListMarker => self.parse_description_list_term(token),
+            TokenType::DescriptionListMarker => self.parse_description_list_term(token, asg),
 
             // inline admonitions
             TokenType::NotePara
@@ -762,7 +762,11 @@ impl Parser {
 
     /// Gathers preceding inlines into the "terms" attribute on DListItem, then adds what follows
     /// as you would for a normal list
-    fn parse_description_list_term(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_description_list_term(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
         // create the list item
         let mut dlist_item = DListItem::new_from_token(token);
         // ensure we're not forcing a new block, given that all sorts of things can follow
@@ -779,8 +783,15 @@ impl Parser {
             // remove the newline, since we don't care about that anymore
             next_terms.pop_front();
             // add the other inlines
-            self.force_new_block = self.in_block_continuation();
-            self.add_inlines_to_block_stack()?;
+            if self.in_list_item() || self.in_block_continuation() {
+                self.force_new_block = self.in_block_continuation();
+                self.add_inlines_to_block_stack()?;
+            } else {
+                // there isn't any item, so they're a paragraph
+                self.force_new_block = true;
+                self.close_paragraph(asg)?;
+                self.force_new_block = false;
+            }
             // then add the next terms back
             self.inline_stack.append(&mut next_terms);
         }
-- 
2.43.0


From edb449a7ea74c9c44d11b54a4f7310daad33df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:19 +0000
Subject: [PATCH 085/103] fix: give sections without any title or blocks an end
 location

---
 src/graph/blocks.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index e1bfaf9..61da799 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -811,7 +811,8 @@ impl Section {
             metadata: None,
             level,
             blocks: vec![],
-            location: vec![first_location],
+            // the end is consolidated later
+            location: vec![first_location.clone(), first_location],
         }
     }
 
-- 
2.43.0


From 88d2151e32d2655c27597a9745574bda5fd31e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:19 +0000
Subject: [PATCH 086/103] fix: include the text of links that aren't closed in
 their locations

---
 src/graph/inlines.rs | 1 +
 src/parser.rs        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ab6ee74..5338ddf 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -680,6 +680,7 @@ impl InlineRef {
     }
 
     fn text_from_token(&mut self, token: Token, pass: bool) {
+        self.location = Location::reconcile(self.location.clone(), token.locations());
         let inline_literal = Inline::InlineLiteral(match pass {
             true => InlineLiteral::new_text_from_token_pass(&token),
             false => InlineLiteral::new_text_from_token(&token),
diff --git a/src/parser.rs b/src/parser.rs
index 6acbc9e..aca3157 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1276,7 +1276,8 @@ impl Parser {
                 }
                 Inline::InlineRef(inline_ref) => {
                     if inline_ref.open {
-                        inline_ref.inlines.push(inline_literal);
+                        last_inline.reconcile_locations(inline_literal.locations());
+                        last_inline.push_inline(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
                     }
-- 
2.43.0


From 4db3f4e5595bc7b89ea2de83b0cf7cdc4a9da440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:19 +0000
Subject: [PATCH 087/103] fix: end the locations of inline images on their last
 line

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index aca3157..55ae64f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1142,11 +1142,15 @@ impl Parser {
         let (target, metadata) = target_and_attrs_from_token(&token);
         self.check_target(token.line, &target)?;
         self.add_dangling_newline();
+        let mut locations = token.locations();
+        // the macro can include newlines
+        if let (Some(newline_idx), Some(end)) = (token.lexeme.rfind('\n'), locations.last_mut()) {
+            end.line += token.lexeme.matches('\n').count();
+            end.col = token.lexeme.len() - newline_idx - 1;
+        }
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
-                target,
-                metadata,
-                token.locations(),
+                target, metadata, locations,
             )));
         Ok(())
     }
-- 
2.43.0


From e3e651b27702edf8d8e8378d1a7685ec15687acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:47 +0000
Subject: [PATCH 088/103] fix: close lists inside of admonitions at the end of
 a delimited block

---
 src/graph/blocks.rs | 10 ++++++++++
 src/parser.rs       | 17 ++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 61da799..c05bfdc 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -203,6 +203,16 @@ impl Block {
         matches!(self, Block::DListItem(_))
     }
 
+    /// Whether it's an admonition still without its block
+    pub fn is_open_admonition(&self) -> bool {
+        match self {
+            Block::ParentBlock(block) => {
+                block.name == ParentBlockName::Admonition && block.blocks.is_empty()
+            }
+            _ => false,
+        }
+    }
+
     pub fn is_table(&self) -> bool {
         if let Block::ParentBlock(parent_block) = self {
             parent_block.name == ParentBlockName::Table
diff --git a/src/parser.rs b/src/parser.rs
index 55ae64f..0994578 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -974,11 +974,13 @@ impl Parser {
 
     /// Whether the next block belongs to an admonition, which takes exactly one
     fn in_open_admonition(&self) -> bool {
-        match self.block_stack.last() {
-            Some(Block::ParentBlock(parent)) => {
-                parent.name == crate::graph::blocks::ParentBlockName::Admonition
-                    && parent.blocks.is_empty()
-            }
+        self.block_stack.last().is_some_and(Block::is_open_admonition)
+    }
+
+    /// Whether the last block is a list that belongs to an admonition
+    fn in_admonition_list(&self) -> bool {
+        match self.block_stack.as_slice() {
+            [.., parent, Block::List(_) | Block::DList(_)] => parent.is_open_admonition(),
             _ => false,
         }
     }
@@ -1363,6 +1365,11 @@ impl Parser {
         // close any dangling inlines BEFORE opening the delimited block lines
         self.close_empty_admonition(asg)?;
         self.close_list_items()?;
+        // including those of lists that belong to an admonition
+        while self.in_admonition_list() {
+            self.close_last_block(asg)?;
+            self.close_list_items()?;
+        }
         self.close_paragraph(asg)?;
         self.preserve_newline_text = false;
         // remove the open delimiter line from the count and confirm we're nested properly
-- 
2.43.0


From 24c5cab3ac7883927d74e8b0c31acaaf31f53e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:32:26 +0000
Subject: [PATCH 089/103] fix: end titles at tag directives on the same line

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0994578..78e9211 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -326,8 +326,12 @@ impl Parser {
             TokenType::AttributeReference => self.parse_attribute_reference(token),
             TokenType::CrossReference => self.parse_cross_reference(token),
             TokenType::Include => self.parse_include(token, asg),
-            // we just check for the existence of these; we don't actually process them
-            TokenType::StartTag | TokenType::EndTag => {Ok(())}
+            // we just check for the existence of these; we don't actually process them, other than
+            // that they take up the rest of a line
+            TokenType::StartTag | TokenType::EndTag if self.in_block_line => {
+                self.parse_new_line_char(token, asg)
+            }
+            TokenType::StartTag | TokenType::EndTag => Ok(()),
 
             // inline macros
             TokenType::FootnoteMacro => self.parse_footnote_macro(token),
-- 
2.43.0


From 898e4cabf271d820582c08ffa7d697e3f5d726fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:03 +0000
Subject: [PATCH 090/103] fix: keep lists inside of the admonitions attached to
 list items

---
 src/parser.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 78e9211..0f109be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -555,7 +555,7 @@ impl Parser {
                 self.check_and_move_header(asg)?;
             } else {
                 // consolidate any dangling list items
-                self.close_list_items()?;
+                self.close_lists(asg)?;
                 self.preserve_newline_text = false;
                 // clear out any inlines
                 self.in_inline_span = false;
@@ -893,7 +893,7 @@ impl Parser {
         let level = self.get_heading_level(&token)?;
         // nor inside of admonitions, or lists
         self.close_empty_admonition(asg)?;
-        self.close_list_items()?;
+        self.close_lists(asg)?;
         if let Some(Block::List(_) | Block::DList(_)) = self.block_stack.last() {
             self.close_last_block(asg)?;
         }
@@ -1368,12 +1368,7 @@ impl Parser {
     ) -> Result<(), ParserError> {
         // close any dangling inlines BEFORE opening the delimited block lines
         self.close_empty_admonition(asg)?;
-        self.close_list_items()?;
-        // including those of lists that belong to an admonition
-        while self.in_admonition_list() {
-            self.close_last_block(asg)?;
-            self.close_list_items()?;
-        }
+        self.close_lists(asg)?;
         self.close_paragraph(asg)?;
         self.preserve_newline_text = false;
         // remove the open delimiter line from the count and confirm we're nested properly
@@ -1496,6 +1491,10 @@ impl Parser {
 
     /// Lists inside of a list item stay on the stack until they're closed
     fn push_list_to_stack(&mut self, mut list: Block) -> Result<(), ParserError> {
+        if self.in_block_continuation() && self.in_open_admonition() {
+            // the list item takes the admonition, once that has its list
+            self.block_continuations.pop();
+        }
         self.add_metadata_to_block(&mut list)?;
         self.block_stack.push(list);
         Ok(())
@@ -1791,6 +1790,16 @@ impl Parser {
         Ok(())
     }
 
+    /// Closes the last list item, as well as those around an admonition that the list belongs to
+    fn close_lists(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        self.close_list_items()?;
+        while self.in_admonition_list() {
+            self.close_last_block(asg)?;
+            self.close_list_items()?;
+        }
+        Ok(())
+    }
+
     /// Lists can't interrupt a paragraph, unless it's a part of another list's item, or a table cell
     fn continues_paragraph(&self) -> bool {
         if self.inline_stack.is_empty() {
-- 
2.43.0


From 7db470770d24dd3e0db35d5aed511c17b7ca0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:20 +0000
Subject: [PATCH 091/103] fix: keep the newline ahead of a bracket that closes
 nothing

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0f109be..15de6e7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1199,7 +1199,7 @@ impl Parser {
             // and that the inline span is ended
             self.in_inline_span = false;
         } else {
-            self.add_text_to_last_inline(token);
+            return self.parse_text(token);
         }
         Ok(())
     }
-- 
2.43.0


From bf36b56d3301900746edd92a846e6bad95209b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:20 +0000
Subject: [PATCH 092/103] fix: close list items around an admonition paragraph
 that ends a delimited block

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 15de6e7..3ddb57e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1370,6 +1370,8 @@ impl Parser {
         self.close_empty_admonition(asg)?;
         self.close_lists(asg)?;
         self.close_paragraph(asg)?;
+        // the paragraph may have been that of an admonition inside of a list item
+        self.close_lists(asg)?;
         self.preserve_newline_text = false;
         // remove the open delimiter line from the count and confirm we're nested properly
         let (Some(line), Some(parent_block_idx)) = (
-- 
2.43.0


From 7338ceed1b4ae678f4b3f2d366130cd1fc3f444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:30 +0000
Subject: [PATCH 093/103] fix: end inline images inside of passthroughs on
 their last line too

---
 src/parser.rs         | 10 +++-------
 src/scanner/tokens.rs |  8 ++++++++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3ddb57e..2bf095a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1148,15 +1148,11 @@ impl Parser {
         let (target, metadata) = target_and_attrs_from_token(&token);
         self.check_target(token.line, &target)?;
         self.add_dangling_newline();
-        let mut locations = token.locations();
-        // the macro can include newlines
-        if let (Some(newline_idx), Some(end)) = (token.lexeme.rfind('\n'), locations.last_mut()) {
-            end.line += token.lexeme.matches('\n').count();
-            end.col = token.lexeme.len() - newline_idx - 1;
-        }
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
-                target, metadata, locations,
+                target,
+                metadata,
+                token.locations(),
             )));
         Ok(())
     }
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 73d6edd..2c91d60 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -114,6 +114,14 @@ impl Token {
         Location::new(self.line, self.startcol, self.file_stack.clone())
     }
     pub fn last_location(&self) -> Location {
+        // inline images can include newlines
+        if let (TokenType::InlineImageMacro, Some(newline_idx)) =
+            (self.token_type, self.lexeme.rfind('\n'))
+        {
+            let line = self.line + self.lexeme.matches('\n').count();
+            let col = self.lexeme.len() - newline_idx - 1;
+            return Location::new(line, col, self.file_stack.clone());
+        }
         Location::new(self.line, self.endcol, self.file_stack.clone())
     }
 
-- 
2.43.0


From a4e78df648e92d69e54d45a2b3e63cd9ce213054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:23 +0000
Subject: [PATCH 094/103] fix: attach admonitions inside of admonitions to
 their list item

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2bf095a..a3f97a4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1713,7 +1713,7 @@ impl Parser {
             }
         }
         if self.in_block_continuation() {
-            if self.in_open_admonition() {
+            while self.in_open_admonition() {
                 // the list item takes the admonition, rather than its paragraph
                 if let Some(mut admonition) = self.block_stack.pop() {
                     admonition.push_block(para_block)?;
-- 
2.43.0


From ffd6b9153a15904548823587014f5b0bd2191a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:25 +0000
Subject: [PATCH 095/103] fix: leave description list markers inside of titles
 as text

---
 src/scanner/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 7dadc6e..5da7044 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -285,7 +285,10 @@ impl<'a> Scanner<'a> {
                         self.current += 1
                     }
                     self.add_token(TokenType::Attribute, false, 0)
-                } else if self.peek_back() != ' ' && [": ", ":\n"].contains(&self.peeks_ahead(2)) {
+                } else if self.peek_back() != ' '
+                    && [": ", ":\n"].contains(&self.peeks_ahead(2))
+                    && !self.in_title_line()
+                {
                     self.current += 2;
                     self.add_token(TokenType::DescriptionListMarker, false, 0)
                 } else {
@@ -713,6 +716,18 @@ impl<'a> Scanner<'a> {
         self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\n'
     }
 
+    /// Whether the line so far belongs to a heading or a block title
+    fn in_title_line(&self) -> bool {
+        let line = match self.source[..self.start].rfind('\n') {
+            Some(newline_idx) => &self.source[newline_idx + 1..self.start],
+            None => &self.source[..self.start],
+        };
+        match line.strip_prefix('.') {
+            Some(title) => !title.is_empty() && !title.starts_with([' ', '.']),
+            None => line.starts_with('=') && line.trim_start_matches('=').starts_with(' '),
+        }
+    }
+
     fn starts_repeated_char_line(&self, c: char, delimiter_len: usize) -> bool {
         let expected_block = String::from(c).repeat(delimiter_len - 1);
 
-- 
2.43.0


From a0c6dc7d4a16173320e1eabf22ba33ad9748b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:14 +0000
Subject: [PATCH 096/103] fix: keep the metadata of paragraphs inside of
 attached admonitions with them

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index a3f97a4..0690af8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1715,6 +1715,7 @@ impl Parser {
         if self.in_block_continuation() {
             while self.in_open_admonition() {
                 // the list item takes the admonition, rather than its paragraph
+                self.add_metadata_to_block(&mut para_block)?;
                 if let Some(mut admonition) = self.block_stack.pop() {
                     admonition.push_block(para_block)?;
                     admonition.consolidate_locations();
-- 
2.43.0


From 1b81e80669c90974afdccf73899c6ac90fad1df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:23 +0000
Subject: [PATCH 097/103] fix: end lists inside of description list items at
 the next term

---
 src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0690af8..01c2213 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1023,11 +1023,20 @@ impl Parser {
                 .push(self.open_delimited_block_lines.len());
         }
         // n.b. the term of another item may follow
-        self.preserve_newline_text = matches!(self.block_stack.last(), Some(Block::DListItem(_)));
+        self.preserve_newline_text = self.in_description_list();
         self.force_new_block = true;
         Ok(())
     }
 
+    /// Whether a description list is open, leaving out those around the current delimited block
+    fn in_description_list(&self) -> bool {
+        let start = self.open_delimited_block_idxs.last().map_or(0, |idx| idx + 1);
+        self.block_stack
+            .iter()
+            .skip(start)
+            .any(Block::is_definition_list_item)
+    }
+
     /// Whether the next block belongs to the current list item; n.b. blocks inside of a delimited
     /// block don't, only the delimited block itself
     fn in_block_continuation(&self) -> bool {
@@ -1368,7 +1377,6 @@ impl Parser {
         self.close_paragraph(asg)?;
         // the paragraph may have been that of an admonition inside of a list item
         self.close_lists(asg)?;
-        self.preserve_newline_text = false;
         // remove the open delimiter line from the count and confirm we're nested properly
         let (Some(line), Some(parent_block_idx)) = (
             self.open_delimited_block_lines.pop(),
@@ -1394,6 +1402,8 @@ impl Parser {
             delimited_block.consolidate_table_info(self.table_comment_lines)?;
             self.table_comment_lines = 0;
         }
+        // n.b. the term of another item may follow
+        self.preserve_newline_text = self.in_description_list();
         self.block_stack.push(delimited_block);
         self.close_last_block(asg)
     }
-- 
2.43.0


From 3f20eb217c598e012f8d1cac2298cca32b7884da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:30 +0000
Subject: [PATCH 098/103] fix: take attributes for named ones only if they have
 an equals sign

---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 35431a5..f880d19 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -10,7 +10,7 @@ use crate::utils::{extract_attributes, key_values_from_named_attribute, unquoted
 
 // just make this quoted, and then pull everything else out
 pub static RE_NAMED_QUOTED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(\w*=".*?")"#).unwrap());
-pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(.*?)[=|,](.*)"#).unwrap());
+pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(.*?)=(.*)"#).unwrap());
 
 #[derive(PartialEq, Clone, Debug)]
 pub enum AttributeType {
-- 
2.43.0


From 906e9795ce968ea088e1e5349d776efb410fb560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:08 +0000
Subject: [PATCH 099/103] fix: keep commas and equals signs in quoted
 attributes

---
 src/graph/metadata.rs | 13 +++++++------
 src/utils.rs          |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index f880d19..66231d0 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -8,9 +8,10 @@ use crate::graph::nodes::Location;
 use crate::scanner::tokens::{Token, TokenType};
 use crate::utils::{extract_attributes, key_values_from_named_attribute, unquoted};
 
-// just make this quoted, and then pull everything else out
-pub static RE_NAMED_QUOTED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(\w*=".*?")"#).unwrap());
-pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(.*?)=(.*)"#).unwrap());
+// just make this quoted (named or not), and then pull everything else out
+pub static RE_NAMED_QUOTED: Lazy<Regex> =
+    Lazy::new(|| Regex::new(r#"(?:^|,)((?:[^,="]*=|\s*)".*?")"#).unwrap());
+pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"^([^"]*?)=(.*)"#).unwrap());
 
 #[derive(PartialEq, Clone, Debug)]
 pub enum AttributeType {
@@ -200,6 +201,9 @@ impl ElementMetadata {
     }
 
     fn process_attribute(&mut self, idx: usize, attribute: &mut String) {
+        if let Some(value) = unquoted(attribute.trim()) {
+            *attribute = value.to_string()
+        }
         match self.declared_type {
             Some(AttributeType::Source) => {
                 if idx == 1 {
@@ -217,9 +221,6 @@ impl ElementMetadata {
                 }
             }
             _ => {
-                if let Some(value) = unquoted(attribute) {
-                    *attribute = value.to_string()
-                }
                 self.attributes
                     .insert(format!("positional_{}", idx + 1), attribute.to_string());
             }
diff --git a/src/utils.rs b/src/utils.rs
index e5cd062..f9d48ef 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -108,7 +108,8 @@ pub fn extract_attributes(attribute_list: &str) -> Vec<String> {
     // TK "1,2,4" should be a single attribute, not "1,", 2, 4"
     for (comma, _) in attribute_list.match_indices(',') {
         if RE_NAMED_QUOTED
-            .find_iter(attribute_list)
+            .captures_iter(attribute_list)
+            .filter_map(|captures| captures.get(1))
             .any(|quoted_attr| quoted_attr.range().contains(&comma))
         {
             continue;
-- 
2.43.0


From d899f933190981f56459289a171229f48f6cc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:42 +0000
Subject: [PATCH 100/103] fix: give inline images their alternative text

---
 templates/htmlbook/inline.html.tera | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/htmlbook/inline.html.tera b/templates/htmlbook/inline.html.tera
index 468ec46..9c668a5 100644
--- a/templates/htmlbook/inline.html.tera
+++ b/templates/htmlbook/inline.html.tera
@@ -40,6 +40,8 @@
     {%- if data_type %} data-type="{{data_type}}"
     {%- endif -%}
     {%- if target %} {{target}}
+    {%- endif -%}
+    {%- if inline.variant and inline.variant == "image" and inline.metadata.attributes.positional_1 %} alt="{{inline.metadata.attributes.positional_1}}"
     {%- endif -%}{%-if self_close%} /{%-endif-%}>
 {%- endif -%}
     {%- if not self_close -%}
-- 
2.43.0


From 53557e2f4cca2d0cb7bf49c2aedcf16d153bc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:54:24 +0000
Subject: [PATCH 101/103] fix: accept images at web addresses

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 01c2213..0a8ff6a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1920,7 +1920,9 @@ impl Parser {
     }
 
     fn check_target(&self, token_line: usize, target: &str) -> Result<(), ParserError> {
-        if self.resolve_targets {
+        // only local files can be looked for
+        if self.resolve_targets && !target.starts_with("http://") && !target.starts_with("https://")
+        {
             match self.resolve_target(token_line, target) {
                 Ok(_) => Ok(()),
                 Err(e) => Err(e),
-- 
2.43.0


From b09aec8ea8e56d1764edc37a10e6318318cb1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:05:50 +0000
Subject: [PATCH 102/103] fix: count the columns of multipliers with formats
 and in lists

---
 src/graph/metadata.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 66231d0..5bc268e 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -229,16 +229,24 @@ impl ElementMetadata {
 
     pub fn simplify_cols(&mut self) {
         if let Some(cols_value) = self.attributes.get("cols") {
-            if cols_value.contains(',') {
+            if cols_value.contains('*') {
+                // cols="3*", cols="2*<,1"
+                let count = cols_value
+                    .split(',')
+                    .map(|col| match col.split_once('*') {
+                        Some((times, _)) => times.trim().parse::<usize>().ok(),
+                        None => Some(1),
+                    })
+                    .try_fold(0_usize, |sum, times| sum.checked_add(times?));
+                if let Some(count) = count {
+                    self.attributes.insert("cols".to_string(), count.to_string());
+                }
+            } else if cols_value.contains(',') {
                 // cols="1,2,1"
                 self.attributes.insert(
                     "cols".to_string(),
                     format!("{}", cols_value.split(',').collect::<Vec<&str>>().len()),
                 );
-            } else if let Some(count) = cols_value.strip_suffix('*') {
-                // cols="3*"
-                self.attributes
-                    .insert("cols".to_string(), count.to_string());
             }
         }
     }
-- 
2.43.0


From ad85ba17b24b5be8092dc4b5f4460c76ade566f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:08:57 +0000
Subject: [PATCH 103/103] fix: take tags of includes apart at commas

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0a8ff6a..993ee49 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -648,7 +648,7 @@ impl Parser {
                 included_tags.push(value.clone());
             } // it can either be tag or tags, which is annoying!
             if let Some(value) = metadata.attributes.get("tags") {
-                included_tags.extend(value.split(";").map(|tag| tag.to_string()));
+                included_tags.extend(value.split([';', ',']).map(|tag| tag.to_string()));
             }
         }
 
-- 
2.43.0

