From 167400c099eacc3bea58792f47f87c3f222004de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 01/36] fix: do not loop forever on a backslash at the end of
 the file

---
 crates/seam/src/parse/lexer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..c53b3e5 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -139,15 +139,12 @@ impl<'a> Lexer {
     /// Advance the offset to the next unicode character.
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
-        let c = self.peek_char();
-        self.increment_byte_offsets(1);
-        while !self.source.is_char_boundary(self.byte_offset.get()) {
-            self.increment_byte_offsets(1);
-        }
-        if c == Some('\n') {
+        let c = self.peek_char()?;
+        self.increment_byte_offsets(c.len_utf8());
+        if c == '\n' {
             self.next_line();
         }
-        return c;
+        return Some(c);
     }
 
     fn consume_lparen(&'a self, whitespace: &'a str) -> Token<'a> {
-- 
2.43.0


From 23109ab27d4ef96a2797db0c29b641a452ed6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 02/36] fix: count each newline inside strings and escapes
 exactly once

---
 crates/seam/src/parse/lexer.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index c53b3e5..eb7d84e 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -167,9 +167,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -182,11 +184,8 @@ impl<'a> Lexer {
             let Some(kind) = character_kind(c) else { break };
             // Symbols can contain escaped characters.
             if c == '\\' {
-                let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char(); // `\`.
+                let _ = self.consume_char(); // escaped char.
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -204,9 +203,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -230,7 +231,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -261,7 +261,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -287,9 +286,11 @@ impl<'a> Lexer {
     fn consume_keyword(&'a self, whitespace: &'a str) -> Token<'a> {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
+        let line_no = self.line.get();
         let start_from_line = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From 8a6513f52d52d3adc6ff01dadd76110f1ce105f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 03/36] fix: keep escaped backslashes in symbols

---
 crates/seam/src/parse/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..13837e6 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,7 +522,11 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
+        if c == '\\' {
+            // Keep whichever character was escaped, even another backslash.
+            builder.extend(chars.next());
+            continue;
+        }
         builder.push(c)
     }
     builder
-- 
2.43.0


From cb4803d54baccd5df30c01be8706b28d647d7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 04/36] fix: do not panic when reporting an error far into a
 very long line

---
 crates/seam/src/assemble/mod.rs   | 8 ++++----
 crates/seam/src/parse/expander.rs | 8 ++++----
 crates/seam/src/parse/lexer.rs    | 8 ++++----
 crates/seam/src/parse/parser.rs   | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..3d2f3c6 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -30,10 +30,10 @@ impl<'a> fmt::Display for GenerationError<'a> {
         let line_prefix = format!("  {} |", self.site.line);
         let line_view = self.site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=self.site.line_column() - 1,
-            length=self.site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(self.site.line_column() - 1),
+            "^".repeat(self.site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "{}: {}",
             format!("[{}] Error Generating {} ({}:{}:{})",
                 "**".red().bold(),
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..6612903 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -43,10 +43,10 @@ impl<'a> fmt::Display for ExpansionError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[{}] Error Expanding Macro {}: {}",
             "**".red().bold(), site, msg)
     }
diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index eb7d84e..6c82610 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -15,10 +15,10 @@ impl<'a> fmt::Display for LexError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Lexical Error {}: {}", site, msg)
     }
 }
diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 13837e6..84a3671 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -390,10 +390,10 @@ impl<'a> fmt::Display for ParseError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Parse Error ({}:{}:{}): {}",
             site.source, site.line, site.line_column(), msg)
     }
-- 
2.43.0


From 883c1c2d1f43309218387dadc5e043d9137d6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 05/36] fix: report an error when an attribute's value expands
 to nothing

---
 crates/seam/src/parse/expander.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 6612903..22eab89 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1837,12 +1837,17 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
-                let new_node = Box::new(expanded_nodes[0].clone());
-                expanded_nodes[0] = ParseNode::Attribute {
-                    keyword: keyword.clone(),
-                    node: new_node,
-                    site: site.clone(),
-                    leading_whitespace: leading_whitespace.clone(),
+                let Some(first) = expanded_nodes.first_mut() else {
+                    return Err(ExpansionError(
+                        format!("The value given to keyword `:{}' expanded to nothing.", keyword),
+                        site,
+                    ));
+                };
+                *first = ParseNode::Attribute {
+                    keyword,
+                    node: Box::new(first.clone()),
+                    site,
+                    leading_whitespace,
                 };
                 Ok(expanded_nodes)
             },
-- 
2.43.0


From 9d29e84b94eaa5344f60a7b10c0189a15758b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 06/36] fix: keep macro call nodes alive for the whole of their
 expansion

---
 crates/seam/src/parse/expander.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 22eab89..d473e29 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -91,7 +91,6 @@ pub struct Expander<'a> {
     includes: BTreeSet<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
     definitions: Scope<'a>,
 }
 
@@ -102,7 +101,6 @@ impl<'a> Expander<'a> {
             includes: BTreeSet::from([PathBuf::from(".")]),
             subparsers: RefCell::new(Vec::new()),
             subcontexts: RefCell::new(Vec::new()),
-            invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
     }
@@ -160,14 +158,6 @@ impl<'a> Expander<'a> {
         unsafe { (*contexts).last_mut() }
     }
 
-    fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
-        let invocations = self.invocations.as_ptr();
-        unsafe {
-            (*invocations).push(node);
-            (*invocations).last().unwrap()
-        }
-    }
-
     /// Update variable (macro) for this scope.
     fn insert_variable(&self, name: String, var: Rc<Macro<'a>>) {
         let mut defs = self.definitions.borrow_mut();
@@ -1806,7 +1796,6 @@ impl<'a> Expander<'a> {
 
                 // Pathway: (%_ _ _) macro invocation.
                 if let Some(symbol) = head.symbol() {
-                    let node = self.register_invocation(node.clone());
                     let name = symbol.value.clone();
                     if name.starts_with("%") {
                         // Rebuild node...
@@ -1818,7 +1807,7 @@ impl<'a> Expander<'a> {
                                 leading.set_leading_whitespace(String::from(""));
                             }
                         }
-                        return self.expand_invocation(name, node, params.into_boxed_slice());
+                        return self.expand_invocation(name, &node, params.into_boxed_slice());
                     }
                 }
                 // Otherwise, if not a macro, just expand child nodes incase they are macros.
-- 
2.43.0


From ca4c3abe3db47162e4c94634f150049856088ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 07/36] fix: let included sources outlive the subcontext that
 included them

---
 crates/seam/src/parse/expander.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index d473e29..b500d2a 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -89,7 +89,10 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files. Shared between a context and all its
+    /// subcontexts, as expanded nodes refer to the source-code they own,
+    /// and they may outlive the subcontext in which they were parsed.
+    subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     definitions: Scope<'a>,
 }
@@ -99,7 +102,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
@@ -125,7 +128,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Box::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -133,7 +136,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(|parser| &**parser) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From 2f8a8a49727bc6985bb4d99facb99fba10492443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 08/36] fix: report out of range timezone offsets instead of
 overflowing

---
 crates/seam/src/parse/expander.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index b500d2a..f8bf6f8 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -877,7 +877,13 @@ impl<'a> Expander<'a> {
         }?;
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                Ok(hours) => match hours.checked_mul_int(60 * 60).and_then(|secs| secs.checked_round()) {
+                    Some(secs) => secs.to_num(),
+                    None => return Err(ExpansionError::new(
+                        "Timezone offset is out of range.",
+                        &offset.site,
+                    )),
+                },
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
@@ -930,7 +936,13 @@ impl<'a> Expander<'a> {
 
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                Ok(hours) => match hours.checked_mul_int(60 * 60).and_then(|secs| secs.checked_round()) {
+                    Some(secs) => secs.to_num(),
+                    None => return Err(ExpansionError::new(
+                        "Timezone offset is out of range.",
+                        &offset.site,
+                    )),
+                },
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
-- 
2.43.0


From 643e71dfa1f5bcdc13770c5cc206f679f0293f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 09/36] fix: report an error for invalid date formats instead
 of panicking

---
 crates/seam/src/parse/expander.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index f8bf6f8..5c26a9c 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2,7 +2,7 @@ use super::parser::{Node, ParseNode, ParseTree, Parser};
 use super::tokens::Site;
 
 use std::{
-    fmt,
+    fmt::{self, Write as _},
     cell::RefCell,
     path::PathBuf,
     ffi::OsString,
@@ -914,7 +914,10 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if write!(formatted, "{}", time.format(&date_format)).is_err() {
+            return Err(ExpansionError::new("Invalid date format.", &args.number.1.site));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
-- 
2.43.0


From 86ea2505361f564631fcb404b52e67dd8c106600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 10/36] fix: bind and report named arguments in a fixed order

---
 crates/seam/src/parse/expander.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 5c26a9c..d9e19a7 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -10,6 +10,7 @@ use std::{
     rc::Rc,
     collections::{
         HashMap,
+        BTreeMap,
         BTreeSet,
     },
 };
@@ -249,8 +250,8 @@ impl<'a> Expander<'a> {
         let mut rest_kw_node = None;
         let mut rhs_index: usize = 0;
         let mut expected: usize = 0;
-        let mut rhs_named = HashMap::new(); // Contains keyword -> attribute node.
-        let mut lhs_named = HashMap::new(); // Contains keyword -> attr. value node (defaults).
+        let mut rhs_named = BTreeMap::new(); // Contains keyword -> attribute node.
+        let mut lhs_named = BTreeMap::new(); // Contains keyword -> attr. value node (defaults).
         // We loop this way (not a for loop) so we can control
         // when exactly we advance to the next LHS node, potentially
         // doing multiple iterations on the same node.
@@ -378,12 +379,13 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for node1 in nodes1 {
+                let ParseNode::Attribute { keyword, .. } = node1 else { continue };
+                if let Some(named) = rhs_named.remove(keyword) {
+                    nodes.push(named.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From 2401c70b46d40bc2978d479f8a8434487270acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 11/36] fix: search include directories in the order they were
 given

---
 crates/seam/src/bin.rs            | 5 ++---
 crates/seam/src/parse/expander.rs | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..f0af211 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Vec::new();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index d9e19a7..95ec026 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -11,7 +11,6 @@ use std::{
     collections::{
         HashMap,
         BTreeMap,
-        BTreeSet,
     },
 };
 
@@ -89,7 +88,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Parsers of included files. Shared between a context and all its
     /// subcontexts, as expanded nodes refer to the source-code they own,
     /// and they may outlive the subcontext in which they were parsed.
@@ -102,7 +101,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -121,7 +120,7 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            self.includes.push(dir.into());
         }
     }
 
-- 
2.43.0


From a2183c444e7feee649f19dc1665260577e8e3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 12/36] fix: only namespace the definitions made inside of
 %namespace

---
 crates/seam/src/parse/expander.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 95ec026..0d7be19 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1126,7 +1126,12 @@ impl<'a> Expander<'a> {
         {
             let mut self_defs = self.definitions.borrow_mut();
             let defs = context.definitions.borrow();
-            for (key, value) in defs.iter() {
+            // Definitions inherited from the surrounding scope are not ours.
+            let own_defs: Vec<_> = defs.iter()
+                .filter(|(key, value)| !self_defs.get(*key)
+                    .is_some_and(|outer| Rc::ptr_eq(outer, value)))
+                .collect();
+            for (key, value) in own_defs {
                 let new_key = format!("{}{}{}", namespace.value, separator, key);
                 self_defs.insert(new_key, value.clone());
             }
-- 
2.43.0


From 74a2ee9bf6b2772c2cb2c5e668cfe59393c7a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 13/36] fix: sort mixed lists by a well-defined order

---
 crates/seam/src/parse/expander.rs | 58 ++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0d7be19..329e165 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -4,6 +4,7 @@ use super::tokens::Site;
 use std::{
     fmt::{self, Write as _},
     cell::RefCell,
+    cmp::Ordering,
     path::PathBuf,
     ffi::OsString,
     error::Error,
@@ -79,6 +80,48 @@ impl<'a> Macro<'a> {
     }
 }
 
+/// What `%sort` compares items by: numbers are compared by their exact value
+/// and come before any other text, such that every list has a well-defined order.
+#[derive(Debug, Clone)]
+enum SortKey {
+    Int(i64),
+    Float(f64), //< Never NaN.
+    Text(String),
+}
+
+impl SortKey {
+    fn new(text: String) -> Self {
+        if let Ok(int) = text.parse() { return Self::Int(int); }
+        match text.parse::<f64>() {
+            Ok(float) if !float.is_nan() => Self::Float(float),
+            _ => Self::Text(text),
+        }
+    }
+
+    fn cmp(&self, other: &Self) -> Ordering {
+        use SortKey::*;
+        /// 2^63, one more than the largest `i64`.
+        const LIMIT: f64 = 9223372036854775808.0;
+        let int_float = |int: i64, float: f64| if float >= LIMIT {
+            Ordering::Less
+        } else if float < -LIMIT {
+            Ordering::Greater
+        } else {
+            int.cmp(&(float.trunc() as i64))
+                .then(0f64.total_cmp(&(float.fract() + 0.0)))
+        };
+        match (self, other) {
+            (Int(i0), Int(i1)) => i0.cmp(i1),
+            (Float(f0), Float(f1)) => f0.partial_cmp(f1).expect("never NaN"),
+            (Int(i0), Float(f1)) => int_float(*i0, *f1),
+            (Float(f0), Int(i1)) => int_float(*i1, *f0).reverse(),
+            (Text(t0), Text(t1)) => t0.cmp(t1),
+            (Text(_), _) => Ordering::Greater,
+            (_, Text(_)) => Ordering::Less,
+        }
+    }
+}
+
 /// Type of variable scope owned by an `Expander` instance.
 pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe this type?
 
@@ -1428,7 +1471,7 @@ impl<'a> Expander<'a> {
         /// Keeps track of nodes and the key by which to sort them by.
         struct SortItem<'b> {
             node: ParseNode<'b>,
-            key: String,
+            key: SortKey,
         }
 
         let ParseNode::List { nodes, site, end_token, .. } = args.number.1 else {
@@ -1469,24 +1512,15 @@ impl<'a> Expander<'a> {
                     key_site,
                 ));
             };
-            let key = key.value;
+            let key = SortKey::new(key.value);
             whitespace.push(node.leading_whitespace().to_owned());
             items.push(SortItem { node, key });
         }
         // Whitespace is reversed so .pop() removes the first item.
         whitespace.reverse();
-        // Sort by the evaluated .key string.
+        // Sort by the evaluated .key, numerically where possible.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
-            }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
-            }
             item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
-- 
2.43.0


From 8e81239cd41c2b6a1546715bdebd57864dd35dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 14/36] fix: do not panic on dangling symbolic links in %glob

---
 crates/seam/src/parse/expander.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 329e165..2a2420a 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1333,7 +1333,15 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            // Dangling symbolic links only have metadata of their own.
+            let meta = std::fs::metadata(&path).or_else(|_| std::fs::symlink_metadata(&path));
+            let meta = match meta {
+                Ok(meta) => meta,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: {}", err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From 5f23e282b5b56e162736ea452967da2beb06b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 15/36] fix: report YAML aliases and compound keys as errors
 instead of panicking

---
 crates/seam/src/parse/expander.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 2a2420a..08db600 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1978,6 +1978,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// What made this YAML impossible to convert (if anything did).
+        error: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -1993,6 +1995,15 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
 
     impl<'a, 'b> yaml::parser::EventReceiver for EventSink<'a, 'b> {
         fn on_event(&mut self, event: yaml::Event) {
+            // Only scalars can name variables, so only they can be keys.
+            let expecting_key = self.mode == Some(Mode::Map) && self.defining.is_none();
+            match event {
+                yaml::Event::Alias(..) => self.error = Some("aliases are not supported"),
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..) if expecting_key =>
+                    self.error = Some("keys of a mapping must be scalars"),
+                _ => {},
+            }
+            if self.error.is_some() { return; }
             let the_dreaded_rparen = crate::parse::tokens::Token::new(
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
@@ -2147,6 +2158,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        error: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2156,6 +2168,13 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             site.to_owned()
         ))?;
 
+    if let Some(error) = sink.error {
+        return Err(ExpansionError(
+            format!("Failed to convert YAML: {}.", error),
+            site.to_owned(),
+        ));
+    }
+
     Ok(sink.nodes.into_boxed_slice())
 }
 
-- 
2.43.0


From 03df3cbcfc5788f5cfaae1c3ca5b4f6b76c0eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 16/36] fix: escape attribute values in HTML and XML

---
 crates/seam/src/assemble/html.rs | 6 +++++-
 crates/seam/src/assemble/xml.rs  | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..e1f0a8f 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -96,7 +96,11 @@ impl<'a> HTMLFormatter<'a> {
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        match **node {
+                            // Don't escape any symbols in a raw-content string.
+                            ParseNode::Raw(_) => write!(f, "{}=\"{}\"", keyword, atom.value)?,
+                            _ => write!(f, "{}=\"{}\"", keyword, escape_xml(&atom.value))?,
+                        }
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..6cbfe07 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -167,8 +167,11 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
     let parser::ParseNode::Attribute { keyword, node, .. } = attr else {
         panic!("Passed non-attribute to display_attribute.")
     };
-    if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+    if let ParseNode::Raw(raw) = &**node {
+        // Don't escape any symbols in a raw-content string.
+        Ok(format!("{}=\"{}\"", keyword, raw.value))
+    } else if let Some(symbol) = (*node).atomic() {
+        Ok(format!("{}=\"{}\"", keyword, escape_xml(&symbol.value)))
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From 16b04d09c7083312906b984749a2a14f743e6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 17/36] fix: separate the words of XML declarations

---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 6cbfe07..a5b2923 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -65,7 +65,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From 6fa864c42c17dbe99a70621b2812127f1519a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 18/36] fix: leave raw-content strings unchanged in XML output

---
 crates/seam/src/assemble/xml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index a5b2923..a173b8b 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -37,6 +37,11 @@ impl<'a> XMLFormatter<'a> {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", escape_xml(&node.value))?
             },
+            ParseNode::Raw(node) => {
+                // Don't escape any symbols in a raw-content string.
+                write!(f, "{}", node.leading_whitespace)?;
+                write!(f, "{}", &node.value)?;
+            },
             ParseNode::List { nodes: list, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 let head = list.first();
-- 
2.43.0


From d0ad8f4ff4f92e7a644726dafb56db3240e4285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 19/36] fix: report empty tag names as errors instead of
 panicking

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index e1f0a8f..87cafbd 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "HTML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index a173b8b..1da15d6 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -49,6 +49,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "XML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From 3e4087ef49cb40b624048a1ba21a2f7eccf1ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 20/36] fix: report CSS rules without selectors as errors
 instead of panicking

---
 crates/seam/src/assemble/css.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..dae2c40 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::Site;
 
 use std::slice::Iter;
 
@@ -172,14 +173,14 @@ fn generate_special_selector<'a>(f: Formatter,
                 unexpected_node(&arg, parsing_rules)?;
                 write!(f, "({}: {}) ", keyword, css_value(keyword, &*node)?)?;
             },
-            ParseNode::List { nodes: ref rule, leading_whitespace, .. } => {
+            ParseNode::List { nodes: ref rule, site, leading_whitespace, .. } => {
                 // Now we parse nested rules!
                 if !parsing_rules {
                     writeln!(f, "{{")?;
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, site, rule.into_iter())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -191,14 +192,13 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
+fn generate_css_rule<'a>(f: Formatter, site: &Site<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
     let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
         .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +208,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             site));
     };
 
     // Handle special @-rule selectors.
@@ -255,9 +255,9 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
         let mut tree_iter = self.tree.iter().peekable();
         while let Some(node) = tree_iter.next() {
             match node {
-                ParseNode::List { nodes: list, leading_whitespace, .. } => {
+                ParseNode::List { nodes: list, site, leading_whitespace, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, site, list.into_iter())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From ab8a4ad1bfd9f528fb0f020d36556c301d7047d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 21/36] fix: end CSS @-rules without a body with a semicolon

---
 crates/seam/src/assemble/css.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index dae2c40..90d74e1 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -188,7 +188,11 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    if parsing_rules {
+        write!(f, "}}")?;
+    } else {
+        write!(f, ";")?; // There was no body to close.
+    }
     Ok(())
 }
 
-- 
2.43.0


From 96ff414b16ebc35aa2cc147fcf430657619091e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 22/36] fix: report <pre> tags starting outside of their own
 source instead of panicking

---
 crates/seam/src/assemble/html.rs | 34 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 87cafbd..cceacb2 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -10,7 +10,7 @@ use super::{
 };
 
 use crate::parse::parser::{ParseNode, ParseTree, SearchTree, SearchType};
-use crate::parse::tokens;
+use crate::parse::tokens::{self, Site};
 
 #[derive(Debug, Clone)]
 pub struct HTMLFormatter<'a> {
@@ -50,7 +50,7 @@ impl<'a> HTMLFormatter<'a> {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", &node.value)?;
             },
-            ParseNode::List { nodes: list, leading_whitespace, end_token, .. } => {
+            ParseNode::List { nodes: list, site, leading_whitespace, end_token } => {
                 write!(f, "{}", leading_whitespace)?;
                 let head = list.first();
                 let tag: &str;  // html <tag> name.
@@ -164,7 +164,12 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let first_node = rest_with_preserved_whitespace.first();
+                        let Some(pre) = raw_text(first_node, site, end_token) else {
+                            return Err(GenerationError::new("HTML",
+                                "Preformatted text must start with text from the source of its tag.",
+                                site));
+                        };
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -323,21 +328,22 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Get raw text in source-file between a `start_node` and some `end_token`.
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
-/// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// Especially, the first node cannot come from outside of the tag starting at
+/// `start_site`, e.g. from a different file (we return `None` in this case).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, start_site: &Site<'a>, end_token: &tokens::Token<'a>) -> Option<&'a str> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Some(end_token.leading_whitespace);
     };
-    if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
-    }
     let source: &'a str = end_token.site.source_code;
-    let first_node_offset =
-          start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
+    let node_offset = start_node.site().bytes_from_start;
+    if !std::ptr::eq(start_node.site().source_code, source)
+    || node_offset < start_site.bytes_from_start {
+        return None;
+    }
+    let first_node_offset = node_offset
+        .checked_sub(start_node.leading_whitespace().len())?
         + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    source.get(first_node_offset..end_token.site.bytes_from_start)
 }
-- 
2.43.0


From 7ae4706362863301d52196a5f3a91cd41ecfd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 23/36] fix: do not recurse infinitely when cloning formatters

---
 crates/seam/src/assemble/mod.rs | 19 ++++++++++++++++--
 crates/seam/src/lib.rs          | 35 ---------------------------------
 2 files changed, 17 insertions(+), 37 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 3d2f3c6..f41c8f2 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -1,4 +1,4 @@
-use crate::{impl_clone_box, CloneBox, parse::tokens::Site};
+use crate::parse::tokens::Site;
 use std::{convert, error::Error, fmt::{self, Debug}};
 
 use colored::*;
@@ -97,7 +97,22 @@ pub trait MarkupFormatter: Debug + CloneBox {
     }
 }
 
-impl_clone_box! { 'a; dyn MarkupFormatter + 'a}
+/// Allows for cloning a [`MarkupFormatter`] trait object.
+pub trait CloneBox {
+    fn clone_box<'a>(&self) -> Box<dyn MarkupFormatter + 'a> where Self: 'a;
+}
+
+impl<T> CloneBox for T where T: MarkupFormatter + Clone {
+    fn clone_box<'a>(&self) -> Box<dyn MarkupFormatter + 'a> where Self: 'a {
+        Box::new(self.clone())
+    }
+}
+
+impl<'a> Clone for Box<dyn MarkupFormatter + 'a> {
+    fn clone(&self) -> Self {
+        (**self).clone_box()
+    }
+}
 
 /// Automatically implement fmt::Display as a wrapper around
 /// MarkupFormatter::generate, but throws away the useful error message.
diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..75f52e7 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -23,41 +23,6 @@ pub const VERSION: (u8, u8, u8) = (
     parse_u8(env!("CARGO_PKG_VERSION_PATCH")),
 );
 
-/* Utilities. */
-
-/// See: <https://stackoverflow.com/a/30353928>
-pub trait CloneBox {
-    fn clone_box(&self) -> *mut ();
-}
-
-impl<'a, T> CloneBox for T where T: Clone + 'a {
-    fn clone_box(&self) -> *mut () {
-        Box::<T>::into_raw(Box::new(self.clone())) as *mut ()
-    }
-}
-
-#[macro_export]
-macro_rules! impl_clone_box {
-    ($($lif:tt),* ; $tra:ty) => {
-        impl< $($lif),* > Clone for Box< $tra > {
-            fn clone(&self) -> Box< $tra > {
-                unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
-                }
-            }
-        }
-    };
-    ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
-        impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
-            fn clone(&self) -> Box< $tra > {
-                unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
-                }
-            }
-        }
-    };
-}
-
 /* Library helpers. */
 
 pub fn tree_builder<'a, P: AsRef<Path>>(source_path: Option<P>, string: String)
-- 
2.43.0


From 00b606edd9d01a19aa964f0f37c5d5a74879993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 24/36] fix: keep symbols escaped in S-expression output

---
 crates/seam/src/assemble/sexp.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 5c812f4..e503435 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -32,7 +32,7 @@ impl<'a> SExpFormatter<'a> {
             ParseNode::Symbol(node)
           | ParseNode::Number(node) => {
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{}", node.value)?;
+                write!(f, "{}", escape_symbolic(&node.value))?;
             },
             ParseNode::String(node) => {
                 // We actually don't want the rendered string with the escpaes
@@ -69,6 +69,20 @@ impl<'a> SExpFormatter<'a> {
 
 }
 
+/// Put back the escapes without which a symbol would not be read as one symbol.
+fn escape_symbolic(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    for (i, c) in value.char_indices() {
+        match c {
+            '(' | ')' | '"' | '\\' | ' ' | '\t' | '\r' | '\n' => escaped.push('\\'),
+            ':' | ';' if i == 0 => escaped.push('\\'),
+            _ => {},
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
 impl<'a> MarkupFormatter for SExpFormatter<'a> {
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
-- 
2.43.0


From d5c5c41e93b77d046095b680dff0c9290f429f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 25/36] fix: keep NUL characters apart from digits in
 S-expression output

---
 crates/seam/src/assemble/sexp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index e503435..f99efea 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -39,13 +39,13 @@ impl<'a> SExpFormatter<'a> {
                 // that we parsed, so we send it to the debug view to get a string
                 // with quotes and escaped special characters.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{:?}", node.value)?;
+                write!(f, "{}", escape_string(&node.value))?;
             },
             ParseNode::Raw(node) => {
                 // This is the only place we can't really expand
                 // the `(%raw ...)` macro. It is meaningful.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "(%raw {:?})", node.value)?;
+                write!(f, "(%raw {})", escape_string(&node.value))?;
             },
             ParseNode::List { nodes, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
@@ -83,6 +83,14 @@ fn escape_symbolic(value: &str) -> String {
     escaped
 }
 
+/// Quote a string. NUL is written out in full, as the `\0` of the debug view
+/// would be read as the start of an octal escape when followed by a digit.
+fn escape_string(value: &str) -> String {
+    let parts: Vec<String> = value.split('\0').map(|part| format!("{:?}", part)).collect();
+    let parts: Vec<&str> = parts.iter().map(|part| &part[1..part.len() - 1]).collect();
+    format!("\"{}\"", parts.join("\\u{0}"))
+}
+
 impl<'a> MarkupFormatter for SExpFormatter<'a> {
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
-- 
2.43.0


From fcb4fba224578efe5dd5ac335fa2c7a23484456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 26/36] fix: allow dashes inside of include directory names on
 the command line

---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index f0af211..91148c0 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix('-') {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From 606df9da8bc5456123a4168e254ca16f3a81f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 27/36] fix: reject format strings on which formatx panics

---
 crates/seam/src/parse/expander.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 08db600..b76804a 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1094,6 +1094,11 @@ impl<'a> Expander<'a> {
                 "First argument to `%format' must be a string.",
                 format_str.site()));
         };
+        if !is_valid_format_string(&format_str.value) {
+            return Err(ExpansionError::new(
+                "Invalid format string.",
+                &format_str.site));
+        }
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
@@ -1926,6 +1931,31 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Check a `%format` string for what would make `formatx` panic:
+/// curly braces which do not pair up, and widths (or precisions) too big to format.
+fn is_valid_format_string(template: &str) -> bool {
+    // Escaped braces are just text, closing ones are found starting from the right.
+    let mut template = template.replace("{{", " ");
+    while let Some(escaped) = template.rfind("}}") {
+        template.replace_range(escaped..escaped + 2, " ");
+    }
+    let mut text = template.as_str();
+    while let Some(start) = text.find(['{', '}']) {
+        let placeholder = &text[start + 1..];
+        let Some(end) = placeholder.find(['{', '}']) else { return false };
+        if !text[start..].starts_with('{') || !placeholder[end..].starts_with('}') {
+            return false;
+        }
+        text = &placeholder[end + 1..];
+        let Some((_, spec)) = placeholder[..end].rsplit_once(':') else { continue };
+        let mut numbers = spec.split(|c: char| !c.is_ascii_digit()).filter(|n| !n.is_empty());
+        if numbers.any(|n| n.parse::<u16>().is_err()) {
+            return false;
+        }
+    }
+    true
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From 5a4cb99c1b23afdbc74c005ca46ebee3f0661304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 28/36] fix: keep brackets inside of formatted values as they
 are

---
 crates/seam/src/parse/expander.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index b76804a..77943af 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1102,7 +1102,26 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
-        let Ok(mut template) = formatx::Template::new(&format_str.value) else {
+        // Brackets in values (and the text around placeholders) must not be mistaken for
+        // placeholders or escaped braces later on, so stand-ins are substituted for them.
+        let brackets = ['{', '}', '['];
+        let unused: Vec<char> = ('\u{2800}'..).filter(|c| !params.iter().any(|param|
+            param.attribute().map_or(param, |(_, node)| &**node).atomic()
+                .is_some_and(|literal| literal.value.contains(*c))
+        )).take(brackets.len()).collect();
+        let protect = |text: &str, which: &[char]| -> String {
+            text.chars().map(|c| match brackets.iter().position(|b| *b == c && which.contains(b)) {
+                Some(i) => unused[i],
+                None => c,
+            }).collect()
+        };
+        let restore = |text: &str| -> String {
+            text.chars().map(|c| match unused.iter().position(|u| *u == c) {
+                Some(i) => brackets[i],
+                None => c,
+            }).collect()
+        };
+        let Ok(mut template) = formatx::Template::new(protect(&format_str.value, &['['])) else {
             return Err(ExpansionError::new(
                 "Invalid format string.",
                 &format_str.site));
@@ -1123,8 +1142,8 @@ impl<'a> Expander<'a> {
             };
             // Replace the placeholder.
             match named {
-                Some(name) => template.replace(name, value),
-                None       => template.replace_positional(value),
+                Some(name) => template.replace(protect(name, &['[']), protect(value, &brackets)),
+                None       => template.replace_positional(protect(value, &brackets)),
             }
         }
         // Template has been constructed, so now attempt to do subsitituions and
@@ -1132,7 +1151,7 @@ impl<'a> Expander<'a> {
         match template.text() {
             Ok(value) => Ok(Box::new([
                 ParseNode::String(Node {
-                    value,
+                    value: restore(&value),
                     site: node.owned_site(),
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
-- 
2.43.0


From f08a29c89c4d3b9bd0770582bf8fb81657146e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 29/36] fix: do not repeat the whitespace at the end of <pre>
 tags

---
 crates/seam/src/assemble/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index cceacb2..aa7f2bf 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -170,7 +170,9 @@ impl<'a> HTMLFormatter<'a> {
                                 "Preformatted text must start with text from the source of its tag.",
                                 site));
                         };
-                        write!(f, "{}", pre)?;
+                        write!(f, "{}</{}>", pre, tag)?;
+                        // This already includes all whitespace up to the end of the tag.
+                        return Ok(());
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
                         // We have to reconsititute what the source-code would look like if all
-- 
2.43.0


From d6b4d7f83ef054507e8d9ae8dae0564ffe53e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 30/36] fix: only count HTML elements as the head and body of a
 document

---
 crates/seam/src/assemble/html.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index aa7f2bf..19b6b39 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -282,10 +282,10 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
             = self.tree.search_node(SearchType::ListHead, "html", true, 1);
         // Check if <head></head> tag object exists.
         let head_tag
-            = self.tree.search_node(SearchType::ListHead, "head", true, 2);
+            = search_element(&self.tree, "head");
         // Check if <body></body> tag object exists.
         let body_tag
-            = self.tree.search_node(SearchType::ListHead, "body", true, 2);
+            = search_element(&self.tree, "body");
 
         if doctype_tag.is_none() {
             #[cfg(feature="debug")]
@@ -327,6 +327,21 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
     }
 }
 
+/// Tags whose contents are not HTML, so nothing inside of them is an HTML element.
+const FOREIGN_ELEMENTS: [&str; 7] = [
+    "math", "pre", "script", "style", "svg", "textarea", "title",
+];
+
+/// Search for an HTML element at the top-level, or just below it.
+fn search_element<'a>(tree: &'a ParseTree<'a>, name: &str) -> Option<&'a ParseNode<'a>> {
+    tree.iter().find_map(|node| {
+        let ParseNode::List { nodes, .. } = node else { return None; };
+        let head = nodes.first().and_then(ParseNode::atomic)?;
+        let is_foreign = FOREIGN_ELEMENTS.iter().any(|tag| head.value.eq_ignore_ascii_case(tag));
+        node.search_node(SearchType::ListHead, name, true, if is_foreign { 1 } else { 2 })
+    })
+}
+
 /// Get raw text in source-file between a `start_node` and some `end_token`.
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
-- 
2.43.0


From 6c1f2945e6a525021a8b6be54405f66ef611e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 31/36] fix: keep empty strings apart from strings touching
 them in S-expression output

---
 crates/seam/src/assemble/sexp.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index f99efea..f588282 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -91,6 +91,14 @@ fn escape_string(value: &str) -> String {
     format!("\"{}\"", parts.join("\\u{0}"))
 }
 
+fn ends_in_empty_string(node: &ParseNode) -> bool {
+    match node {
+        ParseNode::String(string) => string.value.is_empty(),
+        ParseNode::Attribute { node, .. } => ends_in_empty_string(node),
+        _ => false,
+    }
+}
+
 impl<'a> MarkupFormatter for SExpFormatter<'a> {
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
@@ -100,6 +108,13 @@ impl<'a> MarkupFormatter for SExpFormatter<'a> {
         let mut tree_iter = self.tree.iter().peekable();
         while let Some(node) = tree_iter.next() {
             self.generate_node(f, node)?;
+            // An empty string touching the next string would be read as the start
+            // of a triple-quoted string, so make it a triple-quoted string itself.
+            if let Some(ParseNode::String(next)) = tree_iter.peek() {
+                if next.leading_whitespace.is_empty() && ends_in_empty_string(node) {
+                    write!(f, "\"\"\"\"")?;
+                }
+            }
         }
         Ok(())
     }
-- 
2.43.0


From ffd720d5af6d34266f5f16a882d77c7022d1adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 32/36] fix: reject YAML which is malformed after its first
 document

Text such as `{"a": 1}}` or `[a] b` was silently accepted because
reading stopped at the end of the first document.
---
 crates/seam/src/parse/expander.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 77943af..0aa5a4e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2029,6 +2029,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         site: Site<'a>,
         /// What made this YAML impossible to convert (if anything did).
         error: Option<&'static str>,
+        /// Whether the first document is complete (only that one is converted).
+        complete: bool,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -2044,6 +2046,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
 
     impl<'a, 'b> yaml::parser::EventReceiver for EventSink<'a, 'b> {
         fn on_event(&mut self, event: yaml::Event) {
+            if event == yaml::Event::DocumentEnd { self.complete = true; }
+            if self.complete { return; }
             // Only scalars can name variables, so only they can be keys.
             let expecting_key = self.mode == Some(Mode::Map) && self.defining.is_none();
             match event {
@@ -2208,10 +2212,12 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         parent: Vec::new(),
         site: site.clone(),
         error: None,
+        complete: false,
     };
 
+    // Read until the end, such that whatever follows must be well-formed too.
     yaml::parser::Parser::new_from_str(text)
-        .load(&mut sink, false)
+        .load(&mut sink, true)
         .map_err(|err| ExpansionError(
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
-- 
2.43.0


From d766972e17eeca0583d678660020160851917ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 33/36] fix: keep the first line-break of markdown behind
 frontmatter

Rendering text and frontmatter together swallowed the first line ending
which the renderer writes, so that `foo\nbar` became `foobar`; and finding
the frontmatter by building a syntax tree of the whole text panicked for
some texts. Split the frontmatter off first instead.
---
 crates/seam/src/parse/expander.rs | 56 +++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0aa5a4e..74afc3f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -759,7 +759,6 @@ impl<'a> Expander<'a> {
             gfm_strikethrough_single_tilde: false,
             math_text_single_dollar: true,
             constructs: markdown::Constructs {
-                frontmatter: true,
                 gfm_table: true,
                 gfm_task_list_item: true,
                 ..markdown::Constructs::default()
@@ -769,10 +768,13 @@ impl<'a> Expander<'a> {
         // Options.
         let options = markdown::Options { parse: flavour, compile: danger, };
 
+        // The frontmatter is no part of the markdown itself.
+        let (frontmatter, contents) = split_frontmatter(&contents);
+
         // How to convert to HTML.
         let to_html = | | -> Result<ParseTree, _> {
             // Convert to HTML.
-            let html = match markdown::to_html_with_options(contents.as_ref(), &options) {
+            let html = match markdown::to_html_with_options(contents, &options) {
                 Ok(html) => html,
                 Err(err) => return Err(ExpansionError(
                     format!("Failed to render markdown: {}", err),
@@ -791,29 +793,18 @@ impl<'a> Expander<'a> {
 
         // How to extract front-matter.
         let extract_frontmatter = | | -> Result<(), _> {
-            use markdown::mdast;
-            let ast = match markdown::to_mdast(contents.as_ref(), &options.parse) {
-                Ok(ast) => ast,
-                Err(err) => return Err(ExpansionError(
-                    format!("Failed to render markdown: {}", err),
-                    args.number.1.site.to_owned(),
-                ))
-            };
-            let mdast::Node::Root(root) = ast else { unreachable!() };
-            let root = root.children;
-            let root: &[mdast::Node] = root.as_ref();
-            match root {
-                [mdast::Node::Yaml(mdast::Yaml { value: yaml, .. }), ..] => {
+            match frontmatter {
+                Some(("---", yaml)) => {
                     // Parse the YAML and convert it into macro definitions.
                     let _ = expand_yaml(self, yaml, &sep, node.site())?;
                     Ok(())
                 },
-                [mdast::Node::Toml(mdast::Toml { value: toml, .. }), ..] => {
+                Some((_, toml)) => {
                     // Parse the TOML and convert it into macro definitions.
                     let _ = expand_toml(self, toml, &sep, node.site())?;
                     Ok(())
                 },
-                _ => return Err(ExpansionError::new(
+                None => return Err(ExpansionError::new(
                     "This markdown does not contain any frontmatter.",
                     &args.number.1.site,
                 ))
@@ -1950,6 +1941,37 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Splits markdown into its frontmatter (the fence, and what is fenced) and the rest.
+/// The fences are lines of `---` (for YAML) or `+++` (for TOML), the first of which
+/// has to be the first line of the text.
+fn split_frontmatter(text: &str) -> (Option<(&str, &str)>, &str) {
+    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
+    let fence = match text.get(..3) {
+        Some(fence @ ("---" | "+++")) => fence,
+        _ => return (None, text),
+    };
+    let is_fence = |line: &str| line.trim_end_matches([' ', '\t']) == fence;
+    let mut content_start = None;
+    let mut start = 0;
+    for line in text.split_inclusive(['\n', '\r']) {
+        let end = start + line.len();
+        let line = line.trim_end_matches(['\n', '\r']);
+        match content_start {
+            None if is_fence(line) => content_start = Some(end),
+            None => break,
+            Some(content) if is_fence(line) => {
+                let rest = &text[end..];
+                let carriage_return = text[..end].ends_with('\r');
+                let rest = rest.strip_prefix('\n').filter(|_| carriage_return).unwrap_or(rest);
+                return (Some((fence, &text[content..start])), rest);
+            },
+            Some(_) => {},
+        }
+        start = end;
+    }
+    (None, text)
+}
+
 /// Check a `%format` string for what would make `formatx` panic:
 /// curly braces which do not pair up, and widths (or precisions) too big to format.
 fn is_valid_format_string(template: &str) -> bool {
-- 
2.43.0


From 79a6177188ddae56b4e5e009108c088569955bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 34/36] fix: report markdown which the renderer panics on

Text such as `a\n---\n---\nb\n---` makes the markdown library panic; turn
that into an error.
---
 crates/seam/src/parse/expander.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 74afc3f..d5c22d8 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -773,13 +773,18 @@ impl<'a> Expander<'a> {
 
         // How to convert to HTML.
         let to_html = | | -> Result<ParseTree, _> {
-            // Convert to HTML.
-            let html = match markdown::to_html_with_options(contents, &options) {
-                Ok(html) => html,
-                Err(err) => return Err(ExpansionError(
+            // Convert to HTML (some odd texts make the renderer panic).
+            let render = || markdown::to_html_with_options(contents, &options);
+            let html = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(render)) {
+                Ok(Ok(html)) => html,
+                Ok(Err(err)) => return Err(ExpansionError(
                     format!("Failed to render markdown: {}", err),
                     args.number.1.site.to_owned(),
-                ))
+                )),
+                Err(_) => return Err(ExpansionError::new(
+                    "Failed to render markdown: the renderer does not support this text.",
+                    &args.number.1.site,
+                )),
             };
             // Return the raw html.
             Ok(Box::new([
-- 
2.43.0


From d810be471cfb4bf5582febaa5fbc6e8c738bc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 35/36] fix: list missing format values in a fixed order

---
 crates/seam/src/parse/expander.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index d5c22d8..f7eb88f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1152,9 +1152,21 @@ impl<'a> Expander<'a> {
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
             ])),
-            Err(err) => Err(ExpansionError(
-                format!("Failed to format string: {}", err.message()),
-                format_str.site.clone()))
+            Err(err) => {
+                // Missing placeholders are listed in no particular order.
+                let message = restore(&err.message());
+                let message = match message.split_once(": ") {
+                    Some((problem, names)) => {
+                        let mut names: Vec<&str> = names.split(", ").collect();
+                        names.sort_unstable();
+                        format!("{}: {}", problem, names.join(", "))
+                    },
+                    None => message,
+                };
+                Err(ExpansionError(
+                    format!("Failed to format string: {}", message),
+                    format_str.site.clone()))
+            }
         }
     }
 
-- 
2.43.0


From 66e7ef59677d1a70d7b5615533c3f4c7f3bdb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 36/36] fix: name the escape that is invalid in its error
 message

The index of an invalid escape counts bytes and is that of its backslash, so
the message named the backslash, or after characters beyond ASCII some other
character or none at all.
---
 crates/seam/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 84a3671..ab78a75 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -540,7 +540,7 @@ fn escape_string<'a>(string: &'a str, site: &Site<'a>) -> Result<String, LexErro
         .map_err(|invalid| {
             LexError(
                 format!("Invalid escape `\\{}' at byte-index {}.",
-                    string.chars().nth(invalid.index).unwrap_or('?'), invalid.index),
+                    string[invalid.index..].chars().nth(1).unwrap_or('?'), invalid.index),
                 site.clone())
         })
 }
-- 
2.43.0

