From 29bd3c5ecc36db228f3cf543a431cd75a524e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 01/40] verif: export crate-private items to verification
 builds (cfg ginko_verif)

---
 ginko/src/dts/ast.rs |  7 +++++++
 ginko/src/dts/mod.rs | 17 +++++++++++++++++
 ginko/src/lib.rs     |  2 ++
 3 files changed, 26 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index a46cfcb..25625b4 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -414,6 +414,13 @@ impl Memreserve {
     }
 }
 
+#[cfg(ginko_verif)]
+impl Memreserve {
+    pub fn verif_parts(&self) -> (&WithToken<u64>, &WithToken<u64>) {
+        (&self.address, &self.length)
+    }
+}
+
 impl Display for Memreserve {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
diff --git a/ginko/src/dts/mod.rs b/ginko/src/dts/mod.rs
index 0ea2ce3..d01931b 100644
--- a/ginko/src/dts/mod.rs
+++ b/ginko/src/dts/mod.rs
@@ -21,3 +21,20 @@ pub use parser::Parser;
 pub use parser::ParserContext;
 pub use project::Project;
 pub use visitor::ItemAtCursor;
+
+/// Re-exports of crate-private items for the verification harnesses.
+/// Only present when built with `RUSTFLAGS="--cfg ginko_verif"`.
+#[cfg(ginko_verif)]
+pub mod verif_hooks {
+    pub use super::ast::{
+        Cell, DtsFile, Include, Memreserve, NodeName, Path, Property, PropertyValue, Reference,
+        ReferencedNode, WithToken,
+    };
+    pub use super::data::HasSource;
+    pub use super::import_guard::{CyclicDependencyError, ImportGuard};
+    pub use super::project::ProjectFile;
+    pub use super::reader::{ByteReader, Reader};
+    pub use super::tokens::{
+        CompilerDirective, Lexer, PeekingLexer, Reference as TokenReference, Token, TokenKind,
+    };
+}
diff --git a/ginko/src/lib.rs b/ginko/src/lib.rs
index 664d030..1a99e08 100644
--- a/ginko/src/lib.rs
+++ b/ginko/src/lib.rs
@@ -1,2 +1,4 @@
 #![warn(rust_2018_idioms)]
+// the cfg `ginko_verif` is set by verification builds only
+#[allow(unexpected_cfgs)]
 pub mod dts;
-- 
2.43.0


From 703aaa93866e476383437b0bd574931c0b70e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 02/40] fix: render diagnostics whose span covers several lines
 without panicking

---
 ginko/src/dts/diagnostics.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..a9dcb28 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -198,11 +197,14 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
+        // only the first line is shown; spans that continue on another line
+        // are underlined up to the end of that first line
+        let end_character = if start.line() == end.line() {
+            end.character()
         } else {
-            end.character() - start.character()
+            line.chars().count() as u32
         };
+        let len = end_character.saturating_sub(start.character()).max(1);
         write!(
             f,
             "{} | {}{}",
-- 
2.43.0


From 506516c86cc0b282c27ccb8369293fd5b1824cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 03/40] fix: report a label or /omit-if-no-ref/ that is
 followed by nothing

A label or an /omit-if-no-ref/ directive directly before the closing brace of
a node was silently accepted and dropped.
---
 ginko/src/dts/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..6d7ed11 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -509,6 +509,14 @@ where
             let ident = match &tok.kind {
                 TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
                 TokenKind::CloseBrace => {
+                    if label.is_some() || omit_if_no_ref.is_some() {
+                        // a label or directive needs something that it applies to
+                        self.diagnostics.push(Diagnostic::expected(
+                            tok.span(),
+                            tok.source(),
+                            &[TokenKind::Ident("".to_string())],
+                        ));
+                    }
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From ceb13b0d21a35a71894c0df5af46dc76dfb5c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 04/40] fix: point at the illegal character in unit addresses
 and paths

The position of an illegal character was computed relative to the start of
the token, not to the start of the name part that contains the character.
---
 ginko/src/dts/data.rs   |  8 ++++++++
 ginko/src/dts/parser.rs | 44 ++++++++++++++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/data.rs b/ginko/src/dts/data.rs
index 89ef8e6..2641c90 100644
--- a/ginko/src/dts/data.rs
+++ b/ginko/src/dts/data.rs
@@ -134,6 +134,14 @@ impl Position {
         )
     }
 
+    /// Returns the position after the given text, when that text begins at this position.
+    pub fn after(&self, text: &str) -> Position {
+        text.chars().fold(*self, |pos, ch| match ch {
+            '\n' => Position::new(pos.line() + 1, 0),
+            _ => pos.offset_by_char(1),
+        })
+    }
+
     /// Returns the zero-length span that is formed by this position repeated
     ///```
     /// use ginko::dts::{Position, Span};
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 6d7ed11..9c41a40 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -2,7 +2,7 @@ use crate::dts::ast::{
     AnyDirective, Cell, DtsFile, Include, Memreserve, Node, NodeItem, NodeName, NodePayload, Path,
     Primary, Property, PropertyValue, ReferencedNode, WithToken,
 };
-use crate::dts::data::{HasSource, Span};
+use crate::dts::data::{HasSource, Position, Span};
 use crate::dts::diagnostics::{Diagnostic, NameContext};
 use crate::dts::error_codes::ErrorCode;
 use crate::dts::reader::{ByteReader, Reader};
@@ -70,9 +70,11 @@ where
         let _ = self.lexer.next();
     }
 
+    /// Checks the name `str`, which begins at `start` and belongs to the token at `span`.
     fn check_ident<F1, F2>(
         &mut self,
         span: Span,
+        start: Position,
         str: &str,
         predicate: F1,
         starting_chars: F2,
@@ -83,7 +85,7 @@ where
     {
         if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) {
             self.diagnostics.push(Diagnostic::new(
-                span.start().offset_by_char(pos as i32).as_char_span(),
+                start.offset_by_char(pos as i32).as_char_span(),
                 self.lexer.source(),
                 ErrorCode::IllegalChar,
                 format!("Illegal char '{ch}' in {name_context}"),
@@ -118,9 +120,10 @@ where
         }
     }
 
-    fn check_is_label(&mut self, span: Span, str: &str) {
+    fn check_is_label(&mut self, span: Span, start: Position, str: &str) {
         self.check_ident(
             span,
+            start,
             str,
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_'),
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '_'),
@@ -128,20 +131,24 @@ where
         )
     }
 
-    fn check_is_node_name(&mut self, span: Span, name: &NodeName) {
+    fn check_is_node_name(&mut self, span: Span, start: Position, name: &NodeName) {
         if name.unit_address.is_none() && name.name == "__symbols__" {
             return;
         }
         self.check_ident(
             span,
+            start,
             name.name.as_str(),
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
             |ch| ch.is_ascii_alphabetic(),
             NameContext::NodeName,
         );
         if let Some(unit_address) = &name.unit_address {
+            // the unit address follows the name and the '@' sign
+            let address_start = start.after(&name.name).offset_by_char(1);
             self.check_ident(
                 span,
+                address_start,
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -153,6 +160,7 @@ where
     fn check_is_property_name(&mut self, span: Span, str: &str) {
         self.check_ident(
             span,
+            span.start(),
             str,
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-' | '?' | '#'),
             |_| true,
@@ -167,7 +175,12 @@ where
     ) -> WithToken<crate::dts::ast::Reference> {
         match reference {
             Reference::Simple(reference) => {
-                self.check_is_label(token.span, reference);
+                // the label follows the '&' sign
+                self.check_is_label(
+                    token.span,
+                    token.span.start().offset_by_char(1),
+                    reference,
+                );
                 WithToken::new(crate::dts::ast::Reference::Label(reference.clone()), token)
             }
             Reference::Path(path) => {
@@ -178,10 +191,15 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                // the path follows the '&{' characters
+                let mut start = token.span.start().offset_by_char(2);
+                for component in path.split('/') {
+                    if !component.is_empty() {
+                        self.check_is_node_name(token.span(), start, &NodeName::from(component));
+                    }
+                    start = start.after(component).offset_by_char(1);
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
@@ -461,7 +479,7 @@ where
         let tok = self.lexer.expect_next()?;
         if let TokenKind::Ident(value) = tok.kind.clone() {
             let node_name = NodeName::from(value);
-            self.check_is_node_name(tok.span(), &node_name);
+            self.check_is_node_name(tok.span(), tok.span().start(), &node_name);
             return Ok(WithToken::new(node_name, tok));
         }
         Err(Diagnostic::expected(
@@ -498,7 +516,7 @@ where
                 };
             let (tok, label) = match &tok.kind {
                 TokenKind::Label(string) => {
-                    self.check_is_label(tok.span(), string);
+                    self.check_is_label(tok.span(), tok.span().start(), string);
                     (
                         self.lexer.expect_next()?,
                         Some(WithToken::new(string.clone(), tok)),
@@ -534,7 +552,11 @@ where
                 TokenKind::OpenBrace => {
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
-                    self.check_is_node_name(node_name.span(), &node_name);
+                    self.check_is_node_name(
+                        node_name.span(),
+                        node_name.span().start(),
+                        &node_name,
+                    );
                     let payload = self.node_payload()?;
                     items.push(NodeItem::Node(Arc::new(Node {
                         omit_if_no_ref,
-- 
2.43.0


From cd4407f9d50b1f64ec36f0801b16441c18ea1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 05/40] fix: accept references to labels that start with an
 underscore

A label may start with an underscore, but '&_label' was read as an empty
reference followed by a name.
---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..45a3ef4 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -95,7 +95,7 @@ where
                     source: self.source(),
                 })
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-- 
2.43.0


From a57554b5b87c86173664769e3ff586929f4ba6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 06/40] fix: report strings, comments and references cut off by
 the end of the file

The lexer ended the token stream at an unterminated string, block comment or
path reference and at a lone '&' at the end of the file, so that the rest of
the file was silently ignored.
---
 ginko/src/dts/tokens/lexer.rs | 61 ++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 45a3ef4..247f717 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -82,34 +82,45 @@ where
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
-    fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
-        match ch {
-            b'{' => {
+    fn path_or_reference(&mut self, start: Position) -> Token {
+        match self.reader.peek() {
+            Some(b'{') => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
-                Some(Token {
+                if self.reader.consume().is_none() {
+                    return self.unterminated(start, b'&');
+                }
+                Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
                     source: self.source(),
-                })
+                }
             }
-            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
+            Some(b'a'..=b'z' | b'A'..=b'Z' | b'_') => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-                Some(Token {
+                Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Simple(str)),
                     source: self.source(),
-                })
+                }
             }
-            _ => Some(Token {
+            _ => Token {
                 span: start.to(self.reader.pos()),
                 kind: TokenKind::Ref(Reference::Simple("".to_string())),
                 source: self.source(),
-            }),
+            },
+        }
+    }
+
+    /// The token for a construct that begins at `start` with the character `first`
+    /// and that is cut off by the end of the file.
+    fn unterminated(&self, start: Position, first: u8) -> Token {
+        Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(first),
+            source: self.source(),
         }
     }
 
@@ -162,20 +173,22 @@ where
     // precondition: cursor is past first slash
     // /* comment */
     //  ^~~ cursor is here
-    fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
+    fn multi_line_comment(&mut self, pos: Position) -> Token {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(pos, b'/');
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
                         self.reader.skip();
                         let str = String::from_utf8(buf).unwrap();
-                        return Some(Token {
+                        return Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::Comment(str),
                             source: self.source(),
-                        });
+                        };
                     } else {
                         buf.push(ch)
                     }
@@ -214,11 +227,13 @@ where
     // precondition: cursor is past first quote
     // "Hello, World!"
     //  ^~~ cursor is here
-    fn string(&mut self, pos: Position) -> Option<Token> {
+    fn string(&mut self, pos: Position) -> Token {
         let mut is_escaped: bool = false;
         let mut str = String::new();
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(pos, b'"');
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
@@ -233,11 +248,11 @@ where
                         str.push(b'"' as char);
                         is_escaped = false;
                     } else {
-                        return Some(Token {
+                        return Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::String(str),
                             source: self.source(),
-                        });
+                        };
                     }
                 }
                 _ => {
@@ -306,11 +321,11 @@ where
             b'0'..=b'9' => Some(self.number(start_pos)),
             b'&' => {
                 self.reader.skip();
-                self.path_or_reference(start_pos)
+                Some(self.path_or_reference(start_pos))
             }
             b'"' => {
                 self.reader.skip();
-                self.string(start_pos)
+                Some(self.string(start_pos))
             }
             b'/' => {
                 self.reader.skip();
@@ -328,7 +343,7 @@ where
                     }
                     b'*' => {
                         self.reader.skip();
-                        self.multi_line_comment(start_pos)
+                        Some(self.multi_line_comment(start_pos))
                     }
                     b'a'..=b'z' | b'A'..=b'Z' => Some(self.compiler_directive(start_pos)),
                     _ => Some(Token {
-- 
2.43.0


From 51fa18c0ae54f0b953aba67f1e02ee7c85f092a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 07/40] fix: keep non-ASCII characters of strings

Every byte of a multi-byte character was turned into a character of its own.
---
 ginko/src/dts/tokens/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 247f717..462ecd1 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -229,7 +229,7 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Token {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut str: Vec<u8> = vec![];
         loop {
             let Some(ch) = self.reader.consume() else {
                 return self.unterminated(pos, b'"');
@@ -237,7 +237,7 @@ where
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        str.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -245,12 +245,12 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        str.push(b'"');
                         is_escaped = false;
                     } else {
                         return Token {
                             span: pos.to(self.reader.pos()),
-                            kind: TokenKind::String(str),
+                            kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
                         };
                     }
@@ -259,7 +259,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    str.push(ch)
                 }
             }
         }
-- 
2.43.0


From a85b24565470ede38a9f4770ea5c060180af81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:34 +0000
Subject: [PATCH 08/40] fix: count characters instead of bytes in positions

The character offset of a position advanced with every byte of a multi-byte
character, so that diagnostics and LSP ranges were displaced behind one.
---
 ginko/src/dts/reader.rs       |  7 +++++++
 ginko/src/dts/tokens/lexer.rs | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..141bee7 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -38,6 +38,11 @@ pub trait Reader {
     }
 }
 
+/// Whether a byte continues a multi-byte UTF-8 character.
+fn is_continuation_byte(byte: u8) -> bool {
+    byte & 0xC0 == 0x80
+}
+
 pub struct ByteReader {
     data: Box<[u8]>,
     char_pos: usize,
@@ -52,6 +57,8 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
+            // a character advances the position with its last byte
+            _ if self.peek().is_some_and(is_continuation_byte) => {}
             _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
         }
         Some(ch)
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 462ecd1..d77a22b 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -373,7 +373,16 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                self.reader.skip();
+                // the remaining bytes of a multi-byte character
+                while self.reader.skip_if(|ch| ch & 0xC0 == 0x80) {}
+                Some(Token {
+                    kind: Unknown(ch),
+                    span: start_pos.to(self.reader.pos()),
+                    source: self.source(),
+                })
+            }
         }
     }
 }
-- 
2.43.0


From 8028f8d1695a0bcde2e85cc0d48e3bf1cfe42090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 09/40] fix: point behind the previous token, not behind a
 comment, when ';' is missing

---
 ginko/src/dts/tokens/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index d77a22b..b74d18e 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -296,7 +296,6 @@ where
     }
 
     fn consume(&mut self) -> Option<Token> {
-        self.last_pos = self.pos();
         self.skip_whitespace();
         let ch = self.reader.peek()?;
         let start_pos = self.reader.pos();
@@ -518,6 +517,8 @@ where
     type Item = Token;
 
     fn next(&mut self) -> Option<Token> {
+        // the end of the previous token; comments are no tokens
+        self.last_pos = self.pos();
         loop {
             let next = self.consume()?;
             if !matches!(next.kind, TokenKind::Comment(_)) {
-- 
2.43.0


From 4dfebd85e15ea4bafbc87154c272a64cfad7ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 10/40] fix: name the expected token, not the one found, in
 'Expected' messages

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index b74d18e..ccf48ea 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -467,7 +467,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From ff58038c3e5e659fe1329c1a2598c103f978bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 11/40] fix: reject a plus sign in byte strings

---
 ginko/src/dts/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 9c41a40..6133ead 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -303,7 +303,10 @@ where
                 }
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                 for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
-                    match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
+                    // parsed digit by digit as a number may have a sign, but a byte string may not
+                    let digit =
+                        |ch: u8| u8::from_str_radix(std::str::from_utf8(&[ch]).unwrap(), 16);
+                    match digit(first).and_then(|high| Ok(high << 4 | digit(second)?)) {
                         Ok(byte) => bytes.push(byte),
                         Err(err) => {
                             self.diagnostics.push(Diagnostic::parse_int_error(
-- 
2.43.0


From f6054380c01556b49704a3afd12ce8bccfa100e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 12/40] fix: point at the token that is not a number after
 /memreserve/

---
 ginko/src/dts/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 6133ead..ba80960 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -282,8 +282,8 @@ where
                 }
             }
             _ => Err(Diagnostic::expected(
-                self.lexer.last_pos().offset_by_char(1).as_span(),
-                self.lexer.source(),
+                tok.span(),
+                tok.source(),
                 &[TokenKind::UnparsedNumber("".to_string())],
             )),
         }
-- 
2.43.0


From cc76e6f5c6948f554cac48ef274f98283c15049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 13/40] fix: keep the diagnostics found before an unrecoverable
 syntax error

---
 ginko/src/dts/project.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..2f0df1d 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -40,9 +40,13 @@ impl ProjectFile {
         }
     }
 
-    pub fn unrecoverable(err: Diagnostic, source: String, file_type: FileType) -> ProjectFile {
+    pub fn unrecoverable(
+        diagnostics: Vec<Diagnostic>,
+        source: String,
+        file_type: FileType,
+    ) -> ProjectFile {
         ProjectFile {
-            parser_diagnostics: vec![err],
+            parser_diagnostics: diagnostics,
             analysis_diagnostics: vec![],
             file: None,
             source,
@@ -260,8 +264,12 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                // keep what was reported before the parser gave up
+                parser.diagnostics.push(err);
+                self.files.insert(
+                    file_name,
+                    ProjectFile::unrecoverable(parser.diagnostics, text, file_type),
+                );
             }
         };
     }
-- 
2.43.0


From 583fa8b544ddf8b64ac86ba23d23878e45dae3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 14/40] fix: analyze included files before the files that
 include them

---
 ginko/src/dts/project.rs | 52 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 2f0df1d..b246d34 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -132,34 +132,38 @@ impl Project {
     }
 
     /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Included files come before the files that include them.
+    /// The order within an include cycle is unspecified; the analysis reports such cycles.
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
-            }
+        let mut order = Vec::with_capacity(self.files.len());
+        let mut visited = HashSet::new();
+        for path in self.files.keys().sorted() {
+            self.push_includes_first(path, &mut visited, &mut order);
+        }
+        order
+    }
+
+    fn push_includes_first(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        order: &mut Vec<PathBuf>,
+    ) {
+        // Included files that could not be read are not part of the project
+        let Some(file) = self.files.get(path) else {
+            return;
+        };
+        if !visited.insert(path.to_owned()) {
+            return;
         }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
+        if let Some(dts_file) = &file.file {
+            for include in dts_file.elements.iter().filter_map(|el| el.as_include()) {
+                if let Ok(included) = include.path() {
+                    self.push_includes_first(&included, visited, order);
                 }
             }
         }
-        current_order
+        order.push(path.to_owned());
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 680302b496bbe026c5d1deaaa1f277beddf83132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 15/40] fix: do not report errors of a previous revision in
 cyclic includes

---
 ginko/src/dts/project.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index b246d34..75329ac 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -117,6 +117,12 @@ impl Project {
 
         let keys = self.compute_key_order();
 
+        // The results of the previous revision must not leak into this one
+        for file in self.files.values_mut() {
+            file.context = None;
+            file.analysis_diagnostics.clear();
+        }
+
         let mut analysis = Analysis::new();
         for key in &keys {
             let proj_file = self.files.get(key).unwrap();
-- 
2.43.0


From 991c214fefefa646471f5bce38aa8baac15d3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 16/40] fix: report an include that cannot be found once, and
 only while it is missing

---
 ginko/src/dts/project.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 75329ac..cd9d98b 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -285,12 +285,9 @@ impl Project {
     }
 
     fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
-        let canonicalized_path = match include.path() {
-            Ok(path) => path,
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
-            }
+        // Includes that cannot be found are reported by the analysis
+        let Ok(canonicalized_path) = include.path() else {
+            return;
         };
         // Avoids duplicate insertion and cyclic dependencies
         if self.files.contains_key(&canonicalized_path) {
-- 
2.43.0


From 55c92a5340b03680effe07b88f53237979767e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 17/40] fix: resolve labels of nodes that are defined several
 times

---
 ginko/src/dts/analysis.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..25a8efd 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -14,7 +14,7 @@ use std::sync::Arc;
 /// Used when analyzing a device-tree
 #[derive(Clone)]
 enum Labeled {
-    Node(Arc<Node>),
+    Node(Path, Arc<Node>),
     #[allow(unused)]
     Property(Arc<Property>),
 }
@@ -47,7 +47,7 @@ pub struct AnalysisResult {
 impl AnalysisContext {
     pub fn get_node_by_label(&self, label: &str) -> Option<&Arc<Node>> {
         match self.labels.get(label) {
-            Some(Labeled::Node(node)) => Some(node),
+            Some(Labeled::Node(_, node)) => Some(node),
             _ => None,
         }
     }
@@ -82,9 +82,10 @@ impl FileContext<'_> {
     }
 
     pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+        match self.labels.get(label) {
+            Some(Labeled::Node(path, node)) => Some((path, node)),
+            _ => None,
+        }
     }
 }
 
@@ -281,7 +282,10 @@ impl Analysis {
     pub fn analyze_node(&mut self, ctx: &mut FileContext<'_>, node: Arc<Node>, path: Path) {
         if let Some(label) = &node.label {
             ctx.labels
-                .insert(label.item().clone(), Labeled::Node(node.clone()));
+                .insert(
+                label.item().clone(),
+                Labeled::Node(path.clone(), node.clone()),
+            );
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From 86c25b5d93194c87973346d960742ca3ed3a4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 18/40] fix: resolve /omit-if-no-ref/ references and report
 headers after /delete-node/

---
 ginko/src/dts/analysis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 25a8efd..b979d1b 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -144,8 +144,9 @@ impl Analysis {
                         ctx.first_non_include = true;
                         ctx.is_plugin = true
                     }
-                    AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
-                    AnyDirective::DeletedNode(_, reference) => {
+                    AnyDirective::OmitIfNoRef(_, reference)
+                    | AnyDirective::DeletedNode(_, reference) => {
+                        ctx.first_non_include = true;
                         self.resolve_reference(&mut ctx, reference);
                     }
                 },
-- 
2.43.0


From 678798c67cb2fcc3dfa5e072b0098b38b67ce3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 19/40] fix: extend the referenced node, not the root, in
 include files

---
 ginko/src/dts/analysis.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index b979d1b..4152859 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -251,12 +251,8 @@ impl Analysis {
     }
 
     pub fn analyze_referenced_node(&mut self, ctx: &mut FileContext<'_>, node: &ReferencedNode) {
-        let path = if ctx.file_type == FileType::DtSource {
-            self.resolve_reference(ctx, &node.reference)
-        } else {
-            // This is an include; simply assume the 'root' path
-            Path::empty()
-        };
+        // In includes, unknown references are not reported and assume the 'root' path
+        let path = self.resolve_reference(ctx, &node.reference);
         self.analyze_node_payload(ctx, &node.payload, path);
     }
 
-- 
2.43.0


From 0f761703e9d76c1156f4cae94cd4c01508e3a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 20/40] fix: formatting of the previous repairs

---
 ginko/src/dts/analysis.rs |  3 +--
 ginko/src/dts/parser.rs   | 12 ++----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 4152859..d25e223 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -278,8 +278,7 @@ impl Analysis {
 
     pub fn analyze_node(&mut self, ctx: &mut FileContext<'_>, node: Arc<Node>, path: Path) {
         if let Some(label) = &node.label {
-            ctx.labels
-                .insert(
+            ctx.labels.insert(
                 label.item().clone(),
                 Labeled::Node(path.clone(), node.clone()),
             );
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index ba80960..1ec0b19 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -176,11 +176,7 @@ where
         match reference {
             Reference::Simple(reference) => {
                 // the label follows the '&' sign
-                self.check_is_label(
-                    token.span,
-                    token.span.start().offset_by_char(1),
-                    reference,
-                );
+                self.check_is_label(token.span, token.span.start().offset_by_char(1), reference);
                 WithToken::new(crate::dts::ast::Reference::Label(reference.clone()), token)
             }
             Reference::Path(path) => {
@@ -555,11 +551,7 @@ where
                 TokenKind::OpenBrace => {
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
-                    self.check_is_node_name(
-                        node_name.span(),
-                        node_name.span().start(),
-                        &node_name,
-                    );
+                    self.check_is_node_name(node_name.span(), node_name.span().start(), &node_name);
                     let payload = self.node_payload()?;
                     items.push(NodeItem::Node(Arc::new(Node {
                         omit_if_no_ref,
-- 
2.43.0


From 956b4453c6e453a1dd0e8f6b1f758e2cb9d9dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 21/40] fix: exit with an error and do not print OK when there
 are issues

---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From 4515d9c1630234ee0d1065fc738af65b5f1a5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 22/40] fix: find references of directives only when the cursor
 is on them

---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From edfec4ce3f08495b22cc590d72d233c00984bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 23/40] fix: do not panic when a file is opened that is not on
 disk

---
 ginko/src/dts/project.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index cd9d98b..fda1df4 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -75,6 +75,11 @@ impl ProjectFile {
     }
 }
 
+/// The name under which a file is known to the project
+fn canonical_or_verbatim(path: &Path) -> PathBuf {
+    dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -107,10 +112,9 @@ impl Project {
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
     ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
+    /// The file does not need to exist on disk, for example when it was never saved.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = canonical_or_verbatim(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -173,9 +177,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&canonical_or_verbatim(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -305,10 +307,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&canonical_or_verbatim(path))
     }
 }
 
-- 
2.43.0


From 463e9ea3d3b8652b67dd036b0a5fe1eea97c36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 24/40] fix: apply the last of several content changes

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..82298f4 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Every change contains the full text; the last one is the current state
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 2900c09e96a923f300f45a446000384109d9fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 25/40] fix: clear the diagnostics of closed files

---
 ginko_ls/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 82298f4..c0bba86 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -169,10 +169,13 @@ impl LanguageServer for Backend {
     async fn did_save(&self, _: DidSaveTextDocumentParams) {}
 
     async fn did_close(&self, params: DidCloseTextDocumentParams) {
-        let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
+        let uri = params.text_document.uri;
+        let Some(file_path) = self.url_to_file_path(uri.clone()).await else {
             return;
         };
         self.project.write().remove_file(&file_path);
+        // the file is no longer known, so nobody else clears its diagnostics
+        self.client.publish_diagnostics(uri, vec![], None).await
     }
 
     async fn goto_definition(
-- 
2.43.0


From 0c125e80925393e0cc011780676d8ca4041d6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 26/40] fix: jump to the start of included files

---
 ginko_ls/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index c0bba86..f8b3930 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -211,7 +211,7 @@ impl LanguageServer for Backend {
                 {
                     Some(url) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                         url,
-                        ginko_span_to_range(include.span()),
+                        Range::default(),
                     )))),
                     _ => Ok(None),
                 }
-- 
2.43.0


From 2f80f549276dab89b572287ac78fc7a5294e2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:24 +0000
Subject: [PATCH 27/40] fix: let properties without ';' end behind their values

---
 ginko/src/dts/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 1ec0b19..08db508 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -564,7 +564,13 @@ where
                     self.skip_tok();
                     self.check_is_property_name(ident.span(), &ident);
                     let values = self.property_values()?;
-                    let end_tok = self.expect_semicolon()?.unwrap_or(cloned_tok);
+                    // where the property ends when the semicolon is missing
+                    let end_tok = Token {
+                        kind: TokenKind::Semicolon,
+                        span: self.lexer.last_pos().as_span(),
+                        source: self.lexer.source(),
+                    };
+                    let end_tok = self.expect_semicolon()?.unwrap_or(end_tok);
                     if let Some(omit_if_no_ref) = omit_if_no_ref {
                         self.diagnostics.push(Diagnostic::new(
                             omit_if_no_ref.span,
-- 
2.43.0


From b5880587957303411c2ac138ceaae863adc11db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 28/40] fix: see closed files as they are on disk, and includes
 that appear later

---
 ginko/src/dts/project.rs | 34 +++++++++++++++++++++++++++++++++-
 ginko_ls/src/server.rs   |  5 +++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index fda1df4..ceea049 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -117,8 +117,13 @@ impl Project {
         let file_name = canonical_or_verbatim(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
-        self.parse_file(file_name.clone(), text, file_type);
+        self.parse_file(file_name, text, file_type);
+        self.parse_missing_includes();
+        self.analyze_files();
+    }
 
+    /// Second step: Analyze all files.
+    fn analyze_files(&mut self) {
         let keys = self.compute_key_order();
 
         // The results of the previous revision must not leak into this one
@@ -176,8 +181,12 @@ impl Project {
         order.push(path.to_owned());
     }
 
+    /// Removes a file from the project.
+    /// Files that include it see it as it is on disk from now on.
     pub fn remove_file(&mut self, path: &Path) {
         self.files.remove(&canonical_or_verbatim(path));
+        self.parse_missing_includes();
+        self.analyze_files();
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -286,6 +295,29 @@ impl Project {
         };
     }
 
+    /// Parses the files that are included by others, but that are not known yet because they were
+    /// removed from the project or because they did not exist when the including file was parsed.
+    fn parse_missing_includes(&mut self) {
+        let missing = self
+            .files
+            .values()
+            .filter_map(|file| file.file.as_ref())
+            .flat_map(|file| file.elements.iter().filter_map(|el| el.as_include()))
+            .filter_map(|include| include.path().ok())
+            .filter(|path| !self.files.contains_key(path))
+            .sorted()
+            .collect_vec();
+        for path in missing {
+            if self.files.contains_key(&path) {
+                continue;
+            }
+            if let Ok(text) = fs::read_to_string(&path) {
+                let file_type = FileType::from(path.as_path());
+                self.parse_file(path, text, file_type);
+            }
+        }
+    }
+
     fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
         // Includes that cannot be found are reported by the analysis
         let Ok(canonicalized_path) = include.path() else {
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index f8b3930..1de9779 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -174,8 +174,9 @@ impl LanguageServer for Backend {
             return;
         };
         self.project.write().remove_file(&file_path);
-        // the file is no longer known, so nobody else clears its diagnostics
-        self.client.publish_diagnostics(uri, vec![], None).await
+        // if the file is no longer known, nobody else clears its diagnostics
+        self.client.publish_diagnostics(uri, vec![], None).await;
+        self.publish_diagnostics().await
     }
 
     async fn goto_definition(
-- 
2.43.0


From 5410b012897c1aeba758a7470ba8ca8b8a101e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 29/40] fix: report directives cut off by the end of the file

---
 ginko/src/dts/tokens/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index ccf48ea..cfc8079 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -204,6 +204,9 @@ where
     fn compiler_directive(&mut self, pos: Position) -> Token {
         use crate::dts::tokens::CompilerDirective::*;
         let directive = self.read_while(|ch| ch != b'/');
+        if self.reader.peek().is_none() {
+            return self.unterminated(pos, b'/');
+        }
         self.reader.skip();
         let directive_string = String::from_utf8(directive).unwrap();
         let directive = match directive_string.as_str() {
-- 
2.43.0


From 0386f60ff3d4280e1d88aab2dd8f639ac777649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:21 +0000
Subject: [PATCH 30/40] fix: do not exhaust the stack on deeply nested nodes

---
 ginko/src/dts/parser.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 08db508..0465089 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -26,8 +26,15 @@ where
     lexer: PeekingLexer<R>,
     pub diagnostics: Vec<Diagnostic>,
     pub context: ParserContext,
+    /// How many nodes enclose the current position
+    depth: usize,
 }
 
+/// How deep nodes may be nested. The parser (and what works on its tree) is recursive, so that
+/// nodes that are nested without bounds exhaust the stack.
+/// This is more than what users of a device-tree support: the limit of Linux is 64.
+const MAX_DEPTH: usize = 128;
+
 type Result<T> = std::result::Result<T, Diagnostic>;
 
 impl<R> Parser<R>
@@ -39,6 +46,7 @@ where
             lexer: PeekingLexer::from(lexer),
             diagnostics: vec![],
             context,
+            depth: 0,
         }
     }
 }
@@ -54,6 +62,7 @@ impl Parser<ByteReader> {
             lexer: lexer.into(),
             diagnostics: vec![],
             context,
+            depth: 0,
         }
     }
 }
@@ -489,6 +498,21 @@ where
     }
 
     pub fn node_payload(&mut self) -> Result<NodePayload> {
+        if self.depth == MAX_DEPTH {
+            let tok = self.lexer.expect_next()?;
+            return Err(Diagnostic::from_token(
+                tok,
+                ErrorCode::ParserError,
+                "Nodes are nested too deeply",
+            ));
+        }
+        self.depth += 1;
+        let payload = self.node_items();
+        self.depth -= 1;
+        payload
+    }
+
+    fn node_items(&mut self) -> Result<NodePayload> {
         let end: Token;
         self.lexer.expect(TokenKind::OpenBrace)?;
         let mut items: Vec<NodeItem> = vec![];
-- 
2.43.0


From 184e8bb322ec258de0cc9447c8cf1e2f74e0a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 31/40] fix: ignore include directories that do not exist

---
 ginko/src/dts/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index ceea049..7cf3187 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -91,7 +91,7 @@ impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
     }
 
-- 
2.43.0


From 57bb217ab77ad0cd0c8aece1f71e5cf8ec66399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 32/40] fix: do not take documents of other schemes for files

---
 ginko_ls/src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 1de9779..1c1fed1 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -72,8 +72,9 @@ impl Backend {
 
     async fn url_to_file_path(&self, url: Url) -> Option<PathBuf> {
         match url.to_file_path() {
-            Ok(path) => Some(path),
-            Err(_) => {
+            // other schemes, such as git:, may contain the path of a file as well
+            Ok(path) if url.scheme() == "file" => Some(path),
+            _ => {
                 self.client
                     .show_message(
                         MessageType::ERROR,
-- 
2.43.0


From 8a4c0588488d3fb35b66318bdf5f8f6472757104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:08 +0000
Subject: [PATCH 33/40] fix: report includes that cannot be read in every
 revision

---
 ginko/src/dts/analysis.rs |  5 +++++
 ginko/src/dts/project.rs  | 17 ++++++-----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index d25e223..fb2ee7e 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -7,6 +7,7 @@ use crate::dts::error_codes::ErrorCode;
 use crate::dts::import_guard::ImportGuard;
 use crate::dts::{Diagnostic, FileType, Position, Project};
 use std::collections::HashMap;
+use std::fs;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
 
@@ -193,6 +194,10 @@ impl Analysis {
             return;
         }
         let Some(proj_file) = ctx.project.get_file(&path) else {
+            // every included file that can be read is part of the project
+            if let Err(err) = fs::read_to_string(&path) {
+                ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
+            }
             return;
         };
         if proj_file.has_errors(&ctx.project.severities) {
diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 7cf3187..2b8e335 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -278,7 +278,7 @@ impl Project {
                 file.elements
                     .iter()
                     .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(&mut parser.diagnostics, include));
+                    .for_each(|include| self.parse_included_file(include));
                 self.files.insert(
                     file_name,
                     ProjectFile::parsed(parser.diagnostics, file, file_type, text),
@@ -318,8 +318,8 @@ impl Project {
         }
     }
 
-    fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
-        // Includes that cannot be found are reported by the analysis
+    fn parse_included_file(&mut self, include: &Include) {
+        // Includes that cannot be found or read are reported by the analysis
         let Ok(canonicalized_path) = include.path() else {
             return;
         };
@@ -327,14 +327,9 @@ impl Project {
         if self.files.contains_key(&canonicalized_path) {
             return;
         }
-        match fs::read_to_string(&canonicalized_path) {
-            Ok(text) => {
-                let typ = FileType::from(canonicalized_path.as_path());
-                self.parse_file(canonicalized_path, text, typ);
-            }
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err))
-            }
+        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
+            let typ = FileType::from(canonicalized_path.as_path());
+            self.parse_file(canonicalized_path, text, typ);
         }
     }
 
-- 
2.43.0


From 52589f9912f24f5f43d2e7ded6a0810d963ccc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 34/40] fix: apply changed include paths to files that are
 already known

---
 ginko/src/dts/project.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 2b8e335..0c6e8dc 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -88,11 +88,18 @@ pub struct Project {
 }
 
 impl Project {
+    /// Sets the directories in which included files are searched.
+    /// Re-evaluates all files that are already present.
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
             .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
+        let files = std::mem::take(&mut self.files);
+        for (path, file) in files.into_iter().sorted_by(|a, b| a.0.cmp(&b.0)) {
+            self.parse_file(path, file.source, file.file_type);
+        }
+        self.analyze_files();
     }
 
     pub fn add_file(&mut self, file_name: String) -> Result<(), io::Error> {
-- 
2.43.0


From 7853ccef621f6fe997f5993a6513b24f9ebde90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 35/40] fix: count UTF-16 code units in the language server

---
 ginko_ls/src/server.rs | 154 +++++++++++++++++++++++------------------
 1 file changed, 85 insertions(+), 69 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 1c1fed1..16440b6 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -6,7 +6,7 @@ use itertools::Itertools;
 use parking_lot::RwLock;
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use tower_lsp::jsonrpc::Result;
 use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer};
@@ -47,19 +47,58 @@ fn lsp_severity_from_severity(severity_level: Severity) -> DiagnosticSeverity {
     }
 }
 
-fn lsp_range_from_span(span: Span) -> Range {
-    Range::new(lsp_pos_from_pos(span.start()), lsp_pos_from_pos(span.end()))
-}
+/// The lines of a source file.
+/// Ginko counts characters, but the protocol counts UTF-16 code units within a line.
+struct Lines<'a>(Vec<&'a str>);
+
+impl<'a> Lines<'a> {
+    fn new(source: &'a str) -> Lines<'a> {
+        Lines(source.split('\n').collect())
+    }
+
+    fn of_file(project: &'a Project, path: &Path) -> Lines<'a> {
+        Lines::new(project.get_file(path).map_or("", |file| file.source()))
+    }
+
+    fn line(&self, line: u32) -> &'a str {
+        self.0.get(line as usize).copied().unwrap_or_default()
+    }
+
+    fn lsp_position(&self, pos: ginko::dts::Position) -> Position {
+        let surrogates = self
+            .line(pos.line())
+            .chars()
+            .take(pos.character() as usize)
+            .filter(|ch| ch.len_utf16() == 2)
+            .count();
+        Position::new(pos.line(), pos.character() + surrogates as u32)
+    }
+
+    fn lsp_range(&self, span: Span) -> Range {
+        Range::new(
+            self.lsp_position(span.start()),
+            self.lsp_position(span.end()),
+        )
+    }
 
-fn lsp_pos_from_pos(pos: ginko::dts::Position) -> Position {
-    Position::new(pos.line(), pos.character())
+    fn ginko_position(&self, pos: Position) -> ginko::dts::Position {
+        let (mut units, mut character) = (0, 0);
+        for ch in self.line(pos.line).chars() {
+            units += ch.len_utf16() as u32;
+            if units > pos.character {
+                return ginko::dts::Position::new(pos.line, character);
+            }
+            character += 1;
+        }
+        ginko::dts::Position::new(pos.line, character + (pos.character - units))
+    }
 }
 
 impl Backend {
-    fn lsp_diag_from_diag(&self, diagnostic: &ginko::dts::Diagnostic) -> Diagnostic {
+    fn lsp_diag_from_diag(&self, diagnostic: &ginko::dts::Diagnostic, lines: &Lines) -> Diagnostic {
         let span = diagnostic.span();
         Diagnostic {
-            range: lsp_range_from_span(span),
+            range: lines.lsp_range(span),
             message: diagnostic.message.clone(),
             code: Some(NumberOrString::String(diagnostic.kind.as_ref().to_string())),
             severity: Some(lsp_severity_from_severity(
@@ -94,12 +133,14 @@ impl Backend {
             .map(|file| file.to_owned())
             .collect_vec();
         for file in file_paths {
-            let diagnostics = self
-                .project
-                .read()
-                .get_diagnostics(&file)
-                .map(|diag| self.lsp_diag_from_diag(diag))
-                .collect_vec();
+            let diagnostics = {
+                let project = self.project.read();
+                let lines = Lines::of_file(&project, &file);
+                project
+                    .get_diagnostics(&file)
+                    .map(|diag| self.lsp_diag_from_diag(diag, &lines))
+                    .collect_vec()
+            };
             self.client
                 .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)
                 .await
@@ -190,8 +231,9 @@ impl LanguageServer for Backend {
         else {
             return Ok(None);
         };
-        let pos = position_to_ginko_position(params.text_document_position_params.position);
         let project = self.project.read();
+        let pos = Lines::of_file(&project, &file_path)
+            .ginko_position(params.text_document_position_params.position);
         let Some(item) = project.find_at_pos(&file_path, &pos) else {
             return Ok(None);
         };
@@ -199,8 +241,8 @@ impl LanguageServer for Backend {
             ItemAtCursor::Reference(reference) => {
                 match project.get_node_position(&file_path, reference) {
                     Some((span, path)) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
-                        Url::from_file_path(path).unwrap(),
-                        ginko_span_to_range(span),
+                        Url::from_file_path(&path).unwrap(),
+                        Lines::of_file(&project, &path).lsp_range(span),
                     )))),
                     None => Ok(None),
                 }
@@ -229,8 +271,9 @@ impl LanguageServer for Backend {
         else {
             return Ok(None);
         };
-        let pos = position_to_ginko_position(params.text_document_position_params.position);
         let project = self.project.read();
+        let pos = Lines::of_file(&project, &file_path)
+            .ginko_position(params.text_document_position_params.position);
         let Some(item) = project.find_at_pos(&file_path, &pos) else {
             return Ok(None);
         };
@@ -263,8 +306,9 @@ impl LanguageServer for Backend {
         let Some(root) = project.get_root(&file_path) else {
             return Ok(None);
         };
+        let lines = Lines::of_file(&project, &file_path);
         #[allow(deprecated)]
-        fn node_payload_to_symbol(payload: &NodePayload) -> Vec<DocumentSymbol> {
+        fn node_payload_to_symbol(payload: &NodePayload, lines: &Lines) -> Vec<DocumentSymbol> {
             let mut children: Vec<DocumentSymbol> = Vec::new();
             for el in &payload.items {
                 let document_symbol = match el {
@@ -274,22 +318,19 @@ impl LanguageServer for Backend {
                         kind: SymbolKind::PROPERTY,
                         tags: None,
                         deprecated: None,
-                        range: ginko_span_to_range(prop.span()),
-                        selection_range: ginko_span_to_range(prop.name.span()),
+                        range: lines.lsp_range(prop.span()),
+                        selection_range: lines.lsp_range(prop.name.span()),
                         children: None,
                     },
-                    NodeItem::Node(node) => node_to_symbol(node),
+                    NodeItem::Node(node) => node_to_symbol(node, lines),
                     NodeItem::DeletedNode(start_tok, deleted_node) => DocumentSymbol {
                         name: format!("{}", deleted_node.item()),
                         detail: None,
                         kind: SymbolKind::MODULE,
                         tags: Some(vec![SymbolTag::DEPRECATED]),
                         deprecated: None,
-                        range: ginko_span_to_range(Span::new(
-                            start_tok.start(),
-                            deleted_node.end(),
-                        )),
-                        selection_range: ginko_span_to_range(deleted_node.span()),
+                        range: lines.lsp_range(Span::new(start_tok.start(), deleted_node.end())),
+                        selection_range: lines.lsp_range(deleted_node.span()),
                         children: None,
                     },
                     NodeItem::DeletedProperty(start_tok, deleted_property) => DocumentSymbol {
@@ -298,11 +339,9 @@ impl LanguageServer for Backend {
                         kind: SymbolKind::PROPERTY,
                         tags: Some(vec![SymbolTag::DEPRECATED]),
                         deprecated: None,
-                        range: ginko_span_to_range(Span::new(
-                            start_tok.start(),
-                            deleted_property.end(),
-                        )),
-                        selection_range: ginko_span_to_range(deleted_property.span()),
+                        range: lines
+                            .lsp_range(Span::new(start_tok.start(), deleted_property.end())),
+                        selection_range: lines.lsp_range(deleted_property.span()),
                         children: None,
                     },
                 };
@@ -311,16 +350,16 @@ impl LanguageServer for Backend {
             children
         }
         #[allow(deprecated)]
-        fn node_to_symbol(node: &Node) -> DocumentSymbol {
+        fn node_to_symbol(node: &Node, lines: &Lines) -> DocumentSymbol {
             DocumentSymbol {
                 name: node.name.name.clone(),
                 detail: None,
                 kind: SymbolKind::MODULE,
                 tags: None,
                 deprecated: None,
-                range: ginko_span_to_range(node.span()),
-                selection_range: ginko_span_to_range(node.name.span()),
-                children: Some(node_payload_to_symbol(&node.payload)),
+                range: lines.lsp_range(node.span()),
+                selection_range: lines.lsp_range(node.name.span()),
+                children: Some(node_payload_to_symbol(&node.payload, lines)),
             }
         }
         #[allow(deprecated)]
@@ -328,16 +367,16 @@ impl LanguageServer for Backend {
             .elements
             .iter()
             .filter_map(|el| match el {
-                Primary::Root(node) => Some(node_to_symbol(node)),
+                Primary::Root(node) => Some(node_to_symbol(node, &lines)),
                 Primary::ReferencedNode(ref_node) => Some(DocumentSymbol {
                     name: format!("{}", ref_node.reference),
                     detail: None,
                     kind: SymbolKind::MODULE,
                     tags: None,
                     deprecated: None,
-                    range: ginko_span_to_range(ref_node.span()),
-                    selection_range: ginko_span_to_range(ref_node.reference.span()),
-                    children: Some(node_payload_to_symbol(&ref_node.payload)),
+                    range: lines.lsp_range(ref_node.span()),
+                    selection_range: lines.lsp_range(ref_node.reference.span()),
+                    children: Some(node_payload_to_symbol(&ref_node.payload, &lines)),
                 }),
                 Primary::Directive(AnyDirective::Include(include)) => Some(DocumentSymbol {
                     name: format!("include {}", include.file_name.item()),
@@ -345,8 +384,8 @@ impl LanguageServer for Backend {
                     kind: SymbolKind::FILE,
                     tags: None,
                     deprecated: None,
-                    range: ginko_span_to_range(include.span()),
-                    selection_range: ginko_span_to_range(include.file_name.span()),
+                    range: lines.lsp_range(include.span()),
+                    selection_range: lines.lsp_range(include.file_name.span()),
                     children: None,
                 }),
                 Primary::Directive(AnyDirective::DeletedNode(token, ref_node)) => {
@@ -356,8 +395,8 @@ impl LanguageServer for Backend {
                         kind: SymbolKind::MODULE,
                         tags: Some(vec![SymbolTag::DEPRECATED]),
                         deprecated: None,
-                        range: ginko_span_to_range(Span::new(token.start(), ref_node.end())),
-                        selection_range: ginko_span_to_range(ref_node.span()),
+                        range: lines.lsp_range(Span::new(token.start(), ref_node.end())),
+                        selection_range: lines.lsp_range(ref_node.span()),
                         children: None,
                     })
                 }
@@ -368,8 +407,8 @@ impl LanguageServer for Backend {
                         kind: SymbolKind::FIELD,
                         tags: None,
                         deprecated: None,
-                        range: ginko_span_to_range(Span::new(token.start(), ref_node.end())),
-                        selection_range: ginko_span_to_range(ref_node.span()),
+                        range: lines.lsp_range(Span::new(token.start(), ref_node.end())),
+                        selection_range: lines.lsp_range(ref_node.span()),
                         children: None,
                     })
                 }
@@ -379,26 +418,3 @@ impl LanguageServer for Backend {
         Ok(Some(DocumentSymbolResponse::Nested(nodes)))
     }
 }
-
-fn ginko_span_to_range(span: Span) -> Range {
-    Range::new(
-        ginko_position_to_position(span.start()),
-        ginko_position_to_position(span.end()),
-    )
-}
-
-#[allow(unused)]
-fn range_to_ginko_span(range: Range) -> Span {
-    Span::new(
-        position_to_ginko_position(range.start),
-        position_to_ginko_position(range.end),
-    )
-}
-
-fn position_to_ginko_position(position: Position) -> ginko::dts::Position {
-    ginko::dts::Position::new(position.line, position.character)
-}
-
-fn ginko_position_to_position(position: ginko::dts::Position) -> Position {
-    Position::new(position.line(), position.character())
-}
-- 
2.43.0


From 89b3d67cc358676d90c0b212bb3cb3549d40c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:57 +0000
Subject: [PATCH 36/40] fix: closing a file also forgets the files that only it
 included

---
 ginko/src/dts/project.rs | 19 +++++++++++++++++--
 ginko_ls/src/server.rs   | 15 +++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 0c6e8dc..402007c 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -83,6 +83,8 @@ fn canonical_or_verbatim(path: &Path) -> PathBuf {
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
+    /// The files that were added, as opposed to those that are known because they are included
+    added: HashSet<PathBuf>,
     pub include_paths: Vec<PathBuf>,
     pub severities: SeverityMap,
 }
@@ -124,6 +126,7 @@ impl Project {
         let file_name = canonical_or_verbatim(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
+        self.added.insert(file_name.clone());
         self.parse_file(file_name, text, file_type);
         self.parse_missing_includes();
         self.analyze_files();
@@ -188,14 +191,26 @@ impl Project {
         order.push(path.to_owned());
     }
 
-    /// Removes a file from the project.
+    /// Removes a file from the project, and the files that only it included.
     /// Files that include it see it as it is on disk from now on.
     pub fn remove_file(&mut self, path: &Path) {
-        self.files.remove(&canonical_or_verbatim(path));
+        let path = canonical_or_verbatim(path);
+        self.files.remove(&path);
+        self.added.remove(&path);
         self.parse_missing_includes();
+        self.forget_unused_files();
         self.analyze_files();
     }
 
+    /// Forgets the files that were neither added nor are included by a file that was added
+    fn forget_unused_files(&mut self) {
+        let mut used = HashSet::new();
+        for path in &self.added {
+            self.push_includes_first(path, &mut used, &mut Vec::new());
+        }
+        self.files.retain(|path, _| used.contains(path));
+    }
+
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
         let Some(file) = self.get_file(path) else {
             return Box::new(empty());
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 16440b6..45742f0 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -215,9 +215,20 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(uri.clone()).await else {
             return;
         };
-        self.project.write().remove_file(&file_path);
-        // if the file is no longer known, nobody else clears its diagnostics
+        let forgotten = {
+            let mut project = self.project.write();
+            let mut files = project.files().map(|file| file.to_owned()).collect_vec();
+            project.remove_file(&file_path);
+            files.retain(|file| project.get_file(file).is_none());
+            files
+        };
+        // if a file is no longer known, nobody else clears its diagnostics
         self.client.publish_diagnostics(uri, vec![], None).await;
+        for file in forgotten {
+            self.client
+                .publish_diagnostics(Url::from_file_path(&file).unwrap(), vec![], None)
+                .await;
+        }
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 046724be44bf555497d87c70c7514ce8baa25c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 37/40] fix: Print bytes of byte strings with two digits

---
 ginko/src/dts/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 25625b4..037adf4 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -258,7 +258,7 @@ impl Display for PropertyValue {
                 write!(f, "[")?;
                 for (i, numbers) in strings.iter().enumerate() {
                     for num in &numbers.item {
-                        write!(f, "{num:2x}")?;
+                        write!(f, "{num:02x}")?;
                     }
                     if i != strings.len() - 1 {
                         write!(f, " ")?;
-- 
2.43.0


From 9363e09c438ecc864cbc5b2fecf82098cd9615b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 38/40] fix: Print exactly one semicolon behind deletions and
 memory reservations

---
 ginko/src/dts/ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 037adf4..746be2e 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -358,9 +358,9 @@ impl Display for NodeItem {
         match self {
             NodeItem::Property(property) => write!(f, "{}", property),
             NodeItem::Node(node) => write!(f, "{}", node),
-            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {}", node_name),
+            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {};", node_name),
             NodeItem::DeletedProperty(_, property_name) => {
-                write!(f, "/delete-property/ {}", property_name)
+                write!(f, "/delete-property/ {};", property_name)
             }
         }
     }
@@ -506,7 +506,7 @@ impl Display for AnyDirective {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             AnyDirective::DtsHeader(_) => write!(f, "/dts-v1/;"),
-            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve};"),
+            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve}"),
             AnyDirective::Include(include) => write!(f, "{include}"),
             AnyDirective::Plugin(_) => write!(f, "/plugin/;"),
             AnyDirective::DeletedNode(_, reference) => write!(f, "/delete-node/ {reference};"),
-- 
2.43.0


From 3d82e8fb84e13e53214fef1ceb37633027dcc774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:33 +0000
Subject: [PATCH 39/40] fix: Print strings and names of included files as they
 are written in a source file

---
 ginko/src/dts/ast.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 746be2e..08cb8e5 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -206,6 +206,16 @@ impl Display for Cell {
     }
 }
 
+/// Displays a string the way it is written in a source file
+struct Quoted<'a>(&'a str);
+
+impl Display for Quoted<'_> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        let escaped = self.0.replace('\\', "\\\\").replace('"', "\\\"");
+        write!(f, "\"{escaped}\"")
+    }
+}
+
 // LRM 2.2.4 Property Values
 #[derive(Eq, PartialEq, Debug)]
 pub enum PropertyValue {
@@ -241,7 +251,7 @@ impl Display for PropertyValue {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self {
             PropertyValue::String(string) => {
-                write!(f, "\"{string}\"")
+                write!(f, "{}", Quoted(string))
             }
             PropertyValue::Cells(_, numbers, _) => {
                 write!(f, "<")?;
@@ -473,7 +483,7 @@ impl HasSource for Include {
 
 impl Display for Include {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "/include/ \"{}\"", self.file_name)
+        write!(f, "/include/ {}", Quoted(&self.file_name))
     }
 }
 
@@ -557,7 +567,7 @@ impl Display for Primary {
             Primary::Directive(directive) => write!(f, "{directive}"),
             Primary::Root(node) => write!(f, "{node}"),
             Primary::ReferencedNode(node) => write!(f, "{node}"),
-            Primary::CStyleInclude(include) => write!(f, "#include {include}"),
+            Primary::CStyleInclude(include) => write!(f, "#include {}", Quoted(include)),
         }
     }
 }
-- 
2.43.0


From cbef251aa96f34e52d784db21309e8ad977ba48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:46 +0000
Subject: [PATCH 40/40] fix: Print labels of properties and /omit-if-no-ref/
 before nodes

---
 ginko/src/dts/ast.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 08cb8e5..ec42766 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -332,6 +332,9 @@ impl Property {
 
 impl Display for Property {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if let Some(label) = &self.label {
+            write!(f, "{label}: ")?;
+        }
         if self.values.is_empty() {
             writeln!(f, "{};", self.name)
         } else {
@@ -405,6 +408,9 @@ impl HasSpan for Node {
 
 impl Display for Node {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if self.omit_if_no_ref.is_some() {
+            write!(f, "/omit-if-no-ref/ ")?;
+        }
         if let Some(label) = &self.label {
             write!(f, "{}: ", label.item)?;
         }
-- 
2.43.0

