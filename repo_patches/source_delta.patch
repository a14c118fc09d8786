From 9222480e1a19a2b334699f75b443a7a0b5de920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 01/12] fix: count characters in bytes when tracking the lexer
 position
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The end of a token that finishes with a non-ASCII character (a line comment
ending with 'ą', an unexpected 'é') was placed inside that character, so slicing
the source panicked.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From ef237378dec21dff17482851b38acd3f4d5e6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 02/12] fix: do not take '/*/' for a complete block comment

---
 src/parser/lexing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..7ef8fc3 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -297,6 +297,8 @@ impl<'a> Lexer<'a> {
 
     /// Scan the slice that is supposed to be a block comment
     fn lex_blockcomment(&mut self) {
+        // Skip the opening `*`, so `/*/` is not taken for a complete comment
+        self.next();
         while let Some(c) = self.next() {
             if c == '*' {
                 if let Some(c) = self.peek() {
-- 
2.43.0


From 59524f582a6eec4a745a14882b8c4876c1208ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 03/12] fix: close the indentation opened by a wrapped
 left-hand side

An equation whose left-hand side is wrapped at an operator, and a statement
whose output list holds a wrapped expression, left one level of indentation
open for the rest of the file.
---
 src/formatter/formatting.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..a6a8058 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1188,7 +1188,11 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    if simple_expression(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1249,7 +1253,11 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    if output_expression_list(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From f517862d52f19f057b6c6805fd82f2b3c9f7840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 04/12] fix: do not lose comments

Comments before the first class of a file without a 'within' clause, comments
after the last token, files with nothing but comments, and comments placed where
the formatter does not wrap the line were all dropped.
---
 src/formatter/formatting.rs | 47 ++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index a6a8058..61dd21e 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -109,6 +109,7 @@ pub fn format(tree: Tree, comments: Vec<Token>) -> Vec<Marker> {
         SyntaxKind::AnnotationClause => annotation_clause(&mut f, tree),
         SyntaxKind::Error => (),
     }
+    f.trailing_comments();
     f.markers
 }
 
@@ -205,10 +206,48 @@ impl Formatter {
         (inlines, comments)
     }
 
+    /// Insert comments left after the last token
+    fn trailing_comments(&mut self) {
+        let mut line = self.prev_line;
+        while let Some(comment) = self.comments.next() {
+            if !self.markers.is_empty() {
+                self.markers.push(match comment.start.line - line {
+                    0 => Marker::Space,
+                    1 => Marker::Break,
+                    _ => Marker::Blank,
+                });
+            }
+            line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
+        }
+    }
+
+    /// Return `true` if the last printed marker is a token
+    fn ends_with_token(&self) -> bool {
+        let last = self
+            .markers
+            .iter()
+            .rev()
+            .find(|m| !matches!(m, Marker::Indent | Marker::Dedent));
+        matches!(last, Some(Marker::Token(_)))
+    }
+
     /// Collect token marker and update the last token data
     fn handle_token(&mut self, tok: Token) {
-        // Discard comments, as they are only allowed when line is wrapped
-        let _ = self.comments_before(&tok);
+        // Comments left in the middle of the line
+        let (inlines, comments) = self.comments_before(&tok);
+        for comment in inlines.into_iter().chain(comments) {
+            if self.ends_with_token() {
+                self.markers.push(Marker::Space);
+            }
+            let kind = comment.kind;
+            self.markers.push(Marker::Token(comment.text));
+            self.markers.push(if kind == ModelicaToken::LineComment {
+                Marker::Break
+            } else {
+                Marker::Space
+            });
+        }
         self.prev_line = tok.end.line;
         self.prev_tok = tok.kind;
         self.markers.push(Marker::Token(tok.text));
@@ -221,7 +260,9 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    if f.prev_tok == ModelicaToken::Semicolon
+                        || f.prev_tok == ModelicaToken::EOF && tree.start().idx > 0
+                    {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
-- 
2.43.0


From aca74aefbb8010a9e8e3739aca7933215667109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 05/12] fix: do not start the output with blank lines

A leading 'final' and comments that do not start in the first line produced
line breaks at the very beginning of the file.
---
 src/formatter/formatting.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 61dd21e..2fe939c 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -140,6 +140,13 @@ impl Formatter {
         }
     }
 
+    /// Insert linebreak marker, unless nothing was printed yet
+    fn push_break(&mut self, marker: Marker) {
+        if !self.markers.is_empty() {
+            self.markers.push(marker);
+        }
+    }
+
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
@@ -150,39 +157,39 @@ impl Formatter {
             self.markers.push(Marker::Token(comment.text));
         }
         if let Blank::Required = blanks {
-            self.markers.push(Marker::Blank);
+            self.push_break(Marker::Blank);
         }
         let mut line = self.prev_line;
         for comment in comments {
             if let Blank::Required = blanks {
                 if line > self.prev_line {
                     if comment.start.line - line > 1 {
-                        self.markers.push(Marker::Blank);
+                        self.push_break(Marker::Blank);
                     } else {
-                        self.markers.push(Marker::Break);
+                        self.push_break(Marker::Break);
                     }
                 }
             } else if comment.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
+                self.push_break(Marker::Blank);
             } else {
-                self.markers.push(Marker::Break);
+                self.push_break(Marker::Break);
             }
             self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
         }
         if let Blank::Legal = blanks {
             if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
+                self.push_break(Marker::Blank);
             } else {
-                self.markers.push(Marker::Break);
+                self.push_break(Marker::Break);
             }
         } else if let Blank::Illegal = blanks {
-            self.markers.push(Marker::Break);
+            self.push_break(Marker::Break);
         } else if line > self.prev_line {
             if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
+                self.push_break(Marker::Blank);
             } else {
-                self.markers.push(Marker::Break);
+                self.push_break(Marker::Break);
             }
         }
     }
-- 
2.43.0


From 153554c9a3c95e36372060f969d9671eda1b0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:10 +0000
Subject: [PATCH 06/12] fix: report a syntax error instead of panicking on
 malformed code

The parser panicked ('Parser stuck') when it could not make progress, failed an
assertion when an unexpected token was the end of file, and unwrapped the last
token of an empty collection. Now it gives up and reports what it found.
---
 src/parser/parsing.rs | 56 +++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..230519d 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -126,6 +126,9 @@ impl<'a> Parser<'a> {
             SyntaxKind::AnnotationClause => annotation_clause(self),
             SyntaxKind::Error => panic!("cannot parse error node"),
         }
+        if self.pos < self.tokens.len() {
+            self.error(String::from("unexpected token"));
+        }
     }
 
     /// Return a new parser instance
@@ -162,21 +165,27 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        assert!(self.pos < self.tokens.len());
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
     }
 
-    /// Return `true` if parser reached the end of file
+    /// Return `true` if parser reached the end of file, or if it is stuck
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.pos == self.tokens.len() || self.stuck()
+    }
+
+    /// Return `true` if parser looked at the current token too many times
+    /// without consuming it. Such parser sees nothing but the end of file.
+    fn stuck(&self) -> bool {
+        self.lifes.get() == 0
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
-        if self.lifes.get() == 0 {
-            self.blowup();
+        if self.stuck() {
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +193,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
@@ -218,26 +215,21 @@ impl<'a> Parser<'a> {
 
     /// Mark currently parsed token as erroneus.
     fn error(&mut self, msg: String) {
-        if let Some(tok) = self.tokens.get(self.pos) {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name, tok.start.line, tok.start.col, msg
-            ));
-        } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
-        }
+        let (line, col) = self
+            .tokens
+            .get(self.pos)
+            .or(self.tokens.last())
+            .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+        self.errors
+            .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
     }
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
         let mark = self.enter();
-        self.advance();
+        if !self.eof() {
+            self.advance();
+        }
         self.exit(mark, SyntaxKind::Error);
     }
 
-- 
2.43.0


From d850be24797fc9b814e065292f013e39952434cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 07/12] fix: process the remaining files when one cannot be
 written

A write error panicked in the middle of the batch. It is now reported like a
read error: the file is named, the exit code is 1 and the other files are
still formatted.
---
 src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..d014d65 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,8 +85,9 @@ fn format_files(args: &[String], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else {
-                        write_file(p, output);
+                    } else if let Err(e) = write_file(p, output) {
+                        eprintln!("{}: error: {}", name, e);
+                        code = 1;
                     }
                 }
             }
@@ -140,6 +141,6 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+fn write_file(to: &Path, code: String) -> Result<(), String> {
+    fs::write(to, code).map_err(|e| e.to_string())
 }
-- 
2.43.0


From 88d25619d072db415cd110de1808c1dac593dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:02 +0000
Subject: [PATCH 08/12] fix: wrap every construct that holds a rule that is
 always wrapped

Lists with a constraining clause, a description or an annotation inside were left
on one line although a line break was inserted in the middle of them, so that
formatting the output once more changed it and the check mode failed right after
formatting.
---
 src/formatter/formatting.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 2fe939c..d768000 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -261,6 +261,15 @@ impl Formatter {
     }
 }
 
+/// Return `true` if the tree is wrapped in the source, or if it contains
+/// a rule that is always wrapped
+fn is_wrapped(tree: &Tree) -> bool {
+    tree.is_multiline()
+        || tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::AnnotationClause)
+        || tree.contains(SyntaxKind::ConstrainingClause)
+}
+
 fn stored_definition(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
@@ -803,7 +812,7 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = is_wrapped(&tree) && tree.len() > 2;
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -895,7 +904,7 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = is_wrapped(&tree);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -998,9 +1007,7 @@ fn modification_expression(f: &mut Formatter, tree: Tree) {
 
 fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline()
-        || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+    let is_multiline = is_wrapped(&tree);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From ad1db7fe5be20ba791d43abe3b7bff8adb7a6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 09/12] fix: measure blank lines from the end of a trailing
 comment

A block comment that starts behind a token and ends in a later line was measured
from its first line, so a blank line was inserted after it.
---
 src/formatter/formatting.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index d768000..536fe2f 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -150,19 +150,21 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut prev_line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
+            prev_line = comment.end.line;
             self.markers.push(Marker::Token(comment.text));
         }
         if let Blank::Required = blanks {
             self.push_break(Marker::Blank);
         }
-        let mut line = self.prev_line;
+        let mut line = prev_line;
         for comment in comments {
             if let Blank::Required = blanks {
-                if line > self.prev_line {
+                if line > prev_line {
                     if comment.start.line - line > 1 {
                         self.push_break(Marker::Blank);
                     } else {
@@ -185,7 +187,7 @@ impl Formatter {
             }
         } else if let Blank::Illegal = blanks {
             self.push_break(Marker::Break);
-        } else if line > self.prev_line {
+        } else if line > prev_line {
             if tok.start.line - line > 1 {
                 self.push_break(Marker::Blank);
             } else {
@@ -199,9 +201,11 @@ impl Formatter {
     fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
         let mut comments = Vec::new();
         let mut inlines = Vec::new();
+        let mut line = self.prev_line;
         while let Some(comment) = self.comments.peek() {
             if comment.idx < tok.idx {
-                if comment.start.line == self.prev_line {
+                if comment.start.line == line {
+                    line = comment.end.line;
                     inlines.push(self.comments.next().unwrap());
                 } else {
                     comments.push(self.comments.next().unwrap());
-- 
2.43.0


From 68c525b061fb19c2266469473a957c19019b8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 10/12] fix: report a list separator that ends the input

---
 src/parser/parsing.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 230519d..fb123a1 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -407,7 +407,7 @@ fn der_class_specifier(p: &mut Parser) {
     type_specifier(p);
     p.expect(ModelicaToken::Comma);
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.expect(ModelicaToken::RParen);
@@ -426,7 +426,7 @@ fn base_prefix(p: &mut Parser) {
 fn enum_list(p: &mut Parser) {
     let mark = p.enter();
     enumeration_literal(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         enumeration_literal(p);
     }
     p.exit(mark, SyntaxKind::EnumList);
@@ -578,7 +578,7 @@ fn import_clause(p: &mut Parser) {
 fn import_list(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.exit(mark, SyntaxKind::ImportList);
@@ -626,7 +626,7 @@ fn argument_or_inheritance_modification_list(p: &mut Parser) {
     } else {
         argument(p);
     }
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         if p.check(ModelicaToken::Break) {
             inheritance_modification(p);
         } else {
@@ -677,7 +677,7 @@ fn type_prefix(p: &mut Parser) {
 fn component_list(p: &mut Parser) {
     let mark = p.enter();
     component_declaration(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         component_declaration(p);
     }
     p.exit(mark, SyntaxKind::ComponentList);
@@ -753,7 +753,7 @@ fn class_modification(p: &mut Parser) {
 fn argument_list(p: &mut Parser) {
     let mark = p.enter();
     argument(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         argument(p);
     }
     p.exit(mark, SyntaxKind::ArgumentList);
@@ -1030,7 +1030,7 @@ fn for_statement(p: &mut Parser) {
 fn for_indices(p: &mut Parser) {
     let mark = p.enter();
     for_index(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         for_index(p);
     }
     p.exit(mark, SyntaxKind::ForIndices);
@@ -1155,7 +1155,7 @@ fn simple_expression(p: &mut Parser) {
 fn logical_expression(p: &mut Parser) {
     let mark = p.enter();
     logical_term(p);
-    while p.consume(ModelicaToken::Or) && !p.eof() {
+    while p.consume(ModelicaToken::Or) {
         logical_term(p);
     }
     p.exit(mark, SyntaxKind::LogicalExpression);
@@ -1164,7 +1164,7 @@ fn logical_expression(p: &mut Parser) {
 fn logical_term(p: &mut Parser) {
     let mark = p.enter();
     logical_factor(p);
-    while p.consume(ModelicaToken::And) && !p.eof() {
+    while p.consume(ModelicaToken::And) {
         logical_factor(p);
     }
     p.exit(mark, SyntaxKind::LogicalTerm);
@@ -1283,7 +1283,7 @@ fn primary(p: &mut Parser) {
         ModelicaToken::LBracket => {
             p.advance();
             expression_list(p);
-            while p.consume(ModelicaToken::Semicolon) && !p.eof() {
+            while p.consume(ModelicaToken::Semicolon) {
                 expression_list(p);
             }
             p.expect(ModelicaToken::RBracket);
@@ -1340,7 +1340,7 @@ fn component_reference(p: &mut Parser) {
     if p.check(ModelicaToken::LBracket) {
         array_subscripts(p);
     }
-    while p.consume(ModelicaToken::Dot) && !p.eof() {
+    while p.consume(ModelicaToken::Dot) {
         p.expect(ModelicaToken::Identifier);
         if p.check(ModelicaToken::LBracket) {
             array_subscripts(p);
@@ -1486,7 +1486,7 @@ fn output_expression_list(p: &mut Parser) {
 fn expression_list(p: &mut Parser) {
     let mark = p.enter();
     expression(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         expression(p);
     }
     p.exit(mark, SyntaxKind::ExpressionList);
@@ -1496,7 +1496,7 @@ fn array_subscripts(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::LBracket);
     subscript(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         subscript(p);
     }
     p.expect(ModelicaToken::RBracket);
@@ -1523,7 +1523,7 @@ fn description(p: &mut Parser) {
 fn description_string(p: &mut Parser) {
     let mark = p.enter();
     if p.consume(ModelicaToken::String) {
-        while p.consume(ModelicaToken::Plus) && !p.eof() {
+        while p.consume(ModelicaToken::Plus) {
             p.expect(ModelicaToken::String);
         }
     }
-- 
2.43.0


From 5cd1f582e6d3a516355ee8f2ddd5dc3c51eb5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 11/12] fix: report anything but an operator where only an
 operator may stand

---
 src/parser/parsing.rs | 75 ++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index fb123a1..fcd0f42 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -1177,15 +1177,16 @@ fn logical_factor(p: &mut Parser) {
     p.exit(mark, SyntaxKind::LogicalFactor);
 }
 
+const RELOPS: [ModelicaToken; 6] = [
+    ModelicaToken::Les,
+    ModelicaToken::Leq,
+    ModelicaToken::Gre,
+    ModelicaToken::Geq,
+    ModelicaToken::Eq,
+    ModelicaToken::Neq,
+];
+
 fn relation(p: &mut Parser) {
-    const RELOPS: [ModelicaToken; 6] = [
-        ModelicaToken::Les,
-        ModelicaToken::Leq,
-        ModelicaToken::Gre,
-        ModelicaToken::Geq,
-        ModelicaToken::Eq,
-        ModelicaToken::Neq,
-    ];
     let mark = p.enter();
     arithmetic_expression(p);
     if p.check_any(&RELOPS) {
@@ -1197,19 +1198,25 @@ fn relation(p: &mut Parser) {
 
 fn relational_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `relation`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    if p.check_any(&RELOPS) {
+        p.advance();
+    } else {
+        p.advance_with_error(format!(
+            "expected relational operator, found {:?}",
+            p.nth(0)
+        ));
+    }
     p.exit(mark, SyntaxKind::RelationalOperator);
 }
 
+const ADDOPS: [ModelicaToken; 4] = [
+    ModelicaToken::Plus,
+    ModelicaToken::DotPlus,
+    ModelicaToken::Minus,
+    ModelicaToken::DotMinus,
+];
+
 fn arithmetic_expression(p: &mut Parser) {
-    const ADDOPS: [ModelicaToken; 4] = [
-        ModelicaToken::Plus,
-        ModelicaToken::DotPlus,
-        ModelicaToken::Minus,
-        ModelicaToken::DotMinus,
-    ];
     let mark = p.enter();
     if p.check_any(&ADDOPS) {
         add_operator(p);
@@ -1224,19 +1231,22 @@ fn arithmetic_expression(p: &mut Parser) {
 
 fn add_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `arithmetic_expression`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    if p.check_any(&ADDOPS) {
+        p.advance();
+    } else {
+        p.advance_with_error(format!("expected addition operator, found {:?}", p.nth(0)));
+    }
     p.exit(mark, SyntaxKind::AddOperator);
 }
 
+const MULOPS: [ModelicaToken; 4] = [
+    ModelicaToken::Star,
+    ModelicaToken::DotStar,
+    ModelicaToken::Slash,
+    ModelicaToken::DotSlash,
+];
+
 fn term(p: &mut Parser) {
-    const MULOPS: [ModelicaToken; 4] = [
-        ModelicaToken::Star,
-        ModelicaToken::DotStar,
-        ModelicaToken::Slash,
-        ModelicaToken::DotSlash,
-    ];
     let mark = p.enter();
     factor(p);
     while p.check_any(&MULOPS) && !p.eof() {
@@ -1248,9 +1258,14 @@ fn term(p: &mut Parser) {
 
 fn mul_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `term`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    if p.check_any(&MULOPS) {
+        p.advance();
+    } else {
+        p.advance_with_error(format!(
+            "expected multiplication operator, found {:?}",
+            p.nth(0)
+        ));
+    }
     p.exit(mark, SyntaxKind::MulOperator);
 }
 
@@ -1540,8 +1555,8 @@ fn annotation_clause(p: &mut Parser) {
 #[cfg(test)]
 mod tests {
 
-    use super::*;
     use super::super::lexing::lex;
+    use super::*;
 
     fn get_events(source: &str, start: SyntaxKind) -> (Vec<SyntaxEvent>, Vec<String>) {
         let (tokens, _, mut errors) = lex("none", source);
-- 
2.43.0


From a9cf10f691fd8abe7eab0818ac8b2eaf5d06ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 12/12] fix: process the remaining paths when a directory
 cannot be read

---
 src/main.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d014d65..2a9dc45 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,7 @@ fn format_files(args: &[String], check: bool) {
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, &mut code)
             } else {
                 vec![p]
             }
@@ -100,19 +100,32 @@ fn format_files(args: &[String], check: bool) {
     std::process::exit(code);
 }
 
-/// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
+/// Return all Modelica files from the given directory, set `code` if it cannot be read
+fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
     let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
+    let paths = match fs::read_dir(&dir) {
+        Ok(paths) => paths,
+        Err(e) => {
+            eprintln!("{}: error: {}", dir.display(), e);
+            *code = 1;
+            return files;
+        }
+    };
     paths
-        .map(|e| e.unwrap().path())
-        .map(|p| {
-            if p.is_dir() {
-                get_files_from_dir(p)
-            } else if is_modelica(p.as_path()) {
-                vec![p]
-            } else {
+        .map(|e| match e {
+            Ok(entry) => {
+                let p = entry.path();
+                if p.is_dir() {
+                    get_files_from_dir(p, code)
+                } else if is_modelica(p.as_path()) {
+                    vec![p]
+                } else {
+                    Vec::new()
+                }
+            }
+            Err(e) => {
+                eprintln!("{}: error: {}", dir.display(), e);
+                *code = 1;
                 Vec::new()
             }
         })
-- 
2.43.0

