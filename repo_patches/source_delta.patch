From 7ad9f22e4edbb447fc2cd4f1d42a6cee6da94add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 01/16] fix: stop scanning forever on an outdent between two
 open indentation levels

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..8e6ac0a 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,8 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        // No open block has this indentation.
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From e0af986fd2083e0580b4edd054fbdbe2cdd9dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 02/16] fix: treat CRLF, which is one grapheme cluster, as a
 line end

---
 src/scanner.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 8e6ac0a..13acfc6 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,8 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    // CRLF is a single grapheme cluster.
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -444,7 +445,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         // Keep the newline next.
                         break;
                     }
@@ -462,7 +463,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
@@ -608,6 +609,10 @@ where
     }
 }
 
+fn is_newline(grapheme: &str) -> bool {
+    matches!(grapheme, "\n" | "\r\n")
+}
+
 fn is_digit(grapheme: &str) -> bool {
     // Note: built-in is_numeric() uses a more complicated unicode definition of
     // numeric.
-- 
2.43.0


From 9147616bf7dfa9a9a985dd46b2ac115138bb1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 03/16] fix: keep a line continuation when spaces follow the
 trailing operator

---
 src/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 13acfc6..f0b0023 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -302,7 +302,11 @@ where
                         }
                     }
                 }
-                self.following_line_continuation = following_line_continuation;
+                // Whitespace after an operator doesn't end the continuation.
+                if !is_whitespace {
+                    self.following_line_continuation =
+                        following_line_continuation;
+                }
                 self.is_abutting = !is_whitespace;
             }
         }
-- 
2.43.0


From 8cbb1f736575cb1d004a00a00d7792086bc8bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 04/16] fix: do not let comments change indentation or line
 continuation

---
 src/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index f0b0023..d01fb97 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -223,12 +223,15 @@ where
                     }
                     "/" => {
                         let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  It doesn't
+                            // affect indentation or line continuation.
                             self.advance_to_eol();
                             self.only_comment_on_line = was_bol;
+                            following_line_continuation =
+                                self.following_line_continuation;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
-- 
2.43.0


From a353a399a76e9e9fccbc1fec3c9b24e7f13223ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 05/16] fix: do not treat a parenthesis after a backslash line
 continuation as abutting

---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index d01fb97..a6cb3e4 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -239,6 +239,7 @@ where
                     "\\" => {
                         // Logical line continuation.  Ignore a following
                         // newline character.
+                        is_whitespace = true;
 
                         // Ignore spaces.
                         while self.matches(" ") {}
-- 
2.43.0


From 59d6c9091335f4f8d6a7b1905e8e94cd1be9a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 06/16] fix: report scanner errors at the offending character's
 column

---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index a6cb3e4..bdfe34c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -259,7 +259,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -297,7 +297,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -369,7 +369,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From d39428cc8771f4fc98a95c078246b180b8e1d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 07/16] fix: reject break and continue in a function whose loop
 is outside of it

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..6ad3582 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,5 @@
 use std::cell::Cell;
+use std::mem;
 
 use crate::ast::*;
 use crate::environment::*;
@@ -227,7 +228,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // Loops around a function do not extend into its body.
+        let enclosing_loops = mem::take(&mut self.in_loops);
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
-- 
2.43.0


From 15d8789b76a766d93e277ce0e5d0862bcd92a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 08/16] fix: leave the loop after a syntax error at the start
 of its body

---
 src/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6ad3582..2952fbc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -491,10 +491,9 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            self.consume_begin_block("Expect '{' or indent before loop body.")
+                .and_then(|end_block| self.finish_block(end_block))
+                .map(Stmt::Block)
         } else {
             self.statement()
         };
-- 
2.43.0


From 4a7d1e5ce38e5425fd907f8d259a743ed5071f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 09/16] fix: accept an indented block as the body of else

---
 src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2952fbc..d2ee00c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -415,7 +415,16 @@ impl<'a> Parser<'a> {
         };
 
         let else_stmt = if self.match_token(TokenType::Else) {
-            Some(Box::new(self.statement()?))
+            let else_stmt = if self.check(TokenType::Terminator) {
+                let end_block = self.consume_begin_block(
+                    "Expect '{' or indent before else body.",
+                )?;
+                self.finish_block(end_block).map(Stmt::Block)?
+            } else {
+                self.statement()?
+            };
+
+            Some(Box::new(else_stmt))
         } else {
             None
         };
-- 
2.43.0


From 4fbcc55b8a6092e5edf506f35c897a49a11d4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 10/16] fix: accept an expression as a for-loop initializer

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d2ee00c..e48f63a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -360,7 +360,13 @@ impl<'a> Parser<'a> {
         } else if self.match_token(TokenType::Var) {
             Some(self.finish_var_declaration(true)?)
         } else {
-            Some(self.expression_statement()?)
+            let init_expr = self.expression()?;
+            self.consume(
+                TokenType::Semicolon,
+                "Expect ';' after for-loop initializer.",
+            )?;
+
+            Some(Stmt::Expression(init_expr))
         };
         let condition = if self.check(TokenType::Semicolon) {
             Expr::LiteralBool(true)
-- 
2.43.0


From 0b87304541241f934b50846214c6677dd87ea422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 11/16] fix: do not underflow when the first token is an error

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e48f63a..840ca96 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1159,7 +1159,7 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.tokens.get(self.current.checked_sub(1)?)
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 155abe887fee783692f0cc4c6ba3fcb8294afb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 12/16] fix: reject the 256th variable of a scope instead of
 reusing a slot

---
 src/environment.rs |  2 ++
 src/resolver.rs    | 10 +++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/environment.rs b/src/environment.rs
index 2594867..63848c8 100644
--- a/src/environment.rs
+++ b/src/environment.rs
@@ -3,6 +3,8 @@ use serde;
 
 pub const VAR_LOC_MAX_DISTANCE: u16 = u16::MAX;
 pub const VAR_LOC_MAX_DISTANCE_USIZE: usize = VAR_LOC_MAX_DISTANCE as usize;
+// How many variables a single scope can have.
+pub const SCOPE_MAX_SLOTS: usize = u8::MAX as usize;
 
 // When you declare a variable, you need to know where in the scope it is stored
 // in memory.  We currently use a slot index since a scope is implemented with
diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..51ee348 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -516,7 +516,7 @@ impl Resolver {
             slot_index,
             defined_state: UndefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
         match scope.entry(identifier.to_owned()) {
             entry @ Entry::Vacant(_) => entry.or_insert(var_resolve_state),
             Entry::Occupied(_) => panic!("Resolver::forward_reserve_global_var: I'm trying to forward reserve something that's already declared: {}", identifier),
@@ -537,7 +537,7 @@ impl Resolver {
             slot_index,
             defined_state: DeclaredVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
 
         let mut already_declared = false;
         scope
@@ -585,7 +585,7 @@ impl Resolver {
             slot_index: scope.len(),
             defined_state: DefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
         let mut already_defined = false;
         scope
             .entry(identifier.to_owned())
@@ -615,11 +615,11 @@ impl Default for Resolver {
 
 // The 256th local should fail.
 fn ensure_scope_index_limit(
-    new_scope_len: usize,
+    scope: &HashMap<String, VarResolveState>,
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if scope.len() >= SCOPE_MAX_SLOTS && !scope.contains_key(identifier) {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From 24cc5017c5d932bfc0fa8efedde23fe12666bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 13/16] fix: do not leave a global declared but undefined after
 an initializer error

---
 src/resolver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 51ee348..a8858c4 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -188,10 +188,12 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                // Define it even after an error so that later uses aren't taken
+                // for reads in its own initializer.
                 self.define(identifier, loc)?;
 
-                Ok(())
+                result
             }
             Stmt::While(condition, body) => {
                 self.resolve_expression(condition)?;
-- 
2.43.0


From cbe4d01aa208f4e0202390b7a771726182a7a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 14/16] fix: allow a class method named init to return a value

---
 src/resolver.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index a8858c4..cd468d2 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -401,10 +401,11 @@ impl Resolver {
 
         if result.is_ok() {
             for method in class_def.methods.iter_mut() {
-                let fun_type = if method.name == "init" {
-                    FunctionType::Initializer
-                } else {
-                    FunctionType::Method
+                let fun_type = match method.fun_def.fun_type {
+                    crate::ast::FunctionType::Initializer => {
+                        FunctionType::Initializer
+                    }
+                    _ => FunctionType::Method,
                 };
 
                 result = self.resolve_function(&mut method.fun_def, fun_type);
-- 
2.43.0


From 843fd7c8ad01223f9e526669b21a85b7941ab28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 15/16] fix: exit the REPL at end of input instead of looping
 forever

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From f7ac6526de32b67e84c641dfc4d050db3db50566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 16/16] fix: let the column of the end of the text saturate
 like other columns

---
 src/scanner.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index bdfe34c..29621ac 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -107,7 +107,7 @@ where
     }
 
     fn close_all_blocks(&mut self) {
-        self.start_column = self.column.saturating_sub(1);
+        self.start_column = self.column;
         for _ in 0..self.indentation.len() {
             self.add_token(TokenType::Outdent);
         }
@@ -432,8 +432,6 @@ where
 
     // Advance the grapheme cluster iterator.
     fn advance(&mut self) -> Option<(usize, &'g str)> {
-        self.column = self.column.saturating_add(1);
-
         match self.grapheme_indices.next() {
             None => {
                 self.eof = true;
@@ -441,6 +439,7 @@ where
                 None
             }
             Some((i, cluster)) => {
+                self.column = self.column.saturating_add(1);
                 self.current = i;
 
                 Some((i, cluster))
@@ -482,9 +481,8 @@ where
 
         // Unterminated string.
         if self.is_at_end() {
-            let column = self.column.saturating_sub(1);
             self.error(ParseErrorCause::new(
-                SourceLoc::new(self.line, column),
+                SourceLoc::new(self.line, self.column),
                 "Unterminated string.",
             ));
             return;
-- 
2.43.0

