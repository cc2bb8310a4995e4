From 1b8cb737b844a200703050c4171370b85c10f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 01/63] fix: start tokens on a character boundary after
 non-ASCII characters

---
 lexer/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..407e1bd 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -118,7 +118,7 @@ impl<'a> Lexer<'a> {
 
         let current = self.reader.current()?;
 
-        let start = self.reader.position();
+        let start = self.current_start();
         let value = match current {
             '/' if self.state.regex_allowed => self.read_regexp_literal(),
             // <op>=
@@ -380,7 +380,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_template_literal_middle_or_tail(&mut self) -> Result<Token> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
         let start = self.reader.consume()?;
 
         if start != '}' {
@@ -452,6 +452,19 @@ impl<'a> Lexer<'a> {
         Ok(())
     }
 
+    /// Returns the byte offset where the current character starts.
+    ///
+    /// The position of the reader is only guaranteed to be somewhere after the start of the last
+    /// consumed character, if that character is wider than one byte the position can be inside it.
+    fn current_start(&self) -> usize {
+        let mut start = self.reader.position();
+        while !self.data.is_char_boundary(start) {
+            start += 1;
+        }
+
+        start
+    }
+
     fn is_end(&self) -> bool {
         use fajt_common::io::char_reader::Error;
         matches!(self.reader.current(), Err(Error::EndOfStream))
-- 
2.43.0


From 3469f5b8105c5f6414e292c6722c821fca8426b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 02/63] fix: restore the lexer state when reading with another
 state fails

---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 407e1bd..a4bc06c 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -573,10 +573,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From 724d3bcd604140178ac5d963d569297a6b9e82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 03/63] fix: parse tagged templates with substitutions after a
 call expression

---
 parser/src/expr.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..624e625 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -14,7 +14,7 @@ use fajt_ast::{
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::{Token, TokenValue};
+use fajt_lexer::token::Token;
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -497,9 +497,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From 77a99509c8246ce4bb074a8ded2a1aac336146d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/63] fix: accept optional chains on every nested new with
 arguments, reject them on any new without

---
 parser/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 624e625..57d8aaa 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -471,9 +471,9 @@ where
         }?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
+            // A `new` without arguments is a NewExpression, which is not included in the
             // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            if matches!(&expr, Expr::New(new) if new.arguments_span.is_none()) {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From 2010a0d2c26b49612446c2a3eec96a59df176115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/63] fix: accept reserved words as property names in
 optional chains

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..f4aff9d 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From 4c7577e4fa966e4035c7cd761fe6d150feb8eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 06/63] fix: reject unparenthesized unary operators to the left
 of **

---
 parser/src/binary_expr.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index ab3bfa2..4b14c9c 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::Parser;
 use fajt_ast::binary_op;
 use fajt_ast::logical_op;
@@ -136,7 +136,7 @@ where
 
     /// Parses the `ExponentiationExpression` production.
     fn parse_exponentiation_expr(&mut self) -> Result<Expr> {
-        self.parse_binary_expr(Self::parse_unary_expr, |token| {
+        self.parse_binary_expr(Self::parse_exponentiation_operand, |token| {
             if token_matches!(token, punct!("**")) {
                 Some(binary_op!("**"))
             } else {
@@ -145,6 +145,17 @@ where
         })
     }
 
+    /// Parses an operand of `**`. An operand to the left of `**` must be an `UpdateExpression`, any
+    /// other `UnaryExpression` must be parenthesized.
+    fn parse_exponentiation_operand(&mut self) -> Result<Expr> {
+        let expr = self.parse_unary_expr()?;
+        if matches!(expr, Expr::Unary(_) | Expr::Await(_)) && self.current_matches(&punct!("**")) {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
+        Ok(expr)
+    }
+
     /// All binary expressions are parsed the same way, they are broken up into multiple productions
     /// for precedence. This is the common parse method for all of them.
     ///
-- 
2.43.0


From 9fa6cbff36fe138d59df326ce8a8a6e610361bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 07/63] fix: reject ?? mixed with || or && without parentheses

---
 parser/src/binary_expr.rs | 40 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index 4b14c9c..f16c937 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -2,7 +2,7 @@ use crate::error::{Error, Result};
 use crate::Parser;
 use fajt_ast::binary_op;
 use fajt_ast::logical_op;
-use fajt_ast::{BinaryOperator, Expr, ExprBinary, ExprLogical, LogicalOperator, Span};
+use fajt_ast::{BinaryOperator, Expr, ExprBinary, ExprLogical, LogicalOperator, Span, Spanned};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
 use fajt_lexer::token::Token;
@@ -16,13 +16,16 @@ where
 {
     /// Parses the `ShortCircuitExpression` production.
     pub(super) fn parse_short_circuit_expr(&mut self) -> Result<Expr> {
-        self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
+        let expr = self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
             if token_matches!(token, punct!("??")) {
                 Some(logical_op!("??"))
             } else {
                 None
             }
-        })
+        })?;
+
+        validate_coalesce_operands(&expr)?;
+        Ok(expr)
     }
 
     /// Parses the `LogicalORExpression` production.
@@ -232,3 +235,34 @@ where
         Ok(expr)
     }
 }
+
+/// The operands of `??` cannot be `||` or `&&` expressions unless they are parenthesized.
+fn validate_coalesce_operands(expr: &Expr) -> Result<()> {
+    let mut current = expr;
+    while let Expr::Logical(ExprLogical {
+        operator: logical_op!("??"),
+        left,
+        right,
+        ..
+    }) = current
+    {
+        for operand in [left.as_ref(), right.as_ref()] {
+            if matches!(
+                operand,
+                Expr::Logical(ExprLogical {
+                    operator: logical_op!("||") | logical_op!("&&"),
+                    ..
+                })
+            ) {
+                return Err(Error::syntax_error(
+                    "Cannot mix `??` with `||` or `&&` without parentheses".to_owned(),
+                    operand.span().clone(),
+                ));
+            }
+        }
+
+        current = left;
+    }
+
+    Ok(())
+}
-- 
2.43.0


From bd390582ce6c62a056bec13ecf1e4a7200568c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 08/63] fix: require a semicolon or a place to insert one after
 statements that end with one

---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..748b495 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -188,7 +188,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -200,7 +200,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -220,7 +220,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -249,7 +249,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -264,7 +264,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..4fc3182 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -21,7 +21,7 @@ where
         } else {
             self.parse_variable_declarations()?
         };
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From 17a30cec36915d654be8a91f0a6c94737ef8b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 09/63] fix: report an error instead of panicking on a module
 specifier that is not a string

---
 parser/src/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..0c02053 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -201,6 +201,10 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
+        if !self.current_matches_string_literal() {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
         let module_name = self
             .parse_literal()?
             .unwrap_literal()
-- 
2.43.0


From e383555f2567c4c9d9abeea2a8393b2b10267210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/63] fix: allow the in operator in every nested expression
 that is not a for loop head

---
 lexer/src/lib.rs                 |  2 +-
 parser/src/assignment_pattern.rs |  7 ++++---
 parser/src/expr.rs               |  8 ++++++--
 parser/src/function.rs           |  7 ++++++-
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            | 11 ++++++++---
 parser/src/member_access.rs      |  8 ++++++--
 parser/src/stmt.rs               |  2 +-
 parser/src/variable.rs           |  9 +++------
 9 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index a4bc06c..bdf496c 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -8,9 +8,9 @@ mod string;
 
 #[macro_use]
 pub mod token;
+mod number;
 mod regexp;
 mod unicode_escape_sequence;
-mod number;
 
 use crate::code_point::CodePoint;
 use crate::error::Error;
diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..be85987 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -186,9 +186,10 @@ where
         let span_start = self.position();
 
         let ident = self.parse_identifier()?;
-        let initializer = self
-            .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+        let initializer = self.current_matches(&punct!("=")).then_try(|| {
+            self.with_context(self.context.with_in(true))
+                .parse_initializer()
+        })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 57d8aaa..c76308c 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -289,7 +289,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -563,7 +565,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..19da3db 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -272,7 +272,12 @@ where
         let is_strict = self.context.is_strict || directives.as_slice().contains_strict();
 
         let statements = self
-            .with_context(self.context.with_strict(is_strict).with_return(true))
+            .with_context(
+                self.context
+                    .with_strict(is_strict)
+                    .with_return(true)
+                    .with_in(true),
+            )
             .parse_function_body_stmt_list()?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..b646ce8 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -423,7 +423,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..e550b49 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
@@ -129,7 +130,9 @@ where
                 break;
             }
 
-            let element = self.parse_array_element()?;
+            let element = self
+                .with_context(self.context.with_in(true))
+                .parse_array_element()?;
             if element != ArrayElement::Elision {
                 self.consume_list_delimiter(&punct!("]"))?;
             }
@@ -174,7 +177,9 @@ where
                 break;
             }
 
-            let prop = self.parse_property_definition()?;
+            let prop = self
+                .with_context(self.context.with_in(true))
+                .parse_property_definition()?;
 
             // This is covered by the `CoverInitializedName` production. It is invalid syntax in an
             // object literal.
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index f4aff9d..6ea39b6 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -113,11 +113,15 @@ where
         match self.current() {
             token_matches!(ok: punct!("?.")) if self.peek_matches(&punct!("[")) => {
                 self.consume()?;
-                let property = self.parse_computed_property()?;
+                let property = self
+                    .with_context(self.context.with_in(true))
+                    .parse_computed_property()?;
                 Ok(MemberProperty::Expr(property.into()))
             }
             token_matches!(ok: punct!("[")) => {
-                let property = self.parse_computed_property()?;
+                let property = self
+                    .with_context(self.context.with_in(true))
+                    .parse_computed_property()?;
                 Ok(MemberProperty::Expr(property.into()))
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 748b495..70c1ead 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -300,7 +300,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index 4fc3182..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From b67547c57660432707462c58385ab5edb482f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 11/63] fix: parse async as an identifier wherever it does not
 start an async function

---
 parser/src/cover.rs | 10 +++++++---
 parser/src/expr.rs  | 31 ++++++++++++++-----------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 8df052c..24a5f90 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -46,15 +46,19 @@ where
     }
 
     /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production.
+    /// If an arrow function is parsed, it is returned as an error because it is only valid
+    /// higher up in the tree. The error must be caught higher up.
     pub(super) fn parse_cover_call_or_async_arrow_head(&mut self) -> Result<Expr> {
         let start_token = self.current()?.clone();
         match self.parse_covered_call_expression() {
             Ok(expr) if !self.current_matches(&punct!("=>")) => Ok(expr),
-            Ok(_) => {
+            Err(error) if !matches!(error.kind(), InitializedNameNotAllowed) => Err(error),
+            _ => {
                 self.reader.rewind_to(&start_token)?;
-                self.parse_async_arrow_function_expr()
+                Err(Error::arrow_function_not_allowed(
+                    self.parse_async_arrow_function_expr()?,
+                ))
             }
-            error => error,
         }
     }
 
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index c76308c..f74416f 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -59,7 +59,11 @@ where
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
             }
-            token_matches!(ok: keyword!("async")) => self.parse_assignment_expr_async(),
+            token_matches!(ok: keyword!("async"))
+                if self.peek_is_identifier() && !self.followed_by_new_line() =>
+            {
+                self.parse_async_arrow_function_expr()
+            }
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
@@ -181,21 +185,6 @@ where
         }
     }
 
-    /// Parses the part of `AssignmentExpression` that starts with the `async` keyword.
-    /// Examples:
-    /// 1. `async => {}` // Non async arrow function with the name async.
-    /// 2. `async a => {}` // Async arrow function without parameter parentheses.
-    /// 3. `async(a) => {}` // Async arrow function with parentheses.
-    /// 4. `async(a)` // Function call where `async` is an identifier and not a keyword.
-    fn parse_assignment_expr_async(&mut self) -> Result<Expr> {
-        match self.peek() {
-            token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
-            token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
-            _ => self.parse_conditional_expr(),
-        }
-    }
-
     /// Parses the part of `AssignmentExpression` that is an assignment.
     fn parse_assignment(
         &mut self,
@@ -464,6 +453,12 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&punct!("(")) && !self.followed_by_new_line() =>
+            {
+                let call_expr = self.parse_cover_call_or_async_arrow_head()?;
+                self.parse_recursive_call_expression(span_start, call_expr)
+            }
             _ => {
                 let span_start = self.position();
                 let expr = self.parse_new_or_member_expr()?;
@@ -764,7 +759,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
-- 
2.43.0


From ce4d5be3aea03b347a4ac4a6bebaac52ad313034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 12/63] fix: accept async, get, set and static as names of
 properties and methods

---
 parser/src/literal.rs | 12 +++++++++---
 parser/src/method.rs  |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index e550b49..2ae85b2 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -267,9 +267,15 @@ where
     pub fn is_object_method_definition(&self) -> bool {
         match self.current() {
             token_matches!(ok: punct!("*") | punct!("[")) => true,
-            token_matches!(ok: keyword!("static")) => true,
-            token_matches!(ok: keyword!("async")) if !self.peek_matches(&punct!(":")) => true,
-            token_matches!(ok: keyword!("get") | keyword!("set")) => true,
+            token_matches!(
+                ok: keyword!("async") | keyword!("get") | keyword!("set") | keyword!("static")
+            ) => {
+                // Not followed by a property name, it is itself the name of the property.
+                !token_matches!(
+                    self.peek(),
+                    opt: punct!(",") | punct!("}") | punct!("=") | punct!(":")
+                )
+            }
             _ => self.peek_matches(&punct!("(")),
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..6f4b1b9 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.peek_matches(&punct!("(")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 6c2eb33ab74f7a383e65bfc847d3858b502d97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 13/63] fix: end a yield without argument at a comma or colon

---
 parser/src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index f74416f..6841e8d 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -822,5 +822,7 @@ where
         self.stmt_ended()
             || self.current_matches(&punct!(")"))
             || self.current_matches(&punct!("]"))
+            || self.current_matches(&punct!(","))
+            || self.current_matches(&punct!(":"))
     }
 }
-- 
2.43.0


From f41998ce1ddf3b9d534b6ea1fe242757396fbd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 14/63] fix: end regular expressions at every line terminator,
 also in classes and after escapes

---
 lexer/src/regexp.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..c1beab2 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -18,18 +18,14 @@ impl Lexer<'_> {
             result.push(c);
 
             match c {
-                '\n' => {
-                    let span_end = self.reader.position();
-                    return Err(Error::syntax_error(
-                        "Unterminated regular expression literal".to_owned(),
-                        (span_start, span_end - 1),
-                    ));
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp_error(span_start));
                 }
                 '/' => break,
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
                     result.push(self.reader.consume()?)
                 }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,15 +36,29 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    /// Error for a regexp where the last consumed character is a line terminator.
+    fn unterminated_regexp_error(&self, span_start: usize) -> Error {
+        let span_end = self.reader.position();
+        Error::syntax_error(
+            "Unterminated regular expression literal".to_owned(),
+            (span_start, span_end - 1),
+        )
+    }
+
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp_error(span_start));
+                }
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
+                    result.push(self.reader.consume()?)
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 83dc9230aec58c36522e57d5804dd204938a2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 15/63] fix: start html comments at <!-- and not at <!

---
 lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index bdf496c..5a0c749 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.data[self.current_start()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.position();
                         return Err(Error::syntax_error(
-- 
2.43.0


From df2053fbcaf3ee6a91a858431eb4ffdd9ea8efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 16/63] fix: keep strict mode in the body of arrow functions

---
 parser/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b646ce8..c2cf5de 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -134,6 +134,7 @@ impl Context {
             in_method: self.in_method,
             super_call_allowed: self.super_call_allowed,
             static_method_allowed: self.static_method_allowed,
+            is_strict: self.is_strict,
             ..Context::default()
         }
     }
-- 
2.43.0


From f4a65571239993b36b30dbe8febe5c0aff33c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 17/63] fix: parse modules in strict mode

---
 parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index c2cf5de..caf1bae 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -195,7 +195,8 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        let strict_mode =
+            parser.source_type == SourceType::Module || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
-- 
2.43.0


From e72fbf4f5023246d5fc33f3c481e01dff7d492d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 18/63] fix: reject with statements in strict mode

---
 parser/src/stmt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 70c1ead..ccec958 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -298,7 +298,14 @@ where
     fn parse_with_stmt(&mut self) -> Result<Stmt> {
         let span_start = self.position();
 
-        self.consume_assert(&keyword!("with"))?;
+        let with = self.consume_assert(&keyword!("with"))?;
+        if self.context.is_strict {
+            return Err(Error::syntax_error(
+                "`with` statement not allowed in strict mode".to_owned(),
+                with.span,
+            ));
+        }
+
         self.consume_assert(&punct!("("))?;
         let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
-- 
2.43.0


From 45541fbb794d6df242e951c1cce9d396fce03c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 19/63] fix: report the offending token when an export is not
 followed by a declaration

---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 0c02053..e95eb71 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -98,7 +98,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From b319d5fe76ed0722998a66b3b8a752250cf9e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 20/63] fix: require a comma between the elements of an array
 assignment pattern

---
 parser/src/assignment_pattern.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index be85987..73e37ac 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,12 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+
+                    // The comma itself is left to the next iteration.
+                    if !token_matches!(self.current(), ok: punct!(",") | punct!("]")) {
+                        let token = self.consume()?;
+                        return Err(Error::expected_other_token(token, &punct!(",")));
+                    }
                 }
             }
         }
-- 
2.43.0


From 96201b885ea3651734fce6be9676b830dfb4c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 21/63] fix: emit errors for spans over several lines and
 around non-ASCII characters

---
 parser/src/error/emitter.rs | 39 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..d8d2d9d 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -19,9 +19,9 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
-        let span = &error.span;
+        let span = &self.get_source_span(&error.span);
         let line_span = self.get_line_boundaries(span);
-        let col_number = span.start - line_span.start + 1;
+        let col_number = self.source[line_span.start..span.start].chars().count() + 1;
         let line_number = self.get_line_number(span);
 
         writeln!(self.out, "{}", error)?;
@@ -54,13 +54,16 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let line_number_str = line_number.to_string();
         let padding = line_number_str.len() + 1;
 
-        let err_span = error.span.translate(-(line_span.start as isize));
-        let err_token_length = err_span.end - err_span.start;
+        // Only the first line is printed if the error spans several lines.
+        let err_span = self.get_source_span(&error.span);
+        let err_end = err_span.end.min(line_span.end);
+        let err_token_length = self.source[err_span.start..err_end].chars().count();
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
 
         let line = &self.source[line_span.start..line_span.end];
-        let tab_indents = &line[0..err_span.start].matches('\t').count();
+        let before_error = &self.source[line_span.start..err_span.start];
+        let tab_indents = before_error.matches('\t').count();
         writeln!(
             self.out,
             "{:<pad$}| {}",
@@ -76,15 +79,30 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             "^",
             label,
             pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
+            err_offset = before_error.chars().count() + tab_indents * 3,
             err_mark = err_token_length
         )?;
 
         Ok(())
     }
 
+    /// Returns `span` widened to the closest character boundaries.
+    fn get_source_span(&self, span: &Span) -> Span {
+        let mut start = span.start.min(self.source.len());
+        while !self.source.is_char_boundary(start) {
+            start -= 1;
+        }
+
+        let mut end = span.end.clamp(start, self.source.len());
+        while !self.source.is_char_boundary(end) {
+            end += 1;
+        }
+
+        Span::new(start, end)
+    }
+
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..span.start].matches('\n').count() + 1
     }
 
     fn get_line_boundaries(&self, span: &Span) -> Span {
@@ -92,9 +110,9 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             .rfind('\n')
             .map(|pos| pos + 1)
             .unwrap_or(0);
-        let end = self.source[span.end..]
+        let end = self.source[span.start..]
             .find('\n')
-            .map(|pos| pos + span.end)
+            .map(|pos| pos + span.start)
             .unwrap_or(self.source.len());
 
         Span::new(start, end)
@@ -107,7 +125,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let span = self.get_source_span(&error.span);
+                let token_value = &self.source[span.start..span.end];
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
-- 
2.43.0


From 0cbc30cc077e371201e2e9f5aca9fd3d9b41bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 22/63] fix: visit the alternate of conditional expressions

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..b6743ac 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From ff9b12f9481c3eab02b9ab68a15ca0ac96ce4b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 23/63] fix: visit the namespace binding of imports

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index b6743ac..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From 96bf811ece1dcd5891ee5e0bca2a83752d08e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 24/63] fix: visit and generate the declaration of for-in and
 for-of loops

---
 ast/src/traverse/mod.rs | 4 +++-
 codegen/src/lib.rs      | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..0364702 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 0da100c..d31fce8 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -601,6 +601,13 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_for_binding(&mut self, node: &mut ForBinding) -> bool {
+        self.string(&node.kind.to_string());
+        self.space();
+        node.binding.traverse(self);
+        false
+    }
+
     fn enter_while_stmt(&mut self, node: &mut StmtWhile) -> bool {
         self.string("while");
         self.space();
-- 
2.43.0


From a3aa987b4be913bd03b17e62ca2b007b627713c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 25/63] fix: visit and generate assignment patterns

---
 ast/src/traverse/mod.rs | 34 +++++++++++++++++++++++-
 codegen/src/lib.rs      | 57 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 90 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 0364702..d9746bb 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -198,7 +198,13 @@ generate_fold_and_visit! {
         }
 
         AssignmentPattern: (enter: enter_assignment_pattern, exit: exit_assignment_pattern) {
-            // TODO
+            Array
+            Object
+        }
+
+        AssignmentProp: (enter: enter_assignment_prop, exit: exit_assignment_prop) {
+            Single
+            Named
         }
     }
 
@@ -527,6 +533,32 @@ generate_fold_and_visit! {
             alias
         }
 
+        ArrayAssignmentPattern: (enter: enter_array_assignment_pattern, exit: exit_array_assignment_pattern) {
+            elements
+            rest
+        }
+
+        AssignmentElement: (enter: enter_assignment_element, exit: exit_assignment_element) {
+            target
+            initializer
+        }
+
+        ObjectAssignmentPattern: (enter: enter_object_assignment_pattern, exit: exit_object_assignment_pattern) {
+            props
+            rest
+        }
+
+        SingleNameAssignmentProp: (enter: enter_single_name_assignment_prop, exit: exit_single_name_assignment_prop) {
+            ident
+            initializer
+        }
+
+        NamedAssignmentProp: (enter: enter_named_assignment_prop, exit: exit_named_assignment_prop) {
+            name
+            value
+            initializer
+        }
+
         Ident: (enter: enter_ident, exit: exit_ident) {}
 
         Body: (enter: enter_body, exit: exit_body) {
diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index d31fce8..4986870 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1124,6 +1124,63 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
+        let spaced = !node.elements.is_empty() || node.rest.is_some();
+        self.parenthesize('[', spaced, |s| {
+            // Every comma is represented by an empty element.
+            let mut needs_comma = false;
+            for element in &mut node.elements {
+                if element.is_none() || needs_comma {
+                    s.char(',');
+                    s.space();
+                }
+
+                element.traverse(s);
+                needs_comma = element.is_some();
+            }
+
+            if let Some(rest) = node.rest.as_mut() {
+                if needs_comma {
+                    s.char(',');
+                    s.space();
+                }
+
+                s.string("...");
+                rest.traverse(s);
+            }
+        });
+        false
+    }
+
+    fn enter_assignment_element(&mut self, node: &mut AssignmentElement) -> bool {
+        node.target.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_object_assignment_pattern(&mut self, node: &mut ObjectAssignmentPattern) -> bool {
+        let spaced = !node.props.is_empty() || node.rest.is_some();
+        self.parenthesize('{', spaced, |s| {
+            s.comma_separated_with_rest(&mut node.props, &mut node.rest);
+        });
+        false
+    }
+
+    fn enter_single_name_assignment_prop(&mut self, node: &mut SingleNameAssignmentProp) -> bool {
+        node.ident.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_named_assignment_prop(&mut self, node: &mut NamedAssignmentProp) -> bool {
+        node.name.traverse(self);
+        self.char(':');
+        self.space();
+        node.value.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
     fn enter_single_name_binding(&mut self, node: &mut SingleNameBinding) -> bool {
         node.ident.traverse(self);
         self.initializer(&mut node.initializer);
-- 
2.43.0


From 1d1b4f7faf2a814bc84f978ed06760a36200833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 26/63] fix: generate trailing elisions in array literals and
 before rest elements in array bindings

---
 codegen/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 4986870..d26df6f 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1104,8 +1104,12 @@ impl Visitor for CodeGenerator<'_> {
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if !node.elements.is_empty() {
+                // An elision already ends with a comma.
+                if matches!(node.elements.last(), Some(Some(_))) {
                     s.char(',');
+                }
+
+                if !node.elements.is_empty() {
                     s.space();
                 }
 
@@ -1253,6 +1257,11 @@ impl Visitor for CodeGenerator<'_> {
         let spaced = !node.elements.is_empty();
         self.parenthesize('[', spaced, |s| {
             s.comma_separated(&mut node.elements);
+
+            // A trailing elision is only an element if it is followed by a comma.
+            if matches!(node.elements.last(), Some(ArrayElement::Elision)) {
+                s.char(',');
+            }
         });
         false
     }
-- 
2.43.0


From badcf25f46ddcd5a6e3857544c385a0bf9422f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 27/63] fix: escape delimiters, backslashes and line breaks in
 generated strings and templates

---
 codegen/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index d26df6f..9686488 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -207,7 +207,12 @@ impl<'a> CodeGenerator<'a> {
     #[inline]
     fn quote(&mut self, delimiter: char, string: &str) {
         self.char(delimiter);
-        self.string(string);
+        for ch in string.chars() {
+            if ch == delimiter || matches!(ch, '\\' | '\n' | '\r') {
+                self.data.push('\\');
+            }
+            self.data.push(ch);
+        }
         self.char(delimiter);
     }
 
@@ -1277,7 +1282,13 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                self.string(str);
+                let mut chars = str.chars().peekable();
+                while let Some(ch) = chars.next() {
+                    if matches!(ch, '`' | '\\') || (ch == '$' && chars.peek() == Some(&'{')) {
+                        self.data.push('\\');
+                    }
+                    self.data.push(ch);
+                }
             }
             TemplatePart::Expr(expr) => {
                 self.string("${");
-- 
2.43.0


From 1c9fd5c553cb7a4270e86674b93f11496447ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 28/63] fix: end throw, do while and namespace exports with a
 semicolon

---
 codegen/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 9686488..9f777ed 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -468,6 +468,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
+        self.char(';');
         false
     }
 
@@ -637,6 +638,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.test.traverse(s);
         });
+        self.char(';');
 
         false
     }
@@ -914,6 +916,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
+        self.char(';');
         false
     }
 
-- 
2.43.0


From 9e907ea261bb21664de7525778e42acf8c0fde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 29/63] fix: keep empty statements when minifying

---
 codegen/src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 9f777ed..d1f05fe 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -46,6 +46,7 @@ impl Default for GeneratorContext {
 struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
+    last_empty_stmt_end: Cell<usize>,
 }
 
 impl Index {
@@ -53,6 +54,7 @@ impl Index {
         Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
+            last_empty_stmt_end: Cell::new(0),
         }
     }
 
@@ -71,6 +73,14 @@ impl Index {
     fn set_block_start(&self, pos: usize) {
         self.last_block_start.replace(pos);
     }
+
+    fn last_empty_stmt_end(&self) -> usize {
+        self.last_empty_stmt_end.get()
+    }
+
+    fn set_empty_stmt_end(&self, pos: usize) {
+        self.last_empty_stmt_end.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -345,7 +355,7 @@ impl CodeGenerator<'_> {
             }
         }
 
-        if self.ctx.minified {
+        if self.ctx.minified && !self.at_empty_stmt_end() {
             // No ';' is necessary before a '}'.
             self.remove_last(';');
         }
@@ -357,6 +367,11 @@ impl CodeGenerator<'_> {
         self.index.last_block_start() == self.pos()
     }
 
+    /// The ';' of an empty statement is the statement itself, it can not be removed.
+    fn at_empty_stmt_end(&self) -> bool {
+        self.index.last_empty_stmt_end() == self.pos()
+    }
+
     /// Separation between logical sections, only adds a new line if not first in block or file.
     fn separation(&mut self) {
         if self.skip_next_separation {
@@ -398,7 +413,11 @@ impl CodeGenerator<'_> {
 
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
-        if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
+        if self.ctx.minified
+            && !self.at_empty_stmt_end()
+            && self.remove_last(';')
+            && matches!(self.last(), Some(')'))
+        {
             // Don't remove semi colon if that render the last char a ')' since that could
             // result in invalid code like `for(true)`, `if(true)`, ...
             self.char(';');
@@ -1037,6 +1056,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_empty_statement(&mut self, _node: &mut StmtEmpty) -> bool {
         self.char(';');
+        self.index.set_empty_stmt_end(self.pos());
         false
     }
 
-- 
2.43.0


From 64d8e43be575a37505ac05b827900ce5dae5aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 30/63] fix: separate generated tokens that would be read as
 one token

---
 codegen/src/lib.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index d1f05fe..14c1dce 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -399,15 +399,26 @@ impl CodeGenerator<'_> {
         self.data.push_str(&" ".repeat(self.ctx.indentation()));
     }
 
-    /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
+    /// Check if a space must be added before adding str to avoid merging it with the previous token.
     fn must_add_space_before(&self, str: &str) -> bool {
-        let last_is_alphanumeric = self.last().map(char::is_alphanumeric).unwrap_or(false);
-        let first_is_alphanumeric = str
-            .chars()
-            .next()
-            .map(char::is_alphanumeric)
-            .unwrap_or(false);
-        last_is_alphanumeric && first_is_alphanumeric
+        let (Some(last), Some(first)) = (self.last(), str.chars().next()) else {
+            return false;
+        };
+
+        match (last, first) {
+            // Unary and update operators, or a division followed by a regexp.
+            ('+', '+') | ('-', '-') | ('/', '/') => true,
+            // Would be the start of a html comment.
+            ('!', '-') => self.data.ends_with("<!") && str == "--",
+            // Would be the flags of a regexp.
+            ('/', _) => matches!(str, "in" | "instanceof" | "of"),
+            // Keywords, identifiers and numbers.
+            (last, first) => Self::is_word_char(last) && Self::is_word_char(first),
+        }
+    }
+
+    fn is_word_char(char: char) -> bool {
+        char.is_alphanumeric() || matches!(char, '$' | '_') || !char.is_ascii()
     }
 }
 
-- 
2.43.0


From 831c405700eab6b94bab14e1aab8c1d353ce1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 31/63] fix: separate an integer from the dot of a member
 access

---
 codegen/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 14c1dce..90e2cb0 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -723,6 +723,27 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_member_object(&mut self, node: &mut MemberObject) -> bool {
+        match node {
+            MemberObject::Expr(expr) => {
+                expr.traverse(self);
+
+                // Without separation the dot of the member access becomes part of the number.
+                if let Expr::Literal(ExprLiteral {
+                    literal: Literal::Number(LitNumber { raw }),
+                    ..
+                }) = expr.as_ref()
+                {
+                    if raw.chars().all(|c| c.is_ascii_digit() || c == '_') {
+                        self.char(' ');
+                    }
+                }
+                false
+            }
+            MemberObject::Super(_) => true,
+        }
+    }
+
     fn enter_call_expr(&mut self, node: &mut ExprCall) -> bool {
         node.callee.traverse(self);
         self.parenthesize('(', false, |s| {
-- 
2.43.0


From 707c9fe6c010764c47cc2d3c03afc22ecc39d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 32/63] fix: do not add a space to template strings that end
 before a substitution

---
 codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 90e2cb0..64f1cd6 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1346,7 +1346,7 @@ impl Visitor for CodeGenerator<'_> {
                 }
             }
             TemplatePart::Expr(expr) => {
-                self.string("${");
+                self.data.push_str("${");
                 expr.traverse(self);
                 self.char('}');
             }
-- 
2.43.0


From 64357a1207ae3af2b7b1da111ff89ece0a314fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 33/63] fix: allow a trailing comma after arrow function
 parameters

---
 parser/src/cover.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 24a5f90..c4e96a1 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -40,6 +40,13 @@ where
                         self.parse_arrow_function_expr()?,
                     ))
                 }
+                // A comma is allowed after the last parameter of an arrow function.
+                &UnexpectedToken(punct!(")"), _) if self.current_matches(&punct!("=>")) => {
+                    self.reader.rewind_to(&start_token)?;
+                    Err(Error::arrow_function_not_allowed(
+                        self.parse_arrow_function_expr()?,
+                    ))
+                }
                 _ => Err(error),
             },
         }
-- 
2.43.0


From 00539587b0b84b086bec1c06987f4bba784132f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 34/63] fix: import call and import.meta as statements, chains
 on import calls

---
 parser/src/expr.rs | 3 ++-
 parser/src/stmt.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 6841e8d..55b6dbc 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -451,7 +451,8 @@ where
                 self.parse_super_call_expr()
             }
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
-                self.parse_import_call_expr()
+                let call_expr = self.parse_import_call_expr()?;
+                self.parse_recursive_call_expression(span_start, call_expr)
             }
             token_matches!(ok: keyword!("async"))
                 if self.peek_matches(&punct!("(")) && !self.followed_by_new_line() =>
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index ccec958..0b52e9d 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -76,7 +76,10 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            // `import(..)` and `import.meta` are expressions.
+            token_matches!(keyword!("import"))
+                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
+            {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
-- 
2.43.0


From c150435ce2d8dca1b659993ab20583f9f88266af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 35/63] fix: allow export default of an anonymous class with
 heritage

---
 parser/src/class.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 7ba3f44..f438c75 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -31,7 +31,10 @@ where
 
     /// Parses optional class identifier, returns dummy if identifier is optional and missing.
     fn parse_optional_class_identifier(&mut self) -> Result<Ident> {
-        if self.context.is_default && self.current_matches(&punct!("{")) {
+        let is_anonymous =
+            self.current_matches(&punct!("{")) || self.current_matches(&keyword!("extends"));
+
+        if self.context.is_default && is_anonymous {
             let current = self.current().unwrap();
             Ok(Ident::dummy(current.span.start))
         } else {
-- 
2.43.0


From cfe1360f81087aa1c045f70c2e57d708635bd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 36/63] fix: methods and accessors of an async function are not
 async themselves

---
 parser/src/method.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/method.rs b/parser/src/method.rs
index 6f4b1b9..5d1acd6 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -35,7 +35,8 @@ where
             _ => {
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
-                self.parse_method(span_start, is_static, name, MethodKind::Method)
+                self.with_context(self.context.with_await(false))
+                    .parse_method(span_start, is_static, name, MethodKind::Method)
             }
         }
     }
@@ -59,7 +60,8 @@ where
         self.consume()?;
 
         let name = self.parse_property_name()?;
-        self.parse_method(span_start, is_static, name, kind)
+        self.with_context(self.context.with_await(false))
+            .parse_method(span_start, is_static, name, kind)
     }
 
     /// Parses the `AsyncMethod` and `AsyncGeneratorMethod` production.
-- 
2.43.0


From 8d78863cb453c088ebcbecbcd57569a442813c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 37/63] fix: do not generate accessors as generators

---
 codegen/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 64f1cd6..e320c45 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -879,7 +879,8 @@ impl Visitor for CodeGenerator<'_> {
             self.space();
         }
 
-        if node.generator {
+        // Accessors can not be generators.
+        if node.generator && node.kind == MethodKind::Method {
             self.char('*');
         }
 
-- 
2.43.0


From d1f98478d68005ab87ea5287a28e57302a223e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 38/63] fix: object methods with computed names have the same
 context as other methods

---
 parser/src/literal.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 2ae85b2..e79f51c 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -243,8 +243,14 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
-                .map(PropertyDefinition::Method)
+            self.with_context(
+                self.context
+                    .with_await(false)
+                    .with_in_method(true)
+                    .with_super_call_allowed(false),
+            )
+            .parse_method(span_start, false, name, MethodKind::Method)
+            .map(PropertyDefinition::Method)
         }
     }
 
-- 
2.43.0


From e9b2ab6bee2091545cc2c4d30b25c9f306e4d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 39/63] fix: chains on super calls

---
 parser/src/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 55b6dbc..6dec114 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -448,7 +448,8 @@ where
         let span_start = self.position();
         let expr = match self.current() {
             token_matches!(ok: keyword!("super")) if self.peek_matches(&punct!("(")) => {
-                self.parse_super_call_expr()
+                let call_expr = self.parse_super_call_expr()?;
+                self.parse_recursive_call_expression(span_start, call_expr)
             }
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 let call_expr = self.parse_import_call_expr()?;
-- 
2.43.0


From 8be96e2ef36f0c5317c2f47c6ff18377d68a9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 40/63] fix: separate a number that ends with a decimal point
 from a following keyword

---
 codegen/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index e320c45..83fb29f 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -412,11 +412,23 @@ impl CodeGenerator<'_> {
             ('!', '-') => self.data.ends_with("<!") && str == "--",
             // Would be the flags of a regexp.
             ('/', _) => matches!(str, "in" | "instanceof" | "of"),
+            // A number can not be directly followed by a keyword.
+            ('.', first) if Self::is_word_char(first) => self.last_is_decimal_point(),
             // Keywords, identifiers and numbers.
             (last, first) => Self::is_word_char(last) && Self::is_word_char(first),
         }
     }
 
+    /// Check if the output ends with a number without decimals after the decimal point.
+    fn last_is_decimal_point(&self) -> bool {
+        self.data
+            .rsplit(|c| !Self::is_word_char(c) && c != '.')
+            .next()
+            .and_then(|word| word.strip_suffix('.'))
+            .map(|word| !word.is_empty() && word.chars().all(|c| c.is_ascii_digit() || c == '_'))
+            .unwrap_or(false)
+    }
+
     fn is_word_char(char: char) -> bool {
         char.is_alphanumeric() || matches!(char, '$' | '_') || !char.is_ascii()
     }
-- 
2.43.0


From 70a41c5cdb6e3b5e4b33dbe391db835d2fe03054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 41/63] fix: a line break between async and function is not an
 async function declaration

---
 parser/src/module.rs | 13 +++++++++----
 parser/src/stmt.rs   |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index e95eb71..5a80c8c 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 0b52e9d..11da408 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From bdae313c71eb874a080c81a9d5f6f311d4ee9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 42/63] fix: a token after a template substitution is not first
 on its line

---
 lexer/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 5a0c749..cb15d21 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -391,6 +391,7 @@ impl<'a> Lexer<'a> {
         }
 
         let (value, ending) = self.read_until_end_of_template_literal_part()?;
+        self.first_on_line = false;
 
         let value = if ending == "${" {
             TokenValue::TemplateMiddle(value)
-- 
2.43.0


From 37118b72a337b875cfb1af40b06327dda2658f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 43/63] fix: computed names of methods do not belong to the
 method

---
 parser/src/class.rs   |  4 ++--
 parser/src/literal.rs | 14 ++++++--------
 parser/src/method.rs  | 41 +++++++++++++++++++++++++++--------------
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index f438c75..d6dd65d 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -99,12 +99,12 @@ where
     fn parse_class_element(&mut self, has_super: bool) -> Result<ClassElement> {
         let super_call_allowed =
             has_super && self.current_matches_identifier_or_literal("constructor");
-        let context = self
+        let method_context = self
             .context
             .with_in_method(true)
             .with_static_method_allowed(true)
             .with_super_call_allowed(super_call_allowed);
 
-        Ok(self.with_context(context).parse_method_definition()?.into())
+        Ok(self.parse_method_definition(method_context)?.into())
     }
 }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index e79f51c..7a217cd 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -219,14 +219,12 @@ where
             }
             token_matches!(punct!("[")) => self.parse_property_definition_with_computed_name(),
             _ if self.is_object_method_definition() => {
-                let method = self
-                    .with_context(
-                        self.context
-                            .with_in_method(true)
-                            .with_static_method_allowed(false)
-                            .with_super_call_allowed(false),
-                    )
-                    .parse_method_definition()?;
+                let method_context = self
+                    .context
+                    .with_in_method(true)
+                    .with_static_method_allowed(false)
+                    .with_super_call_allowed(false);
+                let method = self.parse_method_definition(method_context)?;
                 Ok(PropertyDefinition::Method(method))
             }
             _ => {
diff --git a/parser/src/method.rs b/parser/src/method.rs
index 5d1acd6..a17afe6 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -1,6 +1,6 @@
 use crate::error::Result;
 use crate::static_semantics::FormalParametersSemantics;
-use crate::Parser;
+use crate::{Context, Parser};
 use fajt_ast::{MethodDefinition, MethodKind, PropertyName};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
@@ -13,46 +13,55 @@ where
     I: PeekRead<Token, Error = fajt_lexer::error::Error>,
     I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
 {
-    /// Parses the `MethodDefinition` production.
-    pub(super) fn parse_method_definition(&mut self) -> Result<MethodDefinition> {
-        let is_static = self.context.static_method_allowed
+    /// Parses the `MethodDefinition` production. The `method_context` applies to the parameters and
+    /// the body, a computed name is evaluated outside of the method.
+    pub(super) fn parse_method_definition(
+        &mut self,
+        method_context: Context,
+    ) -> Result<MethodDefinition> {
+        let is_static = method_context.static_method_allowed
             && !self.peek_matches(&punct!("("))
             && self.maybe_consume(&keyword!("static"))?;
 
         match self.current()? {
-            token_matches!(punct!("*")) => self.parse_generator_method(is_static),
+            token_matches!(punct!("*")) => self.parse_generator_method(method_context, is_static),
             token_matches!(keyword!("get")) if !self.peek_matches(&punct!("(")) => {
-                self.parse_getter_or_setter(is_static, MethodKind::Get)
+                self.parse_getter_or_setter(method_context, is_static, MethodKind::Get)
             }
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
-                self.parse_getter_or_setter(is_static, MethodKind::Set)
+                self.parse_getter_or_setter(method_context, is_static, MethodKind::Set)
             }
             token_matches!(keyword!("async"))
                 if !self.peek_matches(&punct!("(")) && !self.followed_by_new_line() =>
             {
-                self.parse_async_method(is_static)
+                self.parse_async_method(method_context, is_static)
             }
             _ => {
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
-                self.with_context(self.context.with_await(false))
+                self.with_context(method_context.with_await(false))
                     .parse_method(span_start, is_static, name, MethodKind::Method)
             }
         }
     }
 
     /// Parses the `GeneratorMethod` production.
-    fn parse_generator_method(&mut self, is_static: bool) -> Result<MethodDefinition> {
+    fn parse_generator_method(
+        &mut self,
+        method_context: Context,
+        is_static: bool,
+    ) -> Result<MethodDefinition> {
         let span_start = self.position();
         self.consume_assert(&punct!("*"))?;
 
         let name = self.parse_property_name()?;
-        self.with_context(self.context.with_yield(true).with_await(false))
+        self.with_context(method_context.with_yield(true).with_await(false))
             .parse_method(span_start, is_static, name, MethodKind::Method)
     }
 
     fn parse_getter_or_setter(
         &mut self,
+        method_context: Context,
         is_static: bool,
         kind: MethodKind,
     ) -> Result<MethodDefinition> {
@@ -60,18 +69,22 @@ where
         self.consume()?;
 
         let name = self.parse_property_name()?;
-        self.with_context(self.context.with_await(false))
+        self.with_context(method_context.with_await(false))
             .parse_method(span_start, is_static, name, kind)
     }
 
     /// Parses the `AsyncMethod` and `AsyncGeneratorMethod` production.
-    fn parse_async_method(&mut self, is_static: bool) -> Result<MethodDefinition> {
+    fn parse_async_method(
+        &mut self,
+        method_context: Context,
+        is_static: bool,
+    ) -> Result<MethodDefinition> {
         let span_start = self.position();
         self.consume_assert(&keyword!("async"))?;
 
         let generator = self.maybe_consume(&punct!("*"))?;
         let name = self.parse_property_name()?;
-        self.with_context(self.context.with_yield(generator).with_await(true))
+        self.with_context(method_context.with_yield(generator).with_await(true))
             .parse_method(span_start, is_static, name, MethodKind::Method)
     }
 
-- 
2.43.0


From 1edc1f8d769b38d913ddb33491ee0d2a0fcc09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 44/63] fix: the right side of for-of is an assignment
 expression, not a sequence

---
 parser/src/iteration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 3c9ed3e..c3e2344 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -173,7 +173,9 @@ where
     ) -> Result<Stmt> {
         self.consume_assert(&keyword!("of"))?;
 
-        let right = self.with_context(self.context.with_in(true)).parse_expr()?;
+        let right = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
 
         self.consume_assert(&punct!(")"))?;
 
-- 
2.43.0


From b2601839c9855256a38882059c41ef764842b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 45/63] fix: import and export declarations are only allowed at
 the top level of a module

---
 parser/src/lib.rs  |  2 +-
 parser/src/stmt.rs | 56 +++++++++++++++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index caf1bae..a3d4c35 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -182,7 +182,7 @@ impl Parse for Stmt {
         I: PeekRead<Token, Error = fajt_lexer::error::Error>,
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
-        parser.parse_declaration_or_statement()
+        parser.parse_top_level_stmt()
     }
 }
 
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 11da408..e3ff534 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -24,12 +24,33 @@ where
                 break;
             }
 
-            stmts.push(self.parse_declaration_or_statement()?);
+            stmts.push(self.parse_top_level_stmt()?);
         }
 
         Ok(stmts)
     }
 
+    /// Parses a statement that is not nested in any other, in modules that includes import and
+    /// export declarations.
+    pub(super) fn parse_top_level_stmt(&mut self) -> Result<Stmt> {
+        if self.source_type == SourceType::Module {
+            match self.current()? {
+                token_matches!(keyword!("import")) if !self.is_import_expr() => {
+                    return self.parse_import_declaration();
+                }
+                token_matches!(keyword!("export")) => return self.parse_export_declaration(),
+                _ => {}
+            }
+        }
+
+        self.parse_declaration_or_statement()
+    }
+
+    /// `import(..)` and `import.meta` are expressions.
+    fn is_import_expr(&self) -> bool {
+        self.peek_matches(&punct!("(")) || self.peek_matches(&punct!("."))
+    }
+
     pub(super) fn parse_declaration_or_statement(&mut self) -> Result<Stmt> {
         let decl = self.parse_declaration()?;
         if let Some(decl) = decl {
@@ -78,28 +99,11 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            // `import(..)` and `import.meta` are expressions.
-            token_matches!(keyword!("import"))
-                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
-            {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `import` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_import_declaration()?)
+            token_matches!(keyword!("import")) if !self.is_import_expr() => {
+                return Err(self.misplaced_module_item_error("import")?);
             }
             token_matches!(keyword!("export")) => {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `export` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_export_declaration()?)
+                return Err(self.misplaced_module_item_error("export")?);
             }
             token_matches!(keyword!("const")) => {
                 Some(self.parse_variable_stmt(VariableKind::Const)?)
@@ -111,6 +115,16 @@ where
         })
     }
 
+    fn misplaced_module_item_error(&self, keyword: &str) -> Result<Error> {
+        let message = if self.source_type == SourceType::Script {
+            format!("Cannot use `{keyword}` statement outside a module")
+        } else {
+            format!("`{keyword}` statement is only allowed at the top level of a module")
+        };
+
+        Ok(Error::syntax_error(message, self.current()?.span.clone()))
+    }
+
     /// Check if current position matches the start of an expression statement as specified in the
     /// `ExpressionStatement` production.
     fn is_expr_stmt(&self) -> Result<bool> {
-- 
2.43.0


From 245fb9454652fddfd9f3718daade5ce4b67e66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 46/63] fix: digits on both sides of a numeric separator are
 required

---
 lexer/src/number.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..17d0eb1 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -141,6 +141,14 @@ impl<'a> Lexer<'a> {
             ));
         }
 
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         if number_str.ends_with('_') {
             let span_end = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From 1c31d79c2b9df10e1e8f6bcdcce0bf9ddeab7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 47/63] fix: only the default exported declaration itself may
 be anonymous

---
 parser/src/function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index 19da3db..b082860 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -276,6 +276,7 @@ where
                 self.context
                     .with_strict(is_strict)
                     .with_return(true)
+                    .with_default(false)
                     .with_in(true),
             )
             .parse_function_body_stmt_list()?;
-- 
2.43.0


From 748cab4d5fdccfba7be8c3f3dcf9b2cb7351d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 48/63] fix: deserializing a malformed span is an error instead
 of a panic

---
 ast/src/span.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ast/src/span.rs b/ast/src/span.rs
index 73968e3..d06e61b 100644
--- a/ast/src/span.rs
+++ b/ast/src/span.rs
@@ -56,12 +56,10 @@ impl<'de> Deserialize<'de> for Span {
             where
                 E: serde::de::Error,
             {
-                let mut parts = str.split(':');
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    Ok(Span {
-                        start: start.parse().unwrap(),
-                        end: end.parse().unwrap(),
-                    })
+                let parts = str.split_once(':');
+                let span = parts.map(|(start, end)| (start.parse(), end.parse()));
+                if let Some((Ok(start), Ok(end))) = span {
+                    Ok(Span { start, end })
                 } else {
                     Err(serde::de::Error::custom(format!(
                         "{str} is not a valid span."
-- 
2.43.0


From 88a55dc6cef3014f38b07fdaa7c3fcee64e96a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 49/63] fix: start lexer errors on a character boundary after
 non-ASCII characters

---
 lexer/src/lib.rs                     |  6 +++---
 lexer/src/number.rs                  | 10 +++++-----
 lexer/src/regexp.rs                  |  2 +-
 lexer/src/unicode_escape_sequence.rs |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index cb15d21..dc82875 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -266,7 +266,7 @@ impl<'a> Lexer<'a> {
                 }
                 Ok('<') if self.data[self.current_start()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
-                        let position = self.reader.position();
+                        let position = self.current_start();
                         return Err(Error::syntax_error(
                             "HTML comments are not allowed in this context".to_owned(),
                             (position, position + 2),
@@ -306,7 +306,7 @@ impl<'a> Lexer<'a> {
 
     /// Skips multi line comment, returns true if a new line was skipped.
     fn skip_multi_line_comment(&mut self) -> Result<()> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
         self.reader.consume()?;
         self.reader.consume()?;
 
@@ -457,7 +457,7 @@ impl<'a> Lexer<'a> {
     ///
     /// The position of the reader is only guaranteed to be somewhere after the start of the last
     /// consumed character, if that character is wider than one byte the position can be inside it.
-    fn current_start(&self) -> usize {
+    pub(crate) fn current_start(&self) -> usize {
         let mut start = self.reader.position();
         while !self.data.is_char_boundary(start) {
             start += 1;
diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index 17d0eb1..0ad7967 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -12,7 +12,7 @@ impl<'a> Lexer<'a> {
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
             Ok('0'..='9' | '_') if current == &'0' => {
-                let position = self.reader.position();
+                let position = self.current_start();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
                     (position, position + 1),
@@ -38,7 +38,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_hex_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -51,7 +51,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_octal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -65,7 +65,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_binary_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -79,7 +79,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_decimal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
 
         let mut number_string = String::new();
 
diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index c1beab2..879881a 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -6,7 +6,7 @@ type Result<T> = std::result::Result<T, Error>;
 
 impl Lexer<'_> {
     pub(super) fn read_regexp_literal(&mut self) -> Result<TokenValue> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
         let mut result = String::new();
         let regexp_start = self.reader.consume()?;
         debug_assert_eq!(regexp_start, '/');
diff --git a/lexer/src/unicode_escape_sequence.rs b/lexer/src/unicode_escape_sequence.rs
index 1d630b0..f40343e 100644
--- a/lexer/src/unicode_escape_sequence.rs
+++ b/lexer/src/unicode_escape_sequence.rs
@@ -9,7 +9,7 @@ impl Lexer<'_> {
         &mut self,
         is_start: bool,
     ) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
         let char = self.read_unicode_escape_sequence()?;
         let valid = if is_start {
             char.is_start_of_identifier()
@@ -29,7 +29,7 @@ impl Lexer<'_> {
     }
 
     fn read_unicode_escape_sequence(&mut self) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.current_start();
 
         let slash = self.reader.consume()?;
         debug_assert_eq!(slash, '\\');
-- 
2.43.0


From ada9c9b60a93aa86404ed9a359bd7d0a6ca0051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 50/63] fix: await is a reserved word in modules

---
 parser/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index a3d4c35..a858dd5 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -88,6 +88,9 @@ pub struct Context {
     /// `Strict` production parameter.
     is_strict: bool,
 
+    /// `true` if the goal symbol is `Module`, which reserves `await` everywhere.
+    is_module: bool,
+
     /// `Default` production parameter.
     is_default: bool,
 
@@ -121,6 +124,7 @@ impl Context {
     modifier!(with_yield: is_yield);
     modifier!(with_in: is_in);
     modifier!(with_strict: is_strict);
+    modifier!(with_module: is_module);
     modifier!(with_default: is_default);
     modifier!(with_return: is_return);
 
@@ -135,13 +139,14 @@ impl Context {
             super_call_allowed: self.super_call_allowed,
             static_method_allowed: self.static_method_allowed,
             is_strict: self.is_strict,
+            is_module: self.is_module,
             ..Context::default()
         }
     }
 
     fn keyword_context(&self) -> KeywordContext {
         let mut keyword_context = KeywordContext::empty();
-        if self.is_await {
+        if self.is_await || self.is_module {
             keyword_context |= KeywordContext::AWAIT;
         }
 
@@ -195,12 +200,12 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode =
-            parser.source_type == SourceType::Module || directives.as_slice().contains_strict();
+        let is_module = parser.source_type == SourceType::Module;
+        let strict_mode = is_module || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
-                .with_context(parser.context.with_strict(true))
+                .with_context(parser.context.with_strict(true).with_module(is_module))
                 .parse_all_stmts()?
         } else {
             parser.parse_all_stmts()?
-- 
2.43.0


From 7a372a14fb637683a979dd8163da22c378ccdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 51/63] fix: the format option takes one value

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57a349d..a180d3a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,7 @@ fn get_arguments() -> Arguments {
                 .long("format")
                 .short('f')
                 .value_name("format")
-                .value_names(["pretty", "minified"]),
+                .value_parser(["pretty", "minified"]),
         )
         .arg(Arg::new("check").long("check").short('c').num_args(0))
         .get_matches();
-- 
2.43.0


From b0014c43f37bb4b09249e30024494b8d60146525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 52/63] fix: an unreadable file is reported instead of a panic

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a180d3a..dcb9639 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,7 +13,13 @@ struct Arguments {
 
 fn main() {
     let args = get_arguments();
-    let source = read_to_string(&args.file_name).unwrap();
+    let source = match read_to_string(&args.file_name) {
+        Ok(source) => source,
+        Err(error) => {
+            eprintln!("Could not read {}: {error}", args.file_name);
+            std::process::exit(1);
+        }
+    };
 
     let is_module = args.file_name.ends_with(".mjs") || args.file_name.ends_with(".module.js");
 
-- 
2.43.0


From 1cd12f8d1a14a223b3b7d5440085a16d24ccd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 53/63] fix: do not parse an expression that starts with a
 string twice

---
 parser/src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index a858dd5..3520ed0 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -28,7 +28,7 @@ use fajt_ast::{
 use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
 use fajt_lexer::error::ErrorKind as LexerErrorKind;
 use fajt_lexer::token::{KeywordContext, Token, TokenValue};
-use fajt_lexer::{punct, Lexer};
+use fajt_lexer::{keyword, punct, Lexer};
 use fajt_lexer::{token_matches, LexerState};
 
 /// Similar trait to bool.then, but handles closures returning `Result`.
@@ -447,7 +447,7 @@ where
         let mut directives = Vec::new();
 
         loop {
-            if !self.current_matches_string_literal() {
+            if !self.current_matches_string_literal() || self.peek_continues_expr() {
                 break;
             }
 
@@ -474,6 +474,26 @@ where
         Ok(directives)
     }
 
+    /// `true` if the next token can only be a continuation of an expression that ends at the current
+    /// token, i.e. the current token alone is not a statement.
+    fn peek_continues_expr(&self) -> bool {
+        match self.peek().map(|token| &token.value) {
+            Some(
+                punct!(";")
+                | punct!("{")
+                | punct!("}")
+                | punct!("++")
+                | punct!("--")
+                | punct!("!")
+                | punct!("~"),
+            ) => false,
+            Some(TokenValue::Punctuator(_)) => true,
+            Some(keyword!("in") | keyword!("instanceof")) => true,
+            Some(TokenValue::TemplateHead(_) | TokenValue::Literal(Literal::Template(_))) => true,
+            _ => false,
+        }
+    }
+
     /// Consumes current token if current token is `,`.
     /// Returns `Err` if current token is neither `,` nor `list_end`.
     fn consume_list_delimiter(&mut self, list_end: &TokenValue) -> Result<()> {
-- 
2.43.0


From b7835097223dd93be510c1e25c08da3eb6bc4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 54/63] fix: reject 'async' as the target of a for-of loop

---
 parser/src/iteration.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index c3e2344..11e140a 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -2,7 +2,7 @@ use crate::error::Result;
 use crate::static_semantics::ExprSemantics;
 use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
-    ForBinding, ForDeclaration, ForInit, Stmt, StmtDoWhile, StmtFor, StmtForIn, StmtForOf,
+    Expr, ForBinding, ForDeclaration, ForInit, Stmt, StmtDoWhile, StmtFor, StmtForIn, StmtForOf,
     StmtVariable, StmtWhile, VariableKind,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
@@ -171,6 +171,13 @@ where
         left: ForDeclaration,
         asynchronous: bool,
     ) -> Result<Stmt> {
+        // `for (async of` is reserved, it can only be the start of an arrow function.
+        if let ForDeclaration::Expr(expr) = &left {
+            if !asynchronous && matches!(&**expr, Expr::IdentRef(ident) if ident.name == "async") {
+                return Err(Error::unexpected_token(self.consume()?));
+            }
+        }
+
         self.consume_assert(&keyword!("of"))?;
 
         let right = self
-- 
2.43.0


From f5fdc699c036707acf89b958627722b3c809e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 55/63] fix: read 'let' before 'yield' or 'await' as the start
 of a declaration

---
 parser/src/variable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index 3075006..6318727 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -3,7 +3,7 @@ use crate::{Parser, ThenTry};
 use fajt_ast::{BindingPattern, Stmt, StmtVariable, VariableDeclaration, VariableKind};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::token::Token;
-use fajt_lexer::{punct, LexerState};
+use fajt_lexer::{keyword, punct, LexerState};
 
 impl<I> Parser<'_, I>
 where
@@ -47,6 +47,8 @@ where
         self.peek_matches(&punct!("{"))
             || self.peek_matches(&punct!("["))
             || self.peek_is_identifier()
+            || self.peek_matches(&keyword!("yield"))
+            || self.peek_matches(&keyword!("await"))
     }
 
     /// Parses the `VariableDeclaration` or `LexicalBinding` production.
-- 
2.43.0


From 7786267abb0b418eb4c94f6cb5188798ab06df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 56/63] fix: reject 'eval' and 'arguments' as shorthand
 assignment targets in strict mode

---
 parser/src/assignment_pattern.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 73e37ac..23d52b5 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -192,6 +192,13 @@ where
         let span_start = self.position();
 
         let ident = self.parse_identifier()?;
+        if self.context.is_strict && (ident.name == "arguments" || ident.name == "eval") {
+            return Err(Error::syntax_error(
+                "Unexpected `eval` or `arguments` in strict mode".to_owned(),
+                ident.span,
+            ));
+        }
+
         let initializer = self.current_matches(&punct!("=")).then_try(|| {
             self.with_context(self.context.with_in(true))
                 .parse_initializer()
-- 
2.43.0


From 9843807cb0a1af140c2967cf71af100a87ae52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:39 +0000
Subject: [PATCH 57/63] fix: reject 'yield' and 'await' in the parameters of
 generators and async functions

---
 parser/src/expr.rs     | 16 ++++++++++++++--
 parser/src/function.rs | 13 ++++++++++++-
 parser/src/lib.rs      |  4 ++++
 parser/src/literal.rs  |  2 +-
 parser/src/method.rs   | 11 ++++++-----
 5 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 6dec114..8a33f10 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -248,7 +248,13 @@ where
     /// Parses the `YieldExpression` production.
     fn parse_yield_expr(&mut self) -> Result<Expr> {
         let span_start = self.position();
-        self.consume_assert(&keyword!("yield"))?;
+        let yield_token = self.consume_assert(&keyword!("yield"))?;
+        if self.context.in_parameters {
+            return Err(Error::syntax_error(
+                "Yield expression is not allowed in formal parameters".to_owned(),
+                yield_token.span,
+            ));
+        }
 
         if self.is_end() || self.expr_ended() {
             let span = self.span_from(span_start);
@@ -357,7 +363,13 @@ where
     /// Parses the `AwaitExpression` production.
     fn parse_await_expr(&mut self) -> Result<Expr> {
         let span_start = self.position();
-        self.consume_assert(&keyword!("await"))?;
+        let await_token = self.consume_assert(&keyword!("await"))?;
+        if self.context.in_parameters {
+            return Err(Error::syntax_error(
+                "Await expression is not allowed in formal parameters".to_owned(),
+                await_token.span,
+            ));
+        }
 
         let argument = self.parse_unary_expr()?.into();
 
diff --git a/parser/src/function.rs b/parser/src/function.rs
index b082860..a8b113f 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -35,7 +35,12 @@ where
         span_start: usize,
         asynchronous: bool,
     ) -> Result<Expr> {
-        let (binding_parameter, parameters) = self.parse_arrow_function_parameters()?;
+        let (binding_parameter, parameters) = self
+            .with_context(
+                self.context
+                    .with_await(self.context.is_await || asynchronous),
+            )
+            .parse_arrow_function_parameters()?;
 
         let arrow = self.consume_assert(&punct!("=>"))?;
         if arrow.first_on_line {
@@ -231,6 +236,11 @@ where
 
     /// Parses the `FormalParameters` production.
     pub(super) fn parse_formal_parameters(&mut self) -> Result<FormalParameters> {
+        self.with_context(self.context.with_in_parameters(true))
+            .parse_formal_parameters_content()
+    }
+
+    fn parse_formal_parameters_content(&mut self) -> Result<FormalParameters> {
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
@@ -277,6 +287,7 @@ where
                     .with_strict(is_strict)
                     .with_return(true)
                     .with_default(false)
+                    .with_in_parameters(false)
                     .with_in(true),
             )
             .parse_function_body_stmt_list()?;
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 3520ed0..8360cfd 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -97,6 +97,9 @@ pub struct Context {
     /// `Return` production parameter.
     is_return: bool,
 
+    /// `true` if we are inside formal parameters, where `yield` and `await` expressions are forbidden.
+    in_parameters: bool,
+
     /// `true` if we are inside a method and not a function.
     in_method: bool,
 
@@ -128,6 +131,7 @@ impl Context {
     modifier!(with_default: is_default);
     modifier!(with_return: is_return);
 
+    modifier!(with_in_parameters: in_parameters);
     modifier!(with_in_method: in_method);
     modifier!(with_super_call_allowed: super_call_allowed);
     modifier!(with_static_method_allowed: static_method_allowed);
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 7a217cd..843a3b0 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -247,7 +247,7 @@ where
                     .with_in_method(true)
                     .with_super_call_allowed(false),
             )
-            .parse_method(span_start, false, name, MethodKind::Method)
+            .parse_method(span_start, false, false, name, MethodKind::Method)
             .map(PropertyDefinition::Method)
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index a17afe6..79ae0b9 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -40,7 +40,7 @@ where
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
                 self.with_context(method_context.with_await(false))
-                    .parse_method(span_start, is_static, name, MethodKind::Method)
+                    .parse_method(span_start, is_static, false, name, MethodKind::Method)
             }
         }
     }
@@ -56,7 +56,7 @@ where
 
         let name = self.parse_property_name()?;
         self.with_context(method_context.with_yield(true).with_await(false))
-            .parse_method(span_start, is_static, name, MethodKind::Method)
+            .parse_method(span_start, is_static, true, name, MethodKind::Method)
     }
 
     fn parse_getter_or_setter(
@@ -70,7 +70,7 @@ where
 
         let name = self.parse_property_name()?;
         self.with_context(method_context.with_await(false))
-            .parse_method(span_start, is_static, name, kind)
+            .parse_method(span_start, is_static, false, name, kind)
     }
 
     /// Parses the `AsyncMethod` and `AsyncGeneratorMethod` production.
@@ -85,18 +85,19 @@ where
         let generator = self.maybe_consume(&punct!("*"))?;
         let name = self.parse_property_name()?;
         self.with_context(method_context.with_yield(generator).with_await(true))
-            .parse_method(span_start, is_static, name, MethodKind::Method)
+            .parse_method(span_start, is_static, generator, name, MethodKind::Method)
     }
 
     pub(super) fn parse_method(
         &mut self,
         span_start: usize,
         is_static: bool,
+        is_generator: bool,
         name: PropertyName,
         kind: MethodKind,
     ) -> Result<MethodDefinition> {
         let parameters = self
-            .with_context(self.context.with_yield(false))
+            .with_context(self.context.with_yield(is_generator))
             .parse_formal_parameters()?;
         let body = self.parse_function_body()?;
 
-- 
2.43.0


From 8edaad82be61d407b473a894d567a6424ecd39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 58/63] fix: find duplicate parameters of methods within
 patterns

---
 parser/src/static_semantics/mod.rs | 40 +++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 5002e41..fb2c6c5 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, Spanned};
+use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp, Spanned};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -91,13 +91,32 @@ impl_trait!(
                 BindingPattern::Ident(ident) => {
                     vec![ident.name.as_ref()]
                 }
-                BindingPattern::Array(_arr) => {
-                    // TODO
-                    vec![]
-                }
-                BindingPattern::Object(_obj) => {
-                    // TODO
-                    vec![]
+                BindingPattern::Array(array) => array
+                    .elements
+                    .iter()
+                    .flatten()
+                    .map(|element| &element.pattern)
+                    .chain(array.rest.as_deref())
+                    .flat_map(|pattern| pattern.get_bound_names())
+                    .collect(),
+                BindingPattern::Object(object) => {
+                    let mut names = Vec::new();
+                    for prop in &object.props {
+                        match prop {
+                            ObjectBindingProp::Single(single) => {
+                                names.push(single.ident.name.as_ref())
+                            }
+                            ObjectBindingProp::Named(named) => {
+                                names.append(&mut named.binding.pattern.get_bound_names())
+                            }
+                        }
+                    }
+
+                    if let Some(rest) = &object.rest {
+                        names.append(&mut rest.get_bound_names());
+                    }
+
+                    names
                 }
             }
         }
@@ -151,7 +170,10 @@ impl_trait!(
 
         fn early_errors_method(&self, body_directives: &[LitString]) -> Result<()> {
             self.early_errors_forbidden_use_strict(body_directives)?;
+            self.early_errors_duplicates()
+        }
 
+        fn early_errors_duplicates(&self) -> Result<()> {
             let mut bound_names = self.bound_names();
             bound_names.sort_unstable();
 
@@ -187,7 +209,7 @@ impl_trait!(
                 ));
             }
 
-            Ok(())
+            self.early_errors_duplicates()
         }
 
         fn early_errors_forbidden_use_strict(&self, body_directives: &[LitString]) -> Result<()> {
-- 
2.43.0


From bd8c0b97dc1cf7012a41297399eeb9dba0b6109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:59 +0000
Subject: [PATCH 59/63] fix: apply the rules for parameters of methods to
 functions and arrow functions

---
 parser/src/function.rs             |  4 ++++
 parser/src/static_semantics/mod.rs | 32 +++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index a8b113f..bfc6880 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::static_semantics::FormalParametersSemantics;
 use crate::{DirectivePrologueSemantics, Error, Parser, ThenTry};
 use fajt_ast::{
     ArrowFunctionBody, BindingElement, Body, DeclFunction, Expr, ExprArrowFunction, ExprFunction,
@@ -55,6 +56,7 @@ where
                     .with_await(asynchronous),
             )
             .parse_concise_body()?;
+        parameters.early_errors_arrow_function(&body)?;
 
         let span = self.span_from(span_start);
         Ok(ExprArrowFunction {
@@ -148,6 +150,7 @@ where
         let identifier = self.is_identifier().then_try(|| self.parse_identifier())?;
         let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
+        parameters.early_errors_function(&body.directives, &self.context)?;
 
         let span = self.span_from(span_start);
         Ok(ExprFunction {
@@ -209,6 +212,7 @@ where
     ) -> Result<Stmt> {
         let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
+        parameters.early_errors_function(&body.directives, &self.context)?;
 
         let span = self.span_from(span_start);
         Ok(DeclFunction {
diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index fb2c6c5..7132f3c 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,10 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp, Spanned};
+use fajt_ast::{
+    ArrowFunctionBody, BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp,
+    Spanned,
+};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -169,7 +172,26 @@ impl_trait!(
         }
 
         fn early_errors_method(&self, body_directives: &[LitString]) -> Result<()> {
-            self.early_errors_forbidden_use_strict(body_directives)?;
+            self.early_errors_forbidden_use_strict(body_directives, "method")?;
+            self.early_errors_duplicates()
+        }
+
+        /// Duplicate parameters are only allowed in simple parameter lists of sloppy functions.
+        fn early_errors_function(&self, body_directives: &[LitString], context: &Context) -> Result<()> {
+            self.early_errors_forbidden_use_strict(body_directives, "function")?;
+
+            if context.is_strict || body_directives.contains_strict() || !self.is_simple() {
+                self.early_errors_duplicates()?;
+            }
+
+            Ok(())
+        }
+
+        fn early_errors_arrow_function(&self, body: &ArrowFunctionBody) -> Result<()> {
+            if let ArrowFunctionBody::Body(body) = body {
+                self.early_errors_forbidden_use_strict(&body.directives, "function")?;
+            }
+
             self.early_errors_duplicates()
         }
 
@@ -193,7 +215,7 @@ impl_trait!(
         }
 
         fn early_errors_setter(&self, body_directives: &[LitString]) -> Result<()> {
-            self.early_errors_forbidden_use_strict(body_directives)?;
+            self.early_errors_forbidden_use_strict(body_directives, "method")?;
 
             if self.rest.is_some() {
                 return Err(Error::syntax_error(
@@ -212,10 +234,10 @@ impl_trait!(
             self.early_errors_duplicates()
         }
 
-        fn early_errors_forbidden_use_strict(&self, body_directives: &[LitString]) -> Result<()> {
+        fn early_errors_forbidden_use_strict(&self, body_directives: &[LitString], kind: &str) -> Result<()> {
             if !self.is_simple() && body_directives.contains_strict() {
                 return Err(Error::syntax_error(
-                    "Only name parameters allowed in method with \"use strict\"".to_owned(),
+                    format!("Only name parameters allowed in {} with \"use strict\"", kind),
                     self.span.clone()
                 ))
             }
-- 
2.43.0


From ac3a9cdfc67403baf9559ba340fc4dcc8469bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 60/63] fix: reject reserved words as names of imported
 bindings

---
 parser/src/module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 5a80c8c..d01445a 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -246,7 +246,12 @@ where
     /// Parses the `ImportSpecifier` production.
     fn parse_import_specifier(&mut self) -> Result<NamedImport> {
         let span_start = self.position();
-        let name = self.parse_identifier_name()?;
+        // Without an alias, the name is also the local name.
+        let name = if self.peek_matches(&keyword!("as")) {
+            self.parse_identifier_name()?
+        } else {
+            self.parse_identifier()?
+        };
         let alias = self
             .maybe_consume(&keyword!("as"))?
             .then_try(|| self.parse_identifier())?;
-- 
2.43.0


From b9603d30bb83c55ab286ac376fdfb9a4cb8b8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 61/63] fix: a method in the parameters of a generator is not
 in that generator

---
 parser/src/literal.rs | 1 +
 parser/src/method.rs  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 843a3b0..296d819 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -243,6 +243,7 @@ where
         } else {
             self.with_context(
                 self.context
+                    .with_yield(self.context.is_yield && !self.context.in_parameters)
                     .with_await(false)
                     .with_in_method(true)
                     .with_super_call_allowed(false),
diff --git a/parser/src/method.rs b/parser/src/method.rs
index 79ae0b9..c0f7bfb 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -19,6 +19,10 @@ where
         &mut self,
         method_context: Context,
     ) -> Result<MethodDefinition> {
+        // A method within the parameters of a generator is not inside of that generator.
+        let is_yield = method_context.is_yield && !method_context.in_parameters;
+        let method_context = method_context.with_yield(is_yield);
+
         let is_static = method_context.static_method_allowed
             && !self.peek_matches(&punct!("("))
             && self.maybe_consume(&keyword!("static"))?;
-- 
2.43.0


From a5a270480290688a7d11f0aceb608f1a0457ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 62/63] fix: print errors far along a line instead of panicking

---
 parser/src/error/emitter.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index d8d2d9d..b2af526 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -73,14 +73,12 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         )?;
         writeln!(
             self.out,
-            "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
+            "{:<pad$}| {}{} {}",
             "",
-            "",
-            "^",
+            " ".repeat(before_error.chars().count() + tab_indents * 3),
+            "^".repeat(err_token_length.max(1)),
             label,
-            pad = padding,
-            err_offset = before_error.chars().count() + tab_indents * 3,
-            err_mark = err_token_length
+            pad = padding
         )?;
 
         Ok(())
-- 
2.43.0


From 4fb295237da22beeb04d2a413d63884ade553085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:44 +0000
Subject: [PATCH 63/63] fix: reserved words of strict code were accepted as
 names and parameters of functions with 'use strict'

---
 parser/src/function.rs             |  6 +++++-
 parser/src/static_semantics/mod.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index bfc6880..ccde75d 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -1,5 +1,5 @@
 use crate::error::Result;
-use crate::static_semantics::FormalParametersSemantics;
+use crate::static_semantics::{FormalParametersSemantics, IdentSemantics};
 use crate::{DirectivePrologueSemantics, Error, Parser, ThenTry};
 use fajt_ast::{
     ArrowFunctionBody, BindingElement, Body, DeclFunction, Expr, ExprArrowFunction, ExprFunction,
@@ -151,6 +151,9 @@ where
         let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
         parameters.early_errors_function(&body.directives, &self.context)?;
+        if let Some(identifier) = &identifier {
+            identifier.early_errors_function_binding(&body.directives)?;
+        }
 
         let span = self.span_from(span_start);
         Ok(ExprFunction {
@@ -213,6 +216,7 @@ where
         let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
         parameters.early_errors_function(&body.directives, &self.context)?;
+        identifier.early_errors_function_binding(&body.directives)?;
 
         let span = self.span_from(span_start);
         Ok(DeclFunction {
diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 7132f3c..33710d6 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -4,9 +4,10 @@ mod macros;
 use crate::error::Result;
 use crate::{Context, Error};
 use fajt_ast::{
-    ArrowFunctionBody, BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp,
+    ArrowFunctionBody, BindingPattern, Expr, FormalParameters, Ident, LitString, ObjectBindingProp,
     Spanned,
 };
+use fajt_lexer::token::{Keyword, KeywordContext};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -87,6 +88,25 @@ impl_trait!(
     }
 );
 
+impl_trait!(
+    impl trait IdentSemantics for Ident {
+        /// The name and the parameters of a function are strict if the body of the function is, which
+        /// is not known when they are parsed.
+        fn early_errors_function_binding(&self, body_directives: &[LitString]) -> Result<()> {
+            if !body_directives.contains_strict() {
+                return Ok(());
+            }
+
+            match self.name.parse::<Keyword>() {
+                Ok(keyword) if !keyword.is_allowed_as_identifier(KeywordContext::STRICT) => Err(
+                    Error::forbidden_identifier(self.name.clone(), self.span.clone()),
+                ),
+                _ => Ok(()),
+            }
+        }
+    }
+);
+
 impl_trait!(
     impl trait BindingPatternSemantics for BindingPattern {
         fn get_bound_names(&self) -> Vec<&str> {
@@ -242,6 +262,12 @@ impl_trait!(
                 ))
             }
 
+            for binding in &self.bindings {
+                if let BindingPattern::Ident(ident) = &binding.pattern {
+                    ident.early_errors_function_binding(body_directives)?;
+                }
+            }
+
             Ok(())
         }
     }
-- 
2.43.0

