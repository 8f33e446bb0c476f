From 109174457b687681ada60a1eaa14fd5bebfedfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 01/55] fix: compare the whole previous token when classifying
 an operator

Slicing the first byte of the previous token panicked when it started with
a multi-byte character, and treated a prefix-only operator before a sign as
if it were postfix.
---
 prexel/src/tokenizer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..228a159 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -187,6 +187,16 @@ where
     }
 }
 
+/// Checks if the given operator is a postfix unary operator.
+fn is_postfix<'a, N, C>(name: &str, context: &C) -> bool
+where
+    C: Context<'a, N>,
+{
+    context
+        .get_unary_function(name)
+        .map_or(false, |op| op.notation() == Notation::Postfix)
+}
+
 fn is_unary<'a, N, C>(prev: Option<&str>, cur: &str, next: Option<&str>, context: &C) -> bool
 where
     C: Context<'a, N>,
@@ -232,9 +242,7 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
-                {
+                if is_postfix(prev_str, context) && !context.is_binary_function(prev_str) {
                     return false;
                 }
 
-- 
2.43.0


From 458ce860110c433edda896c8a84a2072176b5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/55] fix: accept a postfix operator after a postfix operator
 and a sign after any operator

`3!!` was rejected, and a prefix sign following a one-character operator
that is not ASCII punctuation was classified as a binary operator.
---
 prexel/src/tokenizer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 228a159..57316a9 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -214,8 +214,11 @@ where
                         }
                     }
 
-                    // 10! , PI!, x!
-                    N::from_str(s).is_ok() || context.is_constant(s) || context.is_variable(s)
+                    // 10! , PI!, x!, 3!!
+                    N::from_str(s).is_ok()
+                        || context.is_constant(s)
+                        || context.is_variable(s)
+                        || is_postfix(s, context)
                 }
                 None => false,
             }
@@ -246,6 +249,11 @@ where
                     return false;
                 }
 
+                // 2 × -3, ¬-3
+                if context.is_binary_function(prev_str) || context.is_unary_function(prev_str) {
+                    return true;
+                }
+
                 // +-, (-, !+
                 if prev_str.chars().count() == 1 {
                     let c = prev_str.chars().last().unwrap();
-- 
2.43.0


From f7e173fce2e98a083904c75d646c1ed815834726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 03/55] fix: do not discard the second decimal point of a
 number

`1.2.` evaluated as `1.2` because the second point was consumed and dropped.
---
 prexel/src/utils/splitter.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..fc462d2 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -235,12 +235,10 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    while let Some(c) =
+                        rest.next_if(|c| is_valid_char(c) && !(*c == '.' && has_decimal_point))
+                    {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From 92e8ef130f8bc1ed2d54cfad9532e162140937ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 04/55] fix: an underscore after an operator starts an
 identifier

`2+_x` was split as `2`, `+_`, `x`, while `2 + _x` was split correctly.
---
 prexel/src/utils/splitter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index fc462d2..3dfad38 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -269,7 +269,6 @@ pub mod rules {
                         | '*'
                         | '-'
                         | '+'
-                        | '_'
                         | ':'
                         | ';'
                         | '"'
-- 
2.43.0


From d61908969ab19e617a98f3895ca192d8e83cd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 05/55] fix: split a run of adjacent operators into the
 operators that compose it

`2*-3`, `Max(1,-2)` or `5!-2` were rejected as an unknown token while the same
expressions with spaces between the operators were accepted.
---
 prexel/src/tokenizer.rs | 46 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 57316a9..a8537eb 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -75,7 +75,12 @@ where
         }
 
         // `Vec` used for fast access indexing, Iterator.nth(..) could be O(N)
-        let raw_tokens = self.splitter.split_into_tokens(expression);
+        let raw_tokens: Vec<String> = self
+            .splitter
+            .split_into_tokens(expression)
+            .into_iter()
+            .flat_map(|s| split_operators(s, context))
+            .collect();
         // Actual iterator over the string tokens.
         let mut iter = raw_tokens.iter().enumerate().peekable();
         // Stores the tokens to return.
@@ -187,6 +192,45 @@ where
     }
 }
 
+/// Splits a run of adjacent operators, eg: `*-`, `,-`, `!+`, into the operators that compose it.
+///
+/// The token is returned unchanged if the context knows it, or if it contains something
+/// that is not an operator.
+fn split_operators<'a, N, C>(token: String, context: &C) -> Vec<String>
+where
+    C: Context<'a, N>,
+    N: FromStr,
+{
+    let is_operator =
+        |s: &str| s == "," || context.is_binary_function(s) || context.is_unary_function(s);
+
+    if !token.chars().all(|c| c.is_ascii_punctuation())
+        || is_operator(&token)
+        || N::from_str(&token).is_ok()
+        || context.is_variable(&token)
+        || context.is_constant(&token)
+        || context.is_function(&token)
+    {
+        return vec![token];
+    }
+
+    let mut operators = Vec::new();
+    let mut rest = token.as_str();
+
+    while !rest.is_empty() {
+        // Takes the longest operator, eg: `>>-` is `>>` and `-`
+        match (1..=rest.len()).rev().find(|n| is_operator(&rest[..*n])) {
+            Some(n) => {
+                operators.push(rest[..n].to_string());
+                rest = &rest[n..];
+            }
+            None => return vec![token],
+        }
+    }
+
+    operators
+}
+
 /// Checks if the given operator is a postfix unary operator.
 fn is_postfix<'a, N, C>(name: &str, context: &C) -> bool
 where
-- 
2.43.0


From 02d446d17f42db986e65acbd2fa38de52e036f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 06/55] fix: ignore whitespaces before looking at the neighbors
 of an operator

With a splitter that keeps whitespaces `( - 2)` was rejected, as the token
before the sign was the whitespace.
---
 prexel/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index a8537eb..3fc015c 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -74,11 +74,13 @@ where
             return Err(Error::new(ErrorKind::Empty, "Expression is empty"));
         }
 
-        // `Vec` used for fast access indexing, Iterator.nth(..) could be O(N)
+        // `Vec` used for fast access indexing, Iterator.nth(..) could be O(N).
+        // Whitespaces are ignored.
         let raw_tokens: Vec<String> = self
             .splitter
             .split_into_tokens(expression)
             .into_iter()
+            .filter(|s| s != WHITESPACE)
             .flat_map(|s| split_operators(s, context))
             .collect();
         // Actual iterator over the string tokens.
@@ -158,8 +160,6 @@ where
                 }
             } else if string == COMMA {
                 tokens.push(Token::Comma);
-            } else if string == WHITESPACE {
-                // Ignore whitespaces
             } else {
                 if string.len() == 1 {
                     // If string token length is 1 and its not considered a binary operator, unary operator
-- 
2.43.0


From 140751d16f26e2abd306fef91ef6e33b7a6b30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 07/55] fix: bind prefix operators to its whole operand, and
 only to it

`-(2)+3` was evaluated as `-((2)+3)`, `- -5+3` as `-(-5+3)`, and `-3!` as `(-3)!`
while `-(3)!` was `-((3)!)`.
---
 prexel/src/evaluator.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..78bab94 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -328,7 +328,7 @@ mod shunting_yard {
         while let Some((pos, token)) = token_iterator.next() {
             match token {
                 Token::Number(_) | Token::Variable(_) | Token::Constant(_) => {
-                    push_number(context, &mut output, &mut operators, token)
+                    output.push(token.clone());
                 }
                 Token::BinaryOperator(name) => {
                     push_binary_function(context, &mut output, &mut operators, token, name)?;
@@ -415,6 +415,7 @@ mod shunting_yard {
                             | Token::Constant(_)
                             | Token::Variable(_)
                             | Token::GroupingOpen(_) => {
+                                pop_unary_functions(&mut output, &mut operators);
                                 operators.push(BinaryOperator('*'.to_string()));
                             }
                             _ => {}
@@ -425,7 +426,10 @@ mod shunting_yard {
                     if let Some(next_token) = token_iterator.peek() {
                         match next_token.1 {
                             Number(_) | Variable(_) | Constant(_) | Function(_)
-                            | GroupingOpen(_) => operators.push(BinaryOperator('*'.to_string())),
+                            | GroupingOpen(_) => {
+                                pop_unary_functions(&mut output, &mut operators);
+                                operators.push(BinaryOperator('*'.to_string()));
+                            }
                             _ => {}
                         }
                     }
@@ -480,17 +484,11 @@ mod shunting_yard {
         Ok(())
     }
 
-    fn push_number<'a, N: Clone + Debug>(
-        context: &impl Context<'a, N>,
-        output: &mut Vec<Token<N>>,
-        operators: &mut Vec<Token<N>>,
-        token: &Token<N>,
-    ) {
-        output.push(token.clone());
-        if let Some(Token::UnaryOperator(op)) = operators.last() {
-            if context.get_unary_function(op).is_some() {
-                output.push(operators.pop().unwrap());
-            }
+    /// Pushes into the output the prefix unary operators that are waiting for its operand,
+    /// prefix operators have higher precedence than any binary operator.
+    fn pop_unary_functions<N>(output: &mut Vec<Token<N>>, operators: &mut Vec<Token<N>>) {
+        while operators.last().map_or(false, |t| t.is_unary_operator()) {
+            output.push(operators.pop().unwrap());
         }
     }
 
@@ -543,6 +541,8 @@ mod shunting_yard {
             )
         })?;
 
+        pop_unary_functions(output, operators);
+
         while let Some(t) = operators.last() {
             if let Token::GroupingOpen(_) = t {
                 break;
-- 
2.43.0


From e3889965a6b6604f0753b64fed0ee686e1f6c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 08/55] fix: a function called without arguments receives no
 arguments

The argument count of `Random()` was 1, so `1 + Random()` consumed the `1`,
and a missing argument was ignored instead of being an error.
---
 prexel/src/evaluator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 78bab94..27b24aa 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
@@ -365,7 +365,16 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    // Nothing between the grouping symbols, eg: `Random()`
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -583,6 +592,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -602,7 +612,8 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From 0505443cb24006998c20e406c10c2e991bcf991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 09/55] fix: reject misplaced operands and operators (`()5`,
 `(2 3 +)`, `Sum(1 2 + , 3)` were accepted)

---
 prexel/src/evaluator.rs | 77 +++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 27b24aa..f6505b7 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -324,8 +324,13 @@ mod shunting_yard {
         let mut arg_count: Vec<usize> = Vec::new();
         let mut grouping_count: Vec<usize> = Vec::new();
 
+        // `true` if the next token must start an operand, `false` if must follow an operand.
+        let mut expect_operand = true;
+
         let mut token_iterator = tokens.iter().enumerate().peekable();
         while let Some((pos, token)) = token_iterator.next() {
+            expect_operand = check_token_position(tokens, context, pos, expect_operand)?;
+
             match token {
                 Token::Number(_) | Token::Variable(_) | Token::Constant(_) => {
                     output.push(token.clone());
@@ -376,28 +381,6 @@ mod shunting_yard {
                         &mut arg_count,
                     )?;
 
-                    // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
-                    if pos > 1 {
-                        if let Token::GroupingOpen(s) = tokens[pos - 1] {
-                            if context
-                                .config()
-                                .get_group_open_for(*c)
-                                .map_or(false, |v| v == s)
-                                && !tokens[pos - 2].is_function()
-                            {
-                                return Err(Error::new(
-                                    ErrorKind::InvalidInput,
-                                    format!(
-                                        // Empty grouping symbols: ()
-                                        "Empty grouping symbols: {}{}",
-                                        context.config().get_group_open_for(*c).unwrap(),
-                                        c
-                                    ),
-                                ));
-                            }
-                        }
-                    }
-
                     if !arg_count.is_empty() {
                         grouping_count.pop();
                     }
@@ -426,6 +409,7 @@ mod shunting_yard {
                             | Token::GroupingOpen(_) => {
                                 pop_unary_functions(&mut output, &mut operators);
                                 operators.push(BinaryOperator('*'.to_string()));
+                                expect_operand = true;
                             }
                             _ => {}
                         }
@@ -438,6 +422,7 @@ mod shunting_yard {
                             | GroupingOpen(_) => {
                                 pop_unary_functions(&mut output, &mut operators);
                                 operators.push(BinaryOperator('*'.to_string()));
+                                expect_operand = true;
                             }
                             _ => {}
                         }
@@ -446,6 +431,13 @@ mod shunting_yard {
             }
         }
 
+        if expect_operand {
+            return Err(Error::new(
+                ErrorKind::InvalidExpression,
+                "Unexpected end of the expression, an operand was expected",
+            ));
+        }
+
         while let Some(t) = operators.pop() {
             if t.is_grouping_close() || t.is_grouping_close() {
                 return Err(Error::new(
@@ -460,6 +452,47 @@ mod shunting_yard {
         Ok(output)
     }
 
+    /// Checks if the token at the given position can start or follow an operand,
+    /// and returns `true` if the token after it must start an operand.
+    fn check_token_position<'a, N>(
+        tokens: &[Token<N>],
+        context: &impl Context<'a, N>,
+        pos: usize,
+        expect_operand: bool,
+    ) -> Result<bool> {
+        let (starts_operand, expect_next) = match &tokens[pos] {
+            Number(_) | Variable(_) | Constant(_) => (true, false),
+            Function(_) | GroupingOpen(_) => (true, true),
+            BinaryOperator(_) | Comma => (false, true),
+            UnaryOperator(name) => match context.get_unary_function(name).map(|f| f.notation()) {
+                Some(Notation::Postfix) => (false, false),
+                _ => (true, true),
+            },
+            // Function call without arguments, eg: `Random()`
+            GroupingClose(_)
+                if pos > 1
+                    && tokens[pos - 1].is_grouping_open()
+                    && tokens[pos - 2].is_function() =>
+            {
+                (true, false)
+            }
+            _ => (false, false),
+        };
+
+        // A function must be followed by its arguments
+        let is_call =
+            pos == 0 || !tokens[pos - 1].is_function() || tokens[pos].is_grouping_open();
+
+        if starts_operand == expect_operand && is_call {
+            Ok(expect_next)
+        } else {
+            Err(Error::new(
+                ErrorKind::InvalidExpression,
+                format!("Misplaced token at position {}", pos),
+            ))
+        }
+    }
+
     fn check_comma_position<N>(
         tokens: &[Token<N>],
         grouping_count: &[usize],
-- 
2.43.0


From 07148a458625172a54f18923a9172fb948248678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/55] fix: infix_to_rpn returned an unclosed grouping symbol
 as part of the output

---
 prexel/src/evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index f6505b7..46aeec8 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -439,7 +439,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
-- 
2.43.0


From f46ac69c35d3e7646a5e79251aa5de2eb7e7fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 11/55] fix: strings equal ignoring case must have the same
 hash

---
 prexel/src/utils/ignore_case_str.rs    | 4 ++--
 prexel/src/utils/ignore_case_string.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..a0ccea7 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,8 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars() {
+            c.to_lowercase().for_each(|c| c.hash(state));
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..bd81b19 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,8 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars() {
+            c.to_lowercase().for_each(|c| c.hash(state));
         }
     }
 }
-- 
2.43.0


From 16ee8a5de8810d1b4c34f70576518e3b5474bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 12/55] fix: return an error instead of panicking when the
 alias of a function already exists

---
 prexel/src/context.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..33539d6 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -189,9 +189,11 @@ impl<'a, N> DefaultContext<'a, N> {
             if let Some(aliases) = func.aliases() {
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -218,9 +220,11 @@ impl<'a, N> DefaultContext<'a, N> {
             if let Some(aliases) = func.aliases() {
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -258,9 +262,11 @@ impl<'a, N> DefaultContext<'a, N> {
             if let Some(aliases) = func.aliases() {
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From ac44608e14dc3c73abd562e5eb0a26845ebcc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 13/55] fix: Sub of impl_unchecked_num_traits_with_field added
 the values

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From 9c032749dd0441dc845e30bf9cadd7a9586449a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 14/55] fix: checked avg panicked if the argument count does
 not fit in the number type

---
 prexel/src/ops/checked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..7fbae1a 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -263,8 +263,8 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
 
         match sum {
             Some(n) => {
-                let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                let result = N::from_usize(args.len())
+                    .and_then(|count| n.checked_div(&count))
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
-- 
2.43.0


From 66aa463f68844234360d706962f5acc5eef7eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 15/55] fix: checked factorial panicked on overflow and
 factorial of a huge float never ended

---
 prexel/src/ops/checked.rs | 26 +++++++++++-
 prexel/src/ops/mod.rs     | 87 +++++++++++++++++++++++----------------
 2 files changed, 77 insertions(+), 36 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 7fbae1a..1dfd96e 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,10 @@
-use num_traits::{FromPrimitive, Zero};
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::ops::math::factorial;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +163,29 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct Factorial;
+impl<N> UnaryFunction<N> for Factorial
+where
+    N: CheckedMul + CheckedSub + Zero + One + PartialOrd + ToPrimitive + FromPrimitive + Clone,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        factorial(value, |x, y| x.checked_mul(y))
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..ebb21fb 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -376,49 +376,66 @@ mod math_ops {
         }
 
         fn call(&self, value: N) -> Result<N> {
-            if value < N::zero() {
-                return Err(Error::from(ErrorKind::NegativeValue));
-            }
-
-            // 0! = 1 and 1! = 1
-            if value.is_zero() || value.is_one() {
-                return Ok(N::one());
-            }
+            factorial(value, |x, y| Some(x.clone() * y.clone()))
+        }
 
-            // Quick path for: `x < 1`
-            if value < N::one() {
-                return if let Some(n) = value.to_f64() {
-                    let result = gamma(n + 1f64);
-                    N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
-                } else {
-                    Err(Error::from(ErrorKind::Overflow))
-                };
-            }
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Factorial.into())
+        }
+    }
 
-            let mut total = value;
-            let mut next = total.clone() - N::one();
+    /// Computes the factorial of the value using the given multiplication,
+    /// which returns `None` if overflows.
+    pub(crate) fn factorial<N>(value: N, mul: impl Fn(&N, &N) -> Option<N>) -> Result<N>
+    where
+        N: Clone + Zero + One + Sub<N, Output = N> + PartialOrd + ToPrimitive + FromPrimitive,
+    {
+        if value < N::zero() {
+            return Err(Error::from(ErrorKind::NegativeValue));
+        }
 
-            while next >= N::one() {
-                total = total.clone() * next.clone();
-                next = next.clone() - N::one();
-            }
+        // 0! = 1 and 1! = 1
+        if value.is_zero() || value.is_one() {
+            return Ok(N::one());
+        }
 
-            // If next value is non-zero, apply `Gamma function`.
-            if !next.is_zero() {
-                if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
-                    total_f64 *= gamma(n + 1f64);
-                    N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
-                } else {
-                    Err(Error::from(ErrorKind::Overflow))
-                }
+        // Quick path for: `x < 1`
+        if value < N::one() {
+            return if let Some(n) = value.to_f64() {
+                let result = gamma(n + 1f64);
+                N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
             } else {
-                Ok(total)
+                Err(Error::from(ErrorKind::Overflow))
+            };
+        }
+
+        let mut total = value;
+        let mut next = total.clone() - N::one();
+
+        while next >= N::one() {
+            let product =
+                mul(&total, &next).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+            // The value is too large to be distinguished from infinite.
+            if product == total && next > N::one() {
+                return Ok(total);
             }
+
+            total = product;
+            next = next.clone() - N::one();
         }
 
-        #[cfg(feature = "docs")]
-        fn description(&self) -> Option<&str> {
-            Some(Description::Factorial.into())
+        // If next value is non-zero, apply `Gamma function`.
+        if !next.is_zero() {
+            if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
+                total_f64 *= gamma(n + 1f64);
+                N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
+            } else {
+                Err(Error::from(ErrorKind::Overflow))
+            }
+        } else {
+            Ok(total)
         }
     }
 
-- 
2.43.0


From 18473eafe90b083c46753022b743695dbec5007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 16/55] fix: the docs feature renamed the functions `truncate`
 and `sign`

---
 prexel/src/ops/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index ebb21fb..3e703ff 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -552,7 +552,7 @@ mod math_ops {
     forward_func_impl!(TruncateFunction, trunc, truncate);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    forward_func_impl!(TruncateFunction, trunc, truncate, Description::Truncate);
 
     pub struct RoundFunction;
     #[cfg(not(feature = "docs"))]
@@ -566,7 +566,7 @@ mod math_ops {
     forward_func_impl!(SignFunction, signum, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From ab048152905b433ccade9430449b796badd9cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 17/55] fix: the sign of 0 must be 0

---
 prexel/src/ops/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 3e703ff..f8e47ad 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -563,10 +563,26 @@ mod math_ops {
 
     pub struct SignFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(SignFunction, signum, sign);
+    forward_func_impl!(SignFunction, sign_or_zero, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
+    forward_func_impl!(SignFunction, sign_or_zero, sign, Description::Sign);
+
+    trait SignOrZero {
+        fn sign_or_zero(self) -> Self;
+    }
+
+    impl SignOrZero for f64 {
+        /// Gets the sign as -1, 0, or 1, `signum` never returns 0.
+        #[inline]
+        fn sign_or_zero(self) -> Self {
+            if self == 0.0 {
+                0.0
+            } else {
+                self.signum()
+            }
+        }
+    }
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From c8b5a396805215d7ae3a2aa1b23239b1adf0e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 18/55] fix: Random(min, max) may return a value out of the
 range

---
 prexel/src/ops/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index f8e47ad..d918272 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -678,7 +678,9 @@ mod math_ops {
                         )
                     }
 
-                    let value = min + ((max - min) * random::<f64>());
+                    // `max - min` may overflow
+                    let n = random::<f64>();
+                    let value = (min * (1.0 - n) + max * n).max(min).min(max);
                     N::from_f64(value).ok_or_else(|| Error::from(ErrorKind::Overflow))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-- 
2.43.0


From 36dde471ea8a7417dfab9de632dc4cf889d46624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 19/55] fix: decimal power panicked on huge or negative
 exponents and overflowed on representable results

---
 prexel/src/decimal/decimal_ext.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..ef02c46 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -67,11 +67,15 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            return self.checked_powi(exponent.to_i64()?);
         }
 
         if self.is_zero() {
-            return Some(Decimal::one());
+            return if exponent.is_sign_negative() {
+                None
+            } else {
+                Some(Decimal::zero())
+            };
         }
 
         if self.is_one() {
@@ -89,7 +93,7 @@ impl DecimalExt for Decimal {
         Some(result)
     }
 
-    fn checked_powi(self, mut exponent: i64) -> Option<Decimal> {
+    fn checked_powi(self, exponent: i64) -> Option<Decimal> {
         if exponent == 0 {
             return Some(Decimal::one());
         }
@@ -98,12 +102,9 @@ impl DecimalExt for Decimal {
             return Some(self);
         }
 
-        if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
-        }
-
+        let mut base = if exponent < 0 { self.checked_inv()? } else { self };
+        let mut exponent = exponent.unsigned_abs();
         let mut result = Decimal::one();
-        let mut base = self;
 
         while exponent > 0 {
             // If exponent is odd
@@ -112,8 +113,11 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From 84abfe2dac47e60fbbc6973ccd0930d3ba366659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 20/55] fix: decimal factorial of 2 was 1, and the factorial of
 a non-integer may panic

---
 prexel/src/decimal/decimal_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index ef02c46..68262f0 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -271,7 +271,7 @@ impl DecimalExt for Decimal {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
@@ -282,13 +282,13 @@ impl DecimalExt for Decimal {
         let mut result = self;
         let mut n = self - Decimal::one();
 
-        while n > Decimal::zero() {
+        while n >= Decimal::one() {
             result = result.checked_mul(n)?;
             n -= Decimal::one();
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
-- 
2.43.0


From ef17c77d3f8cd8ae8a9deb286b70b223977e99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 21/55] =?UTF-8?q?fix:=20decimal=20atan2(y,=200)=20must=20b?=
 =?UTF-8?q?e=20=C2=B1=CF=80/2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 prexel/src/decimal/decimal_ext.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 68262f0..7bb778d 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -456,16 +456,20 @@ impl DecimalExt for Decimal {
             return Decimal::zero();
         }
 
-        if x.is_zero() {
-            return if self > consts::ZERO {
-                consts::PI_2
-            } else {
-                consts::PI_2_MINUS
-            };
-        }
+        // If `x` is zero or is too small compared with `y`
+        let ratio = match self.checked_div(x) {
+            Some(ratio) => ratio,
+            None => {
+                return if self > consts::ZERO {
+                    consts::PI_FRACT_2
+                } else {
+                    -consts::PI_FRACT_2
+                };
+            }
+        };
 
         // Θ = arctan(y / x)
-        let atan2 = Decimal::atan(self / x);
+        let atan2 = Decimal::atan(ratio);
 
         if x > consts::ZERO {
             atan2
-- 
2.43.0


From 5f2c14338d88ec2bf8c6bc3cf3210d2b285e8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 22/55] fix: decimal sum, product and avg panicked on overflow

---
 prexel/src/decimal/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..c7f5fdb 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -539,7 +539,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(*n + *cur);
+                        result = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -566,7 +569,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(n * cur);
+                        result = Some(
+                            n.checked_mul(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -593,7 +599,10 @@ mod math_ops {
                 match sum {
                     None => sum = Some(*cur),
                     Some(ref n) => {
-                        sum = Some(*n + *cur);
+                        sum = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
-- 
2.43.0


From a1c17edf91e6149716d0507fe2b21870a4fc7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 23/55] fix: decimal to_degrees panicked on overflow

---
 prexel/src/decimal/decimal_ext.rs | 6 ++++++
 prexel/src/decimal/mod.rs         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 7bb778d..42135a1 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(&self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -51,6 +52,11 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(&self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI).map(|d| d.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index c7f5fdb..2ca6d96 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -699,9 +699,9 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees, Description::ToDegrees);
 }
 
 mod trig_ops {
-- 
2.43.0


From 18b401365c432631b8f3a8e543db43d81e39a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 24/55] fix: decimal csc, sec and cot returned the sin, cos and
 tan

---
 prexel/src/decimal/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2ca6d96..4f6da70 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -756,7 +756,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -863,7 +863,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
-- 
2.43.0


From 32ededa563cdbf031d77367bbc05ebc36595967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 25/55] fix: decimal inverse trigonometric functions must take
 a ratio and return degrees

---
 prexel/src/decimal/mod.rs | 81 +++++++++++++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 12 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 4f6da70..c66f203 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -705,6 +705,7 @@ mod math_ops {
 }
 
 mod trig_ops {
+    use crate::decimal::consts;
     use crate::decimal::decimal_ext::DecimalExt;
     use crate::error::*;
     use crate::function::Function;
@@ -917,6 +918,56 @@ mod trig_ops {
     impl_checked_trig_rec!(CotFunction, checked_tan, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
+    #[cfg(not(feature = "docs"))]
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($method_name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .$method_name()
+                            .map(|d| d.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
+    #[cfg(feature = "docs")]
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident, $description:expr) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($method_name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .$method_name()
+                            .map(|d| d.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     #[cfg(not(feature = "docs"))]
     macro_rules! impl_arc_trig_rec {
         ($struct_name:ident, $method_name:ident, $name:ident) => {
@@ -929,7 +980,9 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        // 1/0 is infinite
+                        1 if args[0].is_zero() => Ok(consts::PI_FRACT_2.to_degrees()),
+                        1 => Ok(args[0].inv().$method_name().to_degrees()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -954,8 +1007,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(|d| d.$method_name())
+                            .map(|d| d.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -980,7 +1034,9 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        // 1/0 is infinite
+                        1 if args[0].is_zero() => Ok(consts::PI_FRACT_2.to_degrees()),
+                        1 => Ok(args[0].inv().$method_name().to_degrees()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -1009,8 +1065,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(|d| d.$method_name())
+                            .map(|d| d.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1029,15 +1086,15 @@ mod trig_ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ASinFunction, asin);
+    impl_checked_arc_trig!(ASinFunction, asin);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ASinFunction, asin, Description::ASin);
+    impl_checked_arc_trig!(ASinFunction, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ACosFunction, acos);
+    impl_checked_arc_trig!(ACosFunction, acos);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ACosFunction, acos, Description::ACos);
+    impl_checked_arc_trig!(ACosFunction, acos, Description::ACos);
 
     pub struct ATanFunction;
     impl Function<Decimal> for ATanFunction {
@@ -1049,8 +1106,8 @@ mod trig_ops {
         #[inline]
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
-                1 => Ok(args[0].atan()),
-                2 => Ok(args[0].atan2(args[1])),
+                1 => Ok(args[0].atan().to_degrees()),
+                2 => Ok(args[0].atan2(args[1]).to_degrees()),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
-- 
2.43.0


From e42bd860713b92b4aa5e2a461d05a8ad0f2e226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 26/55] fix: decimal hyperbolic functions panicked on overflow
 or at the edge of its domain

---
 prexel/src/decimal/decimal_ext.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 42135a1..51f52ca 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -5,6 +5,9 @@ use rust_decimal::Decimal;
 use rust_decimal_macros::*;
 use std::ops::Neg;
 
+/// From this value `x^2 + 1` is the same as `x^2`.
+const MAX_SQUARE: Decimal = dec!(100000000000000);
+
 /// Extended methods for `Decimal`.
 pub trait DecimalExt {
     fn is_integer(&self) -> bool;
@@ -490,7 +493,7 @@ impl DecimalExt for Decimal {
         // formula: sinh(x) = (e^x - e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 - e1) / consts::TWO;
+        let result = e0.checked_sub(e1)? / consts::TWO;
         Some(result)
     }
 
@@ -498,7 +501,7 @@ impl DecimalExt for Decimal {
         // formula: cosh(x) = (e^x + e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 + e1) / consts::TWO;
+        let result = e0.checked_add(e1)? / consts::TWO;
         Some(result)
     }
 
@@ -508,6 +511,16 @@ impl DecimalExt for Decimal {
     }
 
     fn asinh(self) -> Decimal {
+        // asinh(-x) = -asinh(x)
+        if self.is_sign_negative() {
+            return -Decimal::asinh(-self);
+        }
+
+        // For a large x: asinh(x) = ln(2x) = ln(x) + ln(2)
+        if self > MAX_SQUARE {
+            return Decimal::checked_ln(self).unwrap() + consts::LN_2;
+        }
+
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
         let x2 = self * self;
         Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
@@ -518,13 +531,18 @@ impl DecimalExt for Decimal {
             return None;
         }
 
+        // For a large x: acosh(x) = ln(2x) = ln(x) + ln(2)
+        if self > MAX_SQUARE {
+            return Decimal::checked_ln(self)?.checked_add(consts::LN_2);
+        }
+
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
         let x2 = self * self;
         Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
     }
 
     fn atanh(self) -> Option<Decimal> {
-        if self < consts::ONE_MINUS || self > consts::ONE {
+        if self <= consts::ONE_MINUS || self >= consts::ONE {
             return None;
         }
 
-- 
2.43.0


From 17b4fb17c6d7f0c432a9b812ed6256215010a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 27/55] fix: decimal acsch, asech and acoth inverted the result
 instead of the argument

---
 prexel/src/decimal/mod.rs | 68 +++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index c66f203..d47074e 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -154,7 +154,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .map(|d| d.$method_name())
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -268,7 +271,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .map(|d| d.$method_name())
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -1174,6 +1180,56 @@ mod trig_ops {
     forward_checked_func_inv_impl!(CothFunction, tanh, coth, Description::Coth);
 
     //////////////////// Inverse Hyperbolic Trigonometric ////////////////////
+    #[cfg(not(feature = "docs"))]
+    macro_rules! impl_checked_arc_hyp_rec {
+        ($struct_name:ident, $method_name:ident, $name:ident) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .checked_inv()
+                            .and_then(|d| d.$method_name())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
+    #[cfg(feature = "docs")]
+    macro_rules! impl_checked_arc_hyp_rec {
+        ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .checked_inv()
+                            .and_then(|d| d.$method_name())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
     forward_func_impl!(ASinhFunction, asinh);
@@ -1200,15 +1256,15 @@ mod trig_ops {
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech);
+    impl_checked_arc_hyp_rec!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
+    impl_checked_arc_hyp_rec!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth);
+    impl_checked_arc_hyp_rec!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
+    impl_checked_arc_hyp_rec!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From 76662c787a43d636f87c809527a13fc345353ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 28/55] fix: decimal cbrt failed for 0 and for large values

---
 prexel/src/decimal/decimal_ext.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 51f52ca..4c7fd1b 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -162,7 +162,12 @@ impl DecimalExt for Decimal {
             return Some(self);
         }
 
-        let mut x = Decimal::one();
+        if self.is_zero() {
+            return Some(self);
+        }
+
+        // Initial approximation
+        let mut x = Decimal::from_f64(self.to_f64()?.cbrt())?;
 
         // Using Newton's Method
         // See: https://en.wikipedia.org/wiki/Cube_root#Numerical_methods
-- 
2.43.0


From 6532e48d9d64af6811357a38e6d89a3aa231a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 29/55] fix: decimal ln was inaccurate for values close to 0

---
 prexel/src/decimal/decimal_ext.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4c7fd1b..56f974b 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -5,6 +5,9 @@ use rust_decimal::Decimal;
 use rust_decimal_macros::*;
 use std::ops::Neg;
 
+/// Values below this are scaled before compute its natural logarithm.
+const MIN_LN: Decimal = dec!(0.1);
+
 /// From this value `x^2 + 1` is the same as `x^2`.
 const MAX_SQUARE: Decimal = dec!(100000000000000);
 
@@ -204,8 +207,9 @@ impl DecimalExt for Decimal {
         }
 
         // See: https://en.wikipedia.org/wiki/Natural_logarithm#Numerical_value
-        if self >= Decimal::one() {
-            let mut n = 0u32;
+        // The power series requires a value close to 1
+        if self >= Decimal::one() || self < MIN_LN {
+            let mut n = 0i32;
             let mut a = self;
 
             while a > Decimal::one() {
@@ -213,6 +217,11 @@ impl DecimalExt for Decimal {
                 n += 1;
             }
 
+            while a < MIN_LN {
+                a = a.checked_mul(consts::TEN)?;
+                n -= 1;
+            }
+
             // ln(x) = log(a * 10^n) = ln(a) + n * log(10)
             // B = n * log(10)
             let lna = Self::checked_ln(a)?;
-- 
2.43.0


From ca568007b63f8b12ccfc658172594f4465d6ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 30/55] fix: complex log(x, base) rejected the real bases and
 accepted the complex ones

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..1cc4b59 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From a4346f446747aab853e03571d6e014ec2a907ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 31/55] fix: complex Random(min, max) rejected the negative
 ranges and accepted the reversed ones

---
 prexel/src/complex/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1cc4b59..b4c5069 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -110,15 +110,17 @@ pub mod ops {
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
                         ));
                     }
 
-                    let re = min + ((max - min) * random_t::<T>()?);
-                    let im = min + ((max - min) * random_t::<T>()?);
+                    // `max - min` may overflow
+                    let lerp = |n: T| (min * (T::one() - n) + max * n).max(min).min(max);
+                    let re = lerp(random_t::<T>()?);
+                    let im = lerp(random_t::<T>()?);
                     Ok(Complex::new(re, im))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-- 
2.43.0


From 5b7678a12d7d116cb33545522603ba1bfb7f0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 32/55] fix: a power of the complex number 0 was NaN

---
 prexel/src/complex/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index b4c5069..27f24e3 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive};
+    use num_traits::{Float, FromPrimitive, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -28,6 +28,11 @@ pub mod ops {
         }
 
         fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
+            // `powc` takes the logarithm of the base
+            if left.is_zero() && right.re > T::zero() {
+                return Ok(Complex::zero());
+            }
+
             Ok(Complex::powc(&left, right))
         }
 
-- 
2.43.0


From 8910b9c7e9a5674e73b58146232402f3619ee313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 33/55] fix: complex inverse reciprocal functions inverted the
 result instead of the argument

---
 prexel/src/complex/mod.rs | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 27f24e3..debe39c 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -234,6 +234,46 @@ pub mod ops {
         };
     }
 
+    #[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_func_arg_inv {
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
+    #[cfg(feature = "docs")]
+    macro_rules! forward_impl_func_arg_inv {
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -312,21 +352,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_func_arg_inv!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_func_arg_inv!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_func_arg_inv!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_func_arg_inv!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_func_arg_inv!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_func_arg_inv!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -388,21 +428,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_func_arg_inv!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_func_arg_inv!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_func_arg_inv!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_func_arg_inv!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_func_arg_inv!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_func_arg_inv!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From 6b868a39cc1d2e16ea6bfef606f6c6d08941098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 34/55] fix: shifting a binary number by a negative or too
 large amount panicked

---
 prexel/src/binary/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..5a63360 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,6 +102,8 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
+    use num_traits::ToPrimitive;
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
 
     pub struct NotFunction;
@@ -395,7 +397,12 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            right
+                .0
+                .to_u32()
+                .and_then(|n| left.0.checked_shr(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +429,12 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            right
+                .0
+                .to_u32()
+                .and_then(|n| left.0.checked_shl(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From 0befbd950b2a889b0e3cec1c2387c8ed486fff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 35/55] fix: the precedence of the binary operators was
 inverted, `|` must be the lowest and shifts the highest

---
 prexel/src/binary/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index 5a63360..ee4ace6 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -140,7 +140,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(11)
+            Precedence(9)
         }
 
         fn associativity(&self) -> Associativity {
@@ -167,7 +167,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(13)
+            Precedence(7)
         }
 
         fn associativity(&self) -> Associativity {
@@ -194,7 +194,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(12)
+            Precedence(8)
         }
 
         fn associativity(&self) -> Associativity {
@@ -277,7 +277,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -305,7 +305,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -333,7 +333,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -361,7 +361,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -389,7 +389,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(7)
+            Precedence(13)
         }
 
         fn associativity(&self) -> Associativity {
@@ -421,7 +421,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(7)
+            Precedence(13)
         }
 
         fn associativity(&self) -> Associativity {
-- 
2.43.0


From 05c42d714686b34cb5943559bb1028fae15049e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 36/55] fix: the eval REPL panicked with an empty history

---
 eval/src/collections/carray.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..f5d7139 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,10 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From 868b76a1bf259a8605208b00c2ac003b46f57dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 37/55] fix: splitting a long run of operators took cubic time

---
 prexel/src/tokenizer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 3fc015c..ef27ad3 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -214,12 +214,18 @@ where
         return vec![token];
     }
 
+    // Symbols of an operator, the length is limited so a long run is not quadratic
+    const MAX_OPERATOR_LEN: usize = 16;
+
     let mut operators = Vec::new();
     let mut rest = token.as_str();
 
     while !rest.is_empty() {
         // Takes the longest operator, eg: `>>-` is `>>` and `-`
-        match (1..=rest.len()).rev().find(|n| is_operator(&rest[..*n])) {
+        match (1..=rest.len().min(MAX_OPERATOR_LEN))
+            .rev()
+            .find(|n| is_operator(&rest[..*n]))
+        {
             Some(n) => {
                 operators.push(rest[..n].to_string());
                 rest = &rest[n..];
-- 
2.43.0


From 8930298fb4860b969352627d43fde006f54577fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 38/55] fix: the binary feature did not compile without the
 docs feature

---
 prexel/src/binary/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ee4ace6..24f788b 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -124,6 +124,7 @@ pub mod math {
             Ok(Binary(!value.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise NOT of the given value.")
         }
@@ -151,6 +152,7 @@ pub mod math {
             Ok(Binary(left.0 & right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise AND of the given values.")
         }
@@ -178,6 +180,7 @@ pub mod math {
             Ok(Binary(left.0 | right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise OR of the given values.")
         }
@@ -205,6 +208,7 @@ pub mod math {
             Ok(Binary(left.0 ^ right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise XOR of the given values.")
         }
@@ -233,6 +237,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are equal, 0 otherwise.")
         }
@@ -261,6 +266,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are not equal, 0 otherwise.")
         }
@@ -289,6 +295,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than the right value, 0 otherwise.")
         }
@@ -317,6 +324,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than the right value, 0 otherwise.")
         }
@@ -345,6 +353,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than or equal to the right value, 0 otherwise.")
         }
@@ -373,6 +382,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than or equal to the right value, 0 otherwise.")
         }
@@ -405,6 +415,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted right by the right value.")
         }
@@ -437,6 +448,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted left by the right value.")
         }
-- 
2.43.0


From 558b2be24b75e5451479de4fcb6828dd72079934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 39/55] fix: decimal exp was wrong for large values and for
 negative ones

---
 prexel/src/decimal/decimal_ext.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 56f974b..c082146 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -8,6 +8,9 @@ use std::ops::Neg;
 /// Values below this are scaled before compute its natural logarithm.
 const MIN_LN: Decimal = dec!(0.1);
 
+/// Values over this are halved before compute its exponential.
+const MAX_EXP: Decimal = dec!(16);
+
 /// From this value `x^2 + 1` is the same as `x^2`.
 const MAX_SQUARE: Decimal = dec!(100000000000000);
 
@@ -261,6 +264,20 @@ impl DecimalExt for Decimal {
 
         debug_assert!(consts::TAYLOR_SERIES_ITERATIONS > 0);
 
+        // e^-x = 1 / e^x, and is 0 if `e^x` is too large
+        if self.is_sign_negative() {
+            return match self.neg().checked_exp() {
+                Some(n) => n.checked_inv(),
+                None => Some(Decimal::zero()),
+            };
+        }
+
+        // e^x = (e^(x / 2))^2, the continued fraction requires a small value
+        if self > MAX_EXP {
+            let e0 = self.checked_mul(consts::HALF)?.checked_exp()?;
+            return e0.checked_mul(e0);
+        }
+
         // Using Continued fraction
         // https://en.wikipedia.org/wiki/Exponential_function#Continued_fractions_for_ex
         let a0 = self.checked_mul(self)?;
-- 
2.43.0


From 4486bac2b4a0e25465aa37ee8edb47758d491d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 40/55] fix: decimal cot of 90 was an error, must be 0

---
 prexel/src/decimal/decimal_ext.rs | 11 +++++++++++
 prexel/src/decimal/mod.rs         |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index c082146..f0eedc6 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -33,6 +33,7 @@ pub trait DecimalExt {
     fn checked_sin(self) -> Option<Decimal>;
     fn checked_cos(self) -> Option<Decimal>;
     fn checked_tan(self) -> Option<Decimal>;
+    fn checked_cot(self) -> Option<Decimal>;
     fn asin(self) -> Option<Decimal>;
     fn acos(self) -> Option<Decimal>;
     fn atan(self) -> Decimal;
@@ -404,6 +405,16 @@ impl DecimalExt for Decimal {
         }
     }
 
+    fn checked_cot(self) -> Option<Decimal> {
+        let sin = self.checked_sin()?;
+        if sin.is_zero() {
+            None
+        } else {
+            let result = self.checked_cos()?.checked_div(sin)?;
+            Some(result.approx())
+        }
+    }
+
     fn asin(self) -> Option<Decimal> {
         if self < consts::ONE_MINUS || self > consts::ONE {
             None
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index d47074e..28b8d71 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -919,9 +919,9 @@ mod trig_ops {
 
     pub struct CotFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig_rec!(CotFunction, checked_tan, cot);
+    impl_checked_trig!(CotFunction, checked_cot, cot);
     #[cfg(feature = "docs")]
-    impl_checked_trig_rec!(CotFunction, checked_tan, cot, Description::Cot);
+    impl_checked_trig!(CotFunction, checked_cot, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 90b3db0c18353d3ce5f95c5f86f5758bdb33cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 41/55] fix: the complex power 0 ^ 0 was NaN, must be 1 as for
 the other numbers

---
 prexel/src/complex/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index debe39c..6eb6181 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive, Zero};
+    use num_traits::{Float, FromPrimitive, One, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -29,8 +29,14 @@ pub mod ops {
 
         fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
             // `powc` takes the logarithm of the base
-            if left.is_zero() && right.re > T::zero() {
-                return Ok(Complex::zero());
+            if left.is_zero() {
+                if right.is_zero() {
+                    return Ok(Complex::one());
+                }
+
+                if right.re > T::zero() {
+                    return Ok(Complex::zero());
+                }
             }
 
             Ok(Complex::powc(&left, right))
-- 
2.43.0


From 4f29cad7bcfb325ac74c55504d27c3196745ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 42/55] fix: random never leaves the range when the bounds are
 not exact as floats

---
 prexel/src/ops/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index d918272..51bde7a 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -650,7 +650,7 @@ mod math_ops {
     }
 
     pub struct RandFunction;
-    impl<N: ToPrimitive + FromPrimitive> Function<N> for RandFunction {
+    impl<N: ToPrimitive + FromPrimitive + PartialOrd + Clone> Function<N> for RandFunction {
         #[inline]
         fn name(&self) -> &str {
             "random"
@@ -665,13 +665,18 @@ mod math_ops {
                         return Err(Error::from(ErrorKind::NegativeValue));
                     }
 
-                    N::from_f64(random::<f64>() * max).ok_or_else(|| Error::from(ErrorKind::Overflow))
+                    // `max` may be not exact as a float
+                    match N::from_f64(random::<f64>() * max) {
+                        Some(value) if value > args[0] => Ok(args[0].clone()),
+                        Some(value) => Ok(value),
+                        None => Ok(args[0].clone())
+                    }
                 }
                 2 => {
                     let min = try_to_float(&args[0])?;
                     let max = try_to_float(&args[1])?;
 
-                    if min > max {
+                    if args[0] > args[1] {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid range for `Random`: min > max, {} > {}", min, max))
@@ -681,7 +686,15 @@ mod math_ops {
                     // `max - min` may overflow
                     let n = random::<f64>();
                     let value = (min * (1.0 - n) + max * n).max(min).min(max);
-                    N::from_f64(value).ok_or_else(|| Error::from(ErrorKind::Overflow))
+
+                    // `min` and `max` may be not exact as floats
+                    match N::from_f64(value) {
+                        Some(value) if value > args[1] => Ok(args[1].clone()),
+                        Some(value) if value < args[0] => Ok(args[0].clone()),
+                        Some(value) => Ok(value),
+                        None if value < 0.0 => Ok(args[0].clone()),
+                        None => Ok(args[1].clone())
+                    }
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
-- 
2.43.0


From 8b1892a0dd21b265bb3274f28512bbc87b903fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 43/55] fix: the server lists the definitions of the float
 context for the type float

---
 prexel-server/src/endpoints/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..046f4ed 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -66,7 +66,7 @@ pub async fn get_operators(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(operators))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let operators = services::get_operators(&context);
             Ok(HttpResponse::Ok().json(operators))
         }
@@ -100,7 +100,7 @@ pub async fn get_constants(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(constants))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let constants = services::get_constants(&context);
             Ok(HttpResponse::Ok().json(constants))
         }
@@ -134,7 +134,7 @@ pub async fn get_functions(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(functions))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let functions = services::get_functions(&context);
             Ok(HttpResponse::Ok().json(functions))
         }
-- 
2.43.0


From 875f72d27e5d3357a43e67e0cb7c7c460723c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 44/55] fix: the server takes the integer variables exactly

---
 prexel-server/src/models/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prexel-server/src/models/mod.rs b/prexel-server/src/models/mod.rs
index f200bf6..cb5e474 100644
--- a/prexel-server/src/models/mod.rs
+++ b/prexel-server/src/models/mod.rs
@@ -8,6 +8,8 @@ pub type EvalResult = Result<String, String>;
 #[serde(untagged)]
 pub enum Variable {
     String(String),
+    Integer(i64),
+    Unsigned(u64),
     Number(f64),
 }
 
@@ -15,6 +17,8 @@ impl Display for Variable {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Variable::String(s) => write!(f, "{}", s),
+            Variable::Integer(n) => write!(f, "{}", n),
+            Variable::Unsigned(n) => write!(f, "{}", n),
             Variable::Number(n) => write!(f, "{}", n),
         }
     }
-- 
2.43.0


From 16fed767247abe838ed27e59cfe79458933ea4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 45/55] fix: the server refuses a body with anything after the
 JSON object

---
 prexel-server/src/endpoints/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index 046f4ed..8e1f80e 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -27,7 +27,7 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
     };
 
     let deserializer = &mut serde_json::Deserializer::from_str(&body);
-    let expr = match serde_path_to_error::deserialize(deserializer) {
+    let expr = match serde_path_to_error::deserialize(&mut *deserializer) {
         Ok(expr) => expr,
         Err(err) => {
             let path = err.path().to_string();
@@ -41,6 +41,12 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
         }
     };
 
+    // Nothing is allowed after the expression
+    if deserializer.end().is_err() {
+        return Ok(HttpResponse::BadRequest()
+            .json(EvaluatedExpression::with_error("Invalid json".to_string())));
+    }
+
     let expression = expr;
     let eval_result = services::eval_expression(expression);
     let query = Query::<EvalParams>::from_query(req.query_string()).ok();
-- 
2.43.0


From 3b65496bbf85ea473e061b93cee8fa517940fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 46/55] fix: decimal tanh and coth of a large number failed

---
 prexel/src/decimal/decimal_ext.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index f0eedc6..19c10d0 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -1,6 +1,6 @@
 use crate::decimal::consts;
 use crate::utils::approx::{Approx, ApproxEq};
-use rust_decimal::prelude::{FromPrimitive, One, ToPrimitive, Zero};
+use rust_decimal::prelude::{FromPrimitive, One, Signed, ToPrimitive, Zero};
 use rust_decimal::Decimal;
 use rust_decimal_macros::*;
 use std::ops::Neg;
@@ -14,6 +14,9 @@ const MAX_EXP: Decimal = dec!(16);
 /// From this value `x^2 + 1` is the same as `x^2`.
 const MAX_SQUARE: Decimal = dec!(100000000000000);
 
+/// From this value the hyperbolic tangent is 1.
+const MAX_TANH: Decimal = dec!(40);
+
 /// Extended methods for `Decimal`.
 pub trait DecimalExt {
     fn is_integer(&self) -> bool;
@@ -548,6 +551,11 @@ impl DecimalExt for Decimal {
     }
 
     fn tanh(self) -> Option<Decimal> {
+        // e^x may be out of range, but the result is not
+        if self.abs() > MAX_TANH {
+            return Some(self.signum());
+        }
+
         let result = self.sinh()? / self.cosh()?;
         Some(result)
     }
-- 
2.43.0


From e5c3d7135642c62344b0b3ad89910a525fba962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 47/55] fix: the conversions of a wrapper type to and from 128
 bits failed beyond 64 bits

---
 prexel/src/numeric_traits/mod.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 08858a4..5e9f319 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -117,6 +117,21 @@ macro_rules! impl_unchecked_num_traits_with_field {
                 self.$field.to_u64()
             }
 
+            #[inline]
+            fn to_i128(&self) -> Option<i128> {
+                self.$field.to_i128()
+            }
+
+            #[inline]
+            fn to_u128(&self) -> Option<u128> {
+                self.$field.to_u128()
+            }
+
+            #[inline]
+            fn to_f32(&self) -> Option<f32> {
+                self.$field.to_f32()
+            }
+
             #[inline]
             fn to_f64(&self) -> Option<f64> {
                 self.$field.to_f64()
@@ -134,6 +149,21 @@ macro_rules! impl_unchecked_num_traits_with_field {
                 <$field_type>::from_u64(n).map(|x| Self::from(x))
             }
 
+            #[inline]
+            fn from_i128(n: i128) -> Option<Self> {
+                <$field_type>::from_i128(n).map(|x| Self::from(x))
+            }
+
+            #[inline]
+            fn from_u128(n: u128) -> Option<Self> {
+                <$field_type>::from_u128(n).map(|x| Self::from(x))
+            }
+
+            #[inline]
+            fn from_f32(n: f32) -> Option<Self> {
+                <$field_type>::from_f32(n).map(|x| Self::from(x))
+            }
+
             #[inline]
             fn from_f64(n: f64) -> Option<Self> {
                 <$field_type>::from_f64(n).map(|x| Self::from(x))
-- 
2.43.0


From 7e2b8783e54ba4256d6d21192e1df76e1312ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 48/55] fix: decimal sqrt and factorial of -0 failed

---
 prexel/src/decimal/decimal_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 19c10d0..305ef95 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -143,7 +143,7 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_sqrt(self) -> Option<Decimal> {
-        if self.is_sign_negative() {
+        if self < Decimal::zero() {
             return None;
         }
 
@@ -311,7 +311,7 @@ impl DecimalExt for Decimal {
         // To reduce errors
         const MAX_DECIMAL_PLACES: u32 = 15;
 
-        if self.is_sign_negative() {
+        if self < Decimal::zero() {
             return None;
         }
 
-- 
2.43.0


From 8a96317a1d5af63330462b6f4cff567906467d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 49/55] fix: random with a maximum of -0 failed

---
 prexel/src/complex/mod.rs | 2 +-
 prexel/src/ops/mod.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 6eb6181..8c685ab 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -110,7 +110,7 @@ pub mod ops {
                 },
                 1 => {
                     let max = try_get_real(&args[0])?;
-                    if max.is_sign_negative(){
+                    if max < T::zero() {
                         return Err(Error::from(ErrorKind::NegativeValue))
                     }
 
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 51bde7a..42e2ba6 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -661,7 +661,7 @@ mod math_ops {
                 0 => N::from_f64(random::<f64>()).ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 1 => {
                     let max = try_to_float(&args[0])?;
-                    if max.is_sign_negative(){
+                    if max < 0.0 {
                         return Err(Error::from(ErrorKind::NegativeValue));
                     }
 
-- 
2.43.0


From 2be590e1a9b258677c49c31a270d0fa57dc04ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 50/55] fix: a decimal power with an exponent beyond 64 bits
 failed

---
 prexel/src/decimal/decimal_ext.rs | 62 +++++++++++++++++--------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 305ef95..98d6186 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -49,6 +49,37 @@ pub trait DecimalExt {
     fn atanh(self) -> Option<Decimal>;
 }
 
+// Any integer `Decimal` exponent fits in an `i128`
+fn powi(base: Decimal, exponent: i128) -> Option<Decimal> {
+    if exponent == 0 {
+        return Some(Decimal::one());
+    }
+
+    if exponent == 1 {
+        return Some(base);
+    }
+
+    let mut base = if exponent < 0 { base.checked_inv()? } else { base };
+    let mut exponent = exponent.unsigned_abs();
+    let mut result = Decimal::one();
+
+    while exponent > 0 {
+        // If exponent is odd
+        if exponent & 1 != 0 {
+            result = result.checked_mul(base)?;
+            exponent -= 1
+        }
+
+        exponent >>= 1;
+
+        if exponent > 0 {
+            base = base.checked_mul(base)?;
+        }
+    }
+
+    Some(result)
+}
+
 impl DecimalExt for Decimal {
     #[inline]
     fn is_integer(&self) -> bool {
@@ -86,7 +117,7 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64()?);
+            return powi(self, exponent.to_i128()?);
         }
 
         if self.is_zero() {
@@ -112,34 +143,9 @@ impl DecimalExt for Decimal {
         Some(result)
     }
 
+    #[inline]
     fn checked_powi(self, exponent: i64) -> Option<Decimal> {
-        if exponent == 0 {
-            return Some(Decimal::one());
-        }
-
-        if exponent == 1 {
-            return Some(self);
-        }
-
-        let mut base = if exponent < 0 { self.checked_inv()? } else { self };
-        let mut exponent = exponent.unsigned_abs();
-        let mut result = Decimal::one();
-
-        while exponent > 0 {
-            // If exponent is odd
-            if exponent & 1 != 0 {
-                result = result.checked_mul(base)?;
-                exponent -= 1
-            }
-
-            exponent >>= 1;
-
-            if exponent > 0 {
-                base = base.checked_mul(base)?;
-            }
-        }
-
-        Some(result)
+        powi(self, exponent.into())
     }
 
     fn checked_sqrt(self) -> Option<Decimal> {
-- 
2.43.0


From 4c064ea046907ea1353f328aae0f7ae31ceb4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:59 +0000
Subject: [PATCH 51/55] fix: a decimal division by zero and factorial of a
 negative number were reported as overflows

---
 prexel/src/decimal/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 28b8d71..2b17080 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -416,6 +416,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_div(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -445,6 +449,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -521,6 +529,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, value: Decimal) -> Result<Decimal> {
+            if value < Decimal::ZERO {
+                return Err(Error::from(ErrorKind::NegativeValue));
+            }
+
             value
                 .checked_factorial()
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
-- 
2.43.0


From 5c021d69e18022f6eb839efa8f3a4758957c428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 52/55] fix: the remainder of decimals that differ by many
 decimal places was wrong

4294967296 mod 1.00000000000000000001 was 0.99371925777929994240 instead of
0.99999999995705032705
---
 prexel/src/decimal/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2b17080..354807c 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -430,6 +430,23 @@ mod math_ops {
         }
     }
 
+    /// The exact remainder, `divisor` must not be 0.
+    ///
+    /// `Decimal::checked_rem` is wrong if the numbers differ by many decimal places,
+    /// eg: `4294967296 mod 1.00000000000000000001`
+    fn remainder(dividend: Decimal, divisor: Decimal) -> Decimal {
+        let scale = dividend.scale().max(divisor.scale());
+
+        let result = match divisor.mantissa().checked_mul(10_i128.pow(scale - divisor.scale())) {
+            // The scale is increased digit by digit, so it cannot overflow
+            Some(n) => (dividend.scale()..scale).fold(dividend.mantissa() % n, |r, _| r * 10 % n),
+            // The divisor is larger than any dividend
+            None => dividend.mantissa(),
+        };
+
+        Decimal::from_i128_with_scale(result, scale)
+    }
+
     pub struct ModOperator;
     impl BinaryFunction<Decimal> for ModOperator {
         #[inline]
@@ -453,8 +470,7 @@ mod math_ops {
                 return Err(Error::from(ErrorKind::DivisionByZero));
             }
 
-            left.checked_rem(right)
-                .ok_or_else(|| Error::from(ErrorKind::Overflow))
+            Ok(remainder(left, right))
         }
 
         #[cfg(feature = "docs")]
-- 
2.43.0


From b952e6468fbe37320067dee42c1e5530619269cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 53/55] fix: a decimal power with a huge fractional exponent
 failed if the result is 0

65535 ^ -7922816251426433759354395033.5 was an overflow
---
 prexel/src/decimal/decimal_ext.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 98d6186..78129e5 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -138,9 +138,13 @@ impl DecimalExt for Decimal {
         }
 
         // x ^ n = e^(n * ln(x))
-        let b = self.checked_ln()?.checked_mul(exponent)?;
-        let result = b.checked_exp()?;
-        Some(result)
+        let ln = self.checked_ln()?;
+        match ln.checked_mul(exponent) {
+            Some(b) => b.checked_exp(),
+            // The exponent of `e` is below any decimal
+            None if ln.is_sign_negative() != exponent.is_sign_negative() => Some(Decimal::zero()),
+            None => None,
+        }
     }
 
     #[inline]
-- 
2.43.0


From 4179dace2c01f6147539cb4a36fa9cb6b931acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 54/55] fix: complex tan, tanh, cot, coth and the reciprocals
 of sin, cos, sinh, cosh were NaN for large arguments

---
 prexel/src/complex/mod.rs | 50 +++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 8c685ab..715108e 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -144,6 +144,36 @@ pub mod ops {
         }
     }
 
+    /// The functions of `num_complex` whose intermediate values overflow.
+    trait StableComplex {
+        fn stable_inv(&self) -> Self;
+        fn stable_tan(&self) -> Self;
+        fn stable_tanh(&self) -> Self;
+    }
+
+    impl<T: Float> StableComplex for Complex<T> {
+        fn stable_inv(&self) -> Self {
+            if self.re.is_infinite() || self.im.is_infinite() {
+                Complex::zero()
+            } else {
+                self.inv()
+            }
+        }
+
+        // tan(a + bi) = (sin(2a) + i*sinh(2b)) / (cos(2a) + cosh(2b)), divided by cosh(2b)
+        fn stable_tan(&self) -> Self {
+            let (a, b) = (self.re + self.re, self.im + self.im);
+            let n = b.cosh();
+            Complex::new(a.sin() / n, b.tanh()).unscale(a.cos() / n + T::one())
+        }
+
+        // tanh(z) = -i*tan(iz)
+        fn stable_tanh(&self) -> Self {
+            let tan = Complex::new(-self.im, self.re).stable_tan();
+            Complex::new(tan.im, -tan.re)
+        }
+    }
+
     #[cfg(not(feature = "docs"))]
     macro_rules! forward_impl_func {
         ($t:ty, $method_name:ident) => {
@@ -180,7 +210,7 @@ pub mod ops {
 
                 fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name().inv()),
+                        1 => Ok(args[0].$method_name().stable_inv()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -228,7 +258,7 @@ pub mod ops {
 
                 fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name().inv()),
+                        1 => Ok(args[0].$method_name().stable_inv()),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -314,9 +344,9 @@ pub mod ops {
 
     pub struct TanFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(TanFunction, tan);
+    forward_impl_func!(TanFunction, stable_tan, tan);
     #[cfg(feature = "docs")]
-    forward_impl_func!(TanFunction, tan, Description::Tan);
+    forward_impl_func!(TanFunction, stable_tan, tan, Description::Tan);
 
     pub struct CscFunction;
     #[cfg(not(feature = "docs"))]
@@ -332,9 +362,9 @@ pub mod ops {
 
     pub struct CotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(CotFunction, tan, cot);
+    forward_impl_func_inv!(CotFunction, stable_tan, cot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(CotFunction, tan, cot, Description::Cot);
+    forward_impl_func_inv!(CotFunction, stable_tan, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
 
@@ -390,9 +420,9 @@ pub mod ops {
 
     pub struct TanhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(TanhFunction, tanh);
+    forward_impl_func!(TanhFunction, stable_tanh, tanh);
     #[cfg(feature = "docs")]
-    forward_impl_func!(TanhFunction, tanh, Description::Tanh);
+    forward_impl_func!(TanhFunction, stable_tanh, tanh, Description::Tanh);
 
     pub struct CschFunction;
     #[cfg(not(feature = "docs"))]
@@ -408,9 +438,9 @@ pub mod ops {
 
     pub struct CothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(CothFunction, tanh, coth);
+    forward_impl_func_inv!(CothFunction, stable_tanh, coth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(CothFunction, tanh, coth, Description::Coth);
+    forward_impl_func_inv!(CothFunction, stable_tanh, coth, Description::Coth);
 
     //////////////////// Hyperbolic Inverse Trigonometric ////////////////////
 
-- 
2.43.0


From af00d7c64803e66b199b81cc4abc8e7db79dd863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 55/55] fix: complex asin, acos, asinh, acsc, asec, acsch were
 wrong or NaN for large arguments

---
 prexel/src/complex/mod.rs | 45 ++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 715108e..93cd538 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -149,6 +149,9 @@ pub mod ops {
         fn stable_inv(&self) -> Self;
         fn stable_tan(&self) -> Self;
         fn stable_tanh(&self) -> Self;
+        fn stable_asin(&self) -> Self;
+        fn stable_acos(&self) -> Self;
+        fn stable_asinh(&self) -> Self;
     }
 
     impl<T: Float> StableComplex for Complex<T> {
@@ -172,6 +175,24 @@ pub mod ops {
             let tan = Complex::new(-self.im, self.re).stable_tan();
             Complex::new(tan.im, -tan.re)
         }
+
+        // The formulas of W. Kahan, in which nothing cancels
+        fn stable_asin(&self) -> Self {
+            let (a, b) = ((Self::one() + self).sqrt(), (Self::one() - self).sqrt());
+            Complex::new(self.re.atan2((a * b).re), (b.conj() * a).im.asinh())
+        }
+
+        fn stable_acos(&self) -> Self {
+            let (a, b) = ((Self::one() + self).sqrt(), (Self::one() - self).sqrt());
+            let half = b.re.atan2(a.re);
+            Complex::new(half + half, (a.conj() * b).im.asinh())
+        }
+
+        // asinh(z) = -i*asin(iz)
+        fn stable_asinh(&self) -> Self {
+            let asin = Complex::new(-self.im, self.re).stable_asin();
+            Complex::new(asin.im, -asin.re)
+        }
     }
 
     #[cfg(not(feature = "docs"))]
@@ -370,15 +391,15 @@ pub mod ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(ASinFunction, asin);
+    forward_impl_func!(ASinFunction, stable_asin, asin);
     #[cfg(feature = "docs")]
-    forward_impl_func!(ASinFunction, asin, Description::ASin);
+    forward_impl_func!(ASinFunction, stable_asin, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(ACosFunction, acos);
+    forward_impl_func!(ACosFunction, stable_acos, acos);
     #[cfg(feature = "docs")]
-    forward_impl_func!(ACosFunction, acos, Description::ACos);
+    forward_impl_func!(ACosFunction, stable_acos, acos, Description::ACos);
 
     pub struct ATanFunction;
     #[cfg(not(feature = "docs"))]
@@ -388,15 +409,15 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_arg_inv!(ACscFunction, asin, acsc);
+    forward_impl_func_arg_inv!(ACscFunction, stable_asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_arg_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_func_arg_inv!(ACscFunction, stable_asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_arg_inv!(ASecFunction, acos, asec);
+    forward_impl_func_arg_inv!(ASecFunction, stable_acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_arg_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_func_arg_inv!(ASecFunction, stable_acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
@@ -446,9 +467,9 @@ pub mod ops {
 
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func!(ASinhFunction, asinh);
+    forward_impl_func!(ASinhFunction, stable_asinh, asinh);
     #[cfg(feature = "docs")]
-    forward_impl_func!(ASinhFunction, asinh, Description::ASinh);
+    forward_impl_func!(ASinhFunction, stable_asinh, asinh, Description::ASinh);
 
     pub struct ACoshFunction;
     #[cfg(not(feature = "docs"))]
@@ -464,9 +485,9 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_arg_inv!(ACschFunction, asinh, acsch);
+    forward_impl_func_arg_inv!(ACschFunction, stable_asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_arg_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_func_arg_inv!(ACschFunction, stable_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0

