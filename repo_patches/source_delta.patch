From 56bdd1abbe6e9f61538399b8f4c978b54dda5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/34] fix: account for the peeked token in Lexer::size_hint

---
 src/lexer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..35c7ee3 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,7 +260,13 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        // Any tokens we have already consumed from the source but
+        // have not yielded yet must be accounted for separately.
+        let low = match self.peeked {
+            Some(Escaped(Some(_))) => 2,
+            Some(_) => 1,
+            None => 0,
+        };
+        (low, hi.and_then(|hi| hi.checked_add(low)))
     }
 }
-- 
2.43.0


From c7ea52a278b24090849159fcff40ae4ef066d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/34] fix: only strip leading tabs from <<- heredoc lines

---
 src/parse.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..2ef8143 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1000,27 +1000,26 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
-            'line: loop {
-                if strip_tabs {
-                    let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
-                        let stripped = w.trim_start_matches('\t');
-                        let num_tabs = w.len() - stripped.len();
-                        line_start_pos.advance_tabs(num_tabs);
-
-                        if !stripped.is_empty() {
-                            line.push(Whitespace(stripped.to_owned()));
-                        }
 
-                        true
-                    } else {
-                        false
-                    };
+            // Only the tabs which lead the line should be stripped,
+            // any which appear further along are part of its contents.
+            while strip_tabs && line.is_empty() {
+                if let Some(&Whitespace(ref w)) = self.iter.peek() {
+                    let stripped = w.trim_start_matches('\t');
+                    let num_tabs = w.len() - stripped.len();
+                    line_start_pos.advance_tabs(num_tabs);
 
-                    if skip_next {
-                        self.iter.next();
+                    if !stripped.is_empty() {
+                        line.push(Whitespace(stripped.to_owned()));
                     }
+                } else {
+                    break;
                 }
 
+                self.iter.next();
+            }
+
+            'line: loop {
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
-- 
2.43.0


From 22729225627591da5b95ea8caf698fefaf6ff1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/34] fix: do not treat signed numbers as redirect file
 descriptors

---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2ef8143..6116480 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -719,9 +719,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
+        fn parse_fd(s: &str) -> Option<u16> {
+            // NB: `from_str_radix` also accepts a leading sign, which is not valid here
+            if s.chars().all(|c| c.is_digit(10)) {
+                u16::from_str_radix(s, 10).ok()
+            } else {
+                None
+            }
+        }
+
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_fd(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,7 +742,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_fd(&buf)
                 }
             }
         }
-- 
2.43.0


From cb2a8327b853161f2b52499c5fba278efc8bc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 04/34] fix: lex $$ followed by a digit as the parameter $$ and
 not $1

---
 src/lexer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 35c7ee3..d45f462 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -18,6 +18,9 @@ enum TokenOrLiteral {
 pub struct Lexer<I: Iterator<Item = char>> {
     inner: Peekable<Fuse<I>>,
     peeked: Option<TokenOrLiteral>,
+    /// The last character lexed was the first `$` of `$$`, so the one which
+    /// follows it cannot be the start of a positional parameter.
+    in_double_dollar: bool,
 }
 
 impl<I: Iterator<Item = char>> Lexer<I> {
@@ -26,6 +29,7 @@ impl<I: Iterator<Item = char>> Lexer<I> {
         Lexer {
             inner: iter.fuse().peekable(),
             peeked: None,
+            in_double_dollar: false,
         }
     }
 
@@ -111,6 +115,12 @@ impl<I: Iterator<Item = char>> Lexer<I> {
             '[' => SquareOpen,
             ']' => SquareClose,
 
+            // The second half of `$$`
+            '$' if self.in_double_dollar => {
+                self.in_double_dollar = false;
+                Dollar
+            }
+
             '$' => {
                 // Positional parameters are 0-9, so we only
                 // need to check a single digit ahead.
@@ -133,7 +143,10 @@ impl<I: Iterator<Item = char>> Lexer<I> {
                         self.inner.next(); // Consume the character we just peeked
                         ParamPositional(p)
                     }
-                    None => Dollar,
+                    None => {
+                        self.in_double_dollar = self.inner.peek() == Some(&'$');
+                        Dollar
+                    }
                 }
             }
 
-- 
2.43.0


From 86c52b21900151d4682dadbba835a7af8ce48be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 05/34] fix: treat # right after = in an assignment as part of
 its value

---
 src/parse.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6116480..4dff271 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -606,10 +606,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
-                    let value = if let Some(&Whitespace(_)) = self.iter.peek() {
-                        None
-                    } else {
-                        self.word()?
+                    let value = match self.iter.peek() {
+                        Some(&Whitespace(_)) => None,
+
+                        // Comments can only appear at the start of a word, but
+                        // here we are still in the middle of the assignment.
+                        Some(&Pound) => match self.word_continuation_raw(None)? {
+                            Some(w) => Some(self.builder.word(w)?),
+                            None => None,
+                        },
+
+                        _ => self.word()?,
                     };
                     vars.push(RedirectOrEnvVar::EnvVar(var, value));
 
@@ -1157,6 +1164,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             return Ok(None);
         }
 
+        self.word_continuation_raw(delim)
+    }
+
+    /// Parses (the remainder of) a word without skipping any leading whitespace, and
+    /// treats a leading # as a literal instead of as the start of a comment.
+    fn word_continuation_raw(
+        &mut self,
+        delim: Option<Token>,
+    ) -> ParseResult<Option<ComplexWordKind<B::Command>>, B::Error> {
         let mut words = Vec::new();
         loop {
             if delim.is_some() && self.iter.peek() == delim.as_ref() {
-- 
2.43.0


From d42804a200e0996408abf39785d1ab9f5f1e6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 06/34] fix: keep redirects which follow the subshell body of
 `function foo (...)`

---
 src/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4dff271..9fb429d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2296,8 +2296,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     // Case like `function foo () ...`
                     None
                 } else {
-                    // Case like `function foo (subshell)`
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    // Case like `function foo (subshell) >redirects`
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From 5cf31213470e86423ec64aef6adb938e65e99898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 07/34] fix: reject `function foo (...)` if the subshell body
 has no commands

---
 src/parse.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9fb429d..a0f960d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2291,12 +2291,32 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 None
             } else if Some(&ParenOpen) == self.iter.peek() {
                 // Otherwise it is possible for there to be a subshell as the body
-                let subshell = self.subshell_internal(true)?;
-                if subshell.commands.is_empty() && subshell.trailing_comments.is_empty() {
+                let empty_parens = {
+                    let mut peeked = self.iter.multipeek();
+                    peeked.peek_next(); // Skip past the ParenOpen
+                    loop {
+                        match peeked.peek_next() {
+                            Some(&Whitespace(_)) => continue,
+                            Some(&Backslash) => {} // Could be an escaped newline
+                            Some(&ParenClose) => break true,
+                            _ => break false,
+                        }
+
+                        if Some(&Newline) != peeked.peek_next() {
+                            break false;
+                        }
+                    }
+                };
+
+                if empty_parens {
                     // Case like `function foo () ...`
+                    eat!(self, { ParenOpen => {} });
+                    self.skip_whitespace();
+                    eat!(self, { ParenClose => {} });
                     None
                 } else {
                     // Case like `function foo (subshell) >redirects`
+                    let subshell = self.subshell()?;
                     let io = self.redirect_list()?;
                     Some(self.builder.subshell(subshell, io)?)
                 }
-- 
2.43.0


From c2f6229605306361f2104afa9190a55e9855ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/34] fix: keep comments which precede the ; in a for command
 without words

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index a0f960d..7cf96af 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2037,7 +2037,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut comments = post_var_comments;
+            comments.extend(self.linebreak());
+            (None, comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From 8766fd361e209f29438ccecd7e8251277107e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 09/34] fix: reject a second ! in a pipeline even if whitespace
 precedes it

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 7cf96af..42649fc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -551,6 +551,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
+            self.skip_whitespace();
             if let Some(&Bang) = self.iter.peek() {
                 return Err(self.make_unexpected_err());
             }
-- 
2.43.0


From b81bd6f18db6808723530f27f47749acde363ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 10/34] fix: recognize <<- in arithmetic as a shift of a
 negated operand

---
 src/parse.rs | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 42649fc..584cc6f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2779,13 +2779,40 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         Ok(expr)
     }
 
-    arith_parse!(
-        /// Parses expressions such as `expr << expr` or `expr >> expr`.
-        fn arith_shift,
-        arith_add,
-        DLess  => ast::Arithmetic::ShiftLeft,
-        DGreat => ast::Arithmetic::ShiftRight
-    );
+    /// Parses expressions such as `expr << expr` or `expr >> expr`.
+    #[inline]
+    fn arith_shift(&mut self) -> ParseResult<DefaultArithmetic, B::Error> {
+        let mut expr = self.arith_add()?;
+        loop {
+            self.skip_whitespace();
+
+            // There are no heredocs here, thus `<<-` is actually
+            // a `<<` followed by an operand which starts with `-`.
+            if let Some(&DLessDash) = self.iter.peek() {
+                let mut dash_pos = self.iter.pos();
+                self.iter.next();
+                dash_pos.advance(&DLess);
+                self.iter.buffer_tokens_to_yield_first(vec![Dash], dash_pos);
+
+                let next = self.arith_add()?;
+                expr = ast::Arithmetic::ShiftLeft(Box::new(expr), Box::new(next));
+                continue;
+            }
+
+            eat_maybe!(self, {
+                DLess => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftLeft(Box::new(expr), Box::new(next));
+                },
+                DGreat => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftRight(Box::new(expr), Box::new(next));
+                };
+                _ => { break },
+            });
+        }
+        Ok(expr)
+    }
 
     arith_parse!(
         /// Parses expressions such as `expr + expr` or `expr - expr`.
-- 
2.43.0


From 7655e870ad5ac883fb7a18b3d16956ccc71769c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 11/34] fix: parse +--x and -++x as a sign applied to a
 pre-decrement/increment

---
 src/parse.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 584cc6f..ac9f780 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2865,13 +2865,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Bang  => { ast::Arithmetic::LogicalNot(Box::new(self.arith_unary_misc()?)) },
             Tilde => { ast::Arithmetic::BitwiseNot(Box::new(self.arith_unary_misc()?)) },
             Plus  => {
+                // Although we can optimize things like `+-expr` out, we'll let the AST builder
+                // handle optimizations, in case it is interested in such redundant situations.
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Dash => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryPlus(Box::new(ast::Arithmetic::UnaryMinus(Box::new(next))))
-                    },
                     Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryPlus(Box::new(self.arith_unary_misc()?)) }
                 })
@@ -2879,12 +2875,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             Dash  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Plus => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryMinus(Box::new(ast::Arithmetic::UnaryPlus(Box::new(next))))
-                    },
                     Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }
                 })
-- 
2.43.0


From 9a5c69158fea5cc0798de4a0cddd6f92a168cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 12/34] fix: reject ${param:} as a bad substitution

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ac9f780..72a6dfc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1581,7 +1581,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let op = match self.iter.next() {
             Some(tok @ Dash) | Some(tok @ Equals) | Some(tok @ Question) | Some(tok @ Plus) => tok,
 
-            Some(CurlyClose) => return Ok(SimpleWordKind::Param(param)),
+            Some(CurlyClose) if !has_colon => return Ok(SimpleWordKind::Param(param)),
 
             Some(t) => return Err(ParseError::BadSubst(t, op_pos)),
             None => return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)),
-- 
2.43.0


From 2a7869c68e632c87cdd81acc83c2ea2edb654afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 13/34] fix: coalesce literals within double quotes which are
 part of a larger word

---
 src/ast/builder/default_builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/builder/default_builder.rs b/src/ast/builder/default_builder.rs
index a4244ba..a0dda33 100644
--- a/src/ast/builder/default_builder.rs
+++ b/src/ast/builder/default_builder.rs
@@ -799,7 +799,12 @@ fn compress<C>(word: ComplexWordKind<C>) -> ComplexWordKind<C> {
             DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
         }),
         Concat(v) => {
-            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word).collect();
+            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word)
+                .map(|w| match w {
+                    w @ Simple(_) | w @ SingleQuoted(_) => w,
+                    DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
+                })
+                .collect();
             if body.len() == 1 {
                 Single(body.pop().unwrap())
             } else {
-- 
2.43.0


From 327b937fd81ea2665ca75958d8b8d61a7dae2aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 14/34] fix: report the right command when an until loop is
 missing its do keyword

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 72a6dfc..65a44db 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1909,7 +1909,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                match kind {
+                    builder::LoopKind::While => WHILE,
+                    builder::LoopKind::Until => UNTIL,
+                },
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From c0c597dfdc4a7135c00cc3703f6ecd6bf6b28f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 15/34] fix: do not expect literal parens within double quotes
 or ${ } to be balanced

---
 src/parse/iter.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..413f6e0 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -447,6 +447,8 @@ pub struct Balanced<I> {
     escaped: Option<(Token, SourcePos)>,
     /// A stack of pending unmatched tokens we still must encounter.
     stack: Vec<(Token, SourcePos)>,
+    /// Indicates that the next token is the `(` of a `$(`.
+    after_dollar: bool,
     /// Indicates if we should yield the final, outermost delimeter.
     skip_last_delimeter: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
@@ -468,6 +470,7 @@ impl<I: PositionIterator> Balanced<I> {
     pub fn new(iter: I, delim: Option<(Token, SourcePos)>) -> Self {
         Balanced {
             escaped: None,
+            after_dollar: false,
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
             done: false,
@@ -522,6 +525,7 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
         }
 
         let cur_pos = self.iter.pos();
+        let after_dollar = mem::replace(&mut self.after_dollar, false);
         let ret = match self.iter.next() {
             Some(Backslash) => {
                 // Make sure that we indicate our position as before the escaped token,
@@ -555,7 +559,15 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                // Within double quotes or ${ } parens are only special as part of $( )
+                let is_literal = match self.stack.last() {
+                    Some(&(DoubleQuote, _)) | Some(&(CurlyClose, _)) => !after_dollar,
+                    _ => false,
+                };
+
+                if !is_literal {
+                    self.stack.push((ParenClose, cur_pos));
+                }
                 Some(Ok(ParenOpen))
             }
 
@@ -563,7 +575,8 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    // Handled by paren case above once we get to it
+                    Some(&ParenOpen) => self.after_dollar = true,
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From ced127ce858283a179c371bb181122a4dc124831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 16/34] fix: do not expect comments which follow a heredoc
 redirect to be balanced

---
 src/parse.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 65a44db..995f8b6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1000,6 +1000,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
+        let mut in_comment = false;
+        let mut word_start = false;
         while self.iter.peek().is_some() {
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
@@ -1007,9 +1009,23 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 break;
             }
 
+            // Tokens within a comment need not be balanced
+            in_comment = in_comment || word_start && Some(&Pound) == self.iter.peek();
+            if in_comment {
+                saved_tokens.extend(self.iter.next());
+                continue;
+            }
+
+            let chunk_start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+
+            word_start = match saved_tokens[chunk_start..] {
+                [Backslash, ref escaped, ..] => escaped == &Newline,
+                [ref first, ..] => first.is_word_delimiter(),
+                [] => false,
+            };
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From 44c6b24910c0ff12eb4f808c214ef90c0103fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 17/34] fix: recognize positional parameters whose $ is escaped
 within backticks

---
 src/parse/iter.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 413f6e0..0bda199 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -1,8 +1,8 @@
 //! An module for easily iterating over a `Token` stream.
 
 use crate::parse::SourcePos;
-use crate::token::Token;
 use crate::token::Token::*;
+use crate::token::{Positional, Token};
 use std::iter as std_iter;
 use std::mem;
 
@@ -683,6 +683,32 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
             all_chunks.push((chunk, chunk_start));
         }
 
+        // A `$` which was escaped could not have been lexed as the start of
+        // a positional parameter, but now that it has been unescaped it may be.
+        let mut escaped = false;
+        let mut bare_dollar = false;
+        for (chunk, _) in &mut all_chunks {
+            for i in 0..chunk.len() {
+                let after_dollar = mem::replace(&mut bare_dollar, false);
+                let digit = match chunk[i] {
+                    Literal(ref s) if after_dollar => s.chars().next().and_then(|c| c.to_digit(10)),
+                    _ => None,
+                };
+
+                if let Some(p) = digit.and_then(|d| Positional::from_num(d as u8)) {
+                    let rest = chunk[i].as_str()[1..].to_owned();
+                    chunk[i - 1] = ParamPositional(p);
+                    chunk[i] = Literal(rest);
+                } else if escaped {
+                    escaped = false;
+                } else {
+                    escaped = chunk[i] == Backslash;
+                    bare_dollar = chunk[i] == Dollar && !after_dollar;
+                }
+            }
+            chunk.retain(|t| t.len() > 0);
+        }
+
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
         while let Some((chunk, chunk_end)) = all_chunks.pop() {
             tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-- 
2.43.0


From 4965afe33d87587f502ab274353e592205e761e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 18/34] Add token fuel instrumentation behind the conch_verif
 cfg flag

---
 src/lib.rs        |  4 ++++
 src/parse/iter.rs |  3 +++
 src/verif.rs      | 27 +++++++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3b18b76..246bb99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,3 +45,7 @@ pub mod ast;
 pub mod lexer;
 pub mod parse;
 pub mod token;
+
+#[cfg(conch_verif)]
+#[doc(hidden)]
+pub mod verif;
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 0bda199..fd75f61 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -206,6 +206,9 @@ impl<I: Iterator<Item = Token>> RewindableTokenIterator for TokenIter<I> {
     }
 
     fn next_token_or_pos(&mut self) -> Option<TokenOrPos> {
+        #[cfg(conch_verif)]
+        crate::verif::burn();
+
         self.prev_buffered
             .pop()
             .or_else(|| self.iter.next().map(TokenOrPos::Tok))
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..4509bab
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,27 @@
+//! Instrumentation used by external verification harnesses. Only
+//! compiled in if the `conch_verif` cfg flag has been specified.
+
+use std::cell::Cell;
+
+thread_local! {
+    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Set how many more tokens may be pulled out of a parser's (possibly
+/// buffered) token stream on the current thread before it panics.
+pub fn set_fuel(fuel: u64) {
+    FUEL.with(|f| f.set(fuel));
+}
+
+/// Get how much fuel remains on the current thread.
+pub fn fuel() -> u64 {
+    FUEL.with(|f| f.get())
+}
+
+/// Records that one more token was pulled out of a parser's token stream.
+pub(crate) fn burn() {
+    FUEL.with(|f| match f.get().checked_sub(1) {
+        Some(fuel) => f.set(fuel),
+        None => panic!("conch_verif: token fuel exhausted"),
+    });
+}
-- 
2.43.0


From 733042a3adaf6b6967ffec5426a5da5b562a56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 19/34] fix: report the end of a heredoc body as the position
 of its EOF

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 995f8b6..a3eb1f9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1029,9 +1029,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         }
 
         let heredoc_start_pos = self.iter.pos();
+        let mut heredoc_end_pos;
         let mut heredoc = Vec::new();
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
+            heredoc_end_pos = line_start_pos;
             let mut line = Vec::new();
 
             // Only the tabs which lead the line should be stripped,
@@ -1108,7 +1110,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
+            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
             while let Some((line, pos)) = heredoc.pop() {
                 tok_iter.buffer_tokens_to_yield_first(line, pos);
             }
-- 
2.43.0


From 7c8101bb4ecd538421a28be18f9ef3a597fb4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 20/34] fix: report the closing backtick as the position of the
 EOF of its contents

---
 src/parse/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index fd75f61..89b5f35 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -655,7 +655,11 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
         let mut chunk_start = iter.pos();
         let mut chunk = Vec::new();
 
+        // Once all tokens are consumed this will be the position of the closing backtick
+        let mut end_pos;
+
         loop {
+            end_pos = iter.pos();
             match iter.next() {
                 Some(Ok(Backslash)) => {
                     let next_pos = iter.pos();
@@ -712,7 +716,7 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
             chunk.retain(|t| t.len() > 0);
         }
 
-        let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
+        let mut tok_iter = TokenIter::with_position(std_iter::empty(), end_pos);
         while let Some((chunk, chunk_end)) = all_chunks.pop() {
             tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
         }
-- 
2.43.0


From bdd7140ece4e37de8c465d5a00314a6e6840eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 21/34] fix: do not panic when a heredoc body ends with a lone
 backslash

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index a3eb1f9..08a2a9f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1364,7 +1364,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    // NB: there may be nothing left to escape, even without a delimeter to find
+                    let is_delim = delim_close.is_some() && self.iter.peek() == delim_close.as_ref();
+
+                    if special || is_delim {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From d63beb61f7060fb6506e1bdd6739ac1ece67ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 22/34] fix: report exact positions of text within nested
 backticks

---
 src/parse/iter.rs | 76 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 89b5f35..6a3a34d 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -123,6 +123,48 @@ trait RewindableTokenIterator {
     fn next_token_or_pos(&mut self) -> Option<TokenOrPos>;
 }
 
+/// A collection of tokens which keeps track of where each of them appears in the
+/// source, regardless of whether any text between them has been removed.
+#[derive(Debug)]
+pub(crate) struct PositionedTokens {
+    /// Chunks of tokens (and their start) which directly follow each other.
+    chunks: Vec<(Vec<Token>, SourcePos)>,
+    /// The position right after the last collected token.
+    end: SourcePos,
+}
+
+impl PositionedTokens {
+    /// Creates an empty collection.
+    pub(crate) fn new() -> Self {
+        PositionedTokens {
+            chunks: Vec::new(),
+            end: SourcePos::new(),
+        }
+    }
+
+    /// Add another token which appears at the given position.
+    pub(crate) fn push(&mut self, tok: Token, pos: SourcePos) {
+        let is_gap = self.end != pos;
+        self.end = pos;
+        self.end.advance(&tok);
+
+        match self.chunks.last_mut() {
+            Some((chunk, _)) if !is_gap => chunk.push(tok),
+            _ => self.chunks.push((vec![tok], pos)),
+        }
+    }
+
+    /// Creates a `TokenIter` which will yield all collected tokens,
+    /// and will end at the given position.
+    pub(crate) fn into_token_iter(self, end: SourcePos) -> TokenIter<std_iter::Empty<Token>> {
+        let mut iter = TokenIter::with_position(std_iter::empty(), end);
+        for (chunk, chunk_start) in self.chunks.into_iter().rev() {
+            iter.buffer_tokens_to_yield_first(chunk, chunk_start);
+        }
+        iter
+    }
+}
+
 /// A Token iterator that keeps track of how many lines have been read.
 #[must_use = "iterator adaptors are lazy and do nothing unless consumed"]
 #[derive(Debug)]
@@ -651,9 +693,7 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
-        let mut all_chunks = Vec::new();
-        let mut chunk_start = iter.pos();
-        let mut chunk = Vec::new();
+        let mut tokens = PositionedTokens::new();
 
         // Once all tokens are consumed this will be the position of the closing backtick
         let mut end_pos;
@@ -666,39 +706,33 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => {
-                            all_chunks.push((chunk, chunk_start));
-                            chunk_start = next_pos;
-                            chunk = vec![tok];
-                        }
+                        | Some(Ok(tok @ Backslash)) => tokens.push(tok, next_pos),
 
                         Some(tok) => {
-                            chunk.push(Backslash);
-                            chunk.push(tok?);
+                            tokens.push(Backslash, end_pos);
+                            tokens.push(tok?, next_pos);
                         }
 
-                        None => chunk.push(Backslash),
+                        None => tokens.push(Backslash, end_pos),
                     }
                 }
 
-                Some(tok) => chunk.push(tok?),
+                Some(tok) => tokens.push(tok?, end_pos),
                 None => break,
             }
         }
 
-        if !chunk.is_empty() {
-            all_chunks.push((chunk, chunk_start));
-        }
-
         // A `$` which was escaped could not have been lexed as the start of
         // a positional parameter, but now that it has been unescaped it may be.
         let mut escaped = false;
         let mut bare_dollar = false;
-        for (chunk, _) in &mut all_chunks {
+        for (chunk, _) in &mut tokens.chunks {
             for i in 0..chunk.len() {
                 let after_dollar = mem::replace(&mut bare_dollar, false);
                 let digit = match chunk[i] {
-                    Literal(ref s) if after_dollar => s.chars().next().and_then(|c| c.to_digit(10)),
+                    Literal(ref s) if after_dollar && i > 0 => {
+                        s.chars().next().and_then(|c| c.to_digit(10))
+                    }
                     _ => None,
                 };
 
@@ -716,11 +750,7 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
             chunk.retain(|t| t.len() > 0);
         }
 
-        let mut tok_iter = TokenIter::with_position(std_iter::empty(), end_pos);
-        while let Some((chunk, chunk_end)) = all_chunks.pop() {
-            tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-        }
-        Ok(tok_iter)
+        Ok(tokens.into_token_iter(end_pos))
     }
 }
 
-- 
2.43.0


From 1fa23a6bfe12e765f34de1d7e66f65cd5b1f843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 23/34] fix: report exact positions around heredocs within
 backticks and other heredocs

---
 src/parse.rs      | 72 +++++++++++++++++++++++++----------------------
 src/parse/iter.rs |  9 +++++-
 2 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 08a2a9f..b1b229c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -6,7 +6,6 @@
 use std::convert::From;
 use std::error::Error;
 use std::fmt;
-use std::iter::empty as empty_iter;
 use std::mem;
 use std::str::FromStr;
 
@@ -998,54 +997,61 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // heredocs, especially if we want to keep the builder unaware of our
         // shenanigans (since it *could* be keeping some internal state of what
         // we feed it).
-        let saved_pos = self.iter.pos();
-        let mut saved_tokens = Vec::new();
+        let mut saved_tokens = iter::PositionedTokens::new();
         let mut in_comment = false;
         let mut word_start = false;
         while self.iter.peek().is_some() {
             // Make sure we save all tokens until the next UNQUOTED newilne
+            let pos = self.iter.pos();
             if let Some(&Newline) = self.iter.peek() {
-                saved_tokens.push(self.iter.next().unwrap());
+                saved_tokens.push(self.iter.next().unwrap(), pos);
                 break;
             }
 
             // Tokens within a comment need not be balanced
             in_comment = in_comment || word_start && Some(&Pound) == self.iter.peek();
             if in_comment {
-                saved_tokens.extend(self.iter.next());
+                saved_tokens.push(self.iter.next().unwrap(), pos);
                 continue;
             }
 
-            let chunk_start = saved_tokens.len();
-            for t in self.iter.balanced() {
-                saved_tokens.push(try_map!(t));
+            let mut chunk = Vec::new();
+            let mut balanced = self.iter.balanced();
+            let mut pos = balanced.pos();
+            while let Some(t) = balanced.next() {
+                chunk.push((try_map!(t), pos));
+                pos = balanced.pos();
             }
 
-            word_start = match saved_tokens[chunk_start..] {
-                [Backslash, ref escaped, ..] => escaped == &Newline,
-                [ref first, ..] => first.is_word_delimiter(),
+            word_start = match chunk.as_slice() {
+                [(Backslash, _), (escaped, _), ..] => escaped == &Newline,
+                [(first, _), ..] => first.is_word_delimiter(),
                 [] => false,
             };
+
+            for (t, pos) in chunk {
+                saved_tokens.push(t, pos);
+            }
         }
 
         let heredoc_start_pos = self.iter.pos();
         let mut heredoc_end_pos;
         let mut heredoc = Vec::new();
         'heredoc: loop {
-            let mut line_start_pos = self.iter.pos();
-            heredoc_end_pos = line_start_pos;
+            heredoc_end_pos = self.iter.pos();
             let mut line = Vec::new();
 
             // Only the tabs which lead the line should be stripped,
             // any which appear further along are part of its contents.
             while strip_tabs && line.is_empty() {
+                let mut pos = self.iter.pos();
                 if let Some(&Whitespace(ref w)) = self.iter.peek() {
                     let stripped = w.trim_start_matches('\t');
                     let num_tabs = w.len() - stripped.len();
-                    line_start_pos.advance_tabs(num_tabs);
+                    pos.advance_tabs(num_tabs);
 
                     if !stripped.is_empty() {
-                        line.push(Whitespace(stripped.to_owned()));
+                        line.push((Whitespace(stripped.to_owned()), pos));
                     }
                 } else {
                     break;
@@ -1055,6 +1061,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
 
             'line: loop {
+                let pos = self.iter.pos();
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
@@ -1070,7 +1077,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         // slow to stringify each and every line (and alloc it in memory)
                         // when token length checks are available without converting to strings.
                         let mut line_len = 0;
-                        for t in &line {
+                        for (t, _) in &line {
                             line_len += t.len();
                             if line_len > delim_r_len {
                                 break;
@@ -1084,37 +1091,39 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         // of positions in the source, as we could have one or two byte Newlines,
                         // or two different tokens to deal with.
                         if line_len == delim_len || line_len == delim_r_len {
-                            let line_str = concat_tokens(&line);
+                            let line_str = concat_tokens(line.iter().map(|(t, _)| t));
                             if line_str == delim || line_str == delim_r {
                                 break 'heredoc;
                             }
                         }
 
                         if next == Some(Newline) {
-                            line.push(Newline);
+                            line.push((Newline, pos));
                         }
                         break 'line;
                     }
 
-                    Some(t) => line.push(t),
+                    Some(t) => line.push((t, pos)),
                 }
             }
 
-            heredoc.push((line, line_start_pos));
+            heredoc.append(&mut line);
         }
 
-        self.iter
-            .buffer_tokens_to_yield_first(saved_tokens, saved_pos);
+        for (chunk, chunk_start) in saved_tokens.into_chunks().rev() {
+            self.iter.buffer_tokens_to_yield_first(chunk, chunk_start);
+        }
 
         let body = if quoted {
-            let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
-            Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
+            let body = concat_tokens(heredoc.iter().map(|(t, _)| t));
+            Single(Simple(SimpleWordKind::Literal(body)))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
-            while let Some((line, pos)) = heredoc.pop() {
-                tok_iter.buffer_tokens_to_yield_first(line, pos);
+            let mut tokens = iter::PositionedTokens::new();
+            for (t, pos) in heredoc {
+                tokens.push(t, pos);
             }
 
+            let tok_iter = tokens.into_token_iter(heredoc_end_pos);
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
             let mut body = self.word_interpolated_raw(None, heredoc_start_pos)?;
@@ -2403,7 +2412,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     .by_ref()
                     .take_while(|t| t != &Newline)
                     .collect::<Vec<_>>();
-                Some(builder::Newline(Some(concat_tokens(&comment))))
+                Some(builder::Newline(Some(concat_tokens(comment.iter()))))
             }
 
             Some(&Newline) => {
@@ -3001,11 +3010,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     }
 }
 
-fn concat_tokens(tokens: &[Token]) -> String {
-    let len = tokens.iter().fold(0, |len, t| len + t.len());
-    let mut s = String::with_capacity(len);
-    s.extend(tokens.iter().map(Token::as_str));
-    s
+fn concat_tokens<'a>(tokens: impl Iterator<Item = &'a Token>) -> String {
+    tokens.map(Token::as_str).collect()
 }
 
 #[cfg(test)]
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 6a3a34d..4b0e62e 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -154,11 +154,18 @@ impl PositionedTokens {
         }
     }
 
+    /// Returns all chunks of tokens along with the position each of them starts at.
+    pub(crate) fn into_chunks(
+        self,
+    ) -> impl DoubleEndedIterator<Item = (Vec<Token>, SourcePos)> {
+        self.chunks.into_iter()
+    }
+
     /// Creates a `TokenIter` which will yield all collected tokens,
     /// and will end at the given position.
     pub(crate) fn into_token_iter(self, end: SourcePos) -> TokenIter<std_iter::Empty<Token>> {
         let mut iter = TokenIter::with_position(std_iter::empty(), end);
-        for (chunk, chunk_start) in self.chunks.into_iter().rev() {
+        for (chunk, chunk_start) in self.into_chunks().rev() {
             iter.buffer_tokens_to_yield_first(chunk, chunk_start);
         }
         iter
-- 
2.43.0


From 5a7275ec6f8d48e1e6f565e73b32e2b3db7a8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 24/34] fix: do not take the second $ of $$ for the start of a
 substitution when balancing

---
 src/parse/iter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 4b0e62e..e7f949d 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -501,6 +501,8 @@ pub struct Balanced<I> {
     stack: Vec<(Token, SourcePos)>,
     /// Indicates that the next token is the `(` of a `$(`.
     after_dollar: bool,
+    /// Indicates that the next token is the second `$` of a `$$`.
+    second_dollar: bool,
     /// Indicates if we should yield the final, outermost delimeter.
     skip_last_delimeter: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
@@ -523,6 +525,7 @@ impl<I: PositionIterator> Balanced<I> {
         Balanced {
             escaped: None,
             after_dollar: false,
+            second_dollar: false,
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
             done: false,
@@ -625,7 +628,12 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
 
             Some(Dollar) => {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
+                let second_dollar = mem::replace(&mut self.second_dollar, false);
                 match self.iter.peek() {
+                    // The end of `$$`, cannot open anything
+                    _ if second_dollar => self.done |= self.stack.is_empty(),
+                    Some(&Dollar) => self.second_dollar = true,
+
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
                     // Handled by paren case above once we get to it
                     Some(&ParenOpen) => self.after_dollar = true,
-- 
2.43.0


From f58cd6cdcae048b4430a6dfe9d0f9448c4f310e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 25/34] fix: keep columns exact after text tokens with embedded
 newlines

---
 src/parse.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b1b229c..cb9dadf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -70,22 +70,21 @@ impl SourcePos {
 
     /// Increments self using the length of the provided token.
     pub fn advance(&mut self, next: &Token) {
-        let newlines = match *next {
-            // Most of these should not have any newlines
-            // embedded within them, but permitting external
-            // tokenizers means we should sanity check anyway.
-            Name(ref s) | Literal(ref s) | Whitespace(ref s) => {
-                s.chars().filter(|&c| c == '\n').count()
-            }
-
-            Newline => 1,
-            _ => 0,
+        let tok_len = next.len();
+        // Most tokens should not have any newlines embedded within them,
+        // but permitting external tokenizers means we should sanity check anyway.
+        let text = match *next {
+            Name(ref s) | Literal(ref s) | Whitespace(ref s) => s,
+            Newline => "\n",
+            _ => "",
         };
 
-        let tok_len = next.len();
         self.byte += tok_len;
-        self.line += newlines;
-        self.col = if newlines == 0 { self.col + tok_len } else { 1 };
+        self.line += text.chars().filter(|&c| c == '\n').count();
+        self.col = match text.rfind('\n') {
+            Some(idx) => tok_len - idx,
+            None => self.col + tok_len,
+        };
     }
 
     /// Increments self by `num_tab` tab characters
-- 
2.43.0


From 947449cd71c76e918ab5f834888a1c7247d6fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 26/34] fix: keep $$ together when its first $ was escaped
 within backticks

A `\$$1` within backticks stands for `$$1`, which is the parameter $$ followed
by a literal, rather than a literal $ followed by the parameter $1.
---
 src/parse/iter.rs | 53 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e7f949d..751a928 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -738,31 +738,50 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
         }
 
         // A `$` which was escaped could not have been lexed as the start of
-        // a positional parameter, but now that it has been unescaped it may be.
+        // a positional parameter (nor as the first half of a `$$` which keeps the
+        // second half from being one), but now that it has been unescaped it may be.
         let mut escaped = false;
         let mut bare_dollar = false;
         for (chunk, _) in &mut tokens.chunks {
-            for i in 0..chunk.len() {
-                let after_dollar = mem::replace(&mut bare_dollar, false);
-                let digit = match chunk[i] {
-                    Literal(ref s) if after_dollar && i > 0 => {
-                        s.chars().next().and_then(|c| c.to_digit(10))
-                    }
+            for tok in mem::replace(chunk, Vec::new()) {
+                let second_dollar = bare_dollar;
+                let after_dollar = mem::replace(&mut bare_dollar, false) && !chunk.is_empty();
+
+                let positional = match tok {
+                    Literal(ref s) if after_dollar => s
+                        .chars()
+                        .next()
+                        .and_then(|c| c.to_digit(10))
+                        .and_then(|d| Positional::from_num(d as u8)),
                     _ => None,
                 };
 
-                if let Some(p) = digit.and_then(|d| Positional::from_num(d as u8)) {
-                    let rest = chunk[i].as_str()[1..].to_owned();
-                    chunk[i - 1] = ParamPositional(p);
-                    chunk[i] = Literal(rest);
-                } else if escaped {
-                    escaped = false;
-                } else {
-                    escaped = chunk[i] == Backslash;
-                    bare_dollar = chunk[i] == Dollar && !after_dollar;
+                match (positional, tok) {
+                    (Some(p), Literal(mut s)) => {
+                        s.remove(0);
+                        chunk.pop();
+                        chunk.push(ParamPositional(p));
+                        if !s.is_empty() {
+                            chunk.push(Literal(s));
+                        }
+                    }
+
+                    (_, ParamPositional(p)) if after_dollar => {
+                        chunk.push(Dollar);
+                        chunk.push(Literal(p.as_num().to_string()));
+                    }
+
+                    (_, tok) => {
+                        if escaped {
+                            escaped = false;
+                        } else {
+                            escaped = tok == Backslash;
+                            bare_dollar = tok == Dollar && !second_dollar;
+                        }
+                        chunk.push(tok);
+                    }
                 }
             }
-            chunk.retain(|t| t.len() > 0);
         }
 
         Ok(tokens.into_token_iter(end_pos))
-- 
2.43.0


From e374fc7536322cbf08b47d3c5547885c3ae9101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 27/34] fix: recognize arithmetic assignments after an escaped
 newline

Whitespace is allowed between a variable and its assignment operator, and
escaped newlines are whitespace everywhere else within arithmetic.
---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index cb9dadf..d9828cd 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2649,6 +2649,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Some(&Name(_)) => loop {
                         match peeked.peek_next() {
                             Some(&Whitespace(_)) => continue, // Skip whitespace and peek next
+                            // Escaped newlines are skipped just like whitespace
+                            Some(&Backslash) => {
+                                if Some(&Newline) == peeked.peek_next() {
+                                    continue;
+                                }
+                            }
                             Some(&Star) | Some(&Slash) | Some(&Percent) | Some(&Plus)
                             | Some(&Dash) | Some(&DLess) | Some(&DGreat) | Some(&Amp)
                             | Some(&Pipe) | Some(&Caret) => {
-- 
2.43.0


From 2fa3cc1ffbf91219b6db85cd33225e4861f7da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 28/34] fix: recognize functions with an escaped newline
 between name and parens

Any whitespace is allowed there, and escaped newlines are already accepted
within the parens and between the parens and the body.
---
 src/parse.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index d9828cd..ae8b8e3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2249,7 +2249,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut peeked = self.iter.multipeek();
             if let Some(&Name(_)) = peeked.peek_next() {
                 match peeked.peek_next() {
-                    Some(&Whitespace(_)) => Some(&ParenOpen) == peeked.peek_next(),
+                    Some(&Whitespace(_)) => loop {
+                        match peeked.peek_next() {
+                            Some(&Whitespace(_)) => continue,
+                            Some(&Backslash) => {} // Could be an escaped newline
+                            t => break Some(&ParenOpen) == t,
+                        }
+
+                        if Some(&Newline) != peeked.peek_next() {
+                            break false;
+                        }
+                    },
                     Some(&ParenOpen) => true,
                     _ => false,
                 }
-- 
2.43.0


From 91f78d5a1d88f2dd18619df3b92eb9cb2115a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 29/34] fix: print newlines in bad substitution errors escaped

---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index ae8b8e3..13ef262 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -148,6 +148,9 @@ impl<T: fmt::Display> fmt::Display for ParseError<T> {
             ParseError::BadIdent(ref id, pos) => {
                 write!(fmt, "not a valid identifier {}: {}", pos, id)
             }
+            ParseError::BadSubst(Newline, pos) => {
+                write!(fmt, "bad substitution {}: invalid token: \\n", pos)
+            }
             ParseError::BadSubst(ref t, pos) => {
                 write!(fmt, "bad substitution {}: invalid token: {}", pos, t)
             }
-- 
2.43.0


From 0416d0e6df8a4276e349faca22fc73ca06fcc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 30/34] fix: recognize `!` as a reserved word only when it is
 delimited

---
 src/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 13ef262..024e96a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -543,17 +543,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// For example `[!] foo | bar`.
     pub fn pipeline(&mut self) -> ParseResult<B::ListableCommand, B::Error> {
         self.skip_whitespace();
-        let bang = eat_maybe!(self, {
-            Bang => { true };
-            _ => { false },
-        });
+        // Like any other reserved word, `!` must be delimited, `!foo` is a regular word
+        let bang = self.peek_reserved_token(&[Bang]).is_some();
+        if bang {
+            self.iter.next();
+        }
 
         let mut cmds = Vec::new();
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
-            self.skip_whitespace();
-            if let Some(&Bang) = self.iter.peek() {
+            if self.peek_reserved_token(&[Bang]).is_some() {
                 return Err(self.make_unexpected_err());
             }
 
-- 
2.43.0


From 271098e268960f0ae4a47bde60705ab2118ccf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:21 +0000
Subject: [PATCH 31/34] fix: join lines of heredocs after an escaped newline
 before looking for the delimeter

---
 src/parse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 024e96a..3ea8049 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1066,6 +1066,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 let pos = self.iter.pos();
                 let next = self.iter.next();
                 match next {
+                    // Unless the delimeter is quoted, an escaped newline joins a line with
+                    // the next one, which is no longer at the start of a line of its own
+                    Some(Newline) if !quoted && line.len() > 1 && ends_with_escape(&line) => {
+                        line.push((Newline, pos));
+                    }
+
                     // If we haven't grabbed any input we must have hit EOF
                     // which should delimit the heredoc body
                     None if line.is_empty() => break 'heredoc,
@@ -3028,6 +3034,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     }
 }
 
+/// Checks if whatever comes after the tokens is escaped by the last of them.
+fn ends_with_escape(tokens: &[(Token, SourcePos)]) -> bool {
+    let backslashes = tokens.iter().rev().take_while(|(t, _)| t == &Backslash);
+    backslashes.count() % 2 == 1
+}
+
 fn concat_tokens<'a>(tokens: impl Iterator<Item = &'a Token>) -> String {
     tokens.map(Token::as_str).collect()
 }
-- 
2.43.0


From a32dbd91acfbceb79f7418712b03e0af0c4f9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 32/34] fix: keep a backslash before a double quote within
 heredocs

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3ea8049..d3e2ab4 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1376,7 +1376,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 // Backslashes only escape a few tokens when double-quoted-type words
                 Some(Backslash) => {
                     let special = match self.iter.peek() {
-                        Some(&Dollar) | Some(&Backtick) | Some(&DoubleQuote) | Some(&Backslash)
+                        Some(&Dollar) | Some(&Backtick) | Some(&Backslash)
                         | Some(&Newline) => true,
                         _ => false,
                     };
-- 
2.43.0


From 7a057b9c52630468bfb386a38ce71269ee16e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:51 +0000
Subject: [PATCH 33/34] fix: `$0` after a `$` which lost two backslashes is not
 a parameter

---
 src/parse/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 751a928..3bb83d5 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -745,10 +745,10 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
         for (chunk, _) in &mut tokens.chunks {
             for tok in mem::replace(chunk, Vec::new()) {
                 let second_dollar = bare_dollar;
-                let after_dollar = mem::replace(&mut bare_dollar, false) && !chunk.is_empty();
+                let after_dollar = mem::replace(&mut bare_dollar, false);
 
                 let positional = match tok {
-                    Literal(ref s) if after_dollar => s
+                    Literal(ref s) if after_dollar && !chunk.is_empty() => s
                         .chars()
                         .next()
                         .and_then(|c| c.to_digit(10))
-- 
2.43.0


From 66741f2230e050bf678943eebdcc8fa6a0eca68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:40 +0000
Subject: [PATCH 34/34] fix: allow assignments and commas between the `?` and
 `:` of arithmetic

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index d3e2ab4..e13d397 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2735,7 +2735,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         self.skip_whitespace();
         eat_maybe!(self, {
             Question => {
-                let body = self.arith_ternary()?;
+                // NB: the middle operand is delimited by the operator itself,
+                // thus (just like in C) it can be any expression at all
+                let body = self.arithmetic_substitution()?;
                 self.skip_whitespace();
                 eat!(self, { Colon => {} });
                 let els = self.arith_ternary()?;
-- 
2.43.0

