From 089c638e80b83c20c090ab998f6715e813309541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 01/22] fix: lexer: turn invalid characters and unterminated
 byte strings into error tokens

The lexer hit todo!() on any character outside of the Move alphabet and on a
byte string without a closing quote, and measured byte strings in chars, not in
bytes; each of these took down the diagnostics of all open files.
---
 crates/parser/src/lexer.rs | 36 +++++++-----------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..b2b3ed8 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -204,19 +204,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 let line = &text.lines().next().unwrap()[2..];
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
-                    None => {
-                        todo!()
-                        // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
-                        // return todo!()
-                        // return Err(diag!(
-                        //     if is_hex {
-                        //         Syntax::InvalidHexString
-                        //     } else {
-                        //         Syntax::InvalidByteString
-                        //     },
-                        //     (loc, "Missing closing quote (\") after byte string")
-                        // ));
-                    }
+                    // Missing closing quote: the rest of the line is not a valid token.
+                    None => (ERROR, 2 + line.len()),
                 }
             } else {
                 let len = get_name_len(text);
@@ -306,15 +295,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '}' => (R_BRACE, 1),
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
-        _ => {
-            todo!()
-            // let loc = make_loc(file, start_offset, start_offset);
-            // return todo!()
-            // return Err(diag!(
-            //     Syntax::InvalidCharacter,
-            //     (loc, format!("Invalid character: '{}'", c))
-            // ));
-        }
+        // Invalid character
+        _ => (ERROR, c.len_utf8()),
     };
 
     (tok, len)
@@ -362,18 +344,14 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
 
 // Return the length of the quoted string, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
-    let mut pos = 0;
-    let mut iter = text.chars();
-    while let Some(chr) = iter.next() {
+    let mut iter = text.char_indices();
+    while let Some((pos, chr)) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
-            }
+            iter.next();
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
     }
     None
 }
-- 
2.43.0


From 76a3381db6b14104502d253a236672fa38d425c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 02/22] fix: parser: lookahead must not depend on whitespace
 and comments

lookahead() skipped whitespace but not comments, lookahead_2() skipped neither,
so that the tree depended on trivia. Path parsing looked one token too far for
a use tree, which broke M::x*2 and M::S{..} (M::x * 2 worked by accident).
---
 crates/parser/src/grammar/paths.rs |  2 +-
 crates/parser/src/lexer.rs         | 41 +++++++++++++-----------------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..46e8321 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,7 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index b2b3ed8..7ae9c72 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -27,16 +27,21 @@ pub struct Lexer<'t> {
 }
 
 impl<'t> Lexer<'t> {
+    /// The `n`th non-trivia token after the current one; 0 is the current token itself.
     pub(crate) fn lookahead_nth(&self, n: usize) -> Token {
-        if n == 0 {
-            self.current()
-        } else if n == 1 {
-            self.lookahead()
-        } else if n == 2 {
-            self.lookahead_2().1
-        } else {
-            todo!()
+        let mut token = self.current();
+        let mut pos = self.cur_end;
+        for _ in 0..n {
+            loop {
+                let (kind, len) = find_token(&self.text[pos..]);
+                token = Token::new(kind, len);
+                pos += len;
+                if !kind.is_trivia() {
+                    break;
+                }
+            }
         }
+        token
     }
 }
 
@@ -90,27 +95,15 @@ impl<'t> Lexer<'t> {
     // }
 
     // Look ahead to the next token after the current one and return it without advancing
-    // the state of the lexer.
+    // the state of the lexer. Whitespace and comments are skipped.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.lookahead_nth(1)
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
-    // the state of the lexer.
+    // the state of the lexer. Whitespace and comments are skipped.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
-
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+        (self.lookahead_nth(1), self.lookahead_nth(2))
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From e65d897a9791198983f9ae2ccbfa13aa3e5d5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 03/22] fix: lexer: skip trivia in a loop

Lexer::bump recursed for every whitespace or comment token, so that a long run
of comment lines overflowed the stack.
---
 crates/parser/src/lexer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 7ae9c72..8871a4c 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -108,16 +108,16 @@ impl<'t> Lexer<'t> {
 
     pub fn bump(&mut self) {
         self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        loop {
+            let text = &self.text[self.cur_end..];
+            // let text = self.text[self.cur_end..].trim_start();
+            self.cur_start = self.text.len() - text.len();
+            let (kind, len) = find_token(text);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
         // self.cur_end = self.cur_start + len;
         // let token = Token::new(kind, len);
         // self.all_tokens.push(token.clone());
-- 
2.43.0


From 5350d0de8e5f36d7cbd1ce1d23754f10cd1bcbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 04/22] fix: parser: always make progress

The grammar looped without consuming anything (until the parser's step limit
panicked) on an unexpected top-level or item-level token, a stray ')' or '{',
a ';' in parentheses, and asserted that an address block holds only modules.
The step limit counted the lookaheads of the whole file, so that a large valid
file panicked too; it now counts the lookaheads since the last token.
---
 crates/parser/src/grammar.rs                  |  4 ++--
 crates/parser/src/grammar/expressions.rs      |  5 +++++
 crates/parser/src/grammar/expressions/atom.rs |  2 +-
 crates/parser/src/grammar/items.rs            | 13 ++++++++++++-
 crates/parser/src/grammar/items/adt.rs        | 10 +++++-----
 crates/parser/src/parser.rs                   |  1 +
 6 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..ff76fc7 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -72,7 +72,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..c8f1088 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -147,6 +147,11 @@ pub(crate) fn stmt(p: &mut Parser, with_semi: StmtWithSemi) {
         let_stmt(p, m, with_semi);
         return;
     }
+    if p.at(T![')']) {
+        m.abandon(p);
+        p.err_and_bump("unmatched `)`");
+        return;
+    }
     expr(p);
     match with_semi {
         StmtWithSemi::Yes => {
diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..b3aab82 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -24,6 +24,9 @@ pub(crate) const ITEM_RECOVERY_SET: TokenSet = TokenSet::new(&[
     T![;],
 ]);
 
+/// Tokens at which the parsing of an item list goes on after something which is not an item.
+const ITEM_LIST_RECOVERY_SET: TokenSet = TokenSet::new(&[T![struct], T![fun], T![;], T!['}'], EOF]);
+
 pub(crate) fn address(p: &mut Parser) {
     let m = p.start();
 
@@ -85,7 +88,11 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else {
+            p.error_and_skip_until("expected a module", TokenSet::new(&[T![module], T!['}']]));
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
@@ -138,6 +145,10 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
         T![struct] => adt::struct_(p, m),
         _ => {
             p.error("expected an item");
+            p.bump_any();
+            while !p.at_ts(ITEM_LIST_RECOVERY_SET) {
+                p.bump_any();
+            }
             m.complete(p, ERROR);
         }
     }
diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..b5598dd 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::grammar::{generic_params, types};
+use crate::grammar::{error_block, generic_params, types};
 
 pub(crate) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..5090d3b 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -264,6 +264,7 @@ impl<'t> Parser<'t> {
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
+        self.steps.set(0);
 
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
-- 
2.43.0


From b7ffa0990b304ed14bcf71ba47dd9832422b8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:24 +0000
Subject: [PATCH 05/22] fix: parser: bound the nesting of the grammar and of
 the tree

The parser recurses on nested expressions, types and patterns, and a tree is
dropped recursively, so that a deeply nested text (or a long operator chain)
overflowed the stack of the worker thread and aborted the server.
---
 crates/parser/src/grammar/expressions.rs    |  4 +++
 crates/parser/src/grammar/patterns.rs       |  8 ++++--
 crates/parser/src/grammar/types.rs          |  4 ++-
 crates/parser/src/parser.rs                 | 22 +++++++++++++-
 crates/syntax/src/parsing/text_tree_sink.rs | 32 +++++++++++++++++----
 5 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index c8f1088..e0a6a7c 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -20,6 +20,10 @@ pub(super) fn expr(p: &mut Parser) -> Option<CompletedMarker> {
 
 // Parses expression with binding power of at least bp.
 fn expr_bp(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
+    p.nested(|p| expr_bp_inner(p, bp)).unwrap_or_else(Some)
+}
+
+fn expr_bp_inner(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
     let mut lhs = lhs(p)?;
     loop {
         let (op_bp, op) = current_op(p);
diff --git a/crates/parser/src/grammar/patterns.rs b/crates/parser/src/grammar/patterns.rs
index 755475e..510a48c 100644
--- a/crates/parser/src/grammar/patterns.rs
+++ b/crates/parser/src/grammar/patterns.rs
@@ -51,13 +51,17 @@ pub(crate) fn pattern(p: &mut Parser) {
         T![mut] => ident_pat(p),
         IDENT => match p.nth(1) {
             // record_pat
-            T!['{'] => path_pat(p),
+            T!['{'] => {
+                let _ = p.nested(path_pat);
+            }
             _ => ident_pat(p),
         },
 
         T![.] if p.at(T![..]) => rest_pat(p),
         T![_] => wildcard_pat(p),
-        T!['('] => tuple_pat(p),
+        T!['('] => {
+            let _ = p.nested(tuple_pat);
+        }
 
         _ => {
             p.err_recover("expected pattern", PAT_RECOVERY_SET);
diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 53b705c..80f0b2b 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -21,7 +21,9 @@ pub(super) fn ascription(p: &mut Parser) {
 pub(crate) fn type_(p: &mut Parser) {
     let allow_bounds = false;
     match p.current() {
-        T![&] => ref_type(p),
+        T![&] => {
+            let _ = p.nested(ref_type);
+        }
         _ if is_path_start(p) => path_type(p),
         _ => {
             p.err_recover("expected type", TYPE_RECOVERY_SET);
diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 5090d3b..f417198 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -24,11 +24,16 @@ pub(crate) struct Parser<'t> {
     pub(crate) lexer: &'t mut Lexer<'t>,
     pub(crate) events: Vec<Event>,
     pub(crate) steps: Cell<u32>,
+    depth: u32,
 }
 
+/// How deep expressions, types and patterns may be nested; the parser is recursive, and must
+/// not overflow the stack of the thread it runs on.
+const MAX_DEPTH: u32 = 256;
+
 impl<'t> Parser<'t> {
     pub(super) fn new(lexer: &'t mut Lexer<'t>) -> Parser<'t> {
-        Parser { lexer, events: Vec::new(), steps: Cell::new(0) }
+        Parser { lexer, events: Vec::new(), steps: Cell::new(0), depth: 0 }
     }
 
     pub(crate) fn tokens(&mut self) -> Vec<Token> {
@@ -187,6 +192,21 @@ impl<'t> Parser<'t> {
         self.do_bump(kind, 1);
     }
 
+    /// Runs the recursive `rule` one level deeper. Below the maximal depth, gives up on the
+    /// rest of the file instead, and returns the error node.
+    pub(crate) fn nested<T>(
+        &mut self,
+        rule: impl FnOnce(&mut Self) -> T,
+    ) -> Result<T, CompletedMarker> {
+        if self.depth >= MAX_DEPTH {
+            return Err(self.error_and_skip_until("nesting is too deep", TokenSet::EMPTY));
+        }
+        self.depth += 1;
+        let res = rule(self);
+        self.depth -= 1;
+        Ok(res)
+    }
+
     /// Emit error with the `message`
     /// FIXME: this should be much more fancy and support
     /// structured errors with spans and notes, like rustc
diff --git a/crates/syntax/src/parsing/text_tree_sink.rs b/crates/syntax/src/parsing/text_tree_sink.rs
index dcfa0c9..af2b048 100644
--- a/crates/syntax/src/parsing/text_tree_sink.rs
+++ b/crates/syntax/src/parsing/text_tree_sink.rs
@@ -18,9 +18,14 @@ pub struct TextTreeSink<'a> {
     text_pos: TextSize,
     token_pos: usize,
     state: State,
+    depth: usize,
     inner: SyntaxTreeBuilder,
 }
 
+/// Nodes below this depth are flattened into their parent: trees are traversed (and dropped)
+/// recursively, and a long chain of operators makes for a tree as deep as the chain is long.
+const MAX_TREE_DEPTH: usize = 2048;
+
 enum State {
     PendingStart,
     Normal,
@@ -31,7 +36,7 @@ impl<'a> TreeSink for TextTreeSink<'a> {
     fn token(&mut self, kind: SyntaxKind, n_tokens: u8) {
         match mem::replace(&mut self.state, State::Normal) {
             State::PendingStart => unreachable!(),
-            State::PendingFinish => self.inner.finish_node(),
+            State::PendingFinish => self.inner_finish_node(),
             State::Normal => (),
         }
         if self.token_pos != 0 {
@@ -49,12 +54,12 @@ impl<'a> TreeSink for TextTreeSink<'a> {
     fn start_node(&mut self, kind: SyntaxKind) {
         match mem::replace(&mut self.state, State::Normal) {
             State::PendingStart => {
-                self.inner.start_node(kind);
+                self.inner_start_node(kind);
                 // No need to attach trivias to previous node: there is no
                 // previous node.
                 return;
             }
-            State::PendingFinish => self.inner.finish_node(),
+            State::PendingFinish => self.inner_finish_node(),
             State::Normal => (),
         }
 
@@ -77,14 +82,14 @@ impl<'a> TreeSink for TextTreeSink<'a> {
         // };
         // self.eat_n_trivias(n_trivias - n_attached_trivias);
         self.eat_n_trivias(n_trivias);
-        self.inner.start_node(kind);
+        self.inner_start_node(kind);
         // self.eat_n_trivias(n_attached_trivias);
     }
 
     fn finish_node(&mut self) {
         match mem::replace(&mut self.state, State::PendingFinish) {
             State::PendingStart => unreachable!(),
-            State::PendingFinish => self.inner.finish_node(),
+            State::PendingFinish => self.inner_finish_node(),
             State::Normal => (),
         }
     }
@@ -102,6 +107,7 @@ impl<'a> TextTreeSink<'a> {
             text_pos: 0.into(),
             token_pos: 0,
             state: State::PendingStart,
+            depth: 0,
             inner: SyntaxTreeBuilder::default(),
         }
     }
@@ -110,7 +116,7 @@ impl<'a> TextTreeSink<'a> {
         match mem::replace(&mut self.state, State::Normal) {
             State::PendingFinish => {
                 self.eat_trivias();
-                self.inner.finish_node()
+                self.inner_finish_node()
             }
             State::PendingStart | State::Normal => unreachable!(),
         }
@@ -118,6 +124,20 @@ impl<'a> TextTreeSink<'a> {
         self.inner.finish_raw()
     }
 
+    fn inner_start_node(&mut self, kind: SyntaxKind) {
+        if self.depth < MAX_TREE_DEPTH {
+            self.inner.start_node(kind);
+        }
+        self.depth += 1;
+    }
+
+    fn inner_finish_node(&mut self) {
+        self.depth -= 1;
+        if self.depth < MAX_TREE_DEPTH {
+            self.inner.finish_node();
+        }
+    }
+
     fn eat_trivias(&mut self) {
         while let Some(&token) = self.tokens.get(self.token_pos) {
             if !token.kind.is_trivia() {
-- 
2.43.0


From b738ab74bb5e69146be0d6b209b576dd99c5144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 06/22] fix: parser: require commas in parentheses

(a b) was accepted without an error, and the tuple (a, b) was not.
---
 crates/parser/src/grammar/expressions/atom.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index fd33437..d4239a6 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -161,11 +161,9 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
         //     break;
         // }
 
-        // if !p.at(T![')'])
-        // if !p.at(T![')']) {
-        //     saw_comma = true;
-        //     p.expect(T![,]);
-        // }
+        if !p.at(T![')']) && !p.expect(T![,]) {
+            break;
+        }
     }
     // assert!(!saw_comma);
 
-- 
2.43.0


From a5c3afc291ddf28aee62baafa022605658394bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 07/22] fix: parser: accept &mut types

The lexer makes one token of &mut, which the grammar of types did not know.
---
 crates/parser/src/grammar/types.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 80f0b2b..70a9ff2 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -21,7 +21,7 @@ pub(super) fn ascription(p: &mut Parser) {
 pub(crate) fn type_(p: &mut Parser) {
     let allow_bounds = false;
     match p.current() {
-        T![&] => {
+        T![&] | T![&mut] => {
             let _ = p.nested(ref_type);
         }
         _ if is_path_start(p) => path_type(p),
@@ -32,10 +32,12 @@ pub(crate) fn type_(p: &mut Parser) {
 }
 
 pub(crate) fn ref_type(p: &mut Parser) {
-    assert!(p.at(T![&]));
+    assert!(p.at(T![&]) || p.at(T![&mut]));
     let m = p.start();
-    p.bump(T![&]);
-    p.eat(T![mut]);
+    if !p.eat(T![&mut]) {
+        p.bump(T![&]);
+        p.eat(T![mut]);
+    }
     type_(p);
     m.complete(p, REF_TYPE);
 }
-- 
2.43.0


From c9d8d800c42e0baac496c7f3d430fac1d2878737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 08/22] fix: lexer: &mutx is a & and the name mutx, not &mut
 and x

---
 crates/parser/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 8871a4c..b7563ed 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -207,7 +207,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == 3 {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From a640b0168c78abbc12a108e096ce60dc2d25ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:28 +0000
Subject: [PATCH 09/22] fix: publish diagnostics for the documents of the
 client

Without a configuration every file was classified as a library file, and
diagnostics of library files are never published.
---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..561574e 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    fn default() -> Self {
+        // No file sets are configured, so all the files are in the default one:
+        // these are the files of the user, not of a library.
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From 409c809378d01e39639626e134bf4c0ce3206ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 10/22] fix: report positions in the encoding of the client

The positions of diagnostics were UTF-8 offsets even for clients which have not
asked for them; LSP positions are UTF-16 by default.
---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 crates/move_language_server/src/line_index.rs   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..b6bd2f2 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -63,6 +63,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    pub(crate) config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -152,6 +153,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -222,7 +224,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
diff --git a/crates/move_language_server/src/line_index.rs b/crates/move_language_server/src/line_index.rs
index 1150d88..e0e8bdf 100644
--- a/crates/move_language_server/src/line_index.rs
+++ b/crates/move_language_server/src/line_index.rs
@@ -7,6 +7,7 @@
 
 use std::sync::Arc;
 
+#[derive(Clone, Copy)]
 pub enum OffsetEncoding {
     Utf8,
     Utf16,
-- 
2.43.0


From 25c0c5529602adaf197d0694415c1ba6b968a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 11/22] verif: hook points in the worker threads, guarded by
 cfg(verif_hooks)

---
 crates/move_language_server/src/lib.rs        |  3 +++
 .../move_language_server/src/thread_pool.rs   |  9 ++++++-
 .../move_language_server/src/verif_hooks.rs   | 27 +++++++++++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)
 create mode 100644 crates/move_language_server/src/verif_hooks.rs

diff --git a/crates/move_language_server/src/lib.rs b/crates/move_language_server/src/lib.rs
index 1989081..8bc2d9a 100644
--- a/crates/move_language_server/src/lib.rs
+++ b/crates/move_language_server/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(unused)]
+#![allow(unexpected_cfgs)]
 
 use serde::de::DeserializeOwned;
 use std::fmt;
@@ -19,6 +20,8 @@ mod dispatch;
 mod reload;
 mod main_loop;
 pub mod config;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub use caps::server_capabilities;
 pub use main_loop::main_loop;
diff --git a/crates/move_language_server/src/thread_pool.rs b/crates/move_language_server/src/thread_pool.rs
index 8338937..3605849 100644
--- a/crates/move_language_server/src/thread_pool.rs
+++ b/crates/move_language_server/src/thread_pool.rs
@@ -19,7 +19,14 @@ impl<T> TaskPool<T> {
     {
         self.inner.execute({
             let sender = self.sender.clone();
-            move || sender.send(task()).unwrap()
+            move || {
+                #[cfg(verif_hooks)]
+                crate::verif_hooks::reached(crate::verif_hooks::Point::TaskStart);
+                let res = task();
+                #[cfg(verif_hooks)]
+                crate::verif_hooks::reached(crate::verif_hooks::Point::TaskDone);
+                sender.send(res).unwrap()
+            }
         })
     }
 
diff --git a/crates/move_language_server/src/verif_hooks.rs b/crates/move_language_server/src/verif_hooks.rs
new file mode 100644
index 0000000..75cc06d
--- /dev/null
+++ b/crates/move_language_server/src/verif_hooks.rs
@@ -0,0 +1,27 @@
+//! Points at which a test harness may delay the worker threads
+//! (only built with `--cfg verif_hooks`).
+use parking_lot::RwLock;
+use std::sync::Arc;
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Point {
+    /// A worker thread starts to run a task.
+    TaskStart,
+    /// The task has run, its result is not yet sent to the main loop.
+    TaskDone,
+}
+
+type Hook = Arc<dyn Fn(Point) + Send + Sync>;
+
+static HOOK: RwLock<Option<Hook>> = parking_lot::const_rwlock(None);
+
+pub fn set(hook: Option<Hook>) {
+    *HOOK.write() = hook;
+}
+
+pub(crate) fn reached(point: Point) {
+    let hook = HOOK.read().clone();
+    if let Some(hook) = hook {
+        hook(point)
+    }
+}
-- 
2.43.0


From bd96f448f788c0cf863dc15cb4e97926c2d2cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 12/22] fix: do not publish outdated diagnostics

The result of a diagnostics run may arrive after the text has changed, when the
worker had finished with its snapshot but had not yet sent the result. It was
published with the new version of the document, and stayed if it arrived after
the result of the later run.
---
 crates/move_language_server/src/global_state.rs |  2 ++
 crates/move_language_server/src/main_loop.rs    | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index b6bd2f2..5cfca2b 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -47,6 +47,7 @@ pub(crate) struct GlobalState {
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
     pub(crate) diagnostics: DiagnosticCollection,
+    pub(crate) diagnostics_generation: u64,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
     pub(crate) last_reported_status: Option<lsp_ext::ServerStatusParams>,
@@ -87,6 +88,7 @@ impl GlobalState {
             config: Arc::new(config),
             analysis_host,
             diagnostics: Default::default(),
+            diagnostics_generation: 0,
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
             last_reported_status: None,
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..a14c7b2 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -77,7 +77,8 @@ impl fmt::Debug for Event {
 #[derive(Debug)]
 pub(crate) enum Task {
     Response(lsp_server::Response),
-    Diagnostics(Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
+    /// The diagnostics computed by the `u64`th run of `update_diagnostics`.
+    Diagnostics(u64, Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
 }
 
 impl GlobalState {
@@ -150,9 +151,13 @@ impl GlobalState {
                 loop {
                     match task {
                         Task::Response(response) => self.respond(response),
-                        Task::Diagnostics(diagnostics_per_file) => {
-                            for (file_id, diagnostics) in diagnostics_per_file {
-                                self.diagnostics.set_native_diagnostics(file_id, diagnostics)
+                        Task::Diagnostics(generation, diagnostics_per_file) => {
+                            // The results of an earlier run may arrive after the text has
+                            // changed, or even after the results of a later run.
+                            if generation == self.diagnostics_generation {
+                                for (file_id, diagnostics) in diagnostics_per_file {
+                                    self.diagnostics.set_native_diagnostics(file_id, diagnostics)
+                                }
                             }
                         }
                     }
@@ -313,6 +318,8 @@ impl GlobalState {
 
         tracing::trace!("updating notifications for {:?}", subscriptions);
 
+        self.diagnostics_generation += 1;
+        let generation = self.diagnostics_generation;
         let snapshot = self.snapshot();
         self.task_pool.handle.spawn(move || {
             let diagnostics = subscriptions
@@ -329,7 +336,7 @@ impl GlobalState {
                         .map(|diags| (file_id, diags))
                 })
                 .collect::<Vec<_>>();
-            Task::Diagnostics(diagnostics)
+            Task::Diagnostics(generation, diagnostics)
         })
     }
 }
-- 
2.43.0


From fc5e906e2321a8104d28c9ef6b7b24237cfa06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 13/22] fix: vfs: resolve_path returns None for an unknown
 anchor, as documented

---
 crates/vfs/src/file_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0011f73..0d9a5e9 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -27,7 +27,7 @@ impl FileSet {
     /// If either `path`'s [`anchor`](AnchoredPath::anchor) or the resolved path is not in
     /// the set, returns [`None`].
     pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
-        let mut base = self.paths[&path.anchor].clone();
+        let mut base = self.paths.get(&path.anchor)?.clone();
         base.pop();
         let path = base.join(path.path)?;
         self.files.get(&path).copied()
-- 
2.43.0


From dca3b02536531714e003dd22a5e15a2134e82373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 14/22] fix: vfs: a file set contains the files below its roots
 only

The roots were compared as prefixes of bytes, so that the root /foo
also contained the files of /foo-things.
---
 crates/vfs/src/file_set.rs | 9 +++++++--
 crates/vfs/src/vfs_path.rs | 8 ++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0d9a5e9..2506b49 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -129,10 +129,15 @@ impl FileSetConfig {
         scratch_space.clear();
         path.encode(scratch_space);
         let automaton = PrefixOf::new(scratch_space.as_slice());
+        let separator = path.encoded_separator();
         let mut longest_prefix = self.len() - 1;
         let mut stream = self.map.search(automaton).into_stream();
-        while let Some((_, v)) = stream.next() {
-            longest_prefix = v as usize;
+        while let Some((prefix, v)) = stream.next() {
+            // `/foo` contains `/foo/bar`, but not `/foo-things`.
+            let rest = &scratch_space[prefix.len()..];
+            if rest.is_empty() || rest.starts_with(separator) || prefix.ends_with(separator) {
+                longest_prefix = v as usize;
+            }
         }
         longest_prefix
     }
diff --git a/crates/vfs/src/vfs_path.rs b/crates/vfs/src/vfs_path.rs
index ffd6735..d03c7ca 100644
--- a/crates/vfs/src/vfs_path.rs
+++ b/crates/vfs/src/vfs_path.rs
@@ -159,6 +159,14 @@ impl VfsPath {
             VfsPathRepr::VirtualPath(VirtualPath(s)) => buf.extend(s.as_bytes()),
         }
     }
+
+    /// The separator of the components in the result of [`encode`](Self::encode).
+    pub(crate) fn encoded_separator(&self) -> &'static [u8] {
+        match &self.0 {
+            VfsPathRepr::PathBuf(_) if cfg!(windows) => b"\\\0",
+            _ => b"/",
+        }
+    }
 }
 
 #[cfg(windows)]
-- 
2.43.0


From 4c7109f38b78d358a00f79008c53c1d2bfef6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 15/22] fix: ignore responses to unknown requests

A response with an id the server has not used (or a second response) made
ReqQueue panic, which ended the server.
---
 crates/move_language_server/src/global_state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 5cfca2b..47cd7e8 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -21,7 +21,7 @@ use ide_db::base_db::{Change, FileId};
 use lsp_types::{SemanticTokens, Url};
 use parking_lot::{Mutex, RwLock};
 use project_model::ProjectWorkspace;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 use vfs::AnchoredPathBuf;
 
 // Enforces drop order
@@ -43,6 +43,8 @@ pub(crate) type ReqQueue = lsp_server::ReqQueue<(String, Instant), ReqHandler>;
 pub(crate) struct GlobalState {
     sender: Sender<lsp_server::Message>,
     req_queue: ReqQueue,
+    /// Requests to the client which it has not answered: `ReqQueue` panics on any other response.
+    outgoing_requests: FxHashSet<lsp_server::RequestId>,
     pub(crate) task_pool: Handle<TaskPool<Task>, Receiver<Task>>,
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
@@ -84,6 +86,7 @@ impl GlobalState {
         let mut this = GlobalState {
             sender,
             req_queue: ReqQueue::default(),
+            outgoing_requests: FxHashSet::default(),
             task_pool,
             config: Arc::new(config),
             analysis_host,
@@ -168,9 +171,14 @@ impl GlobalState {
         handler: ReqHandler,
     ) {
         let request = self.req_queue.outgoing.register(R::METHOD.to_string(), params, handler);
+        self.outgoing_requests.insert(request.id.clone());
         self.send(request.into());
     }
     pub(crate) fn complete_request(&mut self, response: lsp_server::Response) {
+        if !self.outgoing_requests.remove(&response.id) {
+            tracing::error!("response to an unknown request: {:?}", response);
+            return;
+        }
         let handler = self.req_queue.outgoing.complete(response.id.clone());
         handler(self, response)
     }
-- 
2.43.0


From 75f679384c9b965aff9d94c0d681e7e2bb4472e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:33 +0000
Subject: [PATCH 16/22] fix: the extension started a server at a path on a
 developer's machine

The call that finds or downloads the server was commented out.
---
 editors/code/src/components/bootstrap.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index e7fd746..577648f 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -44,10 +44,9 @@ export async function bootstrap(
         throw new Error(message);
     };
 
-    // const languageServerPath = await bootstrapLanguageServer(context, state).catch(
-    //     handleError.bind(null, 'move-language-server')
-    // );
-    const languageServerPath = "/home/mkurnikov/code/move-language-server/target/debug/move_language_server";
+    const languageServerPath = await bootstrapLanguageServer(context, state).catch(
+        handleError.bind(null, 'move-language-server')
+    );
 
     const doveExecutablePath = await bootstrapDoveExecutable(context, state).catch(
         handleError.bind(null, 'dove')
-- 
2.43.0


From 6549574bacebfd7b3024728e91a4fa087336998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:33 +0000
Subject: [PATCH 17/22] fix: on Windows, executables for macOS were taken:
 "darwin" contains "win"

---
 editors/code/src/components/bootstrap.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index 577648f..c397a52 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -112,9 +112,11 @@ async function getBinaryPathEnsureExists(
     });
     if (!release) throw new AssertionError({ message: `Invalid binaryName ${binaryName}` });
 
+    // at the start of a word: "darwin" is not "win"
+    const platformPattern = new RegExp(`(^|[^a-z])${platformLabel}`);
     const asset = release.assets.find(
         ({ browser_download_url, name }) =>
-            name.startsWith(binaryName) && name.includes(platformLabel)
+            name.startsWith(binaryName) && platformPattern.test(name)
     );
     assert(!!asset, `Bad release: ${JSON.stringify(release)}`);
 
-- 
2.43.0


From ede44914a3784a1f5f4c16581100fa71dea83365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:33 +0000
Subject: [PATCH 18/22] fix: characters cut into two pieces of dove's output
 were lost

---
 editors/code/src/components/dove.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index f4ddcef..d11af93 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -103,6 +103,9 @@ export class Dove {
         let stderr = '';
         await new Promise((resolve) => {
             const process = spawn(this.executable, [command, ...args], { cwd });
+            // a character can be cut into two chunks
+            process.stdout.setEncoding('utf8');
+            process.stderr.setEncoding('utf8');
             process.stdout.on('data', (data) => {
                 stdout += data;
             });
-- 
2.43.0


From 071e564bde3648fd2b9e5bc016c682132349b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:33 +0000
Subject: [PATCH 19/22] fix: a dove that cannot be started was an error nobody
 handled

---
 editors/code/src/components/dove.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index d11af93..f240270 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -112,6 +112,10 @@ export class Dove {
             process.stderr.on('data', (data) => {
                 stderr += data;
             });
+            process.on('error', (err) => {
+                stderr += err.message;
+                resolve(undefined);
+            });
             process.on('close', (code) => {
                 resolve(code);
             });
-- 
2.43.0


From 515ab8439533c41cf006818a9180de0fc0b501d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:33 +0000
Subject: [PATCH 20/22] fix: a project being initialised while the extension
 was reloaded kept its server

It was started after all servers had been stopped, and never stopped itself.
---
 editors/code/src/components/ws.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index 61f50a5..85eb2da 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -25,6 +25,7 @@ export class ClientWorkspaceFactory implements Disposable {
     private readonly workspaces: Map<vscode.WorkspaceFolder, ClientWorkspace> = new Map();
     private doveExecutable: string | null = null;
     private languageServerExecutable: string | null = null;
+    private disposed = false;
 
     constructor(
         private readonly extensionContext: vscode.ExtensionContext,
@@ -54,6 +55,9 @@ export class ClientWorkspaceFactory implements Disposable {
             );
         }
 
+        // the extension was reloaded or deactivated in the meantime
+        if (this.disposed) return;
+
         log.debug(`initClientWorkspace called inside ${folder.uri.fsPath}`);
         let ws = this.workspaces.get(folder);
         if (!ws && isMoveDocument(text_document)) {
@@ -80,6 +84,7 @@ export class ClientWorkspaceFactory implements Disposable {
 
     dispose() {
         log.debug('Disposing ClientWorkspaceFactory');
+        this.disposed = true;
         return Promise.all([...this.workspaces.values()].map((ws) => ws.stop()));
     }
 }
@@ -89,6 +94,7 @@ export class ClientWorkspaceFactory implements Disposable {
 export class ClientWorkspace {
     private readonly disposables: Disposable[] = [];
     private readonly languageClients: lc.LanguageClient[] = [];
+    private stopped = false;
 
     constructor(
         readonly folder: vscode.WorkspaceFolder,
@@ -100,7 +106,7 @@ export class ClientWorkspace {
         log.debug(`Starting new ClientWorkspace instance at ${this.folder.uri.toString()}`);
 
         const metadata = await dove.metadataWithErrorMessage(this.folder);
-        if (!metadata) return;
+        if (!metadata || this.stopped) return;
 
         const serverInitOpts = getServerInitOptsFromMetadata(metadata);
         const client = createLanguageServerClient(
@@ -115,6 +121,7 @@ export class ClientWorkspace {
     }
 
     async stop(): Promise<any> {
+        this.stopped = true;
         log.debug(`Stopping language clients for "${this.folder.uri.toString()}"`);
         for (const client of this.languageClients) {
             await client.stop();
-- 
2.43.0


From 741f89ccb597e68535b4a2ca5061eadd4cb578bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:21 +0000
Subject: [PATCH 21/22] fix: a document of another scheme was taken for the
 file at its path

---
 crates/move_language_server/src/from_proto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/move_language_server/src/from_proto.rs b/crates/move_language_server/src/from_proto.rs
index 4de913d..d921fdc 100644
--- a/crates/move_language_server/src/from_proto.rs
+++ b/crates/move_language_server/src/from_proto.rs
@@ -15,6 +15,10 @@ use crate::{
 };
 
 pub(crate) fn abs_path(url: &lsp_types::Url) -> Result<AbsPathBuf> {
+    // `to_file_path` takes the path of a url of any scheme
+    if url.scheme() != "file" {
+        return Err("url is not a file".into());
+    }
     let path = url.to_file_path().map_err(|()| "url is not a file")?;
     Ok(AbsPathBuf::try_from(path).unwrap())
 }
-- 
2.43.0


From 4c58681724aa00e191d0d409ab5fa67a5e0938c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:01 +0000
Subject: [PATCH 22/22] fix: an edit with a range outside of the document
 crashed the server

---
 crates/move_language_server/src/lsp_utils.rs | 39 ++++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 687da3c..497aae6 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -1,8 +1,9 @@
 //! Utilities for LSP-related boilerplate code.
-use std::{error::Error, ops::Range, sync::Arc};
+use std::{error::Error, sync::Arc};
 
 use ide_db::base_db::Cancelled;
 use lsp_server::Notification;
+use syntax::TextSize;
 
 use crate::{
     from_proto,
@@ -82,12 +83,21 @@ pub(crate) fn apply_document_changes(
     for change in content_changes {
         match change.range {
             Some(range) => {
+                let range = lsp_types::Range::new(
+                    range.start.min(range.end),
+                    range.start.max(range.end),
+                );
                 if !index_valid.covers(range.end.line) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
+                let range = lsp_types::Range::new(
+                    clamp_position(old_text, &line_index, range.start),
+                    clamp_position(old_text, &line_index, range.end),
+                );
                 index_valid = IndexValid::UpToLineExclusive(range.start.line);
-                let range = from_proto::text_range(&line_index, range);
-                old_text.replace_range(Range::<usize>::from(range), &change.text);
+                let start = clamp_offset(old_text, from_proto::offset(&line_index, range.start));
+                let end = clamp_offset(old_text, from_proto::offset(&line_index, range.end));
+                old_text.replace_range(start.min(end)..start.max(end), &change.text);
             }
             None => {
                 *old_text = change.text;
@@ -97,6 +107,29 @@ pub(crate) fn apply_document_changes(
     }
 }
 
+/// Clients may send positions which are not in the text: in a line behind the last, ...
+fn clamp_position(
+    text: &str,
+    line_index: &LineIndex,
+    position: lsp_types::Position,
+) -> lsp_types::Position {
+    let len = TextSize::of(text);
+    let last_line = line_index.index.line_col(len).line;
+    if position.line > last_line {
+        return lsp_types::Position::new(last_line, len.into());
+    }
+    lsp_types::Position::new(position.line, position.character.min(len.into()))
+}
+
+/// ... or behind the end of the text, or inside of a character.
+fn clamp_offset(text: &str, offset: TextSize) -> usize {
+    let mut offset = usize::from(offset).min(text.len());
+    while !text.is_char_boundary(offset) {
+        offset += 1;
+    }
+    offset
+}
+
 /// Checks that the edits inside the completion and the additional edits do not overlap.
 /// LSP explicitly forbids the additional edits to overlap both with the main edit and themselves.
 pub(crate) fn all_edits_are_disjoint(
-- 
2.43.0

