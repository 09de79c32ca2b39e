From f41af7726856e89bc02e0a34c24e5d522fefb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 01/39] fix: do not overflow on long \u{...} escapes

Leading zeros made the place value overflow (a panic with overflow checks),
and long escapes wrapped around to an unrelated code point without them.
---
 crates/joker/src/lexer.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..6453050 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,13 +11,9 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
+    digits.iter().fold(0u32, |sum, digit| {
+        sum.saturating_mul(radix).saturating_add(*digit)
+    })
 }
 
 struct SpanTracker {
-- 
2.43.0


From 85be2f2286430843227bd21cbd397fe906af0075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 02/39] fix: report a regexp cut off by the end of input
 instead of panicking

---
 crates/joker/src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 6453050..dd33d24 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -244,7 +244,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -274,7 +276,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
-- 
2.43.0


From 2d8af9cce7922b32310491cc8fc02d497200379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 03/39] fix: report a \u{...} escape cut off by the end of
 input instead of panicking

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index dd33d24..56a2f95 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -449,7 +449,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From 5ac19bcdb859387324482bb5d9782d4a2a1f5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 04/39] fix: reject a line terminator inside a regexp character
 class

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 56a2f95..3e33efa 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -286,6 +286,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From 61dfa6f6d9ed146fc47f1ed072b3388598dafdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 05/39] fix: U+2007 and U+2008 are white space

---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From a1778125b6a641c7d909ca122049af86951d7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 06/39] fix: an escape in an identifier must denote an
 identifier character

---
 crates/joker/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 3e33efa..8fa0f57 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -556,8 +556,12 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if ch.is_es_identifier_start() ||
+                        (!s.text.is_empty() && ch.is_es_identifier_continue()) => {
+                s.text.push(ch);
+                Ok(())
+            }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From da859c633de44464fef3ad204aef7d634cb46b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 07/39] fix: recognize --> after a block comment that spans
 lines

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 8fa0f57..7da6a4a 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -607,7 +607,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From c39841dc10eca9e3fe268fa62c836b733ebe9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 08/39] fix: an escaped identifier may not directly follow a
 number

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 7da6a4a..1485839 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -400,7 +400,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch == '\\' || ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From 03e481bf169d1614a383668ba9501a721d3232d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 09/39] fix: reject string escapes beyond U+10FFFF

---
 crates/joker/src/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 1485839..fa9532b 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -496,6 +496,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             Some('u') => {
                 source.push(self.reread('u'));
                 let code = self.read_unicode_escape_seq(source)?;
+                if code > char::MAX as u32 {
+                    return Err(Error::IllegalUnicode(code));
+                }
                 value.push(char::from_u32(code).unwrap_or('?'));
             }
             Some(ch) if ch.is_es_newline() => {
-- 
2.43.0


From 477f8e755e031a947131621010d98878df2d304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 10/39] fix: round long hex, octal and binary integers
 correctly

---
 crates/joker/src/token.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/joker/src/token.rs b/crates/joker/src/token.rs
index edacecd..5295ab4 100644
--- a/crates/joker/src/token.rs
+++ b/crates/joker/src/token.rs
@@ -201,6 +201,24 @@ fn format_int(src: &Option<String>) -> String {
     }
 }
 
+// The value of an integer in a radix that is a power of two, rounded once
+// to the nearest double (ties to even).
+fn radix_int_value<I: Iterator<Item=u32>>(digits: I, radix: u32) -> f64 {
+    let bits = radix.trailing_zeros();
+    let mut leading = 0u64; // the leading bits, at least 60 of them if any were dropped
+    let mut dropped = 0i32; // the number of bits dropped after those
+    for digit in digits {
+        if leading >> 60 == 0 {
+            leading = (leading << bits) | digit as u64;
+        } else {
+            // A dropped bit only matters for telling a tie from a non-tie.
+            leading |= (digit != 0) as u64;
+            dropped = dropped.saturating_add(bits as i32);
+        }
+    }
+    (leading as f64) * 2f64.powi(dropped)
+}
+
 impl NumberSource {
     pub fn value(&self) -> f64 {
         match *self {
@@ -212,11 +230,7 @@ impl NumberSource {
             }
             NumberSource::RadixInt(ref radix, ref src) => {
                 let radix = radix.value();
-                let mult = radix as f64;
-
-                src.chars()
-                .map(|c| c.to_digit(radix).unwrap() as f64)
-                .fold(0f64, |res, digit| res.mul_add(mult, digit))
+                radix_int_value(src.chars().map(|c| c.to_digit(radix).unwrap()), radix)
             }
             NumberSource::Float(ref ip, ref fp, None) => {
                 format!("{}.{}", format_int(ip), format_int(fp)).parse().unwrap()
-- 
2.43.0


From 5d2c1849cd08330fa5632218319841d4e4153f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 11/39] fix: recognize the "use strict" and "use module"
 directives

---
 crates/easter/src/stmt.rs | 3 ++-
 src/parser.rs             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..96939a2 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,8 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            // The source text includes the quotes.
+            &source[1..source.len() - 1]
         } else {
             &self.string.value
         }
diff --git a/src/parser.rs b/src/parser.rs
index f508913..67dee07 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -246,7 +246,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 "use strict" => {
                     self.context.strict = Strict::Yes;
                 }
-                "use module" if !self.context.function => {
+                "use module" if !self.context.function && self.goal != Goal::Script => {
                     self.set_module();
                 }
                 _ => {}
-- 
2.43.0


From da441511de35979328c71e12984d4ee6b8375d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 12/39] fix: a "use module" directive makes a program a module

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 67dee07..d02ac98 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -203,6 +203,14 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.span(&mut |this| {
             let dirs = this.body_directives()?;
 
+            if this.goal == Goal::Module {
+                return Ok(Program::Module(Module {
+                    location: None,
+                    dirs: dirs,
+                    items: this.module_items()?
+                }));
+            }
+
             match this.program_items()? {
                 ProgramItems::Script(items) => {
                     let checks = this.take_deferred();
-- 
2.43.0


From 8acd62ab4a5766c497fcf164cfd8ff06172cee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 13/39] fix: a script must extend to the end of the input

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d02ac98..8b86efd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -233,7 +233,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From c64068f367bd1da64b5d2146104ad9b9166358b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 14/39] fix: report import and export as unsupported instead of
 panicking

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8b86efd..4aecd3a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -311,9 +311,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => { return Err(Error::UnsupportedFeature("import")); },
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => { return Err(Error::UnsupportedFeature("export")); },
                 _ => { }
             }
 
-- 
2.43.0


From bfb7be05af885a80ffe0692a4918c53f04ac6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 15/39] fix: break, continue, return and throw may be cut off
 by the end of input

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From e58f2a21eaf18d49961211b53cd2442a6d4f6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 16/39] fix: a / after a leading string is a division

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4aecd3a..7aebb1f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From de209b6fcd021fdc97466052e97c653465cf095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 17/39] fix: the right-hand side of for-in is a comma
 expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7aebb1f..c83b2aa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -930,7 +930,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From cdc826479d45957cc44f1d9be1aebf4fa68486ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 18/39] fix: accept a rest element in an array assignment
 pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From cb2ee973a8cc21fb018c03a0e57bfa172da7cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 19/39] fix: reject duplicate labels

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index bcbf6de..479811f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -6,6 +6,7 @@ use joker::word::Name;
 use joker::track::span;
 use easter::stmt::Stmt;
 use easter::id::Id;
+use error::Error;
 use result::Result;
 use parser::{Parser, Strict};
 
@@ -23,6 +24,9 @@ impl<I: Iterator<Item=char>> WithContext for Parser<I> {
         let mut label_strings = Vec::new();
         for id in labels.iter() {
             let label = Rc::new(id.name.clone());
+            if self.context.labels.contains_key(&label) {
+                return Err(Error::InvalidLabel(id.clone()));
+            }
             self.context.labels.insert(label.clone(), label_type);
             label_strings.push(label);
         }
-- 
2.43.0


From 0c7113ad9b84844f2435f3466146650466a32394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 20/39] fix: start and end AST spans at the right token

---
 crates/joker/src/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index fa9532b..f5a7286 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -85,8 +85,13 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
 
     // source location
 
+    // The position of the next token if it is in the lookahead buffer,
+    // and otherwise the position where the lexer will start looking for it.
     pub fn posn(&self) -> Posn {
-        self.reader.curr_posn()
+        match self.lookahead.front() {
+            Some(token) => token.location.start,
+            None => self.reader.curr_posn()
+        }
     }
 
     fn start(&self) -> SpanTracker {
-- 
2.43.0


From f5a09a641d9a71137009394ba65c37289dd59140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 21/39] fix: span conditional, increment and decrement
 expressions completely

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c83b2aa..240aad7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1528,8 +1528,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             arg = match arg.into_assign_target().map(Box::new) {
                 Ok(target) => {
                     match postfix {
-                        Postfix::Inc(location) => Expr::PostInc(Some(location), target),
-                        Postfix::Dec(location) => Expr::PostDec(Some(location), target)
+                        Postfix::Inc(location) => Expr::PostInc(span(&arg_location, &Some(location)), target),
+                        Postfix::Dec(location) => Expr::PostDec(span(&arg_location, &Some(location)), target)
                     }
                 }
                 Err(cover_err) => { return Err(Error::InvalidLHS(arg_location, cover_err)); }
@@ -1546,8 +1546,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     arg = match arg.into_assign_target().map(Box::new) {
                         Ok(target) => {
                             match prefix {
-                                Prefix::Inc(location) => Expr::PreInc(Some(location), target),
-                                Prefix::Dec(location) => Expr::PreDec(Some(location), target),
+                                Prefix::Inc(location) => Expr::PreInc(span(&Some(location), &arg_location), target),
+                                Prefix::Dec(location) => Expr::PreDec(span(&Some(location), &arg_location), target),
                                 Prefix::Unop(_) => unreachable!()
                             }
                         }
@@ -1627,7 +1627,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             let cons = self.allow_in(true, |this| this.assignment_expression())?;
             self.expect(TokenData::Colon)?;
             let alt = self.assignment_expression()?;
-            let location = span(&cons, &alt);
+            let location = span(&left, &alt);
             return Ok(Expr::Cond(location, Box::new(left), Box::new(cons), Box::new(alt)));
         }
         Ok(left)
-- 
2.43.0


From c61e59e111f41c778544f05528f23390908f5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 22/39] fix: span accessors and methods completely

---
 src/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 240aad7..8182e75 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -456,6 +456,12 @@ impl<I: Iterator<Item=char>> Parser<I> {
         Ok(body)
     }
 
+    // The (empty) span just after the closing brace of a function body.
+    fn end_of_body(&self) -> Span {
+        let here = self.posn();
+        Span { start: here, end: here }
+    }
+
     fn stmt_list_item(&mut self, allow_decl: bool) -> Result<StmtListItem> {
         (match self.peek()?.value {
             TokenData::Reserved(Reserved::Function) => {
@@ -1270,7 +1276,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
                 Prop::Method(Fun {
-                    location: span(key.tracking_ref(), body.tracking_ref()),
+                    location: span(key.tracking_ref(), &Some(self.end_of_body())),
                     id: key,
                     params: params,
                     body: body,
@@ -1318,8 +1324,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     let paren_location = Some(self.expect(TokenData::LParen)?.location);
                     self.expect(TokenData::RParen)?;
                     let body = self.function_body(&vec![])?;
-                    let val_location = span(&paren_location, &body);
-                    let prop_location = span(&key, &body);
+                    let end_location = Some(self.end_of_body());
+                    let val_location = span(&paren_location, &end_location);
+                    let prop_location = span(&Some(first.location), &end_location);
                     return Ok(Prop::Regular(prop_location, key, PropVal::Get(val_location, body)));
                 }
                 let key_location = Some(first.location);
@@ -1331,8 +1338,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     let param = self.pattern()?;
                     self.expect(TokenData::RParen)?;
                     let body = self.function_body(&[param.clone()])?;
-                    let val_location = span(&paren_location, &body);
-                    let prop_location = span(&key, &body);
+                    let end_location = Some(self.end_of_body());
+                    let val_location = span(&paren_location, &end_location);
+                    let prop_location = span(&Some(first.location), &end_location);
                     return Ok(Prop::Regular(prop_location, key, PropVal::Set(val_location, param, body)));
                 }
                 let key_location = Some(first.location);
@@ -1343,7 +1351,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
                 Ok(Prop::Method(Fun {
-                    location: span(key.tracking_ref(), body.tracking_ref()),
+                    location: span(&Some(first.location), &Some(self.end_of_body())),
                     id: key,
                     params: params,
                     body: body,
-- 
2.43.0


From e130422ba7b07aea87b441dcfaf5827a0ff04330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 23/39] fix: combine escaped surrogate pairs in strings

---
 crates/joker/src/lexer.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index f5a7286..0c57eda 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -417,6 +417,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let span = self.start();
         let mut source = String::new();
         let mut value = String::new();
+        let mut high = None;
         let quote = self.read();
         source.push(quote);
         loop {
@@ -427,7 +428,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             });
             match self.peek() {
                 Some('\\') => {
-                    self.read_string_escape(&mut source, &mut value)?;
+                    self.read_string_escape(&mut source, &mut value, &mut high)?;
                 }
                 Some(ch) if ch.is_es_newline() => {
                     return Err(Error::UnterminatedString(Some(ch)));
@@ -471,7 +472,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
     }
 
-    fn read_string_escape(&mut self, source: &mut String, value: &mut String) -> Result<()> {
+    // If the last code unit of `value` is a high surrogate, which `value` can't
+    // represent on its own, `high` is the length of `value` and that code unit.
+    fn read_string_escape(&mut self, source: &mut String, value: &mut String, high: &mut Option<(usize, u32)>) -> Result<()> {
         source.push(self.reread('\\'));
         match self.peek() {
             Some(ch) if ch.is_es_oct_digit() => {
@@ -504,7 +507,20 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 if code > char::MAX as u32 {
                     return Err(Error::IllegalUnicode(code));
                 }
-                value.push(char::from_u32(code).unwrap_or('?'));
+                match *high {
+                    Some((len, unit)) if len == value.len() && code >= 0xDC00 && code <= 0xDFFF => {
+                        value.pop();
+                        let code = 0x10000 + ((unit - 0xD800) << 10) + (code - 0xDC00);
+                        value.push(char::from_u32(code).unwrap());
+                        *high = None;
+                    }
+                    _ => {
+                        value.push(char::from_u32(code).unwrap_or('?'));
+                        if code >= 0xD800 && code <= 0xDBFF {
+                            *high = Some((value.len(), code));
+                        }
+                    }
+                }
             }
             Some(ch) if ch.is_es_newline() => {
                 self.read_newline_into(source);
-- 
2.43.0


From 73db6dd26faf2638e4e49e01f36d3dab897ec536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 24/39] fix: => is one token

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 0c57eda..cb6827e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -701,6 +701,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (Some('='), Some('='))                       => {
                 Ok(self.read_punc2_3('=', TokenData::Eq, TokenData::StrictEq))
             }
+            (Some('='), Some('>'))                       => Ok(self.read_punc2(TokenData::Arrow)),
             (Some('='), _)                               => Ok(self.read_punc(TokenData::Assign)),
             (Some('+'), Some('+'))                       => Ok(self.read_punc2(TokenData::Inc)),
             (Some('+'), Some('='))                       => {
-- 
2.43.0


From 2e4fc356ae7bba323bd5c47ccdc3e39d82069d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 25/39] fix: the head of a for-of loop may not start with let

---
 src/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8182e75..c90c36b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -718,7 +718,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     this.reread(TokenData::Semi);
                     this.more_for(None)
                 }
-                _                                            => this.for_expr()
+                _                                            => this.for_expr(None)
             }
         })
     }
@@ -793,8 +793,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
     fn for_let(&mut self) -> Result<Stmt> {
         let let_token = self.reread(TokenData::Identifier(Name::Atom(Atom::Let)));
         if !self.peek()?.first_binding() {
+            let location = let_token.location;
             self.lexer.unread_token(let_token);
-            return self.for_expr();
+            return self.for_expr(Some(location));
         }
         let let_location = Some(let_token.location);
         // 'for' '(' 'let' . !{id, patt} ==> error
@@ -842,7 +843,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let const_token = self.reread(TokenData::Reserved(Reserved::Const));
         if !self.peek()?.first_binding() {
             self.lexer.unread_token(const_token);
-            return self.for_expr();
+            return self.for_expr(None);
         }
         let const_location = Some(const_token.location);
         // 'for' '(' 'const' . !{id, patt} ==> error
@@ -876,7 +877,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
         }
     }
 
-    fn for_expr(&mut self) -> Result<Stmt> {
+    // The head of a for-of loop must not start with 'let' (passed as its location).
+    fn for_expr(&mut self, let_location: Option<Span>) -> Result<Stmt> {
         let lhs = self.allow_in(false, |this| this.expression())?;
         match self.peek()?.value {
             TokenData::Semi => {
@@ -895,6 +897,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 self.more_for_in(head)
             }
             TokenData::Identifier(Name::Atom(Atom::Of)) => {
+                if let Some(location) = let_location {
+                    return Err(Error::ForOfLetExpr(location));
+                }
                 self.reread(TokenData::Identifier(Name::Atom(Atom::Of)));
                 let lhs_location = *lhs.tracking_ref();
                 let lhs = match lhs.into_assign_patt() {
-- 
2.43.0


From 3b3677ce4b3d3020ce077a4b1ffa5fc127798456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 26/39] fix: a / after let in the head of a for loop is a
 division

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c90c36b..444d9e6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -792,7 +792,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     // 'for' '(' 'let' .
     fn for_let(&mut self) -> Result<Stmt> {
         let let_token = self.reread(TokenData::Identifier(Name::Atom(Atom::Let)));
-        if !self.peek()?.first_binding() {
+        if !self.peek_op()?.first_binding() {
             let location = let_token.location;
             self.lexer.unread_token(let_token);
             return self.for_expr(Some(location));
-- 
2.43.0


From 8feced06472580a833f2979a691cd7f9549fda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 27/39] fix: a member of a new expression with arguments is
 part of the operand of an outer new

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 444d9e6..591ecb4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1395,14 +1395,14 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.primary_expression()
     }
 
-    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* Arguments<n Suffix*
+    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* (Arguments Deref*)<n Suffix*
     fn new_expression(&mut self, news: Vec<Token>) -> Result<Expr> {
         // ES6: if let Some(super) = self.match_token(TokenData::Reserved(Reserved::Super))? {
         let base = self.member_base_expression()?;
         self.more_new_expression(news, base)
     }
 
-    // "new"+n MemberBaseExpression . Deref* Arguments<n Suffix*
+    // "new"+n MemberBaseExpression . Deref* (Arguments Deref*)<n Suffix*
     fn more_new_expression(&mut self, news: Vec<Token>, mut base: Expr) -> Result<Expr> {
         while let Some(deref) = self.deref_opt()? {
             base = deref.append_to(base);
@@ -1416,6 +1416,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
             };
+            while let Some(deref) = self.deref_opt()? {
+                base = deref.append_to(base);
+            }
         }
         self.more_suffixes(base)
     }
-- 
2.43.0


From d80a059e19e451c2b1a88468706b6074e02149a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 28/39] fix: a declarator made from an optional initializer
 spans the initializer

---
 crates/easter/src/decl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/decl.rs b/crates/easter/src/decl.rs
index bf9b341..5b17f7f 100644
--- a/crates/easter/src/decl.rs
+++ b/crates/easter/src/decl.rs
@@ -65,8 +65,11 @@ impl DtorExt for Dtor {
 
     fn from_init_opt(lhs: Patt<Id>, rhs: Option<Expr>) -> Result<Dtor, Patt<Id>> {
         match (lhs, rhs) {
-            (Patt::Simple(id), rhs) => {
-                Ok(Dtor::Simple(*id.tracking_ref(), id, rhs))
+            (Patt::Simple(id), None) => {
+                Ok(Dtor::Simple(*id.tracking_ref(), id, None))
+            }
+            (Patt::Simple(id), Some(rhs)) => {
+                Ok(Dtor::from_simple_init(id, rhs))
             }
             (lhs @ Patt::Compound(_), None) => Err(lhs),
             (Patt::Compound(patt), Some(rhs)) => {
-- 
2.43.0


From 9514388653c9cf80636f93d775907e7455a215d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 29/39] fix: the name and parameters of a function with "use
 strict" are strict code

---
 src/parser.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 591ecb4..9615620 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -334,7 +334,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     fn function_declaration(&mut self) -> Result<Decl> {
         self.span(&mut |this| {
-            Ok(Decl::Fun(this.function(|this| this.id(true))?))
+            Ok(Decl::Fun(this.function(|this| this.id(true), |id| Some(id))?))
         })
     }
 
@@ -422,20 +422,22 @@ impl<I: Iterator<Item=char>> Parser<I> {
         Ok(())
     }
 
-    fn function<Id, F>(&mut self, get_id: F) -> Result<Fun<Id>>
-        where F: Fn(&mut Self) -> Result<Id>
+    fn function<N, F, G>(&mut self, get_id: F, name: G) -> Result<Fun<N>>
+        where F: Fn(&mut Self) -> Result<N>,
+              G: Fn(&N) -> Option<&Id>
     {
         self.span(&mut |this| {
             this.reread(TokenData::Reserved(Reserved::Function));
             let generator = this.matches(TokenData::Star)?;
             let id = get_id(this)?;
             let params = this.formal_parameters()?;
-            let body = this.function_body(&params.list)?;
+            let body = this.function_body(name(&id), &params.list, params.rest.as_ref())?;
             Ok(Fun { location: None, id: id, params: params, body: body, generator: generator })
         })
     }
 
-    fn function_body(&mut self, params: &[Patt<Id>]) -> Result<Script> {
+    fn function_body(&mut self, name: Option<&Id>, params: &[Patt<Id>], rest: Option<&RestPatt<Id>>) -> Result<Script> {
+        let outer_strict = self.context.strict;
         let inner = self.context.new_function();
         let outer = replace(&mut self.context, inner);
         self.expect(TokenData::LBrace)?;
@@ -451,6 +453,17 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             None
         })?;
+        // The name and parameters of a function with "use strict" are strict code too.
+        if outer_strict != self.context.strict {
+            let patts = params.iter().chain(rest.map(|rest| &rest.patt));
+            let ids = patts.filter_map(|patt| match *patt {
+                Patt::Simple(ref id) => Some(id),
+                Patt::Compound(_) => None
+            });
+            for id in name.into_iter().chain(ids) {
+                self.new_id(true, id.name.clone(), id.location.unwrap())?;
+            }
+        }
         self.expect(TokenData::RBrace)?;
         self.context = outer;
         Ok(body)
@@ -1202,7 +1215,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::LBrace                    => { return self.object_literal(token); }
             TokenData::Reserved(Reserved::Function) => {
                 self.lexer.unread_token(token);
-                return Ok(Expr::Fun(self.function(|this| this.id_opt(true))?));
+                return Ok(Expr::Fun(self.function(|this| this.id_opt(true), |id| id.as_ref())?));
             }
             TokenData::LParen => {
                 self.lexer.unread_token(token);
@@ -1279,7 +1292,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             TokenData::LParen => {
                 let params = self.formal_parameters()?;
-                let body = self.function_body(&params.list)?;
+                let body = self.function_body(None, &params.list, params.rest.as_ref())?;
                 Prop::Method(Fun {
                     location: span(key.tracking_ref(), &Some(self.end_of_body())),
                     id: key,
@@ -1328,7 +1341,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 if let Some(key) = self.property_key_opt()? {
                     let paren_location = Some(self.expect(TokenData::LParen)?.location);
                     self.expect(TokenData::RParen)?;
-                    let body = self.function_body(&vec![])?;
+                    let body = self.function_body(None, &[], None)?;
                     let end_location = Some(self.end_of_body());
                     let val_location = span(&paren_location, &end_location);
                     let prop_location = span(&Some(first.location), &end_location);
@@ -1342,7 +1355,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     let paren_location = Some(self.expect(TokenData::LParen)?.location);
                     let param = self.pattern()?;
                     self.expect(TokenData::RParen)?;
-                    let body = self.function_body(&[param.clone()])?;
+                    let body = self.function_body(None, &[param.clone()], None)?;
                     let end_location = Some(self.end_of_body());
                     let val_location = span(&paren_location, &end_location);
                     let prop_location = span(&Some(first.location), &end_location);
@@ -1354,7 +1367,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::Star => {
                 let key = self.property_key()?;
                 let params = self.formal_parameters()?;
-                let body = self.function_body(&params.list)?;
+                let body = self.function_body(None, &params.list, params.rest.as_ref())?;
                 Ok(Prop::Method(Fun {
                     location: span(&Some(first.location), &Some(self.end_of_body())),
                     id: key,
-- 
2.43.0


From c156196ea41cdd3a458a2e1dbd2a0e2032fdc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 30/39] fix: let is an expression where no declaration is
 allowed

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9615620..6238e1d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -511,10 +511,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
                         let id = self.new_id_from_token(false, token)?;
                         self.labelled_statement(id)
                     },
-                    TokenData::Identifier(_) | TokenData::LBrace | TokenData::LBrack if token.value == TokenData::Identifier(Name::Atom(Atom::Let)) => {
-                        if !allow_decl {
-                            return self.unexpected();
-                        }
+                    // Where no declaration is allowed, 'let' is an expression unless followed by '['.
+                    TokenData::LBrack if !allow_decl && token.value == TokenData::Identifier(Name::Atom(Atom::Let)) => {
+                        return self.unexpected();
+                    }
+                    TokenData::Identifier(_) | TokenData::LBrace | TokenData::LBrack if allow_decl && token.value == TokenData::Identifier(Name::Atom(Atom::Let)) => {
                         return self.let_declaration(token.location.start).map(StmtListItem::Decl);
                     },
                     _ => {
-- 
2.43.0


From 00b24b3b85f97263a95767eafea50710c18c0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 31/39] fix: ESTree reader: refuse an initializer in the head
 of a for-of loop instead of dropping it

---
 crates/estree/src/error.rs | 2 +-
 crates/estree/src/stmt.rs  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/error.rs b/crates/estree/src/error.rs
index 5983b06..2a83663 100644
--- a/crates/estree/src/error.rs
+++ b/crates/estree/src/error.rs
@@ -32,7 +32,7 @@ impl Display for Error {
                 fmt.write_fmt(format_args!("expected {} node, got {}", expected, actual))
             }
             &Error::UnexpectedInitializer(_) => {
-                fmt.write_fmt(format_args!("unexpected initializer in for-in loop"))
+                fmt.write_fmt(format_args!("unexpected initializer in head of for-in or for-of loop"))
             }
             &Error::InvalidLHS(_) => {
                 fmt.write_fmt(format_args!("invalid left-hand side of assignment"))
diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index fc32cb0..2148121 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -91,6 +91,9 @@ impl IntoForOfHead for Object {
                 }
                 let mut obj = dtors.remove(0).into_object()?;
                 let lhs = obj.extract_patt("id")?;
+                if let Some(init) = obj.extract_expr_opt("init")? {
+                    return Err(Error::UnexpectedInitializer(init));
+                }
                 match &kind[..] {
                     "var" => ForOfHead::Var(None, lhs),
                     "let" => ForOfHead::Let(None, lhs),
-- 
2.43.0


From 2cf6dd86e7973347c90fc14d53ad7e4113a04570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 32/39] fix: ESTree reader: refuse a rest parameter of a setter
 instead of dropping it

---
 crates/estree/src/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 338f081..983d85d 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -6,7 +6,7 @@ use unjson::ExtractField;
 use tag::{Tag, TagOf};
 use id::IntoId;
 use result::Result;
-use error::{type_error, array_error};
+use error::{type_error, array_error, node_type_error};
 use node::ExtractNode;
 use expr::IntoExpr;
 use fun::IntoFun;
@@ -35,6 +35,9 @@ impl IntoObj for Object {
             "get" => PropVal::Get(None, val.extract_object("body")?.extract_script("body")?),
             "set" => {
                 let fun = val.into_fun(())?;
+                if fun.params.rest.is_some() {
+                    return node_type_error("identifier", Tag::RestElement);
+                }
                 let params = fun.params.list;
                 if params.len() != 1 {
                     return array_error(1, params.len());
-- 
2.43.0


From 0b72fa76690a0bc1b27aa707a6ae3c994cb4916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 33/39] fix: ESTree reader: refuse parameters of a getter
 instead of dropping them

---
 crates/estree/src/obj.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 983d85d..8cc5f5a 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -32,7 +32,13 @@ impl IntoObj for Object {
                     PropVal::Init(val.into_expr()?)
                 }
             },
-            "get" => PropVal::Get(None, val.extract_object("body")?.extract_script("body")?),
+            "get" => {
+                let params = val.extract_array("params")?;
+                if params.len() != 0 {
+                    return array_error(0, params.len());
+                }
+                PropVal::Get(None, val.extract_object("body")?.extract_script("body")?)
+            }
             "set" => {
                 let fun = val.into_fun(())?;
                 if fun.params.rest.is_some() {
-- 
2.43.0


From efe231fc51093052a4d52865218dc89eaa8a3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 34/39] fix: ESTree reader: refuse a computed property key
 instead of reading it as a fixed one

---
 crates/estree/src/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 8cc5f5a..3ce83c4 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -6,7 +6,7 @@ use unjson::ExtractField;
 use tag::{Tag, TagOf};
 use id::IntoId;
 use result::Result;
-use error::{type_error, array_error, node_type_error};
+use error::{type_error, array_error, string_error, node_type_error};
 use node::ExtractNode;
 use expr::IntoExpr;
 use fun::IntoFun;
@@ -18,6 +18,9 @@ pub trait IntoObj {
 
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
+        if self.contains_key("computed") && self.extract_bool("computed")? {
+            return string_error("property with a fixed key", String::from("computed"));
+        }
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
-- 
2.43.0


From 021ce1cce8d0166eb75d9d205d3633cfe881a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 35/39] fix: an identifier written with escapes is the same
 name as without

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6238e1d..c04e616 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -599,6 +599,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn new_id(&mut self, binding: bool, name: Name, location: Span) -> Result<Id> {
+        // However it is written, with escapes or without, it is the same name.
+        let name = Name::from(name.into_string());
         self.strict_check(|_| {
             if binding && name.is_illegal_strict_binding() {
                 return Some(Check::Strict(Error::IllegalStrictBinding(location, name.atom().unwrap())));
-- 
2.43.0


From 79ce690b47f6f7d93158807e8a28c4b8a0e77997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 36/39] fix: ESTree nodes of another type are rejected where
 only one type may stand

---
 crates/estree/src/decl.rs |  2 ++
 crates/estree/src/fun.rs  |  2 ++
 crates/estree/src/obj.rs  |  9 ++++++++-
 crates/estree/src/prog.rs |  2 ++
 crates/estree/src/stmt.rs |  4 ++++
 crates/estree/src/tag.rs  | 24 ++++++++++++++++++++++--
 6 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/crates/estree/src/decl.rs b/crates/estree/src/decl.rs
index 22e703a..f3c786f 100644
--- a/crates/estree/src/decl.rs
+++ b/crates/estree/src/decl.rs
@@ -2,6 +2,7 @@ use easter::decl::{Dtor, ConstDtor, DtorExt};
 use easter::patt::Patt;
 use unjson::ty::Object;
 
+use tag::{Tag, TagOf};
 use result::Result;
 use error::Error;
 use node::ExtractNode;
@@ -12,6 +13,7 @@ pub trait IntoDecl {
 
 impl IntoDecl for Object {
     fn into_dtor(mut self) -> Result<Dtor> {
+        self.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
         let lhs = self.extract_patt("id")?;
         let init = self.extract_expr_opt("init")?;
         Dtor::from_init_opt(lhs, init).map_err(Error::UninitializedPattern)
diff --git a/crates/estree/src/fun.rs b/crates/estree/src/fun.rs
index de7d2b6..37c5d70 100644
--- a/crates/estree/src/fun.rs
+++ b/crates/estree/src/fun.rs
@@ -2,6 +2,7 @@ use easter::fun::Fun;
 use unjson::ty::Object;
 use unjson::ExtractField;
 
+use tag::{Tag, TagOf};
 use result::Result;
 use node::ExtractNode;
 
@@ -14,6 +15,7 @@ impl<Id> IntoFun<Id> for Object {
         let generator = self.extract_bool_opt("generator")?.unwrap_or(false);
         let params = self.extract_params("params")?;
         let mut obj = self.extract_object("body")?;
+        obj.expect_tag(Tag::BlockStatement, "block statement")?;
         let body = obj.extract_script("body")?;
         Ok(Fun { location: None, id: id, params: params, body: body, generator: generator })
     }
diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 3ce83c4..dac6f4d 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -18,6 +18,7 @@ pub trait IntoObj {
 
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
+        self.expect_tag(Tag::Property, "property")?;
         if self.contains_key("computed") && self.extract_bool("computed")? {
             return string_error("property with a fixed key", String::from("computed"));
         }
@@ -27,6 +28,7 @@ impl IntoObj for Object {
         let val = match &kind[..] {
             "init" => {
                 if self.extract_bool("method")? {
+                    val.expect_tag(Tag::FunctionExpression, "function expression")?;
                     let fun = val.into_fun(key.into_prop_key()?)?;
                     return Ok(Prop::Method(fun))
                 } else if self.extract_bool("shorthand")? {
@@ -36,13 +38,17 @@ impl IntoObj for Object {
                 }
             },
             "get" => {
+                val.expect_tag(Tag::FunctionExpression, "function expression")?;
                 let params = val.extract_array("params")?;
                 if params.len() != 0 {
                     return array_error(0, params.len());
                 }
-                PropVal::Get(None, val.extract_object("body")?.extract_script("body")?)
+                let mut body = val.extract_object("body")?;
+                body.expect_tag(Tag::BlockStatement, "block statement")?;
+                PropVal::Get(None, body.extract_script("body")?)
             }
             "set" => {
+                val.expect_tag(Tag::FunctionExpression, "function expression")?;
                 let fun = val.into_fun(())?;
                 if fun.params.rest.is_some() {
                     return node_type_error("identifier", Tag::RestElement);
@@ -64,6 +70,7 @@ impl IntoObj for Object {
             let id = self.into_id()?;
             return Ok(PropKey::Id(None, id.name.into_string()));
         }
+        self.expect_tag(Tag::Literal, "identifier or literal")?;
         match self.into_lit()? {
             Expr::Number(_, lit) => Ok(PropKey::Number(None, lit)),
             Expr::String(_, lit) => Ok(PropKey::String(None, lit)),
diff --git a/crates/estree/src/prog.rs b/crates/estree/src/prog.rs
index 20e3863..e7f6f37 100644
--- a/crates/estree/src/prog.rs
+++ b/crates/estree/src/prog.rs
@@ -1,5 +1,6 @@
 use unjson::ty::Object;
 use easter::stmt::Script;
+use tag::{Tag, TagOf};
 use result::Result;
 use node::ExtractNode;
 
@@ -9,6 +10,7 @@ pub trait IntoScript {
 
 impl IntoScript for Object {
     fn into_script(mut self) -> Result<Script> {
+        self.expect_tag(Tag::Program, "program")?;
         self.extract_script("body")
     }
 }
diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index 2148121..2e3a5ae 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -50,6 +50,7 @@ impl IntoForInHead for Object {
                     return array_error(1, dtors.len());
                 }
                 let mut obj = dtors.remove(0).into_object()?;
+                obj.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
                 let lhs = obj.extract_patt("id")?;
                 let init = obj.extract_expr_opt("init")?;
                 match (&kind[..], lhs, init) {
@@ -90,6 +91,7 @@ impl IntoForOfHead for Object {
                     return array_error(1, dtors.len());
                 }
                 let mut obj = dtors.remove(0).into_object()?;
+                obj.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
                 let lhs = obj.extract_patt("id")?;
                 if let Some(init) = obj.extract_expr_opt("init")? {
                     return Err(Error::UnexpectedInitializer(init));
@@ -256,12 +258,14 @@ impl IntoStmt for Object {
     }
 
     fn into_case(mut self) -> Result<Case> {
+        self.expect_tag(Tag::SwitchCase, "switch case")?;
         let test = self.extract_expr_opt("test")?;
         let body = self.extract_stmt_list("consequent")?;
         Ok(Case { location: None, test: test, body: body })
     }
 
     fn into_catch(mut self) -> Result<Catch> {
+        self.expect_tag(Tag::CatchClause, "catch clause")?;
         let param = self.extract_patt("param")?;
         let body = self.extract_block("body")?;
         Ok(Catch { location: None, param: param, body: body })
diff --git a/crates/estree/src/tag.rs b/crates/estree/src/tag.rs
index d0cedf2..91a5bc0 100644
--- a/crates/estree/src/tag.rs
+++ b/crates/estree/src/tag.rs
@@ -5,10 +5,12 @@ use unjson::ty::Object;
 use unjson::*;
 
 use result::Result;
-use error::Error;
+use error::{Error, node_type_error};
 
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub enum Tag {
+    Program,
+
     Identifier,
     Literal,
 
@@ -27,12 +29,14 @@ pub enum Tag {
     ConditionalExpression,
     ThisExpression,
     MetaProperty,
+    Property,
 
     SpreadElement,
     RestElement,
 
     FunctionDeclaration,
     VariableDeclaration,
+    VariableDeclarator,
 
     EmptyStatement,
     ExpressionStatement,
@@ -48,10 +52,12 @@ pub enum Tag {
     BreakStatement,
     ContinueStatement,
     SwitchStatement,
+    SwitchCase,
     WithStatement,
     ThrowStatement,
     DebuggerStatement,
-    TryStatement
+    TryStatement,
+    CatchClause
 }
 
 impl Display for Tag {
@@ -65,6 +71,7 @@ impl FromStr for Tag {
 
     fn from_str(s: &str) -> Result<Tag> {
         Ok(match s {
+            "Program"               => Tag::Program,
             "Identifier"            => Tag::Identifier,
             "Literal"               => Tag::Literal,
             "BinaryExpression"      => Tag::BinaryExpression,
@@ -82,8 +89,10 @@ impl FromStr for Tag {
             "ConditionalExpression" => Tag::ConditionalExpression,
             "ThisExpression"        => Tag::ThisExpression,
             "MetaProperty"          => Tag::MetaProperty,
+            "Property"              => Tag::Property,
             "FunctionDeclaration"   => Tag::FunctionDeclaration,
             "VariableDeclaration"   => Tag::VariableDeclaration,
+            "VariableDeclarator"    => Tag::VariableDeclarator,
             "SpreadElement"         => Tag::SpreadElement,
             "RestElement"           => Tag::RestElement,
             "EmptyStatement"        => Tag::EmptyStatement,
@@ -100,10 +109,12 @@ impl FromStr for Tag {
             "BreakStatement"        => Tag::BreakStatement,
             "ContinueStatement"     => Tag::ContinueStatement,
             "SwitchStatement"       => Tag::SwitchStatement,
+            "SwitchCase"            => Tag::SwitchCase,
             "WithStatement"         => Tag::WithStatement,
             "ThrowStatement"        => Tag::ThrowStatement,
             "DebuggerStatement"     => Tag::DebuggerStatement,
             "TryStatement"          => Tag::TryStatement,
+            "CatchClause"           => Tag::CatchClause,
             _ => { return Err(Error::InvalidTypeTag(String::from(s))); }
         })
     }
@@ -111,6 +122,7 @@ impl FromStr for Tag {
 
 pub trait TagOf {
     fn tag(&self) -> Result<Tag>;
+    fn expect_tag(&self, tag: Tag, expected: &'static str) -> Result<()>;
 }
 
 impl TagOf for Object {
@@ -119,4 +131,12 @@ impl TagOf for Object {
         str.parse()
            .map_err(|_| Error::InvalidTypeTag(String::from(str)))
     }
+
+    fn expect_tag(&self, tag: Tag, expected: &'static str) -> Result<()> {
+        let actual = self.tag()?;
+        if actual != tag {
+            return node_type_error(expected, actual);
+        }
+        Ok(())
+    }
 }
-- 
2.43.0


From 1796bdd0ed9d166a4195210b2e80ecdbcb58a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:21 +0000
Subject: [PATCH 37/39] fix: a const loop head without a name blames the token
 that cannot follow

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c04e616..4ac0df2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -857,10 +857,6 @@ impl<I: Iterator<Item=char>> Parser<I> {
     // 'for' '(' 'const' .
     fn for_const(&mut self) -> Result<Stmt> {
         let const_token = self.reread(TokenData::Reserved(Reserved::Const));
-        if !self.peek()?.first_binding() {
-            self.lexer.unread_token(const_token);
-            return self.for_expr(None);
-        }
         let const_location = Some(const_token.location);
         // 'for' '(' 'const' . !{id, patt} ==> error
         let lhs = self.pattern()?;
-- 
2.43.0


From c9ec083f0a4bb62101ba06e05663fafb7be01360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:51 +0000
Subject: [PATCH 38/39] fix: assignment patterns of ESTree documents are read

---
 crates/estree/src/node.rs | 10 ++---
 crates/estree/src/obj.rs  | 12 ++++--
 crates/estree/src/patt.rs | 81 +++++++++++++++++++++++++++++++++++++--
 crates/estree/src/stmt.rs | 18 ++-------
 crates/estree/src/tag.rs  |  5 +++
 5 files changed, 98 insertions(+), 28 deletions(-)

diff --git a/crates/estree/src/node.rs b/crates/estree/src/node.rs
index d499d2a..6c37b18 100644
--- a/crates/estree/src/node.rs
+++ b/crates/estree/src/node.rs
@@ -6,7 +6,7 @@ use easter::stmt::{Stmt, Block, StmtListItem, Case, Catch, Script};
 use easter::patt::{Patt, RestPatt, AssignTarget};
 use easter::obj::Prop;
 use easter::decl::Dtor;
-use easter::cover::{IntoAssignTarget, IntoAssignPatt};
+use easter::cover::IntoAssignTarget;
 use easter::fun::Params;
 
 use tag::{Tag, TagOf};
@@ -15,7 +15,7 @@ use result::{Result, Map};
 use id::IntoId;
 use stmt::IntoStmt;
 use expr::IntoExpr;
-use patt::IntoPatt;
+use patt::{IntoPatt, IntoAssignPatt};
 use obj::IntoObj;
 use decl::IntoDecl;
 
@@ -72,11 +72,7 @@ impl ExtractNode for Object {
     }
 
     fn extract_assign_patt(&mut self, name: &'static str) -> Result<Patt<AssignTarget>> {
-        let expr = self.extract_expr(name)?;
-        match expr.into_assign_patt() {
-            Ok(patt) => Ok(patt),
-            _ => Err(Error::InvalidLHS(name))
-        }
+        self.extract_object(name)?.into_assign_patt(name)
     }
 
     fn extract_stmt(&mut self, name: &'static str) -> Result<Stmt> {
diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index dac6f4d..22c587d 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -1,7 +1,7 @@
 use easter::obj::{Prop, PropKey, PropVal};
 use easter::expr::Expr;
 use unjson::ty::{Object, Ty};
-use unjson::ExtractField;
+use unjson::{ExtractField, GetField};
 
 use tag::{Tag, TagOf};
 use id::IntoId;
@@ -12,16 +12,22 @@ use expr::IntoExpr;
 use fun::IntoFun;
 
 pub trait IntoObj {
+    fn expect_property(&self) -> Result<()>;
     fn into_prop(self) -> Result<Prop>;
     fn into_prop_key(self) -> Result<PropKey>;
 }
 
 impl IntoObj for Object {
-    fn into_prop(mut self) -> Result<Prop> {
+    fn expect_property(&self) -> Result<()> {
         self.expect_tag(Tag::Property, "property")?;
-        if self.contains_key("computed") && self.extract_bool("computed")? {
+        if self.contains_key("computed") && self.get_bool("computed")? {
             return string_error("property with a fixed key", String::from("computed"));
         }
+        Ok(())
+    }
+
+    fn into_prop(mut self) -> Result<Prop> {
+        self.expect_property()?;
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
diff --git a/crates/estree/src/patt.rs b/crates/estree/src/patt.rs
index ed866be..615c537 100644
--- a/crates/estree/src/patt.rs
+++ b/crates/estree/src/patt.rs
@@ -1,9 +1,15 @@
-use easter::patt::Patt;
+use easter::patt::{Patt, CompoundPatt, PropPatt, RestPatt, AssignTarget};
+use easter::cover::IntoAssignPatt as ExprIntoAssignPatt;
 use easter::id::{Id, IdExt};
-use unjson::ty::Object;
+use unjson::ty::{Object, Ty};
+use unjson::{ExtractField, Unjson};
 
 use id::IntoId;
-use result::Result;
+use tag::{Tag, TagOf};
+use result::{Result, Map};
+use error::{Error, type_error};
+use expr::IntoExpr;
+use obj::IntoObj;
 
 pub trait IntoPatt {
     fn into_patt(self) -> Result<Patt<Id>>;
@@ -14,3 +20,72 @@ impl IntoPatt for Object {
         self.into_id().map(|id| id.into_patt())
     }
 }
+
+pub trait IntoAssignPatt {
+    fn into_assign_patt(self, &'static str) -> Result<Patt<AssignTarget>>;
+    fn into_assign_prop(self, &'static str) -> Result<PropPatt<AssignTarget>>;
+}
+
+impl IntoAssignPatt for Object {
+    fn into_assign_patt(mut self, name: &'static str) -> Result<Patt<AssignTarget>> {
+        Ok(match self.tag()? {
+            Tag::ArrayPattern => {
+                let list = self.extract_array("elements")?;
+                let mut elts = list.map(|v| v.into_object_opt().map_err(Error::Json))?;
+                let mut rest = None;
+                if let Some(last) = elts.pop() {
+                    match last {
+                        Some(mut obj) => {
+                            if obj.tag()? == Tag::RestElement {
+                                rest = Some(Box::new(RestPatt {
+                                    location: None,
+                                    patt: obj.extract_object("argument")?.into_assign_patt(name)?
+                                }));
+                            } else {
+                                elts.push(Some(obj));
+                            }
+                        }
+                        None => { elts.push(None); }
+                    }
+                }
+                let patts = elts.map(|elt| {
+                    match elt {
+                        Some(obj) => obj.into_assign_patt(name).map(Some),
+                        None => Ok(None)
+                    }
+                })?;
+                Patt::Compound(CompoundPatt::Arr(None, patts, rest))
+            }
+            Tag::ObjectPattern => {
+                let list = self.extract_array("properties")?;
+                let objs = list.map(|v| v.into_object().map_err(Error::Json))?;
+                Patt::Compound(CompoundPatt::Obj(None, objs.map(|o| o.into_assign_prop(name))?))
+            }
+            _ => {
+                match self.into_expr()?.into_assign_patt() {
+                    Ok(patt) => patt,
+                    _ => { return Err(Error::InvalidLHS(name)); }
+                }
+            }
+        })
+    }
+
+    fn into_assign_prop(mut self, name: &'static str) -> Result<PropPatt<AssignTarget>> {
+        self.expect_property()?;
+        let key = self.extract_object("key")?;
+        let val = self.extract_object("value")?;
+        let kind = self.extract_string("kind")?;
+        match &kind[..] {
+            "init" => { }
+            "get" | "set" => { return Err(Error::InvalidLHS(name)); }
+            _ => { return type_error("'init', 'get', or 'set'", Ty::String); }
+        }
+        if self.extract_bool("method")? {
+            return Err(Error::InvalidLHS(name));
+        }
+        if self.extract_bool("shorthand")? {
+            return Ok(PropPatt::Shorthand(key.into_id()?));
+        }
+        Ok(PropPatt::Regular(None, key.into_prop_key()?, val.into_assign_patt(name)?))
+    }
+}
diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index 2e3a5ae..f5b401c 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -2,7 +2,6 @@ use easter::stmt::{Stmt, Block, ForHead, ForInHead, ForOfHead, StmtListItem, Cas
 use easter::decl::Decl;
 use easter::punc::Semi;
 use easter::patt::Patt;
-use easter::cover::IntoAssignPatt;
 use unjson::ty::Object;
 use unjson::{Unjson, ExtractField};
 
@@ -10,6 +9,7 @@ use tag::{Tag, TagOf};
 use decl::IntoConst;
 use expr::IntoExpr;
 use fun::IntoFun;
+use patt::IntoAssignPatt;
 use error::{Error, string_error, array_error, node_type_error};
 use result::Result;
 use node::ExtractNode;
@@ -66,13 +66,7 @@ impl IntoForInHead for Object {
                     (_, _, _) => { return string_error("var or let", kind); }
                 }
             }
-            _ => {
-                let expr = self.into_expr()?;
-                match expr.into_assign_patt() {
-                    Ok(patt) => ForInHead::Patt(patt),
-                    _ => { return Err(Error::InvalidLHS("left")); }
-                }
-            }
+            _ => ForInHead::Patt(self.into_assign_patt("left")?)
         })
     }
 }
@@ -103,13 +97,7 @@ impl IntoForOfHead for Object {
                     _ => { return string_error("var or let", kind); }
                 }
             },
-            _ => {
-                let expr = self.into_expr()?;
-                match expr.into_assign_patt() {
-                    Ok(patt) => ForOfHead::Patt(patt),
-                    _ => { return Err(Error::InvalidLHS("left")); }
-                }
-            }
+            _ => ForOfHead::Patt(self.into_assign_patt("left")?)
         })
     }
 }
diff --git a/crates/estree/src/tag.rs b/crates/estree/src/tag.rs
index 91a5bc0..bfe8182 100644
--- a/crates/estree/src/tag.rs
+++ b/crates/estree/src/tag.rs
@@ -31,6 +31,9 @@ pub enum Tag {
     MetaProperty,
     Property,
 
+    ArrayPattern,
+    ObjectPattern,
+
     SpreadElement,
     RestElement,
 
@@ -90,6 +93,8 @@ impl FromStr for Tag {
             "ThisExpression"        => Tag::ThisExpression,
             "MetaProperty"          => Tag::MetaProperty,
             "Property"              => Tag::Property,
+            "ArrayPattern"          => Tag::ArrayPattern,
+            "ObjectPattern"         => Tag::ObjectPattern,
             "FunctionDeclaration"   => Tag::FunctionDeclaration,
             "VariableDeclaration"   => Tag::VariableDeclaration,
             "VariableDeclarator"    => Tag::VariableDeclarator,
-- 
2.43.0


From 99d9e4e567fa46767b279edc60d8e0e59a78af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 39/39] fix: the value of a shorthand property of an ESTree
 document is its key

---
 crates/estree/src/obj.rs  | 13 ++++++++++++-
 crates/estree/src/patt.rs |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 22c587d..66105eb 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -1,5 +1,6 @@
 use easter::obj::{Prop, PropKey, PropVal};
 use easter::expr::Expr;
+use easter::id::Id;
 use unjson::ty::{Object, Ty};
 use unjson::{ExtractField, GetField};
 
@@ -17,6 +18,16 @@ pub trait IntoObj {
     fn into_prop_key(self) -> Result<PropKey>;
 }
 
+// The value of a shorthand property is its key.
+pub fn into_shorthand(key: Object, val: Object) -> Result<Id> {
+    let key = key.into_id()?;
+    let val = val.into_id()?;
+    if val != key {
+        return string_error("shorthand property with its key as its value", val.name.into_string());
+    }
+    Ok(key)
+}
+
 impl IntoObj for Object {
     fn expect_property(&self) -> Result<()> {
         self.expect_tag(Tag::Property, "property")?;
@@ -38,7 +49,7 @@ impl IntoObj for Object {
                     let fun = val.into_fun(key.into_prop_key()?)?;
                     return Ok(Prop::Method(fun))
                 } else if self.extract_bool("shorthand")? {
-                    return Ok(Prop::Shorthand(key.into_id()?));
+                    return Ok(Prop::Shorthand(into_shorthand(key, val)?));
                 } else {
                     PropVal::Init(val.into_expr()?)
                 }
diff --git a/crates/estree/src/patt.rs b/crates/estree/src/patt.rs
index 615c537..d96b302 100644
--- a/crates/estree/src/patt.rs
+++ b/crates/estree/src/patt.rs
@@ -9,7 +9,7 @@ use tag::{Tag, TagOf};
 use result::{Result, Map};
 use error::{Error, type_error};
 use expr::IntoExpr;
-use obj::IntoObj;
+use obj::{IntoObj, into_shorthand};
 
 pub trait IntoPatt {
     fn into_patt(self) -> Result<Patt<Id>>;
@@ -84,7 +84,7 @@ impl IntoAssignPatt for Object {
             return Err(Error::InvalidLHS(name));
         }
         if self.extract_bool("shorthand")? {
-            return Ok(PropPatt::Shorthand(key.into_id()?));
+            return Ok(PropPatt::Shorthand(into_shorthand(key, val)?));
         }
         Ok(PropPatt::Regular(None, key.into_prop_key()?, val.into_assign_patt(name)?))
     }
-- 
2.43.0

