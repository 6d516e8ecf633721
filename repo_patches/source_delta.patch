From 2539e06c4a7ca487e301754f7f01a8640c2f2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 01/60] Add cfg(jsparse_verif) re-export of tokenizer types

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..480674d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,10 @@ pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
 
 pub mod parser;
+
+// Lets an external crate name the token types, and so implement Tokenizer.
+#[cfg(jsparse_verif)]
+pub mod verif_hooks {
+    pub use tokenizer::{Hint, Position, TokenRange};
+    pub use tokenizer::tokens;
+}
-- 
2.43.0


From 5f3754e440beb97a4eac65867a2a532e50c7b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 02/60] fix: skip NBSP and ZWNBSP as whole characters instead
 of stopping inside them

---
 src/tokenizer/slice.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..b84ecbb 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -25,22 +25,22 @@ impl<'code> Clone for SliceTokenizer<'code> {
 fn eat_whitespace(code: &str, pos: &mut Position) {
     let mut index = pos.offset;
 
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
+    while index < code.len() {
+        match code.as_bytes()[index] {
             b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
                 index += 1;
             }
             b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
+                index += WS_ZWNBSP.len();
             }
             b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+                index += WS_NBSP.len();
             }
             _ => break,
         }
     }
 
-    pos.column += index - pos.offset;
+    pos.column += code[pos.offset..index].chars().count();
     pos.offset = index;
 }
 
-- 
2.43.0


From 1f7b29fa76e71d0e4e71a7f6675351c8651533c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 03/60] fix: number lines from 1 as Position documents

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index b84ecbb..cd47046 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -102,7 +102,7 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position { offset: 0, line: 1, column: 0 },
         }
     }
 }
-- 
2.43.0


From 8e27fad65cf16d7d8414559f28232f73f6d0d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 04/60] fix: read CR LF as one line terminator so it counts as
 one line

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index cd47046..1bdf7e2 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -317,6 +317,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From 3e2ab2784e37f3ead85f231835ff8d141daca6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 05/60] fix: give hexadecimal letters their value and refuse a
 radix prefix without digits

---
 src/tokenizer/slice.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 1bdf7e2..2109c7f 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -441,9 +441,9 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let b = if index + 2 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -454,25 +454,28 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
 
                 i += 1;
             }
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
 
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -489,14 +492,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
                 i += 1;
             }
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
 
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -513,6 +519,9 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
                 i += 1;
             }
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
 
             number(val, code[index..i].into(), token);
             i
-- 
2.43.0


From 963fda30e8a2a216267ddca40569f41b1946a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 06/60] fix: read a radix prefix or decimal point that ends the
 input as part of the number

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 2109c7f..be9c75a 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -438,7 +438,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
             let mut val = 0f64;
-- 
2.43.0


From a219267c950d3e2bd33b432e7017ebee5162c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 07/60] fix: read the exponent of a literal that is a lone zero

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index be9c75a..cd99885 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -549,7 +549,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[index + 1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
-- 
2.43.0


From 13fed319b2e896c18aceadf7566a9a8f080e2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 08/60] fix: refuse an exponent without digits and saturate one
 that is out of range

---
 src/tokenizer/slice.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index cd99885..2b4bc1c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -860,19 +860,18 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
 }
 
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
-    let b = if bytes.len() >= 2 { bytes[0] } else { 0 };
-    let (offset, sign) = match b {
-        b'e' | b'E' => {
-            match bytes[1] {
-                b'+' => (2, 1),
-                b'-' => (2, -1),
+    let (offset, sign) = match bytes.get(0) {
+        Some(b'e') | Some(b'E') => {
+            match bytes.get(1) {
+                Some(b'+') => (2, 1),
+                Some(b'-') => (2, -1),
                 _ => (1, 1),
             }
         }
         _ => return (0, 0),
     };
 
-    let mut value = 0;
+    let mut value = 0i32;
 
     let mut i = offset;
     while i < bytes.len() {
@@ -880,8 +879,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = value.saturating_mul(10).saturating_add(val);
                 }
             }
             _ => break,
@@ -889,6 +887,9 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
 
         i += 1;
     }
+    if i == offset {
+        unimplemented!("invalid number error")
+    }
 
     (sign * value, i)
 }
-- 
2.43.0


From 75d5ac3e92af8fe3d84e757dddef34ff973bb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 09/60] fix: keep escaped backquotes and dollars inside a
 template chunk

---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 2b4bc1c..be529a6 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -386,9 +386,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -661,9 +669,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From f437b8ccca893fdc0226cf9ad2f953c0bf520d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 10/60] fix: refuse a character that starts no token instead of
 returning an empty name

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index be529a6..a0d31e3 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -375,6 +375,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        unimplemented!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From f43c10af9b0b9715db82755f63cefc5b74de8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 11/60] fix: refuse an unterminated string instead of returning
 an empty token

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a0d31e3..c8873fd 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -823,6 +823,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        unimplemented!("unterminated string");
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From 9e8293b488408d6a93d85d3fbcea26eed2523522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 12/60] fix: let a CR line continuation take only the LF right
 after it

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index c8873fd..d61ca0b 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -808,7 +808,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 end = i + 1;
                 break;
             },
-            b'\n' if ignore_nl => {
+            b'\n' if ignore_nl && bytes[i - 1] == b'\r' => {
 
             }
             b'\r' | b'\n' => {
-- 
2.43.0


From de6a758da110c89081f139f4158061cadc8a3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 13/60] fix: accept an escaped ordinary character in a string

---
 src/tokenizer/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index d61ca0b..f40e3e7 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -761,7 +761,8 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From c938970a96c0cf5216ea09319d772c430eda1499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 14/60] fix: refuse a line terminator inside a regular
 expression

---
 src/tokenizer/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f40e3e7..b97ac08 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -621,9 +621,14 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    unimplemented!("unterminated regex");
+                }
+                b'\xE2' if code[i..].starts_with(NS_LS) || code[i..].starts_with(NS_PS) => {
+                    unimplemented!("unterminated regex");
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From 86a6e40ceacabbd4ac0c1e651c5990a3bfdae69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 15/60] fix: read --> as -- and >, since --> is not a
 punctuator

---
 src/tokenizer/slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index b97ac08..01b0f70 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -234,11 +234,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From e4310d655da2c9f819fecd8d22f6079c6334ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 16/60] fix: ask for an expression only when the next token is
 still unread

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..ebc145a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,11 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // A token that is already buffered was read with its own hint, so the
+        // request must not carry over to the token after it.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
-- 
2.43.0


From ec8027c106d88f0904c8e0a9bddcb2bf1f0c5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 17/60] fix: read a regular expression as an array element

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..87410b0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -631,6 +631,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
+            self.expect_expression();
             if let TokenResult::Some(_) = self.parse_array_item()? {
             }
 
@@ -685,6 +686,7 @@ where
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
-- 
2.43.0


From 72cfa75045d08ea474df6a833d93bdeae0bfd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:32 +0000
Subject: [PATCH 18/60] fix: read a regular expression as a computed member or
 template substitution

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 87410b0..79fa80a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -425,6 +425,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -704,6 +705,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
-- 
2.43.0


From 763a304cd49ad345a37e603d74d2901b77504dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 19/60] fix: read a slash after this, true, false or null as
 division

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ebc145a..cf98fa9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -308,7 +308,11 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                match &**name {
+                    // Complete operands, so an operator follows.
+                    "this" | "super" | "null" | "true" | "false" => false,
+                    _ => !is_binding_identifier(&flags, name),
+                }
             } else {
                 return None;
             };
-- 
2.43.0


From 2daf915accf6c89dad2fdc0d331bd24792c7834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 20/60] fix: read a regular expression right after return,
 throw and yield

---
 src/parser/expressions.rs | 2 +-
 src/parser/statements.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 79fa80a..9f0f240 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -144,8 +144,8 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
 
             self.expect_expression();
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..48141c1 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -624,8 +624,8 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -671,8 +671,8 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             eat_value!(self.with(Flag::In).parse_expression()?);
         }
 
-- 
2.43.0


From 063db14172e369115a5728be6980f770dd72586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 21/60] fix: read a regular expression that starts the
 statement after an if or try

---
 src/parser/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 48141c1..78dc531 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -310,6 +310,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -684,6 +685,7 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("catch") {
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
@@ -696,6 +698,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
-- 
2.43.0


From f06689ab85d6a3b89adad993c6a31b009248924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 22/60] fix: read a regular expression after export default

---
 src/parser/module.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..c8a1f6d 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -63,6 +63,7 @@ where
         if let TokenResult::Some(_) = self.keyword("default") {
             let mut parser = self.with(Flag::Default);
 
+            parser.expect_expression();
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
 
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
-- 
2.43.0


From 555c4feabecf3714813a6e77e833b990eecf46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 23/60] fix: read a regular expression that follows a statement
 ended by semicolon insertion

---
 src/parser/mod.rs        | 3 +--
 src/parser/module.rs     | 1 +
 src/parser/statements.rs | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cf98fa9..785c721 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -198,6 +198,7 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         self.semicolon_inner(true)
     }
     fn semicolon_inner(&mut self, was_do_while: bool) -> TokenResult<()> {
+        self.expect_expression();
         let exists = {
             let (line, token) = self.token_and_line();
 
@@ -218,8 +219,6 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         // println!("Performing ASI");
         if exists {
             self.pop();
-        } else {
-            self.expect_expression();
         }
         TokenResult::Some(())
     }
diff --git a/src/parser/module.rs b/src/parser/module.rs
index c8a1f6d..efb5919 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -93,6 +93,7 @@ where
 
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyClose));
 
+                self.expect_expression();
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
                 } else {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 78dc531..4754b49 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -276,6 +276,7 @@ where
     }
 
     pub fn parse_initializer(&mut self) -> OptResult<()> {
+        self.expect_expression();
         try_value!(self.punc(tokens::PunctuatorToken::Eq));
 
         self.expect_expression();
@@ -603,6 +604,8 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
+
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -614,6 +617,8 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
+
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
-- 
2.43.0


From dde36f19e94927224b1b3a1c929fa9910f1f2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 24/60] fix: require the semicolon after throw and refuse a
 line terminator in it

---
 src/parser/statements.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 4754b49..e42c01e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -678,9 +678,12 @@ where
         try_value!(self.keyword("throw"));
 
         self.expect_expression();
-        if self.no_line_terminator() {
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From b90a27aac46bab1f21a35d375326b771927be8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 25/60] fix: do not take a reserved word such as default as a
 label

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e42c01e..e8ee77e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -664,7 +664,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From 16f8c15cf09ad675e22f1a4e833569abe5f7bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 26/60] fix: allow the in operator in let and const
 declarations

---
 src/parser/declarations.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..65ba79f 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -44,10 +44,10 @@ where
     pub fn parse_let_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("let"));
 
-        eat_value!(self.parse_lexical_declarator(false)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(false)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
         }
         eat_value!(self.semicolon());
 
@@ -57,10 +57,10 @@ where
     pub fn parse_const_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("const"));
 
-        eat_value!(self.parse_lexical_declarator(true)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(true)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
         }
         eat_value!(self.semicolon());
 
-- 
2.43.0


From 7223fd18ce19fa6c85797273d83bdad4a1bd7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 27/60] fix: allow the in operator in the test and update
 clauses of a for header

---
 src/parser/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e8ee77e..7507188 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -506,12 +506,12 @@ where
         let found = if maybe_for {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Semicolon));
 
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
                 true
             } else {
                 false
-- 
2.43.0


From 6d6c7c86b5b6925990f2e19ea794c672118873be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 28/60] fix: allow the in operator inside parentheses, arrays,
 objects, templates and parameters

---
 src/parser/expressions.rs | 40 +++++++++++++++++++++------------------
 src/parser/functions.rs   | 17 +++++++++--------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 9f0f240..e1ada4b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -629,24 +629,26 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_array_literal_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
-            self.expect_expression();
-            if let TokenResult::Some(_) = self.parse_array_item()? {
+            parser.expect_expression();
+            if let TokenResult::Some(_) = parser.parse_array_item()? {
             }
 
-            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
+            if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::SquareClose));
 
         Ok(TokenResult::Some(()))
     }
     fn parse_object_literal_expression(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
@@ -704,6 +706,7 @@ where
 
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
+            let mut parser = parser.with(Flag::In);
             loop {
                 parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
@@ -719,32 +722,33 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-        self.expect_expression();
+        parser.expect_expression();
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-                self.expect_expression();
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+            while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                parser.expect_expression();
+                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                     } else {
-                        eat_value!(self.binding_identifier());
+                        eat_value!(parser.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(parser.parse_assignment_expression()?)
                 }
             }
         } else {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                 } else {
-                    eat_value!(self.binding_identifier());
+                    eat_value!(parser.binding_identifier());
                 }
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..db35498 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -102,27 +102,28 @@ where
     }
 
     pub fn parse_function_params(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
         loop {
-            if let TokenResult::Some(_) = self.parse_binding_rest_element()? {
+            if let TokenResult::Some(_) = parser.parse_binding_rest_element()? {
                 break;
             }
 
-            if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
-            } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+            if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
+                opt_value!(parser.parse_initializer()?);
+            } else if let TokenResult::Some(_) = parser.binding_identifier() {
+                opt_value!(parser.parse_initializer()?);
             } else {
                 break;
             }
 
-            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
+            if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From 2058cb0c032d0d49c704ed4de21d1ad0b3eedf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 29/60] fix: take yield as an operator only in generators, with
 one assignment expression as operand

---
 src/parser/expressions.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e1ada4b..ae8f9cc 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -142,14 +142,20 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
         self.expect_expression();
         if self.no_line_terminator() {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From aa0dedec5e29e49d78ee62ece6a957268707fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 30/60] fix: refuse yield and await in arrow bodies, accessors
 and nested parameter lists

---
 src/parser/classes.rs     | 34 ++++++++++++++--------------------
 src/parser/expressions.rs |  7 +++++--
 src/parser/functions.rs   | 36 ++++++++++++------------------------
 3 files changed, 31 insertions(+), 46 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..5f3c44f 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -132,41 +132,35 @@ where
     }
 
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
+        let mut parser = self.without(Flag::Await);
+        let mut parser = parser.without(Flag::Yield);
+
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
+                if let TokenResult::None = parser.parse_binding_pattern()? {
+                    eat_value!(parser.binding_identifier());
                 }
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
-                if head.async {
-                    let mut parser = self.without(Flag::Yield);
+                try_value!(parser.parse_function_params()?);
 
-                    try_value!(parser.parse_function_params()?);
+                if head.async {
                     eat_value!(parser.with(Flag::Await).parse_function_body()?);
                 } else if head.generator {
-                    let mut parser = self.without(Flag::Await);
-                    let mut parser = parser.with(Flag::Yield);
-
-                    try_value!(parser.parse_function_params()?);
-                    eat_value!(parser.parse_function_body()?);
+                    eat_value!(parser.with(Flag::Yield).parse_function_body()?);
                 } else {
-                    let mut parser = self.without(Flag::Await);
-                    let mut parser = parser.without(Flag::Yield);
-
-                    try_value!(parser.parse_function_params()?);
                     eat_value!(parser.parse_function_body()?);
                 }
             }
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ae8f9cc..2f23aa8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -126,9 +126,12 @@ where
     fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
         self.expect_expression();
 
+        let mut parser = self.without(Flag::Await);
+        let mut parser = parser.without(Flag::Yield);
+
         Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
+            parser.parse_block_statement()?,
+            parser.parse_assignment_expression()?,
         ))
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index db35498..26cb9d0 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -34,22 +34,16 @@ where
             eat_value!(self.binding_identifier());
         }
 
-        if maybe_async {
-            let mut parser = self.without(Flag::Yield);
+        let mut parser = self.without(Flag::Await);
+        let mut parser = parser.without(Flag::Yield);
+
+        eat_value!(parser.parse_function_params()?);
 
-            eat_value!(parser.parse_function_params()?);
+        if maybe_async {
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let Some(_) = star {
-            let mut parser = self.without(Flag::Await);
-            let mut parser = parser.with(Flag::Yield);
-
-            eat_value!(parser.parse_function_params()?);
-            eat_value!(parser.parse_function_body()?);
+            eat_value!(parser.with(Flag::Yield).parse_function_body()?);
         } else {
-            let mut parser = self.without(Flag::Await);
-            let mut parser = parser.without(Flag::Yield);
-
-            eat_value!(parser.parse_function_params()?);
             eat_value!(parser.parse_function_body()?);
         }
 
@@ -79,22 +73,16 @@ where
 
         opt_value!(self.binding_identifier());
 
-        if maybe_async {
-            let mut parser = self.without(Flag::Yield);
+        let mut parser = self.without(Flag::Await);
+        let mut parser = parser.without(Flag::Yield);
+
+        eat_value!(parser.parse_function_params()?);
 
-            eat_value!(parser.parse_function_params()?);
+        if maybe_async {
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let TokenResult::Some(_) = star {
-            let mut parser = self.without(Flag::Await);
-            let mut parser = parser.with(Flag::Yield);
-
-            eat_value!(parser.parse_function_params()?);
-            eat_value!(parser.parse_function_body()?);
+            eat_value!(parser.with(Flag::Yield).parse_function_body()?);
         } else {
-            let mut parser = self.without(Flag::Await);
-            let mut parser = parser.without(Flag::Yield);
-
-            eat_value!(parser.parse_function_params()?);
             eat_value!(parser.parse_function_body()?);
         }
 
-- 
2.43.0


From cb7141484d52fd4fbe1c63033744b6281a9e0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 31/60] fix: take await as a reserved word everywhere in a
 module

---
 src/parser/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 785c721..690b1bb 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -549,10 +549,9 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     match s {
         // Conditional keywords
         "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
 
         // Keywords
-        "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
+        "await" | "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
         "do" | "else" | "export" | "extends" | "finally" | "for" | "function" | "if" | "import" | "in" |
         "instanceof" | "new" | "return" | "super" | "switch" | "this" | "throw" | "try" | "typeof" |
         "var" | "void" | "while" | "with" | "yield" => false,
-- 
2.43.0


From 1e835c48d0dfe71e1ebc866262ef0b0deee8f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 32/60] fix: allow await in the body of a single-parameter
 async arrow

---
 src/parser/expressions.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2f23aa8..1937678 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -52,7 +52,7 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.reify_arrow((), true)?);
 
                 return Ok(TokenResult::Some(()));
             }
@@ -104,7 +104,7 @@ where
             Reify::Arrow => {
                 // TODO: No LineTerminator allowed before arrow.
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                self.reify_arrow(left, false)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -123,11 +123,11 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
+    fn reify_arrow(&mut self, _left: (), async: bool) -> OptResult<()> {
         self.expect_expression();
 
-        let mut parser = self.without(Flag::Await);
-        let mut parser = parser.without(Flag::Yield);
+        let mut parser = self.without(Flag::Yield);
+        let mut parser = if async { parser.with(Flag::Await) } else { parser.without(Flag::Await) };
 
         Ok(try_sequence!(
             parser.parse_block_statement()?,
-- 
2.43.0


From eac2ae19324e03b680a0287f7036496699e3a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 33/60] fix: do not take a method named async as an async
 method

---
 src/parser/classes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 5f3c44f..bbcc9a7 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -75,7 +75,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -97,11 +97,13 @@ where
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
-- 
2.43.0


From 3ef7159af25043fe8328b3e8d86719c1d49196c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 34/60] fix: let a for header declare several let names without
 initializers

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 7507188..2de53f3 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -455,7 +455,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
-- 
2.43.0


From 7d52b615f3a2a19870acd9d4057366defcadc762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 35/60] fix: iterate for-in over a full expression and require
 its left side

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 2de53f3..e9d95a8 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -472,9 +472,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let left_hand = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, left_hand /* tmp */)
             }
         };
 
@@ -524,7 +524,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From 27c3a2f07fd30eda78f64b95590517e6f8b5a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 36/60] fix: accept exported functions and classes and end an
 exported declaration once

---
 src/parser/module.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index efb5919..d8a7faa 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -74,11 +74,9 @@ where
             }
         } else {
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
-
-            } else if let TokenResult::Some(_) = self.parse_let_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
-
+                return Ok(TokenResult::Some(()));
+            } else if let TokenResult::Some(_) = self.parse_declaration()? {
+                return Ok(TokenResult::Some(()));
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
-- 
2.43.0


From 53abbe516971c2487596985f3d398c49f13f8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 37/60] fix: export one assignment expression as default

---
 src/parser/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index d8a7faa..bb6e74b 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -69,7 +69,7 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
-- 
2.43.0


From ce5b3c8fb38920cd8a97c01a898e2d6734130590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 38/60] fix: parse the name, heritage and body of a class
 expression

---
 src/parser/classes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index bbcc9a7..aaecf88 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,12 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        let _id = opt_value!(self.binding_identifier());
+
+        let _parent = opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From f0facedaceb2d99396d86c5163f023bb4a67864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 39/60] fix: accept new.target

---
 src/parser/expressions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1937678..2820839 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -394,7 +394,12 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
-            eat_value!(self.parse_left_hand_expression(false)?);
+            self.expect_expression();
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Period) {
+                eat_value!(self.keyword("target"));
+            } else {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-- 
2.43.0


From 8e8f2992c8279e244b0054b2c0969010fc9275fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:59 +0000
Subject: [PATCH 40/60] fix: accept async function declarations and expressions

---
 src/parser/declarations.rs |  4 +++-
 src/parser/expressions.rs  | 15 ++-------------
 src/parser/functions.rs    | 28 +++++++++++++++++-----------
 3 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 65ba79f..eea5c9d 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -17,11 +17,13 @@ where
             Const,
         }
 
+        let async = self.is_async_function();
+
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
                     "class" => DeclType::Class,
-                    // TODO: Async
+                    "async" if async => DeclType::Function,
                     "function" => DeclType::Function,
                     "let" => DeclType::Let,
                     "const" => DeclType::Const,
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2820839..71b450f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -520,6 +520,7 @@ where
         }
 
         let flags = self.flags;
+        let async = self.is_async_function();
 
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
@@ -529,7 +530,7 @@ where
                     "false" => PrimaryType::False,
                     "null" => PrimaryType::Null,
 
-                    // TODO: Ignores async functions
+                    "async" if async => PrimaryType::Function,
                     "function" => PrimaryType::Function,
                     "class" => PrimaryType::Class,
                     _ => {
@@ -592,18 +593,6 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
-        }
-
         try_value!(self.reference_identifier());
 
         Ok(TokenResult::Some(()))
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 26cb9d0..8db688f 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -7,15 +7,28 @@ impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
 {
-    pub fn parse_function_declaration(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
+    // True at an "async" that modifies the "function" after it.
+    pub fn is_async_function(&mut self) -> bool {
+        let is_async = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
+        };
+        if !is_async {
+            return false;
+        }
+
+        if let Some(&LookaheadResult {
             line: false,
             token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
         }) = self.ident_lookahead() {
             name == "function"
         } else {
             false
-        };
+        }
+    }
+
+    pub fn parse_function_declaration(&mut self) -> OptResult<()> {
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
@@ -51,14 +64,7 @@ where
     }
 
     pub fn parse_function_expression(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
-            line: false,
-            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
-        }) = self.ident_lookahead() {
-            name == "function"
-        } else {
-            false
-        };
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
-- 
2.43.0


From 0f5492eb104e4a41c5bbe1bd316517c921ad33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 41/60] fix: tell shorthand properties from methods and keyed
 properties in object literals

---
 src/parser/classes.rs     | 10 ++++++++++
 src/parser/expressions.rs | 24 +++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index aaecf88..81db0d0 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -192,3 +192,13 @@ pub struct MethodHead {
     generator: bool,
     async: bool,
 }
+
+impl MethodHead {
+    // Only a name, with nothing that makes it a special kind of method.
+    pub fn is_plain(&self) -> bool {
+        match self.kind {
+            MethodKind::None => !self.generator && !self.async,
+            _ => false,
+        }
+    }
+}
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 71b450f..f7ca531 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -655,7 +655,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
@@ -676,16 +677,25 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let flags = self.flags;
+        let is_ident = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => is_binding_identifier(&flags, name),
+            _ => false,
+        };
 
-        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+        let head = try_value!(self.parse_method_head(false)?);
+
+        if !head.is_plain() {
+            eat_value!(self.parse_method_tail(head)?);
+        } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
+        } else if let TokenResult::Some(_) = self.parse_method_tail(head)? {
+        } else if is_ident {
+            // { foo = 4 } is only allowed as the cover of a pattern
+            opt_value!(self.parse_initializer()?);
         } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
-            opt_value!(self.parse_method_tail(head)?);
+            return Ok(TokenResult::None);
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From b14f9638d44431c66f5c078498c1dbd665a82f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 42/60] fix: require the expression of a computed property name

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e9d95a8..b2c0aa0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -228,7 +228,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From 2536a31fdba6082f4ca2c56ef5a9f4384f41fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 43/60] fix: require an arrow after parentheses that are only
 arrow parameters

---
 src/parser/expressions.rs | 42 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f7ca531..eb32da7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -738,31 +738,37 @@ where
         let mut parser = self.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-        parser.expect_expression();
+        // Parentheses that are empty or end in a rest element or a comma
+        // are parameters, so only an arrow makes them an expression.
+        let mut is_params = true;
 
-        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
-                parser.expect_expression();
-                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
-                    } else {
-                        eat_value!(parser.binding_identifier());
-                    }
-                } else {
-                    eat_value!(parser.parse_assignment_expression()?)
-                }
+        loop {
+            parser.expect_expression();
+            if let TokenResult::Some(_) = parser.parse_binding_rest_element()? {
+                is_params = true;
+                break;
             }
-        } else {
-            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
-                } else {
-                    eat_value!(parser.binding_identifier());
-                }
+
+            if let TokenResult::None = parser.parse_assignment_expression()? {
+                break;
+            }
+            is_params = false;
+
+            if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
+                break;
             }
+            is_params = true;
         }
 
         eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
+        if is_params {
+            match *parser.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => {}
+                _ => bail!("Unexpected end of parenthesized expression"),
+            }
+        }
+
         Ok(TokenResult::Some(()))
     }
 }
-- 
2.43.0


From b378e06849264a2d0d56f3778c06c0c4bfc6cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 44/60] fix: refuse a line terminator before an arrow

---
 src/parser/expressions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index eb32da7..5b979e1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -98,11 +98,16 @@ where
             _ => return Ok(TokenResult::Some(())),
         };
 
+        if let Reify::Arrow = t {
+            if !self.no_line_terminator() {
+                bail!("Unexpected line terminator before arrow");
+            }
+        }
+
         self.pop();
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
                 self.reify_arrow(left, false)?
             }
-- 
2.43.0


From 1226eaf6dfeab6c44c21d6a9fb8c67164d36084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 45/60] fix: accept an initializer for the parameter of a
 setter

---
 src/parser/classes.rs    | 4 +---
 src/parser/statements.rs | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 81db0d0..5629bd8 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -153,9 +153,7 @@ where
             MethodKind::Set => {
                 try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = parser.parse_binding_pattern()? {
-                    eat_value!(parser.binding_identifier());
-                }
+                eat_value!(parser.parse_binding_element()?);
 
                 eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b2c0aa0..9d4b12d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -266,7 +266,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_binding_element(&mut self) -> OptResult<()> {
+    pub fn parse_binding_element(&mut self) -> OptResult<()> {
         if let TokenResult::None = self.parse_binding_pattern()? {
             try_value!(self.binding_identifier());
         }
-- 
2.43.0


From 7633026419e92daacd918905c33f08c832381cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 46/60] fix: accept call arguments after a spread argument

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5b979e1..e00cd1d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -472,6 +472,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From 10e96af2daa22c6a0d49199b5d8df2663fddaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 47/60] fix: require the name of a function or class nested in
 a default export

---
 src/parser/statements.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9d4b12d..e36862c 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -126,6 +126,7 @@ where
 
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.without(Flag::Default);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
-- 
2.43.0


From bb3580ca17c842724e1037d60e70135c2ffc71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 48/60] fix: require catch or finally after try

---
 src/parser/statements.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e36862c..5d4b052 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -695,7 +695,9 @@ where
         eat_value!(self.parse_block_statement()?);
 
         self.expect_expression();
+        let mut has_handler = false;
         if let TokenResult::Some(_) = self.keyword("catch") {
+            has_handler = true;
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -709,9 +711,14 @@ where
 
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
+            has_handler = true;
             eat_value!(self.parse_block_statement()?);
         }
 
+        if !has_handler {
+            bail!("try without catch or finally");
+        }
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From a9455fd8b228dfbb3009c535a9e6e1ae34b15f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 49/60] fix: refuse a reserved word or literal key as shorthand
 property

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e00cd1d..2d0a3a3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -701,7 +701,7 @@ where
             // { foo = 4 } is only allowed as the cover of a pattern
             opt_value!(self.parse_initializer()?);
         } else {
-            return Ok(TokenResult::None);
+            bail!("Expected a value for the property");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 1da35dd1d50eb5118a30e3b5b2bfd493dbd3d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 50/60] fix: accept a final rest element in object patterns and
 require a target for other keys

---
 src/parser/statements.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5d4b052..f4307ce 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -176,7 +176,10 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_binding_property()? {
+            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                eat_value!(parser.binding_identifier());
+                break;
+            } else if let TokenResult::Some(_) = parser.parse_binding_property()? {
                 if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                     break;
                 }
@@ -196,12 +199,19 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
-        let _name = try_value!(self.parse_property_name()?);
+        let is_ident = if let TokenResult::Some(_) = self.binding_identifier() {
+            true
+        } else {
+            let _name = try_value!(self.parse_property_name()?);
+            false
+        };
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
-        } else {
+        } else if is_ident {
             opt_value!(self.with(Flag::In).parse_initializer()?);
+        } else {
+            bail!("Expected a target for the property");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From a3a8db36a7e1d9801b8d0441b88605b11d126819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 51/60] fix: refuse reserved words as local names of imports

---
 src/parser/module.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index bb6e74b..518bea5 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -45,13 +45,17 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> OptResult<()> {
-        try_value!(self.identifier());
+        let is_binding = if let TokenResult::Some(_) = self.binding_identifier() {
+            true
+        } else {
+            try_value!(self.identifier());
+            false
+        };
 
         if let TokenResult::Some(_) = self.keyword("as") {
-            // TODO: Validate BindingIdentifier
-            eat_value!(self.identifier());
-        } else {
-            // TODO: Validate first is BindingIdentifier
+            eat_value!(self.binding_identifier());
+        } else if !is_binding {
+            bail!("Expected a local name for the import");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From e4cd521d83e48b1bb7759d61ebc3dd0b1075718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 52/60] fix: refuse reserved words as local names of exports

---
 src/parser/module.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 518bea5..f032f08 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -87,7 +87,9 @@ where
             } else {
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
-                while let TokenResult::Some(_) = self.parse_export_specifier()? {
+                let mut is_local = true;
+                while let TokenResult::Some(is_reference) = self.parse_export_specifier()? {
+                    is_local = is_local && is_reference;
                     if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
                         break;
                     }
@@ -98,8 +100,8 @@ where
                 self.expect_expression();
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
-                } else {
-                    // TODO: Validate BindingIdentifier for local specifiers
+                } else if !is_local {
+                    bail!("Expected local names in the export");
                 }
             }
 
@@ -109,14 +111,20 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_export_specifier(&mut self) -> OptResult<()> {
-        try_value!(self.identifier());
+    // Gives whether the exported name can be one of this module.
+    fn parse_export_specifier(&mut self) -> OptResult<bool> {
+        let is_reference = if let TokenResult::Some(_) = self.reference_identifier() {
+            true
+        } else {
+            try_value!(self.identifier());
+            false
+        };
 
         if let TokenResult::Some(_) = self.keyword("as") {
             eat_value!(self.identifier());
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(is_reference))
     }
 }
 
-- 
2.43.0


From fbe6b398fd31fe305d88cbc15dcefe0414cf017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 53/60] fix: accept yield without operand at the end of a
 template substitution

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2d0a3a3..2eea77c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -550,7 +550,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0


From 7fdb8553d3c796ca6deda0339aa2393ba2c87129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 54/60] fix: keep a zero literal zero when its exponent is out
 of range

---
 src/tokenizer/slice.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 01b0f70..9381af9 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -344,7 +344,7 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
     let (exp, num) = parse_exponent(&bytes[offset..]);
 
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        val = scale(val, exp);
         offset += num;
     }
 
@@ -433,7 +433,7 @@ fn tok_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> u
 
     let (exp, num) = parse_exponent(&bytes[offset..]);
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        val = scale(val, exp);
         offset += num;
     }
 
@@ -549,7 +549,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
             let (exp, num) = parse_exponent(&bytes[offset..]);
             if num != 0 {
-                val = val * 10f64.powi(exp);
+                val = scale(val, exp);
                 offset += num;
             }
 
@@ -885,6 +885,11 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
     (value, i)
 }
 
+// Zero stays zero however large the exponent is.
+fn scale(val: f64, exp: i32) -> f64 {
+    if val == 0f64 { val } else { val * 10f64.powi(exp) }
+}
+
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
     let (offset, sign) = match bytes.get(0) {
         Some(b'e') | Some(b'E') => {
-- 
2.43.0


From 84e309ac636f65de74d4002c13b7045da4103aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 55/60] fix: read a slash after an arrow function's block body
 as a regular expression

---
 src/parser/expressions.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2eea77c..50afa98 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -134,10 +134,15 @@ where
         let mut parser = self.without(Flag::Yield);
         let mut parser = if async { parser.with(Flag::Await) } else { parser.without(Flag::Await) };
 
-        Ok(try_sequence!(
-            parser.parse_block_statement()?,
-            parser.parse_assignment_expression()?,
-        ))
+        if let TokenResult::Some(_) = parser.parse_block_statement()? {
+            // No operator can follow a block body, so a slash after it starts
+            // a regular expression.
+            parser.expect_expression();
+
+            return Ok(TokenResult::Some(()));
+        }
+
+        parser.parse_assignment_expression()
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
-- 
2.43.0


From b245cd7b20bab528e7771efddb19a8a66926498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 56/60] fix: refuse a unary expression as the base of **

---
 src/parser/expressions.rs | 40 +++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 50afa98..1771fd1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -2,6 +2,14 @@ use tokenizer::{Tokenizer, tokens};
 use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
+/// What an operand is, as far as it decides which operators may follow it.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum Operand {
+    /// Began with a unary operator, so it can't be the base of `**`.
+    Unary,
+    Other,
+}
+
 impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
@@ -191,7 +199,7 @@ where
         self.parse_fancy(0)
     }
     fn parse_fancy(&mut self, mut precedence: u8) -> OptResult<()> {
-        try_value!(self.parse_exponential_expression()?);
+        let mut operand = try_value!(self.parse_exponential_expression()?);
 
         let allow_in = self.flags.allow_in;
 
@@ -230,6 +238,10 @@ where
                 _ => break,
             };
 
+            if new_precedence == 11 && operand == Operand::Unary {
+                bail!("Unexpected unary expression as the base of **");
+            }
+
             self.pop();
 
             self.expect_expression();
@@ -241,29 +253,29 @@ where
             if new_precedence >= precedence && new_precedence != 11 {
                 precedence = new_precedence;
 
-                eat_value!(self.parse_unary_expression()?);
+                operand = eat_value!(self.parse_unary_expression()?);
             } else {
                 eat_value!(self.parse_fancy(new_precedence)?);
+                operand = Operand::Other;
             }
         }
 
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_exponential_expression(&mut self) -> OptResult<()> {
-        try_value!(self.parse_unary_expression()?);
+    fn parse_exponential_expression(&mut self) -> OptResult<Operand> {
+        let mut operand = try_value!(self.parse_unary_expression()?);
 
-        // TODO:
-        // if is_update_expression(expr) {
+        if operand != Operand::Unary {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
                 self.expect_expression();
-                eat_value!(self.parse_exponential_expression()?);
+                operand = eat_value!(self.parse_exponential_expression()?);
             }
-        // }
+        }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(operand))
     }
-    fn parse_unary_expression(&mut self) -> OptResult<()> {
+    fn parse_unary_expression(&mut self) -> OptResult<Operand> {
         enum UnaryType {
             Delete,
             Void,
@@ -302,10 +314,14 @@ where
             UnaryType::Tilde => eat_value!(self.parse_tilde_expression()?),
             UnaryType::Exclam => eat_value!(self.parse_exclam_expression()?),
             UnaryType::Await => eat_value!(self.parse_await_expression()?),
-            UnaryType::Unknown => try_value!(self.parse_update_expression()?),
+            UnaryType::Unknown => {
+                try_value!(self.parse_update_expression()?);
+
+                return Ok(TokenResult::Some(Operand::Other));
+            }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Operand::Unary))
     }
     fn parse_delete_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("delete"));
-- 
2.43.0


From ed8aac7c1db1a14ffde3772b6863527d3619dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 57/60] fix: refuse accessors that are generators

---
 src/parser/classes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 5629bd8..69d4feb 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -91,10 +91,10 @@ where
             false
         };
 
-        let star = if async {
-            None
-        } else {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star))
+        // Accessors and async methods can't be generators.
+        let star = match kind {
+            MethodKind::None if !async => opt_value!(self.punc(tokens::PunctuatorToken::Star)),
+            _ => None,
         };
 
         let is_ident = false;
-- 
2.43.0


From de45debc0ea7e8648dd63567266f6abccecb5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 58/60] fix: refuse super on its own and new super()

---
 src/parser/expressions.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1771fd1..1312eae 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -430,7 +430,7 @@ where
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
                 self.parse_meta_property_expression()?,
-                self.parse_super_expression()?,
+                self.parse_super_expression(allow_call)?,
             ) {
                 return Ok(TokenResult::None);
             }
@@ -469,8 +469,6 @@ where
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
-
-                // TODO: Not allowed for 'super'.
                 LeftType::Template => eat_value!(self.parse_template_literal_expression()?),
                 _ => break,
             }
@@ -521,9 +519,17 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_super_expression(&mut self) -> OptResult<()> {
+    fn parse_super_expression(&mut self, allow_call: bool) -> OptResult<()> {
         try_value!(self.keyword("super"));
 
+        // On its own it isn't an expression.
+        match *self.token() {
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Period) |
+            tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => {}
+            tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen) if allow_call => {}
+            _ => bail!("Unexpected super"),
+        }
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 29c97fc81d88ff3eb5709b90d30fbe1f8963ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 59/60] fix: refuse return outside of a function

---
 src/parser/expressions.rs | 2 +-
 src/parser/functions.rs   | 2 +-
 src/parser/statements.rs  | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1312eae..5517f43 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -142,7 +142,7 @@ where
         let mut parser = self.without(Flag::Yield);
         let mut parser = if async { parser.with(Flag::Await) } else { parser.without(Flag::Await) };
 
-        if let TokenResult::Some(_) = parser.parse_block_statement()? {
+        if let TokenResult::Some(_) = parser.parse_function_body()? {
             // No operator can follow a block body, so a slash after it starts
             // a regular expression.
             parser.expect_expression();
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 8db688f..0a222c9 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -122,6 +122,6 @@ where
         Ok(TokenResult::Some(()))
     }
     pub fn parse_function_body(&mut self) -> OptResult<()> {
-        self.parse_block_statement()
+        self.with(Flag::Return).parse_block_statement()
     }
 }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index f4307ce..5ae105b 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -641,6 +641,10 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        if !self.flags.allow_return {
+            bail!("Unexpected return outside of a function");
+        }
+
         self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.with(Flag::In).parse_expression()?);
-- 
2.43.0


From 377f65839cf6f4815d29c14221b4616c575abf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:35 +0000
Subject: [PATCH 60/60] fix: check what assignments, arrows and for-in heads
 apply to, and allow await in async arrows

---
 src/parser/expressions.rs | 140 ++++++++++++++++++++++++++------------
 src/parser/statements.rs  |  13 ++--
 2 files changed, 106 insertions(+), 47 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5517f43..dad8ab7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -4,34 +4,52 @@ use parser::utils::{OptResult, TokenResult};
 
 /// What an operand is, as far as it decides which operators may follow it.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
-enum Operand {
+pub enum Operand {
+    /// An identifier on its own.
+    Name,
+    /// A parenthesized expression, or the parameters of an arrow function.
+    Paren,
+    /// A call of `async`, or the head of an async arrow function.
+    AsyncCall,
+    /// Any other left-hand side expression.
+    LeftHand,
     /// Began with a unary operator, so it can't be the base of `**`.
     Unary,
     Other,
 }
 
+impl Operand {
+    pub fn is_left_hand(self) -> bool {
+        match self {
+            Operand::Name | Operand::Paren | Operand::AsyncCall | Operand::LeftHand => true,
+            Operand::Unary | Operand::Other => false,
+        }
+    }
+}
+
 impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
 {
-    pub fn parse_left_hand_side_expression(&mut self) -> OptResult<()> {
+    pub fn parse_left_hand_side_expression(&mut self) -> OptResult<Operand> {
         self.parse_left_hand_expression(true)
     }
 
-    pub fn parse_expression(&mut self) -> OptResult<()> {
-        try_value!(self.parse_assignment_expression()?);
+    pub fn parse_expression(&mut self) -> OptResult<Operand> {
+        let mut operand = try_value!(self.parse_assignment_expression()?);
 
         self.expect_expression();
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
+            operand = Operand::Other;
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(operand))
     }
-    pub fn parse_assignment_expression(&mut self) -> OptResult<()> {
+    pub fn parse_assignment_expression(&mut self) -> OptResult<Operand> {
         if let TokenResult::Some(_) = self.parse_yield_expression()? {
-            return Ok(TokenResult::Some(()));
+            return Ok(TokenResult::Some(Operand::Other));
         }
 
         let flags = self.flags;
@@ -60,9 +78,9 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow((), true)?);
+                eat_value!(self.reify_arrow(Operand::Name, true)?);
 
-                return Ok(TokenResult::Some(()));
+                return Ok(TokenResult::Some(Operand::Other));
             }
         }
 
@@ -103,22 +121,26 @@ where
             tokens::Token::Punctuator(tokens::PunctuatorToken::CaretEq) => Reify::CaretEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::BarEq) => Reify::BarEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::StarStarEq) => Reify::StarStarEq,
-            _ => return Ok(TokenResult::Some(())),
+            _ => return Ok(TokenResult::Some(left)),
         };
 
         if let Reify::Arrow = t {
+            match left {
+                Operand::Name | Operand::Paren | Operand::AsyncCall => {}
+                _ => bail!("Unexpected arrow after something other than parameters"),
+            }
+
             if !self.no_line_terminator() {
                 bail!("Unexpected line terminator before arrow");
             }
+        } else if !left.is_left_hand() {
+            bail!("Unexpected assignment to something other than a left-hand side expression");
         }
 
         self.pop();
 
         eat_value!(match t {
-            Reify::Arrow => {
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left, false)?
-            }
+            Reify::Arrow => self.reify_arrow(left, left == Operand::AsyncCall)?,
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
             Reify::SlashEq => self.reify_assignment(left, tokens::PunctuatorToken::SlashEq)?,
@@ -134,9 +156,9 @@ where
             Reify::StarStarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarStarEq)?,
         });
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Operand::Other))
     }
-    fn reify_arrow(&mut self, _left: (), async: bool) -> OptResult<()> {
+    fn reify_arrow(&mut self, _left: Operand, async: bool) -> OptResult<()> {
         self.expect_expression();
 
         let mut parser = self.without(Flag::Yield);
@@ -150,9 +172,11 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        parser.parse_assignment_expression()
+        eat_value!(parser.parse_assignment_expression()?);
+
+        Ok(TokenResult::Some(()))
     }
-    fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
+    fn reify_assignment(&mut self, _left: Operand, _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
 
         // println!("starting expr");
@@ -181,8 +205,8 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_conditional_expression(&mut self) -> OptResult<()> {
-        try_value!(self.parse_logical_or_expression()?);
+    fn parse_conditional_expression(&mut self) -> OptResult<Operand> {
+        let mut operand = try_value!(self.parse_logical_or_expression()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Question) {
             self.expect_expression();
@@ -191,14 +215,15 @@ where
 
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
+            operand = Operand::Other;
         }
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(operand))
     }
 
-    fn parse_logical_or_expression(&mut self) -> OptResult<()> {
+    fn parse_logical_or_expression(&mut self) -> OptResult<Operand> {
         self.parse_fancy(0)
     }
-    fn parse_fancy(&mut self, mut precedence: u8) -> OptResult<()> {
+    fn parse_fancy(&mut self, mut precedence: u8) -> OptResult<Operand> {
         let mut operand = try_value!(self.parse_exponential_expression()?);
 
         let allow_in = self.flags.allow_in;
@@ -253,14 +278,17 @@ where
             if new_precedence >= precedence && new_precedence != 11 {
                 precedence = new_precedence;
 
-                operand = eat_value!(self.parse_unary_expression()?);
+                operand = match eat_value!(self.parse_unary_expression()?) {
+                    Operand::Unary => Operand::Unary,
+                    _ => Operand::Other,
+                };
             } else {
                 eat_value!(self.parse_fancy(new_precedence)?);
                 operand = Operand::Other;
             }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(operand))
     }
 
     fn parse_exponential_expression(&mut self) -> OptResult<Operand> {
@@ -269,7 +297,10 @@ where
         if operand != Operand::Unary {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
                 self.expect_expression();
-                operand = eat_value!(self.parse_exponential_expression()?);
+                operand = match eat_value!(self.parse_exponential_expression()?) {
+                    Operand::Unary => Operand::Unary,
+                    _ => Operand::Other,
+                };
             }
         }
 
@@ -315,9 +346,9 @@ where
             UnaryType::Exclam => eat_value!(self.parse_exclam_expression()?),
             UnaryType::Await => eat_value!(self.parse_await_expression()?),
             UnaryType::Unknown => {
-                try_value!(self.parse_update_expression()?);
+                let operand = try_value!(self.parse_update_expression()?);
 
-                return Ok(TokenResult::Some(Operand::Other));
+                return Ok(TokenResult::Some(operand));
             }
         }
 
@@ -392,7 +423,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_update_expression(&mut self) -> OptResult<()> {
+    fn parse_update_expression(&mut self) -> OptResult<Operand> {
         let op = if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {
             true
         } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::MinusMinus) {
@@ -404,21 +435,29 @@ where
         if op {
             self.expect_expression();
             eat_value!(self.parse_update_expression()?);
+
+            Ok(TokenResult::Some(Operand::Other))
         } else {
-            try_value!(self.parse_left_hand_expression(true)?);
+            let mut operand = try_value!(self.parse_left_hand_expression(true)?);
 
             if self.no_line_terminator() {
                 if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {
-
+                    operand = Operand::Other;
                 } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::MinusMinus) {
-
+                    operand = Operand::Other;
                 }
             }
-        }
 
-        Ok(TokenResult::Some(()))
+            Ok(TokenResult::Some(operand))
+        }
     }
-    fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
+    fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<Operand> {
+        let is_async = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
+        };
+        let mut operand = Operand::LeftHand;
+
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Period) {
@@ -427,8 +466,9 @@ where
                 eat_value!(self.parse_left_hand_expression(false)?);
             }
         } else {
-            if let TokenResult::None = try_sequence!(
-                self.parse_primary_expression()?,
+            if let TokenResult::Some(primary) = self.parse_primary_expression()? {
+                operand = primary;
+            } else if let TokenResult::None = try_sequence!(
                 self.parse_meta_property_expression()?,
                 self.parse_super_expression(allow_call)?,
             ) {
@@ -455,13 +495,24 @@ where
                 _ => break,
             };
 
+            if let LeftType::Call = t {
+                if !allow_call {
+                    break;
+                }
+            }
+
+            operand = match t {
+                LeftType::Call if is_async && operand == Operand::Name && self.no_line_terminator() => Operand::AsyncCall,
+                _ => Operand::LeftHand,
+            };
+
             match t {
                 LeftType::Ident => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::Period));
                     eat_value!(self.with(Flag::In).identifier());
                 }
-                LeftType::Call if allow_call => eat_value!(self.parse_call_arguments()?),
+                LeftType::Call => eat_value!(self.parse_call_arguments()?),
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
@@ -470,11 +521,10 @@ where
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
                 LeftType::Template => eat_value!(self.parse_template_literal_expression()?),
-                _ => break,
             }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(operand))
     }
 
 
@@ -533,7 +583,7 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_primary_expression(&mut self) -> OptResult<()> {
+    fn parse_primary_expression(&mut self) -> OptResult<Operand> {
         enum PrimaryType {
             This,
             Ident,
@@ -586,6 +636,12 @@ where
             _ => return Ok(TokenResult::None),
         };
 
+        let operand = match t {
+            PrimaryType::Ident => Operand::Name,
+            PrimaryType::Paren => Operand::Paren,
+            _ => Operand::LeftHand,
+        };
+
         match t {
             PrimaryType::This => eat_value!(self.parse_this_expression()?),
             PrimaryType::Ident => eat_value!(self.parse_identifier_reference_expression()?),
@@ -603,7 +659,7 @@ where
             PrimaryType::Class => eat_value!(self.parse_class_expression()?),
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(operand))
 
 
 
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5ae105b..759df40 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -481,11 +481,14 @@ where
             if let Some(decl) = decl {
                 decl
             } else {
-                // TODO: What to do here? If this is a LeftHandSideExpression,
-                // the for can be any type, otherwise it _must_ be 'ForStatement'
-                let left_hand = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
-
-                ("expression", false, false, false, false, left_hand /* tmp */)
+                // If this is a LeftHandSideExpression, the for can be any type,
+                // otherwise it _must_ be 'ForStatement'
+                let left_hand = match opt_value!(self.without(Flag::In).parse_expression()?) {
+                    Some(operand) => operand.is_left_hand(),
+                    None => false,
+                };
+
+                ("expression", false, false, false, false, left_hand)
             }
         };
 
-- 
2.43.0

