From f0cd2df29a593b5ab3dffbbd77273e1234c2d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 01/56] hook: expose the tokenizer module under
 cfg(jsparse_verif)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..8d04f63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,8 +6,14 @@ extern crate time;
 // #[macro_use]
 // pub mod ast;
 
+#[cfg(not(jsparse_verif))]
 mod tokenizer;
 
+// Verification hook: lets an external harness name the token types and
+// implement `Tokenizer`. Never set in normal builds.
+#[cfg(jsparse_verif)]
+pub mod tokenizer;
+
 pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
 
-- 
2.43.0


From 2f4248f7b0e287c0e356b9a9dae9a0764064c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 02/56] fix: read CRLF as one line terminator

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..76539ae 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -317,6 +317,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From c226ed6968b6045d7a01f5b3fbd5c41dad1388cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 03/56] fix: number lines from one, as Position documents

---
 src/tokenizer/slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 76539ae..70fb455 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -102,7 +102,10 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position {
+                line: 1,
+                ..Default::default()
+            },
         }
     }
 }
-- 
2.43.0


From 8893a8096f516cc6c9b942b318e03cd2206e2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 04/56] fix: skip all white space, advancing by whole
 characters

---
 src/tokenizer/slice.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 70fb455..6b4020f 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -23,25 +23,19 @@ impl<'code> Clone for SliceTokenizer<'code> {
 }
 
 fn eat_whitespace(code: &str, pos: &mut Position) {
-    let mut index = pos.offset;
+    for c in code[pos.offset..].chars() {
+        match c {
+            '\u{0009}' | '\u{000B}' | '\u{000C}' | '\u{0020}' | '\u{00A0}' | '\u{FEFF}' => {}
+
+            // Space_Separator
+            '\u{1680}' | '\u{2000}'...'\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}' => {}
 
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
-            b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
-                index += 1;
-            }
-            b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
-            }
-            b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
-            }
             _ => break,
         }
-    }
 
-    pos.column += index - pos.offset;
-    pos.offset = index;
+        pos.offset += c.len_utf8();
+        pos.column += 1;
+    }
 }
 
 fn increment_position(code: &str, size: usize, pos: &mut Position) {
-- 
2.43.0


From 39bec687ce710eb025a7aa3badeaa977c988f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 05/56] fix: read --> as -- and >, HTML-like comments do not
 exist in modules

---
 src/tokenizer/slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 6b4020f..b101aba 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -231,11 +231,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From 652fa1f68b680f0deaec8d0587ab02942e8104a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 06/56] fix: values and first digit of hexadecimal, octal and
 binary literals

---
 src/tokenizer/slice.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index b101aba..a389139 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -431,12 +431,12 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -447,11 +447,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
@@ -459,13 +459,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                panic!("number without digits");
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -483,13 +487,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                panic!("number without digits");
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -507,6 +515,10 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                panic!("number without digits");
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
-- 
2.43.0


From ce57b1abea25622fd54742b918fdcc8f77d88c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 07/56] fix: read the exponent of 0e5, and no exponent without
 digits

---
 src/tokenizer/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a389139..ffad5a4 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -545,7 +545,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
@@ -886,6 +886,11 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         i += 1;
     }
 
+    if i == offset {
+        // No digits, so this is not an exponent.
+        return (0, 0);
+    }
+
     (sign * value, i)
 }
 
-- 
2.43.0


From cddcd4a83bc1a557afce72de6763444965561793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 08/56] fix: values of decimal literals at the ends of the
 range

---
 src/tokenizer/slice.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ffad5a4..ba19cea 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -109,6 +109,18 @@ fn punc<'a, 'b>(tok: tokens::PunctuatorToken, size: usize, token: &mut tokens::T
     size
 }
 
+// Apply a decimal exponent, leaving anything that would leave the range in
+// which multiplication is precise to the standard library.
+fn decimal(raw: &str, val: f64, exp: i32) -> f64 {
+    let factor = 10f64.powi(exp);
+    let result = val * factor;
+
+    if val.is_normal() && factor.is_normal() && result.is_normal() {
+        result
+    } else {
+        raw.parse().unwrap_or(result)
+    }
+}
 fn number<'a, 'b>(tok: f64, _raw: Cow<'a, str>, token: &mut tokens::Token<'a>){
     *token = tokens::NumericLiteralToken {
         value: tok
@@ -340,10 +352,8 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
 
     let (exp, num) = parse_exponent(&bytes[offset..]);
 
-    if num != 0 {
-        val = val * 10f64.powi(exp);
-        offset += num;
-    }
+    offset += num;
+    val = decimal(&code[..offset], val, exp);
 
     number(val, code[0..offset].into(), token);
     offset
@@ -417,10 +427,8 @@ fn tok_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> u
     }
 
     let (exp, num) = parse_exponent(&bytes[offset..]);
-    if num != 0 {
-        val = val * 10f64.powi(exp);
-        offset += num;
-    }
+    offset += num;
+    val = decimal(&code[..offset], val, exp);
 
     number(val, code[..offset].into(), token);
     offset
@@ -536,10 +544,8 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             }
 
             let (exp, num) = parse_exponent(&bytes[offset..]);
-            if num != 0 {
-                val = val * 10f64.powi(exp);
-                offset += num;
-            }
+            offset += num;
+            val = decimal(&code[..offset], val, exp);
 
             number(val, code[..offset].into(), token);
             offset
@@ -876,8 +882,8 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = i32::saturating_mul(value, 10);
+                    value = i32::saturating_add(value, val);
                 }
             }
             _ => break,
-- 
2.43.0


From db32ffc66fd4fee1aac17ad2da27d6c546ef5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 09/56] fix: read non-ASCII identifiers, and fail on characters
 no token starts with

---
 src/tokenizer/slice.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ba19cea..8944470 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use ucd::Codepoint;
 use tokenizer::tokens;
 use tokenizer::tokens::{PunctuatorToken,
     TemplateFormat, CommentToken, CommentFormat};
@@ -359,25 +360,41 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
     offset
 }
 
+fn is_ident_start(c: char) -> bool {
+    match c {
+        'a'...'z' | 'A'...'Z' | '$' | '_' => true,
+        _ => !c.is_ascii() && c.is_id_start(),
+    }
+}
+
+fn is_ident_continue(c: char) -> bool {
+    match c {
+        'a'...'z' | 'A'...'Z' | '0'...'9' | '$' | '_' => true,
+
+        // ZWNJ and ZWJ
+        '\u{200C}' | '\u{200D}' => true,
+        _ => !c.is_ascii() && c.is_id_continue(),
+    }
+}
+
 fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> usize {
-    let bytes = code.as_bytes();
     let index = 0;
 
     let mut end = index;
 
-    for (i, &b) in bytes.iter().enumerate() {
-        match b {
-            b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b'$' | b'_'  => {
-                end = i + 1;
-            }
-
-            // TODO: Handle all the other ident characters
-            _ => {
-                break;
-            }
+    for (i, c) in code.char_indices() {
+        // TODO: Handle unicode escapes
+        if (i == 0 && is_ident_start(c)) || (i != 0 && is_ident_continue(c)) {
+            end = i + c.len_utf8();
+        } else {
+            break;
         }
     }
 
+    if end == index {
+        panic!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From 9226672b30700d53a593a4df4d24300292336c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 10/56] fix: reject identifiers and digits directly after a
 number

---
 src/tokenizer/slice.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 8944470..f563bb5 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -172,7 +172,8 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
             if len > 2 && bytes[1] == b'.' && bytes[2] == b'.' {
                 punc(PunctuatorToken::Ellipsis, 3, token)
             } else if len > 1 && bytes[1] >= b'0' && bytes[1] <= b'9' {
-                tok_fractional(&code, token)
+                let size = tok_fractional(&code, token);
+                check_number_end(code, size)
             } else {
                 punc(PunctuatorToken::Period, 1, token)
             }
@@ -306,10 +307,12 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
             tok_str(t, code, token)
         }
         b'0' => {
-            tok_zero_num(code, token)
+            let size = tok_zero_num(code, token);
+            check_number_end(code, size)
         }
         b'1'...b'9' => {
-            tok_num(code, token)
+            let size = tok_num(code, token);
+            check_number_end(code, size)
         }
         b'`' => {
             tok_template_head(code, token)
@@ -431,6 +434,14 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
 
 }
 
+// Nothing that could continue an identifier or number may follow a number.
+fn check_number_end(code: &str, size: usize) -> usize {
+    match code[size..].chars().next() {
+        Some(c) if is_ident_start(c) || c.is_digit(10) => panic!("unexpected character after number"),
+        _ => size,
+    }
+}
+
 fn tok_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> usize {
     let bytes = code.as_bytes();
     let len = code.len();
-- 
2.43.0


From a62649edcc3f9676346720149c047b320363349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 11/56] fix: reject regular expressions with line terminators

---
 src/tokenizer/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f563bb5..6061ec6 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -639,9 +639,14 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    panic!("regex with newlines")
+                }
+                b'\xE2' if code[i..].starts_with(NS_PS) || code[i..].starts_with(NS_LS) => {
+                    panic!("regex with newlines")
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From f62e05a41e9e1e6afc46a7e1cb6b6d71ab551d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 12/56] fix: read all identifier characters after a regular
 expression as its flags

---
 src/tokenizer/slice.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 6061ec6..47e4c09 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -670,11 +670,10 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
 
         let mut flag_end = end + 1;
         for (i, c) in (&code[flag_end..]).char_indices() {
-            match c {
-                'a'...'z' => {
-                    flag_end = (end + 1) + (i + 1);
-                }
-                _ => break,
+            if is_ident_continue(c) {
+                flag_end = (end + 1) + (i + c.len_utf8());
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From 9a326c008eed823012ba7d0cdbfaee9cb12452f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 13/56] fix: decode string escapes, and reject malformed and
 unterminated strings

---
 src/tokenizer/slice.rs | 187 +++++++++++++++++------------------------
 1 file changed, 79 insertions(+), 108 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 47e4c09..0b4d624 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -724,128 +724,99 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
 }
 
 fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code>) -> usize {
-    let index = 0;
-    let bytes = code.as_bytes();
-
-    let mut pieces = vec![];
-
-    let start = index;
-    let mut end = start;
-
-    let mut in_escape = 0;
-    let mut in_hex_escape = false;
-    let mut in_unicode_escape = false;
-    let mut in_long_unicode_escape = false;
-    let mut ignore_nl = false;
-
-    let s: usize = index + 1;
-    for (i, &b) in bytes.iter().enumerate().skip(1) {
-        // TODO: Build state transition tables for parsing escapes
+    let mut decoded = vec![];
+    let mut has_escape = false;
 
-        if in_escape == 1 {
-            match b {
-                b'\r' => {
-                    ignore_nl = true;
-                    in_escape = 0;
-                    continue;
-                }
-                b'\n' => {
-                    in_escape = 0;
-                    continue;
-                }
-                b'\xE2' | b'\xE2' if code[i..].starts_with(NS_PS) || code[i..].starts_with(NS_LS) => {
-                    in_escape = 0;
-                    continue;
-                }
-                b'\'' | b'"' | b'\\' | b'b' | b'f' | b'n' | b'r' | b't' | b'v' => {
-                    in_escape = 0;
-                    continue;
-                }
-                b'0' => {
-                    in_escape = 0;
-                    continue;
-                }
-                b'x' => {
-                    in_hex_escape = true;
-                }
-                b'u' => {
-                    in_unicode_escape = true;
-                }
-                b'1'...b'9' => {
-                    panic!("numbers not allowed");
-                }
-                _ => {
-                    unimplemented!("totally bad escapes");
-                }
+    let mut i = 1;
+    while let Some(c) = code[i..].chars().next() {
+        match c {
+            '\\' => {
+                has_escape = true;
+                i += 1 + read_escape(&code[i + 1..], &mut decoded);
             }
-        }
-        if in_hex_escape && in_escape == 3 {
-            in_escape = 0;
-            in_hex_escape = false;
-        }
-        if in_unicode_escape {
-            if in_escape == 2 && b == b'{' {
-                in_long_unicode_escape = true;
+            '\r' | '\n' | '\u{2028}' | '\u{2029}' => {
+                // Invalid string
+                panic!("string with newlines")
             }
+            _ if c == t as char => {
+                let value = if has_escape {
+                    Cow::from(String::from_utf16_lossy(&decoded))
+                } else {
+                    Cow::from(&code[1..i])
+                };
 
-            if !in_long_unicode_escape && in_escape == 5 {
-                in_escape = 0;
-                in_unicode_escape = false;
+                string(value, Cow::from(&code[..i + 1]), token);
+                return i + 1;
             }
-
-            if in_long_unicode_escape && b == b'}' {
-                in_escape = 0;
-                in_unicode_escape = false;
-                in_long_unicode_escape = false;
+            _ => {
+                decoded.extend(c.encode_utf16(&mut [0; 2]).iter());
+                i += c.len_utf8();
             }
         }
+    }
 
-        if in_escape != 0 {
-            in_escape += 1;
-            continue;
-        }
-
-        match b {
-            b'\\' => {
-                // pieces.push(Cow::from(&code[s..i]));
-                // start = i + 1;
-
-                in_escape = 1;
-            }
-            b'\"' if t == b'\"' => {
-                pieces.push(Cow::from(&code[s..i]));
-                end = i + 1;
-                break;
-            },
-            b'\'' if t == b'\'' => {
-                pieces.push(Cow::from(&code[s..i]));
-                end = i + 1;
-                break;
-            },
-            b'\n' if ignore_nl => {
+    panic!("unterminated string")
+}
 
+// Decode an escape sequence, given the code following the backslash, and
+// return the number of bytes it takes up.
+fn read_escape(code: &str, decoded: &mut Vec<u16>) -> usize {
+    let c = code.chars().next().expect("unterminated escape");
+    let mut size = c.len_utf8();
+
+    let value = match c {
+        // Line continuations
+        '\r' if code[1..].starts_with('\n') => return 2,
+        '\r' | '\n' | '\u{2028}' | '\u{2029}' => return size,
+
+        'b' => '\u{0008}',
+        't' => '\u{0009}',
+        'n' => '\u{000A}',
+        'v' => '\u{000B}',
+        'f' => '\u{000C}',
+        'r' => '\u{000D}',
+        '0' if !code[1..].starts_with(|c: char| c.is_digit(10)) => '\u{0000}',
+        '0'...'9' => panic!("numbers not allowed"),
+        'x' => {
+            decoded.push(read_hex(code.get(1..3)) as u16);
+            return 3;
+        }
+        'u' if code[1..].starts_with('{') => {
+            let end = code.find('}').expect("unterminated unicode escape");
+            let value = read_hex(code.get(2..end));
+            size = end + 1;
+
+            match ::std::char::from_u32(value) {
+                Some(c) => c,
+                None if value <= 0xFFFF => {
+                    // Half of a surrogate pair
+                    decoded.push(value as u16);
+                    return size;
+                }
+                None => panic!("unicode escape out of range"),
             }
-            b'\r' | b'\n' => {
-                // Invalid string
-                panic!("string with newlines")
-            }
-            b'\xE2' if code[i..].starts_with(NS_PS) || code[i..].starts_with(NS_LS) => {
-                // Invalid string
-                panic!("string with newlines")
-            }
-            _ => { }
         }
-    }
+        'u' => {
+            decoded.push(read_hex(code.get(1..5)) as u16);
+            return 5;
+        }
+        _ => c,
+    };
 
-    let raw = Cow::from(&code[start..end]);
+    decoded.extend(value.encode_utf16(&mut [0; 2]).iter());
+    size
+}
 
-    if pieces.len() == 1 {
-        string(pieces.pop().unwrap(), raw, token);
-    } else {
-        let decoded: String = pieces.into_iter().collect();
-        string(decoded.into(), raw, token);
+fn read_hex(digits: Option<&str>) -> u32 {
+    let digits = digits.expect("unterminated escape");
+    if digits.is_empty() {
+        panic!("escape without digits");
     }
-    end
+
+    digits.chars().fold(0u32, |value, c| {
+        let digit = c.to_digit(16).expect("invalid digit in escape");
+        value.saturating_mul(16).saturating_add(digit)
+    })
 }
 
 
-- 
2.43.0


From 069cfa4ea335065ed47369af67ec7787aa186678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 14/56] fix: decode templates, their escapes and line
 terminators

---
 src/tokenizer/slice.rs | 78 +++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0b4d624..4745170 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -406,32 +406,49 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
 }
 
 fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> usize {
-    let bytes = code.as_bytes();
-
-    let mut break_curly = false;
+    tok_template(code, TemplateFormat::Head, TemplateFormat::NoSubstitution, token)
+}
 
-    for (i, &b) in bytes.iter().enumerate().skip(1) {
-        match b {
-            b'{' if  break_curly => {
-                template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
-                return i + 1;
+// Read up to the next substitution or the end of the template.
+fn tok_template<'code, 'tok>(code: &'code str, open: TemplateFormat, close: TemplateFormat, token: &mut tokens::Token<'code>) -> usize {
+    let mut decoded = vec![];
+    let mut plain = true;
 
+    let mut i = 1;
+    while let Some(c) = code[i..].chars().next() {
+        let (format, size) = match c {
+            '`' => (close, 1),
+            '$' if code[i + 1..].starts_with('{') => (open, 2),
+            '\\' => {
+                plain = false;
+                i += 1 + read_escape(&code[i + 1..], &mut decoded);
+                continue;
             }
-            b'`' => {
-                template(code[1..i].into(), code[1..i].into(), TemplateFormat::NoSubstitution, token);
-                return i + 1;
-            }
-            b'$' => {
-                break_curly = true;
+            '\r' => {
+                plain = false;
+                decoded.push(b'\n' as u16);
+                i += if code[i + 1..].starts_with('\n') { 2 } else { 1 };
+                continue;
             }
             _ => {
-                break_curly = false;
+                decoded.extend(c.encode_utf16(&mut [0; 2]).iter());
+                i += c.len_utf8();
+                continue;
             }
-        }
-    }
+        };
+
+        let (cooked, raw) = if plain {
+            (Cow::from(&code[1..i]), Cow::from(&code[1..i]))
+        } else {
+            let raw = code[1..i].replace("\r\n", "\n").replace('\r', "\n");
+            (Cow::from(String::from_utf16_lossy(&decoded)), Cow::from(raw))
+        };
 
-    unimplemented!("template string")
+        template(cooked, raw, format, token);
+        return i + size;
+    }
 
+    unimplemented!("unterminated template")
 }
 
 // Nothing that could continue an identifier or number may follow a number.
@@ -692,31 +709,8 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
 }
 
 fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Token<'code>) -> usize {
-    let bytes = code.as_bytes();
     if hint.template {
-        let mut break_curly = false;
-
-        for (i, &b) in bytes.iter().enumerate().skip(1) {
-            match b {
-                b'{' if break_curly => {
-
-                    template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-                    return i + 1;
-                }
-                b'`' => {
-                    template(code[1..i].into(), code[1..i].into(), TemplateFormat::Tail, token);
-                    return i + 1;
-                }
-                b'$' => {
-                    break_curly = true;
-                }
-                _ => {
-                    break_curly = false;
-                }
-            }
-        }
-
-        unimplemented!("template tail")
+        tok_template(code, TemplateFormat::Middle, TemplateFormat::Tail, token)
     } else {
         punc(PunctuatorToken::CurlyClose, 1, token)
     }
-- 
2.43.0


From 4edb9d53b0b615ae635e4692efe72e37cee87c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 15/56] fix: do not keep the expression hint for a later token

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..187a23c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,11 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // The hint is for the next token to be read, so it must not be kept
+        // around for a later one if that has already happened.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
-- 
2.43.0


From 74559a1ac694eb7b275475406e96ac925704fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 16/56] fix: read a slash after this and literal keywords as
 division

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 187a23c..bd536ad 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -308,7 +308,11 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                match &**name {
+                    // These end an expression.
+                    "this" | "null" | "true" | "false" => false,
+                    _ => !is_binding_identifier(&flags, name),
+                }
             } else {
                 return None;
             };
-- 
2.43.0


From 10105231840cf1bb8b01b936d2f216c7b9559d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 17/56] fix: read a slash at the start of a statement as a
 regular expression

---
 src/parser/mod.rs        | 4 ++--
 src/parser/statements.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index bd536ad..ad63837 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -198,6 +198,8 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         self.semicolon_inner(true)
     }
     fn semicolon_inner(&mut self, was_do_while: bool) -> TokenResult<()> {
+        self.expect_expression();
+
         let exists = {
             let (line, token) = self.token_and_line();
 
@@ -218,8 +220,6 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         // println!("Performing ASI");
         if exists {
             self.pop();
-        } else {
-            self.expect_expression();
         }
         TokenResult::Some(())
     }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..18d1864 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -276,6 +276,7 @@ where
     }
 
     pub fn parse_initializer(&mut self) -> OptResult<()> {
+        self.expect_expression();
         try_value!(self.punc(tokens::PunctuatorToken::Eq));
 
         self.expect_expression();
@@ -310,6 +311,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -602,6 +604,7 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -613,6 +616,7 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -624,8 +628,8 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -696,6 +700,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
-- 
2.43.0


From eaa3b9fa22368cfc9e07e301981ea811adb1f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 18/56] fix: read a slash at the start of an expression as a
 regular expression

---
 src/parser/expressions.rs | 7 ++++++-
 src/parser/module.rs      | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..e2f9f16 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -144,8 +144,8 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
 
             self.expect_expression();
@@ -385,6 +385,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -425,6 +426,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -684,7 +686,9 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
+        self.expect_expression();
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -702,6 +706,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..1bdf126 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -61,6 +61,7 @@ where
         try_value!(self.keyword("export"));
 
         if let TokenResult::Some(_) = self.keyword("default") {
+            self.expect_expression();
             let mut parser = self.with(Flag::Default);
 
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
-- 
2.43.0


From 740f16302d62ce1448fb429e9d8c3d76adda0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 19/56] fix: read a slash after an arrow function body as a
 regular expression

---
 src/parser/expressions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e2f9f16..6f871a1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -126,10 +126,13 @@ where
     fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
         self.expect_expression();
 
-        Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
-        ))
+        if let TokenResult::Some(_) = self.parse_block_statement()? {
+            // No operator can follow this.
+            self.expect_expression();
+            return Ok(TokenResult::Some(()));
+        }
+
+        self.parse_assignment_expression()
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
-- 
2.43.0


From 5dbce68c357bde3357adc3559f1b658fa2784300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:25 +0000
Subject: [PATCH 20/56] fix: allow the in operator everywhere but in the head
 of a for loop

---
 src/parser/expressions.rs | 39 +++++++++++++++++++++------------------
 src/parser/functions.rs   |  4 ++--
 src/parser/mod.rs         | 19 ++++++++++++++++++-
 src/parser/statements.rs  |  1 +
 4 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6f871a1..83c7ad6 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -633,23 +633,25 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_array_literal_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
-            if let TokenResult::Some(_) = self.parse_array_item()? {
+            if let TokenResult::Some(_) = parser.parse_array_item()? {
             }
 
-            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
+            if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::SquareClose));
 
         Ok(TokenResult::Some(()))
     }
     fn parse_object_literal_expression(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
@@ -710,7 +712,7 @@ where
             let mut parser = self.with(Flag::Template);
             loop {
                 parser.expect_expression();
-                eat_value!(parser.parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
 
@@ -723,32 +725,33 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-        self.expect_expression();
+        parser.expect_expression();
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-                self.expect_expression();
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+            while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                parser.expect_expression();
+                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                     } else {
-                        eat_value!(self.binding_identifier());
+                        eat_value!(parser.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(parser.parse_assignment_expression()?)
                 }
             }
         } else {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                 } else {
-                    eat_value!(self.binding_identifier());
+                    eat_value!(parser.binding_identifier());
                 }
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..2efcbc2 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -110,9 +110,9 @@ where
             }
 
             if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else {
                 break;
             }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ad63837..efbe12e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -145,7 +145,7 @@ pub enum Flag {
     // Curly,
 }
 
-#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 struct GrammarFlags {
     allow_in: bool,
     allow_yield: bool,
@@ -158,6 +158,23 @@ struct GrammarFlags {
     expect_template: bool,
 }
 
+impl Default for GrammarFlags {
+    fn default() -> GrammarFlags {
+        GrammarFlags {
+            // Only the head of a "for" loop does not allow it.
+            allow_in: true,
+            allow_yield: false,
+            allow_await: false,
+            allow_return: false,
+            allow_default: false,
+            is_module: false,
+            is_strict: false,
+
+            expect_template: false,
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct Parser<'code, T: 'code>
 where
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 18d1864..c503be7 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -126,6 +126,7 @@ where
 
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
-- 
2.43.0


From 97246213ba8022767e4e4fe60576310665894695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 21/56] fix: reserve yield and await where they are keywords,
 and the strict words in modules

---
 src/parser/file.rs | 10 +++++++---
 src/parser/mod.rs  |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 0d05c39..cbde5c9 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -1,5 +1,5 @@
 use tokenizer::Tokenizer;
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, Result, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -14,10 +14,14 @@ where
         Ok(())
     }
     pub fn parse_module(&mut self) -> Result<()> {
-        while let TokenResult::Some(_) = self.parse_module_item()? {
+        // The code of a module is always strict.
+        let mut parser = self.with(Flag::Module);
+        let mut parser = parser.with(Flag::Strict);
+
+        while let TokenResult::Some(_) = parser.parse_module_item()? {
         }
 
-        eat_value!(self.eof());
+        eat_value!(parser.eof());
         Ok(())
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index efbe12e..7ba4c38 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -566,14 +566,14 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
 
     match s {
         // Conditional keywords
-        "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
+        "yield" if flags.allow_yield || flags.is_strict => false,
+        "await" if flags.allow_await || flags.is_module => false,
 
         // Keywords
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
         "do" | "else" | "export" | "extends" | "finally" | "for" | "function" | "if" | "import" | "in" |
         "instanceof" | "new" | "return" | "super" | "switch" | "this" | "throw" | "try" | "typeof" |
-        "var" | "void" | "while" | "with" | "yield" => false,
+        "var" | "void" | "while" | "with" => false,
 
         // Strict Keywords
         "let" | "static" if flags.is_strict => false,
-- 
2.43.0


From 7983ab4f35e2bdc23ff93dfb8f486f3aef36776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 22/56] fix: parse yield only in generators, with an operand
 after yield*

---
 src/parser/expressions.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 83c7ad6..5a5acb0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -145,14 +145,21 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
         self.expect_expression();
         if self.no_line_terminator() {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                self.expect_expression();
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
@@ -260,6 +267,8 @@ where
             Unknown,
         }
 
+        let allow_await = self.flags.allow_await;
+
         let t = match *self.token() {
             tokens::Token::Punctuator(tokens::PunctuatorToken::Plus) => UnaryType::Plus,
             tokens::Token::Punctuator(tokens::PunctuatorToken::Minus) => UnaryType::Minus,
@@ -270,7 +279,7 @@ where
                     "delete" => UnaryType::Delete,
                     "void" => UnaryType::Void,
                     "typeof" => UnaryType::Typeof,
-                    "await" => UnaryType::Await,
+                    "await" if allow_await => UnaryType::Await,
                     _ => UnaryType::Unknown,
                 }
             }
-- 
2.43.0


From 247907dfbc8e4ab1625796fdb928a96c424aaf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 23/56] fix: do not allow yield and await in getters and
 setters of a generator or async function

---
 src/parser/classes.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..2bc64a9 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -134,21 +134,27 @@ where
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                eat_value!(self.parse_function_body()?);
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
+
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
+
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
+                if let TokenResult::None = parser.parse_binding_pattern()? {
+                    eat_value!(parser.binding_identifier());
                 }
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
                 if head.async {
-- 
2.43.0


From c00a10baae67cfd4f090b76c931165eb21230549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 24/56] fix: allow await but not yield in the body of async
 arrow functions

---
 src/parser/expressions.rs | 44 +++++++++++++++++++++++++++++++--------
 src/parser/mod.rs         | 21 +++++++++++++++++++
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5a5acb0..4ded606 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -52,7 +52,7 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.reify_arrow((), true)?);
 
                 return Ok(TokenResult::Some(()));
             }
@@ -60,6 +60,7 @@ where
 
         // TODO: Alternatively this can kick off the cover lookahead here then skip reify
 
+        let start = self.popped;
         let left = try_value!(self.parse_conditional_expression()?);
 
         #[derive(Debug)]
@@ -98,13 +99,14 @@ where
             _ => return Ok(TokenResult::Some(())),
         };
 
+        let end = self.popped;
         self.pop();
 
         eat_value!(match t {
             Reify::Arrow => {
                 // TODO: No LineTerminator allowed before arrow.
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                let async = self.async_call == Some((start, end));
+                self.reify_arrow(left, async)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -123,16 +125,23 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
-        self.expect_expression();
+    fn reify_arrow(&mut self, _left: (), async: bool) -> OptResult<()> {
+        let mut parser = self.without(Flag::Yield);
+        let mut parser = if async {
+            parser.with(Flag::Await)
+        } else {
+            parser.without(Flag::Await)
+        };
 
-        if let TokenResult::Some(_) = self.parse_block_statement()? {
+        parser.expect_expression();
+
+        if let TokenResult::Some(_) = parser.parse_block_statement()? {
             // No operator can follow this.
-            self.expect_expression();
+            parser.expect_expression();
             return Ok(TokenResult::Some(()));
         }
 
-        self.parse_assignment_expression()
+        parser.parse_assignment_expression()
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
@@ -396,6 +405,15 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
+        let start = self.popped;
+        let maybe_async_call = match self.ident_lookahead() {
+            Some(&LookaheadResult {
+                line: false,
+                token: tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen),
+            }) => self.is_keyword("async"),
+            _ => false,
+        };
+
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
@@ -434,7 +452,15 @@ where
                     // eat_value!(self.punc(tokens::PunctuatorToken::Period));
                     eat_value!(self.with(Flag::In).identifier());
                 }
-                LeftType::Call if allow_call => eat_value!(self.parse_call_arguments()?),
+                LeftType::Call if allow_call => {
+                    let is_async_call = maybe_async_call && self.popped == start + 1;
+
+                    eat_value!(self.parse_call_arguments()?);
+
+                    if is_async_call {
+                        self.async_call = Some((start, self.popped));
+                    }
+                }
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7ba4c38..746588d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -40,6 +40,9 @@ impl FromTokenizer for Test {
             tokens: Default::default(),
             index: 0,
             count: 0,
+            popped: 0,
+
+            async_call: None,
         };
 
         p.parse_module().unwrap();
@@ -60,6 +63,9 @@ impl FromTokenizer for () {
             tokens: Default::default(),
             index: 0,
             count: 0,
+            popped: 0,
+
+            async_call: None,
         };
 
         println!("starting");
@@ -188,6 +194,13 @@ where
     index: u8,
     count: u8,
 
+    // The number of tokens that have been consumed.
+    popped: usize,
+
+    // The tokens of the last call of the form "async(foo)", which are the
+    // head of an async arrow function if an arrow comes next.
+    async_call: Option<(usize, usize)>,
+
     // Track first location of non-object-literal single-name assignment
     // { foo = 4 } = {} -> allowed in patterns, not objects
     // cover_pattern
@@ -290,6 +303,7 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
 
         self.index = (self.index + 1) % 2;
         self.count -= 1;
+        self.popped += 1;
 
         // println!("{:?} {} {} => {:?}", tok, self.count, self.index, self.tokens);
 
@@ -494,6 +508,13 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         }
     }
 
+    fn is_keyword(&mut self, keyword: &'static str) -> bool {
+        match *self.token() {
+            tokens::Token::IdentifierName(ref v) => &v.name == keyword,
+            _ => false,
+        }
+    }
+
     pub fn identifier(&mut self) -> TokenResult<tokens::IdentifierNameToken<'code>> {
         let same = match *self.token() {
             tokens::Token::IdentifierName(_) => { true }
-- 
2.43.0


From ca696d06fdf4f4dbadc08f2badec26550cd3ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 25/56] fix: end throw statements like other statements, with
 an operand on the same line

---
 src/parser/statements.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index c503be7..18a3c93 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -676,10 +676,13 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
-        if self.no_line_terminator() {
-            self.expect_expression();
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        self.expect_expression();
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From dde5cf7cb5bbbb63f62a7a34458afbaa9df6ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 26/56] fix: require a catch or finally clause in try
 statements

---
 src/parser/statements.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 18a3c93..6f7b7b5 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -692,7 +692,7 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
-        if let TokenResult::Some(_) = self.keyword("catch") {
+        let has_catch = if let TokenResult::Some(_) = self.keyword("catch") {
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -702,11 +702,16 @@ where
             eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
             eat_value!(self.parse_block_statement()?);
-        }
+            true
+        } else {
+            false
+        };
 
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
+        } else if !has_catch {
+            bail!("Expected a catch or finally clause");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From aa0c77809df28f596b1b9add7fad3acfb5085955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 27/56] fix: do not take reserved words as labels

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 6f7b7b5..2b835b9 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -663,7 +663,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From 4ce642aeceebb89d586f484817c4ba083700b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 28/56] fix: parse several spread arguments in a row

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4ded606..a435807 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -492,6 +492,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From b57370670c88ed41ef2e5ffb8437bbf99c122df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 29/56] fix: parse new.target

---
 src/parser/expressions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a435807..6b1dbf0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -416,11 +416,12 @@ where
 
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::None = self.parse_meta_property_expression()? {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_meta_property_expression()?,
                 self.parse_super_expression()?,
             ) {
                 return Ok(TokenResult::None);
@@ -514,8 +515,7 @@ where
     }
 
     fn parse_meta_property_expression(&mut self) -> OptResult<()> {
-        try_value!(self.keyword("new"));
-        eat_value!(self.punc(tokens::PunctuatorToken::Period));
+        try_value!(self.punc(tokens::PunctuatorToken::Period));
         eat_value!(self.keyword("target"));
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From c9f39449952c791c2e70849141ae7f331d1ddeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 30/56] fix: parse the name, heritage and body of class
 expressions

---
 src/parser/classes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 2bc64a9..28bf8ca 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,12 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        let _id = opt_value!(self.binding_identifier());
+
+        let _parent = opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From cbc032f86f1b7aa2242299ae38f51f4c0a2feb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 31/56] fix: require a single expression and names in nested
 declarations after export default

---
 src/parser/classes.rs   | 7 +++++--
 src/parser/functions.rs | 9 ++++++---
 src/parser/module.rs    | 3 ++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 28bf8ca..cd9cd6a 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -15,9 +15,12 @@ where
             Some(eat_value!(self.binding_identifier()))
         };
 
-        let _parent = opt_value!(self.parse_class_heritage()?);
+        // Only the exported declaration itself can go without a name.
+        let mut parser = self.without(Flag::Default);
 
-        eat_value!(self.parse_class_body()?);
+        let _parent = opt_value!(parser.parse_class_heritage()?);
+
+        eat_value!(parser.parse_class_body()?);
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 2efcbc2..a4ff54b 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -34,19 +34,22 @@ where
             eat_value!(self.binding_identifier());
         }
 
+        // Only the exported declaration itself can go without a name.
+        let mut parser = self.without(Flag::Default);
+
         if maybe_async {
-            let mut parser = self.without(Flag::Yield);
+            let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let Some(_) = star {
-            let mut parser = self.without(Flag::Await);
+            let mut parser = parser.without(Flag::Await);
             let mut parser = parser.with(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
             eat_value!(parser.parse_function_body()?);
         } else {
-            let mut parser = self.without(Flag::Await);
+            let mut parser = parser.without(Flag::Await);
             let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
diff --git a/src/parser/module.rs b/src/parser/module.rs
index 1bdf126..f154696 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -69,7 +69,8 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                let mut parser = parser.without(Flag::Default);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
-- 
2.43.0


From c484c5450067a53d9df1691821ed66084d7ff351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 32/56] fix: parse exported classes and functions, and end
 exported variables once

---
 src/parser/module.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index f154696..b1dfa33 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -74,13 +74,14 @@ where
                 eat_value!(parser.semicolon());
             }
         } else {
+            // These end with a semicolon of their own, if they need one.
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
+                return Ok(TokenResult::Some(()));
+            } else if let TokenResult::Some(_) = self.parse_declaration()? {
+                return Ok(TokenResult::Some(()));
+            }
 
-            } else if let TokenResult::Some(_) = self.parse_let_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
             } else {
-- 
2.43.0


From 7e6833ab8035aa6be36d73c6594cebef7239bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 33/56] fix: parse async functions, and identifiers in front of
 a function on the next line

---
 src/parser/declarations.rs |  4 +++-
 src/parser/expressions.rs  | 23 ++++++++++-------------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..486ff89 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -13,6 +13,7 @@ where
         enum DeclType {
             Class,
             Function,
+            Async,
             Let,
             Const,
         }
@@ -21,8 +22,8 @@ where
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
                     "class" => DeclType::Class,
-                    // TODO: Async
                     "function" => DeclType::Function,
+                    "async" => DeclType::Async,
                     "let" => DeclType::Let,
                     "const" => DeclType::Const,
                     _ => return Ok(TokenResult::None),
@@ -34,6 +35,7 @@ where
         eat_value!(match t {
             DeclType::Class => self.parse_class_declaration()?,
             DeclType::Function => self.parse_function_declaration()?,
+            DeclType::Async => TokenResult::Some(try_value!(self.parse_function_declaration()?)),
             DeclType::Let => self.parse_let_declaration()?,
             DeclType::Const => self.parse_const_declaration()?,
         });
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6b1dbf0..ebb18f5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -547,6 +547,15 @@ where
 
         let flags = self.flags;
 
+        let maybe_async = if let Some(&LookaheadResult {
+            line: false,
+            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
+        }) = self.ident_lookahead() {
+            name == "function"
+        } else {
+            false
+        };
+
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
@@ -555,7 +564,7 @@ where
                     "false" => PrimaryType::False,
                     "null" => PrimaryType::Null,
 
-                    // TODO: Ignores async functions
+                    "async" if maybe_async => PrimaryType::Function,
                     "function" => PrimaryType::Function,
                     "class" => PrimaryType::Class,
                     _ => {
@@ -618,18 +627,6 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
-        }
-
         try_value!(self.reference_identifier());
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From bae196ae284ad3b80c01a93ec8abd9cecb6f3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 34/56] fix: tell methods named async, and reject generator
 accessors

---
 src/parser/classes.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index cd9cd6a..4d392d7 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -84,7 +84,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -94,10 +94,9 @@ where
             false
         };
 
-        let star = if async {
-            None
-        } else {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star))
+        let star = match kind {
+            MethodKind::None if !async => opt_value!(self.punc(tokens::PunctuatorToken::Star)),
+            _ => None,
         };
 
         let is_ident = false;
@@ -106,11 +105,13 @@ where
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
-- 
2.43.0


From 45ab9a5a62e15e670380ac953657b8a75ed070c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 35/56] fix: parse the properties of object literals as they
 are defined

---
 src/parser/classes.rs     | 27 +++++++++++++++++++++++++--
 src/parser/expressions.rs | 19 +++++++++++++------
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 4d392d7..86e60a4 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -99,19 +99,25 @@ where
             _ => None,
         };
 
-        let is_ident = false;
+        let flags = self.flags;
+        let mut is_ident = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
                 async = false;
+                is_ident = true;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
                 async = false;
+                is_ident = true;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -119,9 +125,11 @@ where
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
                         kind = MethodKind::None;
+                        is_ident = true;
                     }
                     (_, &MethodKind::Set, _) => {
                         kind = MethodKind::None;
+                        is_ident = true;
                     },
                     (&Some(_), _, _) => {
                         stat = None;
@@ -206,3 +214,18 @@ pub struct MethodHead {
     generator: bool,
     async: bool,
 }
+
+impl MethodHead {
+    // Just a name, with nothing in front of it.
+    pub fn is_plain(&self) -> bool {
+        match self.kind {
+            MethodKind::None => !self.generator && !self.async,
+            _ => false,
+        }
+    }
+
+    // Just a name that can also refer to a variable.
+    pub fn is_ident(&self) -> bool {
+        self.is_ident && self.is_plain()
+    }
+}
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ebb18f5..6a3ee1e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -688,7 +688,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
@@ -709,16 +710,22 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
+        let is_plain = head.is_plain();
+        let is_ident = head.is_ident();
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+            if !is_plain {
+                bail!("Unexpected value of a method");
+            }
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
+        } else if is_ident {
+            if let TokenResult::None = self.parse_method_tail(head)? {
+                opt_value!(self.parse_initializer()?);
+            }
         } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
-            opt_value!(self.parse_method_tail(head)?);
+            eat_value!(self.parse_method_tail(head)?);
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From ee12fc5aee3f5016365d6f8bf0afb81d34eb479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 36/56] fix: do not allow a line break in front of an arrow

---
 src/parser/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6a3ee1e..09636cc 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -81,8 +81,10 @@ where
             StarStarEq,
         }
 
+        let no_line = self.no_line_terminator();
+
         let t = match *self.token() {
-            tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => Reify::Arrow,
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) if no_line => Reify::Arrow,
             tokens::Token::Punctuator(tokens::PunctuatorToken::Eq) => Reify::Eq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::StarEq) => Reify::StarEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SlashEq) => Reify::SlashEq,
@@ -104,7 +106,6 @@ where
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
                 let async = self.async_call == Some((start, end));
                 self.reify_arrow(left, async)?
             }
-- 
2.43.0


From 248ba0d0601aefdc4db44bf8c0cba0476b8c5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 37/56] fix: parse a trailing comma in arrow parameters, and
 require an arrow after them

---
 src/parser/expressions.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 09636cc..48b0ec0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -771,6 +771,9 @@ where
 
         parser.expect_expression();
 
+        // Whether this can only be the parameters of an arrow function.
+        let mut only_params = false;
+
         if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
             while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                 parser.expect_expression();
@@ -779,8 +782,11 @@ where
                     } else {
                         eat_value!(parser.binding_identifier());
                     }
-                } else {
-                    eat_value!(parser.parse_assignment_expression()?)
+                    only_params = true;
+                    break;
+                } else if let TokenResult::None = parser.parse_assignment_expression()? {
+                    only_params = true;
+                    break;
                 }
             }
         } else {
@@ -790,10 +796,18 @@ where
                     eat_value!(parser.binding_identifier());
                 }
             }
+            only_params = true;
         }
 
         eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
+        if only_params {
+            match *parser.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => {}
+                _ => bail!("Expected an arrow after arrow function parameters"),
+            }
+        }
+
         Ok(TokenResult::Some(()))
     }
 }
-- 
2.43.0


From 24d0a4f0a8afda3dc9399d8f9be42350fb2c6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 38/56] fix: require an expression in computed property names

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 2b835b9..5c72ea0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -229,7 +229,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From c7ff4837c379cde243795669c2ce082c7724db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:56 +0000
Subject: [PATCH 39/56] fix: accept only identifiers as shorthand binding
 properties

---
 src/parser/statements.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5c72ea0..b4c2cf7 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -196,10 +196,18 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let is_ident = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
+        } else if !is_ident {
+            bail!("Expected a binding for the property");
         } else {
             opt_value!(self.with(Flag::In).parse_initializer()?);
         }
-- 
2.43.0


From 0da629f596a2539586f990f23815f1516b182d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 40/56] fix: reject reserved words as the local names of
 imports and exports

---
 src/parser/module.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index b1dfa33..ae3dc43 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -45,13 +45,13 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> OptResult<()> {
-        try_value!(self.identifier());
+        let flags = self.flags;
+        let name = try_value!(self.identifier());
 
         if let TokenResult::Some(_) = self.keyword("as") {
-            // TODO: Validate BindingIdentifier
-            eat_value!(self.identifier());
-        } else {
-            // TODO: Validate first is BindingIdentifier
+            eat_value!(self.binding_identifier());
+        } else if !is_binding_identifier(&flags, &name.name) {
+            bail!("Unexpected reserved word as an import name");
         }
 
         Ok(TokenResult::Some(()))
@@ -87,7 +87,9 @@ where
             } else {
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
-                while let TokenResult::Some(_) = self.parse_export_specifier()? {
+                let mut local = true;
+                while let TokenResult::Some(is_local) = self.parse_export_specifier()? {
+                    local = local && is_local;
                     if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
                         break;
                     }
@@ -97,8 +99,8 @@ where
 
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
-                } else {
-                    // TODO: Validate BindingIdentifier for local specifiers
+                } else if !local {
+                    bail!("Unexpected reserved word as the name of an exported variable");
                 }
             }
 
@@ -108,14 +110,17 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_export_specifier(&mut self) -> OptResult<()> {
-        try_value!(self.identifier());
+    // Whether the exported name can be the one of a local variable.
+    fn parse_export_specifier(&mut self) -> OptResult<bool> {
+        let flags = self.flags;
+        let name = try_value!(self.identifier());
+        let is_local = is_binding_identifier(&flags, &name.name);
 
         if let TokenResult::Some(_) = self.keyword("as") {
             eat_value!(self.identifier());
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(is_local))
     }
 }
 
-- 
2.43.0


From 7b743f9ffb0fa0863ed5ded487cd7dbf4a00199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 41/56] fix: parse default values of setter parameters

---
 src/parser/classes.rs    | 4 +---
 src/parser/statements.rs | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 86e60a4..38fbd62 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -166,9 +166,7 @@ where
 
                 try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = parser.parse_binding_pattern()? {
-                    eat_value!(parser.binding_identifier());
-                }
+                eat_value!(parser.parse_binding_element()?);
 
                 eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b4c2cf7..e1daf47 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -275,7 +275,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_binding_element(&mut self) -> OptResult<()> {
+    pub fn parse_binding_element(&mut self) -> OptResult<()> {
         if let TokenResult::None = self.parse_binding_pattern()? {
             try_value!(self.binding_identifier());
         }
-- 
2.43.0


From d77488c791fbce43d51565e6bd60c5373657dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 42/56] fix: accept and reject the heads of for loops as they
 are defined

---
 src/parser/statements.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e1daf47..22d2ba8 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -433,7 +433,7 @@ where
         } else {
             let (maybe_decl, bracket) = if let Some(&LookaheadResult { line: _line, ref token }) = self.ident_lookahead() {
                 match *token {
-                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in" && name != "of", false),
+                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in", false),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => (true, true),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => (true, false),
                     _ => (false, false),
@@ -464,7 +464,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
@@ -481,9 +481,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let left_hand = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, left_hand)
             }
         };
 
@@ -533,7 +533,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From f4415287a5aa50426bc2db98730aef9c3ec54acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 43/56] fix: reject function and class declarations as the body
 of a statement

---
 src/parser/statements.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 22d2ba8..739ce5d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -82,6 +82,9 @@ where
                     "throw" => StatementType::Throw,
                     "try" => StatementType::Try,
                     "debugger" => StatementType::Debugger,
+
+                    // An expression statement does not start with these.
+                    "function" | "class" => return Ok(TokenResult::None),
                     _ => StatementType::Unknown,
                 }
             }
@@ -301,6 +304,18 @@ where
     }
 
     fn parse_expression_statement(&mut self) -> OptResult<()> {
+        let is_async_function = match self.ident_lookahead() {
+            Some(&LookaheadResult {
+                line: false,
+                token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }),
+            }) => name == "function" && self.is_keyword("async"),
+            _ => false,
+        };
+
+        if is_async_function {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.with(Flag::In).parse_expression()?);
 
         eat_value!(self.semicolon());
-- 
2.43.0


From 2719d080535cf95a911a9e912d3e35f26b58a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 44/56] fix: reject return outside of functions, and with in
 strict code

---
 src/parser/expressions.rs | 2 +-
 src/parser/functions.rs   | 2 +-
 src/parser/statements.rs  | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 48b0ec0..cf594c0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -136,7 +136,7 @@ where
 
         parser.expect_expression();
 
-        if let TokenResult::Some(_) = parser.parse_block_statement()? {
+        if let TokenResult::Some(_) = parser.parse_function_body()? {
             // No operator can follow this.
             parser.expect_expression();
             return Ok(TokenResult::Some(()));
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index a4ff54b..b135d09 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -130,6 +130,6 @@ where
         Ok(TokenResult::Some(()))
     }
     pub fn parse_function_body(&mut self) -> OptResult<()> {
-        self.parse_block_statement()
+        self.with(Flag::Return).parse_block_statement()
     }
 }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 739ce5d..eaf7a51 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -652,6 +652,10 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        if !self.flags.allow_return {
+            bail!("Unexpected return outside of a function");
+        }
+
         self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.with(Flag::In).parse_expression()?);
@@ -665,6 +669,10 @@ where
     fn parse_with_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("with"));
 
+        if self.flags.is_strict {
+            bail!("Unexpected with statement in strict code");
+        }
+
         eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
         self.expect_expression();
         eat_value!(self.with(Flag::In).parse_expression()?);
-- 
2.43.0


From a508eaf0cedaa7773a430330dd69a85632b40a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 45/56] fix: reject a unary operator in the base of an
 exponentiation

---
 src/parser/expressions.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index cf594c0..346263f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -242,7 +242,7 @@ where
             if new_precedence >= precedence && new_precedence != 11 {
                 precedence = new_precedence;
 
-                eat_value!(self.parse_unary_expression()?);
+                eat_value!(self.parse_exponential_expression()?);
             } else {
                 eat_value!(self.parse_fancy(new_precedence)?);
             }
@@ -252,19 +252,21 @@ where
     }
 
     fn parse_exponential_expression(&mut self) -> OptResult<()> {
-        try_value!(self.parse_unary_expression()?);
+        let is_update = try_value!(self.parse_unary_expression()?);
 
-        // TODO:
-        // if is_update_expression(expr) {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
-                self.expect_expression();
-                eat_value!(self.parse_exponential_expression()?);
+        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
+            if !is_update {
+                bail!("Unexpected unary operator in the base of an exponentiation");
             }
-        // }
+
+            self.expect_expression();
+            eat_value!(self.parse_exponential_expression()?);
+        }
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_unary_expression(&mut self) -> OptResult<()> {
+    // Whether the expression does not start with a unary operator.
+    fn parse_unary_expression(&mut self) -> OptResult<bool> {
         enum UnaryType {
             Delete,
             Void,
@@ -305,10 +307,13 @@ where
             UnaryType::Tilde => eat_value!(self.parse_tilde_expression()?),
             UnaryType::Exclam => eat_value!(self.parse_exclam_expression()?),
             UnaryType::Await => eat_value!(self.parse_await_expression()?),
-            UnaryType::Unknown => try_value!(self.parse_update_expression()?),
+            UnaryType::Unknown => {
+                try_value!(self.parse_update_expression()?);
+                return Ok(TokenResult::Some(true));
+            }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(false))
     }
     fn parse_delete_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("delete"));
-- 
2.43.0


From 7f1e88d7d1f70f383bb1340e15b9525a8c6a6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 46/56] fix: read a slash after an export clause as a regular
 expression

---
 src/parser/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index ae3dc43..a7f0052 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -97,6 +97,8 @@ where
 
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyClose));
 
+                // No operator can follow this.
+                self.expect_expression();
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
                 } else if !local {
-- 
2.43.0


From 6f0aa65bc234c132adce31ad50c22a25a9e8d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 47/56] fix: do not take the end of a substitution as the start
 of a template

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 346263f..0999808 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -584,7 +584,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0


From 6f0a1c2320ee718c024165b47141402fda048599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:47 +0000
Subject: [PATCH 48/56] fix: do not allow yield and await in the parameters of
 generators and async functions

---
 src/parser/classes.rs   |  7 ++++---
 src/parser/functions.rs | 12 +++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 38fbd62..dd36bb8 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -174,16 +174,17 @@ where
             }
             MethodKind::None => {
                 if head.async {
-                    let mut parser = self.without(Flag::Yield);
+                    let mut parser = self.without(Flag::Await);
+                    let mut parser = parser.without(Flag::Yield);
 
                     try_value!(parser.parse_function_params()?);
                     eat_value!(parser.with(Flag::Await).parse_function_body()?);
                 } else if head.generator {
                     let mut parser = self.without(Flag::Await);
-                    let mut parser = parser.with(Flag::Yield);
+                    let mut parser = parser.without(Flag::Yield);
 
                     try_value!(parser.parse_function_params()?);
-                    eat_value!(parser.parse_function_body()?);
+                    eat_value!(parser.with(Flag::Yield).parse_function_body()?);
                 } else {
                     let mut parser = self.without(Flag::Await);
                     let mut parser = parser.without(Flag::Yield);
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index b135d09..44aef88 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -38,16 +38,17 @@ where
         let mut parser = self.without(Flag::Default);
 
         if maybe_async {
+            let mut parser = parser.without(Flag::Await);
             let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let Some(_) = star {
             let mut parser = parser.without(Flag::Await);
-            let mut parser = parser.with(Flag::Yield);
+            let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
-            eat_value!(parser.parse_function_body()?);
+            eat_value!(parser.with(Flag::Yield).parse_function_body()?);
         } else {
             let mut parser = parser.without(Flag::Await);
             let mut parser = parser.without(Flag::Yield);
@@ -83,16 +84,17 @@ where
         opt_value!(self.binding_identifier());
 
         if maybe_async {
-            let mut parser = self.without(Flag::Yield);
+            let mut parser = self.without(Flag::Await);
+            let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let TokenResult::Some(_) = star {
             let mut parser = self.without(Flag::Await);
-            let mut parser = parser.with(Flag::Yield);
+            let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
-            eat_value!(parser.parse_function_body()?);
+            eat_value!(parser.with(Flag::Yield).parse_function_body()?);
         } else {
             let mut parser = self.without(Flag::Await);
             let mut parser = parser.without(Flag::Yield);
-- 
2.43.0


From e18bc7d38530b6f412c7001ed90d2a99a676f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 49/56] fix: require a property or call after super

---
 src/parser/expressions.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 0999808..cb22f50 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -420,22 +420,28 @@ where
             _ => false,
         };
 
+        let mut is_super = false;
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
             if let TokenResult::None = self.parse_meta_property_expression()? {
                 eat_value!(self.parse_left_hand_expression(false)?);
             }
-        } else {
-            if let TokenResult::None = try_sequence!(
-                self.parse_primary_expression()?,
-                self.parse_super_expression()?,
-            ) {
-                return Ok(TokenResult::None);
-            }
+        } else if let TokenResult::None = self.parse_primary_expression()? {
+            try_value!(self.parse_super_expression()?);
+            is_super = true;
         }
 
         // println!("starting member");
 
+        if is_super {
+            match *self.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Period) |
+                tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => {}
+                tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen) if allow_call => {}
+                _ => bail!("Expected a property or call after super"),
+            }
+        }
+
         loop {
             enum LeftType {
                 Ident,
@@ -476,7 +482,6 @@ where
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
 
-                // TODO: Not allowed for 'super'.
                 LeftType::Template => eat_value!(self.parse_template_literal_expression()?),
                 _ => break,
             }
-- 
2.43.0


From 30dfb1768fea963bf0772d01b2fa32cc6e2ffe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 50/56] fix: reject invalid assignment targets

---
 src/parser/expressions.rs | 305 +++++++++++++++++++++++++++++---------
 src/parser/mod.rs         |   7 +-
 src/parser/statements.rs  |   9 +-
 3 files changed, 245 insertions(+), 76 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index cb22f50..44450ac 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,13 +1,60 @@
 use tokenizer::{Tokenizer, tokens};
 use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
+use std::mem::replace;
+
+// What an expression can be used as, besides its value.
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
+pub struct Cover {
+    // A variable or property, which can be assigned to.
+    is_target: bool,
+
+    // An array or object literal that can be destructured into.
+    is_pattern: bool,
+
+    // A target or pattern, followed by "=" and a value.
+    is_initialized: bool,
+}
+
+impl Cover {
+    fn target() -> Cover {
+        Cover { is_target: true, ..Default::default() }
+    }
+
+    // The left side of an "=", or the target of a for-in or for-of loop.
+    pub fn is_assignable(&self) -> bool {
+        self.is_target || self.is_pattern
+    }
+
+    // An element of a pattern.
+    fn is_element(&self) -> bool {
+        self.is_assignable() || self.is_initialized
+    }
+}
 
 impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
 {
     pub fn parse_left_hand_side_expression(&mut self) -> OptResult<()> {
-        self.parse_left_hand_expression(true)
+        self.as_value(|p| p.parse_left_hand_expression(true))
+    }
+
+    // Run a parsing function for an expression that is used for its value only.
+    fn as_value<F>(&mut self, op: F) -> OptResult<()>
+    where
+        F: FnOnce(&mut Self) -> OptResult<Cover>
+    {
+        let outer = replace(&mut self.cover_initializer, false);
+
+        try_value!(op(self)?);
+
+        if self.cover_initializer {
+            bail!("Unexpected initializer in an object literal");
+        }
+        self.cover_initializer = outer;
+
+        Ok(TokenResult::Some(()))
     }
 
     pub fn parse_expression(&mut self) -> OptResult<()> {
@@ -21,9 +68,43 @@ where
 
         Ok(TokenResult::Some(()))
     }
+
+    // The start of a for loop, which is either an expression or the target of
+    // a for-in or for-of loop.
+    pub fn parse_for_expression(&mut self) -> OptResult<Cover> {
+        let mut cover = try_value!(self.parse_assignment_or_pattern()?);
+
+        while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
+            cover = Default::default();
+            self.expect_expression();
+            eat_value!(self.parse_assignment_expression()?);
+        }
+
+        let is_target = cover.is_assignable() && (self.is_keyword("in") || self.is_keyword("of"));
+        if replace(&mut self.cover_initializer, false) && !is_target {
+            bail!("Unexpected initializer in an object literal");
+        }
+
+        Ok(TokenResult::Some(cover))
+    }
+
     pub fn parse_assignment_expression(&mut self) -> OptResult<()> {
+        self.as_value(|p| p.parse_assignment_or_pattern())
+    }
+
+    // An expression that may turn out to be part of a pattern or of the
+    // parameters of an arrow function. Initializers in object literals that
+    // are only valid there are left to the caller.
+    fn parse_assignment_or_pattern(&mut self) -> OptResult<Cover> {
+        let outer = replace(&mut self.cover_initializer, false);
+        let cover = try_value!(self.parse_assignment_or_pattern_inner()?);
+        self.cover_initializer |= outer;
+
+        Ok(TokenResult::Some(cover))
+    }
+    fn parse_assignment_or_pattern_inner(&mut self) -> OptResult<Cover> {
         if let TokenResult::Some(_) = self.parse_yield_expression()? {
-            return Ok(TokenResult::Some(()));
+            return Ok(TokenResult::Some(Default::default()));
         }
 
         let flags = self.flags;
@@ -52,9 +133,9 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow((), true)?);
+                eat_value!(self.reify_arrow(true)?);
 
-                return Ok(TokenResult::Some(()));
+                return Ok(TokenResult::Some(Default::default()));
             }
         }
 
@@ -98,16 +179,23 @@ where
             tokens::Token::Punctuator(tokens::PunctuatorToken::CaretEq) => Reify::CaretEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::BarEq) => Reify::BarEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::StarStarEq) => Reify::StarStarEq,
-            _ => return Ok(TokenResult::Some(())),
+            _ => return Ok(TokenResult::Some(left)),
         };
 
         let end = self.popped;
         self.pop();
 
+        self.cover_initializer = false;
+
+        let is_initialized = match t {
+            Reify::Eq => true,
+            _ => false,
+        };
+
         eat_value!(match t {
             Reify::Arrow => {
                 let async = self.async_call == Some((start, end));
-                self.reify_arrow(left, async)?
+                self.reify_arrow(async)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -124,9 +212,9 @@ where
             Reify::StarStarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarStarEq)?,
         });
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Cover { is_initialized, ..Default::default() }))
     }
-    fn reify_arrow(&mut self, _left: (), async: bool) -> OptResult<()> {
+    fn reify_arrow(&mut self, async: bool) -> OptResult<()> {
         let mut parser = self.without(Flag::Yield);
         let mut parser = if async {
             parser.with(Flag::Await)
@@ -144,7 +232,15 @@ where
 
         parser.parse_assignment_expression()
     }
-    fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
+    fn reify_assignment(&mut self, left: Cover, op: tokens::PunctuatorToken) -> OptResult<()> {
+        let is_valid = match op {
+            tokens::PunctuatorToken::Eq => left.is_assignable(),
+            _ => left.is_target,
+        };
+        if !is_valid {
+            bail!("Invalid target of an assignment");
+        }
+
         self.expect_expression();
 
         // println!("starting expr");
@@ -174,8 +270,8 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_conditional_expression(&mut self) -> OptResult<()> {
-        try_value!(self.parse_logical_or_expression()?);
+    fn parse_conditional_expression(&mut self) -> OptResult<Cover> {
+        let mut cover = try_value!(self.parse_logical_or_expression()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Question) {
             self.expect_expression();
@@ -184,15 +280,17 @@ where
 
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
+
+            cover = Default::default();
         }
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(cover))
     }
 
-    fn parse_logical_or_expression(&mut self) -> OptResult<()> {
+    fn parse_logical_or_expression(&mut self) -> OptResult<Cover> {
         self.parse_fancy(0)
     }
-    fn parse_fancy(&mut self, mut precedence: u8) -> OptResult<()> {
-        try_value!(self.parse_exponential_expression()?);
+    fn parse_fancy(&mut self, mut precedence: u8) -> OptResult<Cover> {
+        let mut cover = try_value!(self.parse_exponential_expression()?);
 
         let allow_in = self.flags.allow_in;
 
@@ -232,6 +330,7 @@ where
             };
 
             self.pop();
+            cover = Default::default();
 
             self.expect_expression();
 
@@ -248,11 +347,11 @@ where
             }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(cover))
     }
 
-    fn parse_exponential_expression(&mut self) -> OptResult<()> {
-        let is_update = try_value!(self.parse_unary_expression()?);
+    fn parse_exponential_expression(&mut self) -> OptResult<Cover> {
+        let (is_update, mut cover) = try_value!(self.parse_unary_expression()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
             if !is_update {
@@ -261,12 +360,14 @@ where
 
             self.expect_expression();
             eat_value!(self.parse_exponential_expression()?);
+
+            cover = Default::default();
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(cover))
     }
-    // Whether the expression does not start with a unary operator.
-    fn parse_unary_expression(&mut self) -> OptResult<bool> {
+    // The first value is whether the expression does not start with a unary operator.
+    fn parse_unary_expression(&mut self) -> OptResult<(bool, Cover)> {
         enum UnaryType {
             Delete,
             Void,
@@ -308,12 +409,12 @@ where
             UnaryType::Exclam => eat_value!(self.parse_exclam_expression()?),
             UnaryType::Await => eat_value!(self.parse_await_expression()?),
             UnaryType::Unknown => {
-                try_value!(self.parse_update_expression()?);
-                return Ok(TokenResult::Some(true));
+                let cover = try_value!(self.parse_update_expression()?);
+                return Ok(TokenResult::Some((true, cover)));
             }
         }
 
-        Ok(TokenResult::Some(false))
+        Ok(TokenResult::Some((false, Default::default())))
     }
     fn parse_delete_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("delete"));
@@ -384,7 +485,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_update_expression(&mut self) -> OptResult<()> {
+    fn parse_update_expression(&mut self) -> OptResult<Cover> {
         let op = if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {
             true
         } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::MinusMinus) {
@@ -393,24 +494,35 @@ where
             false
         };
 
-        if op {
+        let cover = if op {
             self.expect_expression();
-            eat_value!(self.parse_update_expression()?);
+            eat_value!(self.parse_left_hand_expression(true)?)
         } else {
-            try_value!(self.parse_left_hand_expression(true)?);
+            let cover = try_value!(self.parse_left_hand_expression(true)?);
 
-            if self.no_line_terminator() {
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {
-
-                } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::MinusMinus) {
+            let op = if !self.no_line_terminator() {
+                false
+            } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {
+                true
+            } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::MinusMinus) {
+                true
+            } else {
+                false
+            };
 
-                }
+            if !op {
+                return Ok(TokenResult::Some(cover));
             }
+            cover
+        };
+
+        if !cover.is_target {
+            bail!("Invalid target of an update");
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Default::default()))
     }
-    fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
+    fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<Cover> {
         let start = self.popped;
         let maybe_async_call = match self.ident_lookahead() {
             Some(&LookaheadResult {
@@ -421,12 +533,15 @@ where
         };
 
         let mut is_super = false;
+        let mut cover = Cover::default();
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
             if let TokenResult::None = self.parse_meta_property_expression()? {
                 eat_value!(self.parse_left_hand_expression(false)?);
             }
-        } else if let TokenResult::None = self.parse_primary_expression()? {
+        } else if let TokenResult::Some(primary) = self.parse_primary_expression()? {
+            cover = primary;
+        } else {
             try_value!(self.parse_super_expression()?);
             is_super = true;
         }
@@ -460,19 +575,23 @@ where
             };
 
             match t {
+                LeftType::Call if !allow_call => break,
+                _ if self.cover_initializer => bail!("Unexpected initializer in an object literal"),
                 LeftType::Ident => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::Period));
                     eat_value!(self.with(Flag::In).identifier());
+                    cover = Cover::target();
                 }
-                LeftType::Call if allow_call => {
+                LeftType::Call => {
                     let is_async_call = maybe_async_call && self.popped == start + 1;
 
-                    eat_value!(self.parse_call_arguments()?);
+                    eat_value!(self.parse_call_arguments(is_async_call)?);
 
                     if is_async_call {
                         self.async_call = Some((start, self.popped));
                     }
+                    cover = Default::default();
                 }
                 LeftType::Computed => {
                     self.pop();
@@ -480,18 +599,22 @@ where
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
+                    cover = Cover::target();
                 },
 
-                LeftType::Template => eat_value!(self.parse_template_literal_expression()?),
-                _ => break,
+                LeftType::Template => {
+                    eat_value!(self.parse_template_literal_expression()?);
+                    cover = Default::default();
+                }
             }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(cover))
     }
 
 
-    fn parse_call_arguments(&mut self) -> OptResult<()> {
+    // The arguments of "async" may be the parameters of an arrow function.
+    fn parse_call_arguments(&mut self, is_async: bool) -> OptResult<()> {
         let mut parser = self.with(Flag::In);
 
         try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
@@ -501,7 +624,7 @@ where
 
             if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
                 parser.expect_expression();
-                eat_value!(parser.parse_assignment_expression()?);
+                eat_value!(parser.parse_argument(is_async)?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                     continue;
@@ -510,7 +633,7 @@ where
                 }
             }
 
-            if let TokenResult::Some(_) = parser.parse_assignment_expression()? {
+            if let TokenResult::Some(_) = parser.parse_argument(is_async)? {
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                 } else {
                     break;
@@ -525,6 +648,14 @@ where
         Ok(TokenResult::Some(()))
     }
 
+    fn parse_argument(&mut self, is_async: bool) -> OptResult<Cover> {
+        if is_async {
+            self.parse_assignment_or_pattern()
+        } else {
+            Ok(self.parse_assignment_expression()?.map(|_| Default::default()))
+        }
+    }
+
     fn parse_meta_property_expression(&mut self) -> OptResult<()> {
         try_value!(self.punc(tokens::PunctuatorToken::Period));
         eat_value!(self.keyword("target"));
@@ -537,7 +668,7 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_primary_expression(&mut self) -> OptResult<()> {
+    fn parse_primary_expression(&mut self) -> OptResult<Cover> {
         enum PrimaryType {
             This,
             Ident,
@@ -600,22 +731,25 @@ where
 
         match t {
             PrimaryType::This => eat_value!(self.parse_this_expression()?),
-            PrimaryType::Ident => eat_value!(self.parse_identifier_reference_expression()?),
+            PrimaryType::Ident => {
+                eat_value!(self.parse_identifier_reference_expression()?);
+                return Ok(TokenResult::Some(Cover::target()));
+            }
             PrimaryType::Number => eat_value!(self.parse_numeric_expression()?),
             PrimaryType::String => eat_value!(self.parse_string_expression()?),
             PrimaryType::True => eat_value!(self.parse_true_expression()?),
             PrimaryType::False => eat_value!(self.parse_false_expression()?),
             PrimaryType::Null => eat_value!(self.parse_null_expression()?),
-            PrimaryType::Array => eat_value!(self.parse_array_literal_expression()?),
-            PrimaryType::Object => eat_value!(self.parse_object_literal_expression()?),
+            PrimaryType::Array => return self.parse_array_literal_expression(),
+            PrimaryType::Object => return self.parse_object_literal_expression(),
             PrimaryType::Regex => eat_value!(self.parse_regular_expression_literal_expression()?),
             PrimaryType::Template => eat_value!(self.parse_template_literal_expression()?),
-            PrimaryType::Paren => eat_value!(self.parse_cover_parenthesized_expression()?),
+            PrimaryType::Paren => return self.parse_cover_parenthesized_expression(),
             PrimaryType::Function => eat_value!(self.parse_function_expression()?),
             PrimaryType::Class => eat_value!(self.parse_class_expression()?),
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Default::default()))
 
 
 
@@ -677,49 +811,69 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_array_literal_expression(&mut self) -> OptResult<()> {
+    fn parse_array_literal_expression(&mut self) -> OptResult<Cover> {
         let mut parser = self.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::SquareOpen));
 
+        let mut is_pattern = true;
         loop {
-            if let TokenResult::Some(_) = parser.parse_array_item()? {
+            let is_rest = match *parser.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Ellipsis) => true,
+                _ => false,
+            };
+
+            if let TokenResult::Some(item) = parser.parse_array_item()? {
+                is_pattern &= if is_rest { item.is_assignable() } else { item.is_element() };
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
+
+            // Nothing can follow the rest element.
+            is_pattern &= !is_rest;
         }
 
         eat_value!(parser.punc(tokens::PunctuatorToken::SquareClose));
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Cover { is_pattern, ..Default::default() }))
     }
-    fn parse_object_literal_expression(&mut self) -> OptResult<()> {
+    fn parse_object_literal_expression(&mut self) -> OptResult<Cover> {
         let mut parser = self.without(Flag::Template);
         let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
+        let mut is_pattern = true;
         loop {
-            if let TokenResult::None = parser.parse_object_property()? {
+            let is_rest = match *parser.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Ellipsis) => true,
+                _ => false,
+            };
+
+            if let TokenResult::Some(property) = parser.parse_object_property()? {
+                is_pattern &= if is_rest { property.is_target } else { property.is_element() };
+            } else {
                 break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
+
+            // Nothing can follow the rest property.
+            is_pattern &= !is_rest;
         }
 
         eat_value!(parser.punc(tokens::PunctuatorToken::CurlyClose));
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Cover { is_pattern, ..Default::default() }))
     }
 
-    fn parse_object_property(&mut self) -> OptResult<()> {
+    fn parse_object_property(&mut self) -> OptResult<Cover> {
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
-            return Ok(TokenResult::Some(()));
+            return self.parse_element();
         }
 
         let head = try_value!(self.parse_method_head(false)?);
@@ -731,25 +885,31 @@ where
                 bail!("Unexpected value of a method");
             }
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            return self.parse_element();
         } else if is_ident {
             if let TokenResult::None = self.parse_method_tail(head)? {
-                opt_value!(self.parse_initializer()?);
+                if let TokenResult::Some(_) = self.parse_initializer()? {
+                    // Only a pattern can have it.
+                    self.cover_initializer = true;
+                }
+                return Ok(TokenResult::Some(Cover::target()));
             }
         } else {
             eat_value!(self.parse_method_tail(head)?);
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Default::default()))
     }
-    fn parse_array_item(&mut self) -> OptResult<()> {
+    fn parse_array_item(&mut self) -> OptResult<Cover> {
         self.expect_expression();
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
-        } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
+            return self.parse_element();
         }
-        Ok(TokenResult::Some(()))
+        self.parse_assignment_or_pattern()
+    }
+    fn parse_element(&mut self) -> OptResult<Cover> {
+        Ok(TokenResult::Some(eat_value!(self.parse_assignment_or_pattern()?)))
     }
 
     fn parse_regular_expression_literal_expression(&mut self) -> OptResult<()> {
@@ -776,7 +936,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
+    fn parse_cover_parenthesized_expression(&mut self) -> OptResult<Cover> {
         let mut parser = self.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
@@ -785,8 +945,13 @@ where
         // Whether this can only be the parameters of an arrow function.
         let mut only_params = false;
 
-        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+        let mut is_target = false;
+
+        if let Some(first) = opt_value!(parser.parse_assignment_or_pattern()?) {
+            is_target = first.is_target;
+
             while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                is_target = false;
                 parser.expect_expression();
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
                     if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
@@ -795,7 +960,7 @@ where
                     }
                     only_params = true;
                     break;
-                } else if let TokenResult::None = parser.parse_assignment_expression()? {
+                } else if let TokenResult::None = parser.parse_assignment_or_pattern()? {
                     only_params = true;
                     break;
                 }
@@ -819,6 +984,6 @@ where
             }
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(Cover { is_target, ..Default::default() }))
     }
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 746588d..b61da50 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -43,6 +43,7 @@ impl FromTokenizer for Test {
             popped: 0,
 
             async_call: None,
+            cover_initializer: false,
         };
 
         p.parse_module().unwrap();
@@ -66,6 +67,7 @@ impl FromTokenizer for () {
             popped: 0,
 
             async_call: None,
+            cover_initializer: false,
         };
 
         println!("starting");
@@ -201,10 +203,9 @@ where
     // head of an async arrow function if an arrow comes next.
     async_call: Option<(usize, usize)>,
 
-    // Track first location of non-object-literal single-name assignment
+    // Whether the current expression has an object literal with an initializer
     // { foo = 4 } = {} -> allowed in patterns, not objects
-    // cover_pattern
-
+    cover_initializer: bool,
 
     // Track if there was a rest element in the expression
     // cover_arrow_formal
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index eaf7a51..886d885 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -494,9 +494,12 @@ where
             if let Some(decl) = decl {
                 decl
             } else {
-                // TODO: What to do here? If this is a LeftHandSideExpression,
-                // the for can be any type, otherwise it _must_ be 'ForStatement'
-                let left_hand = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
+                // If this is the target of an assignment, the for can be any type,
+                // otherwise it _must_ be 'ForStatement'
+                let left_hand = match self.without(Flag::In).parse_for_expression()? {
+                    TokenResult::Some(cover) => cover.is_assignable(),
+                    TokenResult::None => false,
+                };
 
                 ("expression", false, false, false, false, left_hand)
             }
-- 
2.43.0


From 35ce042cc3dc683f1e054ba895732d5c27200776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 51/56] fix: reject invalid arrow function heads

---
 src/parser/expressions.rs | 86 ++++++++++++++++++++++++++++-----------
 src/parser/functions.rs   |  6 ++-
 src/parser/mod.rs         | 11 ++---
 3 files changed, 74 insertions(+), 29 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 44450ac..cf38196 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -14,6 +14,12 @@ pub struct Cover {
 
     // A target or pattern, followed by "=" and a value.
     is_initialized: bool,
+
+    // A name, or a pattern with nothing but names for its targets.
+    is_binding: bool,
+
+    // The parameters of an arrow function.
+    is_params: bool,
 }
 
 impl Cover {
@@ -21,6 +27,10 @@ impl Cover {
         Cover { is_target: true, ..Default::default() }
     }
 
+    fn name() -> Cover {
+        Cover { is_target: true, is_binding: true, is_params: true, ..Default::default() }
+    }
+
     // The left side of an "=", or the target of a for-in or for-of loop.
     pub fn is_assignable(&self) -> bool {
         self.is_target || self.is_pattern
@@ -30,6 +40,11 @@ impl Cover {
     fn is_element(&self) -> bool {
         self.is_assignable() || self.is_initialized
     }
+
+    // The rest element of the parameters of a function.
+    fn is_binding_rest(&self) -> bool {
+        self.is_binding && !self.is_initialized
+    }
 }
 
 impl<'code, T> Parser<'code, T>
@@ -46,15 +61,13 @@ where
         F: FnOnce(&mut Self) -> OptResult<Cover>
     {
         let outer = replace(&mut self.cover_initializer, false);
+        let result = op(self)?;
 
-        try_value!(op(self)?);
-
-        if self.cover_initializer {
+        if replace(&mut self.cover_initializer, outer) {
             bail!("Unexpected initializer in an object literal");
         }
-        self.cover_initializer = outer;
 
-        Ok(TokenResult::Some(()))
+        Ok(result.map(|_| ()))
     }
 
     pub fn parse_expression(&mut self) -> OptResult<()> {
@@ -97,10 +110,10 @@ where
     // are only valid there are left to the caller.
     fn parse_assignment_or_pattern(&mut self) -> OptResult<Cover> {
         let outer = replace(&mut self.cover_initializer, false);
-        let cover = try_value!(self.parse_assignment_or_pattern_inner()?);
+        let result = self.parse_assignment_or_pattern_inner()?;
         self.cover_initializer |= outer;
 
-        Ok(TokenResult::Some(cover))
+        Ok(result)
     }
     fn parse_assignment_or_pattern_inner(&mut self) -> OptResult<Cover> {
         if let TokenResult::Some(_) = self.parse_yield_expression()? {
@@ -195,6 +208,9 @@ where
         eat_value!(match t {
             Reify::Arrow => {
                 let async = self.async_call == Some((start, end));
+                if !(left.is_params || async) || self.last_suspension > start {
+                    bail!("Invalid parameters of an arrow function");
+                }
                 self.reify_arrow(async)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
@@ -212,7 +228,9 @@ where
             Reify::StarStarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarStarEq)?,
         });
 
-        Ok(TokenResult::Some(Cover { is_initialized, ..Default::default() }))
+        let is_binding = is_initialized && left.is_binding;
+
+        Ok(TokenResult::Some(Cover { is_initialized, is_binding, ..Default::default() }))
     }
     fn reify_arrow(&mut self, async: bool) -> OptResult<()> {
         let mut parser = self.without(Flag::Yield);
@@ -230,7 +248,11 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        parser.parse_assignment_expression()
+        let outer = parser.last_suspension;
+        try_value!(parser.parse_assignment_expression()?);
+        parser.last_suspension = outer;
+
+        Ok(TokenResult::Some(()))
     }
     fn reify_assignment(&mut self, left: Cover, op: tokens::PunctuatorToken) -> OptResult<()> {
         let is_valid = match op {
@@ -256,6 +278,7 @@ where
         }
 
         try_value!(self.keyword("yield"));
+        self.last_suspension = self.popped;
 
         self.expect_expression();
         if self.no_line_terminator() {
@@ -479,6 +502,7 @@ where
         }
 
         try_value!(self.keyword("await"));
+        self.last_suspension = self.popped;
 
         self.expect_expression();
         eat_value!(self.parse_unary_expression()?);
@@ -586,9 +610,9 @@ where
                 LeftType::Call => {
                     let is_async_call = maybe_async_call && self.popped == start + 1;
 
-                    eat_value!(self.parse_call_arguments(is_async_call)?);
+                    let is_params = eat_value!(self.parse_call_arguments(is_async_call)?);
 
-                    if is_async_call {
+                    if is_params {
                         self.async_call = Some((start, self.popped));
                     }
                     cover = Default::default();
@@ -613,27 +637,31 @@ where
     }
 
 
-    // The arguments of "async" may be the parameters of an arrow function.
-    fn parse_call_arguments(&mut self, is_async: bool) -> OptResult<()> {
+    // The arguments of "async" may be the parameters of an arrow function,
+    // in which case the result is true.
+    fn parse_call_arguments(&mut self, is_async: bool) -> OptResult<bool> {
         let mut parser = self.with(Flag::In);
 
         try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
+        let mut is_params = is_async;
         loop {
             parser.expect_expression();
 
             if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
                 parser.expect_expression();
-                eat_value!(parser.parse_argument(is_async)?);
+                is_params &= eat_value!(parser.parse_argument(is_async)?).is_binding_rest();
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    is_params = false;
                     continue;
                 } else {
                     break;
                 }
             }
 
-            if let TokenResult::Some(_) = parser.parse_argument(is_async)? {
+            if let TokenResult::Some(argument) = parser.parse_argument(is_async)? {
+                is_params &= argument.is_binding;
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                 } else {
                     break;
@@ -645,7 +673,7 @@ where
 
         eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(is_params))
     }
 
     fn parse_argument(&mut self, is_async: bool) -> OptResult<Cover> {
@@ -733,7 +761,7 @@ where
             PrimaryType::This => eat_value!(self.parse_this_expression()?),
             PrimaryType::Ident => {
                 eat_value!(self.parse_identifier_reference_expression()?);
-                return Ok(TokenResult::Some(Cover::target()));
+                return Ok(TokenResult::Some(Cover::name()));
             }
             PrimaryType::Number => eat_value!(self.parse_numeric_expression()?),
             PrimaryType::String => eat_value!(self.parse_string_expression()?),
@@ -816,7 +844,9 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::SquareOpen));
 
         let mut is_pattern = true;
+        let mut is_binding = true;
         loop {
+            parser.expect_expression();
             let is_rest = match *parser.token() {
                 tokens::Token::Punctuator(tokens::PunctuatorToken::Ellipsis) => true,
                 _ => false,
@@ -824,6 +854,7 @@ where
 
             if let TokenResult::Some(item) = parser.parse_array_item()? {
                 is_pattern &= if is_rest { item.is_assignable() } else { item.is_element() };
+                is_binding &= if is_rest { item.is_binding_rest() } else { item.is_binding };
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
@@ -836,7 +867,9 @@ where
 
         eat_value!(parser.punc(tokens::PunctuatorToken::SquareClose));
 
-        Ok(TokenResult::Some(Cover { is_pattern, ..Default::default() }))
+        is_binding &= is_pattern;
+
+        Ok(TokenResult::Some(Cover { is_pattern, is_binding, ..Default::default() }))
     }
     fn parse_object_literal_expression(&mut self) -> OptResult<Cover> {
         let mut parser = self.without(Flag::Template);
@@ -844,6 +877,7 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut is_pattern = true;
+        let mut is_binding = true;
         loop {
             let is_rest = match *parser.token() {
                 tokens::Token::Punctuator(tokens::PunctuatorToken::Ellipsis) => true,
@@ -852,6 +886,7 @@ where
 
             if let TokenResult::Some(property) = parser.parse_object_property()? {
                 is_pattern &= if is_rest { property.is_target } else { property.is_element() };
+                is_binding &= property.is_binding;
             } else {
                 break;
             }
@@ -866,7 +901,9 @@ where
 
         eat_value!(parser.punc(tokens::PunctuatorToken::CurlyClose));
 
-        Ok(TokenResult::Some(Cover { is_pattern, ..Default::default() }))
+        is_binding &= is_pattern;
+
+        Ok(TokenResult::Some(Cover { is_pattern, is_binding, ..Default::default() }))
     }
 
     fn parse_object_property(&mut self) -> OptResult<Cover> {
@@ -892,7 +929,7 @@ where
                     // Only a pattern can have it.
                     self.cover_initializer = true;
                 }
-                return Ok(TokenResult::Some(Cover::target()));
+                return Ok(TokenResult::Some(Cover::name()));
             }
         } else {
             eat_value!(self.parse_method_tail(head)?);
@@ -901,7 +938,6 @@ where
         Ok(TokenResult::Some(Default::default()))
     }
     fn parse_array_item(&mut self) -> OptResult<Cover> {
-        self.expect_expression();
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
             return self.parse_element();
@@ -946,9 +982,11 @@ where
         let mut only_params = false;
 
         let mut is_target = false;
+        let mut is_params = true;
 
         if let Some(first) = opt_value!(parser.parse_assignment_or_pattern()?) {
             is_target = first.is_target;
+            is_params = first.is_binding;
 
             while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                 is_target = false;
@@ -960,7 +998,9 @@ where
                     }
                     only_params = true;
                     break;
-                } else if let TokenResult::None = parser.parse_assignment_or_pattern()? {
+                } else if let TokenResult::Some(next) = parser.parse_assignment_or_pattern()? {
+                    is_params &= next.is_binding;
+                } else {
                     only_params = true;
                     break;
                 }
@@ -984,6 +1024,6 @@ where
             }
         }
 
-        Ok(TokenResult::Some(Cover { is_target, ..Default::default() }))
+        Ok(TokenResult::Some(Cover { is_target, is_params, ..Default::default() }))
     }
 }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 44aef88..c7ac16e 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -132,6 +132,10 @@ where
         Ok(TokenResult::Some(()))
     }
     pub fn parse_function_body(&mut self) -> OptResult<()> {
-        self.with(Flag::Return).parse_block_statement()
+        let outer = self.last_suspension;
+        try_value!(self.with(Flag::Return).parse_block_statement()?);
+        self.last_suspension = outer;
+
+        Ok(TokenResult::Some(()))
     }
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b61da50..0ab1be0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -44,6 +44,7 @@ impl FromTokenizer for Test {
 
             async_call: None,
             cover_initializer: false,
+            last_suspension: 0,
         };
 
         p.parse_module().unwrap();
@@ -68,6 +69,7 @@ impl FromTokenizer for () {
 
             async_call: None,
             cover_initializer: false,
+            last_suspension: 0,
         };
 
         println!("starting");
@@ -199,7 +201,7 @@ where
     // The number of tokens that have been consumed.
     popped: usize,
 
-    // The tokens of the last call of the form "async(foo)", which are the
+    // The tokens of the last call of the form "async(foo)" that are the
     // head of an async arrow function if an arrow comes next.
     async_call: Option<(usize, usize)>,
 
@@ -207,10 +209,9 @@ where
     // { foo = 4 } = {} -> allowed in patterns, not objects
     cover_initializer: bool,
 
-    // Track if there was a rest element in the expression
-    // cover_arrow_formal
-
-    // cover_async_arrow_formal
+    // The position of the last yield or await of the current function, which
+    // cannot be in the parameters of an arrow function.
+    last_suspension: usize,
 }
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
-- 
2.43.0


From 14877e88d72b80c97a0b4f301d8b6d3f315c7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 52/56] fix: give the first arguments to the innermost new

---
 src/parser/expressions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index cf38196..a114d0c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -562,6 +562,9 @@ where
             self.expect_expression();
             if let TokenResult::None = self.parse_meta_property_expression()? {
                 eat_value!(self.parse_left_hand_expression(false)?);
+
+                // The first arguments belong to the innermost "new".
+                opt_value!(self.parse_call_arguments(false)?);
             }
         } else if let TokenResult::Some(primary) = self.parse_primary_expression()? {
             cover = primary;
-- 
2.43.0


From 09b73a03c8cf1e04e61daed3021551bde6689f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:14 +0000
Subject: [PATCH 53/56] fix: do not allow eval and arguments as bindings or
 targets

---
 src/parser/classes.rs     | 13 ++++++++++++-
 src/parser/expressions.rs | 19 ++++++++++++++-----
 src/parser/mod.rs         | 33 +++++++++++++++++++++++++--------
 src/parser/module.rs      |  4 ++--
 src/parser/statements.rs  |  6 ++++--
 5 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index dd36bb8..0980d12 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, is_binding_identifier};
+use parser::{Parser, Flag, is_binding_identifier, is_restricted_name};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -104,6 +104,10 @@ where
             tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
             _ => false,
         };
+        let is_restricted = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_restricted_name(&flags, &v.name),
+            _ => false,
+        };
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
@@ -144,6 +148,7 @@ where
         Ok(TokenResult::Some(MethodHead {
             kind,
             is_ident,
+            is_restricted,
             generator: star.is_some(),
             async,
         }))
@@ -210,6 +215,7 @@ pub enum MethodKind {
 pub struct MethodHead {
     kind: MethodKind,
     is_ident: bool,
+    is_restricted: bool,
     generator: bool,
     async: bool,
 }
@@ -227,4 +233,9 @@ impl MethodHead {
     pub fn is_ident(&self) -> bool {
         self.is_ident && self.is_plain()
     }
+
+    // A name that cannot be assigned to.
+    pub fn is_restricted(&self) -> bool {
+        self.is_restricted
+    }
 }
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a114d0c..2c77f4f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier, is_restricted_name};
 use parser::utils::{OptResult, TokenResult};
 use std::mem::replace;
 
@@ -27,8 +27,12 @@ impl Cover {
         Cover { is_target: true, ..Default::default() }
     }
 
-    fn name() -> Cover {
-        Cover { is_target: true, is_binding: true, is_params: true, ..Default::default() }
+    fn name(restricted: bool) -> Cover {
+        if restricted {
+            Default::default()
+        } else {
+            Cover { is_target: true, is_binding: true, is_params: true, ..Default::default() }
+        }
     }
 
     // The left side of an "=", or the target of a for-in or for-of loop.
@@ -763,8 +767,12 @@ where
         match t {
             PrimaryType::This => eat_value!(self.parse_this_expression()?),
             PrimaryType::Ident => {
+                let is_restricted = match *self.token() {
+                    tokens::Token::IdentifierName(ref v) => is_restricted_name(&flags, &v.name),
+                    _ => false,
+                };
                 eat_value!(self.parse_identifier_reference_expression()?);
-                return Ok(TokenResult::Some(Cover::name()));
+                return Ok(TokenResult::Some(Cover::name(is_restricted)));
             }
             PrimaryType::Number => eat_value!(self.parse_numeric_expression()?),
             PrimaryType::String => eat_value!(self.parse_string_expression()?),
@@ -919,6 +927,7 @@ where
         let head = try_value!(self.parse_method_head(false)?);
         let is_plain = head.is_plain();
         let is_ident = head.is_ident();
+        let is_restricted = head.is_restricted();
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             if !is_plain {
@@ -932,7 +941,7 @@ where
                     // Only a pattern can have it.
                     self.cover_initializer = true;
                 }
-                return Ok(TokenResult::Some(Cover::name()));
+                return Ok(TokenResult::Some(Cover::name(is_restricted)));
             }
         } else {
             eat_value!(self.parse_method_tail(head)?);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0ab1be0..f7c11c7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -467,6 +467,21 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn binding_identifier(&mut self) -> TokenResult<tokens::IdentifierNameToken<'code>> {
         let flags = self.flags;
 
+        let restricted = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_restricted_name(&flags, &v.name),
+            _ => false
+        };
+
+        if restricted {
+            return TokenResult::None;
+        }
+
+        self.reference_identifier()
+    }
+
+    pub fn reference_identifier(&mut self) -> TokenResult<tokens::IdentifierNameToken<'code>> {
+        let flags = self.flags;
+
         let same = match *self.token() {
             tokens::Token::IdentifierName(ref v) if is_binding_identifier(&flags, &v.name) => { true }
             _ => false
@@ -483,12 +498,8 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         }
     }
 
-    pub fn reference_identifier(&mut self) -> TokenResult<tokens::IdentifierNameToken<'code>> {
-        self.binding_identifier()
-    }
-
     pub fn label_identifier(&mut self) -> TokenResult<tokens::IdentifierNameToken<'code>> {
-        self.binding_identifier()
+        self.reference_identifier()
     }
 
     pub fn keyword(&mut self, keyword: &'static str) -> TokenResult<tokens::IdentifierNameToken<'code>> {
@@ -583,10 +594,16 @@ where
     }
 }
 
-fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
-    // TODO: In strict mode specifically, 'arguments' and 'eval' aren't allowed as binding names,
-    // just labels and references.
+// In strict code these are not allowed as binding names and targets, just as
+// labels and references.
+fn is_restricted_name(flags: &GrammarFlags, s: &str) -> bool {
+    match s {
+        "arguments" | "eval" => flags.is_strict,
+        _ => false,
+    }
+}
 
+fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     match s {
         // Conditional keywords
         "yield" if flags.allow_yield || flags.is_strict => false,
diff --git a/src/parser/module.rs b/src/parser/module.rs
index a7f0052..3aedfb4 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, is_binding_identifier};
+use parser::{Parser, Flag, is_binding_identifier, is_restricted_name};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -50,7 +50,7 @@ where
 
         if let TokenResult::Some(_) = self.keyword("as") {
             eat_value!(self.binding_identifier());
-        } else if !is_binding_identifier(&flags, &name.name) {
+        } else if !is_binding_identifier(&flags, &name.name) || is_restricted_name(&flags, &name.name) {
             bail!("Unexpected reserved word as an import name");
         }
 
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 886d885..4b65fa4 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier, is_restricted_name};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -201,7 +201,9 @@ where
     fn parse_binding_property(&mut self) -> OptResult<()> {
         let flags = self.flags;
         let is_ident = match *self.token() {
-            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            tokens::Token::IdentifierName(ref v) => {
+                is_binding_identifier(&flags, &v.name) && !is_restricted_name(&flags, &v.name)
+            }
             _ => false,
         };
 
-- 
2.43.0


From 6f0cc31427581d4ef474b325592901ce759e9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 54/56] fix: do not allow variables to be deleted in strict
 code

---
 src/parser/expressions.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2c77f4f..691a770 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -20,6 +20,9 @@ pub struct Cover {
 
     // The parameters of an arrow function.
     is_params: bool,
+
+    // A variable, which cannot be deleted in strict code.
+    is_variable: bool,
 }
 
 impl Cover {
@@ -29,9 +32,9 @@ impl Cover {
 
     fn name(restricted: bool) -> Cover {
         if restricted {
-            Default::default()
+            Cover { is_variable: true, ..Default::default() }
         } else {
-            Cover { is_target: true, is_binding: true, is_params: true, ..Default::default() }
+            Cover { is_target: true, is_binding: true, is_params: true, is_variable: true, ..Default::default() }
         }
     }
 
@@ -448,7 +451,11 @@ where
 
         self.expect_expression();
 
-        eat_value!(self.parse_unary_expression()?);
+        let (_, operand) = eat_value!(self.parse_unary_expression()?);
+
+        if operand.is_variable && self.flags.is_strict {
+            bail!("Unexpected delete of a variable in strict code");
+        }
 
         Ok(TokenResult::Some(()))
     }
@@ -995,13 +1002,16 @@ where
 
         let mut is_target = false;
         let mut is_params = true;
+        let mut is_variable = false;
 
         if let Some(first) = opt_value!(parser.parse_assignment_or_pattern()?) {
             is_target = first.is_target;
             is_params = first.is_binding;
+            is_variable = first.is_variable;
 
             while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                 is_target = false;
+                is_variable = false;
                 parser.expect_expression();
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
                     if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
@@ -1036,6 +1046,6 @@ where
             }
         }
 
-        Ok(TokenResult::Some(Cover { is_target, is_params, ..Default::default() }))
+        Ok(TokenResult::Some(Cover { is_target, is_params, is_variable, ..Default::default() }))
     }
 }
-- 
2.43.0


From 2864e229c17a17f960bcfb209b4109e4132b6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:55 +0000
Subject: [PATCH 55/56] fix: do not fail on file names that are not UTF-8

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf44c77..25fa7b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -29,7 +29,7 @@ impl Drop for Framer {
 use std::fs::File;
 
 fn main() {
-    let mut it = std::env::args();
+    let mut it = std::env::args_os();
     let _name = it.next().unwrap();
     let filename = it.next().unwrap();
 
-- 
2.43.0


From 8cbb0445def76eedbb114aaee96e91d55a5a3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:04 +0000
Subject: [PATCH 56/56] fix: let tokenizers be copied instead of failing as not
 implemented

---
 src/tokenizer/slice.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 4745170..7ee745a 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -11,18 +11,12 @@ static NS_PS: &'static str = "\u{2029}";
 static WS_NBSP: &'static str = "\u{00A0}";
 static WS_ZWNBSP: &'static str = "\u{FEFF}";
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct SliceTokenizer<'code> {
     code: &'code str,
     position: Position,
 }
 
-impl<'code> Clone for SliceTokenizer<'code> {
-    fn clone(&self) -> Self {
-        unimplemented!()
-    }
-}
-
 fn eat_whitespace(code: &str, pos: &mut Position) {
     for c in code[pos.offset..].chars() {
         match c {
-- 
2.43.0

