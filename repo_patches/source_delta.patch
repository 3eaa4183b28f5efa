From 6d92d037f3067050add302494a72d353da8cca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 01/71] hook: name the tokenizer types under cfg(jsparse_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..a47e629 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,11 @@ pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
 
 pub mod parser;
+
+// Names for the types that the public `Tokenizer` trait already exposes, for
+// external verification harnesses. Only built with `--cfg jsparse_verif`.
+#[cfg(jsparse_verif)]
+pub mod verif_hooks {
+    pub use tokenizer::tokens;
+    pub use tokenizer::{Hint, Position, TokenRange};
+}
-- 
2.43.0


From c32b2fb10e91683ddccac222698c9052c6e45559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 02/71] fix: skip all the bytes of a no-break space or byte
 order mark

---
 src/tokenizer/slice.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..03260e7 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -25,22 +25,23 @@ impl<'code> Clone for SliceTokenizer<'code> {
 fn eat_whitespace(code: &str, pos: &mut Position) {
     let mut index = pos.offset;
 
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
+    while index < code.len() {
+        match code.as_bytes()[index] {
             b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
                 index += 1;
             }
             b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
+                index += WS_ZWNBSP.len();
             }
             b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+                index += WS_NBSP.len();
             }
             _ => break,
         }
+
+        pos.column += 1;
     }
 
-    pos.column += index - pos.offset;
     pos.offset = index;
 }
 
-- 
2.43.0


From e6ad971f9cb29300bae86de9b686db209c7d963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 03/71] fix: number lines from 1 as Position documents

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 03260e7..2097c97 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -103,7 +103,7 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position { line: 1, ..Position::default() },
         }
     }
 }
-- 
2.43.0


From f667ff8fc10cd711dcffdb59a14e7d65ed07fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 04/71] fix: count CR LF between tokens as one line

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 2097c97..1642e0f 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -318,6 +318,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From 6aba1af0f914d0cc12d95873da7843e5923bde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 05/71] fix: give hexadecimal letters their value

---
 src/tokenizer/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 1642e0f..48212c4 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -455,11 +455,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
-- 
2.43.0


From 3d6d57cb3b45cdb0f9e633c32e71fa636d3a0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 06/71] fix: check the first digit after 0x, 0o and 0b, and
 read 0. at the end of the text

---
 src/tokenizer/slice.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 48212c4..c595206 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -439,12 +439,12 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -466,14 +466,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
                 i += 1;
             }
+            if i == index + 2 {
+                panic!("numeric literal without digits");
+            }
 
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -490,14 +493,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
                 i += 1;
             }
+            if i == index + 2 {
+                panic!("numeric literal without digits");
+            }
 
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -514,6 +520,9 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
                 i += 1;
             }
+            if i == index + 2 {
+                panic!("numeric literal without digits");
+            }
 
             number(val, code[index..i].into(), token);
             i
-- 
2.43.0


From 6933428ee51205677cffde231d18622fd40413f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 07/71] fix: read the exponent of a literal such as 0e5

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index c595206..cbfa41c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -550,7 +550,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[index + 1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
-- 
2.43.0


From 41e4b7c51550aad9663cf3562c11656c4dd4cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 08/71] fix: refuse an exponent without digits

---
 src/tokenizer/slice.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index cbfa41c..764bca7 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -861,12 +861,12 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
 }
 
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
-    let b = if bytes.len() >= 2 { bytes[0] } else { 0 };
+    let b = if bytes.len() >= 1 { bytes[0] } else { 0 };
     let (offset, sign) = match b {
         b'e' | b'E' => {
-            match bytes[1] {
-                b'+' => (2, 1),
-                b'-' => (2, -1),
+            match bytes.get(1) {
+                Some(b'+') => (2, 1),
+                Some(b'-') => (2, -1),
                 _ => (1, 1),
             }
         }
@@ -890,6 +890,9 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
 
         i += 1;
     }
+    if i == offset {
+        panic!("exponent without digits");
+    }
 
     (sign * value, i)
 }
-- 
2.43.0


From d9035bab1b1db2d2f7ebacfb9a36882dd0c85eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 09/71] fix: do not overflow on large exponents

---
 src/tokenizer/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 764bca7..12d7007 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -880,7 +880,8 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         match bytes[i] {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
-                if val != 0 || value != 0 {
+                // Anything this large is already far beyond the range of a double.
+                if value < 100_000 {
                     value *= 10;
                     value += val;
                 }
-- 
2.43.0


From fb8e0930bd8cafdecab503a6fd557d5f8c0e2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 10/71] fix: zero with a large exponent is zero

---
 src/tokenizer/slice.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 12d7007..75adeb3 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -349,7 +349,7 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
     let (exp, num) = parse_exponent(&bytes[offset..]);
 
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        val = scale(val, exp);
         offset += num;
     }
 
@@ -426,7 +426,7 @@ fn tok_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> u
 
     let (exp, num) = parse_exponent(&bytes[offset..]);
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        val = scale(val, exp);
         offset += num;
     }
 
@@ -542,7 +542,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
             let (exp, num) = parse_exponent(&bytes[offset..]);
             if num != 0 {
-                val = val * 10f64.powi(exp);
+                val = scale(val, exp);
                 offset += num;
             }
 
@@ -860,6 +860,11 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
     (value, i)
 }
 
+fn scale(val: f64, exp: i32) -> f64 {
+    // Zero times an overflowing power would be NaN.
+    if val == 0f64 { val } else { val * 10f64.powi(exp) }
+}
+
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
     let b = if bytes.len() >= 1 { bytes[0] } else { 0 };
     let (offset, sign) = match b {
-- 
2.43.0


From 1fc90779b858a24c1009076ff82a335825de1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 11/71] fix: refuse a number that runs into a name or another
 number

---
 src/tokenizer/slice.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 75adeb3..bd1b7a0 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -163,7 +163,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
             if len > 2 && bytes[1] == b'.' && bytes[2] == b'.' {
                 punc(PunctuatorToken::Ellipsis, 3, token)
             } else if len > 1 && bytes[1] >= b'0' && bytes[1] <= b'9' {
-                tok_fractional(&code, token)
+                number_end(code, tok_fractional(&code, token))
             } else {
                 punc(PunctuatorToken::Period, 1, token)
             }
@@ -301,10 +301,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
             tok_str(t, code, token)
         }
         b'0' => {
-            tok_zero_num(code, token)
+            number_end(code, tok_zero_num(code, token))
         }
         b'1'...b'9' => {
-            tok_num(code, token)
+            number_end(code, tok_num(code, token))
         }
         b'`' => {
             tok_template_head(code, token)
@@ -336,6 +336,16 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
     }
 }
 
+// A numeric literal may not run into an identifier or another number.
+fn number_end(code: &str, size: usize) -> usize {
+    match code[size..].chars().next() {
+        Some(c) if c.is_alphanumeric() || c == '$' || c == '_' || c == '\\' => {
+            panic!("unexpected character after a number")
+        }
+        _ => size,
+    }
+}
+
 fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<'code>) -> usize {
     let bytes = code.as_bytes();
     let mut val = 0f64;
-- 
2.43.0


From b2f5731e63409ef258842f326275a4ef57e8c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 12/71] fix: refuse a character that starts no token

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index bd1b7a0..672205c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -386,6 +386,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        panic!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From 57f1d2695ac517cc1530ff967939ac3a340994db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 13/71] fix: refuse an unterminated string

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 672205c..50a305d 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -818,6 +818,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        panic!("unterminated string");
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From 847b75bf7b801446d8654f4a95bf7167a8dfac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 14/71] fix: accept escapes of ordinary characters in strings

---
 src/tokenizer/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 50a305d..ec46e74 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -756,7 +756,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    // Any other character stands for itself.
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From 409df848aca6d1f15c66f055df76522e84b55db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 15/71] fix: a CR continuation only covers the LF right after
 it

---
 src/tokenizer/slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ec46e74..d243b76 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -788,6 +788,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
             continue;
         }
 
+        let after_cr = ignore_nl;
+        ignore_nl = false;
+
         match b {
             b'\\' => {
                 // pieces.push(Cow::from(&code[s..i]));
@@ -805,7 +808,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 end = i + 1;
                 break;
             },
-            b'\n' if ignore_nl => {
+            b'\n' if after_cr => {
 
             }
             b'\r' | b'\n' => {
-- 
2.43.0


From c6f9fb89ed489b29bdff442683a779a3c8f87818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 16/71] fix: refuse octal escapes that start with zero

---
 src/tokenizer/slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index d243b76..97aa9a7 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -743,6 +743,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     continue;
                 }
                 b'0' => {
+                    if bytes.get(i + 1).map_or(false, |d| d.is_ascii_digit()) {
+                        panic!("numbers not allowed");
+                    }
                     in_escape = 0;
                     continue;
                 }
-- 
2.43.0


From 91464cd9b15f21a0590137a6848f82d1709fdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 17/71] fix: check the digits of hex and unicode escapes

---
 src/tokenizer/slice.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 97aa9a7..84720bb 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -717,6 +717,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
     let mut in_hex_escape = false;
     let mut in_unicode_escape = false;
     let mut in_long_unicode_escape = false;
+    let mut long_unicode_value = 0u32;
     let mut ignore_nl = false;
 
     let s: usize = index + 1;
@@ -765,6 +766,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 }
             }
         }
+        if in_hex_escape && in_escape > 1 && !b.is_ascii_hexdigit() {
+            panic!("bad hex escape");
+        }
         if in_hex_escape && in_escape == 3 {
             in_escape = 0;
             in_hex_escape = false;
@@ -772,6 +776,23 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         if in_unicode_escape {
             if in_escape == 2 && b == b'{' {
                 in_long_unicode_escape = true;
+                long_unicode_value = 0;
+            } else if in_long_unicode_escape && b == b'}' {
+                if in_escape == 3 {
+                    panic!("bad unicode escape");
+                }
+            } else if in_escape > 1 {
+                match (b as char).to_digit(16) {
+                    Some(d) => {
+                        if in_long_unicode_escape {
+                            long_unicode_value = long_unicode_value * 16 + d;
+                        }
+                    }
+                    _ => panic!("bad unicode escape"),
+                }
+            }
+            if long_unicode_value > 0x10FFFF {
+                panic!("bad unicode escape");
             }
 
             if !in_long_unicode_escape && in_escape == 5 {
-- 
2.43.0


From 542f9c569d9a3ef053c0dbb7bc4c71bf177987f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 18/71] fix: an escaped character never ends a template chunk

---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 84720bb..62d3023 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -401,9 +401,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -676,9 +684,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From fda6e6aa1985034da4cf5330dc84a0d33cea5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 19/71] fix: --> is a decrement and a comparison in module code

---
 src/tokenizer/slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 62d3023..a7b8233 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -235,11 +235,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From 5a5b5667ad729634a390cd292752a94c30a0ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 20/71] fix: refuse line terminators in regular expressions

---
 src/tokenizer/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a7b8233..41d78b9 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -628,9 +628,14 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    panic!("regex with newlines")
+                }
+                b'\xE2' if code[i..].starts_with(NS_PS) || code[i..].starts_with(NS_LS) => {
+                    panic!("regex with newlines")
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From ee8315ed145899b4d0cee243e93363cd7d062c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 21/71] fix: an expected expression concerns the next token
 only

---
 src/parser/expressions.rs | 1 -
 src/parser/mod.rs         | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..ad3f597 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -13,7 +13,6 @@ where
     pub fn parse_expression(&mut self) -> OptResult<()> {
         try_value!(self.parse_assignment_expression()?);
 
-        self.expect_expression();
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..7b53d84 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,11 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // A token that has already been read can't be influenced any more, and the
+        // hint must not be kept for the token after it.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
-- 
2.43.0


From 13b65feee782e7557f7fb1a1f78bb5798fcac215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 22/71] fix: a regular expression may start an item, an index,
 a substitution or a callee

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ad3f597..25c44ae 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -384,6 +384,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -424,6 +425,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -683,7 +685,9 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
+        self.expect_expression();
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -701,6 +705,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
-- 
2.43.0


From 8cb8530c7c52b530f5766c17346898ea727d519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 23/71] fix: a statement after if or try, or a default export,
 may start with a regular expression

---
 src/parser/module.rs     | 1 +
 src/parser/statements.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..708a1d8 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -62,6 +62,7 @@ where
 
         if let TokenResult::Some(_) = self.keyword("default") {
             let mut parser = self.with(Flag::Default);
+            parser.expect_expression();
 
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
 
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..c08f0d1 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -310,6 +310,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -684,6 +685,7 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("catch") {
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
@@ -696,6 +698,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
-- 
2.43.0


From 59b6add912d36f5dc52c3cb00f8a54a8ee2b0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 24/71] fix: a regular expression may follow return, throw,
 yield, break and continue

---
 src/parser/expressions.rs | 1 +
 src/parser/statements.rs  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 25c44ae..b998d81 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -143,6 +143,7 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index c08f0d1..4d55925 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -603,6 +603,7 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -614,6 +615,7 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -625,6 +627,7 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
@@ -672,6 +675,7 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             eat_value!(self.with(Flag::In).parse_expression()?);
-- 
2.43.0


From 75c9eb939fb81c76212910f5789c0dcc0a76eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 25/71] fix: slash after this, super, null, true and false
 divides

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7b53d84..c859c5c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -308,7 +308,11 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                match &**name {
+                    // These end an expression just like an identifier does.
+                    "this" | "super" | "null" | "true" | "false" => false,
+                    _ => !is_binding_identifier(&flags, name),
+                }
             } else {
                 return None;
             };
-- 
2.43.0


From ac53826af84290d801dc2d4d9675df9e2313adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 26/71] fix: await is never an identifier in a module

---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c859c5c..c2473a1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -550,7 +550,8 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     match s {
         // Conditional keywords
         "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
+        // Always reserved in modules.
+        "await" => false,
 
         // Keywords
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
-- 
2.43.0


From 8dced67db5186f396c201011a98a02e713873029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 27/71] fix: parse class expressions beyond their keyword

---
 src/parser/classes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..c708979 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,11 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        opt_value!(self.binding_identifier());
+        opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From ef72f0f145bfe91a46c8397941e399f01d153b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 28/71] fix: accept new.target

---
 src/parser/expressions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b998d81..74f2e2c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -386,11 +386,12 @@ where
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::None = self.parse_meta_property_expression()? {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_meta_property_expression()?,
                 self.parse_super_expression()?,
             ) {
                 return Ok(TokenResult::None);
@@ -475,8 +476,7 @@ where
     }
 
     fn parse_meta_property_expression(&mut self) -> OptResult<()> {
-        try_value!(self.keyword("new"));
-        eat_value!(self.punc(tokens::PunctuatorToken::Period));
+        try_value!(self.punc(tokens::PunctuatorToken::Period));
         eat_value!(self.keyword("target"));
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 208e3523a7cd0899a55e587e494a2a44b9eaef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 29/71] fix: refuse super on its own

---
 src/parser/expressions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 74f2e2c..0505e05 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -392,7 +392,7 @@ where
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_super_expression()?,
+                self.parse_super_expression(allow_call)?,
             ) {
                 return Ok(TokenResult::None);
             }
@@ -481,9 +481,16 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_super_expression(&mut self) -> OptResult<()> {
+    fn parse_super_expression(&mut self, allow_call: bool) -> OptResult<()> {
         try_value!(self.keyword("super"));
 
+        match *self.token() {
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Period) |
+            tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => {}
+            tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen) if allow_call => {}
+            _ => bail!("super must be called or have a property accessed"),
+        }
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 464b64b570c8602b2977427786c562052da5aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 30/71] fix: accept async function declarations

---
 src/parser/declarations.rs |  5 ++++-
 src/parser/functions.rs    | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..69af713 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -12,6 +12,7 @@ where
 
         enum DeclType {
             Class,
+            Async,
             Function,
             Let,
             Const,
@@ -21,7 +22,7 @@ where
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
                     "class" => DeclType::Class,
-                    // TODO: Async
+                    "async" => DeclType::Async,
                     "function" => DeclType::Function,
                     "let" => DeclType::Let,
                     "const" => DeclType::Const,
@@ -33,6 +34,8 @@ where
 
         eat_value!(match t {
             DeclType::Class => self.parse_class_declaration()?,
+            DeclType::Async if !self.async_function_ahead() => return Ok(TokenResult::None),
+            DeclType::Async |
             DeclType::Function => self.parse_function_declaration()?,
             DeclType::Let => self.parse_let_declaration()?,
             DeclType::Const => self.parse_const_declaration()?,
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..33f9caf 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -7,6 +7,22 @@ impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
 {
+    pub fn async_function_ahead(&mut self) -> bool {
+        let function_next = if let Some(&LookaheadResult {
+            line: false,
+            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
+        }) = self.ident_lookahead() {
+            name == "function"
+        } else {
+            false
+        };
+
+        function_next && match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
+        }
+    }
+
     pub fn parse_function_declaration(&mut self) -> OptResult<()> {
         let maybe_async = if let Some(&LookaheadResult {
             line: false,
-- 
2.43.0


From c3f09824fbed5001e0676ec2fa1f3c9e4d125da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 31/71] fix: accept async function expressions, and a function
 on the line after a name

---
 src/parser/expressions.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 0505e05..59063cb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -509,6 +509,7 @@ where
             Template,
             Paren,
 
+            Async,
             Function,
             Class,
         }
@@ -523,7 +524,7 @@ where
                     "false" => PrimaryType::False,
                     "null" => PrimaryType::Null,
 
-                    // TODO: Ignores async functions
+                    "async" => PrimaryType::Async,
                     "function" => PrimaryType::Function,
                     "class" => PrimaryType::Class,
                     _ => {
@@ -558,6 +559,8 @@ where
             PrimaryType::Regex => eat_value!(self.parse_regular_expression_literal_expression()?),
             PrimaryType::Template => eat_value!(self.parse_template_literal_expression()?),
             PrimaryType::Paren => eat_value!(self.parse_cover_parenthesized_expression()?),
+            PrimaryType::Async if !self.async_function_ahead() => eat_value!(self.parse_identifier_reference_expression()?),
+            PrimaryType::Async |
             PrimaryType::Function => eat_value!(self.parse_function_expression()?),
             PrimaryType::Class => eat_value!(self.parse_class_expression()?),
         }
@@ -586,18 +589,6 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
-        }
-
         try_value!(self.reference_identifier());
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 90bfcab1152208eaa5b54c8ef404eff7cb1b6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 32/71] fix: an arrow function decides on yield and await in
 its own body

---
 src/parser/expressions.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 59063cb..cf2bc17 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -51,12 +51,15 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.reify_arrow((), true)?);
 
                 return Ok(TokenResult::Some(()));
             }
         }
 
+        // This may be an expression that calls "async", or the parameters of an async arrow.
+        let async_call = self.async_call_ahead();
+
         // TODO: Alternatively this can kick off the cover lookahead here then skip reify
 
         let left = try_value!(self.parse_conditional_expression()?);
@@ -102,8 +105,7 @@ where
         eat_value!(match t {
             Reify::Arrow => {
                 // TODO: No LineTerminator allowed before arrow.
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                self.reify_arrow(left, async_call)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -122,14 +124,36 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
-        self.expect_expression();
+    fn reify_arrow(&mut self, _left: (), is_async: bool) -> OptResult<()> {
+        let mut parser = self.without(Flag::Yield);
+        let mut parser = if is_async {
+            parser.with(Flag::Await)
+        } else {
+            parser.without(Flag::Await)
+        };
+
+        parser.expect_expression();
 
         Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
+            parser.parse_function_body()?,
+            parser.parse_assignment_expression()?,
         ))
     }
+    fn async_call_ahead(&mut self) -> bool {
+        let paren_next = if let Some(&LookaheadResult {
+            line: false,
+            token: tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen)
+        }) = self.ident_lookahead() {
+            true
+        } else {
+            false
+        };
+
+        paren_next && match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
+        }
+    }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
 
-- 
2.43.0


From 992688cd125b609df72d678539d03ae9b2c1d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 33/71] fix: refuse a line break before an arrow

---
 src/parser/expressions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index cf2bc17..106f875 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -100,11 +100,16 @@ where
             _ => return Ok(TokenResult::Some(())),
         };
 
+        if let Reify::Arrow = t {
+            if !self.no_line_terminator() {
+                bail!("Unexpected line terminator before arrow");
+            }
+        }
+
         self.pop();
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
                 self.reify_arrow(left, async_call)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
-- 
2.43.0


From c3ab6efd1ab3c7511516fdeba8bd3f87e636fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 34/71] fix: refuse yield outside generators

---
 src/parser/expressions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 106f875..07241f1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -170,6 +170,10 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
         self.expect_expression();
-- 
2.43.0


From da0bf8c082618444dbb96c52c317fb13567186bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 35/71] fix: yield takes one optional operand, yield* a
 required one

---
 src/parser/expressions.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 07241f1..08a0e37 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -179,10 +179,12 @@ where
         self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
@@ -571,7 +573,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0


From 4d95f34916ffb926117374f7ed2b50f5f6f0f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 36/71] fix: accessors start out without yield and await,
 setters may have a default

---
 src/parser/classes.rs    | 22 +++++++++++++---------
 src/parser/statements.rs |  2 +-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index c708979..d830095 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -139,21 +139,25 @@ where
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                eat_value!(self.parse_function_body()?);
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
+
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
-                }
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+
+                eat_value!(parser.parse_binding_element()?);
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
                 if head.async {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 4d55925..9aab01b 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -266,7 +266,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_binding_element(&mut self) -> OptResult<()> {
+    pub fn parse_binding_element(&mut self) -> OptResult<()> {
         if let TokenResult::None = self.parse_binding_pattern()? {
             try_value!(self.binding_identifier());
         }
-- 
2.43.0


From 025b21ed9ce6fd80c9d557028e835d822770309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 37/71] fix: functions inside a default export need their names

---
 src/parser/functions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 33f9caf..0aed8b3 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -143,6 +143,7 @@ where
         Ok(TokenResult::Some(()))
     }
     pub fn parse_function_body(&mut self) -> OptResult<()> {
-        self.parse_block_statement()
+        // Only the exported function itself may go without a name.
+        self.without(Flag::Default).parse_block_statement()
     }
 }
-- 
2.43.0


From ae363e7892752b5657c8a1bf54561a83b908b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 38/71] fix: refuse return outside functions

---
 src/parser/functions.rs  | 2 +-
 src/parser/statements.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 0aed8b3..600e15c 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -144,6 +144,6 @@ where
     }
     pub fn parse_function_body(&mut self) -> OptResult<()> {
         // Only the exported function itself may go without a name.
-        self.without(Flag::Default).parse_block_statement()
+        self.without(Flag::Default).with(Flag::Return).parse_block_statement()
     }
 }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9aab01b..1c2d2c4 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -627,6 +627,10 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        if !self.flags.allow_return {
+            bail!("return outside of a function");
+        }
+
         self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
-- 
2.43.0


From 54bb89d730bf101d3db9d5ddffe82d8a1f81b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 39/71] fix: refuse await in the parameters of nested async
 functions

---
 src/parser/classes.rs   | 2 +-
 src/parser/functions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index d830095..aaa7f4a 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -163,7 +163,7 @@ where
                 if head.async {
                     let mut parser = self.without(Flag::Yield);
 
-                    try_value!(parser.parse_function_params()?);
+                    try_value!(parser.without(Flag::Await).parse_function_params()?);
                     eat_value!(parser.with(Flag::Await).parse_function_body()?);
                 } else if head.generator {
                     let mut parser = self.without(Flag::Await);
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 600e15c..ffe521d 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -53,7 +53,7 @@ where
         if maybe_async {
             let mut parser = self.without(Flag::Yield);
 
-            eat_value!(parser.parse_function_params()?);
+            eat_value!(parser.without(Flag::Await).parse_function_params()?);
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let Some(_) = star {
             let mut parser = self.without(Flag::Await);
@@ -98,7 +98,7 @@ where
         if maybe_async {
             let mut parser = self.without(Flag::Yield);
 
-            eat_value!(parser.parse_function_params()?);
+            eat_value!(parser.without(Flag::Await).parse_function_params()?);
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let TokenResult::Some(_) = star {
             let mut parser = self.without(Flag::Await);
-- 
2.43.0


From bb2f239cad56c345c28c14a340f95118c11680f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 40/71] fix: accept several spread arguments

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 08a0e37..36d8d6e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -490,6 +490,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From df6259ac6a5293f59035e18dd353c90e35206b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 41/71] fix: empty parentheses, rest and trailing commas need
 an arrow

---
 src/parser/expressions.rs | 42 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 36d8d6e..07898a8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -757,31 +757,37 @@ where
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
         try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
-        self.expect_expression();
+        // Whether this can only be the parameters of an arrow function.
+        let mut only_params = false;
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-                self.expect_expression();
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                    } else {
-                        eat_value!(self.binding_identifier());
-                    }
-                } else {
-                    eat_value!(self.parse_assignment_expression()?)
-                }
+        loop {
+            self.expect_expression();
+
+            if let TokenResult::Some(_) = self.parse_binding_rest_element()? {
+                only_params = true;
+                break;
             }
-        } else {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                } else {
-                    eat_value!(self.binding_identifier());
-                }
+
+            // No expression, or nothing after a comma.
+            if let TokenResult::None = self.with(Flag::In).parse_assignment_expression()? {
+                only_params = true;
+                break;
+            }
+
+            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
+                break;
             }
         }
 
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
+        if only_params {
+            match *self.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => {}
+                _ => bail!("Expected an arrow after parameters"),
+            }
+        }
+
         Ok(TokenResult::Some(()))
     }
 }
-- 
2.43.0


From af8c01e25bfce47f4a1dbf04a123e36c9f574b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 42/71] fix: a method named async is not an async method

---
 src/parser/classes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index aaa7f4a..2d817f4 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -80,7 +80,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -102,11 +102,13 @@ where
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
-- 
2.43.0


From 78c81c8ab0910555ebf16b6eee4a0be8b44aaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:30 +0000
Subject: [PATCH 43/71] fix: refuse a star after get and set

---
 src/parser/classes.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 2d817f4..9bab2aa 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -90,10 +90,9 @@ where
             false
         };
 
-        let star = if async {
-            None
-        } else {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star))
+        let star = match kind {
+            MethodKind::None if !async => opt_value!(self.punc(tokens::PunctuatorToken::Star)),
+            _ => None,
         };
 
         let is_ident = false;
-- 
2.43.0


From 8bca3a61ba3a4f0d14d745d0e06973dfd614b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 44/71] fix: only names stand for a property on their own, and
 object literals have no static members

---
 src/parser/classes.rs     | 20 +++++++++++++++++---
 src/parser/expressions.rs | 12 +++++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 9bab2aa..aa9bdf0 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -95,19 +95,30 @@ where
             _ => None,
         };
 
-        let is_ident = false;
+        // Whether this is a lone name that could be a variable, as in "{ name }".
+        let flags = self.flags;
+        let mut is_ident = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => is_binding_identifier(&flags, name),
+            _ => false,
+        };
+        if let (&MethodKind::None, false, &None, &None) = (&kind, async, &star, &stat) {
+        } else {
+            is_ident = false;
+        }
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
                 async = false;
+                is_ident = stat.is_none();
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
                 async = false;
+                is_ident = stat.is_none();
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -115,12 +126,15 @@ where
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
                         kind = MethodKind::None;
+                        is_ident = stat.is_none();
                     }
                     (_, &MethodKind::Set, _) => {
                         kind = MethodKind::None;
+                        is_ident = stat.is_none();
                     },
                     (&Some(_), _, _) => {
                         stat = None;
+                        is_ident = true;
                     }
                     _ => return Ok(TokenResult::None),
                 }
@@ -196,7 +210,7 @@ pub enum MethodKind {
 #[derive(Debug)]
 pub struct MethodHead {
     kind: MethodKind,
-    is_ident: bool,
+    pub is_ident: bool,
     generator: bool,
     async: bool,
 }
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 07898a8..d6ddb8d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -706,16 +706,18 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
-            opt_value!(self.parse_method_tail(head)?);
+            let is_ident = head.is_ident;
+            if let TokenResult::None = self.parse_method_tail(head)? {
+                if !is_ident {
+                    bail!("Expected a value or a method");
+                }
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From cb597e51055beeea0e2346448a068bde1b93d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 45/71] fix: refuse values for accessors, generators and async
 methods

---
 src/parser/classes.rs     | 10 ++++++++++
 src/parser/expressions.rs |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index aa9bdf0..24a0087 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -207,6 +207,16 @@ pub enum MethodKind {
     None,
 }
 
+impl MethodHead {
+    // A name without anything that makes it the start of a special method.
+    pub fn is_plain(&self) -> bool {
+        match self.kind {
+            MethodKind::None => !self.generator && !self.async,
+            _ => false,
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct MethodHead {
     kind: MethodKind,
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d6ddb8d..5135fe5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -709,6 +709,9 @@ where
         let head = try_value!(self.parse_method_head(false)?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+            if !head.is_plain() {
+                bail!("Expected a method");
+            }
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else {
-- 
2.43.0


From de3b7cc53447f444ecb7c1347f6bc383ba5aaba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 46/71] fix: accept defaults of names in destructuring
 assignments

---
 src/parser/expressions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5135fe5..e26b4d1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -720,6 +720,9 @@ where
                 if !is_ident {
                     bail!("Expected a value or a method");
                 }
+
+                // The default of a destructuring pattern.
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             }
         }
 
-- 
2.43.0


From 28e21d28d442c30726b413284782b83d83169363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 47/71] fix: refuse a comma without a property before it

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e26b4d1..4a2fe75 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -685,7 +685,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
-- 
2.43.0


From f2cbe075ba2db0c7627644888712fe692a9509e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 48/71] fix: refuse an empty computed property name

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 1c2d2c4..e3b10df 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -228,7 +228,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From d982d4b9be3e40e0ee03b6b07ff21de06473a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 49/71] fix: only names stand for a binding on their own

---
 src/parser/statements.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e3b10df..1e00a49 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -195,11 +195,20 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let is_ident = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => is_binding_identifier(&flags, name),
+            _ => false,
+        };
+
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
         } else {
+            if !is_ident {
+                bail!("Expected a name to bind");
+            }
             opt_value!(self.with(Flag::In).parse_initializer()?);
         }
 
-- 
2.43.0


From 3b9677028745ab156767c9f7ebfdb877ef971a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 50/71] fix: accept in operators in the initializers of let and
 const

---
 src/parser/declarations.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 69af713..480dfe5 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -47,10 +47,10 @@ where
     pub fn parse_let_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("let"));
 
-        eat_value!(self.parse_lexical_declarator(false)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(false)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
         }
         eat_value!(self.semicolon());
 
@@ -60,10 +60,10 @@ where
     pub fn parse_const_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("const"));
 
-        eat_value!(self.parse_lexical_declarator(true)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(true)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
         }
         eat_value!(self.semicolon());
 
-- 
2.43.0


From 4ee5785afe4fa151981cc0b313308b8fc304471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 51/71] fix: accept in operators after the first part of a for
 head

---
 src/parser/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 1e00a49..f550818 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -514,12 +514,12 @@ where
         let found = if maybe_for {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Semicolon));
 
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
                 true
             } else {
                 false
-- 
2.43.0


From 0f2dbf362865811c4b9a57b1d7c9fa4b772aefb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 52/71] fix: accept a comma expression as the object of for-in

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index f550818..c8360e1 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -532,7 +532,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From abaf559a282337ebb2ea1a21145f75b15f9b8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 53/71] fix: accept in operators inside brackets

---
 src/parser/expressions.rs | 10 +++++-----
 src/parser/functions.rs   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4a2fe75..2583c0a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -703,7 +703,7 @@ where
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
             return Ok(TokenResult::Some(()));
         }
 
@@ -714,7 +714,7 @@ where
                 bail!("Expected a method");
             }
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
         } else {
             let is_ident = head.is_ident;
             if let TokenResult::None = self.parse_method_tail(head)? {
@@ -733,8 +733,8 @@ where
         self.expect_expression();
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
-        } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+        } else if let TokenResult::Some(_) = self.with(Flag::In).parse_assignment_expression()? {
         }
         Ok(TokenResult::Some(()))
     }
@@ -751,7 +751,7 @@ where
             let mut parser = self.with(Flag::Template);
             loop {
                 parser.expect_expression();
-                eat_value!(parser.parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
 
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index ffe521d..8202ba7 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -126,9 +126,9 @@ where
             }
 
             if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else {
                 break;
             }
-- 
2.43.0


From 40e19425a9d5c5d782e98ecfa178ae4967d1dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 54/71] fix: let in a for head needs no initializer

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index c8360e1..5792525 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -463,7 +463,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
-- 
2.43.0


From 20a0b5293f32e39e5fd9f38a529859cbf72e1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 55/71] fix: for-in and for-of need something to assign to

---
 src/parser/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5792525..aa671d9 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -480,9 +480,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let has_expression = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, has_expression /* tmp */)
             }
         };
 
-- 
2.43.0


From e903d9da9bf27be528f473be32137d32c9a8dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 56/71] fix: refuse reserved words as labels

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index aa671d9..6a2482c 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -675,7 +675,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From bbb3ab5ba6f7317af8948910a5aca67db1528b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 57/71] fix: throw needs an operand on its line and ends with a
 semicolon

---
 src/parser/statements.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 6a2482c..1ab80ce 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -689,11 +689,15 @@ where
         try_value!(self.keyword("throw"));
 
         self.expect_expression();
-        if self.no_line_terminator() {
-            self.expect_expression();
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
 
+        self.expect_expression();
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 2a7bf4e9754734b868595fedaf45a2a32ac18e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:19 +0000
Subject: [PATCH 58/71] fix: refuse try without catch and finally

---
 src/parser/statements.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 1ab80ce..e1b84d6 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -706,8 +706,12 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        let mut handled = false;
+
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("catch") {
+            handled = true;
+
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -721,9 +725,15 @@ where
 
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
+            handled = true;
+
             eat_value!(self.parse_block_statement()?);
         }
 
+        if !handled {
+            bail!("try needs catch or finally");
+        }
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From d919a070705865700eabd58b346b93473161f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 59/71] fix: refuse declarations where only a statement may
 stand

---
 src/parser/statements.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e1b84d6..88ae9ab 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -300,6 +300,17 @@ where
     }
 
     fn parse_expression_statement(&mut self) -> OptResult<()> {
+        if self.async_function_ahead() {
+            return Ok(TokenResult::None);
+        }
+        match *self.token() {
+            // These would be declarations.
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) if name == "function" || name == "class" => {
+                return Ok(TokenResult::None);
+            }
+            _ => {}
+        }
+
         try_value!(self.with(Flag::In).parse_expression()?);
 
         eat_value!(self.semicolon());
-- 
2.43.0


From a67c0abaceee6476163f075888de32c353a86359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 60/71] fix: refuse a comma expression as the default export

---
 src/parser/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 708a1d8..035a065 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -69,7 +69,7 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
-- 
2.43.0


From 50f006d57710029400177f76b8fe7262cba0aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 61/71] fix: refuse reserved words as imported names

---
 src/parser/module.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 035a065..feed7f8 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -45,13 +45,12 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> OptResult<()> {
-        try_value!(self.identifier());
+        let imported = try_value!(self.identifier());
 
         if let TokenResult::Some(_) = self.keyword("as") {
-            // TODO: Validate BindingIdentifier
-            eat_value!(self.identifier());
-        } else {
-            // TODO: Validate first is BindingIdentifier
+            eat_value!(self.binding_identifier());
+        } else if !self.is_binding_identifier(&imported.name) {
+            bail!("Expected a name to bind");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 147d485823c8da97215660d8612277cccac9ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 62/71] fix: accept exported declarations of every kind, with
 one semicolon

---
 src/parser/module.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index feed7f8..b5e9123 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -73,11 +73,9 @@ where
             }
         } else {
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
-
-            } else if let TokenResult::Some(_) = self.parse_let_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
-
+                return Ok(TokenResult::Some(()));
+            } else if let TokenResult::Some(_) = self.parse_declaration()? {
+                return Ok(TokenResult::Some(()));
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
-- 
2.43.0


From 3a743d6781e7630de24640e207e879446d0ced73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 63/71] fix: accept of as the name let declares in a for head

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 88ae9ab..5bd3321 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -443,7 +443,7 @@ where
         } else {
             let (maybe_decl, bracket) = if let Some(&LookaheadResult { line: _line, ref token }) = self.ident_lookahead() {
                 match *token {
-                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in" && name != "of", false),
+                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in", false),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => (true, true),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => (true, false),
                     _ => (false, false),
-- 
2.43.0


From 364ee37497c7026caeda5cbe940ad401bc56cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 64/71] fix: a statement that ends without a semicolon may be
 followed by a regular expression

---
 src/parser/expressions.rs | 9 +++++++--
 src/parser/mod.rs         | 3 +++
 src/parser/module.rs      | 1 +
 src/parser/statements.rs  | 2 ++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2583c0a..0744071 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -139,10 +139,15 @@ where
 
         parser.expect_expression();
 
-        Ok(try_sequence!(
+        eat_value!(try_sequence!(
             parser.parse_function_body()?,
             parser.parse_assignment_expression()?,
-        ))
+        ));
+
+        // Nothing can divide an arrow function, so this is where the next statement may start.
+        parser.expect_expression();
+
+        Ok(TokenResult::Some(()))
     }
     fn async_call_ahead(&mut self) -> bool {
         let paren_next = if let Some(&LookaheadResult {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c2473a1..1794242 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -198,6 +198,9 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         self.semicolon_inner(true)
     }
     fn semicolon_inner(&mut self, was_do_while: bool) -> TokenResult<()> {
+        // Unless the statement could go on, this is where the next one may start.
+        self.expect_expression();
+
         let exists = {
             let (line, token) = self.token_and_line();
 
diff --git a/src/parser/module.rs b/src/parser/module.rs
index b5e9123..606d302 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -90,6 +90,7 @@ where
 
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyClose));
 
+                self.expect_expression();
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
                 } else {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5bd3321..1cca654 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -285,6 +285,8 @@ where
     }
 
     pub fn parse_initializer(&mut self) -> OptResult<()> {
+        self.expect_expression();
+
         try_value!(self.punc(tokens::PunctuatorToken::Eq));
 
         self.expect_expression();
-- 
2.43.0


From adead3678d13580705bc4e2c90f99c1fb1e07a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 65/71] fix: only a name or a list of parameters may stand
 before an arrow

---
 src/parser/expressions.rs | 15 ++++++++++++++-
 src/parser/mod.rs         | 21 +++++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 0744071..92f0424 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
+use parser::{Parser, Flag, ArrowHead, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -59,6 +59,7 @@ where
 
         // This may be an expression that calls "async", or the parameters of an async arrow.
         let async_call = self.async_call_ahead();
+        let start = self.popped;
 
         // TODO: Alternatively this can kick off the cover lookahead here then skip reify
 
@@ -104,6 +105,9 @@ where
             if !self.no_line_terminator() {
                 bail!("Unexpected line terminator before arrow");
             }
+            if self.arrow_head != (ArrowHead { start, end: self.popped, is_call: async_call }) {
+                bail!("Unexpected arrow");
+            }
         }
 
         self.pop();
@@ -483,6 +487,7 @@ where
 
 
     fn parse_call_arguments(&mut self) -> OptResult<()> {
+        let start = self.popped;
         let mut parser = self.with(Flag::In);
 
         try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
@@ -513,6 +518,10 @@ where
 
         eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
+        if start > 0 {
+            parser.arrow_head = ArrowHead { start: start - 1, end: parser.popped, is_call: true };
+        }
+
         Ok(TokenResult::Some(()))
     }
 
@@ -631,7 +640,9 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
+        let start = self.popped;
         try_value!(self.reference_identifier());
+        self.arrow_head = ArrowHead { start, end: self.popped, is_call: false };
 
         Ok(TokenResult::Some(()))
     }
@@ -769,6 +780,7 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
+        let start = self.popped;
         try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
         // Whether this can only be the parameters of an arrow function.
@@ -794,6 +806,7 @@ where
         }
 
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        self.arrow_head = ArrowHead { start, end: self.popped, is_call: false };
 
         if only_params {
             match *self.token() {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1794242..3526481 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -40,6 +40,9 @@ impl FromTokenizer for Test {
             tokens: Default::default(),
             index: 0,
             count: 0,
+
+            popped: 0,
+            arrow_head: Default::default(),
         };
 
         p.parse_module().unwrap();
@@ -60,6 +63,9 @@ impl FromTokenizer for () {
             tokens: Default::default(),
             index: 0,
             count: 0,
+
+            popped: 0,
+            arrow_head: Default::default(),
         };
 
         println!("starting");
@@ -158,6 +164,14 @@ struct GrammarFlags {
     expect_template: bool,
 }
 
+// A name, a parenthesized list or the call of a name, from one token to another.
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
+struct ArrowHead {
+    start: usize,
+    end: usize,
+    is_call: bool,
+}
+
 #[derive(Debug)]
 pub struct Parser<'code, T: 'code>
 where
@@ -171,6 +185,12 @@ where
     index: u8,
     count: u8,
 
+    // How many tokens have been consumed.
+    popped: usize,
+
+    // The last thing that may stand before the arrow of an arrow function.
+    arrow_head: ArrowHead,
+
     // Track first location of non-object-literal single-name assignment
     // { foo = 4 } = {} -> allowed in patterns, not objects
     // cover_pattern
@@ -276,6 +296,7 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
 
         self.index = (self.index + 1) % 2;
         self.count -= 1;
+        self.popped += 1;
 
         // println!("{:?} {} {} => {:?}", tok, self.count, self.index, self.tokens);
 
-- 
2.43.0


From 6ff7c3659ab058779958fdef293d6232e24e4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:00 +0000
Subject: [PATCH 66/71] fix: read numbers with very large or small exponents
 without leaving the range of doubles on the way

---
 src/tokenizer/slice.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 41d78b9..65c2263 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -355,8 +355,8 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
     let (exp, num) = parse_exponent(&bytes[offset..]);
 
     if num != 0 {
-        val = scale(val, exp);
         offset += num;
+        val = scale(val, exp, &code[..offset]);
     }
 
     number(val, code[0..offset].into(), token);
@@ -444,8 +444,8 @@ fn tok_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> u
 
     let (exp, num) = parse_exponent(&bytes[offset..]);
     if num != 0 {
-        val = scale(val, exp);
         offset += num;
+        val = scale(val, exp, &code[..offset]);
     }
 
     number(val, code[..offset].into(), token);
@@ -560,8 +560,8 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
             let (exp, num) = parse_exponent(&bytes[offset..]);
             if num != 0 {
-                val = scale(val, exp);
                 offset += num;
+                val = scale(val, exp, &code[..offset]);
             }
 
             number(val, code[..offset].into(), token);
@@ -924,9 +924,13 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
     (value, i)
 }
 
-fn scale(val: f64, exp: i32) -> f64 {
-    // Zero times an overflowing power would be NaN.
-    if val == 0f64 { val } else { val * 10f64.powi(exp) }
+fn scale(val: f64, exp: i32, raw: &str) -> f64 {
+    if raw.len() < 200 && exp.abs() < 100 {
+        val * 10f64.powi(exp)
+    } else {
+        // The digits or the power alone may be out of the range of a double even if the value isn't.
+        raw.parse().unwrap()
+    }
 }
 
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
-- 
2.43.0


From 7d8a6f79811d817723662b7b15effcf5f8b8491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:02 +0000
Subject: [PATCH 67/71] fix: read a file whose name is not Unicode

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf44c77..25fa7b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -29,7 +29,7 @@ impl Drop for Framer {
 use std::fs::File;
 
 fn main() {
-    let mut it = std::env::args();
+    let mut it = std::env::args_os();
     let _name = it.next().unwrap();
     let filename = it.next().unwrap();
 
-- 
2.43.0


From 4bb957ad6be67f078553ed6209dd0e56b2d575fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:34 +0000
Subject: [PATCH 68/71] fix: read a long chain of operators in a loop

---
 src/parser/expressions.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 92f0424..934e3ae 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -215,7 +215,8 @@ where
     fn parse_logical_or_expression(&mut self) -> OptResult<()> {
         self.parse_fancy(0)
     }
-    fn parse_fancy(&mut self, mut precedence: u8) -> OptResult<()> {
+    // Operators of more than the given precedence, so that a chain of operators is read in a loop.
+    fn parse_fancy(&mut self, precedence: u8) -> OptResult<()> {
         try_value!(self.parse_exponential_expression()?);
 
         let allow_in = self.flags.allow_in;
@@ -255,21 +256,14 @@ where
                 _ => break,
             };
 
+            if new_precedence <= precedence {
+                break;
+            }
+
             self.pop();
 
             self.expect_expression();
-
-
-            // if new_precedence === 12 {
-            //     self.parse_fancy()
-            // }
-            if new_precedence >= precedence && new_precedence != 11 {
-                precedence = new_precedence;
-
-                eat_value!(self.parse_unary_expression()?);
-            } else {
-                eat_value!(self.parse_fancy(new_precedence)?);
-            }
+            eat_value!(self.parse_fancy(new_precedence)?);
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From c6eddca762f1ec27f2cb70b1183908ceea79c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:18 +0000
Subject: [PATCH 69/71] fix: a tokenizer can be cloned

---
 src/tokenizer/slice.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 65c2263..66415b4 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -10,18 +10,12 @@ static NS_PS: &'static str = "\u{2029}";
 static WS_NBSP: &'static str = "\u{00A0}";
 static WS_ZWNBSP: &'static str = "\u{FEFF}";
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct SliceTokenizer<'code> {
     code: &'code str,
     position: Position,
 }
 
-impl<'code> Clone for SliceTokenizer<'code> {
-    fn clone(&self) -> Self {
-        unimplemented!()
-    }
-}
-
 fn eat_whitespace(code: &str, pos: &mut Position) {
     let mut index = pos.offset;
 
-- 
2.43.0


From 4fafe1f7efd74a59f824cb37ba29f03aacd169fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 70/71] fix: only a left-hand side expression is assigned to

---
 src/parser/expressions.rs |  7 ++++++-
 src/parser/mod.rs         | 12 ++++++++++++
 src/parser/statements.rs  | 10 ++++++----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 934e3ae..c01f174 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, ArrowHead, LookaheadResult, is_binding_identifier};
+use parser::{Parser, Flag, ArrowHead, Span, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -108,6 +108,8 @@ where
             if self.arrow_head != (ArrowHead { start, end: self.popped, is_call: async_call }) {
                 bail!("Unexpected arrow");
             }
+        } else if self.left_hand != (Span { start, end: self.popped }) {
+            bail!("Unexpected assignment");
         }
 
         self.pop();
@@ -422,6 +424,7 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
+        let start = self.popped;
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
             if let TokenResult::None = self.parse_meta_property_expression()? {
@@ -476,6 +479,8 @@ where
             }
         }
 
+        self.left_hand = Span { start, end: self.popped };
+
         Ok(TokenResult::Some(()))
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3526481..a16062a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -43,6 +43,7 @@ impl FromTokenizer for Test {
 
             popped: 0,
             arrow_head: Default::default(),
+            left_hand: Default::default(),
         };
 
         p.parse_module().unwrap();
@@ -66,6 +67,7 @@ impl FromTokenizer for () {
 
             popped: 0,
             arrow_head: Default::default(),
+            left_hand: Default::default(),
         };
 
         println!("starting");
@@ -172,6 +174,13 @@ struct ArrowHead {
     is_call: bool,
 }
 
+// An expression, from one token to another.
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
+struct Span {
+    start: usize,
+    end: usize,
+}
+
 #[derive(Debug)]
 pub struct Parser<'code, T: 'code>
 where
@@ -191,6 +200,9 @@ where
     // The last thing that may stand before the arrow of an arrow function.
     arrow_head: ArrowHead,
 
+    // The last expression that may be assigned to.
+    left_hand: Span,
+
     // Track first location of non-object-literal single-name assignment
     // { foo = 4 } = {} -> allowed in patterns, not objects
     // cover_pattern
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 1cca654..26ce454 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
+use parser::{Parser, Flag, Span, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -491,11 +491,13 @@ where
             if let Some(decl) = decl {
                 decl
             } else {
-                // TODO: What to do here? If this is a LeftHandSideExpression,
-                // the for can be any type, otherwise it _must_ be 'ForStatement'
+                // If this is a LeftHandSideExpression, the for can be any type,
+                // otherwise it _must_ be 'ForStatement'
+                let start = self.popped;
                 let has_expression = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
+                let left_hand = has_expression && self.left_hand == (Span { start, end: self.popped });
 
-                ("expression", false, false, false, false, has_expression /* tmp */)
+                ("expression", false, false, false, false, left_hand)
             }
         };
 
-- 
2.43.0


From 6088ad5c57ca377b205d538ac5603b0896a8cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:43 +0000
Subject: [PATCH 71/71] fix: a unary expression is not the base of **

---
 src/parser/expressions.rs | 18 ++++++++++++------
 src/parser/mod.rs         |  5 ++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c01f174..4d786a8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -272,15 +272,18 @@ where
     }
 
     fn parse_exponential_expression(&mut self) -> OptResult<()> {
+        let start = self.popped;
         try_value!(self.parse_unary_expression()?);
+        let end = self.popped;
 
-        // TODO:
-        // if is_update_expression(expr) {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
-                self.expect_expression();
-                eat_value!(self.parse_exponential_expression()?);
+        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
+            if self.update != (Span { start, end }) {
+                bail!("Unexpected unary expression before **");
             }
-        // }
+
+            self.expect_expression();
+            eat_value!(self.parse_exponential_expression()?);
+        }
 
         Ok(TokenResult::Some(()))
     }
@@ -398,6 +401,7 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_update_expression(&mut self) -> OptResult<()> {
+        let start = self.popped;
         let op = if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {
             true
         } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::MinusMinus) {
@@ -421,6 +425,8 @@ where
             }
         }
 
+        self.update = Span { start, end: self.popped };
+
         Ok(TokenResult::Some(()))
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a16062a..68c12b8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -44,6 +44,7 @@ impl FromTokenizer for Test {
             popped: 0,
             arrow_head: Default::default(),
             left_hand: Default::default(),
+            update: Default::default(),
         };
 
         p.parse_module().unwrap();
@@ -68,6 +69,7 @@ impl FromTokenizer for () {
             popped: 0,
             arrow_head: Default::default(),
             left_hand: Default::default(),
+            update: Default::default(),
         };
 
         println!("starting");
@@ -200,8 +202,9 @@ where
     // The last thing that may stand before the arrow of an arrow function.
     arrow_head: ArrowHead,
 
-    // The last expression that may be assigned to.
+    // The last expression that may be assigned to, and the last one that may be the base of "**".
     left_hand: Span,
+    update: Span,
 
     // Track first location of non-object-literal single-name assignment
     // { foo = 4 } = {} -> allowed in patterns, not objects
-- 
2.43.0

