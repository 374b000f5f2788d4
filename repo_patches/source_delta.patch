From fb1c26e521c3e9490cbd24ecd5c1a1c29cf4083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 1/5] fix: Color::Rgb writes foreground arguments on the
 foreground layer

Color::fmt_foreground_args forwarded RgbColor to fmt_background_args, so a
style with a runtime rgb foreground and two or more effects coloured the
background instead.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From 7a30fe54eb608d5e8a755eeeed14d10d9b811456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 2/5] fix: the subscript effect uses SGR 74

73 is superscript, so subscript text was rendered as superscript.
---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From 864d6fa64e072600116d0b54ac71627e476683f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 3/5] fix: Mode and Stream parsing rejects "never" with a
 trailing NUL or space

The padding of the five byte keyword was case folded to spaces, so the six
byte inputs "never\0" and "never " were accepted.
---
 src/mode.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..d407e9a 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -68,13 +68,14 @@ impl Mode {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, ModeFromStrError> {
-        const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\0") | ASCII_CASE_MASK_SIMD;
-        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
-        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\0") | ASCII_CASE_MASK_SIMD;
+        // the last byte holds the length, otherwise "never\0" and "never " would be the same as "never"
+        const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\x06") | ASCII_CASE_MASK_SIMD;
+        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\x06") | ASCII_CASE_MASK_SIMD;
+        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\x05") | ASCII_CASE_MASK_SIMD;
 
         let data = match *s {
-            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
-            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
+            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 5]),
+            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 6]),
             _ => return Err(ModeFromStrError),
         };
 
@@ -132,14 +133,15 @@ impl Stream {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, StreamFromStrError> {
-        const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\0") | ASCII_CASE_MASK_SIMD;
-        const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\0") | ASCII_CASE_MASK_SIMD;
-        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
-        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\0") | ASCII_CASE_MASK_SIMD;
+        // the last byte holds the length, otherwise "never\0" and "never " would be the same as "never"
+        const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\x06") | ASCII_CASE_MASK_SIMD;
+        const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\x06") | ASCII_CASE_MASK_SIMD;
+        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\x06") | ASCII_CASE_MASK_SIMD;
+        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\x05") | ASCII_CASE_MASK_SIMD;
 
         let data = match *s {
-            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
-            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
+            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 5]),
+            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 6]),
             _ => return Err(StreamFromStrError),
         };
 
-- 
2.43.0


From 9cd33f40a87b583ba42fa0c4ab6116e097da4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 4/5] fix: two-digit colour codes parse to the code they spell

---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From e3a81238b53c9f94824e589482135dff802fa19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 5/5] fix: the default color resets the underline color

---
 src/ansi.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/ansi.rs b/src/ansi.rs
index f52af4b..fb3f93d 100644
--- a/src/ansi.rs
+++ b/src/ansi.rs
@@ -89,9 +89,13 @@ macro_rules! MkAnsiColor {
             }
 
             #[inline]
-            /// The ANSI background color args
+            /// The ANSI underline color args
             pub const fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                match self {
+                    // the default color isn't part of the Xterm palette
+                    Self::Default => "59",
+                    _ => self.to_xterm().underline_args(),
+                }
             }
 
             #[inline]
@@ -113,7 +117,10 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI underline color escape sequence
             pub const fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                match self {
+                    Self::Default => "\x1b[59m",
+                    _ => self.to_xterm().underline_escape(),
+                }
             }
 
             #[inline]
@@ -145,7 +152,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                self.underline_args()
             }
 
             #[inline]
@@ -170,7 +177,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                self.underline_escape()
             }
         }
 
@@ -217,7 +224,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_args(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ARGS
+                    Self::DYNAMIC.underline_args()
                 }
 
                 #[inline]
@@ -232,7 +239,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_escape(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ESCAPE
+                    Self::DYNAMIC.underline_escape()
                 }
             }
         )*
-- 
2.43.0

