From e7f70b7403aee0789c2453268c16095ac696f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 01/51] sim: add seams for the simulation harness behind
 cfg(yam_sim)

---
 yam-core/src/lib.rs         |  5 +++++
 yam-core/src/parsing/mod.rs |  3 +++
 yam-core/src/sim_hooks.rs   |  6 ++++++
 yam-serde/src/de.rs         | 12 ++++++++++++
 yam-serde/src/lib.rs        | 14 ++++++++++++++
 5 files changed, 40 insertions(+)
 create mode 100644 yam-core/src/sim_hooks.rs

diff --git a/yam-core/src/lib.rs b/yam-core/src/lib.rs
index 8b61808..50060ab 100644
--- a/yam-core/src/lib.rs
+++ b/yam-core/src/lib.rs
@@ -28,6 +28,8 @@
 //! - [`YamlOwned`](prelude::YamlOwned): The version of [`Yaml`](prelude::Yaml) which owns its data.
 //! - [`SpannedYaml`](prelude::SpannedYaml): The version of [`Yaml`](prelude::Yaml) which borrows its data and includes [`Span`](prelude::Span) information.
 #![no_std]
+// `yam_sim` is only set by the simulation harness (RUSTFLAGS="--cfg yam_sim").
+#![allow(unexpected_cfgs)]
 extern crate alloc;
 extern crate core;
 
@@ -42,4 +44,7 @@ pub mod node;
 pub mod parsing;
 pub mod prelude;
 mod saphyr_emitter;
+#[cfg(yam_sim)]
+#[doc(hidden)]
+pub mod sim_hooks;
 mod util;
diff --git a/yam-core/src/parsing/mod.rs b/yam-core/src/parsing/mod.rs
index 97f9483..a57b956 100644
--- a/yam-core/src/parsing/mod.rs
+++ b/yam-core/src/parsing/mod.rs
@@ -17,6 +17,9 @@ pub use parser::EventReceiver;
 pub use parser::SpannedEventReceiver;
 pub use parser::{Event, Parser, ScalarValue};
 pub use parser_iter::ParserIter;
+#[cfg(yam_sim)]
+#[doc(hidden)]
+pub use {buffered_source::BufferedBytesSource, scanner::SkipTabs};
 pub use source::Source;
 pub use source::StrSource;
 
diff --git a/yam-core/src/sim_hooks.rs b/yam-core/src/sim_hooks.rs
new file mode 100644
index 0000000..78749a2
--- /dev/null
+++ b/yam-core/src/sim_hooks.rs
@@ -0,0 +1,6 @@
+//! Seams for the deterministic-simulation harness.
+//!
+//! Compiled only with `--cfg yam_sim`; the shipped crate does not contain this module.
+
+pub use crate::parsing::{BufferedBytesSource, SkipTabs};
+pub use crate::saphyr_emitter::YamlEmitter;
diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcbfe9d..a7ab8a3 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -29,6 +29,18 @@ impl<'a> YamIterDeserializer<'a, StrSource<'a>> {
     }
 }
 
+#[cfg(yam_sim)]
+impl<R: Source> YamIterDeserializer<'_, R> {
+    /// Seam for the simulation harness: deserialize from any byte source.
+    pub(crate) fn sim_from_source(source: R) -> Self {
+        YamIterDeserializer {
+            yaml_iter: ParserIter::new(source),
+            last_event: YamEvent::DocStart,
+            has_peeked: false,
+        }
+    }
+}
+
 impl<'a, R> YamIterDeserializer<'a, R>
 where
     R: Source,
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index a63847d..357d76c 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -1,4 +1,6 @@
 #![no_std]
+// `yam_sim` is only set by the simulation harness (RUSTFLAGS="--cfg yam_sim").
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 pub mod binary;
@@ -79,3 +81,15 @@ where
     value.serialize(&mut serializer)?;
     Ok(serializer.writer)
 }
+
+/// Deserializes from any byte source; only compiled for the simulation harness.
+#[cfg(yam_sim)]
+#[doc(hidden)]
+pub fn sim_from_source<'a, T, R>(source: R) -> Result<T, DeYamlError>
+where
+    T: serde_core::de::Deserialize<'a>,
+    R: yam_core::parsing::Source + 'a,
+{
+    let mut de = crate::de::YamIterDeserializer::sim_from_source(source);
+    T::deserialize(&mut de)
+}
-- 
2.43.0


From 0fb553f4176c342e805e0682f87a365a49bb7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 02/51] fix: treat a lone carriage return as a line break
 instead of looping forever

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..afeef65 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\n' | b'\r', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From e8fad1186d96eb40893e8576d5f83429769ee004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 03/51] fix: report a NUL inside a quoted scalar instead of
 looping forever

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index afeef65..85afd2d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1121,7 +1121,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            if self.src.peek_checked(0).is_none() {
+            if self.src.peekz(0) == b'\0' {
                 return Err(YamlError::new_str(
                     start_mark,
                     "while scanning a quoted scalar, found unexpected end of stream",
-- 
2.43.0


From 7008cf956983176368b1f71f112b161c8a6bafd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 04/51] fix: stop skipping block scalar indentation at the end
 of the stream

---
 yam-core/src/parsing/scanner.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 85afd2d..fbd4599 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1710,11 +1710,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     }
                     // If we reached our indent, we can break. We must also break if we have
-                    // reached content or EOF; that is, the buffer is not empty and the next
-                    // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
-                    {
+                    // reached content or EOF; that is, the next character is not a space.
+                    if self.mark.col >= indent || self.src.peekz(0) != b' ' {
                         break;
                     }
                 }
-- 
2.43.0


From aaa704062eac6838da52eb027de21aafb256287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 05/51] fix: report an overlong %YAML version number instead of
 overflowing

---
 yam-core/src/parsing/scanner.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index fbd4599..df0ec67 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2131,18 +2131,18 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
-            if length + 1 > 9 {
+            let Some(next) = val.checked_mul(10).and_then(|v| v.checked_add(digit)) else {
                 return Err(YamlError::new_str(
                     *mark,
                     "while scanning a YAML directive, found extremely long version number",
                 ));
-            }
+            };
             length += 1;
-            val = val * 10 + digit;
+            val = next;
             self.skip_non_blank();
         }
 
-- 
2.43.0


From 47529bdcc11e89bc3029d3331f4963dea20593a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 06/51] fix: decode percent-encoded UTF-8 in tags as the bytes
 it stands for

---
 yam-core/src/parsing/scanner.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index df0ec67..da497cf 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1989,7 +1989,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
-        let mut code = 0u32;
+        let mut bytes = Vec::with_capacity(4);
         loop {
             // self.src.lookahead(3);
 
@@ -2017,16 +2017,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
-            } else {
-                if byte & 0xc0 != 0x80 {
-                    return Err(YamlError::new_str(
-                        *mark,
-                        "while parsing a tag, found an incorrect trailing UTF-8 byte",
-                    ));
-                }
-                code = (code << 8) + byte;
+            } else if byte & 0xc0 != 0x80 {
+                return Err(YamlError::new_str(
+                    *mark,
+                    "while parsing a tag, found an incorrect trailing UTF-8 byte",
+                ));
             }
+            #[allow(clippy::cast_possible_truncation)]
+            bytes.push(byte as u8);
 
             self.skip_n_non_blank(3);
 
@@ -2036,13 +2034,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+        if core::str::from_utf8(&bytes).is_err() {
+            return Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
-            )),
+            ));
         }
+        Ok(bytes)
     }
 
     #[allow(clippy::cast_possible_truncation)]
-- 
2.43.0


From 8d971c2d3765adc971d54e14fbc68bce7c9c0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 07/51] fix: end an unindented block scalar at a document start
 marker

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index da497cf..90220b2 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1387,7 +1387,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.next_is_document_end() || self.next_is_document_start() {
                     break;
                 }
             }
-- 
2.43.0


From d3593641ffd4c8b79b00216a82399cf14d93e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 08/51] fix: do not report the end of a finished line as one
 line further down

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 90220b2..eab7066 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -278,7 +278,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn fetch_stream_end(&mut self) -> ScanResult {
         // force new line
-        if self.mark.col != 0 {
+        if self.mark.col != 1 {
             self.mark.col = 1;
             self.mark.line += 1;
         }
-- 
2.43.0


From 8cd6019e0d5dbb1cfbeb3a2bed0d50e82a7f470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 09/51] fix: peek_char must not read past the end of the stream

---
 yam-core/src/parsing/buffered_source.rs | 13 +++++--------
 yam-core/src/parsing/source.rs          | 10 +++++-----
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/yam-core/src/parsing/buffered_source.rs b/yam-core/src/parsing/buffered_source.rs
index 587e3c9..637f7fb 100644
--- a/yam-core/src/parsing/buffered_source.rs
+++ b/yam-core/src/parsing/buffered_source.rs
@@ -92,14 +92,11 @@ unsafe impl<T: Iterator<Item = u8>> Source for BufferedBytesSource<T> {
     }
 
     fn peek_char(&self) -> char {
-        // SAFETY: This takes up to 4 bytes. `4.min(self.len)` guarantees it won't see any
-        // uninit values
-        let slice = unsafe { slice::from_raw_parts(self.buf.as_ptr().cast(), 4.min(self.len)) };
-        // SAFETY: Converts up to the next 4 bytes (currently UTF-8) maximum
-        // to a char using from_utf8_unchecked. It should contain at least one valid char, which is
-        // all we care about.
-        let mut bytes = unsafe { str::from_utf8_unchecked(slice).chars() };
-        bytes.next().unwrap()
+        let rest = self.get_buf();
+        // A character takes at most four bytes, fewer may be left.
+        (1..=rest.len().min(4))
+            .find_map(|n| str::from_utf8(&rest[..n]).ok()?.chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_max_len(&self) -> usize {
diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..204b584 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,11 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        let rest = self.input.get(self.pos..).unwrap_or_default();
+        // A character takes at most four bytes, fewer may be left.
+        (1..=rest.len().min(4))
+            .find_map(|n| str::from_utf8(&rest[..n]).ok()?.chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From 6199974eaf55439deea31ee8ffbac126b3fdc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 10/51] fix: byte sources lost bytes on long skips and on an
 unterminated last line

---
 yam-core/src/parsing/buffered_source.rs | 8 +++++---
 yam-core/src/parsing/source.rs          | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/parsing/buffered_source.rs b/yam-core/src/parsing/buffered_source.rs
index 637f7fb..615cf75 100644
--- a/yam-core/src/parsing/buffered_source.rs
+++ b/yam-core/src/parsing/buffered_source.rs
@@ -126,7 +126,9 @@ unsafe impl<T: Iterator<Item = u8>> Source for BufferedBytesSource<T> {
         let buf = self.get_buf();
 
         // we get the value from while loop above, or we search remaining buf
-        let found_pos = pos.unwrap_or(buf.iter().position(|&c| is_break(c)).unwrap_or(0));
+        let found_pos = pos
+            .or_else(|| buf.iter().position(|&c| is_break(c)))
+            .unwrap_or(buf.len());
         vec.extend_from_slice(&buf[..found_pos]);
         self.skip(found_pos);
     }
@@ -137,10 +139,10 @@ unsafe impl<T: Iterator<Item = u8>> Source for BufferedBytesSource<T> {
         }
 
         let consume = n.min(self.len);
-        let skip = n.saturating_sub(self.buf_max_len() + 1);
+        let skip = n - consume;
 
         if skip > 0 {
-            self.input.nth(skip);
+            self.input.nth(skip - 1);
         }
 
         self.buf.copy_within(consume..self.len, 0);
diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index 204b584..d0d964e 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -284,11 +284,12 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
-        let len = self.input[self.pos..]
+        let rest = &self.input[self.pos..];
+        let len = rest
             .iter()
             .position(|&c| is_break(c))
-            .unwrap_or(0);
-        let slice = &self.input[self.pos..self.pos + len];
+            .unwrap_or(rest.len());
+        let slice = &rest[..len];
         self.skip(len);
         vec.extend_from_slice(slice);
     }
-- 
2.43.0


From ffaf207acfdcda89a3315d10e2319756c6a770f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 11/51] fix: skip_ws_to_eol of the buffered source skips
 exactly the leading whitespace

---
 yam-core/src/parsing/buffered_source.rs | 59 ++++++++-----------------
 yam-core/src/util/mod.rs                |  7 ---
 2 files changed, 18 insertions(+), 48 deletions(-)

diff --git a/yam-core/src/parsing/buffered_source.rs b/yam-core/src/parsing/buffered_source.rs
index 615cf75..c447c18 100644
--- a/yam-core/src/parsing/buffered_source.rs
+++ b/yam-core/src/parsing/buffered_source.rs
@@ -2,7 +2,7 @@ use crate::parsing::Source;
 use crate::parsing::char_utils::is_break;
 use crate::parsing::scanner::SkipTabs;
 use crate::parsing::source::shared_skip_ws_to_eol;
-use crate::util::{BitOps, HIGH_NIBBLE_WS, LOW_NIBBLE_WS, U8X16, U8X32};
+use crate::util::{BitOps, U8X32};
 use alloc::vec::Vec;
 use core::iter::Copied;
 use core::mem::{MaybeUninit, transmute};
@@ -158,51 +158,28 @@ unsafe impl<T: Iterator<Item = u8>> Source for BufferedBytesSource<T> {
         skip_tab: bool,
         mut has_yaml_ws: bool,
     ) -> (u32, Result<SkipTabs, &'static str>) {
-        let any_tabs = false;
+        let mut any_tabs = false;
         let mut consumed_bytes = 0u32;
-        let mut consume = 0u32;
-        let mut skip_tabs_res = SkipTabs::No;
-
-        let low_nib_mask = U8X16::splat(0xF);
-        let high_nib_mask = U8X16::splat(0x7F);
-        let ws_flag = 0x04 + u8::from(skip_tab);
 
+        // Skip the leading run of whitespace, a whole buffer at a time.
         while let Some(x) = self.get_max_buf() {
-            consume = 0;
-            let (v0, v1) = U8X32::from_array(x).split();
-
-            let v_v0 = LOW_NIBBLE_WS.swizzle(v0 & low_nib_mask)
-                & HIGH_NIBBLE_WS.swizzle((v0 >> 4) & high_nib_mask);
-            let v_v1 = LOW_NIBBLE_WS.swizzle(v1 & low_nib_mask)
-                & HIGH_NIBBLE_WS.swizzle((v1 >> 4) & high_nib_mask);
-
-            let sp = !U8X32::merge(v_v0 & ws_flag, v_v1 & ws_flag)
-                .comp(0)
-                .to_bitmask();
-            let nl = !U8X32::merge(v_v0 & 0x02, v_v1 & 0x02).comp(0).to_bitmask();
-            let hash = !U8X32::merge(v_v0 & 0x08, v_v1 & 0x08).comp(0).to_bitmask();
-
-            let end_of_line = (hash & !(sp << 1)) | nl;
-
-            has_yaml_ws |= sp != 0;
-
-            if end_of_line != 0 {
-                consume = end_of_line.trailing_zeros();
-                consumed_bytes += consume;
-                skip_tabs_res = SkipTabs::Result {
-                    any_tabs,
-                    has_yaml_ws,
-                };
+            let chunk = U8X32::from_array(x);
+            let spaces = chunk.comp_to_bitmask(b' ');
+            let tabs = if skip_tab {
+                chunk.comp_to_bitmask(b'\t')
+            } else {
+                0
+            };
+            let run = (spaces | tabs).trailing_ones();
+            let in_run = !(u32::MAX.checked_shl(run).unwrap_or(0));
+
+            has_yaml_ws |= spaces & in_run != 0;
+            any_tabs |= tabs & in_run != 0;
+            consumed_bytes += run;
+            self.skip(run as usize);
+            if (run as usize) < MAX_LEN {
                 break;
             }
-
-            self.skip(self.buf_max_len());
-            consumed_bytes += self.buf_max_len() as u32;
-        }
-        self.skip(consume as usize);
-
-        if matches!(skip_tabs_res, SkipTabs::Result { .. } | SkipTabs::Yes) {
-            return (consumed_bytes, Ok(skip_tabs_res));
         }
 
         shared_skip_ws_to_eol(self, skip_tab, consumed_bytes, any_tabs, has_yaml_ws)
diff --git a/yam-core/src/util/mod.rs b/yam-core/src/util/mod.rs
index d1b78d7..c2912a2 100644
--- a/yam-core/src/util/mod.rs
+++ b/yam-core/src/util/mod.rs
@@ -4,13 +4,6 @@ mod u8x32;
 pub(crate) use u8x16::U8X16;
 pub(crate) use u8x32::U8X32;
 
-#[doc(hidden)]
-pub(crate) const LOW_NIBBLE_WS: U8X16 =
-    U8X16::from_array([4, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 0, 0, 2, 0, 0]);
-#[doc(hidden)]
-pub(crate) const HIGH_NIBBLE_WS: U8X16 =
-    U8X16::from_array([3, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
-
 pub trait BitOps {
     type ByteOut;
 
-- 
2.43.0


From ae6d16584341d8b9200e8808f29ee4b71bfb5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 12/51] fix: keep reporting the error that ended parsing

---
 yam-core/src/parsing/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..d6129d3 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -282,6 +282,8 @@ pub struct Parser<'input, T: Source> {
     /// Emitted means that it has been returned from [`Self::next`]. If it is stored in
     /// [`Self::token`], this is set to `false`.
     stream_end_emitted: bool,
+    /// The error that ended parsing, reported again by every later call.
+    error: Option<YamlError>,
     /// Make tags global across all documents.
     keep_tags: bool,
 }
@@ -420,6 +422,7 @@ impl<'input, T: Source> Parser<'input, T> {
             anchor_id_count: 1,
             tags: BTreeMap::new(),
             stream_end_emitted: false,
+            error: None,
             keep_tags: false,
         }
     }
@@ -606,8 +609,14 @@ impl<'input, T: Source> Parser<'input, T> {
         if self.state == State::End {
             return Ok((Event::StreamEnd, Span::empty(self.scanner.mark)));
         }
-        let (ev, mark) = self.state_machine()?;
-        Ok((ev, mark))
+        if let Some(error) = &self.error {
+            return Err(error.clone());
+        }
+        let res = self.state_machine();
+        if let Err(error) = &res {
+            self.error = Some(error.clone());
+        }
+        res
     }
 
     /// Load the YAML from the stream in `self`, pushing events into `recv`.
-- 
2.43.0


From 74352f90c5d66aa91c178e5918a00421de6f3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 13/51] fix: load after peek, and a single stream end from
 repeated load

---
 yam-core/src/parsing/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index d6129d3..2263ff5 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -635,7 +635,13 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        if self.stream_end_emitted {
+            return Ok(());
+        }
+
+        if self.state == State::StreamStart
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
@@ -646,14 +652,10 @@ impl<'input, T: Source> Parser<'input, T> {
             recv.on_event(ev, span);
         }
 
-        if self.scanner.stream_end_produced {
-            // XXX has parsed?
-            recv.on_event(Event::StreamEnd, Span::empty(self.scanner.mark));
-            return Ok(());
-        }
         loop {
             let (ev, span) = self.next_event_impl()?;
             if ev == Event::StreamEnd {
+                self.stream_end_emitted = true;
                 recv.on_event(ev, span);
                 return Ok(());
             }
-- 
2.43.0


From d3bf2c66213393dd1c358d0cd3ee5b9c82a142fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 14/51] fix: anchors of one document must not be visible in the
 next when pulling events

---
 yam-core/src/parsing/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 2263ff5..59eb3d1 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -857,6 +857,7 @@ impl<'input, T: Source> Parser<'input, T> {
             }
             Token { span, .. } if implicit => {
                 self.parser_process_directives()?;
+                self.anchors.clear();
                 self.push_state(State::DocumentEnd);
                 self.state = State::BlockNode;
                 Ok((Event::DocumentStart(false), span))
@@ -936,6 +937,7 @@ impl<'input, T: Source> Parser<'input, T> {
                 span,
                 token_type: TokenType::DocumentStart,
             } => {
+                self.anchors.clear();
                 self.push_state(State::DocumentEnd);
                 self.state = State::DocumentContent;
                 self.skip();
-- 
2.43.0


From 949194a545c249f8d756abdad895c2f8cf42cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 15/51] fix: apply every %TAG directive of a document and
 refuse duplicate directives

---
 yam-core/src/parsing/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 59eb3d1..6331472 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -887,8 +887,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -911,7 +911,8 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::TagDirective { handle, prefix },
                 } => {
-                    if tags.contains_key(&**handle) {
+                    // An unknown directive is scanned as a tag directive without a handle.
+                    if !handle.is_empty() && tags.contains_key(&**handle) {
                         return Err(YamlError::new_str(
                             span.start,
                             "the TAG directive must only be given at most once per handle in the same document",
@@ -921,9 +922,9 @@ impl<'input, T: Source> Parser<'input, T> {
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        self.tags.extend(tags);
         Ok(())
     }
 
-- 
2.43.0


From d05c5b72f93ffca1cde98766eab5a64dedb1d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 16/51] fix: an empty explicit key in a flow sequence must not
 swallow the next token

---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6331472..c15cb25 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1552,7 +1552,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From 2de12e0079c7049c517584fcda6a1fe5d533031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 17/51] fix: position of the mapping end of an explicit pair in
 a flow sequence

---
 yam-core/src/parsing/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index c15cb25..aad9f3f 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -7,7 +7,7 @@
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError};
+use crate::prelude::{ScalarType, Span, YamlError};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -116,7 +116,7 @@ enum State {
     FlowSequenceEntry,
     FlowSequenceEntryMappingKey,
     FlowSequenceEntryMappingValue,
-    FlowSequenceEntryMappingEnd(Marker),
+    FlowSequenceEntryMappingEnd,
     FlowMappingFirstKey,
     FlowMappingKey,
     FlowMappingValue,
@@ -795,7 +795,7 @@ impl<'input, T: Source> Parser<'input, T> {
 
             State::FlowSequenceEntryMappingKey => self.flow_sequence_entry_mapping_key(),
             State::FlowSequenceEntryMappingValue => self.flow_sequence_entry_mapping_value(),
-            State::FlowSequenceEntryMappingEnd(mark) => self.flow_sequence_entry_mapping_end(mark),
+            State::FlowSequenceEntryMappingEnd => self.flow_sequence_entry_mapping_end(),
             State::FlowMappingEmptyValue => self.flow_mapping_value(true),
 
             /* impossible */
@@ -1579,25 +1579,26 @@ impl<'input, T: Source> Parser<'input, T> {
                     token_type,
                     TokenType::FlowEntry | TokenType::FlowSequenceEnd
                 ) {
-                    self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                    self.state = State::FlowSequenceEntryMappingEnd;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    self.push_state(State::FlowSequenceEntryMappingEnd(span.end));
+                    self.push_state(State::FlowSequenceEntryMappingEnd);
                     self.parse_node(false, false)
                 }
             }
             Token { span, .. } => {
-                self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                self.state = State::FlowSequenceEntryMappingEnd;
                 Ok((Event::empty_scalar(), span))
             }
         }
     }
 
-    #[allow(clippy::unnecessary_wraps)]
-    fn flow_sequence_entry_mapping_end<'a>(&mut self, mark: Marker) -> ParseResult<'a>
+    fn flow_sequence_entry_mapping_end<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
+        // The mapping ends where the next token starts.
+        let mark = self.peek_token()?.span.start;
         self.state = State::FlowSequenceEntry;
         Ok((Event::MappingEnd, Span::empty(mark)))
     }
-- 
2.43.0


From 5626e3a784feb116a5d9afe737e63b3bb7543913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 18/51] fix: loading a mapping must not lose entries whose key
 is tagged or a bad value

---
 yam-core/src/prelude/loader.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..4727f2c 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,8 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    /// For every open mapping the key that waits for its value.
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +142,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    None => *curr_key = Some(node),
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +427,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From 1f8c4707874a8f7e3d9d24f38d48e7feaae7a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 19/51] fix: deliver aliases from ParserIter instead of
 dropping them

Deserializing a document with an alias silently lost the aliased element.
---
 yam-core/src/parsing/parser_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..aa21f97 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From f67103a7de0c11890977d768a195f6246e90abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 20/51] fix: one event of lookahead in the deserializer,
 collection ends consumed exactly once

Options inside a sequence swallowed elements, the end of an inner collection was
taken for the end of the outer one, and an enum in a map left the map's end behind.
---
 yam-serde/src/de.rs | 119 +++++++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 69 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index a7ab8a3..31587c4 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -15,16 +15,14 @@ where
     R: Source,
 {
     yaml_iter: ParserIter<'de, R>,
-    last_event: YamEvent<'de>,
-    has_peeked: bool,
+    peeked: Option<YamEvent<'de>>,
 }
 
 impl<'a> YamIterDeserializer<'a, StrSource<'a>> {
     pub fn new(source: &'a str) -> Self {
         YamIterDeserializer {
             yaml_iter: ParserIter::new(StrSource::new(source)),
-            last_event: YamEvent::DocStart,
-            has_peeked: false,
+            peeked: None,
         }
     }
 }
@@ -35,8 +33,7 @@ impl<R: Source> YamIterDeserializer<'_, R> {
     pub(crate) fn sim_from_source(source: R) -> Self {
         YamIterDeserializer {
             yaml_iter: ParserIter::new(source),
-            last_event: YamEvent::DocStart,
-            has_peeked: false,
+            peeked: None,
         }
     }
 }
@@ -45,19 +42,28 @@ impl<'a, R> YamIterDeserializer<'a, R>
 where
     R: Source,
 {
-    fn next_el(&mut self) -> Option<YamEvent<'a>> {
-        if self.has_peeked {
-            self.has_peeked = false;
-            return Some(self.last_event.clone());
+    /// Returns the next event without consuming it.
+    fn peek_el(&mut self) -> Option<YamEvent<'a>> {
+        if self.peeked.is_none() {
+            self.peeked = self.yaml_iter.next();
         }
-
-        self.has_peeked = true;
-        self.last_event = self.yaml_iter.next()?;
-        Some(self.last_event.clone())
+        self.peeked.clone()
     }
 
+    /// Consumes the event last returned by [`Self::peek_el`].
     fn skip(&mut self) {
-        self.has_peeked = false;
+        self.peeked = None;
+    }
+
+    /// Consumes the next event, which must be `event`.
+    fn expect_el(&mut self, event: &YamEvent<'static>) -> Result<(), DeYamlError> {
+        let next = self.peek_el();
+        if next.as_ref() == Some(event) {
+            self.skip();
+            Ok(())
+        } else {
+            Err(unexpected(event.as_simple_str(), next.as_ref()))
+        }
     }
 
     fn peek_null(&mut self) -> bool {
@@ -84,6 +90,13 @@ where
     }
 }
 
+fn unexpected(expected: &'static str, found: Option<&YamEvent<'_>>) -> DeYamlError {
+    DeYamlError::ParserError(YamlError::UnExpectedEvent {
+        expected,
+        found: found.map_or("end of events", YamEvent::as_simple_str),
+    })
+}
+
 macro_rules! parse_from_cow {
     ($e:expr, $v:expr, $method:ident, $t:ty) => {
         match $e.parse::<$t>() {
@@ -124,7 +137,7 @@ where
         V: de::Visitor<'de>,
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+            self.skip();
             parse_from_cow!(&scalar.value, visitor, visit_i8, i8)
         } else {
             Err(DeYamlError::Custom(
@@ -138,7 +151,7 @@ where
         V: de::Visitor<'de>,
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+            self.skip();
             parse_from_cow!(&scalar.value, visitor, visit_i16, i16)
         } else {
             Err(DeYamlError::Custom(
@@ -180,7 +193,7 @@ where
         V: de::Visitor<'de>,
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+            self.skip();
             parse_from_cow!(&scalar.value, visitor, visit_u8, u8)
         } else {
             Err(DeYamlError::Custom(
@@ -194,7 +207,7 @@ where
         V: de::Visitor<'de>,
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
-            self.has_peeked = false;
+            self.skip();
             parse_from_cow!(&scalar.value, visitor, visit_u16, u16)
         } else {
             Err(DeYamlError::Custom(
@@ -265,23 +278,13 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if !matches!(self.skip_doc(), Some(YamEvent::SeqStart(_, _))) {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "SeqStart",
-                found: self.last_event.as_simple_str(),
-            }));
+        let event = self.skip_doc();
+        if !matches!(event, Some(YamEvent::SeqStart(_, _))) {
+            return Err(unexpected("SeqStart", event.as_ref()));
         }
         self.skip();
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        if !matches!(self.last_event, YamEvent::SeqEnd)
-            && !matches!(self.next_el(), Some(YamEvent::SeqEnd))
-        {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "SeqEnd",
-                found: self.last_event.as_simple_str(),
-            }));
-        }
-        self.skip();
+        self.expect_el(&YamEvent::SeqEnd)?;
         Ok(val)
     }
 
@@ -289,23 +292,13 @@ where
     where
         V: de::Visitor<'de>,
     {
-        if !matches!(self.skip_doc(), Some(YamEvent::MapStart(_, _))) {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "MapStart",
-                found: self.last_event.as_simple_str(),
-            }));
+        let event = self.skip_doc();
+        if !matches!(event, Some(YamEvent::MapStart(_, _))) {
+            return Err(unexpected("MapStart", event.as_ref()));
         }
         self.skip();
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        if !matches!(self.last_event, YamEvent::MapEnd)
-            && !matches!(self.next_el(), Some(YamEvent::MapEnd))
-        {
-            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                expected: "MapEnd",
-                found: self.last_event.as_simple_str(),
-            }));
-        }
-        self.skip();
+        self.expect_el(&YamEvent::MapEnd)?;
         Ok(val)
     }
 
@@ -326,13 +319,7 @@ where
             Some(YamEvent::MapStart(_, _)) => {
                 self.skip();
                 let value = visitor.visit_enum(Enum::new(self))?;
-
-                if !matches!(self.next_el(), Some(YamEvent::MapEnd)) {
-                    return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                        found: self.last_event.as_simple_str(),
-                        expected: "MapEnd",
-                    }));
-                }
+                self.expect_el(&YamEvent::MapEnd)?;
                 Ok(value)
             }
             _ => Err(DeYamlError::Custom("Expected enum".to_string())),
@@ -352,10 +339,10 @@ where
     R: Source,
 {
     fn skip_doc<'a>(&'a mut self) -> Option<YamEvent<'de>> {
-        match self.next_el() {
+        match self.peek_el() {
             Some(YamEvent::DocStart) => {
                 self.skip();
-                self.next_el()
+                self.peek_el()
             }
             ev => ev,
         }
@@ -425,13 +412,10 @@ where
     where
         T: DeserializeSeed<'de>,
     {
-        match self.iter.next_el() {
+        match self.iter.peek_el() {
             Some(YamEvent::SeqEnd) => Ok(None),
-            Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
-                Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                    expected: "SeqEnd",
-                    found: self.iter.last_event.as_simple_str(),
-                }))
+            event @ (Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None) => {
+                Err(unexpected("SeqEnd", event.as_ref()))
             }
             Some(_) => seed.deserialize(&mut *self.iter).map(Some),
         }
@@ -448,13 +432,10 @@ where
     where
         K: DeserializeSeed<'de>,
     {
-        match self.iter.next_el() {
+        match self.iter.peek_el() {
             Some(YamEvent::MapEnd) => Ok(None),
-            Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
-                Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
-                    expected: "MapEnd",
-                    found: self.iter.last_event.as_simple_str(),
-                }))
+            event @ (Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None) => {
+                Err(unexpected("MapEnd", event.as_ref()))
             }
             Some(_) => seed.deserialize(&mut *self.iter).map(Some),
         }
@@ -512,7 +493,7 @@ where
     type Error = DeYamlError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        todo!()
+        de::Deserialize::deserialize(&mut *self.de)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
-- 
2.43.0


From 54744eb2fabad84d78d6cef92b284dbdb6294cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 21/51] fix: from_str must not return a value when the document
 does not end after it

---
 yam-serde/src/de.rs  | 5 +++++
 yam-serde/src/lib.rs | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 31587c4..50311ef 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -66,6 +66,11 @@ where
         }
     }
 
+    /// Checks that the document ends, without error, after the value that was deserialized.
+    pub(crate) fn end(&mut self) -> Result<(), DeYamlError> {
+        self.expect_el(&YamEvent::DocEnd)
+    }
+
     fn peek_null(&mut self) -> bool {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             scalar.is_null()
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index 357d76c..bc89a60 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -69,6 +69,7 @@ where
 {
     let mut de = crate::de::YamIterDeserializer::new(input);
     let value = T::deserialize(&mut de)?;
+    de.end()?;
 
     Ok(value)
 }
@@ -91,5 +92,8 @@ where
     R: yam_core::parsing::Source + 'a,
 {
     let mut de = crate::de::YamIterDeserializer::sim_from_source(source);
-    T::deserialize(&mut de)
+    let value = T::deserialize(&mut de)?;
+    de.end()?;
+
+    Ok(value)
 }
-- 
2.43.0


From 04e410e4342ec22cef63199fbe30eaca1bff36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 22/51] fix: track implicit flow mappings per flow collection

A flow mapping that was the value of a pair in a flow sequence was cut after its
first entry, and a pair without key was refused once a flow mapping had been
seen, even in an earlier document.
---
 yam-core/src/parsing/scanner.rs | 63 +++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index eab7066..3e14d67 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -72,13 +72,18 @@ struct Indent {
     needs_block_end: bool,
 }
 
+/// State of one open flow collection.
 #[derive(Debug, PartialEq)]
 enum ImplicitMappingState {
+    /// We are inside a flow mapping (`{`), where no implicit mapping can start.
+    FlowMapping,
     /// It is possible there is an implicit mapping.
     ///
     /// This state is the one when we have just encountered the opening `[`. We need more context
     /// to know whether an implicit mapping follows.
     Possible,
+    /// The current entry is a mapping that was started by a `?`.
+    ExplicitKey,
     /// We are inside the implcit mapping.
     ///
     /// Note that this state is not set immediately (we need to have encountered the `:` to know).
@@ -101,7 +106,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +137,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -383,12 +386,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
 
-        if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
-        } else {
-            self.implicit_flow_mapping_states
-                .push(ImplicitMappingState::Possible);
-        }
+        self.implicit_flow_mapping_states
+            .push(if token_type == TokenType::FlowMappingStart {
+                ImplicitMappingState::FlowMapping
+            } else {
+                ImplicitMappingState::Possible
+            });
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -406,8 +409,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if matches!(token_type, TokenType::FlowSequenceEnd) {
             self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
         }
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -423,16 +426,20 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
-        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
-            && *implicit_mapping == ImplicitMappingState::Inside
-        {
-            self.flow_mapping_started = false;
-            *implicit_mapping = ImplicitMappingState::Possible;
-            let span = self.get_span(mark);
-            self.tokens.push_back(Token {
-                span,
-                token_type: TokenType::FlowMappingEnd,
-            });
+        let Some(state) = self.implicit_flow_mapping_states.last_mut() else {
+            return;
+        };
+        match state {
+            ImplicitMappingState::Inside => {
+                *state = ImplicitMappingState::Possible;
+                let span = self.get_span(mark);
+                self.tokens.push_back(Token {
+                    span,
+                    token_type: TokenType::FlowMappingEnd,
+                });
+            }
+            ImplicitMappingState::ExplicitKey => *state = ImplicitMappingState::Possible,
+            ImplicitMappingState::FlowMapping | ImplicitMappingState::Possible => {}
         }
     }
 
@@ -543,9 +550,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 TokenType::BlockMappingStart,
                 start_mark,
             );
-        } else {
-            // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+        } else if let Some(state @ ImplicitMappingState::Possible) =
+            self.implicit_flow_mapping_states.last_mut()
+        {
+            // The parser, upon receiving a `Key`, will prepend a `MappingStart` event.
+            *state = ImplicitMappingState::ExplicitKey;
         }
 
         self.remove_simple_key()?;
@@ -613,10 +622,12 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
-        let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
-        if is_implicit_flow_mapping {
-            *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
+        let mut is_implicit_flow_mapping = false;
+        if let Some(state @ ImplicitMappingState::Possible) =
+            self.implicit_flow_mapping_states.last_mut()
+        {
+            *state = ImplicitMappingState::Inside;
+            is_implicit_flow_mapping = true;
         }
 
         // Skip over ':'.
-- 
2.43.0


From ec8400732be6065e6e7a821b93f39323c1be4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 23/51] fix: a quoted or !!str scalar is not null, plain ~ is

---
 yam-core/src/parsing/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index aad9f3f..1b84bb6 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -79,9 +79,16 @@ impl<'input> ScalarValue<'input> {
     #[doc(hidden)]
     #[must_use]
     pub fn is_null(&self) -> bool {
-        let dummy = Cow::Owned(Tag::empty());
-        let x = self.tag.as_ref().unwrap_or(&dummy);
-        Self::is_null_tagged(&self.value, x)
+        // Any quoted scalar is a string.
+        if self.scalar_type != ScalarType::Plain {
+            return false;
+        }
+        match &self.tag {
+            Some(tag) if tag.is_yaml_core_schema() => {
+                tag.suffix == "null" && Self::is_null_tagged(&self.value, tag)
+            }
+            _ => matches!(&*self.value, "" | "~" | "null" | "Null" | "NULL"),
+        }
     }
 
     #[doc(hidden)]
-- 
2.43.0


From be04e68b6fc3d8eb37a5c134c4283f1e6af0de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 24/51] fix: a scalar with a second sign, or a sign after 0x or
 0o, is a string

---
 yam-core/src/node/scalar.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..175ceaa 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -129,21 +129,17 @@ where
 
         if bytes.len() >= 2 {
             match (bytes[0], bytes[1]) {
-                (b'0', b'x') => {
+                // `from_str_radix` accepts a sign, which YAML does not allow after the prefix.
+                (b'0', b'x') if !matches!(bytes.get(2), Some(b'+' | b'-')) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'0', b'o') => {
+                (b'0', b'o') if !matches!(bytes.get(2), Some(b'+' | b'-')) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'+', _) => {
-                    if let Ok(i) = s[1..].parse::<i64>() {
-                        return Self::Integer(i.into());
-                    }
-                }
                 _ => {}
             }
         }
-- 
2.43.0


From 14ac2da152a7656d3c2b32e311f04e362f78c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 25/51] fix: newtype structs deserialize from the value they
 wrap

---
 yam-serde/src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 50311ef..f68354b 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -275,10 +275,21 @@ where
 
     forward_to_deserialize_any! {
         bool i128 u128 f32 f64 char str string
-        bytes byte_buf unit_struct newtype_struct tuple
+        bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
-- 
2.43.0


From f3b9fb30dd7beb2893d03903e7b1b3f425a42236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 26/51] fix: typed integers accept the hexadecimal and octal
 forms untyped ones do

---
 yam-serde/src/de.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index f68354b..7b13060 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -8,7 +8,7 @@ use serde_core::{de, forward_to_deserialize_any};
 use yam_core::node::YamlScalar;
 use yam_core::parsing::parser_iter::YamEvent;
 use yam_core::parsing::{ParserIter, ScalarValue, Source, StrSource};
-use yam_core::prelude::YamlError;
+use yam_core::prelude::{ScalarType, YamlError};
 
 pub(crate) struct YamIterDeserializer<'de, R>
 where
@@ -102,16 +102,28 @@ fn unexpected(expected: &'static str, found: Option<&YamEvent<'_>>) -> DeYamlErr
     })
 }
 
-macro_rules! parse_from_cow {
-    ($e:expr, $v:expr, $method:ident, $t:ty) => {
-        match $e.parse::<$t>() {
+macro_rules! parse_from_scalar {
+    ($e:expr, $v:expr, $method:ident, $t:ty) => {{
+        let text: &str = &$e.value;
+        let plain = $e.scalar_type == ScalarType::Plain;
+        let parsed = match text.as_bytes() {
+            // The core schema's hexadecimal and octal integers
+            [b'0', b'x', d, ..] if plain && d.is_ascii_hexdigit() => {
+                <$t>::from_str_radix(&text[2..], 16)
+            }
+            [b'0', b'o', d, ..] if plain && d.is_ascii_digit() => {
+                <$t>::from_str_radix(&text[2..], 8)
+            }
+            _ => text.parse::<$t>(),
+        };
+        match parsed {
             Ok(i) => $v.$method(i),
             Err(_) => Err(DeYamlError::Custom(format!(
                 "Failed to parse {:?} from scalar value",
                 stringify!($t)
             ))),
         }
-    };
+    }};
 }
 
 impl<'de, R> de::Deserializer<'de> for &mut YamIterDeserializer<'de, R>
@@ -143,7 +155,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i8, i8)
+            parse_from_scalar!(scalar, visitor, visit_i8, i8)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i32 deserialization".to_string(),
@@ -157,7 +169,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i16, i16)
+            parse_from_scalar!(scalar, visitor, visit_i16, i16)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i16 deserialization".to_string(),
@@ -171,7 +183,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i32, i32)
+            parse_from_scalar!(scalar, visitor, visit_i32, i32)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i32 deserialization".to_string(),
@@ -185,7 +197,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i64, i64)
+            parse_from_scalar!(scalar, visitor, visit_i64, i64)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i64 deserialization".to_string(),
@@ -199,7 +211,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u8, u8)
+            parse_from_scalar!(scalar, visitor, visit_u8, u8)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i8 deserialization".to_string(),
@@ -213,7 +225,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u16, u16)
+            parse_from_scalar!(scalar, visitor, visit_u16, u16)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u16 deserialization".to_string(),
@@ -227,7 +239,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u32, u32)
+            parse_from_scalar!(scalar, visitor, visit_u32, u32)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u32 deserialization".to_string(),
@@ -241,7 +253,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u64, u64)
+            parse_from_scalar!(scalar, visitor, visit_u64, u64)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u64 deserialization".to_string(),
-- 
2.43.0


From ce6083b68122808ca5688d13fd4c045a43295451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 27/51] fix: tagged scalars accept every spelling of the core
 schema

---
 yam-core/src/node/scalar.rs    | 42 ++++++++++++++++++----------------
 yam-core/src/parsing/parser.rs |  2 +-
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 175ceaa..0b0879f 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,8 +90,12 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
+                    "bool" => match &*v {
+                        "true" | "True" | "TRUE" => Some(Self::Bool(true)),
+                        "false" | "False" | "FALSE" => Some(Self::Bool(false)),
+                        _ => None,
+                    },
+                    "int" => parse_core_schema_int(&v).map(|x| Self::Integer(x.into())),
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
                     "null" => {
                         if ScalarValue::is_null_tagged(&v, &tag) {
@@ -127,23 +131,6 @@ where
         let s = &*v;
         let bytes = s.as_bytes();
 
-        if bytes.len() >= 2 {
-            match (bytes[0], bytes[1]) {
-                // `from_str_radix` accepts a sign, which YAML does not allow after the prefix.
-                (b'0', b'x') if !matches!(bytes.get(2), Some(b'+' | b'-')) => {
-                    if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
-                        return Self::Integer(i.into());
-                    }
-                }
-                (b'0', b'o') if !matches!(bytes.get(2), Some(b'+' | b'-')) => {
-                    if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
-                        return Self::Integer(i.into());
-                    }
-                }
-                _ => {}
-            }
-        }
-
         match bytes.len() {
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
@@ -160,7 +147,7 @@ where
             _ => {}
         }
 
-        if let Ok(integer) = parse_i64_from_cow(s) {
+        if let Some(integer) = parse_core_schema_int(s) {
             return Self::Integer(integer.into());
         }
 
@@ -172,6 +159,21 @@ where
     }
 }
 
+/// Parse the given string as an integer according to the core schema.
+///
+/// See [10.3.2](https://yaml.org/spec/1.2.2/#1032-tag-resolution) for the spellings of an integer.
+///
+/// # Return
+/// Returns `Some` if parsing succeeds, `None` otherwise.
+fn parse_core_schema_int(v: &str) -> Option<i64> {
+    match v.as_bytes() {
+        // `from_str_radix` accepts a sign, which YAML does not allow after the prefix.
+        [b'0', b'x', d, ..] if d.is_ascii_hexdigit() => i64::from_str_radix(&v[2..], 16).ok(),
+        [b'0', b'o', d, ..] if d.is_ascii_digit() => i64::from_str_radix(&v[2..], 8).ok(),
+        _ => parse_i64_from_cow(v).ok(),
+    }
+}
+
 /// Parse the given string as a floating point according to the core schema.
 ///
 /// See [10.2.1.4](https://yaml.org/spec/1.2.2/#10214-floating-point) for the floating point
diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 1b84bb6..59e1cff 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -98,7 +98,7 @@ impl<'input> ScalarValue<'input> {
             return true;
         }
         if tag.is_yaml_core_schema() {
-            return v == "~" || v == "null";
+            return matches!(v, "~" | "null" | "Null" | "NULL");
         }
         false
     }
-- 
2.43.0


From e03f18cf70a2c8c11858fdf4d27e1542585a436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 28/51] fix: an ignored value is skipped whatever it holds

---
 yam-serde/src/de.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 7b13060..053cfd9 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -288,7 +288,29 @@ where
     forward_to_deserialize_any! {
         bool i128 u128 f32 f64 char str string
         bytes byte_buf unit_struct tuple
-        tuple_struct struct ignored_any
+        tuple_struct struct
+    }
+
+    /// Skips one node, whatever it holds.
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let mut event = self.skip_doc();
+        let mut depth = 0usize;
+        loop {
+            match event {
+                Some(YamEvent::SeqStart(_, _) | YamEvent::MapStart(_, _)) => depth += 1,
+                Some(YamEvent::SeqEnd | YamEvent::MapEnd) if depth > 0 => depth -= 1,
+                Some(YamEvent::Scalar(_) | YamEvent::Alias(_)) => {}
+                e => return Err(unexpected("node", e.as_ref())),
+            }
+            self.skip();
+            if depth == 0 {
+                return visitor.visit_unit();
+            }
+            event = self.peek_el();
+        }
     }
 
     fn deserialize_newtype_struct<V>(
-- 
2.43.0


From 72b90ac51faf6b82682a451360dfe44315cba0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 29/51] fix: 128-bit integers deserialize from their digits,
 not through a float

---
 yam-serde/src/de.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 053cfd9..104a3ba 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -261,6 +261,34 @@ where
         }
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
+            self.skip();
+            parse_from_scalar!(scalar, visitor, visit_i128, i128)
+        } else {
+            Err(DeYamlError::Custom(
+                "Expected scalar event for i128 deserialization".to_string(),
+            ))
+        }
+    }
+
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
+            self.skip();
+            parse_from_scalar!(scalar, visitor, visit_u128, u128)
+        } else {
+            Err(DeYamlError::Custom(
+                "Expected scalar event for u128 deserialization".to_string(),
+            ))
+        }
+    }
+
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
@@ -286,7 +314,7 @@ where
     }
 
     forward_to_deserialize_any! {
-        bool i128 u128 f32 f64 char str string
+        bool f32 f64 char str string
         bytes byte_buf unit_struct tuple
         tuple_struct struct
     }
-- 
2.43.0


From db35106d4e684d5d0a7d3ebb6fbee855f47584dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 30/51] fix: reporting comments must not disturb the events
 around them

With the comment feature on, comment tokens were queued among the other
tokens, where they made the parser refuse valid streams, drop anchors and
tags, reach unreachable code when loading, and appear before the scalar
they follow; most comments were not reported at all. They now travel
beside the tokens and are delivered between events by position.
---
 yam-core/src/parsing/parser.rs      | 137 ++++++++++++----------------
 yam-core/src/parsing/parser_iter.rs |  14 ++-
 yam-core/src/parsing/scanner.rs     |  76 +++++++--------
 3 files changed, 103 insertions(+), 124 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 59e1cff..fbf95ac 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -273,6 +273,9 @@ pub struct Parser<'input, T: Source> {
     token: Option<Token<'input>>,
     /// The next YAML event to emit.
     current: Option<(Event<'input>, Span)>,
+    /// The event held back until the comments that stand before it are delivered.
+    #[cfg(feature = "comment")]
+    held_back: Option<(Event<'input>, Span)>,
     /// Anchors that have been encountered in the YAML document.
     anchors: BTreeMap<Cow<'input, str>, usize>,
     /// Next ID available for an anchor.
@@ -423,6 +426,8 @@ impl<'input, T: Source> Parser<'input, T> {
             state: State::StreamStart,
             token: None,
             current: None,
+            #[cfg(feature = "comment")]
+            held_back: None,
 
             anchors: BTreeMap::new(),
             // valid anchor_id starts from 1
@@ -609,10 +614,40 @@ impl<'input, T: Source> Parser<'input, T> {
         self.states.push(state);
     }
 
+    #[cfg(not(feature = "comment"))]
+    fn parse<'a>(&mut self) -> ParseResult<'a>
+    where
+        'input: 'a,
+    {
+        self.parse_event()
+    }
+
+    /// The next event or comment, in the order in which they stand in the stream.
+    #[cfg(feature = "comment")]
     fn parse<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
+        let (event, span) = match self.held_back.take() {
+            Some(held_back) => held_back,
+            None => self.parse_event()?,
+        };
+        let comments = &mut self.scanner.comments;
+        if comments
+            .front()
+            .is_some_and(|comment| comment.span.start.pos < span.start.pos)
+            && let Some(Token {
+                span: comment_span,
+                token_type: TokenType::Comment(comment),
+            }) = comments.pop_front()
+        {
+            self.held_back = Some((event, span));
+            return Ok((Event::Comment(comment), comment_span));
+        }
+        Ok((event, span))
+    }
+
+    fn parse_event(&mut self) -> ParseResult<'input> {
         if self.state == State::End {
             return Ok((Event::StreamEnd, Span::empty(self.scanner.mark)));
         }
@@ -660,7 +695,7 @@ impl<'input, T: Source> Parser<'input, T> {
         }
 
         loop {
-            let (ev, span) = self.next_event_impl()?;
+            let (ev, span) = self.next_loaded(recv)?;
             if ev == Event::StreamEnd {
                 self.stream_end_emitted = true;
                 recv.on_event(ev, span);
@@ -676,6 +711,19 @@ impl<'input, T: Source> Parser<'input, T> {
         Ok(())
     }
 
+    /// The next event that is not a comment. The comments before it go to `recv`.
+    fn next_loaded<R: SpannedEventReceiver<'input>>(
+        &mut self,
+        recv: &mut R,
+    ) -> ParseResult<'input> {
+        loop {
+            match self.next_event_impl()? {
+                (ev @ Event::Comment(_), span) => recv.on_event(ev, span),
+                next => return Ok(next),
+            }
+        }
+    }
+
     fn load_document<R: SpannedEventReceiver<'input>>(
         &mut self,
         first_ev: Event<'input>,
@@ -690,11 +738,11 @@ impl<'input, T: Source> Parser<'input, T> {
         }
         recv.on_event(first_ev, span);
 
-        let (ev, span) = self.next_event_impl()?;
+        let (ev, span) = self.next_loaded(recv)?;
         self.load_node(ev, span, recv)?;
 
         // DOCUMENT-END is expected.
-        let (ev, mark) = self.next_event_impl()?;
+        let (ev, mark) = self.next_loaded(recv)?;
         assert_eq!(ev, Event::DocumentEnd);
         recv.on_event(ev, mark);
 
@@ -730,17 +778,17 @@ impl<'input, T: Source> Parser<'input, T> {
         &mut self,
         recv: &mut R,
     ) -> Result<(), YamlError> {
-        let (mut key_ev, mut key_mark) = self.next_event_impl()?;
+        let (mut key_ev, mut key_mark) = self.next_loaded(recv)?;
         while key_ev != Event::MappingEnd {
             // key
             self.load_node(key_ev, key_mark, recv)?;
 
             // value
-            let (ev, mark) = self.next_event_impl()?;
+            let (ev, mark) = self.next_loaded(recv)?;
             self.load_node(ev, mark, recv)?;
 
             // next event
-            let (ev, mark) = self.next_event_impl()?;
+            let (ev, mark) = self.next_loaded(recv)?;
             key_ev = ev;
             key_mark = mark;
         }
@@ -752,12 +800,12 @@ impl<'input, T: Source> Parser<'input, T> {
         &mut self,
         recv: &mut R,
     ) -> Result<(), YamlError> {
-        let (mut ev, mut mark) = self.next_event_impl()?;
+        let (mut ev, mut mark) = self.next_loaded(recv)?;
         while ev != Event::SequenceEnd {
             self.load_node(ev, mark, recv)?;
 
             // next event
-            let (next_ev, next_mark) = self.next_event_impl()?;
+            let (next_ev, next_mark) = self.next_loaded(recv)?;
             ev = next_ev;
             mark = next_mark;
         }
@@ -847,11 +895,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::StreamEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type:
                     TokenType::VersionDirective { .. }
@@ -876,22 +919,6 @@ impl<'input, T: Source> Parser<'input, T> {
         }
     }
 
-    #[cfg(feature = "comment")]
-    fn extract_comment<'a>(&mut self) -> ParseResult<'a>
-    where
-        'input: 'a,
-    {
-        if let Token {
-            span,
-            token_type: TokenType::Comment(comment),
-        } = self.fetch_token()
-        {
-            Ok((Event::Comment(comment), span))
-        } else {
-            unreachable!()
-        }
-    }
-
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
         let mut tags = BTreeMap::new();
@@ -1111,11 +1138,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.state = State::IndentlessSequenceEntry;
                 Ok((Event::SequenceStart(anchor_id, tag), span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(_),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type: TokenType::Scalar { .. },
                 ..
@@ -1191,17 +1213,6 @@ impl<'input, T: Source> Parser<'input, T> {
             let _ = self.peek_token()?;
 
             self.skip();
-
-            #[cfg(feature = "comment")]
-            if let Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } = self.peek_token()?
-            {
-                // Ensure we don't skip next entry on repeat entry
-                self.state = State::BlockMappingKey;
-                return self.extract_comment();
-            }
         }
         match *self.peek_token()? {
             Token {
@@ -1238,11 +1249,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::MappingEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token { span, .. } => Err(YamlError::new_str(
                 span.start,
                 "while parsing a block mapping, did not find expected key",
@@ -1270,16 +1276,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 // empty scalar
                 Ok((Event::empty_scalar(), span))
             } else {
-                #[cfg(feature = "comment")]
-                if let Token {
-                    token_type: TokenType::Comment(_),
-                    ..
-                } = *self.peek_token()?
-                {
-                    self.state = State::BlockMappingValueCont;
-                    return self.extract_comment();
-                }
-
                 self.push_state(State::BlockMappingKey);
                 self.parse_node(true, true)
             }
@@ -1336,16 +1332,6 @@ impl<'input, T: Source> Parser<'input, T> {
                             self.state = State::FlowMappingValue;
                             return Ok((Event::empty_scalar(), span));
                         }
-                        #[cfg(feature = "comment")]
-                        if let Token {
-                            token_type: TokenType::Comment(_),
-                            ..
-                        } = *self.peek_token()?
-                        {
-                            self.state = State::FlowMappingFirstKeyCont;
-                            return self.extract_comment();
-                        }
-
                         self.push_state(State::FlowMappingValue);
                         return self.parse_node(false, false);
                     } else if let Token {
@@ -1528,17 +1514,6 @@ impl<'input, T: Source> Parser<'input, T> {
                     self.state = State::BlockSequenceEntry;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    #[cfg(feature = "comment")]
-                    if let Token {
-                        token_type: TokenType::Comment(..),
-                        ..
-                    } = self.peek_token()?
-                    {
-                        self.push_state(State::BlockSequenceEntry);
-                        self.state = State::BlockNode;
-                        return self.extract_comment();
-                    }
-
                     self.push_state(State::BlockSequenceEntry);
                     self.parse_node(true, false)
                 }
diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index aa21f97..f1322ee 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -112,7 +112,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
             });
         }
         // Expect a <doc-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_uncommented()?;
         if !ev.is_doc_start() {
             return Err(YamlError::UnExpectedEvent {
                 expected: "DocStart",
@@ -123,6 +123,16 @@ impl<'de, R: Source> ParserIter<'de, R> {
         Ok(YamEvent::DocStart)
     }
 
+    /// The next event that is not a comment.
+    fn next_uncommented(&mut self) -> Result<Event<'de>, YamlError> {
+        loop {
+            match self.parser.next_event_impl()?.0 {
+                Event::Comment(_) => {}
+                ev => return Ok(ev),
+            }
+        }
+    }
+
     pub(crate) fn process_doc(&mut self) -> ControlFlow<Result<YamEvent<'de>, YamlError>> {
         let ev = match self.parser.next_event_impl() {
             Ok(ev) => ev.0,
@@ -165,7 +175,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
 
     pub(crate) fn finish_document(&mut self) -> Result<YamEvent<'de>, YamlError> {
         // Expect a <stream-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_uncommented()?;
         if ev != Event::StreamEnd {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 3e14d67..7cce5cb 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -95,6 +95,10 @@ pub struct Scanner<'input, S> {
     src: S,
     pub(crate) mark: Marker,
     tokens: VecDeque<Token<'input>>,
+    /// Comments scanned so far and not yet handed out. They are kept apart from the tokens, which
+    /// they must not disturb.
+    #[cfg(feature = "comment")]
+    pub(crate) comments: VecDeque<Token<'input>>,
     pub(crate) error: Option<YamlError>,
 
     simple_keys: Vec<SimpleKey>,
@@ -127,6 +131,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                 line: 1,
             },
             tokens: VecDeque::new(),
+            #[cfg(feature = "comment")]
+            comments: VecDeque::new(),
             implicit_flow_mapping_states: Vec::new(),
             error: None,
             simple_keys: Vec::new(),
@@ -595,19 +601,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                     }
                     need_whitespace = false;
                 }
-                b'#' => {
-                    #[cfg(feature = "comment")]
-                    {
-                        let token = self.scan_comment();
-                        self.tokens.push_back(token);
-                    }
-                    #[cfg(not(feature = "comment"))]
-                    {
-                        let comment_length = self.src.skip_while_non_breakz();
-                        self.mark.pos += comment_length;
-                        self.mark.col += comment_length as u32;
-                    }
-                }
+                b'#' => self.skip_comment(),
                 _ => break,
             }
         }
@@ -823,6 +817,11 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.mark.col += n_bytes;
         self.mark.pos += n_bytes as usize;
+        // The source leaves the comment to us if it is to be reported.
+        #[cfg(feature = "comment")]
+        if result.is_ok() && self.src.peekz(0) == b'#' {
+            self.skip_comment();
+        }
         result.map_err(|message| YamlError::new_str(self.mark, message))
     }
 
@@ -900,11 +899,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.simple_key_allowed = true;
                     }
                 }
-                b'#' => {
-                    let comment_length = self.src.skip_while_non_breakz();
-                    self.mark.pos += comment_length;
-                    self.mark.col += comment_length as u32;
-                }
+                b'#' => self.skip_comment(),
                 _ => break,
             }
         }
@@ -1226,11 +1221,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             b':' if self.flow_level == 0 && start_mark.line == self.mark.line => {}
             // Inside a flow context, this is allowed.
             b':' if self.flow_level > 0 => {}
-            #[cfg(feature = "comment")]
-            b'#' => {
-                let comment = self.scan_comment();
-                self.tokens.push_back(comment);
-            }
             _ => {
                 return Err(YamlError::new_str(
                     self.mark,
@@ -1316,11 +1306,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-        #[cfg(feature = "comment")]
-        if self.src.peekz(0) == b'#' {
-            let comment = self.scan_comment();
-            self.tokens.push_back(comment);
-        }
 
         // Check if we are at the end of the line.
         if !is_breakz(self.src.peekz(0)) {
@@ -2209,20 +2194,29 @@ impl<'input, S: Source> Scanner<'input, S> {
         Ok(string)
     }
 
-    #[cfg(feature = "comment")]
+    /// Skips a comment up to the end of its line, and keeps it if comments are reported.
     #[allow(clippy::cast_possible_truncation)]
-    fn scan_comment(&mut self) -> Token<'input> {
-        let start = self.mark;
-        let mut string = Vec::with_capacity(100);
-        self.src.skip_and_accumulate_to_eol(&mut string);
-        self.mark.pos += string.len();
-        self.mark.col += string.len() as u32;
-
-        Token {
-            span: Span::new(start, self.mark),
-            token_type: TokenType::Comment(Cow::Owned(unsafe {
-                String::from_utf8_unchecked(string)
-            })),
+    fn skip_comment(&mut self) {
+        #[cfg(feature = "comment")]
+        {
+            let start = self.mark;
+            let mut string = Vec::with_capacity(100);
+            while !is_breakz(self.src.peekz(0)) {
+                string.push(self.src.peekz(0));
+                self.skip_blank();
+            }
+            self.comments.push_back(Token {
+                span: Span::new(start, self.mark),
+                token_type: TokenType::Comment(Cow::Owned(unsafe {
+                    String::from_utf8_unchecked(string)
+                })),
+            });
+        }
+        #[cfg(not(feature = "comment"))]
+        {
+            let comment_length = self.src.skip_while_non_breakz();
+            self.mark.pos += comment_length;
+            self.mark.col += comment_length as u32;
         }
     }
 }
-- 
2.43.0


From 507a2565ab82538a28136ef4da5252fb91e5ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 31/51] fix: a plain scalar in a flow collection may end in a
 lone dash

The check for a scalar that starts with "-" followed by a flow indicator ran
for every word of the scalar, so `[a -]` was refused.
---
 yam-core/src/parsing/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 7cce5cb..cc9fbe3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -974,7 +974,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if string.is_empty()
+                && self.flow_level > 0
+                && self.src.peekz(0) == b'-'
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
                     "plain scalar cannot start with '-' followed by ,[]{}",
-- 
2.43.0


From 8664a97fb0d992f9a24f58ddabba5759b2abba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 32/51] fix: an indented --- or ... inside a plain scalar is
 text

Only a marker at the start of a line ends the document; `k: a\n ---` was refused.
---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cc9fbe3..1e1152a 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -968,7 +968,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut end_mark = self.mark;
 
         loop {
-            let next_is_document_indicator = self.src.next_is_document_indicator();
+            let next_is_document_indicator =
+                self.mark.col == 1 && self.src.next_is_document_indicator();
             if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
             {
                 break;
-- 
2.43.0


From 1b48c04f01ebc1fb319188366ae5167642f1e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 33/51] fix: a tab may separate a mapping's ":" from its value

`key:<tab>value` was refused whenever the value began with a letter or a dash.
A tab still cannot indent a block collection.
---
 yam-core/src/parsing/scanner.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 1e1152a..5ec5520 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1,5 +1,5 @@
 use crate::parsing::char_utils::{
-    as_hex, is_alpha, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
+    as_hex, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
     is_breakz, is_flow, is_tag_char, is_uri_char,
 };
 use crate::parsing::source::Source;
@@ -626,17 +626,11 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        if self.src.peekz(0) == b'\t'
+        // A tab separates the indicator from a value, but does not indent a block collection.
+        let only_tabs = self.src.peekz(0) == b'\t'
             && !self
                 .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws()
-            && (self.src.peekz(0) == b'-' || is_alpha(self.src.peekz(0)))
-        {
-            return Err(YamlError::new_str(
-                self.mark,
-                "':' must be followed by a valid YAML whitespace",
-            ));
-        }
+                .has_valid_yaml_ws();
 
         if sk.possible {
             // insert simple key
@@ -697,7 +691,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
             self.roll_one_col_indent();
 
-            self.simple_key_allowed = self.flow_level == 0;
+            self.simple_key_allowed = self.flow_level == 0 && !only_tabs;
         }
         self.tokens.push_back(Token {
             span: Span::empty(start_mark),
-- 
2.43.0


From 9544cb7f478a92022a7ce1c4ae0daa5fc1bdb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 34/51] fix: a tab may separate "?" from its key

`?<tab>key` and `? <tab>key` were refused, and so was a "?" that ends the stream.
---
 yam-core/src/parsing/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5ec5520..018ba7e 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -568,7 +568,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
-        self.skip_yaml_whitespace()?;
+        let only_spaces = !self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
+        if is_break(self.src.peekz(0)) {
+            self.skip_yaml_whitespace()?;
+        } else {
+            // A tab separates the indicator from a key, but does not indent a block collection.
+            self.simple_key_allowed &= only_spaces;
+        }
         if self.src.peekz(0) == b'\t' {
             return Err(YamlError::new_str(
                 self.mark,
-- 
2.43.0


From 8e23c1b9606c7a7245b1d8fea0c15d8a5a9aaafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 35/51] fix: a byte order mark before the stream is not part of
 it

The mark became the first characters of the first key, or turned the first
comment, directive or marker into text.
---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 018ba7e..d745bfb 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -338,6 +338,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             token_type: TokenType::StreamStart,
         });
         self.simple_keys.push(SimpleKey::new(Marker::default()));
+
+        // A byte order mark is no part of the first line.
+        if [0, 1, 2].map(|n| self.src.peekz(n)) == [0xEF, 0xBB, 0xBF] {
+            self.src.skip(3);
+            self.mark.pos += 3;
+        }
     }
 
     fn fetch_main_loop(&mut self) -> ScanResult {
-- 
2.43.0


From 200644dc68985d6cf85c33db28068e5b2900b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 36/51] fix: lines of blanks and tabs may follow a "?"

---
 yam-core/src/parsing/scanner.rs | 58 ++++++++++-----------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d745bfb..d555179 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -574,18 +574,24 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
-        let only_spaces = !self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
-        if is_break(self.src.peekz(0)) {
-            self.skip_yaml_whitespace()?;
-        } else {
+        loop {
+            let found_tabs = self.skip_ws_to_eol(SkipTabs::Yes, true)?.found_tabs();
+            if is_break(self.src.peekz(0)) {
+                self.skip_linebreak();
+                self.simple_key_allowed = self.flow_level == 0;
+                continue;
+            }
             // A tab separates the indicator from a key, but does not indent a block collection.
-            self.simple_key_allowed &= only_spaces;
-        }
-        if self.src.peekz(0) == b'\t' {
-            return Err(YamlError::new_str(
-                self.mark,
-                "tabs disallowed in this context",
-            ));
+            if found_tabs && !is_breakz(self.src.peekz(0)) && self.flow_level == 0 {
+                if self.mark.line > start_mark.line {
+                    return Err(YamlError::new_str(
+                        self.mark,
+                        "tabs disallowed in this context",
+                    ));
+                }
+                self.simple_key_allowed = false;
+            }
+            break;
         }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
@@ -595,36 +601,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn skip_yaml_whitespace(&mut self) -> ScanResult {
-        let mut need_whitespace = true;
-        loop {
-            match self.src.peekz(0) {
-                b' ' => {
-                    self.skip_blank();
-
-                    need_whitespace = false;
-                }
-                b'\n' | b'\r' => {
-                    // ? self.src.lookahead(2);
-                    self.skip_linebreak();
-                    if self.flow_level == 0 {
-                        self.simple_key_allowed = true;
-                    }
-                    need_whitespace = false;
-                }
-                b'#' => self.skip_comment(),
-                _ => break,
-            }
-        }
-
-        if need_whitespace {
-            Err(YamlError::new_str(self.mark, "expected whitespace"))
-        } else {
-            Ok(())
-        }
-    }
-
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
-- 
2.43.0


From faa56313b04e9b3e780cee83bf78bf28046dc2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 37/51] fix: the ":" of an adjacent value may be on the line
 after a flow collection key

`{[a]\n :b}` was refused, although `{"a"\n :b}` was not.
---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d555179..e8ce5ec 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -428,12 +428,14 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_non_blank();
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
+        let span = self.get_span(start_mark);
+        self.tokens.push_back(Token { span, token_type });
+
         if self.flow_level > 0 {
+            // As for quoted keys, the ":" of an adjacent value may be on a later line.
+            self.skip_to_next_token()?;
             self.adjacent_value_allowed_at = self.mark.pos;
         }
-
-        let span = self.get_span(start_mark);
-        self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
 
-- 
2.43.0


From c66a0a53102d4139d98463e1f32fdc18fac772c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 38/51] fix: refuse an empty verbatim tag

`!<>` was accepted as a tag without a name. The other forms of tags without a
name are errors already.
---
 yam-core/src/parsing/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index e8ce5ec..f50bba7 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1567,6 +1567,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
         self.skip_non_blank();
 
+        if string.is_empty() {
+            return Err(YamlError::new_str(
+                *start_mark,
+                "while scanning a verbatim tag, did not find expected tag URI",
+            ));
+        }
+
         Ok(string)
     }
 
-- 
2.43.0


From b5d2d3e29607cbe9bae758411f2ae6fc586139a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 39/51] fix: refuse a TAG directive without a blank between
 handle and prefix

`%TAG !n!x:` declared the handle `!n!` with the prefix `x:`.
---
 yam-core/src/parsing/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f50bba7..36748e2 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2102,6 +2102,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.mark.pos += n_blanks;
         self.mark.col += n_blanks as u32;
 
+        if n_blanks == 0 {
+            return Err(YamlError::new_str(
+                *mark,
+                "while scanning TAG, did not find expected whitespace",
+            ));
+        }
+
         let prefix = String::from_utf8(self.scan_tag_prefix(mark)?)
             .map_err(|_| YamlError::new_str(*mark, "Error decoding tag prefix as UTF-8"))?
             .into();
-- 
2.43.0


From 44d32c64f2ecc4d892e561648c4bfffae632a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 40/51] fix: refuse plain scalars that begin with | or > in a
 flow collection

`[|a]` was read as the plain scalar `|a`. Block scalars cannot stand in flow
collections, and their indicators cannot begin a plain scalar.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 36748e2..27fcee3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -376,7 +376,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b':' | b'?', x] if !is_blank_or_break(x) && self.flow_level == 0 => {
                 self.fetch_plain_scalar()
             }
-            [b'%' | b'@' | b'`', _] => {
+            [b'%' | b'@' | b'`' | b'|' | b'>', _] => {
                 let chr = self.src.peek_char();
                 Err(YamlError::new_str(
                     self.mark,
-- 
2.43.0


From b91f3904f77891a8c62337a1f93cc49d9f4a5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 41/51] fix: refuse a flow collection glued to an anchor

`&a[x]` was read as `&a [x]`. Nothing may follow a name but a blank, a line break
or the end of an entry or flow collection.
---
 yam-core/src/parsing/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 27fcee3..d28c810 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1486,6 +1486,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             ));
         }
 
+        if matches!(self.src.peekz(0), b'[' | b'{') {
+            return Err(YamlError::new_str(
+                start_mark,
+                "while scanning an anchor or alias, did not find expected whitespace or line break",
+            ));
+        }
+
         let tok = if alias {
             TokenType::Alias(Cow::Owned(unsafe { String::from_utf8_unchecked(string) }))
         } else {
-- 
2.43.0


From 5c3c69337960743056c28ea01c17ff11a78a4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 42/51] fix: refuse a flow collection glued to a tag inside a
 flow collection

`[!t[x]]` was read as `[!t [x]]`; outside of flow collections it is an error
already.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d28c810..cea5e31 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1540,7 +1540,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         if is_blank_or_breakz(self.src.peekz(0))
-            || (self.flow_level > 0 && is_flow(self.src.peekz(0)))
+            || (self.flow_level > 0 && matches!(self.src.peekz(0), b',' | b']' | b'}'))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From 5a4332edd14833bffdf1d862f7da760e640cbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 43/51] fix: a comment after a tab ends a plain scalar

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cea5e31..7b17ef6 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1037,9 +1037,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty, or holds only a comment, which ends the scalar.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0


From 87690de4d554dbd182e0466369b756e675a2b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 44/51] fix: a tab does not separate two dashes at the end of
 the stream

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 7b17ef6..1630aa3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -523,7 +523,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         // generate BLOCK-SEQUENCE-START if indented
         self.roll_indent(mark.col, None, TokenType::BlockSequenceStart, mark);
         let res = self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-        if res.found_tabs() && (b'-' == self.src.peekz(0)) && is_blank_or_break(self.src.peekz(1)) {
+        if res.found_tabs() && (b'-' == self.src.peekz(0)) && is_blank_or_breakz(self.src.peekz(1)) {
             return Err(YamlError::new_str(
                 self.mark,
                 "'-' must be followed by a valid YAML whitespace",
-- 
2.43.0


From 94e5d2b75b61e4e50cf5e9520e2b5c42c949ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 45/51] fix: a blank and a tab after an explicit ":" do not
 indent a block collection

`: <tab>- a` and `: <tab>a: b` were accepted, unlike `:<tab>- a` and
`? <tab>- a`.
---
 yam-core/src/parsing/scanner.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 1630aa3..3fa6d48 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -617,10 +617,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         // Skip over ':'.
         self.skip_non_blank();
         // A tab separates the indicator from a value, but does not indent a block collection.
-        let only_tabs = self.src.peekz(0) == b'\t'
-            && !self
-                .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws();
+        let found_tabs = is_blank(self.src.peekz(0))
+            && self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
 
         if sk.possible {
             // insert simple key
@@ -681,7 +679,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
             self.roll_one_col_indent();
 
-            self.simple_key_allowed = self.flow_level == 0 && !only_tabs;
+            self.simple_key_allowed = self.flow_level == 0 && !found_tabs;
         }
         self.tokens.push_back(Token {
             span: Span::empty(start_mark),
-- 
2.43.0


From 3e2961d228bbd37f28e16db9a7d09fc0273e1b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:26 +0000
Subject: [PATCH 46/51] fix: an empty block scalar at the end of the stream has
 no line break of its own

"--- |\n" was read as "\n" at the end of the stream, but as "" before
another document.
---
 yam-core/src/parsing/scanner.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 3fa6d48..6a97a43 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1337,17 +1337,16 @@ impl<'input, S: Source> Scanner<'input, S> {
         // ```
         if self.src.peek_checked(0).is_none() {
             let contents = match chomping {
-                // We strip trailing linebreaks. Nothing remain.
-                ChompIndicator::Strip => Vec::new(),
-                // There was no newline after the chomping indicator.
-                _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-                // Otherwise, the newline after chomping is ignored.
+                // There is no content: all line breaks are trailing ones.
+                ChompIndicator::Strip | ChompIndicator::Clip => Vec::new(),
+                // The end of the stream ends a last line of blanks as a line break would.
+                ChompIndicator::Keep
+                    if trailing_breaks.is_empty()
+                        && self.mark.col > 1
+                        && self.mark.line > start_mark.line =>
+                {
+                    chomping_break
+                }
                 ChompIndicator::Keep => trailing_breaks,
             };
             self.tokens.push_back(Token {
-- 
2.43.0


From bc38f2dd82bbf4b3a4f67ff9a56ddc991205e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 47/51] fix: a document marker may follow a block scalar of
 blank lines

"|\n  \n..." was refused as wrongly indented.
---
 yam-core/src/parsing/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6a97a43..af0eec9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1359,7 +1359,9 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        let at_document_marker =
+            self.mark.col == 1 && (self.next_is_document_end() || self.next_is_document_start());
+        if self.mark.col < indent && self.mark.col > self.indent && !at_document_marker {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From 76b9a8228fd514cd3dd8fe142b8d5289ccdda3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 48/51] fix: a byte order mark may stand before any document

It was dropped only at the very start of the stream; after a "..." or a
comment it became the first characters of the next document.
---
 yam-core/src/parsing/scanner.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index af0eec9..53b121d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -105,6 +105,8 @@ pub struct Scanner<'input, S> {
     indents: Vec<Indent>,
     implicit_flow_mapping_states: Vec<ImplicitMappingState>,
     stream_end_reached: bool,
+    /// Only comments and byte order marks stood since the last document's end.
+    at_document_prefix: bool,
     tokens_available: bool,
     simple_key_allowed: bool,
     pub(crate) stream_start_produced: bool,
@@ -139,6 +141,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             indents: Vec::new(),
 
             stream_end_reached: false,
+            at_document_prefix: false,
             tokens_available: false,
             stream_start_produced: false,
             simple_key_allowed: true,
@@ -255,6 +258,10 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.src.next_is_three(b'.') && is_blank_or_breakz(self.src.peekz(3))
     }
 
+    fn next_is_byte_order_mark(&mut self) -> bool {
+        self.src.peekz(0) == 0xEF && self.src.peekz(1) == 0xBB && self.src.peekz(2) == 0xBF
+    }
+
     fn fetch_next_token(&mut self) -> ScanResult {
         if !self.stream_start_produced {
             self.fetch_stream_start();
@@ -262,6 +269,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.skip_to_next_token()?;
+        // A byte order mark is no part of the first line of a document.
+        while self.at_document_prefix && self.mark.col == 1 && self.next_is_byte_order_mark() {
+            self.src.skip(3);
+            self.mark.pos += 3;
+            self.skip_to_next_token()?;
+        }
+        self.at_document_prefix = false;
         self.stale_simple_keys()?;
 
         let mark = self.mark;
@@ -338,12 +352,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             token_type: TokenType::StreamStart,
         });
         self.simple_keys.push(SimpleKey::new(Marker::default()));
-
-        // A byte order mark is no part of the first line.
-        if [0, 1, 2].map(|n| self.src.peekz(n)) == [0xEF, 0xBB, 0xBF] {
-            self.src.skip(3);
-            self.mark.pos += 3;
-        }
+        self.at_document_prefix = true;
     }
 
     fn fetch_main_loop(&mut self) -> ScanResult {
@@ -770,6 +779,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn finish_document(&mut self) -> ScanResult {
         self.fetch_document_indicator(TokenType::DocumentEnd)?;
+        self.at_document_prefix = true;
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
         if is_breakz(self.src.peekz(0)) || self.src.peekz(0) == b'#' {
             Ok(())
-- 
2.43.0


From 1b300e82912d4ef49139b869face94590b6270a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 49/51] fix: keep the error of a load in the middle of a
 document

---
 yam-core/src/parsing/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index fbf95ac..004852e 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -731,10 +731,9 @@ impl<'input, T: Source> Parser<'input, T> {
         recv: &mut R,
     ) -> Result<(), YamlError> {
         if !matches!(first_ev, Event::DocumentStart(_)) {
-            return Err(YamlError::new_str(
-                span.start,
-                "did not find expected <document-start>",
-            ));
+            let error = YamlError::new_str(span.start, "did not find expected <document-start>");
+            self.error = Some(error.clone());
+            return Err(error);
         }
         recv.on_event(first_ev, span);
 
-- 
2.43.0


From b3ea7808d0f0607ceae5ee75bb499c144b47d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 50/51] fix: a top-level block scalar may begin with a tab

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 53b121d..c1f7d56 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1319,7 +1319,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.read_break(&mut chomping_break);
         }
 
-        if self.src.peekz(0) == b'\t' {
+        // At the top level the content needs no indentation before the tab.
+        if self.indent > 0 && self.src.peekz(0) == b'\t' {
             return Err(YamlError::new_str(
                 start_mark,
                 "a block scalar content cannot start with a tab",
-- 
2.43.0


From fc19f24c7ee2dc2dd64d184d4b5fa8a7e006e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 51/51] fix: an explicit key may stand behind a tab on the next
 line

---
 yam-core/src/parsing/scanner.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index c1f7d56..23011b4 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -585,24 +585,14 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
-        loop {
-            let found_tabs = self.skip_ws_to_eol(SkipTabs::Yes, true)?.found_tabs();
-            if is_break(self.src.peekz(0)) {
-                self.skip_linebreak();
-                self.simple_key_allowed = self.flow_level == 0;
-                continue;
-            }
-            // A tab separates the indicator from a key, but does not indent a block collection.
-            if found_tabs && !is_breakz(self.src.peekz(0)) && self.flow_level == 0 {
-                if self.mark.line > start_mark.line {
-                    return Err(YamlError::new_str(
-                        self.mark,
-                        "tabs disallowed in this context",
-                    ));
-                }
-                self.simple_key_allowed = false;
-            }
-            break;
+        let found_tabs = self.skip_ws_to_eol(SkipTabs::Yes, true)?.found_tabs();
+        // A tab separates the indicator from a key, but does not indent a block collection.
+        if found_tabs && !is_breakz(self.src.peekz(0)) && self.flow_level == 0 {
+            self.simple_key_allowed = false;
+        }
+        // On a later line the key must be indented.
+        if is_break(self.src.peekz(0)) {
+            self.roll_one_col_indent();
         }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
-- 
2.43.0

