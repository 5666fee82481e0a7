From 7d6f5d6fd5cbca9336f1464b0627034cf7799434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH] fix: utf8 decode error at end of input no longer swallows
 following valid text

[0xE3, 0x41] with is_end = true reported error_range (0, 2), taking the valid
'A' into the error, while [0xE3, 0x41, 0x42] reports (0, 1).
---
 src/utf8.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..c99e545 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -30,9 +30,14 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
         let trailing_bytes = input.len() - valid_up_to;
         let byte = input[valid_up_to];
         // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
+        // Only continuation bytes can be part of a truncated code point: any
+        // other byte belongs to the text that follows the error.
+        let is_truncated = (((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
             || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
+            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4))
+            && input[(valid_up_to + 1)..]
+                .iter()
+                .all(|b| (b & 0b1100_0000) == 0b1000_0000);
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0

