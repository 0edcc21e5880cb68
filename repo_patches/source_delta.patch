From 1233a63bfac3ccd113f656615b7d9fa60bb26fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 01/46] verif: cfg(nd_verif) hook pulling an out-of-tree
 harness into the crate

---
 src/main.rs   | 13 +++++++++++++
 src/params.rs |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..5baf996 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `nd_verif` is passed only by the verification builds
+
 mod byte;
 mod drain;
 mod eval;
@@ -10,6 +12,12 @@ mod streambuf;
 mod template;
 mod text;
 
+// the verification harness lives out of the tree; `--cfg nd_verif` pulls it in
+#[cfg(nd_verif)]
+mod verif {
+    include!(env!("ND_VERIF_HARNESS"));
+}
+
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
 use std::fs::File;
@@ -103,6 +111,11 @@ impl Args {
 }
 
 fn main() {
+    #[cfg(nd_verif)]
+    if verif::main() {
+        return;
+    }
+
     let mut command = Args::command()
         .name("nd")
         .version("0.0.1")
diff --git a/src/params.rs b/src/params.rs
index e01189d..50e5003 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -4,9 +4,13 @@
 #[cfg(test)]
 pub const BLOCK_SIZE: usize = 29 * 5;
 
-#[cfg(not(test))]
+#[cfg(not(any(test, nd_verif)))]
 pub const BLOCK_SIZE: usize = 2 * 1024 * 1024;
 
+// verification builds (see main.rs) choose the block size at compile time
+#[cfg(all(nd_verif, not(test)))]
+pub const BLOCK_SIZE: usize = crate::verif::BLOCK_SIZE;
+
 pub const MARGIN_SIZE: usize = 256;
 
 // end of params.rs
-- 
2.43.0


From e5e6361bdf8faaf56397f2b6cb1a424c76c43fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 02/46] fix: count a request to StreamBuf from the unconsumed
 part of the buffer

---
 src/streambuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..0a616a7 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -90,9 +90,9 @@ impl StreamBuf {
         // first remove the margin
         self.buf.truncate(self.len);
 
-        // calculate target buffer length
+        // calculate target buffer length; `request` is on the unconsumed part of the buffer
         // debug_assert!(self.target_len > self.len);
-        let target_len = std::cmp::max(self.target_len, request);
+        let target_len = std::cmp::max(self.target_len, self.pos.saturating_add(request));
 
         // collect into the buffer without margin
         loop {
-- 
2.43.0


From cf57c17cece19de4e70938dc0b5cebce3277e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 03/46] fix: reparse a hex column cut by the end of the buffer

---
 src/text/parser/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..c983717 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -390,7 +390,7 @@ impl TextParser {
         Some((fwd1 + fwd2 + 1, offset as usize, span as usize))
     }
 
-    fn read_body(&self, stream: &[u8], len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
+    fn read_body(&self, stream: &[u8], len: usize, is_eof: bool, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
         debug_assert!(stream.len() >= len + MARGIN_SIZE);
 
         let mut stream = stream;
@@ -417,15 +417,17 @@ impl TextParser {
         if rem_len > 0 {
             // tail
             debug_assert!(rem_len < 4 * 48);
+            let base_len = buf.len();
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
 
-            if parsed > rem_len {
+            // neither '|' nor '\n' found before the end of the buffer, which is not the end of the line unless the
+            // source reached EOF. the last column may be cut there, so we need to parse it again with the next buffer.
+            if !is_eof && scanned >= rem_len && parsed >= rem_len {
                 debug_assert!(!is_in_tail);
-                let total = (len + parsed - rem_len) / 3;
-                let keep = len / 3;
-                buf.truncate(buf.len() + keep - total);
-                return Some((keep * 3, false, false, true));
+                let keep = rem_len / 3;
+                buf.truncate(std::cmp::min(buf.len(), base_len + keep));
+                return Some((len - rem_len + keep * 3, false, false, true));
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
@@ -447,7 +449,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
             rem_len -= fwd;
             is_in_tail = delim_found;
@@ -508,7 +510,7 @@ impl TextParser {
         let mut is_in_tail = false;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
 
             rem_len -= fwd;
-- 
2.43.0


From a4c2e13fa86ca945412387124633ed15bd0e1a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 04/46] fix: align the parsed stream, not its text, to the word
 size

---
 src/pipeline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..7a468d8 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,10 +330,13 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
         if self.in_format.is_binary() {
-            source
-        } else if self.in_format.is_gapless() {
+            return Box::new(RawStream::new(source, self.word_size, self.filler));
+        }
+
+        // it's the parsed stream that is rounded up to the word size, not the text
+        let source = Box::new(RawStream::new(source, 1, self.filler));
+        if self.in_format.is_gapless() {
             Box::new(GaplessTextStream::new(source, self.word_size, self.filler, &self.in_format))
         } else {
             Box::new(TextStream::new(source, self.word_size, self.filler, &self.in_format))
-- 
2.43.0


From 3d3933bb8b3932ec9cd672e86277e08603618323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 05/46] fix: do not underflow on ranges that end at the head of
 the stream

---
 src/mapper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..beaa76f 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,8 +195,8 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
-            _ => usize::MAX,
+            (EndAnchored(_), StartAnchored(x)) if x > 0 => x - 1,
+            _ => usize::MAX, // the others, and the ones that are always empty
         }
     }
 
-- 
2.43.0


From 23abecc9cc76e6bebfd014d0ecc78c5bc4716d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 06/46] fix: apply patch records at the end of the stream

---
 src/byte/patch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..5356130 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -104,6 +104,11 @@ impl ByteStream for PatchStream {
 
             let is_eof = loop {
                 if rem_len == 0 {
+                    // patches at the end of the stream are what append bytes
+                    let tail = self.offset;
+                    while self.patch.offset == tail {
+                        self.patch.feed(tail, buf)?;
+                    }
                     break true;
                 }
 
-- 
2.43.0


From 8d6fd30e05d40266035b9708c0bfbadf152a66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 07/46] fix: keep the tail margin of strided slices on every
 fill

---
 src/segment/stride.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..6f449c3 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,9 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        // the reserved bytes are kept behind the last segment here too; the tail of the stream is not known yet
+        let n_extra = self.count_segments(next_tail + self.tail_reserved_bytes - (len + self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From d3f1b29df7fdc59523b1e33df4e35eb03f740528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 08/46] fix: do not let the block boundaries decide which
 matches are found

---
 src/segment/exact.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..4569cc4 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -58,7 +58,14 @@ impl SegmentStream for ExactMatchSlicer {
             });
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // matches don't overlap each other: the scan is resumed after the last one
+        self.scanned = if is_eof {
+            bytes
+        } else {
+            let last_tail = self.segments.last().map_or(0, |x| x.tail());
+            let scanned = (bytes + 1).saturating_sub(len);
+            std::cmp::max(self.scanned, std::cmp::max(scanned, last_tail))
+        };
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 6738c3adfde678cc1deef83121c4d1425852350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 09/46] fix: count the slices already dumped but not consumed
 only once

---
 src/drain/scatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..41af5f7 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From b7b0888b84016984994fcd404e95ee8ffa3fe0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 10/46] fix: clip the chunks of --walk at the end of the
 stream, and fill long ones

---
 src/segment/walk.rs | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..eca5216 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -117,10 +117,12 @@ impl WalkSlicer {
     }
 
     fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+        let tail = self.pos + chunk_len;
+        let (is_eof, bytes) = self.src.fill_buf(tail)?;
+        if is_eof && bytes < tail {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            let remaining = bytes.saturating_sub(self.pos);
+            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {remaining})");
         }
 
         for span in &self.spans {
@@ -128,13 +130,13 @@ impl WalkSlicer {
                 break;
             }
 
-            let len = std::cmp::min(self.pos + span, bytes) - self.pos;
+            let len = std::cmp::min(*span, bytes - self.pos);
             if len < *span {
                 eprintln!("slice clipped (span = {span}, remaining bytes = {len}).");
             }
 
             self.segments.push(Segment { pos: self.pos, len });
-            self.pos += span;
+            self.pos += len;
         }
         Ok((is_eof, bytes))
     }
@@ -143,25 +145,15 @@ impl WalkSlicer {
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
+        let (mut is_eof, mut bytes) = self.src.fill_buf(request)?;
 
-        if is_eof && self.pos >= bytes {
-            let count = self.segments.len();
-            let max_consume = std::cmp::min(bytes, self.pos);
-            return Ok((is_eof, bytes, count, max_consume));
-        }
-
-        let (is_eof, bytes) = loop {
+        // slices chunks that start in the range prepared by the first fill. the last one may need
+        // more bytes, in which case the range beyond it is left for the next call.
+        let limit = bytes;
+        while self.pos < limit {
             let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
-            }
-
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
-            }
-        };
+            (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
+        }
 
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
-- 
2.43.0


From ccdd8a226143682b9de1e9dd88c097c1f2bbe006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 11/46] fix: give the bitwise operators their precedence in
 expressions

---
 src/eval.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..0aea8ea 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -61,8 +61,14 @@ fn latter_precedes(former: &Token, latter: &Token) -> bool {
                 return !is_shift(former);
             } else if is_pow(former) || is_pow(latter) {
                 return is_pow(latter);
+            } else if is_cmp(former) || is_cmp(latter) {
+                return !is_cmp(former);
+            } else if former == '&' || latter == '&' {
+                return former != '&';
+            } else if former == '^' || latter == '^' {
+                return former != '^';
             }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
+            debug_assert!(former == '|' && latter == '|');
             false
         }
         _ => true,
-- 
2.43.0


From 35712ad3e3adf1ff8aa5063fd6067c7a6c0ac28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 12/46] fix: evaluate expressions as they are written, not in
 their simplified form

---
 src/eval.rs | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 0aea8ea..45a3c70 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -1037,6 +1037,28 @@ fn canonize_rpn(tokens: &mut [(Token, usize)]) -> Option<usize> {
     Some(len)
 }
 
+fn is_linear(tokens: &[(Token, usize)]) -> bool {
+    // has_var for each node on the stack
+    let mut stack: Vec<bool> = Vec::new();
+    for &(token, _) in tokens {
+        let has_var = match token {
+            Val(_) => Some(false),
+            Var(_, _) => Some(true),
+            Prefix(op) => stack.pop().filter(|&x| !x || is_addsub(op)),
+            Op(op) => match (stack.pop(), stack.pop()) {
+                (Some(y), Some(x)) => Some(x || y).filter(|_| is_addsub(op) || (op == '*' && !(x && y)) || !(x || y)),
+                _ => None,
+            },
+            _ => None,
+        };
+        match has_var {
+            Some(x) => stack.push(x),
+            None => return false,
+        }
+    }
+    stack.len() == 1
+}
+
 #[test]
 fn test_simplify_rpn() {
     macro_rules! test {
@@ -1181,13 +1203,12 @@ where
                 let x = stack.last_mut().context(starved)?;
                 *x = apply_op(op, *x, y);
             }
-            (Var(id, c), lhs) => {
-                if lhs == 0 {
-                    stack.push(c * get(id, 0));
-                } else {
-                    let x = stack.last_mut().context(starved)?;
-                    *x = c * get(id, *x);
-                }
+            (Var(id, c), _) => {
+                stack.push(c * get(id, 0));
+            }
+            (VarArr(id), _) => {
+                let x = stack.last_mut().context(starved)?;
+                *x = get(id, *x);
             }
             _ => {
                 return Err(anyhow!("unexpected token: {:?}", token));
@@ -1288,16 +1309,20 @@ impl Rpn {
         let mut tokens = tokenize(input, vars)?;
         mark_prefices(&mut tokens).with_context(|| format!("invalid token order found in {input:?}"))?;
 
-        let mut rpn = sort_into_rpn(&tokens).with_context(|| format!("parenthes not balanced in {input:?}"))?;
-
-        let len = canonize_rpn(&mut rpn).context("failed to canonize rpn (internal error)")?;
-        rpn.truncate(len);
-
+        let rpn = sort_into_rpn(&tokens).with_context(|| format!("parenthes not balanced in {input:?}"))?;
         Ok(Rpn { rpn })
     }
 
+    // returns the tokens in the canonical form if the expression is linear to the variables,
+    // otherwise returns them in the original form.
     pub fn tokens(&self) -> Vec<Token> {
-        self.rpn.iter().map(|x| x.0).collect::<Vec<_>>()
+        let mut rpn = self.rpn.clone();
+        if is_linear(&rpn) {
+            if let Some(len) = canonize_rpn(&mut rpn) {
+                rpn.truncate(len);
+            }
+        }
+        rpn.iter().map(|x| x.0).collect::<Vec<_>>()
     }
 
     pub fn evaluate<F>(&self, get: F) -> Result<i64>
-- 
2.43.0


From 660f9ffc8ff539d7c2325e9a291517f802d433d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 13/46] fix: accept chained unary operators and ones at the
 head of an array index

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 45a3c70..296a957 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -315,7 +315,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
         let (former, latter) = tokens.split_at_mut(1);
         match (former[0], latter[0]) {
             // fixup unary op
-            (Op(_) | Paren('('), Op(y)) if is_unary(y) => {
+            (Op(_) | Prefix(_) | Paren('(' | '['), Op(y)) if is_unary(y) => {
                 latter[0] = Prefix(if y == '~' { '!' } else { y });
             }
             // prefix followed by an expression
-- 
2.43.0


From 3bead40a39f01ade7d3304cfb285361f00bfd41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 14/46] fix: parse the SI prefix E

---
 src/eval.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 296a957..3124865 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -228,6 +228,9 @@ where
     push_digit(digit);
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
+        if digit >= 10 && num_base <= 10 {
+            break; // not a digit; possibly a SI prefix ("E")
+        }
         push_skip_mask(skip);
         if !skip {
             push_digit(digit);
@@ -252,7 +255,7 @@ where
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-- 
2.43.0


From fd1b79660e0f633ef728c2f551db6eb1c87a25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 15/46] fix: feed --walk only when it is short of bytes

---
 src/segment/walk.rs | 62 +++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index eca5216..d0a9f83 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -8,6 +8,22 @@ use crate::params::BLOCK_SIZE;
 use anyhow::Result;
 use std::collections::HashMap;
 
+struct WalkSource {
+    src: Box<dyn ByteStream>,
+    is_eof: bool,
+    bytes: usize,
+}
+
+impl WalkSource {
+    // feeds the source only when it's short of bytes, to keep the buffer bounded
+    fn reserve(&mut self, request: usize) -> Result<()> {
+        if !self.is_eof && self.bytes < request {
+            (self.is_eof, self.bytes) = self.src.fill_buf(request)?;
+        }
+        Ok(())
+    }
+}
+
 struct SpanFetcher {
     expr: String,
     rpn: Rpn,
@@ -31,7 +47,7 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut WalkSource) -> i64 {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
         if index < 0 {
@@ -41,14 +57,14 @@ impl SpanFetcher {
         let offset = skip + index as usize * elem_size;
         let min_fill_bytes = offset + elem_size;
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
-        if bytes < min_fill_bytes {
+        src.reserve(min_fill_bytes).expect("failed to feed the input stream");
+        if src.bytes < min_fill_bytes {
             return 0;
         }
 
         // always in the little endian for now
         // FIXME: explicit big / little endian with "bb", "hb", "wb", ..., and "bl", "hl", "wl", ...
-        let stream = src.as_slice();
+        let stream = src.src.as_slice();
         let stream = &stream[offset..offset + 8];
 
         // leave the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
@@ -57,7 +73,7 @@ impl SpanFetcher {
         (val << shift) >> shift
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
+    fn get_next_span(&self, skip: usize, src: &mut WalkSource) -> usize {
         let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
 
         let val = self.rpn.evaluate(getter);
@@ -77,7 +93,7 @@ impl SpanFetcher {
 }
 
 pub struct WalkSlicer {
-    src: Box<dyn ByteStream>,
+    src: WalkSource,
     fetchers: Vec<SpanFetcher>,
     spans: Vec<usize>,
     segments: Vec<Segment>,
@@ -97,7 +113,11 @@ impl WalkSlicer {
         let segments = Vec::new();
 
         Ok(WalkSlicer {
-            src,
+            src: WalkSource {
+                src,
+                is_eof: false,
+                bytes: 0,
+            },
             fetchers,
             spans,
             segments,
@@ -116,10 +136,12 @@ impl WalkSlicer {
         chunk_len
     }
 
-    fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
+    fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<()> {
         let tail = self.pos + chunk_len;
-        let (is_eof, bytes) = self.src.fill_buf(tail)?;
-        if is_eof && bytes < tail {
+        self.src.reserve(tail)?;
+
+        let bytes = self.src.bytes;
+        if bytes < tail {
             // TODO: use logger
             let remaining = bytes.saturating_sub(self.pos);
             eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {remaining})");
@@ -138,36 +160,38 @@ impl WalkSlicer {
             self.segments.push(Segment { pos: self.pos, len });
             self.pos += len;
         }
-        Ok((is_eof, bytes))
+        Ok(())
     }
 }
 
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (mut is_eof, mut bytes) = self.src.fill_buf(request)?;
+        self.src.reserve(request)?;
 
-        // slices chunks that start in the range prepared by the first fill. the last one may need
-        // more bytes, in which case the range beyond it is left for the next call.
-        let limit = bytes;
-        while self.pos < limit {
+        // slices chunks that start in the range prepared here. the last one feeds the source by
+        // itself if it needs more, in which case the bytes that follow are left for the next call.
+        let limit = self.src.bytes;
+        while self.pos < limit || (self.src.is_eof && self.pos < self.src.bytes) {
             let chunk_len = self.calc_next_chunk_len();
-            (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
+            self.extend_segment_buf(chunk_len)?;
         }
 
+        let (is_eof, bytes) = (self.src.is_eof, self.src.bytes);
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
         Ok((is_eof, bytes, count, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
-        let stream = self.src.as_slice();
+        let stream = self.src.src.as_slice();
         (stream, &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
         let bytes = std::cmp::min(bytes, self.pos);
-        self.src.consume(bytes);
+        self.src.src.consume(bytes);
+        self.src.bytes -= bytes;
 
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
-- 
2.43.0


From dd56da7026fde97d45fc4c1d85af059bec99cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 16/46] fix: hold slices from --extend until the preceding ones
 and the contents are ready

---
 src/segment/extend.rs | 83 +++++++++++++------------------------------
 src/segment/mod.rs    |  1 +
 src/segment/sorter.rs | 54 ++++++++++++++++++++++++++++
 3 files changed, 80 insertions(+), 58 deletions(-)
 create mode 100644 src/segment/sorter.rs

diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..b79a4ec 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -1,27 +1,10 @@
 // @file extend.rs
 // @author Hajime Suzuki
 
+use super::sorter::SegmentSorter;
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
@@ -29,7 +12,7 @@ pub struct ExtendStream {
 
     // sorter; needed to reorder the segments when the start positions of the mapped
     // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    sorter: SegmentSorter,
 
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
@@ -56,48 +39,34 @@ impl ExtendStream {
         Ok(ExtendStream {
             src,
             segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            sorter: SegmentSorter::new(),
             src_scanned: 0,
             max_consume: 0,
             mappers,
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, max_consume: usize) {
-        if is_eof {
-            self.max_consume = bytes;
-            return;
-        }
-
-        let max_consume = max_consume as isize;
-        let phantom = [max_consume, max_consume + 1];
-
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+    // returns the minimum start position of the segments mapped from the ones that start at or
+    // after `pos`
+    fn min_start(&self, pos: usize) -> usize {
+        let phantom = [pos as isize, pos as isize];
+        let start = self.mappers.iter().map(|m| m.evaluate(&phantom, &phantom).0).min();
+        std::cmp::max(0, start.unwrap_or(0)) as usize
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
+    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize, max_consume: usize) {
+        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<Segment> {
             let s = [segment.pos as isize, segment.tail() as isize];
             let (start, end) = m.evaluate(&s, &s);
 
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
+            let start = start.max(0) as usize;
+            let end = end.max(0) as usize;
 
             // record the segment
             if start < end {
-                Some(SorterElement {
+                Some(Segment {
                     pos: start,
                     len: end - start,
-                    original_end: segment.tail(),
                 })
             } else {
                 None
@@ -111,7 +80,7 @@ impl ExtendStream {
         for next in &segments[self.src_scanned..count] {
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
+                    self.sorter.push(s);
                 }
             }
         }
@@ -120,26 +89,23 @@ impl ExtendStream {
         self.src_scanned = count;
 
         // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
+        let bound = self.min_start(max_consume);
+        self.sorter.pop_to(&mut self.segments, is_eof, bytes, bound);
 
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
-        }
+        self.max_consume = if is_eof {
+            bytes
+        } else {
+            max_consume.min(bound).min(self.sorter.min_pos())
+        };
     }
 }
 
 impl SegmentStream for ExtendStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
-
-        // update max_consume
-        self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.extend_segment_buf(is_eof, count, bytes, max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -151,6 +117,7 @@ impl SegmentStream for ExtendStream {
         let bytes = std::cmp::min(bytes, self.max_consume);
         let (bytes, src_count) = self.src.consume(bytes)?;
         self.src_scanned -= src_count;
+        self.sorter.consume(bytes);
 
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
diff --git a/src/segment/mod.rs b/src/segment/mod.rs
index 9bd0c73..9ed0ae2 100644
--- a/src/segment/mod.rs
+++ b/src/segment/mod.rs
@@ -10,6 +10,7 @@ mod guided;
 mod merge;
 mod range;
 mod regex;
+mod sorter;
 mod stride;
 mod walk;
 
diff --git a/src/segment/sorter.rs b/src/segment/sorter.rs
new file mode 100644
index 0000000..8826f2d
--- /dev/null
+++ b/src/segment/sorter.rs
@@ -0,0 +1,54 @@
+// @file sorter.rs
+// @brief buffer that holds slices until they get ready to be passed to the next node, in the sorted order
+
+use super::Segment;
+use std::cmp::Reverse;
+use std::collections::BinaryHeap;
+
+pub struct SegmentSorter {
+    heap: BinaryHeap<Reverse<(usize, usize)>>, // (pos, len), in absolute offset
+    offset: usize,                             // #bytes consumed so far
+}
+
+impl SegmentSorter {
+    pub fn new() -> Self {
+        SegmentSorter {
+            heap: BinaryHeap::new(),
+            offset: 0,
+        }
+    }
+
+    pub fn push(&mut self, s: Segment) {
+        self.heap.push(Reverse((self.offset + s.pos, s.len)));
+    }
+
+    // moves slices to `v` in the sorted order, up to the first one that is not ready; i.e., one that
+    // a slice coming later may precede (`bound` is the minimum start position of them), or whose
+    // contents have not been in the buffer. all slices are clipped and moved after EOF.
+    pub fn pop_to(&mut self, v: &mut Vec<Segment>, is_eof: bool, bytes: usize, bound: usize) {
+        while let Some(&Reverse((pos, len))) = self.heap.peek() {
+            let pos = pos - self.offset;
+            if !is_eof && (pos >= bound || pos + len > bytes) {
+                break;
+            }
+            self.heap.pop();
+
+            // clip at the tail. note that empty slices may be on the tail
+            let clipped = std::cmp::min(len, bytes.saturating_sub(pos));
+            if pos <= bytes && len == clipped || clipped > 0 {
+                v.push(Segment { pos, len: clipped });
+            }
+        }
+    }
+
+    // returns the start position of the first slice in the buffer
+    pub fn min_pos(&self) -> usize {
+        self.heap.peek().map_or(usize::MAX, |&Reverse((pos, _))| pos - self.offset)
+    }
+
+    pub fn consume(&mut self, bytes: usize) {
+        self.offset += bytes;
+    }
+}
+
+// end of sorter.rs
-- 
2.43.0


From 9df1c88c4822be2db612a0f5739dc79399146ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 17/46] fix: hold slices from --invert until the preceding ones
 and the contents are ready

---
 src/segment/bridge.rs | 56 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..bd145ad 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -1,6 +1,7 @@
 // @file bridge.rs
 // @author Hajime Suzuki
 
+use super::sorter::SegmentSorter;
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
@@ -9,6 +10,9 @@ pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // mapped segments that are not ready for being exposed
+    sorter: SegmentSorter,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -37,6 +41,7 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            sorter: SegmentSorter::new(),
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -44,32 +49,20 @@ impl BridgeStream {
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize) {
-        if is_eof {
-            self.max_consume = bytes;
-            return;
-        }
-
+    // returns the minimum start position of the segments mapped from the gaps that start at or
+    // after `self.last_end`
+    fn min_start(&self) -> usize {
         let phantom = [self.last_end, self.last_end + 1];
-
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let start = self.mappers.iter().map(|m| m.evaluate(&phantom, &phantom).0).min();
+        std::cmp::max(0, start.unwrap_or(0)) as usize
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
+    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize, max_consume: usize) {
         let map_segment = |m: &SegmentMapper, gap: &[isize; 2]| -> Option<Segment> {
             let (start, end) = m.evaluate(gap, gap);
 
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
+            let start = start.max(0) as usize;
+            let end = end.max(0) as usize;
 
             // record the segment
             if start < end {
@@ -99,7 +92,7 @@ impl BridgeStream {
                 // map the gap then clip
                 for mapper in &self.mappers {
                     if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
-                        self.segments.push(s);
+                        self.sorter.push(s);
                     }
                 }
                 prev_end = std::cmp::max(prev_end, curr_end);
@@ -112,7 +105,7 @@ impl BridgeStream {
 
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, &[prev_end, bytes]) {
-                    self.segments.push(s);
+                    self.sorter.push(s);
                 }
             }
             prev_end = bytes;
@@ -121,19 +114,25 @@ impl BridgeStream {
         // all source segments are mapped; save the source-scanning states
         self.last_end = prev_end;
         self.src_scanned = count;
+
+        // then sort the mapped segments into `self.segments` array
+        let bound = self.min_start();
+        self.sorter.pop_to(&mut self.segments, is_eof, bytes, bound);
+
+        self.max_consume = if is_eof {
+            bytes
+        } else {
+            max_consume.min(bound).min(self.sorter.min_pos())
+        };
     }
 }
 
 impl SegmentStream for BridgeStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
-
-        // update max_consume
-        self.update_max_consume(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.extend_segment_buf(is_eof, count, bytes, max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -145,6 +144,7 @@ impl SegmentStream for BridgeStream {
         let bytes = std::cmp::min(bytes, self.max_consume);
         let (bytes, src_count) = self.src.consume(bytes)?;
         self.src_scanned -= src_count;
+        self.sorter.consume(bytes);
 
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
-- 
2.43.0


From c9b31eda44cc2e947d0c9098a1921878e2cfdd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 18/46] fix: do not lose or disorder the hits of --regex at the
 block boundaries

---
 src/segment/regex.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..642747e 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -2,6 +2,7 @@
 // @author Hajime Suzuki
 // @brief regex slicer
 
+use super::sorter::SegmentSorter;
 use super::{Segment, SegmentStream};
 use anyhow::Result;
 use regex::bytes::{Match, Regex};
@@ -9,7 +10,9 @@ use regex::bytes::{Match, Regex};
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+    sorter: SegmentSorter, // matches found but not ready for being exposed
+    src_scanned: usize,    // #segments that are not consumed in the source but already scanned
+    max_consume: usize,
     re: Regex,
 }
 
@@ -21,7 +24,9 @@ impl RegexSlicer {
         Ok(RegexSlicer {
             src,
             matches,
-            scanned: 0,
+            sorter: SegmentSorter::new(),
+            src_scanned: 0,
+            max_consume: 0,
             re,
         })
     }
@@ -39,18 +44,22 @@ impl SegmentStream for RegexSlicer {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
+        for s in &segments[self.src_scanned..count] {
+            for m in self.re.find_iter(&stream[s.as_range()]) {
+                self.sorter.push(to_segment(m, s.pos));
             }
-
-            self.matches
-                .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
+        self.src_scanned = count;
+
+        // the source segments may overlap. hold the ones that the next matches may precede.
+        self.sorter.pop_to(&mut self.matches, is_eof, bytes, max_consume);
+        self.max_consume = if is_eof {
+            bytes
+        } else {
+            max_consume.min(self.sorter.min_pos())
+        };
 
-        self.scanned += bytes;
-
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        Ok((is_eof, bytes, self.matches.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -59,10 +68,10 @@ impl SegmentStream for RegexSlicer {
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
-        if bytes == 0 {
-            return Ok((0, 0));
-        }
+        let bytes = std::cmp::min(bytes, self.max_consume);
+        let (bytes, src_count) = self.src.consume(bytes)?;
+        self.src_scanned -= src_count;
+        self.sorter.consume(bytes);
 
         // determine how many bytes to consume...
         let from = self.matches.partition_point(|x| x.pos < bytes);
@@ -75,7 +84,7 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.max_consume -= bytes;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From 2a08d342d47af3a1263769a763ed62db65e24f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 19/46] fix: handle the records of --guide at and beyond the
 end of the stream

---
 src/segment/guided.rs | 69 +++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..7f28375 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,14 +6,16 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
     guide: TextParser,
     buf: Vec<u8>,
     segments: Vec<Segment>,
-    guide_consumed: usize,
+    pending: Option<(usize, usize)>, // the next record; (offset, span) in absolute offset
+    last_offset: usize,              // offset of the last record
+    guide_consumed: usize,           // #segments that are ready for being exposed
     src_consumed: usize,
     max_consume: usize,
 }
@@ -25,55 +27,66 @@ impl GuidedSlicer {
             guide: TextParser::new(guide, &InoutFormat::from_str("xxx").unwrap()),
             buf: Vec::new(),
             segments: Vec::new(),
+            pending: None,
+            last_offset: 0,
             guide_consumed: 0,
             src_consumed: 0,
             max_consume: 0,
         }
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
+    fn read_guide(&mut self) -> Result<Option<(usize, usize)>> {
+        if self.pending.is_none() {
+            self.buf.clear();
+            self.pending = self.guide.read_line(&mut self.buf)?;
+
+            if let Some((offset, _)) = self.pending {
+                if offset < self.last_offset {
+                    return Err(anyhow!(
+                        "records must be sorted by offset (got {:#x} after {:#x})",
+                        offset,
+                        self.last_offset
+                    ));
+                }
+                self.last_offset = offset;
+            }
+        }
+        Ok(self.pending)
+    }
 
-        // first update max_consume to the end of the current chunk of the stream
+    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
+        // the range before the next record can be consumed
         // (may be shortened in the loop)
         self.max_consume = bytes;
 
         let tail = self.src_consumed + bytes; // in absolute offset
-        loop {
-            // read the next guide to the buffer
-            self.buf.clear();
-
-            let ret = self.guide.read_line(&mut self.buf)?;
-            if ret.is_none() {
-                // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
+        while let Some((offset, span)) = self.read_guide()? {
+            // leave the record until the stream gets ready
+            if offset >= tail || (!is_eof && offset + span > tail) {
+                self.max_consume = std::cmp::min(bytes, offset - self.src_consumed);
                 break;
             }
-            let (offset, span) = ret.unwrap();
+            self.pending = None;
 
-            // slice the stream out by the guide
+            // slice the stream out by the guide; records with the same offset are sorted by their spans
             let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
+            let len = std::cmp::min(span, tail - offset);
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
-                break;
-            }
+            let at = self.segments.partition_point(|x| (x.pos, x.len) <= (pos, len));
+            self.segments.insert(at, Segment { pos, len });
         }
+
+        // do not expose the segments that the next record may precede
+        let bound = if is_eof { bytes } else { self.max_consume };
+        self.guide_consumed = self.segments.partition_point(|x| x.pos < bound);
         Ok(())
     }
 }
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let request = std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| x.tail()));
+        let tail = self.pending.map_or(0, |(offset, span)| offset + span);
+        let request = std::cmp::max(BLOCK_SIZE, tail.saturating_sub(self.src_consumed));
         let (is_eof, bytes) = self.src.fill_buf(request)?;
 
         self.extend_segment_buf(is_eof, bytes)?;
-- 
2.43.0


From acfe7a1adf3cbb1d66897dd26e333b647d2b25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 20/46] fix: do not let --lines drop duplicated slices
 depending on when EOF is found

---
 src/segment/filter.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..d50cc4f 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
-- 
2.43.0


From 1c3fce93376c556465610c458936d25eb144359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 21/46] fix: make the stream closed early by --lines consumable
 to its end

---
 src/segment/filter.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index d50cc4f..4cb33a3 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -113,6 +113,9 @@ pub struct FilterStream {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    is_done: bool,      // becomes true when all the filters are exhausted, even if the source is left
+    done_skip: usize,   // #bytes consumed after `is_done`; they are left unconsumed in the source
+    done_remain: usize, // #bytes not consumed after `is_done`
 }
 
 impl FilterStream {
@@ -124,12 +127,19 @@ impl FilterStream {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            is_done: false,
+            done_skip: 0,
+            done_remain: 0,
         })
     }
 }
 
 impl SegmentStream for FilterStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
+        if self.is_done {
+            return Ok((true, self.done_remain, self.segments.len(), self.done_remain));
+        }
+
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
         let (_, segments) = self.src.as_slices();
 
@@ -138,12 +148,12 @@ impl SegmentStream for FilterStream {
             .cutter
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
-        let (is_eof, bytes) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            (true, bytes)
-        } else {
-            (is_eof, bytes)
-        };
+        if !is_eof && self.cutter.is_empty() {
+            // no more slice is left. close the stream here as the source may be endless
+            self.is_done = true;
+            self.done_remain = self.segments.iter().map(|x| x.tail()).max().unwrap_or(0);
+            return Ok((true, self.done_remain, self.segments.len(), self.done_remain));
+        }
 
         self.src_scanned = scanned;
         self.max_consume = if is_eof {
@@ -159,14 +169,23 @@ impl SegmentStream for FilterStream {
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (&stream[self.done_skip..], &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let bytes = std::cmp::min(bytes, self.max_consume);
-        let (bytes, src_count) = self.src.consume(bytes)?;
-        self.src_scanned -= src_count;
-        self.src_consumed += src_count;
+        let bytes = if self.is_done {
+            let bytes = std::cmp::min(bytes, self.done_remain);
+            self.done_skip += bytes;
+            self.done_remain -= bytes;
+            bytes
+        } else {
+            let bytes = std::cmp::min(bytes, self.max_consume);
+            let (bytes, src_count) = self.src.consume(bytes)?;
+            self.src_scanned -= src_count;
+            self.src_consumed += src_count;
+            self.max_consume -= bytes;
+            bytes
+        };
 
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
@@ -177,7 +196,6 @@ impl SegmentStream for FilterStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
-        self.max_consume -= bytes;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From f673c0ac16500bbdf60135c5e57954aa4a783afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 22/46] fix: do not end the stream of --slice in the middle of
 what the manipulators need

RangeSlicer reports EOF once it gets all the ranges. --extend and --invert
clipped their slices there, as if the stream ended at the last slice. Also,
the stream must not end before the slices that are already consumed.
---
 src/pipeline.rs      |  3 ++-
 src/segment/range.rs | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 7a468d8..4f1174e 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -387,7 +387,8 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    let keep_tail = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = Box::new(RangeSlicer::new(prev, exprs)?.keep_tail(keep_tail));
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..00605bc 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,8 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    tail: usize,     // tail of the slices found so far, in absolute offset
+    keep_tail: bool, // whether the bytes after the last slice are of use
 }
 
 impl RangeSlicer {
@@ -115,17 +117,31 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            tail: 0,
+            keep_tail: false,
         })
     }
+
+    // makes the stream extend to the end of the source, rather than to the end of the last slice.
+    // it's required by the manipulators that are able to make slices out of the original ones
+    pub fn keep_tail(self, keep_tail: bool) -> Self {
+        RangeSlicer { keep_tail, ..self }
+    }
 }
 
 impl SegmentStream for RangeSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
+        let count = self.segments.len();
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
+        for s in &self.segments[count..] {
+            self.tail = std::cmp::max(self.tail, self.src_consumed + s.tail());
+        }
+
+        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() && !self.keep_tail {
+            // the slices already consumed may be the last
+            let bytes = self.tail.saturating_sub(self.src_consumed);
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
         } else {
-- 
2.43.0


From 106bfc195a201afa273c402ddcdf4748c62ab334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 23/46] fix: clear the file of --output before dumping the
 slices

The file with no variable in its name was opened without being truncated, and
kept the tail of its former contents.
---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 41af5f7..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From 10fd9e4e604cdd29f925beb310ae6b0872cd938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 24/46] fix: output the slices whose filename is rendered to
 "-" or empty to stdout

They went to a file named "-", or failed with an empty filename.
---
 src/drain/scatter.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index b7b3236..45b6c5f 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -49,7 +49,8 @@ impl ScatterContext {
         })
     }
 
-    fn dump_segment(&mut self, buf: &[u8], offset: usize, line: usize) -> Result<()> {
+    // returns false if the destination is stdout; nothing is written then
+    fn dump_segment(&mut self, buf: &[u8], offset: usize, line: usize) -> Result<bool> {
         match &mut self.drain {
             Drain::File(file) => file.write_all(buf)?,
             Drain::Template(template) => {
@@ -58,6 +59,9 @@ impl ScatterContext {
                     1 => line as i64,
                     _ => 0,
                 })?;
+                if file.is_empty() || file == "-" {
+                    return Ok(false);
+                }
 
                 let mut file = if self.files.get(&file).is_some() {
                     OpenOptions::new().read(false).write(true).append(true).open(file)?
@@ -68,7 +72,7 @@ impl ScatterContext {
                 file.write_all(buf)?
             }
         }
-        Ok(())
+        Ok(true)
     }
 }
 
@@ -141,21 +145,27 @@ impl ScatterDrain {
         })
     }
 
-    fn fill_buf_impl_scatter(&mut self) -> Result<(bool, usize)> {
-        loop {
+    fn fill_buf_impl_scatter(&mut self, request: usize) -> Result<(bool, usize)> {
+        // `buf` gets only the slices whose destination is stdout
+        self.drain.fill_buf(request, |_, buf| {
             let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
             if is_eof && bytes == 0 {
-                return Ok((true, 0));
+                return Ok(true);
             }
 
             let (stream, segments) = self.src.as_slices();
             for (i, s) in segments[self.src_consumed..count].windows(1).enumerate() {
                 self.buf.clear();
                 self.formatter.format_segments(self.offset, stream, s, &mut self.buf);
-                self.file
-                    .as_mut()
-                    .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
+
+                let is_dumped = self.file.as_mut().unwrap().dump_segment(
+                    &self.buf,
+                    self.offset + s[0].pos,
+                    self.lines + self.src_consumed + i,
+                )?;
+                if !is_dumped {
+                    buf.extend_from_slice(&self.buf);
+                }
             }
             self.src_consumed = count;
 
@@ -164,15 +174,16 @@ impl ScatterDrain {
             self.src_consumed -= count;
             self.offset += bytes;
             self.lines += count;
-        }
+
+            Ok(false)
+        })
     }
 }
 
 impl ByteStream for ScatterDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.file.is_some() {
-            // this consumes everything
-            self.fill_buf_impl_scatter()
+            self.fill_buf_impl_scatter(request)
         } else {
             self.fill_buf_impl_through(request)
         }
-- 
2.43.0


From bfeb7d563b0e169d29d2c1c38208a06d58ee817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 25/46] fix: append to the cache of --patch-back at its end

The reader and the writer share the cursor of the file. The writer overwrote
the bytes following what the reader got last.
---
 src/byte/tee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..820dfdc 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -63,6 +63,8 @@ impl ByteStream for TeeStream {
 
         match self.cache.lock() {
             Ok(mut cache) => {
+                // the readers may have moved the cursor
+                cache.file.seek(SeekFrom::End(0)).unwrap();
                 cache.file.write_all(&stream[..bytes]).unwrap();
                 cache.clear_eof = true; // increment semaphore
             }
-- 
2.43.0


From 4a0e23f0b5be7dc7ccca1d72c8c9a79f4844c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 26/46] fix: report a broken first record as an error, not by a
 panic

---
 src/byte/patch.rs | 12 ++++++++----
 src/byte/text.rs  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 5356130..f2f391e 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -65,19 +65,18 @@ pub struct PatchStream {
     src: Box<dyn ByteStream>,
     patch: PatchFeeder,
     buf: StreamBuf,
+    is_ready: bool, // whether the first record is read
     skip: usize,
     offset: usize,
 }
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
             buf: StreamBuf::new(),
+            is_ready: false,
             skip: 0,
             offset: 0,
         }
@@ -86,6 +85,11 @@ impl PatchStream {
 
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        if !self.is_ready {
+            self.patch.fill_buf()?;
+            self.is_ready = true;
+        }
+
         self.buf.fill_buf(request, |_, buf| {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..42a2ae1 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -82,18 +82,16 @@ impl TextFeeder {
 pub struct TextStream {
     line: TextFeeder,
     buf: StreamBuf,
+    is_ready: bool, // whether the first line is read
     offset: usize,
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
             buf: StreamBuf::new_with_align(align, filler),
+            is_ready: false,
             offset: 0,
         }
     }
@@ -101,6 +99,11 @@ impl TextStream {
 
 impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        if !self.is_ready {
+            self.line.fill_buf()?;
+            self.is_ready = true;
+        }
+
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
             if self.line.offset == usize::MAX {
-- 
2.43.0


From d78a7426e44536fa6c554f5992dbc283c047e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 27/46] fix: make --patch-back wait for the original stream and
 the output of CMD

The cache of the original stream is filled as the slices are consumed. The
patch stream took the end of what was filled so far as the end of the stream,
and truncated the output if CMD responded early, if the slices ended earlier
than the stream, etc. Also report the errors occurred in the slices.
---
 src/byte/tee.rs    | 101 +++++++++++++++++++++++++++++++++++++++------
 src/drain/patch.rs |  47 ++++++++++++---------
 src/pipeline.rs    |   2 +-
 3 files changed, 116 insertions(+), 34 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 820dfdc..3b1c444 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -5,25 +5,33 @@ use crate::byte::ByteStream;
 use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use std::io::{Read, Seek, SeekFrom, Write};
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Condvar, Mutex};
 use tempfile::SpooledTempFile;
 
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
+    rest: Option<Box<dyn ByteStream>>, // what the dropped TeeStream left
+}
+
+struct Cache {
+    file: Mutex<TempFile>,
+    cond: Condvar,
 }
 
 pub struct TeeStream {
-    src: Box<dyn ByteStream>,
-    cache: Arc<Mutex<TempFile>>,
+    src: Option<Box<dyn ByteStream>>, // always Some until it gets dropped
+    cache: Arc<Cache>,
 }
 
 pub struct TeeStreamReader {
-    cache: Arc<Mutex<TempFile>>,
+    cache: Arc<Cache>,
     buf: StreamBuf,
     offset: usize,
+    wait: bool,
+    rest: Option<Box<dyn ByteStream>>,
 }
 
 impl TeeStream {
@@ -31,37 +39,61 @@ impl TeeStream {
         let tempfile = TempFile {
             clear_eof: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
+            rest: None,
         };
 
         TeeStream {
-            src,
-            cache: Arc::new(Mutex::new(tempfile)),
+            src: Some(src),
+            cache: Arc::new(Cache {
+                file: Mutex::new(tempfile),
+                cond: Condvar::new(),
+            }),
         }
     }
 
+    fn src(&self) -> &dyn ByteStream {
+        self.src.as_ref().unwrap()
+    }
+
+    fn src_mut(&mut self) -> &mut dyn ByteStream {
+        self.src.as_mut().unwrap()
+    }
+
     pub fn spawn_reader(&self) -> TeeStreamReader {
         TeeStreamReader {
             cache: Arc::clone(&self.cache),
             buf: StreamBuf::new(),
             offset: 0,
+            wait: false,
+            rest: None,
         }
     }
 }
 
+// the stream may not be consumed to the end. leave the remainder for the reader
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        if let Ok(mut cache) = self.cache.file.lock() {
+            cache.rest = self.src.take();
+        }
+        self.cache.cond.notify_all();
+    }
+}
+
 impl ByteStream for TeeStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        self.src.fill_buf(request)
+        self.src_mut().fill_buf(request)
     }
 
     fn as_slice(&self) -> &[u8] {
-        self.src.as_slice()
+        self.src().as_slice()
     }
 
     fn consume(&mut self, bytes: usize) {
-        let stream = self.src.as_slice();
+        let stream = self.src().as_slice();
         debug_assert!(stream.len() >= bytes);
 
-        match self.cache.lock() {
+        match self.cache.file.lock() {
             Ok(mut cache) => {
                 // the readers may have moved the cursor
                 cache.file.seek(SeekFrom::End(0)).unwrap();
@@ -70,14 +102,57 @@ impl ByteStream for TeeStream {
             }
             _ => panic!("failed to lock cache."),
         }
+        self.cache.cond.notify_all();
 
-        self.src.consume(bytes);
+        self.src_mut().consume(bytes);
+    }
+}
+
+impl TeeStreamReader {
+    // makes the reader wait for TeeStream and read its remainder, rather than report EOF at the end of the cache
+    pub fn wait_for_eof(self) -> Self {
+        TeeStreamReader { wait: true, ..self }
+    }
+
+    fn fill_buf_impl_wait(&mut self, request: usize) -> Result<(bool, usize)> {
+        self.buf.fill_buf(request, |request, buf| {
+            if self.rest.is_none() {
+                let mut cache = self.cache.file.lock().map_err(|_| anyhow!("failed to lock cache."))?;
+                loop {
+                    cache.file.seek(SeekFrom::Start(self.offset as u64))?;
+
+                    let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
+                    self.offset += len;
+                    if len > 0 {
+                        return Ok(false);
+                    }
+
+                    // TeeStream is gone if its remainder is there
+                    self.rest = cache.rest.take();
+                    if self.rest.is_some() {
+                        break;
+                    }
+                    cache = self.cache.cond.wait(cache).map_err(|_| anyhow!("failed to lock cache."))?;
+                }
+            }
+
+            let rest = self.rest.as_mut().unwrap();
+            let (is_eof, len) = rest.fill_buf(request)?;
+            buf.extend_from_slice(&rest.as_slice()[..len]);
+            rest.consume(len);
+
+            Ok(is_eof)
+        })
     }
 }
 
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        match self.cache.lock() {
+        if self.wait {
+            return self.fill_buf_impl_wait(request);
+        }
+
+        match self.cache.file.lock() {
             Ok(mut cache) => {
                 if cache.clear_eof {
                     self.buf.clear_eof();
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..879eab4 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -1,7 +1,7 @@
 // @file patch.rs
 // @author Hajime Suzuki
 
-use crate::byte::{ByteStream, PatchStream, RawStream};
+use crate::byte::{ByteStream, PatchStream, RawStream, TeeStream};
 use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
@@ -53,50 +53,60 @@ impl BashPipeWriter {
 
 pub struct PatchDrain {
     patch: PatchStream,
-    prev_bytes: usize,
     pipe: BashPipe,
-    thread: Option<JoinHandle<()>>,
+    threads: Vec<JoinHandle<Result<()>>>,
 }
 
 impl PatchDrain {
+    // `original` must wait for `patch` (see `TeeStreamReader`); `patch` is dropped when it gets exhausted
     pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
         let mut pipe = BashPipe::new(command);
         let mut writer = pipe.spawn_writer();
         let formatter = TextFormatter::new(format, (0, 0));
 
-        let thread = std::thread::spawn(move || {
+        let feeder = std::thread::spawn(move || {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf()?;
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
                 formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                offset += patch.consume(max_consume)?.0;
 
                 if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf).unwrap();
+                    writer.write_all(&buf)?;
                     buf.clear();
                 }
             }
 
-            writer.write_all(&buf).unwrap();
+            writer.write_all(&buf)?;
             writer.close();
+            Ok(())
         });
 
-        let reader = pipe.spawn_reader();
-        let patch = PatchStream::new(original, Box::new(reader), format);
+        // receive the output of the command regardless of how far the original stream is processed. otherwise the
+        // command, the feeder, and the patch stream might wait for each other.
+        let mut output = TeeStream::new(Box::new(pipe.spawn_reader()));
+        let reader = output.spawn_reader().wait_for_eof();
+
+        let receiver = std::thread::spawn(move || loop {
+            let (is_eof, bytes) = output.fill_buf(BLOCK_SIZE)?;
+            if is_eof && bytes == 0 {
+                return Ok(());
+            }
+            output.consume(bytes);
+        });
 
         PatchDrain {
-            patch,
-            prev_bytes: 0,
+            patch: PatchStream::new(original, Box::new(reader), format),
             pipe,
-            thread: Some(thread),
+            threads: vec![feeder, receiver],
         }
     }
 }
@@ -105,15 +115,12 @@ impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         let (is_eof, bytes) = self.patch.fill_buf(request)?;
 
-        if is_eof && bytes == self.prev_bytes {
-            if let Some(thread) = self.thread.take() {
-                thread.join().unwrap();
+        if is_eof && !self.threads.is_empty() {
+            for thread in self.threads.drain(..) {
+                thread.join().unwrap()?;
             }
-
-            self.pipe.child.wait().unwrap();
+            self.pipe.child.wait()?;
         }
-
-        self.prev_bytes = bytes;
         Ok((is_eof, bytes))
     }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 4f1174e..28817bb 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -375,7 +375,7 @@ impl Pipeline {
                 }
                 (Tee, NodeInstance::Byte(prev)) => {
                     let next = Box::new(TeeStream::new(prev));
-                    cache = Some(Box::new(next.spawn_reader()));
+                    cache = Some(Box::new(next.spawn_reader().wait_for_eof()));
                     (cache, NodeInstance::Byte(next))
                 }
                 (Width(params), NodeInstance::Byte(prev)) => {
-- 
2.43.0


From 119e05cca1dd77818c13ae71537489c72ec88cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 28/46] fix: let CMD of --patch-back leave its input unread

---
 src/drain/patch.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 879eab4..eb1d012 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -6,7 +6,7 @@ use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
 use anyhow::Result;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::process::{Child, ChildStdin, Command, Stdio};
 use std::thread::JoinHandle;
 
@@ -41,9 +41,13 @@ impl BashPipe {
 }
 
 impl BashPipeWriter {
-    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        self.input.as_ref().unwrap().write_all(buf)?;
-        Ok(buf.len())
+    // returns false if the command doesn't read its input anymore, which is not an error
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<bool> {
+        match self.input.as_ref().unwrap().write_all(buf) {
+            Ok(()) => Ok(true),
+            Err(e) if e.kind() == ErrorKind::BrokenPipe => Ok(false),
+            Err(e) => Err(e),
+        }
     }
 
     fn close(&mut self) {
@@ -80,7 +84,9 @@ impl PatchDrain {
                 offset += patch.consume(max_consume)?.0;
 
                 if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf)?;
+                    if !writer.write_all(&buf)? {
+                        return Ok(());
+                    }
                     buf.clear();
                 }
             }
-- 
2.43.0


From 352ddcc5b404d3f6b0a7ca0baac02fb50067f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 29/46] fix: do not feed the same slice to CMD of --patch-back
 twice

A slice may be left in the buffer when the next one begins at the same offset.
---
 src/drain/patch.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index eb1d012..ca8ce3d 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -72,16 +72,20 @@ impl PatchDrain {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
+            let mut fed = 0; // #segments already fed to the command
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf()?;
+                let (is_eof, bytes, count, max_consume) = patch.fill_segment_buf()?;
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume)?.0;
+                formatter.format_segments(offset, stream, &segments[fed..count], &mut buf);
+
+                let (bytes, consumed) = patch.consume(max_consume)?;
+                offset += bytes;
+                fed = count - consumed;
 
                 if buf.len() >= BLOCK_SIZE {
                     if !writer.write_all(&buf)? {
-- 
2.43.0


From 3bc584af8dcd456708b86430b1ae41bc5f237979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 30/46] fix: apply --out-format to what --patch-back feeds to
 CMD

---
 src/drain/patch.rs | 12 +++++++++---
 src/pipeline.rs    |  8 +++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index ca8ce3d..ae7836c 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -63,10 +63,16 @@ pub struct PatchDrain {
 
 impl PatchDrain {
     // `original` must wait for `patch` (see `TeeStreamReader`); `patch` is dropped when it gets exhausted
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
+    pub fn new(
+        patch: Box<dyn SegmentStream>,
+        original: Box<dyn ByteStream>,
+        command: &str,
+        out_format: &InoutFormat,
+        patch_format: &InoutFormat,
+    ) -> Self {
         let mut pipe = BashPipe::new(command);
         let mut writer = pipe.spawn_writer();
-        let formatter = TextFormatter::new(format, (0, 0));
+        let formatter = TextFormatter::new(out_format, (0, 0));
 
         let feeder = std::thread::spawn(move || {
             let mut patch = patch;
@@ -114,7 +120,7 @@ impl PatchDrain {
         });
 
         PatchDrain {
-            patch: PatchStream::new(original, Box::new(reader), format),
+            patch: PatchStream::new(original, Box::new(reader), patch_format),
             pipe,
             threads: vec![feeder, receiver],
         }
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 28817bb..4ccb16d 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -424,7 +424,13 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format));
+                    let next = Box::new(PatchDrain::new(
+                        prev,
+                        cache.unwrap(),
+                        command,
+                        &self.out_format,
+                        &self.patch_format,
+                    ));
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From 3e5a7bdb5b6ce7fbcb7e0d5c724a17c6c69aac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 31/46] fix: report errors on writing the last bytes to stdout

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 5baf996..60de913 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -245,5 +245,7 @@ fn consume_stream(stream: Box<dyn ByteStream>, drain: Box<dyn Write>) -> Result<
         stream.consume(bytes);
     }
 
+    // otherwise errors on the last (buffered) bytes are lost
+    drain.flush()?;
     Ok(())
 }
-- 
2.43.0


From a1cbf7bb464d95ed58f6fc255cf74ab5d8104e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 32/46] fix: do not clobber FILE.tmp in the in-place mode, and
 keep permissions of the files

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 60de913..43b0503 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -20,13 +20,14 @@ mod verif {
 
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
-use std::fs::File;
 use std::io::{IsTerminal, Read, Write};
+use std::path::Path;
 use std::process::{Child, Stdio};
 
 use byte::ByteStream;
 use params::BLOCK_SIZE;
 use pipeline::*;
+use tempfile::NamedTempFile;
 
 static USAGE: &str = "nd [options] FILE ...";
 
@@ -173,13 +174,17 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
+            // the temporary file has a name that no other file has, and is removed on error
+            let path = Path::new(&input[0]);
+            let dir = path.parent().filter(|x| !x.as_os_str().is_empty()).unwrap_or(Path::new("."));
+            let tmpfile = NamedTempFile::new_in(dir)?;
+            let drain = Box::new(tmpfile.reopen()?);
 
             let stream = pipeline.spawn_stream(sources)?;
             consume_stream(stream, drain)?;
 
-            std::fs::rename(&tmpfile, &input[0])?;
+            tmpfile.as_file().set_permissions(std::fs::metadata(path)?.permissions())?;
+            tmpfile.persist(path).map_err(|x| x.error)?;
         }
     } else {
         let inputs = if args.inputs.is_empty() {
-- 
2.43.0


From 23c67257aee90218732d4d39a172aa3735bcd066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 33/46] fix: refuse '!' and '~' as binary operators in
 expressions

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 3124865..44850e8 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -324,7 +324,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
             // prefix followed by an expression
             (Prefix(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // binary op; lhs and rhs
-            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(_)) => {}
+            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(y)) if y != '!' && y != '~' => {}
             (Op(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // parentheses inner
             (Paren('(' | '['), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
-- 
2.43.0


From db7850b70dea2fa4c63e5c1f1eec345bd7b746d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 34/46] fix: refuse incomplete columns and bad separators in
 hex arrays, and end arrays at a blank column, on every CPU

---
 src/text/parser/mod.rs    | 19 ++++++++---------
 src/text/parser/naive.rs  |  5 +++--
 src/text/parser/x86_64.rs | 44 ++++++++++++++++++++++++++-------------
 3 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index c983717..9bd1dd9 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -398,6 +398,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
 
         while rem_len >= 4 * 48 {
+            let base_len = buf.len();
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
 
@@ -409,7 +410,7 @@ impl TextParser {
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
-            is_in_tail = parsed < 4 * 48;
+            is_in_tail = parsed < 4 * 48 || buf.len() < base_len + 4 * 16;
 
             stream = rem_stream;
         }
@@ -417,19 +418,17 @@ impl TextParser {
         if rem_len > 0 {
             // tail
             debug_assert!(rem_len < 4 * 48);
-            let base_len = buf.len();
-            let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
-            let (scanned, parsed) = ret.0;
 
             // neither '|' nor '\n' found before the end of the buffer, which is not the end of the line unless the
-            // source reached EOF. the last column may be cut there, so we need to parse it again with the next buffer.
-            if !is_eof && scanned >= rem_len && parsed >= rem_len {
-                debug_assert!(!is_in_tail);
-                let keep = rem_len / 3;
-                buf.truncate(std::cmp::min(buf.len(), base_len + keep));
-                return Some((len - rem_len + keep * 3, false, false, true));
+            // source reached EOF. the last column may be cut there, so we need to parse it with the next buffer.
+            let is_cut = !stream[..rem_len].iter().any(|&x| x == b'|' || x == b'\n');
+            if !is_eof && !is_in_tail && is_cut {
+                return Some((len - rem_len, false, false, true));
             }
 
+            let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
+            let (scanned, parsed) = ret.0;
+
             debug_assert!(!is_in_tail || parsed == 0);
             is_in_tail = parsed < rem_len;
 
diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7f76f83..a784322 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -59,11 +59,12 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
 
     let mut n_elems = 0;
     for (i, x) in src[..parse_len.min(scan_len)].chunks(3).enumerate() {
-        if x.len() < 2 || x[0] == b' ' && x[1] == b' ' {
+        // a blank column is the end of the array
+        if x.iter().all(|&x| x == b' ') {
             break;
         }
 
-        let is_col_hex = is_valid_hex(x[0]) && is_valid_hex(x[1]);
+        let is_col_hex = x.len() >= 2 && is_valid_hex(x[0]) && is_valid_hex(x[1]);
         let is_sep_valid = x.len() == 2 || x[2] == b' ';
         if !(is_col_hex && is_sep_valid) {
             return None;
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..2a629a5 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -84,8 +84,11 @@ pub fn parse_hex_single_avx2(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(_mm_loadu_si128(src.as_ptr() as *const __m128i)) }
 }
 
-unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems: usize, v: &mut [u8]) -> Option<usize> {
-    debug_assert!(elems <= 16);
+unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: usize, v: &mut [u8]) -> Option<(usize, bool)> {
+    debug_assert!(len <= 48);
+
+    // #columns, and #columns that have a separator
+    let (elems, seps) = ((len + 1) / 3, len / 3);
 
     // gather every three elements
     let index_0 = [0u8, 3, 6, 9, 1, 4, 7, 10, 2, 5, 8, 11, 0x80, 0x80, 0x80, 0x80];
@@ -105,29 +108,37 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
-    // validation; we allow double-space columns (null)
+    // validation; a blank column terminates the array (columns after it are ignored)
     // "   " ok
     // "0  " ng
     // " 0 " ng
     // "00 " ok
-    let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
-    let is_space = _mm_movemask_epi8(is_space) as u64;
-    let is_space = (is_space << 1) | 1;
+    let space = _mm_set1_epi8(b' ' as i8);
+    let sh = _mm_movemask_epi8(_mm_cmpeq_epi8(l, space)) as u64;
+    let sl = _mm_movemask_epi8(_mm_cmpeq_epi8(h, space)) as u64;
+    let ss = _mm_movemask_epi8(_mm_cmpeq_epi8(s, space)) as u64;
+    let ss = ss | 0u64.wrapping_sub(1 << seps);
+
+    let is_blank = (sh & sl & ss) | (1 << elems);
+    let filled = is_blank.trailing_zeros() as usize;
 
-    let is_null = sh & sl;
-    let is_valid = vh & vl;
+    let mask = (1 << filled) - 1;
+    if (vh & vl & ss & mask) != mask {
+        return None;
+    }
 
-    let mask = 0u64.wrapping_sub(1 << elems);
-    if (((is_valid | is_null) & is_space) | mask) != 0xffffffffffffffff {
+    // the last column may lack the second digit
+    let is_cut = len % 3 == 1;
+    if is_cut && filled == elems && (sh >> elems) & 1 == 0 {
         return None;
     }
 
     let hex = _mm_or_si128(xl, _mm_slli_epi16(xh, 4));
     _mm_storeu_si128(&mut v[0] as *mut u8 as *mut __m128i, hex);
-    Some((is_null | mask).trailing_zeros() as usize)
+    Some((filled, is_cut || filled < elems))
 }
 
 pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Option<((usize, usize), usize)> {
@@ -137,6 +148,7 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
     let mut scanned = 0;
     let mut parsed = 0;
     let mut n_elems = 0;
+    let mut is_terminated = false;
 
     unsafe {
         let find_delim = |x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, delim: u8| -> usize {
@@ -170,7 +182,11 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+            if !is_terminated {
+                let (filled, is_last) = parse_multi(x0, x1, x2, x3, parse_len, &mut dst[n_elems..])?;
+                n_elems += filled;
+                is_terminated = is_last;
+            }
 
             if scan_len < 48 {
                 break;
-- 
2.43.0


From c0541cae2052a53d114bc1b7ee3e0ee48f8bde3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 35/46] fix: refuse junk between a variable and its formatter,
 and format negative numbers in hex, octal and binary

---
 src/template.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 865700c..bb8926c 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -2,7 +2,7 @@
 // @brief run-time template formatter (for filename formatting)
 
 use anyhow::{anyhow, Context, Result};
-use num_runtime_fmt::NumFmt;
+use num_runtime_fmt::{Base, NumFmt};
 use regex::Regex;
 use std::collections::HashMap;
 
@@ -22,7 +22,7 @@ impl Template {
         // parsing std::fmt-style formatter string
         // TODO: is there any good crate to do this? better avoid re-inventing wheels...
         let brace_matcher = Regex::new(r"\{.*?\}").unwrap();
-        let arg_matcher = Regex::new(r"\{((?:\([^:]*\))|[a-zA-Z]*)(:{0,1}.*)\}").unwrap();
+        let arg_matcher = Regex::new(r"^\{((?:\([^:]*\))|[a-zA-Z]*)(?::(.*))?\}$").unwrap();
 
         let mut elems = Vec::new();
         let mut i = 0;
@@ -37,8 +37,7 @@ impl Template {
             let name = args.get(1).unwrap();
             let name = Rpn::new(name.as_str(), vars)?;
 
-            let spec = args.get(2).unwrap();
-            let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
+            let spec = args.get(2).map_or("", |x| x.as_str());
             let spec = NumFmt::from_str(spec)?;
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
@@ -74,7 +73,12 @@ impl Template {
 
             if let Some(var) = &elem.var {
                 let val = var.0.evaluate(&mut get)?;
-                let fmt = var.1.fmt(val)?;
+                // negative numbers are in two's complement in the formats other than decimal
+                let fmt = if var.1.base() == Base::Decimal {
+                    var.1.fmt(val)?
+                } else {
+                    var.1.fmt(val as u64)?
+                };
                 s.push_str(&fmt);
             }
         }
-- 
2.43.0


From 9afdee0b8a55893b5673cc58e0ff78a317f77c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 36/46] Hook: let the verification builds control the threads
 behind --patch-back (cfg nd_verif_sched)

---
 src/byte/tee.rs    |  3 +++
 src/drain/patch.rs | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 3b1c444..93d0cf1 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -5,8 +5,11 @@ use crate::byte::ByteStream;
 use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
+#[cfg(nd_verif_sched)]
+use crate::verif::sync::{Arc, Condvar, Mutex};
 use anyhow::{anyhow, Result};
 use std::io::{Read, Seek, SeekFrom, Write};
+#[cfg(not(nd_verif_sched))]
 use std::sync::{Arc, Condvar, Mutex};
 use tempfile::SpooledTempFile;
 
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index ae7836c..16a1c08 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -5,10 +5,16 @@ use crate::byte::{ByteStream, PatchStream, RawStream, TeeStream};
 use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
+#[cfg(nd_verif_sched)]
+use crate::verif::process::{Child, ChildStdin, Command, Stdio};
+#[cfg(nd_verif_sched)]
+use crate::verif::thread::{self, JoinHandle};
 use anyhow::Result;
 use std::io::{ErrorKind, Write};
+#[cfg(not(nd_verif_sched))]
 use std::process::{Child, ChildStdin, Command, Stdio};
-use std::thread::JoinHandle;
+#[cfg(not(nd_verif_sched))]
+use std::thread::{self, JoinHandle};
 
 struct BashPipe {
     child: Child,
@@ -74,7 +80,7 @@ impl PatchDrain {
         let mut writer = pipe.spawn_writer();
         let formatter = TextFormatter::new(out_format, (0, 0));
 
-        let feeder = std::thread::spawn(move || {
+        let feeder = thread::spawn(move || {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
@@ -111,7 +117,7 @@ impl PatchDrain {
         let mut output = TeeStream::new(Box::new(pipe.spawn_reader()));
         let reader = output.spawn_reader().wait_for_eof();
 
-        let receiver = std::thread::spawn(move || loop {
+        let receiver = thread::spawn(move || loop {
             let (is_eof, bytes) = output.fill_buf(BLOCK_SIZE)?;
             if is_eof && bytes == 0 {
                 return Ok(());
-- 
2.43.0


From a0e0e6b97d039742dcd26fbbbd23424ba90dc88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 37/46] fix: don't take another block of the text for every
 line of it

---
 src/text/parser/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 9bd1dd9..83f8ef1 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -336,6 +336,7 @@ fn test_line_cache() {
 
 pub struct TextParser {
     src: Box<dyn ByteStream>,
+    rem_len: usize, // #bytes left in the buffer of `src` after the last line
 
     // parser for non-binary streams; bypassed for binary streams (though the functions are valid)
     parse_offset: ParseSingle,
@@ -368,6 +369,7 @@ impl TextParser {
 
         TextParser {
             src,
+            rem_len: 0,
             parse_offset,
             parse_span,
             parse_body,
@@ -437,6 +439,20 @@ impl TextParser {
         Some((len - rem_len, is_in_tail, rem_len > 0, false))
     }
 
+    fn fill_buf(&mut self) -> Result<(bool, usize)> {
+        // `fill_buf` of the source never returns without taking another chunk, which is far longer than a line.
+        // the entire stream would be accumulated if it was called for every line.
+        if self.rem_len >= BLOCK_SIZE {
+            return Ok((false, self.rem_len));
+        }
+        self.src.fill_buf(BLOCK_SIZE)
+    }
+
+    fn consume(&mut self, len: usize, rem_len: usize) {
+        self.src.consume(len - rem_len);
+        self.rem_len = rem_len;
+    }
+
     fn read_line_continued(&mut self, offset: usize, span: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
         let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
         if is_eof && len == 0 {
@@ -458,7 +474,7 @@ impl TextParser {
             }
             if eol_found {
                 rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+                self.consume(len, rem_len);
                 return Ok(Some((offset, span)));
             }
 
@@ -466,12 +482,12 @@ impl TextParser {
             stream = rem_stream;
         }
 
-        self.src.consume(len - rem_len);
+        self.consume(len, rem_len);
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let (is_eof, len) = self.fill_buf()?;
         if is_eof && len == 0 {
             return Ok(None);
         }
@@ -492,8 +508,7 @@ impl TextParser {
         let delims = u32::from_le_bytes(delims);
 
         if (delims & 0xff) == b'\n' as u32 {
-            let fwd = std::cmp::min(fwd + 1, len);
-            self.src.consume(fwd);
+            self.consume(len, len.saturating_sub(fwd + 1));
             return Ok(Some((offset, span)));
         }
         // 0x207c20 == " | "
@@ -520,7 +535,7 @@ impl TextParser {
             }
             if eol_found {
                 rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+                self.consume(len, rem_len);
                 return Ok(Some((offset, span)));
             }
 
@@ -528,7 +543,7 @@ impl TextParser {
             stream = rem_stream;
         }
 
-        self.src.consume(len - rem_len);
+        self.consume(len, rem_len);
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 }
-- 
2.43.0


From 8522ed5f6486bae58124a5abe74b673851eb8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 38/46] fix: a blank pager means no pager, not a panic

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 43b0503..e39a5ab 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -228,6 +228,9 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
 
     let pager = pager.unwrap_or_else(|| "less -S -F".to_string());
     let args: Vec<_> = pager.as_str().split_whitespace().collect();
+    if args.is_empty() {
+        return Ok((None, Box::new(std::io::stdout())));
+    }
     let mut child = std::process::Command::new(args[0]).args(&args[1..]).stdin(Stdio::piped()).spawn()?;
 
     let input = child.stdin.take().context("failed to take stdin of the PAGER process")?;
-- 
2.43.0


From 161afa0b3cee35c3c708b69fe29557f04d833d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 39/46] fix: the default pager is less -S -F -X, as documented

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e39a5ab..fad2caa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -226,7 +226,7 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
         return Ok((None, Box::new(std::io::stdout())));
     }
 
-    let pager = pager.unwrap_or_else(|| "less -S -F".to_string());
+    let pager = pager.unwrap_or_else(|| "less -S -F -X".to_string());
     let args: Vec<_> = pager.as_str().split_whitespace().collect();
     if args.is_empty() {
         return Ok((None, Box::new(std::io::stdout())));
-- 
2.43.0


From dd99bfdf607bd531815b479a331498383cf683e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 40/46] fix: stdin can't be both the default input and a patch
 or guide, nor the patch of two files in place

---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index fad2caa..9ec27f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -171,6 +171,11 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         inputs.sort();
         inputs.dedup();
 
+        // the patch and the guide are read again for each file
+        if inputs.len() > 1 && args.pipeline.count_stdin() > 0 {
+            return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used for two or more files with '--inplace'"));
+        }
+
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
@@ -188,6 +193,9 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         }
     } else {
         let inputs = if args.inputs.is_empty() {
+            if args.pipeline.count_stdin() > 0 {
+                return Err(anyhow!("stdin must not be used more than once (it's the input when no FILE is given)"));
+            }
             vec!["-".to_string()]
         } else {
             args.inputs
-- 
2.43.0


From 9bc84e0deae9e3bad869fa8aecc73d07f480d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:37 +0000
Subject: [PATCH 41/46] fix: don't hold the stream between two distant records
 of --guide

---
 src/segment/guided.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 7f28375..515cc70 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -85,7 +85,9 @@ impl GuidedSlicer {
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let tail = self.pending.map_or(0, |(offset, span)| offset + span);
+        // the stream is collected up to the tail of the next record, once its head gets close
+        let head = self.src_consumed.saturating_add(BLOCK_SIZE);
+        let tail = self.pending.filter(|x| x.0 < head).map_or(0, |(offset, span)| offset.saturating_add(span));
         let request = std::cmp::max(BLOCK_SIZE, tail.saturating_sub(self.src_consumed));
         let (is_eof, bytes) = self.src.fill_buf(request)?;
 
-- 
2.43.0


From f40ec6c5fe9ac69f129b08e9c9708d2feeded212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 42/46] fix: numbers and expressions that overflow 64 bits, and
 divisions by zero, are refused rather than wrapped

---
 src/eval.rs | 64 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 44850e8..d2acd2f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -218,14 +218,15 @@ where
 
     let mut i = 0;
     let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
+    let mut push_digit = |digit: i64| -> Option<()> {
+        *digits.get_mut(i)? = digit as u8;
         i += 1;
+        Some(())
     };
 
     let (skip, digit) = parse_char(first)?;
     push_skip_mask(skip);
-    push_digit(digit);
+    push_digit(digit)?;
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
         if digit >= 10 && num_base <= 10 {
@@ -233,7 +234,7 @@ where
         }
         push_skip_mask(skip);
         if !skip {
-            push_digit(digit);
+            push_digit(digit)?;
         }
         it.next()?;
     }
@@ -242,12 +243,12 @@ where
     if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
         return None;
     }
-    let mut val = 0;
+    let mut val = 0i64;
     for &digit in &digits[..i] {
         if digit as i64 >= num_base {
             return None;
         }
-        val = val * num_base + digit as i64;
+        val = val.checked_mul(num_base)?.checked_add(digit as i64)?;
     }
 
     let scaler = match it.peek() {
@@ -259,7 +260,7 @@ where
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
@@ -451,20 +452,44 @@ fn test_sort_into_rpn() {
 fn apply_prefix(c: char, x: i64) -> i64 {
     match c {
         '+' => x,
-        '-' => -x,
+        '-' => x.wrapping_neg(),
         '!' => !x,
         'G' => (x >= 0) as i64,
         _ => panic!("unknown op: {c:?}"),
     }
 }
 
+// None on overflow and division by zero
+fn apply_prefix_checked(c: char, x: i64) -> Option<i64> {
+    match c {
+        '-' => x.checked_neg(),
+        _ => Some(apply_prefix(c, x)),
+    }
+}
+
+fn apply_op_checked(c: char, x: i64, y: i64) -> Option<i64> {
+    match c {
+        '+' => x.checked_add(y),
+        '-' => x.checked_sub(y),
+        '#' => x.checked_add(y)?.checked_neg(),
+        '~' => x.checked_sub(y)?.checked_neg(),
+        '*' => x.checked_mul(y),
+        '/' => x.checked_div(y),
+        '%' => x.checked_rem(y),
+        '@' if y >= 0 => x.checked_pow(u32::try_from(y).ok()?),
+        _ => Some(apply_op(c, x, y)),
+    }
+}
+
+// the sums and products may wrap around in the middle of simplification,
+// as terms are reordered there
 fn apply_op(c: char, x: i64, y: i64) -> i64 {
     match c {
-        '+' => x + y,
-        '-' => x - y,
-        '#' => -(x + y),
-        '~' => -(x - y),
-        '*' => x * y,
+        '+' => x.wrapping_add(y),
+        '-' => x.wrapping_sub(y),
+        '#' => x.wrapping_add(y).wrapping_neg(),
+        '~' => x.wrapping_sub(y).wrapping_neg(),
+        '*' => x.wrapping_mul(y),
         '/' => x / y,
         '%' => x % y,
         '&' => x & y,
@@ -474,14 +499,14 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             if y >= 0 {
                 x << ((y as usize) & 0x3f)
             } else {
-                x >> ((-y as usize) & 0x3f)
+                x >> ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '>' => {
             if y >= 0 {
                 x >> ((y as usize) & 0x3f)
             } else {
-                x << ((-y as usize) & 0x3f)
+                x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '@' => {
@@ -747,7 +772,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
-            tokens[lhs].0 = Var(id, c * x);
+            tokens[lhs].0 = Var(id, c.wrapping_mul(x));
             Some(lhs)
         }
         // (x + 2) + 3 => x + 5
@@ -1189,6 +1214,7 @@ where
     F: FnMut(usize, i64) -> i64,
 {
     let starved = "stack starved in evaluating expression (internal error)";
+    let overflow = "overflow or division by zero in evaluating expression";
 
     let mut get = get;
     let mut stack = Vec::new();
@@ -1199,15 +1225,15 @@ where
             }
             (Prefix(op), _) => {
                 let x = stack.last_mut().context(starved)?;
-                *x = apply_prefix(op, *x);
+                *x = apply_prefix_checked(op, *x).context(overflow)?;
             }
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
-                *x = apply_op(op, *x, y);
+                *x = apply_op_checked(op, *x, y).context(overflow)?;
             }
             (Var(id, c), _) => {
-                stack.push(c * get(id, 0));
+                stack.push(c.checked_mul(get(id, 0)).context(overflow)?);
             }
             (VarArr(id), _) => {
                 let x = stack.last_mut().context(starved)?;
-- 
2.43.0


From 0fa46f4113222122435c1101055635ab5f89ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 43/46] fix: ends of ranges next to 2^63 don't overflow

---
 src/mapper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index beaa76f..5b1d76a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -33,6 +33,7 @@ impl SegmentMapperAnchor {
 
         // parse the expression into a RPN, and extract coefficient
         let rpn = Rpn::new(expr, Some(&vars))?;
+        rpn.evaluate(|_, _| 0)?; // refuse ones that overflow
         let (anchor, offset) = match rpn.tokens().as_slice() {
             [Val(c)] => (const_default, *c as isize),
             [Var(id, 1)] => (*id, 0),
@@ -48,7 +49,7 @@ impl SegmentMapperAnchor {
     }
 
     pub fn evaluate(&self, input: &[isize; 2]) -> isize {
-        input[self.anchor] + self.offset
+        input[self.anchor].saturating_add(self.offset)
     }
 }
 
@@ -180,13 +181,13 @@ impl RangeMapper {
         let start = if mapper.start.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.start.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.start.offset, 0) as usize)
+            EndAnchored(std::cmp::max(mapper.start.offset.saturating_neg(), 0) as usize)
         };
 
         let end = if mapper.end.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.end.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.end.offset, 0) as usize)
+            EndAnchored(std::cmp::max(mapper.end.offset.saturating_neg(), 0) as usize)
         };
 
         Ok(RangeMapper { start, end })
-- 
2.43.0


From 41760d011943d2fcfdec7b49a99bd9003b0eb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 44/46] fix: --width refuses pitches and ranges it can't
 compute with, and doesn't count its way through the empty slices

---
 src/segment/stride.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 6f449c3..da0883b 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -17,6 +17,12 @@ pub struct ConstSlicerParams {
 
 impl ConstSlicerParams {
     pub fn from_raw(pitch: usize, expr: Option<&str>) -> Result<Self> {
+        // leave room for the sums of these in the slicer
+        let limit = isize::MAX / 8;
+        if pitch == 0 || pitch > limit as usize {
+            return Err(anyhow!("pitch must be positive and not greater than {limit} (got: {pitch})"));
+        }
+
         let pitch = pitch as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
@@ -32,6 +38,9 @@ impl ConstSlicerParams {
                 pitch
             ));
         }
+        if start < -limit || end > limit {
+            return Err(anyhow!("map expression {expr:?} goes too far from the slices"));
+        }
 
         let span = end - start;
         debug_assert!(span > 0);
@@ -40,11 +49,9 @@ impl ConstSlicerParams {
         let head_margin = if start >= 0 {
             start
         } else {
-            let mut margin = -start;
-            while margin >= span {
-                margin -= pitch;
-            }
-            -margin
+            let margin = -start;
+            let n_empty = if margin >= span { (margin - span) / pitch + 1 } else { 0 };
+            n_empty * pitch - margin
         };
 
         let tail_margin = if end < 1 { 1 - end } else { std::cmp::max(1 - end, 1 - span) };
-- 
2.43.0


From 24d5966a89daf8d1cc8afe4846820465f9c0d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 45/46] fix: indices and spans of --walk saturate instead of
 wrapping around

---
 src/segment/walk.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d0a9f83..0cebc21 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -54,8 +54,8 @@ impl SpanFetcher {
             panic!("slice index being negative (got: {index}).");
         }
 
-        let offset = skip + index as usize * elem_size;
-        let min_fill_bytes = offset + elem_size;
+        let offset = (index as usize).saturating_mul(elem_size).saturating_add(skip);
+        let min_fill_bytes = offset.saturating_add(elem_size);
 
         src.reserve(min_fill_bytes).expect("failed to feed the input stream");
         if src.bytes < min_fill_bytes {
@@ -126,18 +126,18 @@ impl WalkSlicer {
     }
 
     fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+        let mut chunk_len = 0usize;
         for (i, f) in self.fetchers.iter().enumerate() {
             let span = f.get_next_span(self.pos, &mut self.src);
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
         chunk_len
     }
 
     fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<()> {
-        let tail = self.pos + chunk_len;
+        let tail = self.pos.saturating_add(chunk_len);
         self.src.reserve(tail)?;
 
         let bytes = self.src.bytes;
-- 
2.43.0


From 206d5f3ed202f84778ca8a87b67461ed04280e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 46/46] fix: a request for the whole address space doesn't
 overflow

---
 src/streambuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 0a616a7..8ce7eda 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -96,7 +96,7 @@ impl StreamBuf {
 
         // collect into the buffer without margin
         loop {
-            let request = target_len.saturating_sub(self.buf.len()) + 1;
+            let request = target_len.saturating_sub(self.buf.len()).saturating_add(1);
 
             // `f` must return true if it has consumed all of the source,
             // and it's certain that it won't append any more byte to buf
-- 
2.43.0

