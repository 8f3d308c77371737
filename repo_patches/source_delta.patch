From e2d67f6acaa20978a60029f7f7547e972c2ed96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 01/52] fix: StreamBuf::fill_buf counts the consumed bytes in
 the buffer when it satisfies a request

---
 src/streambuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..585f111 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -92,7 +92,8 @@ impl StreamBuf {
 
         // calculate target buffer length
         // debug_assert!(self.target_len > self.len);
-        let target_len = std::cmp::max(self.target_len, request);
+        // (the request is on the bytes after self.pos; the consumed bytes may still be in the buffer)
+        let target_len = std::cmp::max(self.target_len, self.pos.saturating_add(request));
 
         // collect into the buffer without margin
         loop {
-- 
2.43.0


From e026656dd879a9080e0cefae1bd087fb2eda9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 02/52] fix: a range whose end is 0 and whose start is anchored
 to the end does not underflow

---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..44a767a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,7 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
+            (EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),
             _ => usize::MAX,
         }
     }
-- 
2.43.0


From eff6ed6960027e66691bc2db88d441febba29104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 03/52] fix: ScatterDrain counts the slices it has already
 written when the source holds some of them back

---
 src/drain/scatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..41af5f7 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From af1f4374acae72060b377b772f4c260dadc54dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 04/52] fix: PatchDrain formats each slice once when the source
 holds some of them back

---
 src/drain/patch.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..06cf5ba 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -68,16 +68,20 @@ impl PatchDrain {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
+            let mut src_consumed = 0; // #segments already formatted in the previous iterations
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, count, max_consume) = patch.fill_segment_buf().unwrap();
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                formatter.format_segments(offset, stream, &segments[src_consumed..count], &mut buf);
+
+                let (bytes, consumed) = patch.consume(max_consume).unwrap();
+                src_consumed = count - consumed;
+                offset += bytes;
 
                 if buf.len() >= BLOCK_SIZE {
                     writer.write_all(&buf).unwrap();
-- 
2.43.0


From 382b8e47c6f8aa1888ca08d68486b6e7fb2e2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 05/52] fix: a malformed first patch record is an error, not a
 panic

---
 src/byte/patch.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..bf18472 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -67,25 +67,29 @@ pub struct PatchStream {
     buf: StreamBuf,
     skip: usize,
     offset: usize,
+    is_primed: bool, // set once the first patch record is read
 }
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
             buf: StreamBuf::new(),
             skip: 0,
             offset: 0,
+            is_primed: false,
         }
     }
 }
 
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        if !self.is_primed {
+            self.patch.fill_buf()?;
+            self.is_primed = true;
+        }
+
         self.buf.fill_buf(request, |_, buf| {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
-- 
2.43.0


From f36df632e5179c6069e68c1b4140fedf1579f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 06/52] fix: a malformed first record of a text input is an
 error, not a panic

---
 src/byte/text.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..3b9c7b8 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -83,24 +83,28 @@ pub struct TextStream {
     line: TextFeeder,
     buf: StreamBuf,
     offset: usize,
+    is_primed: bool, // set once the first record is read
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
             buf: StreamBuf::new_with_align(align, filler),
             offset: 0,
+            is_primed: false,
         }
     }
 }
 
 impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first line
+        if !self.is_primed {
+            self.line.fill_buf()?;
+            self.is_primed = true;
+        }
+
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
             if self.line.offset == usize::MAX {
-- 
2.43.0


From 893611e6d3b73416df12082eb869d1af09c0a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 07/52] fix: a record longer than a block is parsed as a whole
 line

---
 src/text/parser/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..9e77d87 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -469,8 +469,20 @@ impl TextParser {
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 
+    fn fill_line(&mut self) -> Result<(bool, usize)> {
+        let mut request = BLOCK_SIZE;
+        loop {
+            let (is_eof, len) = self.src.fill_buf(request)?;
+            if is_eof || memchr::memchr(b'\n', &self.src.as_slice()[..len]).is_some() {
+                return Ok((is_eof, len));
+            }
+            request = 2 * len;
+        }
+    }
+
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        // the whole line must be in the buffer, otherwise an array element at the block boundary is broken up
+        let (is_eof, len) = self.fill_line()?;
         if is_eof && len == 0 {
             return Ok(None);
         }
-- 
2.43.0


From 2c05834949eb0a309bfa240ed2e81b708c213fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 08/52] fix: a patch record located at the end of the stream is
 appended

---
 src/byte/patch.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index bf18472..5849fb6 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -108,6 +108,10 @@ impl ByteStream for PatchStream {
 
             let is_eof = loop {
                 if rem_len == 0 {
+                    // the source reached EOF; append the records located right at the end
+                    while self.patch.offset == self.offset {
+                        self.offset += self.patch.feed(self.offset, buf)?;
+                    }
                     break true;
                 }
 
-- 
2.43.0


From ae3188a47f63bf39e241f97a2973f55a19b03d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 09/52] fix: the error message for a malformed record does not
 assume that the record is in UTF-8

---
 src/text/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 9e77d87..b62d45c 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -279,7 +279,7 @@ impl LineCache {
             }
 
             v.push('"');
-            v.push_str(unsafe { std::str::from_utf8_unchecked(&input[..len]) });
+            v.push_str(&String::from_utf8_lossy(&input[..len]));
             if len == 32 {
                 v.pop();
                 v.push_str("...");
-- 
2.43.0


From 0bdc50a5e12a128ab963e72c681e16240734ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 10/52] fix: --cat and --zip do not pad the text before it is
 parsed

---
 src/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..f51dab5 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,7 +330,9 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
+        // the alignment is for the parsed bytes; the text itself must not be padded
+        let align = if self.in_format.is_binary() { self.word_size } else { 1 };
+        let source = Box::new(RawStream::new(source, align, self.filler));
         if self.in_format.is_binary() {
             source
         } else if self.in_format.is_gapless() {
-- 
2.43.0


From c68e327ec7c86773d97c01a2d360e39bd9fc9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 11/52] fix: --walk clips the last chunk at the end of the
 stream and reports a bad span as an error

---
 src/segment/walk.rs | 77 ++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..8073ba8 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -5,7 +5,7 @@ use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::eval::{Rpn, VarAttr};
 use crate::params::BLOCK_SIZE;
-use anyhow::Result;
+use anyhow::{anyhow, Context, Result};
 use std::collections::HashMap;
 
 struct SpanFetcher {
@@ -31,19 +31,19 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> Result<i64> {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
         if index < 0 {
-            panic!("slice index being negative (got: {index}).");
+            return Err(anyhow!("slice index being negative (got: {index})."));
         }
 
         let offset = skip + index as usize * elem_size;
         let min_fill_bytes = offset + elem_size;
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
+        let (_, bytes) = src.fill_buf(min_fill_bytes).context("failed to feed the input stream")?;
         if bytes < min_fill_bytes {
-            return 0;
+            return Ok(0);
         }
 
         // always in the little endian for now
@@ -54,25 +54,32 @@ impl SpanFetcher {
         // leave the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
         let val = i64::from_le_bytes(stream.try_into().unwrap());
         let shift = 64 - 8 * elem_size;
-        (val << shift) >> shift
+        Ok((val << shift) >> shift)
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
-        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
+    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> Result<usize> {
+        let mut err = None;
+        let getter = |id: usize, val: i64| -> i64 {
+            Self::get_array_element(skip, id, val, src).unwrap_or_else(|e| {
+                err.get_or_insert(e);
+                0
+            })
+        };
 
         let val = self.rpn.evaluate(getter);
-        if val.is_err() {
-            panic!("failed on evaluating expression: {:?}", &self.expr);
+        if let Some(err) = err {
+            return Err(err);
         }
 
-        let val = val.unwrap();
+        let val = val.with_context(|| format!("failed on evaluating expression: {:?}", &self.expr))?;
         if val <= 0 {
-            panic!(
+            return Err(anyhow!(
                 "slice span being non-positive on evaluating expression: {:?} (got: {}).",
-                &self.expr, val
-            );
+                &self.expr,
+                val
+            ));
         }
-        val as usize
+        Ok(val as usize)
     }
 }
 
@@ -105,22 +112,23 @@ impl WalkSlicer {
         })
     }
 
-    fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+    fn calc_next_chunk_len(&mut self) -> Result<usize> {
+        let mut chunk_len: usize = 0;
         for (i, f) in self.fetchers.iter().enumerate() {
-            let span = f.get_next_span(self.pos, &mut self.src);
+            let span = f.get_next_span(self.pos, &mut self.src)?;
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
-        chunk_len
+        Ok(chunk_len)
     }
 
     fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+        let (is_eof, bytes) = self.src.fill_buf(self.pos.saturating_add(chunk_len))?;
+        let rem_len = bytes - self.pos;
+        if is_eof && rem_len < chunk_len {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {rem_len})");
         }
 
         for span in &self.spans {
@@ -143,26 +151,15 @@ impl WalkSlicer {
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
+        let (mut is_eof, mut bytes) = self.src.fill_buf(request)?;
 
-        if is_eof && self.pos >= bytes {
-            let count = self.segments.len();
-            let max_consume = std::cmp::min(bytes, self.pos);
-            return Ok((is_eof, bytes, count, max_consume));
+        // cut all the chunks that start in the current window; the last one is clipped at EOF
+        let window = bytes;
+        while self.pos < if is_eof { bytes } else { window } {
+            let chunk_len = self.calc_next_chunk_len()?;
+            (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
         }
 
-        let (is_eof, bytes) = loop {
-            let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
-            }
-
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
-            }
-        };
-
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
         Ok((is_eof, bytes, count, max_consume))
-- 
2.43.0


From 93391c58e7bf562839ad9d65a70250ed6344505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 12/52] fix: --guide clips or drops the records that stretch
 beyond the end of the stream

---
 src/segment/guided.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..fb89901 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,7 +6,7 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
@@ -32,41 +32,49 @@ impl GuidedSlicer {
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
-
         // first update max_consume to the end of the current chunk of the stream
         // (may be shortened in the loop)
         self.max_consume = bytes;
 
-        let tail = self.src_consumed + bytes; // in absolute offset
         loop {
+            // do not expose the last segment if it's not covered by the stream yet
+            if let Some(last) = self.segments.last() {
+                if !is_eof && last.tail() > bytes {
+                    self.max_consume = std::cmp::min(self.max_consume, last.pos);
+                    self.guide_consumed = self.segments.len() - 1;
+                    return Ok(());
+                }
+            }
+
             // read the next guide to the buffer
             self.buf.clear();
 
             let ret = self.guide.read_line(&mut self.buf)?;
             if ret.is_none() {
                 // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
                 break;
             }
             let (offset, span) = ret.unwrap();
 
+            let min_pos = self.segments.last().map_or(0, |x| x.pos);
+            if offset < self.src_consumed + min_pos {
+                return Err(anyhow!("guide records must be sorted by their offsets (offset = {offset})"));
+            }
+
             // slice the stream out by the guide
             let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
+            self.segments.push(Segment { pos, len: span });
+        }
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
-                break;
+        // clip the segments by the end of the stream
+        if is_eof {
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.tail(), bytes) - s.pos;
             }
         }
+        self.guide_consumed = self.segments.len();
+
         Ok(())
     }
 }
-- 
2.43.0


From ad282f177a7198cdb0fb3912da8ec58640cde65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 13/52] fix: --regex scans each slice once and sorts the
 matches found in overlapping slices

---
 src/segment/regex.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..beba5c0 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -9,7 +9,8 @@ use regex::bytes::{Match, Regex};
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+    count: usize,       // #matches that no match found later can precede
+    src_scanned: usize, // #segments that are not consumed in the source but already scanned
     re: Regex,
 }
 
@@ -21,7 +22,8 @@ impl RegexSlicer {
         Ok(RegexSlicer {
             src,
             matches,
-            scanned: 0,
+            count: 0,
+            src_scanned: 0,
             re,
         })
     }
@@ -39,27 +41,32 @@ impl SegmentStream for RegexSlicer {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
-            }
-
+        for s in &segments[self.src_scanned..count] {
             self.matches
                 .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
 
-        self.scanned += bytes;
+        self.src_scanned = count;
+
+        // the matches in overlapping segments are not found in the order of their positions
+        self.matches.sort_by_key(|x| (x.pos, x.len));
+        self.count = if is_eof {
+            self.matches.len()
+        } else {
+            self.matches.partition_point(|x| x.pos < max_consume)
+        };
 
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        Ok((is_eof, bytes, self.count, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.matches)
+        (stream, &self.matches[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
+        let (bytes, src_count) = self.src.consume(bytes)?;
+        self.src_scanned -= src_count;
         if bytes == 0 {
             return Ok((0, 0));
         }
@@ -75,7 +82,7 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.count -= from;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From ced42a75c0d5d09952d0606d3fdd2f64040dbbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 14/52] fix: --invert sorts the mapped slices and holds back
 the ones beyond the buffered bytes

---
 src/segment/bridge.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..d78da9d 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -9,6 +9,9 @@ pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // #segments that no segment mapped later can precede
+    count: usize,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -37,6 +40,7 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            count: 0,
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -62,6 +66,25 @@ impl BridgeStream {
         self.max_consume = max_consume;
     }
 
+    fn update_count(&mut self, is_eof: bool, bytes: usize) {
+        // clip the segments that were mapped before the end of the stream is found
+        if is_eof {
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.tail(), bytes) - s.pos;
+            }
+        }
+        self.segments.sort_by_key(|x| (x.pos, x.len));
+
+        // hold back the segments that are not covered by the stream or can come after the next one
+        let is_ready = |x: &Segment| is_eof || (x.pos < self.max_consume && x.tail() <= bytes);
+        self.count = self.segments.iter().take_while(|x| is_ready(x)).count();
+
+        if let Some(next) = self.segments.get(self.count) {
+            self.max_consume = std::cmp::min(self.max_consume, next.pos);
+        }
+    }
+
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
         let tail = if is_eof { bytes } else { usize::MAX };
 
@@ -131,14 +154,15 @@ impl SegmentStream for BridgeStream {
 
         // update max_consume
         self.update_max_consume(is_eof, bytes);
+        self.update_count(is_eof, bytes);
         let max_consume = std::cmp::min(max_consume, self.max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.count, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, &self.segments[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -151,6 +175,7 @@ impl SegmentStream for BridgeStream {
 
         self.segments.copy_within(from..to, 0);
         self.segments.truncate(to - from);
+        self.count -= from;
 
         for s in &mut self.segments {
             s.pos -= bytes;
-- 
2.43.0


From 0eb43c67e68b1876894e5a559ec7781b62ba66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 15/52] fix: --extend clips the held slices by the end of the
 stream and holds back the ones beyond the buffered bytes

---
 src/segment/extend.rs | 71 ++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..c07bec1 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -4,32 +4,13 @@
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
-    // sorter; needed to reorder the segments when the start positions of the mapped
-    // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    // #segments that no segment mapped later can precede
+    count: usize,
 
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
@@ -56,7 +37,7 @@ impl ExtendStream {
         Ok(ExtendStream {
             src,
             segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            count: 0,
             src_scanned: 0,
             max_consume: 0,
             mappers,
@@ -82,10 +63,32 @@ impl ExtendStream {
         self.max_consume = max_consume;
     }
 
+    fn update_count(&mut self, is_eof: bool, bytes: usize) {
+        // clip the segments that were mapped before the end of the stream is found
+        if is_eof {
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.tail(), bytes) - s.pos;
+            }
+        }
+
+        // reorder the segments as the start positions of the mapped segments can be derived
+        // from the end positions of the source segments
+        self.segments.sort_by_key(|x| (x.pos, x.len));
+
+        // hold back the segments that are not covered by the stream or can come after the next one
+        let is_ready = |x: &Segment| is_eof || (x.pos < self.max_consume && x.tail() <= bytes);
+        self.count = self.segments.iter().take_while(|x| is_ready(x)).count();
+
+        if let Some(next) = self.segments.get(self.count) {
+            self.max_consume = std::cmp::min(self.max_consume, next.pos);
+        }
+    }
+
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
         let tail = if is_eof { bytes } else { usize::MAX };
 
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
+        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<Segment> {
             let s = [segment.pos as isize, segment.tail() as isize];
             let (start, end) = m.evaluate(&s, &s);
 
@@ -94,10 +97,9 @@ impl ExtendStream {
 
             // record the segment
             if start < end {
-                Some(SorterElement {
+                Some(Segment {
                     pos: start,
                     len: end - start,
-                    original_end: segment.tail(),
                 })
             } else {
                 None
@@ -111,22 +113,13 @@ impl ExtendStream {
         for next in &segments[self.src_scanned..count] {
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
+                    self.segments.push(s);
                 }
             }
         }
 
         // all source segments are mapped; save the source-scanning states
         self.src_scanned = count;
-
-        // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
-
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
-        }
     }
 }
 
@@ -137,14 +130,15 @@ impl SegmentStream for ExtendStream {
 
         // update max_consume
         self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.update_count(is_eof, bytes);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, &self.segments[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -157,6 +151,7 @@ impl SegmentStream for ExtendStream {
 
         self.segments.copy_within(from..to, 0);
         self.segments.truncate(to - from);
+        self.count -= from;
 
         for s in &mut self.segments {
             s.pos -= bytes;
-- 
2.43.0


From 62067547eac31cd64f8224559dbce898d27973f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 16/52] fix: --invert does not expose slices beyond the
 consumable bytes

---
 src/segment/bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index d78da9d..1f7042b 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -154,10 +154,10 @@ impl SegmentStream for BridgeStream {
 
         // update max_consume
         self.update_max_consume(is_eof, bytes);
+        self.max_consume = std::cmp::min(max_consume, self.max_consume);
         self.update_count(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
 
-        Ok((is_eof, bytes, self.count, max_consume))
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
-- 
2.43.0


From f9a80050d1ad1beee04f8bf869a6c35babd96044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 17/52] fix: --merge does not let through more bytes than the
 source does when no slice is pending

---
 src/segment/merge.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index e142127..4c76e1c 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -138,12 +138,9 @@ impl MergeStream {
             self.max_consume = bytes;
             return;
         }
-        if max_consume <= self.acc.furthest_margable_pos() {
-            self.max_consume = self.acc.start;
-            return;
-        }
 
-        self.max_consume = max_consume;
+        // note: acc.start is larger than any position when the accumulator is empty
+        self.max_consume = std::cmp::min(max_consume, self.acc.start);
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, max_consume: usize) {
-- 
2.43.0


From 4d0180f1fa0e5e3dca5ff2cef7c2f670d989736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 18/52] fix: --slice does not end the stream before the
 furthest slice end nor before the gaps and extensions

---
 src/pipeline.rs      |  4 +++-
 src/segment/range.rs | 14 ++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index f51dab5..05b687b 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -386,7 +386,9 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    // slices can be placed after the last range when they are derived from the gaps or the ends
+                    let full_scan = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = Box::new(RangeSlicer::new(prev, exprs)?.with_full_scan(full_scan));
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..b3e3b55 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,7 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    full_scan: bool, // scan the stream to the end even if no more segment is left
 }
 
 impl RangeSlicer {
@@ -115,8 +116,13 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            full_scan: false,
         })
     }
+
+    pub fn with_full_scan(self, full_scan: bool) -> Self {
+        RangeSlicer { full_scan, ..self }
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,10 +130,10 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            let max_consume = std::cmp::min(bytes, max_consume);
-            (true, bytes, max_consume)
+        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() && !self.full_scan {
+            // all the segments are found; terminate at the furthest end of them
+            let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
+            (true, bytes, bytes)
         } else {
             (is_eof, bytes, max_consume)
         };
-- 
2.43.0


From 80a31ca19a89f288673f7d1c1f3c15bdc1cdfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 19/52] fix: --find does not report matches that overlap the
 previous one at the block boundary

---
 src/segment/exact.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..32ddde0 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -50,15 +50,22 @@ impl SegmentStream for ExactMatchSlicer {
 
         let stream = self.src.as_slice();
         let len = self.pattern.len();
+        let mut tail = self.scanned;
 
         for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern) {
             self.segments.push(Segment {
                 pos: self.scanned + pos,
                 len,
             });
+            tail = self.scanned + pos + len;
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // note: matches do not overlap; the next one does not start before the tail of the last one
+        self.scanned = if is_eof {
+            bytes
+        } else {
+            std::cmp::max(tail, (bytes + 1).saturating_sub(len))
+        };
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 5d752b59dcd9abc4501acb28c2bf88d254bba828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 20/52] fix: --lines keeps identical slices and leaves the
 bytes the source can not forward yet

---
 src/segment/filter.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..3353e6d 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
@@ -143,9 +138,11 @@ impl SegmentStream for FilterStream {
             .cutter
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
-        let (is_eof, bytes) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            (true, bytes)
+        // terminate at the furthest end of the segments, once all of them are found and the source can be
+        // consumed up to there
+        let furthest = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
+        let (is_eof, bytes) = if !is_eof && self.cutter.is_empty() && furthest <= max_consume {
+            (true, furthest)
         } else {
             (is_eof, bytes)
         };
-- 
2.43.0


From 065fb9c5edffa24e3df9b3cebce91cb06865ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 21/52] fix: --width does not take back the slices it has
 already exposed

---
 src/segment/stride.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..07f3e4f 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,10 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        // the segments we hold back are the same as the ones `extend_segments` leaves to the next
+        // fill, so that the number of segments on loan doesn't decrease without `consume`
+        let n_extra = self.count_segments((next_tail + self.tail_reserved_bytes).saturating_sub(len + self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From e84101886468c17eb629b516a6b0655d247347c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 22/52] fix: --pad gives as many bytes as the next stage
 requests, and does not take them back

---
 src/byte/zero.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..4c96f33 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -30,14 +30,13 @@ impl ZeroStream {
 }
 
 impl ByteStream for ZeroStream {
-    fn fill_buf(&mut self, _: usize) -> Result<(bool, usize)> {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.offset >= self.len {
             self.next_len = 0;
             return Ok((true, 0));
         }
 
-        // TODO: we need this
-        // self.next_len = std::cmp::max(self.next_len, request);
+        self.next_len = std::cmp::min(self.len - self.offset, std::cmp::max(self.next_len, request));
         self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);
 
         let is_eof = self.len <= self.offset + self.next_len;
@@ -56,7 +55,10 @@ impl ByteStream for ZeroStream {
             return;
         }
         self.offset += amount;
-        self.next_len = std::cmp::min(self.len - self.offset, BLOCK_SIZE);
+
+        // the bytes that the consumer has already seen stay in the buffer
+        let next_len = std::cmp::max(self.next_len - amount, BLOCK_SIZE);
+        self.next_len = std::cmp::min(self.len - self.offset, next_len);
     }
 }
 
-- 
2.43.0


From 40ad000a059b77f0006fd6a4927e9aabf201e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 23/52] fix: --cat gives as many bytes as the next stage
 requests across the input files

---
 src/byte/cat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/byte/cat.rs b/src/byte/cat.rs
index 9b4e555..e35e504 100644
--- a/src/byte/cat.rs
+++ b/src/byte/cat.rs
@@ -72,10 +72,9 @@ impl ByteStream for CatStream {
         }
 
         // try to extend at least one byte even if the cache already has enough bytes
-        let request = request.saturating_sub(self.cache.len());
-        let request = std::cmp::max(1, request);
+        let src_request = std::cmp::max(1, request.saturating_sub(self.cache.len()));
 
-        let (is_eof, bytes) = self.srcs[self.i].fill_buf(request)?;
+        let (is_eof, bytes) = self.srcs[self.i].fill_buf(src_request)?;
         if is_eof || self.cache.len() > 0 {
             // path 1: the source remainder is not enough for the `request` so we try
             // the next source and accumulate them (including the one tried above)
-- 
2.43.0


From 603f3ab53ca2c858634c2ddd9e352b07e847974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 24/52] fix: --output FILE does not leave the tail of the
 previous content of the file

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 41af5f7..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From 73ab84621d531350cdd8d711ece442f8e5aa3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 25/52] fix: --patch-back does not overwrite the cached stream
 while it is being read

---
 src/byte/tee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..86ff1eb 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -63,6 +63,8 @@ impl ByteStream for TeeStream {
 
         match self.cache.lock() {
             Ok(mut cache) => {
+                // the readers share the cursor with us
+                cache.file.seek(SeekFrom::End(0)).unwrap();
                 cache.file.write_all(&stream[..bytes]).unwrap();
                 cache.clear_eof = true; // increment semaphore
             }
-- 
2.43.0


From f4f33a9b673874a94c0a00357ba581ab118339c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 26/52] fix: --patch-back keeps the tail of the stream that the
 slicers do not consume

---
 src/byte/tee.rs    | 18 ++++++++++++++++++
 src/drain/patch.rs |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 86ff1eb..6d37e30 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -75,6 +75,24 @@ impl ByteStream for TeeStream {
     }
 }
 
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            return;
+        }
+
+        // the consumer may leave the tail of the stream (e.g., when no slice is there), but the
+        // readers need all of it
+        loop {
+            let (is_eof, bytes) = self.fill_buf(BLOCK_SIZE).unwrap();
+            if is_eof && bytes == 0 {
+                break;
+            }
+            self.consume(bytes);
+        }
+    }
+}
+
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         match self.cache.lock() {
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 06cf5ba..7e78192 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -89,6 +89,9 @@ impl PatchDrain {
                 }
             }
 
+            // the remainder of the stream is cached on dropping the source
+            drop(patch);
+
             writer.write_all(&buf).unwrap();
             writer.close();
         });
-- 
2.43.0


From d2f4bf8605ecff03f51f6e87a51b77eafe319a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 27/52] fix: the operators &, ^, | and comparisons have the
 same precedence as the C

---
 src/eval.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..3c09512 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -49,21 +49,26 @@ fn is_pow(c: char) -> bool {
     c == '@'
 }
 
+fn precedence(c: char) -> usize {
+    // the same order as the C language, except for the power operator
+    match c {
+        _ if is_muldiv(c) => 8,
+        _ if is_addsub(c) => 7,
+        _ if is_shift(c) => 6,
+        _ if is_pow(c) => 5,
+        _ if is_cmp(c) => 4,
+        '&' => 3,
+        '^' => 2,
+        _ => 1, // '|'
+    }
+}
+
 fn latter_precedes(former: &Token, latter: &Token) -> bool {
     match (former, latter) {
         (&Prefix(_), &Op(latter)) => is_pow(latter),
         (&Op(former), &Op(latter)) => {
-            if is_muldiv(former) || is_muldiv(latter) {
-                return !is_muldiv(former);
-            } else if is_addsub(former) || is_addsub(latter) {
-                return !is_addsub(former);
-            } else if is_shift(former) || is_shift(latter) {
-                return !is_shift(former);
-            } else if is_pow(former) || is_pow(latter) {
-                return is_pow(latter);
-            }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
-            false
+            // the power operator is right-associative and the others are left-associative
+            is_pow(former) && is_pow(latter) || precedence(latter) > precedence(former)
         }
         _ => true,
     }
-- 
2.43.0


From 4ee4535fc50311a79e250ce99cf5b13878fef109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 28/52] fix: expressions are evaluated as they are written, not
 in the canonical form

---
 src/eval.rs   | 17 +++++++++++------
 src/mapper.rs |  2 +-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 3c09512..787ec74 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -1188,6 +1188,10 @@ where
                     *x = c * get(id, *x);
                 }
             }
+            (VarArr(id), _) => {
+                let x = stack.last_mut().context(starved)?;
+                *x = get(id, *x);
+            }
             _ => {
                 return Err(anyhow!("unexpected token: {:?}", token));
             }
@@ -1287,16 +1291,17 @@ impl Rpn {
         let mut tokens = tokenize(input, vars)?;
         mark_prefices(&mut tokens).with_context(|| format!("invalid token order found in {input:?}"))?;
 
-        let mut rpn = sort_into_rpn(&tokens).with_context(|| format!("parenthes not balanced in {input:?}"))?;
-
-        let len = canonize_rpn(&mut rpn).context("failed to canonize rpn (internal error)")?;
-        rpn.truncate(len);
+        let rpn = sort_into_rpn(&tokens).with_context(|| format!("parenthes not balanced in {input:?}"))?;
 
         Ok(Rpn { rpn })
     }
 
-    pub fn tokens(&self) -> Vec<Token> {
-        self.rpn.iter().map(|x| x.0).collect::<Vec<_>>()
+    // the canonical form, for the callers that examine the structure of the expression
+    pub fn tokens(&self) -> Result<Vec<Token>> {
+        let mut rpn = self.rpn.clone();
+        let len = canonize_rpn(&mut rpn).context("failed to canonize rpn (internal error)")?;
+
+        Ok(rpn[..len].iter().map(|x| x.0).collect::<Vec<_>>())
     }
 
     pub fn evaluate<F>(&self, get: F) -> Result<i64>
diff --git a/src/mapper.rs b/src/mapper.rs
index 44a767a..cec0a89 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -33,7 +33,7 @@ impl SegmentMapperAnchor {
 
         // parse the expression into a RPN, and extract coefficient
         let rpn = Rpn::new(expr, Some(&vars))?;
-        let (anchor, offset) = match rpn.tokens().as_slice() {
+        let (anchor, offset) = match rpn.tokens()?.as_slice() {
             [Val(c)] => (const_default, *c as isize),
             [Var(id, 1)] => (*id, 0),
             [Var(id, 1), Val(c), Op('+')] => (*id, *c as isize),
-- 
2.43.0


From 9f0a69476f89b55f55c08105d8b94252f9a3f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 29/52] fix: division by zero in an expression is an error, not
 a panic

---
 src/eval.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 787ec74..6bbe27f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -461,8 +461,8 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
         '#' => -(x + y),
         '~' => -(x - y),
         '*' => x * y,
-        '/' => x / y,
-        '%' => x % y,
+        '/' => x.wrapping_div(y),
+        '%' => x.wrapping_rem(y),
         '&' => x & y,
         '|' => x | y,
         '^' => x ^ y,
@@ -737,7 +737,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
     let lhs = root - tokens[root].1;
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
         // 2 + 3 => 5 (leaf)
-        (Val(x), Val(y), Op(op)) => {
+        (Val(x), Val(y), Op(op)) if y != 0 || (op != '/' && op != '%') => {
             tokens[lhs].0 = Val(apply_op(op, x, y));
             Some(lhs)
         }
@@ -1178,6 +1178,9 @@ where
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
+                if y == 0 && (op == '/' || op == '%') {
+                    return Err(anyhow!("division by zero found in evaluating expression"));
+                }
                 *x = apply_op(op, *x, y);
             }
             (Var(id, c), lhs) => {
-- 
2.43.0


From 848d373d9e076dab0f2b33546e74ba4d825b39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 30/52] fix: unary operators are allowed after another unary
 operator and at the head of an array index

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 6bbe27f..9e40fb8 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -314,7 +314,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
         let (former, latter) = tokens.split_at_mut(1);
         match (former[0], latter[0]) {
             // fixup unary op
-            (Op(_) | Paren('('), Op(y)) if is_unary(y) => {
+            (Op(_) | Prefix(_) | Paren('(' | '['), Op(y)) if is_unary(y) => {
                 latter[0] = Prefix(if y == '~' { '!' } else { y });
             }
             // prefix followed by an expression
-- 
2.43.0


From e652e9424dd8db68f75f9f1e19b1ce15b81022ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 31/52] fix: constants that do not fit in 64 bits are errors,
 and the E prefix is exa

---
 src/eval.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9e40fb8..fe744fc 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -215,13 +215,14 @@ where
         skip_mask = (skip_mask << 1) | (skip as u64);
     };
 
-    let mut i = 0;
-    let mut digits = [0u8; 32];
+    let mut digits = Vec::new();
     let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
+        digits.push(digit);
     };
 
+    // alphabets are digits only in the hexadecimal numbers ('E' is a prefix in the others)
+    let parse_char = |c: char| -> Option<(bool, i64)> { parse_char(c).filter(|_| num_base == 16 || !c.is_ascii_alphabetic()) };
+
     let (skip, digit) = parse_char(first)?;
     push_skip_mask(skip);
     push_digit(digit);
@@ -238,12 +239,12 @@ where
     if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
         return None;
     }
-    let mut val = 0;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
+    let mut val: i64 = 0;
+    for &digit in &digits {
+        if digit >= num_base {
             return None;
         }
-        val = val * num_base + digit as i64;
+        val = val.checked_mul(num_base)?.checked_add(digit)?;
     }
 
     let scaler = match it.peek() {
@@ -251,11 +252,11 @@ where
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From c11b3d44d3849683fabf5d31c15054ac2ba8924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 32/52] fix: --lines can terminate the stream at an arbitrary
 position of a long series of slices

---
 src/drain/scatter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index b7b3236..967653c 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -128,10 +128,9 @@ impl ScatterDrain {
             self.src_consumed = count;
 
             // consumed bytes and count
+            // (the source may leave some bytes unconsumed at EOF, if it has found all the slices to be
+            // formatted before the end of its own source)
             let (bytes, count) = self.src.consume(max_consume)?;
-            if is_eof {
-                debug_assert!(bytes == max_consume);
-            }
 
             self.src_consumed -= count;
             self.offset += bytes;
-- 
2.43.0


From b8c8c45e55887284b7ffef01e9a4e6989b686fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 33/52] fix: --inplace does not write its temporary output over
 an existing file

---
 src/main.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..5f035fd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -160,11 +160,14 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
+            let (tmpfile, drain) = create_tmpfile(&input[0])?;
+            let drain = Box::new(drain);
 
-            let stream = pipeline.spawn_stream(sources)?;
-            consume_stream(stream, drain)?;
+            let result = pipeline.spawn_stream(sources).and_then(|stream| consume_stream(stream, drain));
+            if result.is_err() {
+                let _ = std::fs::remove_file(&tmpfile);
+            }
+            result?;
 
             std::fs::rename(&tmpfile, &input[0])?;
         }
@@ -189,6 +192,19 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
     Ok(())
 }
 
+// the temporary file must not be an existing file, which might be another input
+fn create_tmpfile(input: &str) -> Result<(String, File)> {
+    let mut index = 0;
+    loop {
+        let name = if index == 0 { format!("{input}.tmp") } else { format!("{input}.tmp{index}") };
+        match File::options().write(true).create_new(true).open(&name) {
+            Ok(file) => return Ok((name, file)),
+            Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => index += 1,
+            Err(err) => return Err(err.into()),
+        }
+    }
+}
+
 fn build_sources(files: &[String]) -> Result<Vec<Box<dyn Read + Send>>> {
     let mut v: Vec<Box<dyn Read + Send>> = Vec::new();
     for file in files.iter() {
-- 
2.43.0


From 6d7083d92f031a8bcbec8e0f977f7783244bb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 34/52] fix: --lines keeps the end of the stream it has found,
 and leaves there even if the source can not forward to it

---
 src/segment/filter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 3353e6d..96a093e 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -111,6 +111,7 @@ pub struct FilterStream {
     src_scanned: usize,  // relative count in the next segment array
     src_consumed: usize, // absolute count from the head
     max_consume: usize,  // in #bytes
+    is_eof: bool,
     segments: Vec<Segment>,
     cutter: Cutter,
 }
@@ -122,6 +123,7 @@ impl FilterStream {
             src_scanned: 0,
             src_consumed: 0,
             max_consume: 0,
+            is_eof: false,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
         })
@@ -141,13 +143,14 @@ impl SegmentStream for FilterStream {
         // terminate at the furthest end of the segments, once all of them are found and the source can be
         // consumed up to there
         let furthest = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
-        let (is_eof, bytes) = if !is_eof && self.cutter.is_empty() && furthest <= max_consume {
+        let (is_eof, bytes) = if self.cutter.is_empty() && furthest <= max_consume {
             (true, furthest)
         } else {
             (is_eof, bytes)
         };
 
         self.src_scanned = scanned;
+        self.is_eof = is_eof;
         self.max_consume = if is_eof {
             bytes
         } else if scanned >= segments.len() {
@@ -166,10 +169,14 @@ impl SegmentStream for FilterStream {
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
         let bytes = std::cmp::min(bytes, self.max_consume);
-        let (bytes, src_count) = self.src.consume(bytes)?;
+        let (src_bytes, src_count) = self.src.consume(bytes)?;
         self.src_scanned -= src_count;
         self.src_consumed += src_count;
 
+        // the stream is done when it's consumed to the end, even if the source can't forward up to there
+        let is_done = self.is_eof && bytes == self.max_consume;
+        let bytes = if is_done { bytes } else { src_bytes };
+
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
 
-- 
2.43.0


From 25819d4865d1f432af21616ced61b4ebf72cd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 35/52] fix: don't truncate slices that are clipped at the head
 of the stream

The number of slices in the first consume may be 16 or more while all of them
are clipped at the head; the truncation computed a negative length then.
---
 src/segment/stride.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 07f3e4f..82f004f 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -353,16 +353,19 @@ impl ConstSegments {
             }
         };
 
-        if count < 16 {
+        // the position of the segment to stop at if we don't shift the phase
+        let truncated = if phase == 0 { count } else { count.saturating_sub(1) };
+        let tail = truncated * self.pitch + self.phase.prev;
+
+        if count < 16 || tail <= phase_offset {
+            // the segment is located (clipped) at or before the head of the stream when tail <= phase_offset
             self.phase.curr = phase;
             return (bytes, count);
         }
 
         // long enough; we don't shift the phase. truncate the last segment
         self.phase.curr = 0;
-        let count = if phase == 0 { count } else { count - 1 };
-        let bytes = count * self.pitch + self.phase.prev - phase_offset;
-        (bytes, count)
+        (tail - phase_offset, truncated)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-- 
2.43.0


From 62c77ac878b7ef41158a5ff83be45dca2690f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 36/52] fix: a decimal number that does not fit in 60 bits is
 an error, and does not wrap around

---
 src/text/parser/naive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7f76f83..56a9df3 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -90,6 +90,11 @@ pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
         }
 
         n = n * 10 + (x - b'0') as u64;
+
+        // too large; the limit is the same as of the hexadecimal (15 digits)
+        if n >> 60 != 0 {
+            return None;
+        }
     }
     None
 }
-- 
2.43.0


From 72ee86199d545eda5c02503ef2471486f17f9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 37/52] fix: --slice does not announce the end of its stream
 before the end of a range that is already found

---
 src/segment/range.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/segment/range.rs b/src/segment/range.rs
index b3e3b55..85559f6 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -103,6 +103,7 @@ pub struct RangeSlicer {
     src: Box<dyn ByteStream>,
     src_consumed: usize, // in #bytes
     max_consume: usize,  // in #bytes
+    furthest: usize,     // furthest end of the segments found so far
     segments: Vec<Segment>,
     cutter: Cutter,
     full_scan: bool, // scan the stream to the end even if no more segment is left
@@ -114,6 +115,7 @@ impl RangeSlicer {
             src,
             src_consumed: 0,
             max_consume: 0,
+            furthest: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
             full_scan: false,
@@ -130,9 +132,12 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
+        // note: the segments already consumed can extend beyond the ones left here
+        self.furthest = self.segments.iter().map(|x| x.tail()).fold(self.furthest, std::cmp::max);
+
         let (is_eof, bytes, max_consume) = if self.cutter.is_empty() && !self.full_scan {
             // all the segments are found; terminate at the furthest end of them
-            let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
+            let bytes = std::cmp::max(self.furthest, self.max_consume);
             (true, bytes, bytes)
         } else {
             (is_eof, bytes, max_consume)
@@ -162,6 +167,7 @@ impl SegmentStream for RangeSlicer {
         }
         self.src_consumed += bytes;
         self.max_consume -= bytes;
+        self.furthest = self.furthest.saturating_sub(bytes);
 
         Ok((bytes, from))
     }
-- 
2.43.0


From f1e3f0609475ed8f5505feb0bb7289c6a6f7fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 38/52] fix: reject ':' in the columns of a record in the SIMD
 parsers

The delimiter table of the hex parsers takes ':' as a space, for the header
of a record. A column "::", ": " or " :" was taken as a blank one then,
so a malformed line was accepted (and the rest of it dropped) on machines
with AVX2 or NEON, while the scalar parser rejects it.
---
 src/text/parser/aarch64.rs | 11 +++++++----
 src/text/parser/x86_64.rs  | 12 +++++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/text/parser/aarch64.rs b/src/text/parser/aarch64.rs
index c1612d2..0a106e7 100644
--- a/src/text/parser/aarch64.rs
+++ b/src/text/parser/aarch64.rs
@@ -152,8 +152,8 @@ pub fn parse_hex_single_neon(src: &[u8]) -> Option<(u64, usize)> {
 unsafe fn parse_multi(x: uint8x16x3_t, elems: usize, v: &mut [u8]) -> Option<usize> {
     debug_assert!(elems <= 16);
 
-    let (xh, vh, sh) = to_hex(x.0);
-    let (xl, vl, sl) = to_hex(x.1);
+    let (xh, vh, _) = to_hex(x.0);
+    let (xl, vl, _) = to_hex(x.1);
 
     let to_mask = |x: uint8x16_t| -> u64 {
         let x = vreinterpretq_u64_u8(x);
@@ -169,8 +169,11 @@ unsafe fn parse_multi(x: uint8x16x3_t, elems: usize, v: &mut [u8]) -> Option<usi
     // "0  " ng
     // " 0 " ng
     // "00 " ok
-    let is_space = (to_mask(vceqq_u8(x.2, vdupq_n_u8(b' '))) >> 1) | 0x8000000000000000;
-    let is_null = to_mask(vandq_u8(sh, sl));
+    let space = vdupq_n_u8(b' ');
+    let is_space = (to_mask(vceqq_u8(x.2, space)) >> 1) | 0x8000000000000000;
+
+    // note: `to_hex` takes ':' as a delimiter as well, which is not allowed here
+    let is_null = to_mask(vandq_u8(vceqq_u8(x.0, space), vceqq_u8(x.1, space)));
     let is_valid = to_mask(vandq_u8(vh, vl));
     let mask = 0xffffffffffffffff >> elems;
 
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..e57fa6d 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -105,19 +105,21 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
     // validation; we allow double-space columns (null)
     // "   " ok
     // "0  " ng
     // " 0 " ng
     // "00 " ok
-    let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
-    let is_space = _mm_movemask_epi8(is_space) as u64;
+    let space = _mm_set1_epi8(b' ' as i8);
+    let is_space = _mm_movemask_epi8(_mm_cmpeq_epi8(s, space)) as u64;
     let is_space = (is_space << 1) | 1;
 
-    let is_null = sh & sl;
+    // note: `to_hex` takes ':' as a delimiter as well, which is not allowed here
+    let is_null = _mm_and_si128(_mm_cmpeq_epi8(l, space), _mm_cmpeq_epi8(h, space));
+    let is_null = _mm_movemask_epi8(is_null) as u64;
     let is_valid = vh & vl;
 
     let mask = 0u64.wrapping_sub(1 << elems);
-- 
2.43.0


From 583f9015eda31dddfab59bb882678297cc0d1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 39/52] fix: hold an empty slice of --guide back until the
 bytes after it are known

---
 src/segment/guided.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index fb89901..a744845 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -38,8 +38,9 @@ impl GuidedSlicer {
 
         loop {
             // do not expose the last segment if it's not covered by the stream yet
+            // (an empty one at the end of the chunk is not either, as the stream may end there)
             if let Some(last) = self.segments.last() {
-                if !is_eof && last.tail() > bytes {
+                if !is_eof && (last.tail() > bytes || last.pos >= bytes) {
                     self.max_consume = std::cmp::min(self.max_consume, last.pos);
                     self.guide_consumed = self.segments.len() - 1;
                     return Ok(());
@@ -81,7 +82,7 @@ impl GuidedSlicer {
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let request = std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| x.tail()));
+        let request = std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| std::cmp::max(x.tail(), x.pos + 1)));
         let (is_eof, bytes) = self.src.fill_buf(request)?;
 
         self.extend_segment_buf(is_eof, bytes)?;
-- 
2.43.0


From 5d5552b9591883bf1a4cbf44e640b43fc6369781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 40/52] fix: accept an empty slice of --guide in --merge

---
 src/segment/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index 4c76e1c..2e1ea23 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -34,7 +34,7 @@ impl Accumulator {
     fn pop(&mut self) -> Segment {
         let pos = self.start;
         let tail = self.end;
-        debug_assert!(pos < tail);
+        debug_assert!(pos <= tail);
 
         // clear the current state
         self.count = 0;
-- 
2.43.0


From 6242a599f9f6f5532c5e1b4bb9694b2427ec93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 41/52] fix: --extend does not let go of bytes that the next
 empty slice may be mapped to

---
 src/segment/extend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index c07bec1..fbeca95 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -51,7 +51,7 @@ impl ExtendStream {
         }
 
         let max_consume = max_consume as isize;
-        let phantom = [max_consume, max_consume + 1];
+        let phantom = [max_consume, max_consume]; // the next one may be empty
 
         let eval_phantom = |m: &SegmentMapper| {
             let (start, end) = m.evaluate(&phantom, &phantom);
-- 
2.43.0


From 0d30dc8e768bfa6abaad747318cbdb9ba4beb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 42/52] fix: write the empty slices that are exposed when no
 byte is left to --output and --patch-back

---
 src/drain/patch.rs   | 7 ++++---
 src/drain/scatter.rs | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7e78192..40542f4 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -72,13 +72,14 @@ impl PatchDrain {
 
             loop {
                 let (is_eof, bytes, count, max_consume) = patch.fill_segment_buf().unwrap();
+                let (stream, segments) = patch.as_slices();
+                formatter.format_segments(offset, stream, &segments[src_consumed..count], &mut buf);
+
+                // empty slices may be left when no byte is
                 if is_eof && bytes == 0 {
                     break;
                 }
 
-                let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, &segments[src_consumed..count], &mut buf);
-
                 let (bytes, consumed) = patch.consume(max_consume).unwrap();
                 src_consumed = count - consumed;
                 offset += bytes;
diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 967653c..459e967 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -143,10 +143,6 @@ impl ScatterDrain {
     fn fill_buf_impl_scatter(&mut self) -> Result<(bool, usize)> {
         loop {
             let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-            if is_eof && bytes == 0 {
-                return Ok((true, 0));
-            }
-
             let (stream, segments) = self.src.as_slices();
             for (i, s) in segments[self.src_consumed..count].windows(1).enumerate() {
                 self.buf.clear();
@@ -158,6 +154,11 @@ impl ScatterDrain {
             }
             self.src_consumed = count;
 
+            // empty slices may be left when no byte is
+            if is_eof && bytes == 0 {
+                return Ok((true, 0));
+            }
+
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
             self.src_consumed -= count;
-- 
2.43.0


From 823aa6ec7d817d000c00e68aad9b312f2f8d1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 43/52] fix: clamp the requests of --walk so that huge lengths
 and indexes do not overflow

---
 src/segment/walk.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index 8073ba8..7532719 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -8,6 +8,10 @@ use crate::params::BLOCK_SIZE;
 use anyhow::{anyhow, Context, Result};
 use std::collections::HashMap;
 
+// no stream is as long as this. offsets and lengths are clamped to it, so that the streams below
+// can add to the requests without an overflow.
+const MAX_REQUEST: usize = usize::MAX / 64;
+
 struct SpanFetcher {
     expr: String,
     rpn: Rpn,
@@ -38,8 +42,8 @@ impl SpanFetcher {
             return Err(anyhow!("slice index being negative (got: {index})."));
         }
 
-        let offset = skip + index as usize * elem_size;
-        let min_fill_bytes = offset + elem_size;
+        let offset = (index as usize).saturating_mul(elem_size).saturating_add(skip);
+        let min_fill_bytes = offset.saturating_add(elem_size).min(MAX_REQUEST);
 
         let (_, bytes) = src.fill_buf(min_fill_bytes).context("failed to feed the input stream")?;
         if bytes < min_fill_bytes {
@@ -79,7 +83,7 @@ impl SpanFetcher {
                 val
             ));
         }
-        Ok(val as usize)
+        Ok((val as usize).min(MAX_REQUEST))
     }
 }
 
@@ -124,7 +128,7 @@ impl WalkSlicer {
     }
 
     fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(self.pos.saturating_add(chunk_len))?;
+        let (is_eof, bytes) = self.src.fill_buf(self.pos.saturating_add(chunk_len).min(MAX_REQUEST))?;
         let rem_len = bytes - self.pos;
         if is_eof && rem_len < chunk_len {
             // TODO: use logger
-- 
2.43.0


From c6db5fa5e4780a4d4cf09becefe3522165b1ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:19 +0000
Subject: [PATCH 44/52] fix: refuse '!' and '~' as binary operators, and
 brackets closed by the other type

---
 src/eval.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index fe744fc..bf17927 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -321,7 +321,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
             // prefix followed by an expression
             (Prefix(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // binary op; lhs and rhs
-            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(_)) => {}
+            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(y)) if y != '!' && y != '~' => {} // they are unary ops
             (Op(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // parentheses inner
             (Paren('(' | '['), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
@@ -388,6 +388,9 @@ fn sort_into_rpn(tokens: &[Token]) -> Option<Vec<(Token, usize)>> {
                     if op == Paren(other) {
                         break;
                     }
+                    if let Paren(_) = op {
+                        return None; // closed by the other type
+                    }
                     expand_and_push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
                 }
                 if x == ']' {
-- 
2.43.0


From a16ff2af6ba98a19f27a4af4ca641b208500ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 45/52] fix: let the arithmetic of expressions wrap instead of
 panicking on an overflow

---
 src/eval.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index bf17927..592c92a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -451,7 +451,7 @@ fn test_sort_into_rpn() {
 fn apply_prefix(c: char, x: i64) -> i64 {
     match c {
         '+' => x,
-        '-' => -x,
+        '-' => x.wrapping_neg(),
         '!' => !x,
         'G' => (x >= 0) as i64,
         _ => panic!("unknown op: {c:?}"),
@@ -460,11 +460,11 @@ fn apply_prefix(c: char, x: i64) -> i64 {
 
 fn apply_op(c: char, x: i64, y: i64) -> i64 {
     match c {
-        '+' => x + y,
-        '-' => x - y,
-        '#' => -(x + y),
-        '~' => -(x - y),
-        '*' => x * y,
+        '+' => x.wrapping_add(y),
+        '-' => x.wrapping_sub(y),
+        '#' => x.wrapping_add(y).wrapping_neg(),
+        '~' => x.wrapping_sub(y).wrapping_neg(),
+        '*' => x.wrapping_mul(y),
         '/' => x.wrapping_div(y),
         '%' => x.wrapping_rem(y),
         '&' => x & y,
@@ -474,19 +474,19 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             if y >= 0 {
                 x << ((y as usize) & 0x3f)
             } else {
-                x >> ((-y as usize) & 0x3f)
+                x >> ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '>' => {
             if y >= 0 {
                 x >> ((y as usize) & 0x3f)
             } else {
-                x << ((-y as usize) & 0x3f)
+                x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '@' => {
             if y >= 0 {
-                x.pow(y as u32)
+                x.wrapping_pow(y as u32)
             } else {
                 0
             }
@@ -747,7 +747,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
-            tokens[lhs].0 = Var(id, c * x);
+            tokens[lhs].0 = Var(id, c.wrapping_mul(x));
             Some(lhs)
         }
         // (x + 2) + 3 => x + 5
@@ -1189,10 +1189,10 @@ where
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
-                    stack.push(c * get(id, 0));
+                    stack.push(c.wrapping_mul(get(id, 0)));
                 } else {
                     let x = stack.last_mut().context(starved)?;
-                    *x = c * get(id, *x);
+                    *x = c.wrapping_mul(get(id, *x));
                 }
             }
             (VarArr(id), _) => {
-- 
2.43.0


From 293f9697a31edb68920b2c8cf8e7927eb4327765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:14 +0000
Subject: [PATCH 46/52] fix: evaluate comparisons without overflowing
 differences

---
 src/eval.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 592c92a..27953ae 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -350,7 +350,16 @@ fn expand_and_push_op(op: &Token, lhs: usize, rpn: &mut Vec<(Token, usize)>) {
     }
 }
 
+fn push_op(op: &Token, lhs: usize, rpn: &mut Vec<(Token, usize)>) {
+    rpn.push((*op, lhs));
+}
+
+// comparisons are expanded into the sign of a difference, the form that the simplification takes
 fn sort_into_rpn(tokens: &[Token]) -> Option<Vec<(Token, usize)>> {
+    sort_into_rpn_with(tokens, expand_and_push_op)
+}
+
+fn sort_into_rpn_with(tokens: &[Token], push_op: fn(&Token, usize, &mut Vec<(Token, usize)>)) -> Option<Vec<(Token, usize)>> {
     let mut rpn = Vec::new();
     let mut op_stack = Vec::new();
 
@@ -377,7 +386,7 @@ fn sort_into_rpn(tokens: &[Token]) -> Option<Vec<(Token, usize)>> {
                         break;
                     }
                     let (op, i) = op_stack.pop()?;
-                    expand_and_push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
+                    push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
                 }
                 op_stack.push((Op(op), rpn.len()));
             }
@@ -391,11 +400,11 @@ fn sort_into_rpn(tokens: &[Token]) -> Option<Vec<(Token, usize)>> {
                     if let Paren(_) = op {
                         return None; // closed by the other type
                     }
-                    expand_and_push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
+                    push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
                 }
                 if x == ']' {
                     let (op, i) = op_stack.pop()?;
-                    expand_and_push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
+                    push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
                 }
             }
             _ => {
@@ -484,6 +493,10 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
                 x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
+        'g' => (x > y) as i64,
+        'G' => (x >= y) as i64,
+        'l' => (x < y) as i64,
+        'L' => (x <= y) as i64,
         '@' => {
             if y >= 0 {
                 x.wrapping_pow(y as u32)
@@ -1285,6 +1298,7 @@ fn to_string(tokens: &[(Token, usize)], vars: &HashMap<usize, &[u8]>, v: &mut St
 // public API
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Rpn {
+    tokens: Vec<Token>,
     rpn: Vec<(Token, usize)>,
 }
 
@@ -1298,14 +1312,15 @@ impl Rpn {
         let mut tokens = tokenize(input, vars)?;
         mark_prefices(&mut tokens).with_context(|| format!("invalid token order found in {input:?}"))?;
 
-        let rpn = sort_into_rpn(&tokens).with_context(|| format!("parenthes not balanced in {input:?}"))?;
+        // the difference of the two sides of a comparison may overflow. it's evaluated as it is.
+        let rpn = sort_into_rpn_with(&tokens, push_op).with_context(|| format!("parenthes not balanced in {input:?}"))?;
 
-        Ok(Rpn { rpn })
+        Ok(Rpn { tokens, rpn })
     }
 
     // the canonical form, for the callers that examine the structure of the expression
     pub fn tokens(&self) -> Result<Vec<Token>> {
-        let mut rpn = self.rpn.clone();
+        let mut rpn = sort_into_rpn(&self.tokens).context("failed to sort tokens (internal error)")?;
         let len = canonize_rpn(&mut rpn).context("failed to canonize rpn (internal error)")?;
 
         Ok(rpn[..len].iter().map(|x| x.0).collect::<Vec<_>>())
-- 
2.43.0


From b58545c158fc945761884183bfe249e613a57dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 47/52] fix: clamp the offsets of the range expressions so that
 huge ones do not overflow

---
 src/mapper.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mapper.rs b/src/mapper.rs
index cec0a89..9ea1192 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -8,6 +8,10 @@ use anyhow::{anyhow, Result};
 use std::collections::HashMap;
 use std::ops::Range;
 
+// no stream is as long as this. offsets are clamped to it, so that positions can be added to them
+// without an overflow.
+const MAX_OFFSET: isize = isize::MAX / 4;
+
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 struct SegmentMapperAnchor {
     anchor: usize,
@@ -44,6 +48,8 @@ impl SegmentMapperAnchor {
             }
         };
 
+        let offset = offset.clamp(-MAX_OFFSET, MAX_OFFSET);
+
         Ok(SegmentMapperAnchor { anchor, offset })
     }
 
-- 
2.43.0


From aa18af155230d7004c1d115d5e08f28d8da54345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 48/52] fix: reject placeholders with something other than a
 format after the expression

---
 src/template.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 865700c..819b8ff 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -22,7 +22,7 @@ impl Template {
         // parsing std::fmt-style formatter string
         // TODO: is there any good crate to do this? better avoid re-inventing wheels...
         let brace_matcher = Regex::new(r"\{.*?\}").unwrap();
-        let arg_matcher = Regex::new(r"\{((?:\([^:]*\))|[a-zA-Z]*)(:{0,1}.*)\}").unwrap();
+        let arg_matcher = Regex::new(r"^\{((?:\([^:]*\))|[a-zA-Z]*)(:.*)?\}$").unwrap();
 
         let mut elems = Vec::new();
         let mut i = 0;
@@ -37,8 +37,7 @@ impl Template {
             let name = args.get(1).unwrap();
             let name = Rpn::new(name.as_str(), vars)?;
 
-            let spec = args.get(2).unwrap();
-            let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
+            let spec = args.get(2).map_or("", |x| &x.as_str()[1..]);
             let spec = NumFmt::from_str(spec)?;
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
-- 
2.43.0


From 346de13344aba073ed28560ddee55cc950312b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 49/52] fix: format negative values in other bases as std::fmt
 does, without panicking

---
 src/template.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 819b8ff..eee99ee 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -2,7 +2,7 @@
 // @brief run-time template formatter (for filename formatting)
 
 use anyhow::{anyhow, Context, Result};
-use num_runtime_fmt::NumFmt;
+use num_runtime_fmt::{Base, NumFmt};
 use regex::Regex;
 use std::collections::HashMap;
 
@@ -73,7 +73,8 @@ impl Template {
 
             if let Some(var) = &elem.var {
                 let val = var.0.evaluate(&mut get)?;
-                let fmt = var.1.fmt(val)?;
+                // negative values are in the two's complement unless in decimal, as std::fmt does
+                let fmt = if var.1.base() == Base::Decimal { var.1.fmt(val)? } else { var.1.fmt(val as u64)? };
                 s.push_str(&fmt);
             }
         }
-- 
2.43.0


From 2b91642cb1289c96e945897470d815dcc088cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 50/52] fix: find contiguous fillers anywhere in a number

---
 src/eval.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 27953ae..65fabc0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -210,9 +210,10 @@ where
         }
     };
 
-    let mut skip_mask = 1u64;
-    let mut push_skip_mask = |skip: bool| {
-        skip_mask = (skip_mask << 1) | (skip as u64);
+    let (mut is_skip, mut is_valid) = (true, true);
+    let mut push_skip = |skip: bool| {
+        is_valid = is_valid && !(is_skip && skip);
+        is_skip = skip;
     };
 
     let mut digits = Vec::new();
@@ -224,11 +225,11 @@ where
     let parse_char = |c: char| -> Option<(bool, i64)> { parse_char(c).filter(|_| num_base == 16 || !c.is_ascii_alphabetic()) };
 
     let (skip, digit) = parse_char(first)?;
-    push_skip_mask(skip);
+    push_skip(skip);
     push_digit(digit);
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
-        push_skip_mask(skip);
+        push_skip(skip);
         if !skip {
             push_digit(digit);
         }
@@ -236,7 +237,7 @@ where
     }
 
     // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
-    if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
+    if is_skip || !is_valid {
         return None;
     }
     let mut val: i64 = 0;
-- 
2.43.0


From 7c5a0f7e0cfd217a13653e7a1ee0cb48e2a1e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:39 +0000
Subject: [PATCH 51/52] fix: refuse slices of a zero width without panicking

---
 src/segment/stride.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 82f004f..0c6911d 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -17,6 +17,9 @@ pub struct ConstSlicerParams {
 
 impl ConstSlicerParams {
     pub fn from_raw(pitch: usize, expr: Option<&str>) -> Result<Self> {
+        if pitch == 0 {
+            return Err(anyhow!("the width of slices must not be zero"));
+        }
         let pitch = pitch as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
-- 
2.43.0


From 1f3be256b4bcaf9af5bd405f50b192f1c0446c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:39 +0000
Subject: [PATCH 52/52] fix: widths and offsets near the limit of the positions
 neither overflow nor hang

---
 src/segment/stride.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 0c6911d..7174b34 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -7,6 +7,10 @@ use crate::byte::ByteStream;
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
 
+// no stream is as long as this. the pitch is clamped to it, so that positions can be added to it
+// without an overflow.
+const MAX_PITCH: usize = isize::MAX as usize / 4;
+
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
 pub struct ConstSlicerParams {
     margin: (isize, isize),
@@ -20,7 +24,7 @@ impl ConstSlicerParams {
         if pitch == 0 {
             return Err(anyhow!("the width of slices must not be zero"));
         }
-        let pitch = pitch as isize;
+        let pitch = std::cmp::min(pitch, MAX_PITCH) as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
         let expr = expr.unwrap_or("s..e");
@@ -43,9 +47,10 @@ impl ConstSlicerParams {
         let head_margin = if start >= 0 {
             start
         } else {
+            // skip the slices that end before the head
             let mut margin = -start;
-            while margin >= span {
-                margin -= pitch;
+            if margin >= span {
+                margin -= (margin - span) / pitch * pitch + pitch;
             }
             -margin
         };
-- 
2.43.0

