From f7af296604be3b3ce93226853a0b7a55cc6a839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 01/29] fix: refuse objects with more data than their declared
 length

---
 src/parse/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..0fcacd9 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -161,6 +161,11 @@ impl<R: Read> Buffer<R> {
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
 
+        // Bytes beyond `size` may already have been buffered by `read_until`.
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
+
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
         // ahead of time, we can avoid this.
-- 
2.43.0


From aca80a2c9ba3d774b71616b7d70f4b00486ab23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 02/29] fix: do not allocate the declared length of an object
 before reading it

---
 src/parse/buffer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 0fcacd9..657f506 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -10,6 +10,9 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+/// The maximum number of bytes to request from the reader at once.
+const MAX_READ_LEN: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -184,6 +187,10 @@ impl<R: Read> Buffer<R> {
     /// Reads up to the byte at `end`, starting from `self.pos`, from the reader.
     fn fill_buf_to(&mut self, end: usize) -> io::Result<&[u8]> {
         if end > self.buffer.len() {
+            // The requested length usually comes from the data being read, so don't trust it
+            // to allocate more than one chunk ahead of the bytes actually available.
+            let end = end.min(self.buffer.len().saturating_add(MAX_READ_LEN));
+
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
-- 
2.43.0


From 314932a20c02571d509c0396202dfd50b82a91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 03/29] fix: append to the result when applying a delta command

---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..0a3e004 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -61,7 +61,7 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
-- 
2.43.0


From f498e8584188a5922fc4dadab82879c3f6d868aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 04/29] fix: recognise delta copy commands by their top bit

---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 0a3e004..5e03914 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -132,7 +132,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From 2ccf8f119746abca82269775dead51f363318d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/29] fix: keep unread bytes of a delta when clearing its
 buffer

---
 src/parse/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 657f506..05020e3 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -51,10 +51,10 @@ impl<R: Read> Buffer<R> {
         mem::take(&mut self.buffer).freeze().slice(range)
     }
 
-    /// Clear the internal buffer
+    /// Discard the part of the internal buffer which has already been observed.
     pub fn clear_buffer(&mut self) {
+        let _ = self.buffer.split_to(self.pos);
         self.pos = 0;
-        self.buffer.clear();
     }
 
     /// Create a parser for the given range of bytes.
-- 
2.43.0


From 4235baa6cb885c0eac9dd41be8bda1ce02b2f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 06/29] fix: do not allocate more than a delta produces

---
 src/object/database/packed/delta.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5e03914..e076c95 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -40,7 +40,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::new();
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,6 +61,9 @@ where
             }
         };
 
+        if src.len() > header.result_len - result.len() {
+            return Err(DeltaError::ResultLengthMismatch);
+        }
         result.extend_from_slice(src);
         delta.clear_buffer();
     }
-- 
2.43.0


From 21fd58bf1130eb648228bec0574e8e530203a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 07/29] fix: refuse pack entry and delta sizes that do not fit
 in a usize

---
 src/object/database/packed/delta.rs | 9 ++++++---
 src/object/database/packed/pack.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index e076c95..21b1b69 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -119,9 +119,12 @@ where
         let mut shift = 0;
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            len |= usize::from(byte & 0b0111_1111)
-                .checked_shl(shift)
-                .ok_or(DeltaError::InvalidHeader)?;
+            let bits = usize::from(byte & 0b0111_1111);
+            let shifted = bits.checked_shl(shift).ok_or(DeltaError::InvalidHeader)?;
+            if shifted >> shift != bits {
+                return Err(DeltaError::InvalidHeader);
+            }
+            len |= shifted;
             shift += 7;
         }
 
diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..735fbb9 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -258,9 +258,14 @@ impl<R: Read> parse::Buffer<R> {
         let mut shift = 4;
         while parser.remaining() != 0 {
             byte = parser.parse_byte()?;
-            len |= usize::from(byte & 0b0111_1111)
+            let bits = usize::from(byte & 0b0111_1111);
+            let shifted = bits
                 .checked_shl(shift)
                 .ok_or(ReadPackFileError::Other("invalid object size"))?;
+            if shifted >> shift != bits {
+                return Err(ReadPackFileError::Other("invalid object size"));
+            }
+            len |= shifted;
             shift += 7;
         }
 
-- 
2.43.0


From bd9ed55df8ab7c526a4cd09413e88a9b76b2e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 08/29] fix: inflate the base object of a packed object to its
 full length

---
 src/object/database/packed/pack.rs |  3 +--
 src/object/database/reader.rs      | 28 +++++++---------------------
 src/parse/buffer.rs                | 19 +++++++++++--------
 3 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 735fbb9..8ec47b4 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,7 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let base = buffer.decompress(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..b7f8e21 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,13 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    /// A compressed object
+    File(ZlibDecoder<BufReader<fs_err::File>>),
+    /// An object which has already been decompressed
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +27,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +37,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +65,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 05020e3..186fdb6 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -43,14 +43,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Discard the part of the internal buffer which has already been observed.
     pub fn clear_buffer(&mut self) {
         let _ = self.buffer.split_to(self.pos);
@@ -76,6 +68,17 @@ impl<R: Read> Buffer<R> {
         Buffer::new(reader)
     }
 
+    /// Decompress the zlib stream starting from the first byte not yet observed, which must
+    /// contain exactly `size` bytes.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress(&mut self, size: usize) -> Result<Bytes, Error> {
+        self.clear_buffer();
+        let buffered = mem::take(&mut self.buffer);
+        let reader = ZlibDecoder::new(buffered.as_ref().chain(self.reader.by_ref()));
+        Buffer::new(reader).read_to_end(size)
+    }
+
     /// Read an exact number of bytes and create a parser.
     pub fn read_exact_as_parser(&mut self, size: usize) -> Result<Parser<&[u8]>, Error> {
         let range = self.read_exact(size)?;
-- 
2.43.0


From 1b5b4451de24e47fb600eed93d04e941ec41bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 09/29] fix: inflate deltas to their full length

---
 src/object/database/packed/pack.rs |  7 ++++++-
 src/parse/buffer.rs                | 11 -----------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 8ec47b4..ae0e731 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -202,7 +202,12 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let commands = buffer.decompress(delta.header.len)?;
+        let result = apply_delta(
+            delta.header.kind,
+            &base,
+            &mut parse::Buffer::new(commands.as_ref()),
+        )?;
 
         Ok(self
             .cache
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 186fdb6..062c6fb 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -57,17 +57,6 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
-        debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
-
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
-    }
-
     /// Decompress the zlib stream starting from the first byte not yet observed, which must
     /// contain exactly `size` bytes.
     ///
-- 
2.43.0


From 0169f583ea2a994fd050a3cc7dbbefc898b8c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 10/29] fix: apply a chain of deltas starting from its base

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index ae0e731..1a424c7 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,7 +127,8 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
+        // The chain is ordered from the requested object to the one closest to the base.
+        for entry in chain.into_iter().rev() {
             let (new_header, new_base) = self.apply_delta(base, entry)?;
             header = new_header;
             base = new_base;
-- 
2.43.0


From 48cc06cd9c365f5b9b163fefc37697cea6d0f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 11/29] fix: give a delta the type of its base object

---
 src/object/database/packed/pack.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 1a424c7..12fc3a0 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -129,7 +129,7 @@ impl PackFile {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
         // The chain is ordered from the requested object to the one closest to the base.
         for entry in chain.into_iter().rev() {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -196,6 +196,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -204,11 +205,7 @@ impl PackFile {
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
         let commands = buffer.decompress(delta.header.len)?;
-        let result = apply_delta(
-            delta.header.kind,
-            &base,
-            &mut parse::Buffer::new(commands.as_ref()),
-        )?;
+        let result = apply_delta(kind, &base, &mut parse::Buffer::new(commands.as_ref()))?;
 
         Ok(self
             .cache
-- 
2.43.0


From 90b0f021985165a729445157cc9263fa30bb7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 12/29] fix: refuse a cycle of deltas

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 12fc3a0..fd1072f 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -187,7 +187,8 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            // Every object in a chain is distinct, and the base is not part of it.
+            if base_offset == offset || chain.len() as u64 >= u64::from(self.count) {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From fe02e778786015c70d4005a4b30ec1fe83ec824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 13/29] fix: decode multi-byte delta offsets as git encodes
 them

---
 src/object/database/packed/pack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index fd1072f..44f551a 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -286,11 +286,14 @@ impl<R: Read> parse::Buffer<R> {
             .ok_or(ReadPackFileError::Other("invalid delta offset"))?;
         let parser = &mut self.parser(range);
 
-        let mut offset: u64 = 0;
+        // Each continuation adds one, so that every distance has exactly one encoding.
+        let mut offset = u64::from(parser.parse_byte()? & 0b0111_1111);
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            offset = offset
+                .saturating_add(1)
+                .saturating_mul(1 << 7)
+                .saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From b580d1c9dd7046cc8243614d0c5a8bac125880b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 14/29] fix: refuse a pack index with a partial table of large
 offsets

---
 src/object/database/packed/index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..d46119b 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -134,6 +134,12 @@ impl IndexFile {
                 "index length is an invalid length",
             ));
         }
+        // Anything after the fixed size tables is a table of 8-byte offsets.
+        if (parser.remaining() - min_size) % 8 != 0 {
+            return Err(ReadIndexFileError::Other(
+                "index length is an invalid length",
+            ));
+        }
 
         Ok(IndexFile {
             data: parser.into_inner(),
-- 
2.43.0


From 15e96fb9a80b730c643f7ff55a58105b88ab8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 15/29] fix: keep digits and signs at the ends of a name or
 email

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..e745e61 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,7 +22,7 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-- 
2.43.0


From 422a59a23a10563bcdf67acf075ad40780817adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 16/29] fix: accept names and emails which are not utf-8

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index e745e61..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From ca27ca992a24c6565442d3628d3ead19bf967fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 17/29] fix: refuse a sign in the length of an object header

---
 src/object/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/object/parse.rs b/src/object/parse.rs
index baf512f..888d0ed 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -134,6 +134,9 @@ impl<B: AsRef<[u8]>> Parser<B> {
             .ok_or(ParseHeaderError::Other("failed to parse object length"))?;
         let len = str::from_utf8(&self[len])
             .map_err(|_| ParseHeaderError::Other("failed to parse object length"))?;
+        if !len.bytes().all(|byte| byte.is_ascii_digit()) {
+            return Err(ParseHeaderError::Other("failed to parse object length"));
+        }
         let len = usize::from_str(&len).map_err(|_| ParseHeaderError::LengthTooBig)?;
 
         Ok(ObjectHeader { kind, len })
-- 
2.43.0


From 36f806b41b35cc52d58c1ba7f647d85530c77d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 18/29] fix: refuse a sign in the mode of a tree entry

---
 src/object/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/object/tree.rs b/src/object/tree.rs
index 2031e25..53a6f07 100644
--- a/src/object/tree.rs
+++ b/src/object/tree.rs
@@ -40,6 +40,9 @@ impl Tree {
                 .consume_until(b' ')
                 .ok_or(ParseTreeError("invalid mode"))?;
             let mode = str::from_utf8(&parser[mode]).map_err(|_| ParseTreeError("invalid mode"))?;
+            if mode.starts_with('+') {
+                return Err(ParseTreeError("invalid mode"));
+            }
             let mode = u16::from_str_radix(mode, 8).map_err(|_| ParseTreeError("invalid mode"))?;
 
             let filename = parser
-- 
2.43.0


From ef89365c2d45aeecf579fb9a3636149954663a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 19/29] fix: list no references from folders which do not exist

---
 src/reference/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..40920a8 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -108,6 +108,7 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From 8ebf33be099ce6930ab0e58ec6bdf880ca56cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 20/29] fix: report errors from listing a reference folder

---
 src/reference/database.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 40920a8..2e8ce64 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -100,12 +100,12 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
-                    Err(error) => vec![Err(Error::Io(error))],
+                .flat_map(|f| {
+                    match f.and_then(|f| Ok((f.path(), f.file_type()?.is_dir()))) {
+                        Ok((path, true)) => self.get_file_paths_from_dir(&path),
+                        Ok((path, false)) => vec![Ok(path)],
+                        Err(error) => vec![Err(Error::Io(error))],
+                    }
                 })
                 .collect(),
             Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
-- 
2.43.0


From 85a6716dd6e2107a6548e9367dfd4499b86b36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 21/29] fix: keep backslashes in reference names except on
 windows

---
 src/reference/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 2e8ce64..b370a72 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -119,7 +119,7 @@ impl ReferenceDatabase {
                 bytes
                     .iter()
                     .map(|b| match b {
-                        b'\\' => b'/',
+                        b'\\' if cfg!(windows) => b'/',
                         _ => *b,
                     })
                     .collect()
-- 
2.43.0


From 3a9b2ae34526ea991578f2c34aaa14552ba877d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 22/29] fix: refuse reference names which leave the git
 directory

---
 src/reference.rs          |  2 ++
 src/reference/database.rs | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..e72fef9 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -30,6 +30,8 @@ pub struct Reference {
 pub enum Error {
     #[error("reference not found")]
     ReferenceNotFound,
+    #[error("reference name is not a relative path inside the git directory")]
+    ReferenceNameInvalid,
     #[error(
         "reference was stored as invalid Utf16, on windows reference names must be valid utf16"
     )]
diff --git a/src/reference/database.rs b/src/reference/database.rs
index b370a72..a9e93d6 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
@@ -73,7 +73,16 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        // Joining any other component could give a path outside of the git directory.
+        if !name
+            .components()
+            .all(|part| matches!(part, Component::Normal(_) | Component::CurDir))
+        {
+            return Err(Error::ReferenceNameInvalid);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
-- 
2.43.0


From 0a99cc14e02aa425435d7d0a9e3e8b30335f3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 23/29] fix: report a loop of symbolic references

---
 src/reference.rs          |  2 ++
 src/reference/direct.rs   |  2 +-
 src/reference/symbolic.rs | 23 ++++++++++++++++++-----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index e72fef9..b08701b 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -30,6 +30,8 @@ pub struct Reference {
 pub enum Error {
     #[error("reference not found")]
     ReferenceNotFound,
+    #[error("symbolic references form a loop")]
+    ReferenceLoop,
     #[error("reference name is not a relative path inside the git directory")]
     ReferenceNameInvalid,
     #[error(
diff --git a/src/reference/direct.rs b/src/reference/direct.rs
index be9b3a9..3dd0967 100644
--- a/src/reference/direct.rs
+++ b/src/reference/direct.rs
@@ -2,7 +2,7 @@ use crate::object::{Id, Object};
 use crate::reference::{Error, ParseError};
 use crate::repository::Repository;
 
-#[derive(Debug, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct Direct {
     id: Id,
 }
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..971ad09 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -1,11 +1,12 @@
 use bstr::{BStr, ByteSlice};
+use std::collections::BTreeSet;
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
-#[derive(PartialEq)]
+#[derive(Clone, PartialEq)]
 pub struct Symbolic {
     direct_peel: Option<Direct>,
     data: Vec<u8>,
@@ -31,9 +32,21 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
-        match &self.direct_peel {
-            Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+        let mut seen = BTreeSet::new();
+        let mut current = self.clone();
+        loop {
+            if let Some(direct) = &current.direct_peel {
+                return direct.object(repo);
+            }
+
+            let reference = repo.reference_database().reference(&current.data)?;
+            if !seen.insert(current.data) {
+                return Err(Error::ReferenceLoop);
+            }
+            current = match reference.target {
+                ReferenceTarget::Direct(direct) => return direct.object(repo),
+                ReferenceTarget::Symbolic(symbolic) => symbolic,
+            };
         }
     }
 }
-- 
2.43.0


From 04836b554ea9fa8dc8fbd6c1a1ff0a72c0535923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 24/29] fix: parse symbolic and direct references as written

---
 src/reference/parser.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..91ee7b0 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -1,4 +1,3 @@
-use bstr::ByteSlice;
 use std::io::{self, Read};
 use std::ops::Range;
 
@@ -69,24 +68,20 @@ impl<R: Read> Parser<R> {
             .read_until_valid_reference_line()?
             .ok_or_else(|| ParseError::Empty)?;
 
-        let mut line = &self.buffer[range];
+        let line = &self.buffer[range];
 
         if line.starts_with(SYMBOLIC_PREFIX) {
-            line = &line[SYMBOLIC_PREFIX.len()..];
+            let name = trim_end(&line[SYMBOLIC_PREFIX.len()..]);
+            return Ok(ReferenceTarget::Symbolic(Symbolic::from_bytes(name, None)?));
         }
 
-        let peel = match memchr(b' ', line) {
+        let line = trim_end(line);
+        let target = match memchr(b' ', line) {
             Some(ch_pos) => {
-                let p = line[..ch_pos].trim_end();
-                line = &line[(ch_pos + 1)..];
-                Some(p)
+                let (peel, name) = (&line[..ch_pos], &line[(ch_pos + 1)..]);
+                ReferenceTarget::Symbolic(Symbolic::from_bytes(name, Some(peel))?)
             }
-            None => None,
-        };
-
-        let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+            None => ReferenceTarget::Direct(Direct::from_bytes(line)?),
         };
 
         Ok(target)
@@ -124,6 +119,12 @@ impl<R: Read> Parser<R> {
     }
 }
 
+/// Names may contain any unicode white space, so only remove ascii white space.
+fn trim_end(line: &[u8]) -> &[u8] {
+    let end = line.iter().rposition(|byte| !byte.is_ascii_whitespace());
+    &line[..end.map_or(0, |pos| pos + 1)]
+}
+
 #[cfg(test)]
 mod tests {
     use super::{ParseError, Parser};
-- 
2.43.0


From e872d9bec72e9c26e4592f5db951e6f12792d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 25/29] fix: write a loose object under a temporary name until
 it is complete

---
 src/object/database/loose.rs | 45 ++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..e2fe558 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -79,22 +81,51 @@ impl LooseObjectDatabase {
         }
 
         path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
+        match fs_err::metadata(&path) {
+            Ok(_) => {
                 let _ = set_file_mtime(path, FileTime::now());
                 return Ok(id);
             }
+            Err(err) if err.kind() == io::ErrorKind::NotFound => (),
             Err(err) => return Err(err.into()),
-        };
+        }
 
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
+        // Write to a temporary file first, so that the object only appears under its
+        // name once it is complete.
+        let (file, temp_path) = create_temp_file(&path)?;
+        let result =
+            write_compressed(file, bytes).and_then(|()| fs_err::rename(&temp_path, &path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
         Ok(id)
     }
 }
 
+/// Creates a new file with a unique name in the same folder as `path`.
+fn create_temp_file(path: &Path) -> io::Result<(fs_err::File, PathBuf)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let count = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let temp_path = path.with_file_name(format!("tmp_obj_{}_{}", process::id(), count));
+        match OpenOptions::new().create_new(true).write(true).open(&temp_path) {
+            Ok(file) => return Ok((fs_err::File::from_parts(file, &temp_path), temp_path)),
+            // A file left over from an earlier process with the same id.
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?;
+    Ok(())
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From 2a771b5b247b1da485b3cc427561c740d3c077c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 26/29] fix: report an object as not found if there is no pack
 folder

---
 src/object/database/packed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..c9a7ffa 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,13 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            // There are no packs to find if the folder does not exist.
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+            Err(err) => return Err(err.into()),
+        };
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From 4f4e3366c93aa7d104b1bed924b7cce4f3d7abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 27/29] fix: ignore packs whose files are removed while they
 are opened

---
 src/object/database/packed.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index c9a7ffa..1b80bc5 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -143,9 +143,16 @@ impl PackedObjectDatabase {
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
-                self.packs
+                match self
+                    .packs
                     .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))?;
+                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))
+                {
+                    Ok(_) => (),
+                    // The pack may be in the middle of being added or removed.
+                    Err(err) if err.is_not_found() => (),
+                    Err(err) => return Err(err.into()),
+                }
             }
         }
 
@@ -154,6 +161,18 @@ impl PackedObjectDatabase {
     }
 }
 
+impl ReadEntryError {
+    fn is_not_found(&self) -> bool {
+        match &self.kind {
+            ReadEntryErrorKind::ReadIndexFile(ReadIndexFileError::Io(err))
+            | ReadEntryErrorKind::ReadPackFile(ReadPackFileError::Io(err)) => {
+                err.kind() == io::ErrorKind::NotFound
+            }
+            _ => false,
+        }
+    }
+}
+
 impl Entry {
     fn open(path: PathBuf) -> Result<Self, ReadEntryError> {
         // The file has an extension so it must have a file name
-- 
2.43.0


From 308c54cb1ba9ca91620f7f2496e48cc06e0fb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 28/29] fix: look for new packs before reporting an object as
 not found

---
 src/object/database.rs        |  2 +-
 src/object/database/packed.rs | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..dec80c2 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -72,7 +72,7 @@ impl ObjectDatabase {
 
         // object may have just been packed, try again
         self.packed
-            .read_object(&ShortId::from(id))
+            .refresh_and_read_object(&ShortId::from(id))
             .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
     }
 
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 1b80bc5..56f9d4a 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,11 +83,23 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
+            Err(ReadPackedError::NotFound) if self.refresh(false)? => {
+                self.try_read_object(short_id)
+            }
             result => result,
         }
     }
 
+    /// Look for packs which were added since the last refresh, however recent it is, and read
+    /// the object from them.
+    pub(in crate::object::database) fn refresh_and_read_object(
+        &self,
+        short_id: &ShortId,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        self.refresh(true)?;
+        self.try_read_object(short_id)
+    }
+
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
         let mut result = None;
         let mut found_id = None;
@@ -123,12 +135,12 @@ impl PackedObjectDatabase {
         }
     }
 
-    fn refresh(&self) -> Result<bool, ReadPackedError> {
+    fn refresh(&self, force: bool) -> Result<bool, ReadPackedError> {
         // Keep the mutex locked while refreshing so we don't have multiple thread refreshing simultaneously.
         // This isn't necessary for correctness, but is just an optimization.
         let mut last_refresh_guard = self.last_refresh.lock().unwrap();
         match *last_refresh_guard {
-            Some(last_refresh) if last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
+            Some(last_refresh) if !force && last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
                 return Ok(false)
             }
             _ => (),
-- 
2.43.0


From 6996abc5f8f6fa72c53c7d26bee1d134252a0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 29/29] fix: find the message of a tag which has other headers

---
 src/object/tag.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/object/tag.rs b/src/object/tag.rs
index fe47d60..b029f21 100644
--- a/src/object/tag.rs
+++ b/src/object/tag.rs
@@ -49,10 +49,12 @@ impl Tag {
 
         let tagger = parser.parse_signature(b"tagger ")?;
 
-        let message = if parser.consume_bytes(b"\n") {
-            Some(parser.pos())
-        } else {
-            None
+        let message = loop {
+            if parser.consume_bytes(b"\n") {
+                break Some(parser.pos());
+            } else if parser.consume_until(b'\n').is_none() {
+                break None;
+            }
         };
 
         Ok(Tag {
-- 
2.43.0

