From 61ca24c0a3da366c5173c4f547205ef0352ed012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:27 +0000
Subject: [PATCH 01/15] fix: TokioReader reads the requested range

The buffer handed to read() had capacity but no length, so nothing was ever read and every request ended in EndOfFile; a short read was an error as well.
---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..5ca5124 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -113,8 +113,8 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
         file.seek(SeekFrom::Start(range.start)).await?;
 
         let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        let mut buffer = Vec::new();
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From faf4d668728cce390a1e2e3f1d891d422d453b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:27 +0000
Subject: [PATCH 02/15] fix: reverse the predictor per band in planar tiles

Each band of a planar tile is differenced on its own, so neighbouring samples are one sample apart and a row holds tile_width samples.
---
 src/tile.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..1faf47b 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -86,6 +86,11 @@ impl Tile {
             ))?;
 
         let samples = self.samples_per_pixel as usize;
+        // In planar configuration every band is encoded on its own, one sample per pixel.
+        let predictor_samples = match self.planar_configuration {
+            PlanarConfiguration::Chunky => samples,
+            PlanarConfiguration::Planar => 1,
+        };
         let bits_per_sample = self.bits_per_sample;
         // tile_width is the full encoded tile width — predictor must use this, not the cropped width
         let tile_width = self.width as usize;
@@ -131,12 +136,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                predictor_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From 1da673a6d4fc651e4cf2db2a92385a55bc935018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:27 +0000
Subject: [PATCH 03/15] fix: report a cycle in the IFD chain instead of reading
 forever

---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..f980249 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeSet, HashMap};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// Offsets of the IFDs already read, to detect cycles in the IFD chain.
+    visited_ifd_offsets: BTreeSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            visited_ifd_offsets: BTreeSet::new(),
         })
     }
 
@@ -112,11 +115,15 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.visited_ifd_offsets.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
+            self.visited_ifd_offsets.insert(ifd_start);
             self.next_ifd_offset = next_ifd_offset;
             Ok(Some(ifd))
         } else {
-- 
2.43.0


From 5eeaab905649188dd97060567a409942b39985cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:27 +0000
Subject: [PATCH 04/15] fix: no byte range for tiles outside the tile grid

A column past the end of a row silently named a tile of the next row, other positions (or offset tables shorter than the grid) panicked.
---
 src/ifd.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..cf18127 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -720,6 +720,8 @@ impl ImageFileDirectory {
     }
 
     /// Find the byte range(s) for the tile located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or has no such tile.
     pub fn tile_byte_range(&self, x: usize, y: usize) -> Option<TileByteRange> {
         TileByteRange::from_ifd_tile(self, x, y)
     }
@@ -739,9 +741,9 @@ impl ImageFileDirectory {
         y: usize,
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Tile> {
-        let byte_ranges = self
-            .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tile_byte_range(x, y).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF or tile index out of bounds".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -752,9 +754,9 @@ impl ImageFileDirectory {
         xy: &[(usize, usize)],
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Vec<Tile>> {
-        let byte_ranges = self
-            .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tiles_byte_ranges(xy).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF or tile index out of bounds".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -766,6 +768,9 @@ impl ImageFileDirectory {
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
+        if self.tile_width? == 0 || self.tile_height? == 0 {
+            return None;
+        }
         let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
         let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
         Some((x_count as usize, y_count as usize))
@@ -796,24 +801,31 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                let offset = *tile_offsets.get(idx)?;
+                let byte_count = *tile_byte_counts.get(idx)?;
+                Some(TileByteRange::Chunky(
+                    offset..offset.checked_add(byte_count)?,
+                ))
             }
             PlanarConfiguration::Planar => {
                 let tiles_per_band = tiles_per_row * tiles_per_col;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = band
+                            .checked_mul(tiles_per_band)?
+                            .checked_add((y * tiles_per_row) + x)?;
+                        let offset = *tile_offsets.get(band_idx)?;
+                        let byte_count = *tile_byte_counts.get(band_idx)?;
+                        Some(offset..offset.checked_add(byte_count)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From a52f8f14b74462cb953f14101a70e5843855c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:08 +0000
Subject: [PATCH 05/15] fix: return an error for invalid tag types, ASCII
 values and truncated inline values

These panicked while parsing a malformed file.
---
 src/metadata/reader.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index f980249..b4d2f62 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -278,9 +278,12 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type = Type::from_u16(tag_type_code).ok_or_else(|| {
+        TiffError::FormatError(TiffFormatError::Format(format!(
+            "Unknown tag type {tag_type_code}"
+        )))
+    })?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
@@ -363,11 +366,10 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
             Type::ASCII => {
-                if data.as_ref()[0] == 0 {
+                if data.read_u8()? == 0 {
                     TagValue::Ascii("".to_string())
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::LONG8 => {
@@ -419,22 +421,18 @@ async fn read_tag_value<F: MetadataFetch>(
 
         match tag_type {
             Type::BYTE | Type::UNDEFINED => {
-                return {
-                    Ok(TagValue::List(
-                        (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
-                    ))
-                };
+                let mut v = Vec::new();
+                for _ in 0..count {
+                    v.push(TagValue::Byte(data.read_u8()?));
+                }
+                return Ok(TagValue::List(v));
             }
             Type::SBYTE => {
-                return {
-                    Ok(TagValue::List(
-                        (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
-                    ))
+                let mut v = Vec::new();
+                for _ in 0..count {
+                    v.push(TagValue::SignedByte(data.read_i8()?));
                 }
+                return Ok(TagValue::List(v));
             }
             Type::ASCII => {
                 let mut buf = vec![0; count as usize];
@@ -445,8 +443,7 @@ async fn read_tag_value<F: MetadataFetch>(
                     let v = v.trim_matches(char::from(0));
                     return Ok(TagValue::Ascii(v.into()));
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::SHORT => {
-- 
2.43.0


From dc76a423d882a709048fa86289885740d8d498be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:08 +0000
Subject: [PATCH 06/15] fix: return an error when metadata offsets overflow

---
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index b4d2f62..e97f96b 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -210,6 +210,17 @@ impl ImageFileDirectoryReader {
         })
     }
 
+    /// The byte offset of the entry with the specified index, or of the end of the entries.
+    fn entry_offset(&self, tag_idx: u64) -> AsyncTiffResult<u64> {
+        let offset = self
+            .ifd_entry_byte_size
+            .checked_mul(tag_idx)
+            .and_then(|entries| entries.checked_add(self.tag_count_byte_size))
+            .and_then(|size| size.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError)?;
+        Ok(offset)
+    }
+
     /// Manually read the tag with the specified index.
     ///
     /// Panics if the tag index is out of range of the tag count.
@@ -222,8 +233,7 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
@@ -245,9 +255,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
@@ -323,7 +331,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
-- 
2.43.0


From 6d046babeb9ff0b2f58754942b7a0f30c0c50da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:08 +0000
Subject: [PATCH 07/15] fix: do not allocate by counts that the file only
 claims

A tag or entry count is only known to be real once its bytes have arrived; allocating by it up front aborts on malformed files.
---
 src/metadata/cache.rs  |  7 ++-----
 src/metadata/reader.rs | 35 +++++++++++++++++++----------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..edf2047 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,7 +79,7 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
-            let mut out = BytesMut::with_capacity(out_len);
+            let mut out = BytesMut::with_capacity(out_buffers.iter().map(|b| b.len()).sum());
             for b in out_buffers {
                 out.extend_from_slice(&b);
             }
@@ -158,7 +155,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index e97f96b..843da12 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -244,7 +244,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::new();
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -520,63 +520,63 @@ async fn read_tag_value<F: MetadataFetch>(
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -586,7 +586,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -596,36 +596,39 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
             let mut buf = cursor.read(count).await?;
+            if (buf.as_ref().len() as u64) < count {
+                return Err(AsyncTiffError::EndOfFile(count, buf.as_ref().len() as u64));
+            }
+            let mut out = vec![0; count as _];
             buf.read_exact(&mut out)?;
 
             // Strings may be null-terminated, so we trim anything downstream of the null byte
-- 
2.43.0


From 049068016617c6dda1e4773abee75eec9607b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 08/15] fix: reject unknown predictor, planar configuration and
 photometric codes

An unknown predictor or planar configuration was read as if the tag were absent, giving wrong pixels; an unknown photometric interpretation or a resolution that is not a rational panicked.
---
 src/ifd.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index cf18127..c480b50 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -5,7 +5,9 @@ use std::sync::Arc;
 use bytes::Bytes;
 use num_enum::TryFromPrimitive;
 
-use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError};
+use crate::error::{
+    AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError,
+};
 use crate::geo::{GeoKeyDirectory, GeoKeyTag};
 use crate::reader::{AsyncFileReader, Endianness};
 use crate::tag_value::TagValue;
@@ -211,8 +213,10 @@ impl ImageFileDirectory {
                     compression = Some(Compression::from_u16_exhaustive(value.into_u16()?))
                 }
                 Tag::PhotometricInterpretation => {
-                    photometric_interpretation =
+                    photometric_interpretation = Some(
                         PhotometricInterpretation::from_u16(value.into_u16()?)
+                            .ok_or(TiffUnsupportedError::UnknownInterpretation)?,
+                    )
                 }
                 Tag::ImageDescription => image_description = Some(value.into_string()?),
                 Tag::StripOffsets => strip_offsets = Some(value.into_u64_vec()?),
@@ -224,14 +228,18 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => return Err(TiffFormatError::InvalidTagValueType(tag).into()),
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => return Err(TiffFormatError::InvalidTagValueType(tag).into()),
                 },
                 Tag::PlanarConfiguration => {
-                    planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
+                    let code = value.into_u16()?;
+                    planar_configuration = Some(
+                        PlanarConfiguration::from_u16(code)
+                            .ok_or(TiffFormatError::UnknownPlanarConfiguration(code))?,
+                    )
                 }
                 Tag::ResolutionUnit => {
                     resolution_unit = ResolutionUnit::from_u16(value.into_u16()?)
@@ -240,7 +248,12 @@ impl ImageFileDirectory {
                 Tag::DateTime => date_time = Some(value.into_string()?),
                 Tag::Artist => artist = Some(value.into_string()?),
                 Tag::HostComputer => host_computer = Some(value.into_string()?),
-                Tag::Predictor => predictor = Predictor::from_u16(value.into_u16()?),
+                Tag::Predictor => {
+                    let code = value.into_u16()?;
+                    predictor = Some(
+                        Predictor::from_u16(code).ok_or(TiffFormatError::UnknownPredictor(code))?,
+                    )
+                }
                 Tag::ColorMap => color_map = Some(Arc::from(value.into_u16_vec()?)),
                 Tag::TileWidth => tile_width = Some(value.into_u32()?),
                 Tag::TileLength => tile_height = Some(value.into_u32()?),
-- 
2.43.0


From a436f6928e1cc4f2ae6bddc4c1ad1a21424d0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 09/15] fix: return an error when a required tag is missing or
 BitsPerSample is empty

---
 src/ifd.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index c480b50..b4ddc28 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -385,7 +385,15 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let required = |tag| TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag));
+        let samples_per_pixel = samples_per_pixel.ok_or_else(|| required(Tag::SamplesPerPixel))?;
+        let bits_per_sample = bits_per_sample.ok_or_else(|| required(Tag::BitsPerSample))?;
+        if bits_per_sample.is_empty() {
+            return Err(TiffError::FormatError(TiffFormatError::RequiredTagEmpty(
+                Tag::BitsPerSample,
+            ))
+            .into());
+        }
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -398,14 +406,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or_else(|| required(Tag::ImageWidth))?,
+            image_height: image_height.ok_or_else(|| required(Tag::ImageLength))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or_else(|| required(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From 2b90d5d53116b2bb7593bdc35d9559816c2f5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 10/15] fix: return an error for a malformed geo key directory

---
 src/ifd.rs | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index b4ddc28..d15a195 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -308,25 +308,22 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let invalid = || TiffError::FormatError(TiffFormatError::InvalidTag);
+            let mut chunks = data.chunks_exact(4);
 
-            let header = chunks
-                .next()
-                .expect("If the geo key directory exists, a header should exist.");
+            let header = chunks.next().ok_or_else(invalid)?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
-
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_directory_version != 1 || key_revision != 1 {
+                return Err(invalid().into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
             let mut tags = HashMap::with_capacity(number_of_keys as usize);
             for _ in 0..number_of_keys {
-                let chunk = chunks
-                    .next()
-                    .expect("There should be a chunk for each key.");
+                let chunk = chunks.next().ok_or_else(invalid)?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -349,11 +346,11 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoAsciiParams, then we
                     // need to extract a subslice from GeoAsciiParams
 
-                    let geo_ascii_params = geo_ascii_params
-                        .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
+                    let geo_ascii_params = geo_ascii_params.as_ref().ok_or_else(invalid)?;
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(invalid)?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -366,17 +363,15 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoDoubleParams, then we
                     // need to extract a subslice from GeoDoubleParams
 
-                    let geo_double_params = geo_double_params
-                        .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
+                    let geo_double_params = geo_double_params.as_ref().ok_or_else(invalid)?;
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(invalid)?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From 61b06222d2fa440912f6be09c28351093d28f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 11/15] fix: return an error for tile data that does not match
 its description

Truncated or malformed tile data, zero-sized tiles, unsupported bit depths and planar bitmasks panicked in decode.
---
 src/array.rs     |  7 +++++--
 src/decoder.rs   | 15 +++++++++++----
 src/predictor.rs | 21 ++++++++++++++++-----
 src/tile.rs      |  8 ++------
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..e00db74 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -1,7 +1,7 @@
 use bytemuck::{cast_slice, cast_vec, try_cast_vec};
 
 use crate::data_type::DataType;
-use crate::error::{AsyncTiffError, AsyncTiffResult};
+use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError};
 
 /// A 3D array that represents decoded TIFF image data.
 #[derive(Debug, Clone)]
@@ -29,7 +29,10 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or(TiffError::IntSizeError)?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..4a64d7a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -7,7 +7,9 @@ use std::io::{Cursor, Read};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
-use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{
+    AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError,
+};
 use crate::tags::{Compression, PhotometricInterpretation};
 
 /// A registry of decoders.
@@ -240,7 +242,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
+        let decoded = decoder
+            .decode(&buffer)
+            .map_err(|err| AsyncTiffError::General(format!("failed to decode LZW data: {err}")))?;
         Ok(decoded)
     }
 }
@@ -379,8 +383,11 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_len = jpeg_tables
+                .len()
+                .checked_sub(2)
+                .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..03e37e5 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,17 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
+) -> AsyncTiffResult<Vec<u8>> {
+    if bits_per_sample > 64 {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
     let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
     let row_stride = tile_width * samples * bytes_per_sample;
+    if row_stride == 0 {
+        return Ok(buffer);
+    }
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +75,7 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -79,21 +87,21 @@ fn rev_hpredict_row(row: &mut [u8], bits_per_sample: u16, samples: usize) {
             }
         }
         9..=16 => {
-            for i in (samples * 2..row.len()).step_by(2) {
+            for i in (samples * 2..row.len() / 2 * 2).step_by(2) {
                 let v = u16::from_ne_bytes(row[i..][..2].try_into().unwrap());
                 let p = u16::from_ne_bytes(row[i - 2 * samples..][..2].try_into().unwrap());
                 row[i..][..2].copy_from_slice(&v.wrapping_add(p).to_ne_bytes());
             }
         }
         17..=32 => {
-            for i in (samples * 4..row.len()).step_by(4) {
+            for i in (samples * 4..row.len() / 4 * 4).step_by(4) {
                 let v = u32::from_ne_bytes(row[i..][..4].try_into().unwrap());
                 let p = u32::from_ne_bytes(row[i - 4 * samples..][..4].try_into().unwrap());
                 row[i..][..4].copy_from_slice(&v.wrapping_add(p).to_ne_bytes());
             }
         }
         33..=64 => {
-            for i in (samples * 8..row.len()).step_by(8) {
+            for i in (samples * 8..row.len() / 8 * 8).step_by(8) {
                 let v = u64::from_ne_bytes(row[i..][..8].try_into().unwrap());
                 let p = u64::from_ne_bytes(row[i - 8 * samples..][..8].try_into().unwrap());
                 row[i..][..8].copy_from_slice(&v.wrapping_add(p).to_ne_bytes());
@@ -120,6 +128,9 @@ pub(crate) fn unpredict_float(
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
+    if row_stride == 0 {
+        return Ok(buffer);
+    }
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index 1faf47b..24e2d5b 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -105,10 +105,7 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -122,7 +119,6 @@ impl Tile {
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
@@ -139,7 +135,7 @@ impl Tile {
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From 4cb46d084e9fb81b4f74c570697aeca0be582122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:09 +0000
Subject: [PATCH 12/15] fix: return 16-bit JPEG 2000 samples instead of
 panicking

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4a64d7a..fd9b0bc 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,7 +278,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From 8b62affa6d7fed1b1118532dc73025acb55762ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:07 +0000
Subject: [PATCH 13/15] fix: accept a single wider integer where a list of
 shorts is wanted

---
 src/tag_value.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tag_value.rs b/src/tag_value.rs
index 4b4d4e9..d3e7bdd 100644
--- a/src/tag_value.rs
+++ b/src/tag_value.rs
@@ -237,6 +237,8 @@ impl TagValue {
             }
             Byte(val) => Ok(vec![val.into()]),
             Short(val) => Ok(vec![val]),
+            Unsigned(val) => Ok(vec![u16::try_from(val)?]),
+            UnsignedBig(val) => Ok(vec![u16::try_from(val)?]),
             val => Err(TiffError::FormatError(TiffFormatError::ShortExpected(val))),
         }
     }
-- 
2.43.0


From 14750fcc8b3811a1e859891d211d34e90966a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:04 +0000
Subject: [PATCH 14/15] fix: an empty range over HTTP is empty instead of an
 overflow or the whole file

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5ca5124..87e436e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -200,6 +200,10 @@ impl ReqwestReader {
     }
 
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
+        if range.is_empty() {
+            // There is no way to ask for nothing in an HTTP range request
+            return Ok(Bytes::new());
+        }
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-- 
2.43.0


From 42618dfe5405a2fff4bf5614a3df9e2492f2f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:21 +0000
Subject: [PATCH 15/15] fix: cut the range out of an HTTP answer that ignores
 it

---
 src/reader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 87e436e..3f48d29 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -207,15 +207,21 @@ impl ReqwestReader {
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-        let range = format!("bytes={}-{}", range.start, range.end - 1);
+        let header = format!("bytes={}-{}", range.start, range.end - 1);
         let response = client
             .get(url)
-            .header("Range", range)
+            .header("Range", header)
             .send()
             .await?
             .error_for_status()?;
+        let partial = response.status() == reqwest::StatusCode::PARTIAL_CONTENT;
         let bytes = response.bytes().await?;
-        Ok(bytes)
+        if partial {
+            return Ok(bytes);
+        }
+        // A server may ignore the range and send the whole resource
+        let len = bytes.len() as u64;
+        Ok(bytes.slice(range.start.min(len) as usize..range.end.min(len) as usize))
     }
 }
 
-- 
2.43.0

